// Package vx is the interface between harnesses and the machinery. The symbolic executor replaces every
// function in it; this file is the native side, which replays one concrete execution of a harness with inputs
// taken from a counterexample.
package vx

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var (
	in     map[string]string
	count  = map[string]int{}
	out    *os.File
	dir    string
	loaded bool
)

func load() {
	if loaded {
		return
	}
	loaded = true
	in = map[string]string{}
	if f := os.Getenv("VX_IN"); f != "" {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &in); err != nil {
			panic(err)
		}
	}
	if f := os.Getenv("VX_OUT"); f != "" {
		out, _ = os.OpenFile(f, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	}
}

func emit(s string) {
	load()
	if out != nil {
		fmt.Fprintln(out, s)
	} else {
		fmt.Fprintln(os.Stderr, s)
	}
}

func next(name string) string {
	n := count[name]
	count[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func get(key string, def int64) int64 {
	load()
	s, ok := in[key]
	if !ok {
		emit("MISSING " + key)
		return def
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// Int64 is an integer in [lo, hi].
func Int64(name string, lo, hi int64) int64 { return get(next(name), lo) }

// Byte is a byte of alphabet.
func Byte(name, alphabet string) byte { return byte(get(next(name), int64(alphabet[0]))) }

// String is a string of n bytes of alphabet.
func String(name string, n int, alphabet string) string {
	key := next(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(fmt.Sprintf("%s[%d]", key, i), int64(alphabet[0])))
	}
	return string(b)
}

// Choose is an integer in [0, n); every value is explored separately.
func Choose(name string, n int) int { return int(get(next(name), 0)) }

// Assume restricts attention to executions in which c holds.
func Assume(c bool) {
	if !c {
		emit("ASSUME")
		os.Exit(0)
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		emit("VIOL " + label)
		os.Exit(3)
	}
}

// And, Or, Not, Imp, Iff and Ite evaluate without branching in the symbolic executor.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool { return !c }

func Imp(a, b bool) bool { return !a || b }

func Iff(a, b bool) bool { return a == b }

func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Cover marks a place every complete exploration must reach.
func Cover(label string) { emit("COVER " + label) }

// Observe records a value, to compare the model with the real execution.
func Observe(label string, v interface{}) {
	switch x := v.(type) {
	case string:
		emit(fmt.Sprintf("OBS %s=%q", label, x))
	default:
		emit(fmt.Sprintf("OBS %s=%v", label, x))
	}
}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { n, _ := strconv.Atoi(os.Getenv("VX_TIER")); return n }

// MapOrder switches exploration of map iteration orders.
func MapOrder(on bool) {}

// MustNotExit declares that ending the program from here on is a violation.
func MustNotExit(label string) { emit("NOEXIT " + label) }

// Dir is a scratch directory.
func Dir() string {
	load()
	if dir == "" {
		dir = os.Getenv("VX_DIR")
		if dir == "" {
			panic("VX_DIR not set")
		}
	}
	return dir
}

// WriteFile writes a file in the scratch directory.
func WriteFile(name, content string) string {
	p := filepath.Join(Dir(), name)
	if err := ioutil.WriteFile(p, []byte(content), 0644); err != nil {
		panic(err)
	}
	return p
}

// WriteFailing writes a file whose reading fails after failAt bytes.
func WriteFailing(name, content string, failAt int) string {
	p := WriteFile(name, content[:failAt])
	failing(p)
	return p
}

// Unopenable makes a file that exists but cannot be opened (its path is a loop of symbolic links).
func Unopenable(name string) string {
	p := filepath.Join(Dir(), name)
	if err := os.Symlink(p, p); err != nil {
		panic(err)
	}
	return p
}

// Mkdir makes a directory in the scratch directory.
func Mkdir(name string) string {
	p := filepath.Join(Dir(), name)
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	return p
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			emit("PANIC " + strings.Replace(fmt.Sprint(r), "\n", " ", -1))
			panicked = true
		}
	}()
	f()
	return
}

var env []string

// Setenv sets an environment variable of the commands run.
func Setenv(name, value string) { env = append(env, name+"="+value) }

// RunMain runs the ledger command in a new process.
func RunMain(args ...string) (string, int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return runProgram(exe, args)
}

// RunTool runs the other command that the property is about.
func RunTool(args ...string) (string, int) { return runProgram(os.Getenv("VX_TOOL"), args) }

func runProgram(exe string, args []string) (string, int) {
	cmd := exec.Command(exe, args...)
	cmd.Env = []string{"VX_MAIN=1", "HOME=/nonexistent", "PATH=/usr/bin:/bin"}
	cmd.Env = append(cmd.Env, env...)
	var o strings.Builder
	cmd.Stdout = &o
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-done
		return o.String(), 124
	}
	return o.String(), cmd.ProcessState.ExitCode()
}

// Run is called by the replay program.
func Run(f func()) {
	load()
	f()
	emit("DONE")
	os.Exit(0)
}
