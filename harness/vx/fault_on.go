// +build vxfault

package vx

import (
	"io"
	"os"
	"syscall"
)

// The replay build lays a copy of os/file.go over the standard library's, with the hook VXReadHook in File.Read.
func failing(path string) {
	prev := os.VXReadHook
	os.VXReadHook = func(name string, n int, err error) (int, error) {
		if name == path && err == io.EOF {
			return 0, &os.PathError{Op: "read", Path: name, Err: syscall.EIO}
		}
		if prev != nil {
			return prev(name, n, err)
		}
		return n, err
	}
}
