package h

import (
	"strings"

	"github.com/cespedes/accounting/zzvx/vx"
)

// row is a line of a report: an amount in units with its currency, or none, and a name, or none.
type row struct {
	has  bool
	n    int64
	cur  string
	name string
}

// scanAmount reads an amount with decimals after a point, grouped by commas or not, at the beginning of s.
func scanAmount(s string) (n int64, rest string, ok bool) {
	i, sign, decs := 0, int64(1), -1
	if i < len(s) && s[i] == '-' {
		sign = -1
		i++
	}
	start := i
	for ; i < len(s); i++ {
		c := s[i]
		if c == '.' && decs < 0 {
			decs = 0
		} else if c >= '0' && c <= '9' {
			n = 10*n + int64(c-'0')
			if decs >= 0 {
				decs++
			}
		} else if c != ',' || decs >= 0 {
			break
		}
	}
	if i == start {
		return 0, s, false
	}
	for ; decs < 8; decs++ {
		if decs < 0 {
			continue
		}
		n *= 10
	}
	return sign * n, s[i:], true
}

// scanRow reads a line like "  -1,000.00 EUR   name".
func scanRow(s string) (r row) {
	s = strings.TrimLeft(s, " ")
	n, rest, ok := scanAmount(s)
	if !ok {
		r.name = s
		return
	}
	r.has, r.n = true, n
	rest = strings.TrimLeft(rest, " ")
	if i := strings.IndexByte(rest, ' '); i >= 0 {
		r.cur, r.name = rest[:i], strings.TrimLeft(rest[i:], " ")
	} else {
		r.cur = rest
	}
	return
}

// lines splits what a command printed.
func lines(out string) []string {
	if out == "" {
		return nil
	}
	vx.Assert(out[len(out)-1] == '\n', "complete-lines")
	return strings.Split(out[:len(out)-1], "\n")
}

// money is an amount per currency.
type money map[string]int64

func (m money) add(cur string, n int64) { m[cur] += n }

// checkMoney asserts that rows give every non-zero amount of m once, and no other.
func checkMoney(rows []row, m money, label string) {
	for cur, n := range m {
		k := 0
		for _, r := range rows {
			if r.has && r.cur == cur && r.n == n {
				k++
			}
		}
		if n == 0 {
			continue
		}
		vx.Assert(k == 1, label)
	}
	for _, r := range rows {
		if r.has && r.n != 0 {
			n, ok := m[r.cur]
			vx.Assert(ok && n == r.n, label)
		}
	}
}

// move is a posting of a book.
type move struct {
	acc  string
	day  int64 // of January 2020
	cur  string
	text string
	n    int64
}

// wanted is the sum of the moves of one account.
func wanted(ms []move, acc string) money {
	m := money{}
	for _, x := range ms {
		if x.acc == acc {
			m.add(x.cur, x.n)
		}
	}
	return m
}

func twoDigits(n int64) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }

// pay writes a transaction from an account to another.
func pay(day string, from, to string, text, cur string) string {
	return "2020-01-" + day + " x\n  " + to + "  " + text + " " + cur + "\n  " + from + "\n"
}

func run(args ...string) string {
	out, code := vx.RunMain(args...)
	vx.Assert(code == 0, "runs")
	return out
}
