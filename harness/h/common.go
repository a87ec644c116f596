// Package h holds the harnesses: each function states one property over symbolic inputs. Doc comments state bounds.
package h

import (
	"time"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/txtdb"
)

const U = accounting.U

// drv is an accounting backend which delivers whatever ledger the harness prepared.
type drv struct{}

type conn struct{}

func (*conn) Close() error { return nil }
func (*conn) Refresh()     {}

var fill func(l *accounting.Ledger)

func (drv) Open(name string, b *accounting.Backend) (accounting.Connection, error) {
	l := b.Ledger
	l.Comments = make(map[interface{}][]string)
	l.Assertions = make(map[*accounting.Split]accounting.Value)
	l.SplitPrices = make(map[*accounting.Split]accounting.Value)
	fill(l)
	return &conn{}, nil
}

func init() { accounting.Register("vx", drv{}) }

// open opens a ledger whose backend fills it with f.
func open(f func(l *accounting.Ledger)) (*accounting.Ledger, error) {
	fill = f
	return accounting.Open("vx:book")
}

type id string

func (i id) String() string { return string(i) }

const day0 = 946684800 // 2000-01-01

func at(sec int64) time.Time { return time.Unix(day0+sec, 0).UTC() }

// fine is a moment some nanoseconds after the first one.
func fine(ns int64) time.Time { return time.Unix(day0, ns).UTC() }

func day(d int64) time.Time { return at(d * 86400) }

var curNames = []string{"EUR", "USD", "GBP", "CHF", "JPY", "SEK"}

func newCur(i int) *accounting.Currency {
	return &accounting.Currency{ID: id("cur" + curNames[i]), Name: curNames[i], Decimal: ".", Precision: 2}
}

// maxAmt bounds symbolic amounts so that sums of up to eight stay in range.
const maxAmt = 1 << 59

// total is the sum of the entries of b in currency c, and the number of entries.
func total(b accounting.Balance, c *accounting.Currency) (sum int64, n int) {
	for _, v := range b {
		if v.Currency == c {
			sum += v.Amount
			n++
		}
	}
	return
}
