package h

import (
	"bytes"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	"github.com/cespedes/accounting/zzvx/vx"
)

// reopen exports l and opens what was exported.
func reopen(l *accounting.Ledger) *accounting.Ledger {
	var out bytes.Buffer
	ledger.Export(&out, l)
	vx.MustNotExit("no-exit")
	l2, err := accounting.Open(vx.WriteFile("again.journal", out.String()))
	vx.Assert(err == nil, "opens-again")
	return l2
}

// sameFormat compares two currencies by the way they display amounts.
func sameFormat(a, b *accounting.Currency) bool {
	d1, d2 := a.Decimal, b.Decimal
	if d1 == "" {
		d1 = "."
	}
	if d2 == "" {
		d2 = "."
	}
	return a.Name == b.Name && a.PrintBefore == b.PrintBefore && a.WithoutSpace == b.WithoutSpace && a.Thousand == b.Thousand &&
		d1 == d2 && a.Precision == b.Precision
}

// established chooses a format that a journal can establish: without decimals, the decimal mark is the default one.
func established() accounting.Currency {
	c := format()
	if vx.Tier() == 0 {
		vx.Assume(c.Precision <= 3 || c.Precision == 8)
	}
	if c.Decimal == "" {
		vx.Assume(c.Thousand == "" && c.Precision == 0)
	}
	if c.Precision == 0 && c.Thousand != "." {
		vx.Assume(c.Decimal == "." || c.Decimal == "")
	}
	if c.Precision == 0 && c.Thousand == "." {
		vx.Assume(c.Decimal == ",")
	}
	return c
}

func checkThrough(c accounting.Currency, a int64) {
	l, err := open(func(l *accounting.Ledger) {
		acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
		l.Accounts = acc
		l.Currencies = []*accounting.Currency{&c}
		t := &accounting.Transaction{ID: id("t"), Time: day(1), Description: "x"}
		v := accounting.Value{Amount: a, Currency: &c}
		t.Splits = []*accounting.Split{{Account: acc[0], ID: id("s"), Value: v}, {Account: acc[1], ID: id("s"), Value: accounting.Value{Amount: -a, Currency: &c}}}
		l.Transactions = []*accounting.Transaction{t}
	})
	vx.Assert(err == nil, "opens")
	l2 := reopen(l)
	vx.Assert(len(l2.Transactions) == 1 && len(l2.Transactions[0].Splits) == 2, "postings-kept")
	s := l2.Transactions[0].Splits
	vx.Assert(vx.And(s[0].Value.Amount == a, s[1].Value.Amount == -a), "same-amount")
	vx.Assert(len(l2.Currencies) == 1 && s[0].Value.Currency == l2.Currencies[0] && s[1].Value.Currency == l2.Currencies[0], "same-currency")
	vx.Assert(sameFormat(&c, l2.Currencies[0]), "same-format")
}

// C17_formats: every amount of 64 bits but the lowest one (positive and negative), in every format a journal can
// establish (thousands mark: none or one of four; decimal mark: one of four; precision 0, 1, 2, 3 or 8, thorough: 0 to
// 8), currency after: exported by the real exporter and opened again.
func C17_formats() {
	c := established()
	checkThrough(c, vx.Int64("amount", -1<<63+1, 1<<63-1))
}

// C17_sides: the same for both sides, with and without space, several names, marks "," and "." or none, precision 0, 2
// or 8.
func C17_sides() {
	c := accounting.Currency{Decimal: ".", Precision: []int{0, 2, 8}[vx.Choose("precision", 3)]}
	c.Thousand = []string{"", ","}[vx.Choose("thousand", 2)]
	c.PrintBefore = vx.Choose("before", 2) == 1
	c.WithoutSpace = vx.Choose("without space", 2) == 1
	c.Name = []string{"EUR", "$", "A-1/b"}[vx.Choose("name", 3)]
	vx.Assume(!(c.PrintBefore && c.WithoutSpace && c.Name == "A1"))
	checkThrough(c, vx.Int64("amount", -1<<63+1, 1<<63-1))
}

// C17_written: a commodity line written in any of the formats (digits any), and postings with and without decimals: the
// commodity line exported reads back as the same format, and the amounts (any digits) as the same amounts.
func C17_written() {
	c := established()
	vx.Assume(c.Decimal != "")
	n := []int{1, 4, 7}[vx.Choose("ints", 3)]
	text := group(append([]byte("1"), digits("commodity", n-1)...), c.Thousand)
	if c.Precision > 0 {
		text += c.Decimal + string(digits("cdec", c.Precision))
	}
	side := 3 * vx.Choose("side", 2)
	vx.MustNotExit("no-exit")
	d := "1"
	if vx.Choose("decimals", 2) == 1 {
		d += c.Decimal + string(digits("dec", 1+vx.Choose("nd", 2)))
		vx.Cover("decimals")
	}
	l, err := journal("commodity " + withCurrency(side, text, "EUR") + "\n2020-01-01 x\n  A  " + d + " EUR\n  B\n")
	vx.Assert(err == nil, "opens")
	if len(l.Currencies) == 0 || len(l.Transactions[0].Splits) != 2 {
		vx.Cover("refused")
		return // an ambiguous commodity line, such as 1.234
	}
	l2 := reopen(l)
	vx.Assert(len(l2.Transactions) == 1 && len(l2.Transactions[0].Splits) == 2, "postings-kept")
	vx.Assert(sameLedger(l, l2, true) == "", "same-books")
}
