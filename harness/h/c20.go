package h

import (
	"bytes"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	"github.com/cespedes/accounting/zzvx/vx"
)

// anyByte has all the values of a byte.
var anyByte = func() string {
	var b [256]byte
	for i := range b {
		b[i] = byte(i)
	}
	return string(b[:])
}()

// use does everything that can be done with an opened ledger: nothing of it may crash.
func use(l *accounting.Ledger) {
	c := l.Clone()
	var out bytes.Buffer
	ledger.Export(&out, c)
	times := []time.Time{{}, noon(2020, 1, 1)}
	for _, t := range c.Transactions {
		for _, s := range t.Splits {
			_, _ = s.Value.String(), s.Value.FullString()
			for _, cur := range append(c.Currencies, c.DefaultCurrency) {
				_, _ = c.Convert(s.Value, t.Time, cur)
			}
		}
		c.TransactionsInInterval(t.Time, times[1])
	}
	for _, a := range c.Accounts {
		_ = a.FullName()
		for _, t := range times {
			_ = c.GetBalance(a, t).String()
		}
		c.TransactionsInAccount(a.ID)
		c.Account(a.ID)
	}
	_ = c.Fill()
}

// survive opens a text, which may be refused, and uses it.
func survive(text string) {
	vx.MapOrder(false)
	vx.Assert(!vx.Try(func() {
		l, err := journal(text)
		if err != nil {
			return
		}
		vx.Cover("opened")
		use(l)
	}), "never-crashes")
}

// C20_file: any text of up to three bytes.
func C20_file() { survive(vx.String("text", vx.Choose("length", 4+vx.Tier()), anyByte)) }

// entries are places in a journal for any text.
var entries = []string{
	"P ", "P 2020-01-01 ", "P 2020-01-01 USD ", "D ", "commodity ", "account ", "2020-01-01 ", "2020-01-", "include ",
	"2020-01-01 x\n", "2020-01-01 x\n ", "2020-01-01 x\n  A  ",
	"2020-01-01 x\n  A  1.00 EUR", "2020-01-01 x\n  A  1 EUR @", "2020-01-01 x\n  A  2 EUR @@ 3 USD", "2020-01-01 x\n  A  =",
	"2020-01-01 x\n  A  1 EUR = ", "2020-01-01 x\n  A  1 EUR ; date:", "account A\n ;",
}

// C20_line: any three bytes at each of 19 places in a journal, alone or with complete entries around.
func C20_line() {
	k := vx.Choose("place", len(entries))
	s := vx.String("text", 2+vx.Tier(), anyByte)
	if vx.Choose("around", 2) == 0 {
		survive(entries[k] + s)
		return
	}
	survive("D 1.00 EUR\nP 2020-01-01 EUR 2 USD\n2020-01-01 y\n  A  5 EUR\n  B\n" + entries[k] + s + "\n  B\nP 2020-01-03 USD 2 EUR\n2020-01-04 z\n  C  1\n  B\n")
}

// C20_amount: any text of four characters of numbers, punctuation and marks (or five of fewer kinds) as the amount of a posting, its
// price or its asserted balance, with or without an established format.
func C20_amount() {
	n, alphabet := 4, "01.,'-=@ E"
	if vx.Tier() > 0 {
		alphabet = "01.,_'+-=@ E"
		if vx.Choose("longer", 2) == 1 {
			n, alphabet = 5, "1.,'-E"
		}
	}
	s := vx.String("text", n, alphabet)
	before := []string{"", "commodity 1,000.00 EUR\n", "D 1.000,0\n"}[vx.Choose("before", 3)]
	survive(before + "2020-01-01 x\n  A  " + []string{"", "7.2 EUR @", "7.2 EUR @@ ", "5.5 EUR = "}[vx.Choose("where", 4)] + s + "\n  B\n")
}

// C20_decimals: an amount with up to twelve decimals and up to ten integer digits, some of them any, as the first or second one of
// its currency, in each place where an amount can be; opened and used, and displayed by a command.
func C20_decimals() {
	ni, nd := 1, vx.Choose("decimals", 13)
	if vx.Choose("ints", 2) == 1 {
		ni = 10
	}
	d := string(digits("digit", 1))
	s := "1234567890"[:ni-1] + d
	if nd > 0 {
		s += "." + "123456789012"[:nd-1] + d
	}
	text := []string{"", "commodity 1,000.00 EUR\n", "D 1.0 EUR\n"}[vx.Choose("before", 3)]
	text += []string{
		"2020-01-01 x\n  A  " + s + " EUR\n  B\n", "2020-01-01 x\n  A  1 USD @ " + s + " EUR\n  B\n",
		"2020-01-01 x\n  A  1 USD @@ " + s + " EUR\n  B\n", "2020-01-01 x\n  A  0 EUR = " + s + " EUR\n  B\n",
		"P 2020-01-01 USD " + s + " EUR\n2020-01-01 x\n  A  1 EUR\n  B\n", "D " + s + " EUR\n2020-01-01 x\n  A  1 EUR\n  B\n",
		"commodity " + s + " EUR\n2020-01-01 x\n  A  1 EUR\n  B\n",
	}[vx.Choose("where", 7)]
	survive(text)
	c := [][]string{{"balance"}, {"export"}, {"print"}, {"stats"}}[vx.Choose("command", 2+2*vx.Tier())]
	_, code := vx.RunMain(append([]string{"-f", vx.WriteFile("main.journal", text)}, c...)...)
	vx.Assert(code == 0 || code == 1, "command-never-crashes")
}

// lineKinds is lines of 28 kinds with a digit.
func lineKinds(d string) []string {
	return []string{
		"", "account A", "account A:B:C", "account :", "commodity 1." + d + "0 EUR", "commodity EUR", "D", "D " + d + ".0", "D EUR",
		"P 2020-01-02 EUR " + d + " USD", "P 2020-01-02 USD " + d + ".0 EUR", "P 2020-01-02 EUR " + d, "P 2020-01-02 EUR -" + d + " EUR",
		"2020-01-01 x", "2020-01-0" + d + " y", " A", "  A  " + d + ".0 EUR", "  A  -" + d + ".0 EUR @ 1" + d + " USD", "  B  " + d + " @@ 0 USD",
		"  A:B  = " + d + ".0 EUR", "  B  0 EUR = " + d + " USD", "  ; date:2020-01-0" + d, "; x", "\t; y", "include main.journal", "include other",
		"  A  1.0,0." + d + " EUR", "P 2020-01-02 EUR x",
	}
}

// C20_lines: any three (four) lines of 28 kinds, with any digits, and again any of three of them in a file included.
func C20_lines() {
	d := string(digits("digit", 1))
	kinds := lineKinds(d)
	n := 3 + vx.Tier()
	text := ""
	for i := 0; i < n; i++ {
		text += kinds[vx.Choose("line", len(kinds))] + "\n"
	}
	vx.WriteFile("other", "  A  1 USD\n2020-01-05 z\n  B  "+d+" EUR\n  A")
	survive(text)
}

// C20_commands: a journal with any two lines of 28 kinds, within a transaction or apart, and each of 20 commands.
func C20_commands() {
	vx.MapOrder(false)
	c := commandList[vx.Choose("command", len(commandList))]
	d := ""
	if c[0] == "stats" { // its division by the days is beyond the machinery when a date is symbolic
		d = []string{"0", "1", "9"}[vx.Choose("stats digit", 3)]
	} else {
		d = string(digits("digit", 1))
	}
	kinds := lineKinds(d)
	text := []string{"", "D 1.00 EUR\n2020-01-01 y\n  A  5 EUR\n  B\n"}[vx.Choose("before", 2)]
	for i := 0; i < 2; i++ {
		text += kinds[vx.Choose("line", len(kinds))] + "\n"
	}
	text += []string{"", "  C\n"}[vx.Choose("after", 2)]
	vx.WriteFile("other", "  A  1 USD\n2020-01-05 z\n  B  "+d+" EUR\n  A")
	f := vx.WriteFile("main.journal", text)
	_, code := vx.RunMain(append([]string{"-f", f}, c...)...)
	vx.Assert(code == 0 || code == 1, "command-never-crashes")
	vx.Cover("ran")
}

var argByte = anyByte[1:]

// C20_options: any text of the length of a year, a month of the 2020s or a day or of four other lengths as begin and end, and any
// three bytes but 0 as pattern, currency or pivot, and two (three) of seven as commodity.
func C20_options() {
	vx.MapOrder(false)
	f := vx.WriteFile("main.journal", "D 1.00 EUR\nP 2020-01-01 USD 2 EUR\n2020-01-01 x\n  A  5 EUR\n  B:C\n2020-01-02 x\n  A  5 USD\n  B:C\n")
	var args []string
	switch k := vx.Choose("option", 6); k {
	case 0, 1:
		n := []int{1, 4, 5, 7, 8, 10, 12}[vx.Choose("length", 7)]
		date := vx.String("date", n, "0123456789-/:.")
		if n == 7 {
			date = "202" + date[3:]
		}
		args = []string{[]string{"-b", "-e"}[k], date, "balance"}
	case 2:
		args = []string{"balance", vx.String("pattern", 3, argByte)}
	case 3:
		args = []string{"-currency", vx.String("currency", 3, argByte), "balance"}
	case 4:
		args = []string{"-pivot", vx.String("pivot", 3, argByte), "is"}
	case 5:
		args = []string{"price", vx.String("commodity", 2+vx.Tier(), "UE \"\\\n\x7f")}
	}
	_, code := vx.RunMain(append([]string{"-f", f}, args...)...)
	vx.Assert(code == 0 || code == 1, "command-never-crashes")
	vx.Cover("ran")
}
