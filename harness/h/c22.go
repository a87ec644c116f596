package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// sameAmount compares values of two ledgers; zero needs no currency.
func sameAmount(v, w accounting.Value) bool {
	ok := v.Amount == w.Amount
	if curName(v) != curName(w) && !(v.Currency == nil && w.Currency == nil) {
		ok = vx.And(ok, v.Amount == 0)
	}
	return ok
}

// sameMoney compares balances of two ledgers by the names of currencies.
func sameMoney(a, b accounting.Balance) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for _, v := range a {
		n := 0
		for _, w := range b {
			if curName(v) == curName(w) {
				ok = vx.And(ok, v.Amount == w.Amount)
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return ok
}

func written(t *accounting.Transaction) (l []*accounting.Split) {
	for _, s := range t.Splits {
		if !s.Account.IsTransfer() {
			l = append(l, s)
		}
	}
	return
}

func byName(l *accounting.Ledger, name string) *accounting.Account {
	for _, a := range l.Accounts {
		if a.FullName() == name {
			return a
		}
	}
	return nil
}

// checkBooks asserts that two ledgers have the same transactions, balances at every time and prices.
func checkBooks(a, b *accounting.Ledger) {
	vx.Assert(len(a.Transactions) == len(b.Transactions), "same-transactions")
	var times []time.Time
	for i, x := range a.Transactions {
		y := b.Transactions[i]
		vx.Assert(x.Time.Equal(y.Time) && x.Description == y.Description, "same-date-and-description")
		s, r := written(x), written(y)
		vx.Assert(len(s) == len(r), "same-postings")
		times = append(times, x.Time)
		for j := range s {
			vx.Assert(s[j].Account.FullName() == r[j].Account.FullName(), "same-account")
			vx.Assert(s[j].Time.Equal(*r[j].Time), "same-date-of-posting")
			vx.Assert(sameAmount(s[j].Value, r[j].Value), "same-amount")
			times = append(times, *s[j].Time)
			v, ok1 := a.SplitPrices[s[j]]
			w, ok2 := b.SplitPrices[r[j]]
			vx.Assert(ok1 == ok2 && (!ok1 || sameAmount(v, w)), "same-price-of-posting")
			v, ok1 = a.Assertions[s[j]]
			w, ok2 = b.Assertions[r[j]]
			vx.Assert(ok1 == ok2 && (!ok1 || sameAmount(v, w)), "same-assertion")
		}
	}
	vx.Assert(len(a.Accounts) == len(b.Accounts), "same-accounts")
	times = append(times, time.Time{})
	for _, x := range a.Accounts {
		y := byName(b, x.FullName())
		vx.Assert(y != nil && y.Level == x.Level, "same-accounts")
		for _, t := range times {
			vx.Assert(sameMoney(a.GetBalance(x, t), b.GetBalance(y, t)), "same-balances")
		}
	}
	vx.Assert(len(a.Prices) == len(b.Prices), "same-market-prices")
	for i, p := range a.Prices {
		q := b.Prices[i]
		vx.Assert(p.Time.Equal(q.Time) && p.Currency.Name == q.Currency.Name && curName(p.Value) == curName(q.Value), "same-market-prices")
		vx.Assert(p.Value.Amount == q.Value.Amount, "same-market-prices")
	}
}

// checkExport exports l, opens that, and exports and opens it again.
func checkExport(l *accounting.Ledger) {
	l2 := reopen(l)
	checkBooks(l, l2)
	checkBooks(l, reopen(l2))
	vx.Cover("exported")
}

// C22_postings: a journal of a transaction of three postings (any digits, if no price depends on them) with or without a price, an assertion, another
// date and an elided amount, followed by one without amounts but an asserted balance, in four formats of currencies.
func C22_postings() {
	vx.MapOrder(false)
	text := []string{"", "commodity 1.000,00 EUR\n", "commodity EUR1'000.000\naccount B\n", "D $1,000.00\n"}[vx.Choose("format", 4)]
	price := vx.Choose("price", 3)
	second := vx.Choose("second", 3)
	n := []string{"1.0", "-3.00000007"}[vx.Choose("amount", 2)]
	if price == 0 && second < 2 {
		n, _ = amount("amount", 1, 1) // the rates that other transactions imply are not linear in it
	}
	text += []string{"2020-01-02 x\n", "2020-01-02/11:30:15 a  b\n"}[vx.Choose("time", 2)]
	text += "  A:B  " + n + " EUR" + []string{"", " @ 2 USD", " @@ 3.5 USD"}[price]
	text += []string{"", " = " + n + " EUR"}[vx.Choose("assertion", 2)]
	text += []string{"", " ; date:2020-01-01", " ; date:2020-01-05", " ; date:2020-01-02", " ; date:2020-01-02/12:00:01"}[vx.Choose("date", 5)]
	text += "\n  C  " + []string{"1.00 EUR", "-0.005 EUR", "7 USD"}[second] + " ; note\n    ; more\n  B\n"
	text += "2020-01-03 y\n  A:B  = " + []string{"5 EUR", "0 EUR"}[vx.Choose("last", 2)] + "\n  C\n"
	l, err := journal(text)
	if err != nil {
		return
	}
	checkExport(l)
}

// C22_prices: two price lines of any digits and a transaction which exchanges two currencies or has prices, in any order
// of their dates, with hours, minutes and seconds or not.
func C22_prices() {
	vx.MapOrder(false)
	p, _ := amount("price", 1, 2)
	q, _ := amount("price2", 1, 1+vx.Tier())
	times := []string{"2020-01-01", "2020-01-01/12:00", "2020-01-01/12:00:01", "2020-01-02"}
	t := vx.Choose("first", 4)
	u := vx.Choose("second", 4)
	vx.Assume(u >= t)
	text := "P " + times[t] + " USD " + p + " EUR ; note\n"
	text += "P " + times[u] + " " + []string{"USD", "GBP"}[vx.Choose("of", 2)] + " " + q + " EUR\n"
	tr := times[vx.Choose("when", 4)] + " x\n" + []string{"  A  3 USD\n  B  -2 EUR\n", "  A  3 USD @ 0.5 EUR\n  B\n", "  A  3 USD @@ 0 EUR\n  B  1 EUR @@ 2 GBP\n  C\n", "  A  1 USD\n  B\n"}[vx.Choose("transaction", 4)]
	text += tr
	l, err := journal(text)
	vx.Assert(err == nil, "opens")
	checkExport(l)
}

// C22_amounts: a ledger of two accounts and two currencies of any format and any amounts within 2^59, the first precise to
// eight decimals, with prices.
func C22_amounts() {
	vx.MapOrder(false)
	x := vx.Int64("amount", -maxAmt, maxAmt)
	y := vx.Int64("price", 1, 1<<30)
	c, d := newCur(0), newCur(1)
	k := vx.Choose("format", 2+vx.Tier())
	c.Precision = []int{2, 8, 0}[k]
	c.PrintBefore = k == 1
	c.Thousand = []string{"'", ",", ""}[k]
	d.WithoutSpace = k == 1
	l, err := open(func(l *accounting.Ledger) {
		acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
		acc = append(acc, &accounting.Account{Name: "C c", ID: id("c"), Parent: acc[0]})
		l.Accounts = acc
		l.Currencies = []*accounting.Currency{c, d}
		t := &accounting.Transaction{ID: id("t"), Time: day(1), Description: "x"}
		s := &accounting.Split{Account: acc[2], ID: id("s"), Value: accounting.Value{Amount: x, Currency: c}}
		t.Splits = []*accounting.Split{s, {Account: acc[1], ID: id("s"), Value: accounting.Value{Amount: -x, Currency: c}}}
		l.Transactions = []*accounting.Transaction{t}
		l.Prices = []*accounting.Price{{ID: id("p"), Time: day(2), Currency: c, Value: accounting.Value{Amount: y, Currency: d}}}
	})
	vx.Assert(err == nil, "opens")
	l2 := reopen(l)
	checkBooks(l, l2)
}

// C22_comments: comments of any three characters on each kind of entry, with its code, date or ISIN or without, do not change what an exported ledger opens as.
func C22_comments() {
	vx.MapOrder(false)
	c := vx.String("comment", 3, "aZ9 ;@=.*#:")
	lines := []string{"commodity 1,000.00 EUR", "account A", "account A:B", "P 2020-01-01 USD 2 EUR", "2020-01-01 x", "  A  1.00 EUR", "  B"}
	k := vx.Choose("line", len(lines))
	n := vx.Choose("below", 3)
	tag := ""
	if t := []string{"isin:XS01", "", "", "", "code:A7", "date:2020-01-03", "date:2020-01-02"}[k]; t != "" && vx.Choose("tag", 2) == 1 {
		tag = "\n ; " + t
	}
	text := ""
	for i, s := range lines {
		text += s
		if i == k {
			text += []string{" ; " + c, "\n  ; " + c, " ; one\n  ; " + c + "\n ; three"}[n] + tag
		}
		text += "\n"
	}
	l := read(text)
	checkExport(l)
}

// C22_descriptions: descriptions and account names of any three characters.
func C22_descriptions() {
	vx.MapOrder(false)
	d := vx.String("description", 3, "aZ9 =@:*,'\xc3")
	a := vx.String("account", 3, "aZ9 :")
	vx.Assume(a[0] != ' ' && a[2] != ' ' && !(a[1] == ' ' && a[2] == ':')) // blanks before a colon are not kept
	l := read("2020-01-01 " + d + "\n  " + a + "  1.00 EUR\n  B\n2020-01-02 z\n  B  1 EUR\n  " + a + ":C\n")
	checkExport(l)
}

// C22_empty: ledgers without transactions, or transactions without postings, with up to five kinds of other lines.
func C22_empty() {
	d := string(digits("digit", 1))
	text := ""
	for _, s := range []string{"commodity 1.00" + d + " EUR\n", "D 1" + d + "1,00 USD\n", "account X:Y\n", "P 2020-01-01 EUR " + d + " USD\n", "2020-01-01 nothing\n", "2020-01-02 " + d + "\n  A  " + d + " EUR\n  B\n"} {
		if vx.Choose("line", 2) == 1 {
			text += s
		}
	}
	checkExport(read(text))
}

// C22_textdb: a text database of accounts with or without parents, a transaction of two or three movements with amounts of any digits and
// hours or not, and a movement which gives a balance.
func C22_textdb() {
	vx.MapOrder(false)
	ip, dp := digits("amount", 2), digits("cents", 2)
	vx.Assume(ip[0] != '0')
	s := string(ip) + "." + string(dp)
	dates := []string{"2020-01-05", "2020-01-05 10.30", "2020-01-06"}
	one := dates[vx.Choose("date", 2)]
	two := dates[vx.Choose("date", 3)]
	text := "1:" + one + ":Some thing::1:+" + s + ":\n"
	switch vx.Choose("movements", 3) {
	case 0:
		text += "1:" + two + ":other::2:-" + s + ":\n"
	case 1:
		text += "1:" + two + ":other::2:-" + s[:1] + ":\n1:" + two + ":other::3:-" + string(ip[1:]) + "." + string(dp) + ":\n1:" + two + ":::1:-" + s[:1] + "0:\n1:" + two + ":::1:+" + s[:1] + ":\n"
	case 2:
		text += "1:" + two + ":::3:-" + s + ":\n"
		if vx.Choose("alone", 2) == 1 {
			text += "2:2020-01-07:check::1::" + s + "\n"
		} else {
			text += "2:2020-01-07:check::2:+" + s[:1] + "0:\n2:2020-01-07:::1::" + s[1:] + "\n"
		}
	}
	l, err := textDB(threeAccounts, text)
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) > 0, "read")
	checkExport(l)
	vx.Cover("exported")
}

// C22_acc: the acc program prints, of a journal (an amount of any digits, a price, a date apart) with or without its scheme, of one without transactions or of a text
// database, a journal which opens as the same books; of none or of an unreadable one it prints nothing.
func C22_acc() {
	vx.MapOrder(false)
	s := string(digits("amount", 1)) + ".2" + string(digits("cents", 1))
	f := vx.WriteFile("first.journal", "commodity 1.00 EUR\n2020-01-01 x\n  A:B  "+s+" EUR @@ 5.25 USD ; date:2020-01-03\n  C\nP 2020-01-02 USD 3.5 EUR\n")
	d := vx.Mkdir("db")
	vx.WriteFile("db/accounts", threeAccounts)
	vx.WriteFile("db/transactions", "1:2020-01-05 10.30:x::1:+1"+s+":\n1:2020-01-06:x::2:-1"+s+":\n")
	g := vx.WriteFile("quiet.journal", "commodity 1.00 EUR\naccount A\nP 2020-01-02 USD "+s+"1 EUR\n")
	args := [][]string{{f}, {"ledger:" + f}, {"txtdb:" + d}, {g}, {}, {f, f}, {f + "x"}, {"txtdb:" + f}, {"x:" + f}}[vx.Choose("arguments", 9)]
	out, code := vx.RunTool(args...)
	if len(args) != 1 || args[0] == f+"x" || args[0] == "txtdb:"+f || args[0] == "x:"+f {
		vx.Assert(code != 0, "error-exit")
		vx.Assert(out == "", "nothing-printed")
		vx.Cover("refused")
		return
	}
	vx.Assert(code == 0, "runs")
	l, err := accounting.Open(args[0])
	vx.Assert(err == nil, "opens")
	l2, err := journal(out)
	vx.Assert(err == nil, "exported-opens")
	checkBooks(l, l2)
	vx.Cover("exported")
}
