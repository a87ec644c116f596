package h

import (
	"math/big"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// read opens a journal, which must not be refused.
func read(text string) *accounting.Ledger {
	vx.MustNotExit("no-exit")
	l, err := journal(text)
	vx.Assert(err == nil, "opens")
	return l
}

func noon(y, m, d int64) time.Time { return time.Unix(86400*civil(y, m, d)+43200, 0).UTC() }

// amount chooses an amount: its text (without currency) and its number in units.
func amount(name string, ints, decs int) (string, int64) {
	ip := digits(name, ints)
	dp := digits(name+".", decs)
	s, n := string(ip), number(ip, dp).Int64()
	if decs > 0 {
		s += "." + string(dp)
	}
	if vx.Choose(name+" sign", 2) == 1 {
		s, n = "-"+s, -n
	}
	return s, n
}

var names = []string{"A", "A:B", "C d:E", "A:B:C"}

func splitsOf(l *accounting.Ledger, n int) []*accounting.Split {
	vx.Assert(len(l.Transactions) > n, "transactions-kept")
	return l.Transactions[n].Splits
}

func curName(v accounting.Value) string {
	if v.Currency == nil {
		return "nil"
	}
	return v.Currency.Name
}

// C19_transactions: two transactions of one to three postings, with any days of a month, accounts chosen of four (parents and children), amounts with any digits in one of two currencies or
// without one, three ways to indent, with blank lines, comments and trailing blanks around or not.
func C19_transactions() {
	vx.MapOrder(false)
	type post struct {
		acc  string
		amt  int64
		cur  string
		none bool
	}
	noise := vx.Choose("noise", 3)
	most := 3
	if noise > 0 && vx.Tier() == 0 {
		most = 2
	}
	indent := []string{" ", "\t", "    "}[noise]
	end := []string{"\n", "  \n", "\r\n"}[noise]
	var text string
	var days [2]int64
	var descs [2]string
	var want [2][]post
	for i := 0; i < 2; i++ {
		d := digits("day", 2)
		days[i] = num(d)
		vx.Assume(days[i] >= 1 && days[i] <= 31)
		if i > 0 {
			vx.Assume(days[0] <= days[1])
		}
		descs[i] = []string{"First", "the  second: one"}[i]
		text += "2020-01-" + string(d) + " " + descs[i] + end
		if noise == 1 {
			text += "\n; comment\n# another  \n* and another\n  \n"
		}
		np := 2
		if i == 0 {
			np = 1 + vx.Choose("postings", most)
		}
		for j := 0; j < np; j++ {
			var p post
			p.acc = names[(i+j)%4]
			if i == 0 {
				p.acc = names[vx.Choose("account", 4-j)]
			}
			if j == np-1 && (i == 1 || vx.Choose("elided", 2) == 1) {
				p.none = true
				text += indent + p.acc + end
			} else {
				var s string
				if j == 0 {
					s, p.amt = amount("amount", 2, 1)
				} else {
					d := digits("amount", 2)
					s, p.amt = "-"+string(d), -number(d, nil).Int64()
				}
				if j == 0 && i == 0 {
					p.cur = []string{"EUR", "USD", ""}[vx.Choose("currency", 3)]
				} else {
					p.cur = "EUR"
				}
				text += indent + p.acc + "  " + withCurrency(0, s, p.cur) + end
			}
			want[i] = append(want[i], p)
		}
	}
	l, err := journal(text)
	if err != nil {
		vx.Cover("unbalanced")
		return // C01 says when
	}
	vx.Cover("opened")
	vx.Assert(len(l.Transactions) == 2, "two-transactions")
	for i, t := range l.Transactions {
		vx.Assert(t.Time.Equal(noon(2020, 1, 1).AddDate(0, 0, int(days[i])-1)), "date")
		vx.Assert(t.Description == descs[i], "description")
		vx.Assert(len(t.Splits) == len(want[i]), "number-of-postings")
		for j, s := range t.Splits {
			p := want[i][j]
			vx.Assert(s.Account.FullName() == p.acc, "account")
			vx.Assert(s.Transaction == t && s.Time.Equal(t.Time), "date-of-posting")
			if !p.none {
				vx.Assert(s.Value.Amount == p.amt, "amount")
				vx.Assert(curName(s.Value) == p.cur, "currency")
			}
			vx.Assert(len(l.Comments[s]) == 0, "no-comments")
		}
		vx.Assert(len(l.Comments[t]) == 0, "no-comments")
	}
	vx.Assert(len(l.SplitPrices) == 0 && len(l.Assertions) == 0, "no-posting-prices-nor-assertions")
	checkAccounts(l)
	checkCurrencies(l)
}

// C19_descriptions: a transaction and another of the same day with descriptions of up to four characters, any blanks
// before and after: the description is kept without those blanks.
func C19_descriptions() {
	n := vx.Choose("length", 5)
	d := vx.String("description", n, "aZ9 =@:*,'-\xc3")
	before := []string{" ", "   "}[vx.Choose("before", 2)]
	after := []string{"", "  ", "\t", "\r"}[vx.Choose("after", 4)]
	l := read("2020-01-01" + before + d + after + "\n  A  1 EUR\n  B\n2020-01-01 Other\n  B  1 EUR\n  A\n")
	vx.Assert(len(l.Transactions) == 2 && l.Transactions[1].Description == "Other", "two-transactions")
	i, j := 0, n
	for i < j && d[i] == ' ' {
		i++
	}
	for j > i && d[j-1] == ' ' {
		j--
	}
	vx.Assert(l.Transactions[0].Description == d[i:j], "description")
	vx.Assert(l.Transactions[0].Time.Equal(noon(2020, 1, 1)), "date")
	vx.Assert(len(l.Comments) == 0 && len(l.Accounts) == 3, "nothing-else")
}

// C19_names: postings in two accounts with names of up to four characters (any but at their ends, where there are letters), with amounts in
// two currencies of up to three, the first of each declared or not: the same exactly if their names are.
func C19_names() {
	acc := func() string {
		s := vx.String("account", 1, "aAbB\xc3")
		if n := vx.Choose("length", 3); n > 0 {
			s += vx.String("account", n-1, "aA: .") + vx.String("account", 1, "aAb")
		}
		for i := 1; i < len(s); i++ {
			vx.Assume(s[i-1] != ' ' || s[i] != ' ')
			vx.Assume(s[i-1] != ':' || s[i] != ':')
		}
		return s
	}
	cur := func(n int) string { return vx.String("currency", n, "aAb$") }
	a, b := acc(), acc()
	c, d := cur(1), cur(1)
	if vx.Choose("long", 2) == 1 {
		c, d = cur(2), c+d
	}
	text := ""
	if vx.Choose("declared", 2) == 1 {
		text = "account " + a + "\ncommodity 1.0 " + c + "\n"
	}
	text += "2020-01-01 x\n  " + a + "  1.0 " + c + "\n  Z\n2020-01-01 y\n  " + b + "  1.0 " + d + "\n  Z\n"
	l := read(text)
	vx.Assert(len(l.Transactions) == 2 && len(l.Transactions[0].Splits) == 2 && len(l.Transactions[1].Splits) == 2, "two-transactions")
	s, t := l.Transactions[0].Splits[0], l.Transactions[1].Splits[0]
	vx.Assert(s.Account.FullName() == a && t.Account.FullName() == b, "account")
	vx.Assert((s.Account == t.Account) == (a == b), "same-account-exactly-if-same-name")
	vx.Assert(s.Value.Currency.Name == c && t.Value.Currency.Name == d, "currency")
	vx.Assert((s.Value.Currency == t.Value.Currency) == (c == d), "same-currency-exactly-if-same-name")
	checkAccounts(l)
	checkCurrencies(l)
	vx.Cover("read")
}

// checkAccounts: no two accounts have the same name, and every account with a parent is its child.
func checkAccounts(l *accounting.Ledger) {
	for i, a := range l.Accounts {
		if a.IsTransfer() {
			continue
		}
		for _, b := range l.Accounts[:i] {
			vx.Assert(a.FullName() != b.FullName(), "same-name-same-account")
		}
		if a.Parent != nil {
			vx.Assert(a.Parent.FullName()+":"+a.Name == a.FullName() && accIndex(l, a.Parent) >= 0, "parent")
		} else {
			vx.Assert(strings.IndexByte(a.FullName(), ':') < 0, "parent")
		}
	}
}

func checkCurrencies(l *accounting.Ledger) {
	for i, a := range l.Currencies {
		for _, b := range l.Currencies[:i] {
			vx.Assert(a.Name != b.Name, "same-name-same-currency")
		}
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			c := s.Value.Currency
			if c != nil && c != l.DefaultCurrency && c.Name != "" {
				vx.Assert(curIndex(l.Currencies, c) >= 0, "currency-listed")
			}
		}
	}
}

// C19_prices: a posting with a unit or total price (or none), of one of two currencies, blank or not around the "@", and
// optionally an assertion after it, all digits and signs any: the price is the total price or the product, to the last
// decimal; the other posting has none.
func C19_prices() {
	as, a := amount("amount", 2, 2*vx.Choose("decimals", 2))
	ps, p := amount("price", 1+vx.Choose("pints", 2), 2)
	sp := []string{" ", ""}[vx.Choose("space", 2)]
	kind := vx.Choose("kind", 3)
	text := "2020-01-01 x\n  A  " + as + " EUR"
	if kind > 0 {
		text += sp + []string{"", "@", "@@"}[kind] + sp + ps + " USD"
	}
	assert := vx.Choose("assertion", 2) == 1
	if assert {
		text += " " + []string{"= ", "="}[vx.Choose("eq", 2)] + as + " EUR"
	}
	l := read(text + "\n  B\n")
	s := splitsOf(l, 0)
	vx.Assert(len(s) == 2, "number-of-postings")
	vx.Assert(s[0].Value.Amount == a && curName(s[0].Value) == "EUR", "amount")
	v, ok := l.SplitPrices[s[0]]
	vx.Assert(ok == (kind > 0) && len(l.SplitPrices) <= 1, "price-or-not")
	switch kind {
	case 1:
		k := new(big.Int).Mul(big.NewInt(a), big.NewInt(p))
		k.Quo(k, big.NewInt(U))
		vx.Assert(k.Cmp(big.NewInt(v.Amount)) == 0, "unit-price-multiplied")
	case 2:
		vx.Assert(v.Amount == p, "total-price")
	}
	if kind > 0 {
		vx.Assert(curName(v) == "USD", "currency-of-price")
	}
	v, ok = l.Assertions[s[0]]
	vx.Assert(ok == assert && len(l.Assertions) <= 1, "assertion-or-not")
	if assert {
		vx.Assert(v.Amount == a && curName(v) == "EUR", "assertion")
	}
}

// C19_assertions: postings with an asserted balance and no amount, or with both, digits any, after other postings.
func C19_assertions() {
	as, a := amount("amount", 2, 1)
	bs, b := amount("balance", 2, 1)
	sp := []string{" ", ""}[vx.Choose("space", 2)]
	l := read("2020-01-01 x\n  A  " + as + " EUR\n  B\n2020-01-02 y\n  A  =" + sp + bs + " EUR\n  B\n")
	s := splitsOf(l, 1)
	v, ok := l.Assertions[s[0]]
	vx.Assert(ok && v.Amount == b && len(l.Assertions) == 1, "assertion")
	vx.Assert(s[0].Value.Amount == b-a && s[1].Value.Amount == a-b, "amount-from-balance")
}

// C19_dates: a posting with a "date:" comment at the end of its line or below it (with other comments around or not),
// all its digits any, with or without hours and minutes: that is the date of the posting, and of no other.
func C19_dates() {
	y, m, d := digits("year", 1), digits("month", 2), digits("day", 2)
	date := "202" + string(y) + "-" + string(m) + "-" + string(d)
	mm := num(m)
	valid := mm >= 1 && mm <= 12
	if valid {
		valid = vx.And(num(d) >= 1, num(d) <= monthDays(2020+num(y), mm))
	}
	text := "2020-01-01 x\n  A  1.00 EUR"
	other := 0
	switch vx.Choose("where", 4) {
	case 0:
		text += " ; date:" + date
	case 1:
		text += ";date:" + date
	case 2:
		text += "\n  ; date:" + date
	case 3:
		text += " ; first\n    ; second\n    ; date:" + date + "\n    ; third"
		other = 3
	}
	l := read(text + "\n  B\n")
	s := splitsOf(l, 0)
	vx.Assert(len(s) >= 2, "postings-kept")
	want := noon(2020, 1, 1)
	if valid {
		vx.Cover("valid")
		vx.Assert(s[0].Time.Unix() == 86400*civil(2020+num(y), mm, num(d))+43200, "own-date")
	} else {
		vx.Cover("invalid")
		vx.Assert(s[0].Time.Equal(want), "wrong-date-ignored")
	}
	vx.Assert(s[1].Time.Equal(want) && l.Transactions[0].Time.Equal(want), "other-dates")
	vx.Assert(len(l.Comments[s[0]]) == other && len(l.Comments[s[1]]) == 0 && len(l.Comments[l.Transactions[0]]) == 0, "comments-left")
	if other == 3 {
		c := l.Comments[s[0]]
		vx.Assert(c[0] == "first" && c[1] == "second" && c[2] == "third", "other-comments")
	}
}

// C19_comments: a comment of any three characters (beginning and ending with any but a blank) at the end of each kind of
// line or below it, with any of the three marks: it belongs to that account, commodity, price, transaction or posting
// and changes nothing else.
func C19_comments() {
	c := vx.String("comment", 3, "aZ9 ;@=.*#")
	vx.Assume(c[0] != ' ' && c[2] != ' ')
	below := vx.Choose("below", 2) == 1
	lines := []string{"commodity 1,000.00 EUR", "account A", "P 2020-01-01 USD 2 EUR", "2020-01-01 x", "  A  1.00 EUR", "  B"}
	k := vx.Choose("line", 6)
	text, plain := "", ""
	for i, s := range lines {
		plain += s + "\n"
		text += s
		if i == k {
			if below {
				text += "\n" + []string{" ", "\t", "     "}[vx.Choose("indent", 3)] + []string{";", "#", "*"}[vx.Choose("mark", 3)] + []string{"", " "}[vx.Choose("space", 2)] + c
			} else {
				text += []string{" ; ", ";", "  ;"}[vx.Choose("before", 3)] + c
			}
		}
		text += "\n"
	}
	l := read(text)
	vx.Assert(sameLedger(l, read(plain), false) == "", "nothing-else-changes")
	vx.Assert(len(l.Transactions) == 1 && len(l.Transactions[0].Splits) == 2 && len(l.Prices) == 1 && len(l.Currencies) == 2, "all-lines-read")
	var where interface{}
	switch k {
	case 0:
		where = l.Currencies[0]
	case 1:
		where = l.Accounts[0]
	case 2:
		where = l.Prices[0]
	case 3:
		where = l.Transactions[0]
	default:
		where = l.Transactions[0].Splits[k-4]
	}
	vx.Assert(len(l.Comments) == 1, "only-there")
	vx.Assert(len(l.Comments[where]) == 1 && l.Comments[where][0] == c, "comment")
}

// C19_price_line: price lines with any day, amount, two commodities and blanks, before and between transactions.
func C19_price_line() {
	d := digits("day", 2)
	vx.Assume(num(d) >= 1 && num(d) <= 31)
	ps, p := amount("price", 2, 2)
	qs, q := amount("price2", 1, 8)
	text := "P 2020-01-" + string(d) + " USD " + ps + " EUR\n"
	t := "2020-01-15 x\n  A  1.00 USD\n  B\n"
	if vx.Choose("order", 2) == 1 {
		text += t
		t = ""
	}
	text += "P 2020-02-01/10:30  GBP  " + qs + " EUR ; last\n" + t
	l := read(text)
	vx.Assert(len(l.Prices) == 2 && len(l.Transactions) == 1, "prices-kept")
	a, b := l.Prices[0], l.Prices[1]
	vx.Assert(a.Time.Equal(noon(2020, 1, 1).AddDate(0, 0, int(num(d))-1)) && a.Currency.Name == "USD", "first")
	vx.Assert(a.Value.Amount == p && curName(a.Value) == "EUR", "first-price")
	vx.Assert(b.Time.Unix() == 86400*civil(2020, 2, 1)+37800 && b.Currency.Name == "GBP", "second")
	vx.Assert(b.Value.Amount == q && b.Value.Currency == a.Value.Currency, "second-price")
	vx.Assert(l.Transactions[0].Splits[0].Value.Currency == a.Currency, "same-name-same-currency")
	checkCurrencies(l)
}

// C19_directives: commodity, account and default currency lines in any of four forms each.
func C19_directives() {
	as, a := amount("amount", 2, 1)
	isin := vx.String("isin", 2, "AZ09")
	code := vx.String("code", 2, "az09.")
	text := "commodity 1.000,000 EUR"
	cc := vx.Choose("commodity", 3)
	switch cc {
	case 1:
		text += " ; isin:" + isin
	case 2:
		text += "\n  ; isin:" + isin
	}
	text += "\naccount A:B"
	ac := vx.Choose("account", 3)
	switch ac {
	case 1:
		text += " ; code:" + code
	case 2:
		text += "\n\t; code:" + code
	}
	dc := vx.Choose("default", 4)
	text += []string{"", "\nD 1.000,00 EUR", "\nD EUR", "\nD 1000.00"}[dc]
	as = strings.Replace(as, ".", ",", 1)
	text += "\n2020-01-01 x\n  A:B  "
	if dc == 3 {
		as = strings.Replace(as, ",", ".", 1)
	}
	text += as
	if dc == 0 {
		text += " EUR"
	}
	l := read(text + "\n  A\n")
	s := splitsOf(l, 0)
	vx.Assert(len(s) == 2 && s[0].Value.Amount == a, "amount")
	c := l.Currencies[0]
	vx.Assert(len(l.Currencies) == 1 && c.Name == "EUR" && c.Thousand == "." && c.Decimal == "," && c.Precision == 3, "commodity")
	if cc > 0 {
		vx.Assert(c.ISIN == isin, "isin")
	} else {
		vx.Assert(c.ISIN == "", "isin")
	}
	switch dc {
	case 0:
		vx.Assert(l.DefaultCurrency == nil && s[0].Value.Currency == c, "no-default")
	case 1, 2:
		vx.Assert(l.DefaultCurrency == c && s[0].Value.Currency == c, "default-currency")
	case 3:
		d := l.DefaultCurrency
		vx.Assert(d != nil && d.Name == "" && d.Precision == 2 && s[0].Value.Currency == d, "default-currency-without-name")
	}
	vx.Assert(len(l.Accounts) == 3 && l.Accounts[1].FullName() == "A:B" && l.Accounts[1].Parent == l.Accounts[0], "accounts")
	if ac > 0 {
		vx.Assert(l.Accounts[1].Code == code && l.Accounts[0].Code == "", "code")
	} else {
		vx.Assert(l.Accounts[1].Code == "", "code")
	}
	vx.Assert(s[0].Account == l.Accounts[1] && s[1].Account == l.Accounts[0], "accounts-of-postings")
	vx.Assert(len(l.Comments) == 0, "no-comments")
}

// C19_include: two transactions, prices and accounts of which any consecutive lines (of whole entries) are in a file
// that is included, in the same folder, in another or within a second included file: the same as in one file.
func C19_include() {
	as, _ := amount("amount", 2, 1)
	parts := []string{"commodity 1,000.0 EUR\n", "account B ; code:7\n", "2020-01-01 x\n  A  " + as + " EUR\n  B\n",
		"P 2020-01-02 USD 3 EUR\n", "2020-01-03 y\n  B  " + as + "\n  A  1 USD\n  C\n", "D 1 USD\n2020-01-03 z\n  B  " + as + "\n  A\n"}
	i := vx.Choose("from", len(parts))
	j := i + vx.Choose("to", len(parts)-i+1)
	whole, err1 := journal(strings.Join(parts, ""))
	in := strings.Join(parts[i:j], "")
	name := "part.journal"
	switch vx.Choose("where", 4) {
	case 0:
		vx.WriteFile("part.journal", in)
	case 1:
		vx.Mkdir("sub")
		name = "sub/part.journal"
		vx.WriteFile("sub/part.journal", in)
	case 2:
		vx.Mkdir("sub")
		name = "sub/first"
		vx.WriteFile("sub/first", "; part\ninclude second")
		vx.WriteFile("sub/second", in)
	case 3:
		in = strings.TrimSuffix(in, "\n")
		name = vx.WriteFile("part.journal", in) // absolute
	}
	l, err2 := journal(strings.Join(parts[:i], "") + "include " + name + []string{"", " ; comment"}[vx.Choose("comment", 2)] + "\n" + strings.Join(parts[j:], ""))
	vx.Assert((err1 == nil) == (err2 == nil), "same-refusal")
	if err1 == nil {
		vx.Cover("opened")
		vx.Assert(sameLedger(whole, l, true) == "", "same-as-one-file")
	}
}
