package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// textDB opens a text database.
func textDB(accounts, transactions string) (*accounting.Ledger, error) {
	vx.MustNotExit("no-exit")
	d := vx.Mkdir("db")
	vx.WriteFile("db/accounts", accounts)
	vx.WriteFile("db/transactions", transactions)
	return accounting.Open("txtdb:" + d)
}

// C27_accounts: three account lines in any order of numbers (any digit each), with any or no parent listed before, name
// and code of any characters, and a malformed line of eight kinds at any place.
func C27_accounts() {
	n := 2 + vx.Choose("accounts", 2)
	bad := vx.Choose("badat", n+1)
	text := ""
	var ids, parents []byte
	var names, codes []string
	for i := 0; i <= n; i++ {
		if i == bad {
			text += []string{"", "x", "1:2:3:4:5", "8:x:x:Bad:B:1:7", "x:x:x:Bad:B:", ":x:x:Bad::", "1 :x:x:Bad::", "# comment"}[vx.Choose("bad", 8)] + "\n"
		}
		if i == n {
			break
		}
		ids = append(ids, digits("id", 1)[0])
		names = append(names, vx.String("name", 1+i%2, "aZ .\xc3"))
		codes = append(codes, vx.String("code", i%2, "9z"))
		parents = append(parents, 0)
		text += string(ids[i]) + ":x:y:" + names[i] + ":" + codes[i] + ":"
		if vx.Choose("parent", 2) == 1 {
			parents[i] = digits("parent", 1)[0]
			text += string(parents[i])
		}
		text += "\n"
		for j := 0; j < i; j++ {
			vx.Assume(ids[i] != ids[j])
		}
	}
	l, err := textDB(text, "")
	vx.Assert(err == nil, "opens")
	var found []*accounting.Account
	for i := 0; i < n; i++ {
		var a *accounting.Account
		for _, b := range l.Accounts {
			if b.ID != nil && b.ID.String() == "id:"+string(ids[i]) {
				vx.Assert(a == nil, "one-account-per-line")
				a = b
			}
		}
		vx.Assert(a != nil, "one-account-per-line")
		vx.Assert(a.Name == names[i], "name")
		vx.Assert(a.Code == codes[i], "code")
		found = append(found, a)
		var parent *accounting.Account
		for j := 0; j < i; j++ {
			if parents[i] == ids[j] {
				parent = found[j]
			}
		}
		vx.Assert(a.Parent == parent, "parent")
	}
	m := 0
	for _, a := range l.Accounts {
		if !a.IsTransfer() {
			m++
		}
	}
	vx.Assert(m == n && len(l.Transactions) == 0, "no-other-account")
}

const threeAccounts = "1:x:x:A::\n2:x:x:B::\n3:x:x:C::1\n"

// badLines are movement lines which are to be skipped: wrong number of fields, date, account, sign or number.
var badLines = []string{
	"", "# comment", "9:2020-01-01:bad::1:+1.00", "9:2020-01-01:bad::1:+1.00::", "9:2020-13-01:bad::1:+1.00:", "9::bad::1:+1.00:",
	"9:2020-01-01:bad::7:+1.00:", "9:2020-01-01:bad::x:+1.00:", "9:2020-01-01:bad:::+1.00:", "9:2020-01-01:bad::1:1.00:", "9:2020-01-01:bad::1:+x:",
	"9:2020-01-01:bad::1:+1,00:", "9:2020-01-01:bad::1:+:", "9:2020-01-01:bad::1:+1.00.1:", "9:2020-01-01:bad::1:+99999999999999:",
	"9:2020-01-01:bad::1:-Inf:", "9:2020-01-01:bad::1:+NaN:", "9:2020-01-01:bad::1::1e300",
}

// C27_movements: up to five movement lines with amounts of up to three digits and zero to two decimals and dates of two
// kinds, and a malformed line of 18 kinds at any place or nowhere.
func C27_movements() {
	n := 2 + vx.Choose("lines", 2+vx.Tier())
	bad := vx.Choose("badat", n+1)
	kind := vx.Choose("bad", 1+len(badLines))
	if kind == len(badLines) {
		vx.Assume(bad == 0)
	}
	type mov struct {
		acc   string
		cents int64
		date  int
		desc  string
	}
	var want [][]mov
	var cur []mov
	var sum int64
	text := ""
	form := vx.Choose("form", 3)
	for i := 0; i <= n; i++ {
		if i == bad && kind < len(badLines) {
			text += badLines[kind] + "\n"
		}
		if i == n {
			break
		}
		var m mov
		k := i % 3
		m.acc = []string{"A", "B", "A:C"}[k]
		m.date = i / 2
		m.desc = "move " + string(rune('a'+i))
		ip, dp := digits("amount", 1+form%2), digits("cents", form)
		m.cents = num(ip)*100 + []int64{0, 10, 1}[form]*num(dp)
		neg := i == 1 || vx.Choose("sign", 2) == 1
		sign := "+"
		if neg {
			sign = "-"
			m.cents = -m.cents
		}
		s := sign + string(ip)
		if form > 0 {
			s += "." + string(dp)
		}
		text += "1:" + []string{"2020-01-05", " 2020-01-06 10.30 ", "2020-01-07"}[m.date] + ":" + m.desc + "::" + string(rune('1'+k)) + ":" + s + ":\n"
		cur = append(cur, m)
		sum += m.cents
		if sum == 0 {
			want = append(want, cur)
			cur = nil
		}
	}
	l, err := textDB(threeAccounts, text)
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) == len(want), "one-transaction-per-group")
	times := []time.Time{time.Unix(86400*civil(2020, 1, 5), 0), time.Unix(86400*civil(2020, 1, 6)+37800, 0), time.Unix(86400*civil(2020, 1, 7), 0)}
	if len(want) > 0 {
		vx.Cover("group")
	}
	for i, t := range l.Transactions {
		w := want[i]
		vx.Assert(t.Description == w[0].desc && t.Time.Equal(times[w[0].date]), "transaction-of-its-first-line")
		vx.Assert(len(t.Splits) >= len(w), "every-movement")
		for j, s := range t.Splits {
			if j >= len(w) {
				vx.Assert(s.Account.IsTransfer(), "every-movement")
				continue
			}
			vx.Assert(s.Account.FullName() == w[j].acc, "account")
			vx.Assert(s.Value.Amount == w[j].cents*(U/100), "exact-amount")
			vx.Assert(s.Value.Currency != nil && s.Value.Currency == l.Transactions[0].Splits[0].Value.Currency && s.Value.Currency.Precision == 2, "currency")
			vx.Assert(s.Time.Equal(times[w[j].date]), "date")
		}
	}
	vx.Assert(len(l.Assertions) == 0, "no-assertions")
}

// C27_large: two movements with amounts of up to 13 digits of which cents any.
func C27_large() {
	ip, dp := digits("amount", 11+vx.Choose("more", 2)), digits("cents", 2)
	c := num(ip)*100 + num(dp)
	vx.Assume(c <= 9223372036854)
	s := string(ip) + "." + string(dp)
	l, err := textDB(threeAccounts, "1:2020-01-05:x::1:+"+s+":\n1:2020-01-05:x::2:-"+s+":\n")
	vx.Assert(err == nil, "opens")
	if c == 0 {
		return
	}
	vx.Assert(len(l.Transactions) == 1 && len(l.Transactions[0].Splits) == 2, "one-transaction-per-group")
	for i, s := range l.Transactions[0].Splits {
		vx.Assert(s.Value.Amount == (1-2*int64(i))*c*(U/100), "exact-amount")
	}
}

// C27_balance: after a movement of any amount, a movement of any other amount closed by a movement that gives a balance
// (with any sign) instead of an amount: it gets the amount leading to that balance, or, when that does not balance the
// transaction, the database is refused.
func C27_balance() {
	a, x, y := digits("first", 2), digits("second", 2), digits("balance", 2)
	sign := []string{"", "+", "-"}[vx.Choose("sign", 3)]
	alone := vx.Choose("alone", 2) == 1
	text := "1:2020-01-05:x::1:+" + string(a) + ":\n1:2020-01-05:x::2:-" + string(a) + ":\n"
	moved := int64(0)
	if !alone {
		text += "1:2020-01-06:y::1:-" + string(x) + ":\n"
		moved = num(x)
	}
	text += "1:2020-01-06:y::2::" + sign + string(y) + "\n"
	bal := num(y)
	if sign == "-" {
		bal = -bal
	}
	l, err := textDB(threeAccounts, text)
	vx.Assume(num(a) != 0 && (alone || num(x) != 0))
	if bal+num(a) != moved {
		vx.Cover("refused")
		vx.Assert(err != nil, "refused-unless-balanced")
		return
	}
	vx.Cover("balanced")
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) == 2, "two-transactions")
	t := l.Transactions[1]
	s := t.Splits[len(t.Splits)-1]
	vx.Assert(t.Description == "y" && s.Account.Name == "B" && s.Value.Amount == moved*U, "amount-leading-to-balance")
	b := l.GetBalance(s.Account, time.Time{})
	got, k := total(b, t.Splits[0].Value.Currency)
	vx.Assert(got == bal*U && k <= 1 && k == len(b), "balance")
}

// C27_dates: a group of three movements on any days of a month, each at its own.
func C27_dates() {
	text := ""
	var days [3]int64
	for i, a := range []string{"+5.00", "-2.00", "-3.00"} {
		d := digits("day", 2)
		days[i] = num(d)
		vx.Assume(vx.And(num(d) >= 1, num(d) <= 31))
		text += "1:2020-01-" + string(d) + ":x::" + string(rune('1'+i)) + ":" + a + ":\n"
	}
	l, err := textDB(threeAccounts, text)
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) == 1 && len(l.Transactions[0].Splits) >= 3, "one-transaction-per-group")
	vx.Assert(l.Transactions[0].Time.Unix() == 86400*civil(2020, 1, days[0]), "transaction-of-its-first-line")
	for i, s := range l.Transactions[0].Splits[:3] {
		vx.Assert(s.Time.Unix() == 86400*civil(2020, 1, days[i]), "date")
	}
	vx.Cover("opened")
}

// C27_hours: a group of three movements in one day or two, with or without a time of any hour from 10 to 19 and any minute: each
// at its own; with blanks around it or not.
func C27_hours() {
	text := ""
	var at [3]int64
	pad := []string{"", " "}[vx.Choose("blanks", 2)]
	for i, a := range []string{"+5.00", "-2.00", "-3.00"} {
		d := "0" + string(rune('6'+vx.Choose("day", 2)))
		at[i] = 86400 * civil(2020, 1, int64(d[1]-'0'))
		if vx.Choose("timed", 2) == 1 {
			h, m := digits("hour", 1), digits("minute", 2)
			vx.Assume(m[0] < '6')
			at[i] += 3600*(10+num(h)) + 60*num(m)
			d += " 1" + string(h) + "." + string(m)
		}
		text += "1:" + pad + "2020-01-" + d + pad + ":x::" + string(rune('1'+i)) + ":" + a + ":\n"
	}
	l, err := textDB(threeAccounts, text)
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) == 1 && len(l.Transactions[0].Splits) >= 3, "one-transaction-per-group")
	vx.Assert(l.Transactions[0].Time.Unix() == at[0], "transaction-of-its-first-line")
	for i, s := range l.Transactions[0].Splits[:3] {
		vx.Assert(s.Time.Unix() == at[i], "date")
	}
	vx.Cover("read")
}

// C27_descriptions: a group of three movements and one of two with descriptions of up to two characters, each of any: a transaction has that
// of its first movement.
func C27_descriptions() {
	text := ""
	var ds []string
	for i, a := range []string{"+5.00", "-2.00", "-3.00", "+1.00", "-1.00"} {
		ds = append(ds, vx.String("description", vx.Choose("length", 3-i%2), "aZ .\xc3"))
		text += "1:2020-01-05:" + ds[i] + "::" + string(rune('1'+i%3)) + ":" + a + ":\n"
	}
	l, err := textDB(threeAccounts, text)
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) == 2 && len(l.Transactions[0].Splits) == 3, "one-transaction-per-group")
	vx.Assert(l.Transactions[0].Description == ds[0] && l.Transactions[1].Description == ds[3], "transaction-of-its-first-line")
	vx.Cover("opened")
}
