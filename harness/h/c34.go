package h

import (
	"strings"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// screen runs the program which shows tables, choosing a row (from 1) of the first of them, if any, and gives the rows of each.
func screen(row int, args ...string) (tables [][][]string, code int) {
	if row > 0 {
		vx.Setenv("VX_SELECT", string(rune('0'+row)))
	}
	out, code := vx.RunTool(args...)
	for _, s := range strings.Split(out, "\n") {
		if !strings.HasPrefix(s, "\x1e") {
			continue
		}
		f := strings.Split(s[1:], "\x1f")
		if f[0] == "TABLE" {
			tables = append(tables, nil)
		} else {
			tables[len(tables)-1] = append(tables[len(tables)-1], f[1:])
		}
	}
	return tables, code
}

// checkCell asserts that a cell shows an amount per currency.
func checkCell(s string, m money, label string) {
	var rows []row
	if s != "" && s != "0" {
		for _, x := range strings.Split(s, ", ") {
			r := scanRow(x)
			vx.Assert(r.has, label)
			rows = append(rows, r)
		}
	}
	checkMoney(rows, m, label)
}

// movement is one which the screen of an account should show.
type movement struct {
	acc, date, desc, cur string
	n                    int64
}

// checkScreen asserts that the accounts and, if one is chosen, its movements are those of the books, in order.
func checkScreen(db string, chosen int, accounts []string, ms []movement) {
	tables, code := screen(chosen, db)
	vx.Assert(code == 0, "runs")
	n := 1
	if chosen > 0 {
		n = 2
	}
	vx.Assert(len(tables) == n, "shown-at-once")
	vx.Assert(len(tables[0]) == len(accounts), "every-account")
	for i, r := range tables[0] {
		vx.Assert(r[0] == accounts[i], "account-by-its-full-name")
		m := money{}
		for _, x := range ms {
			if x.acc == accounts[i] {
				m.add(x.cur, x.n)
			}
		}
		checkCell(r[1], m, "balance-of-account")
	}
	if chosen == 0 {
		vx.Cover("accounts")
		return
	}
	m := money{}
	k := 0
	for _, x := range ms {
		if x.acc != accounts[chosen-1] {
			continue
		}
		vx.Assert(k < len(tables[1]), "every-movement")
		r := tables[1][k]
		k++
		vx.Assert(r[0] == x.date, "date-of-movement")
		vx.Assert(r[1] == x.desc, "description-of-movement")
		checkCell(r[2], money{x.cur: x.n}, "amount-of-movement")
		m.add(x.cur, x.n)
		checkCell(r[3], m, "balance-after-movement")
	}
	vx.Assert(len(tables[1]) == k, "every-movement")
	vx.Cover("movements")
}

// C34_journal: a journal of three transactions, of three accounts, with amounts of any digits, the second in either of two
// currencies and with a date of its own or not, and the third, of that month or of another time to come, undoing the first or nothing; any account is chosen, or none.
func C34_journal() {
	vx.MapOrder(false)
	xs, x := amount("x", 1, 1)
	ys, y := amount("y", 1, 1)
	cur := []string{"EUR", "USD"}[vx.Choose("currency", 2)]
	desc := []string{"b", "two  words", "ñ (1) *"}[vx.Choose("description", 3)]
	text := "commodity 1.00 EUR\ncommodity 1.00 USD\naccount A:B\naccount C\n2020-01-05 a\n  A:B  " + xs + " EUR\n  C\n" +
		"2020-01-09 " + desc + "\n  A:B  " + ys + " " + cur
	d, last := int64(9), []string{"2020", "2420"}[vx.Choose("year", 2)]
	if vx.Choose("date", 2) == 1 {
		if vx.Tier() == 0 {
			d = []int64{1, 5, 9}[vx.Choose("day", 3)]
		} else {
			d = 1 + int64(vx.Choose("day", 9))
		}
		text += "  ; date:2020-01-" + twoDigits(d)
	}
	text += "\n  A\n" + last + "-01-31 c\n  C  " + []string{xs, "0.00"}[vx.Choose("third", 2)] + " EUR\n  A:B\n"
	z := x
	if strings.Contains(text, "0.00 EUR\n  A:B") {
		z = 0
	}
	date := func(d int64) string { return twoDigits(d) + "-01-2020" }
	one := []movement{{"A:B", date(5), "a", "EUR", x}, {"C", date(5), "a", "EUR", -x}}
	two := []movement{{"A:B", date(d), desc, cur, y}}
	ms := append(one, two...)
	if d < 5 {
		ms = append(two, one...)
	}
	ms = append(ms, movement{"A", date(9), desc, cur, -y}, movement{"C", "31-01-" + last, "c", "EUR", z}, movement{"A:B", "31-01-" + last, "c", "EUR", -z})
	f := vx.WriteFile("main.journal", text)
	l, err := accounting.Open(f)
	vx.Assert(err == nil, "opens")
	var accounts []string
	for _, a := range l.Accounts {
		accounts = append(accounts, a.FullName())
	}
	if d != 9 {
		// the transfer account balances what is dated apart
		ms = append(ms, movement{transferName, "", "", cur, 0})
	}
	n := 3
	chosen := vx.Choose("chosen", n+1)
	if chosen > 0 {
		vx.Assert(len(accounts) >= n && accounts[chosen-1] != transferName, "three-accounts")
	}
	checkScreen([]string{f, "ledger:" + f}[d%2], chosen, accounts, ms)
}

// C34_tree: a journal of an account listed, of up to three levels, and a transaction of two postings of amounts
// of any digits, the same or not, of another, and one of a third; the account at any place is chosen, or none.
func C34_tree() {
	vx.MapOrder(false)
	p := []string{"a", "a:b", "a:b:a"}[vx.Choose("first", 3)]
	q := []string{"b", "b:a", "a"}[vx.Choose("second", 3)]
	r := []string{"a:c:d", "b", "c:a:b"}[vx.Choose("listed", 3)]
	xs, x := amount("x", 1, 0)
	ys, y := xs, x
	if vx.Choose("other", 2) == 1 {
		ys, y = amount("y", 1, 0)
	}
	f := vx.WriteFile("main.journal", "commodity 1. EUR\naccount "+r+"\n2020-01-05 d\n  "+p+"  "+xs+" EUR\n  "+p+"  "+ys+" EUR\n  "+q+"\n")
	l, err := accounting.Open(f)
	vx.Assert(err == nil, "opens")
	var accounts []string
	for _, a := range l.Accounts {
		accounts = append(accounts, a.FullName())
	}
	chosen := vx.Choose("chosen", 1+len(accounts))
	const date = "05-01-2020"
	checkScreen(f, chosen, accounts, []movement{{p, date, "d", "EUR", x}, {p, date, "d", "EUR", y}, {q, date, "d", "EUR", -x - y}})
}

// C34_database: a text database of three accounts (the third inside of the first) and two movements of any digits between two
// of them; any account is chosen, or none.
func C34_database() {
	vx.MapOrder(false)
	d := vx.Mkdir("db")
	vx.WriteFile("db/accounts", threeAccounts)
	xs, ys := digits("x", 2), digits("y", 2)
	x, y := num(xs)*(U/10), num(ys)*(U/10)
	vx.Assume(x != 0 && y != 0)
	x1, y1 := string(xs[:1])+"."+string(xs[1:]), string(ys[:1])+"."+string(ys[1:])
	other := 2 + vx.Choose("other", 2)
	o := string(rune('0' + other))
	vx.WriteFile("db/transactions", "1:2020-01-05 10.30:first one::1:+"+x1+":\n1:2020-01-05 10.30:first one::2:-"+x1+":\n"+
		"2:2020-02-06:second::"+o+":+"+y1+":\n2:2020-02-06:second::1:-"+y1+":\n")
	l, err := accounting.Open("txtdb:" + d)
	vx.Assert(err == nil && len(l.Accounts) > 2, "opens")
	cur := curName(l.Transactions[0].Splits[0].Value)
	if cur == "nil" {
		cur = ""
	}
	var accounts []string
	for _, a := range l.Accounts {
		accounts = append(accounts, a.FullName())
	}
	vx.Assert(accounts[0] == "A" && (accounts[1] == "B" && accounts[2] == "A:C" || accounts[1] == "A:C" && accounts[2] == "B"), "three-accounts")
	to := []string{"B", "A:C"}[other-2]
	ms := []movement{{"A", "05-01-2020", "first one", cur, x}, {"B", "05-01-2020", "first one", cur, -x}, {to, "06-02-2020", "second", cur, y}, {"A", "06-02-2020", "second", cur, -y}}
	checkScreen("txtdb:"+d, vx.Choose("chosen", 4), accounts, ms)
}

// C34_refused: no books, books that cannot be read or are refused, and too many arguments show nothing and fail.
func C34_refused() {
	vx.MapOrder(false)
	f := vx.WriteFile("main.journal", "2020-01-05 a\n  A  1 EUR\n  B\n")
	bad := vx.WriteFile("bad.journal", "2020-01-05 a\n  A  1"+string(digits("x", 1))+" EUR\n  B  -1"+string(digits("y", 1))+" EUR\n")
	d := vx.Mkdir("db")
	k := vx.Choose("arguments", 9)
	if k == 8 {
		_, err := accounting.Open(bad)
		vx.Assume(err != nil)
	}
	args := [][]string{{}, {f, f}, {f + "x"}, {"txtdb:" + f}, {"x:" + f}, {""}, {"txtdb:" + d}, {vx.Unopenable("loop")}, {bad}}[k]
	tables, code := screen(0, args...)
	vx.Assert(code != 0, "fails")
	vx.Assert(len(tables) == 0, "shows-nothing")
	vx.Cover("refused")
}
