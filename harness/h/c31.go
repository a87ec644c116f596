package h

import (
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C31_accounts: a journal with an account listed or not and two accounts used, each of up to three levels and with any
// letters of two in its names, as a list or as a tree, in some period.
func C31_accounts() {
	vx.MapOrder(false)
	text := ""
	want := map[string]bool{}
	name := func(what string) string {
		s := ""
		for i, n := 0, 1+vx.Choose(what+" levels", 3); i < n; i++ {
			if i > 0 {
				s += ":"
			}
			s += vx.String(what, 1, "ab")
			want[s] = true
		}
		return s
	}
	if vx.Choose("listed", 2) == 1 {
		s := name("listed")
		if vx.Choose("wide", 2) == 1 {
			s += ":ñ"
			want[s] = true
		}
		text += "account " + s + "\n"
	}
	text += "2020-01-02 x\n  " + name("from") + "  1.50 EUR\n  " + name("to") + "\n"
	args := [][]string{nil, {"-e", "2020-01-01"}, {"-b", "2021"}}[vx.Choose("period", 3)]
	args = append(append([]string{"-f", vx.WriteFile("main.journal", text)}, args...), []string{"accounts", "a"}[vx.Choose("command", 2)])
	tree := vx.Choose("tree", 2) == 1
	if tree {
		args = append(args, "-tree")
	}
	seen := map[string]bool{}
	var path []string
	for _, s := range lines(run(args...)) {
		if tree {
			short := strings.TrimLeft(s, " ")
			depth := (len(s) - len(short)) / 2
			vx.Assert(len(s)-len(short) == 2*depth && depth <= len(path), "indented-below-its-parent")
			if short == transferName {
				continue
			}
			path = append(path[:depth:depth], short)
			s = strings.Join(path, ":")
		}
		if s == transferName {
			continue
		}
		vx.Assert(want[s], "only-accounts-of-the-ledger")
		vx.Assert(!seen[s], "account-once")
		if i := strings.LastIndexByte(s, ':'); i >= 0 {
			vx.Assert(seen[s[:i]], "after-its-parent")
		}
		seen[s] = true
	}
	vx.Assert(len(seen) == len(want), "every-account")
	vx.Cover("listed")
}

// C31_price: the prices shown of one or two commodities, with prices of any digits on two dates, and an end date or none.
func C31_price() {
	vx.MapOrder(false)
	xs, x := amount("x", 1, 1)
	vx.Assume(x > 0)
	ys := "2"
	text := "commodity 1.00 EUR\nD 1.00 EUR\nP 2020-01-01 USD " + xs + " EUR\nP 2020-01-03 GBP 2." + ys + " USD\nP 2020-01-05 USD " + ys + ".125 EUR\n2020-01-02 x\n  A  1 EUR\n  B\n"
	l, err := journal(text)
	vx.Assert(err == nil, "opens")
	end := time.Now()
	args := []string{"-f", vx.WriteFile("main.journal", text)}
	if k := vx.Choose("end", 5); k > 0 {
		d := []string{"2019-12-31", "2020-01-01", "2020-01-03", "2020-01-09"}[k-1]
		args = append(args, "-e", d)
		end, _ = ledger.GetDate(d + "/23:59:59")
	}
	batch := vx.Choose("batch", 2) == 1
	if batch {
		args = append(args, "-batch")
	}
	args = append(args, "price")
	want, missing := "", false
	for _, c := range [][]string{{"USD"}, {"EUR"}, {"GBP", "USD"}, {"USD", "XYZ"}, {"XYZ"}}[vx.Choose("commodities", 5)] {
		args = append(args, c)
		cur, _ := l.GetCurrency(c)
		v, err := l.Convert(accounting.Value{Amount: U, Currency: cur}, end, l.DefaultCurrency)
		if err != nil {
			missing = true
			break
		}
		if !batch {
			want += "Price for " + c + ": "
		}
		want += v.FullString() + "\n"
	}
	out, code := vx.RunMain(args...)
	vx.Assert(out == want, "price-of-one-unit")
	vx.Assert((code != 0) == missing, "fails-exactly-without-price")
	if missing {
		vx.Cover("no price")
	} else {
		vx.Cover("shown")
	}
}

// C31_stats: the counts of a journal of up to three transactions on four dates, in up to two currencies, with or without
// prices and accounts listed, in some period.
func C31_stats() {
	vx.MapOrder(false)
	text := "commodity 1.00 EUR\n"
	accs, curs, prices := map[string]bool{}, []string{"EUR"}, 0
	if vx.Choose("listed", 2) == 1 {
		text += "account A:X\ncommodity 1.00 USD\n"
		accs["A"], accs["A:X"] = true, true
		curs = append(curs, "USD")
		if vx.Choose("price", 2) == 1 {
			text += "P 2020-01-01 USD 2 EUR\n"
			prices = 1
		}
	}
	type stat struct {
		date string
		day  int64
	}
	all := []stat{{"2020-02-27", civil(2020, 2, 27)}, {"2020-02-28", civil(2020, 2, 28)}, {"2020-03-01", civil(2020, 3, 1)}, {"2021-03-01", civil(2021, 3, 1)}}
	var ts []stat
	from := 0
	for i, n := 0, vx.Choose("n", 4); i < n; i++ {
		from += vx.Choose("later", len(all)-from)
		ts = append(ts, all[from])
		text += all[from].date + " x\n  A  1." + string(digits("digit", 1)) + " EUR\n  B\n"
		accs["A"], accs["B"] = true, true
	}
	args := []string{"-f", vx.WriteFile("main.journal", text)}
	if vx.Choose("begin", 2) == 1 {
		args = append(args, "-b", "2020-02-28")
		for len(ts) > 0 && ts[0].day < all[1].day {
			ts = ts[1:]
		}
	}
	if vx.Choose("end", 2) == 1 {
		args = append(args, "-e", "2020")
		for len(ts) > 0 && ts[len(ts)-1].day > all[2].day {
			ts = ts[:len(ts)-1]
		}
	}
	l := lines(run(append(args, "stats")...))
	if len(ts) == 0 {
		vx.Assert(len(l) == 1 && strings.HasPrefix(l[0], "No transactions"), "no-transactions")
		vx.Cover("none")
		return
	}
	value := func(name string) string {
		found := ""
		for _, s := range l {
			if strings.HasPrefix(s, name) {
				vx.Assert(found == "", "once")
				found = strings.TrimLeft(s[len(name):], " :")
			}
		}
		return found
	}
	first, last := ts[0], ts[len(ts)-1]
	vx.Assert(value("Transaction span") == first.date+" to "+last.date+" ("+itoa(last.day-first.day+1)+" days)", "span")
	vx.Assert(strings.HasPrefix(value("Transactions "), itoa(int64(len(ts)))+" ("), "transactions")
	vx.Assert(value("Accounts") == itoa(int64(len(accs)+1)), "accounts")
	vx.Assert(value("Commodities") == itoa(int64(len(curs)))+" ("+strings.Join(curs, " ")+")", "commodities")
	vx.Assert(value("Market prices") == itoa(int64(prices)), "prices")
	vx.Cover("shown")
}

// transferName is the account of the transfers between dates, which every ledger has.
const transferName = "Assets:Transfer account"

func itoa(n int64) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
