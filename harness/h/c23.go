package h

import (
	"strings"

	"github.com/cespedes/accounting/zzvx/vx"
)

// balanceReport runs the balance command and splits it in rows and totals.
func balanceReport(total bool, args ...string) (rows []row, sum []row) {
	l := lines(run(args...))
	dashes := total
	for _, s := range l {
		if !dashes && (s == "" || s[0] == '-') && strings.Trim(s, "-") == "" {
			dashes = true
			continue
		}
		if dashes {
			sum = append(sum, scanRow(s))
		} else {
			rows = append(rows, scanRow(s))
		}
	}
	vx.Assert(dashes && len(sum) > 0, "total-shown")
	return
}

// checkRows asserts that rows show exactly the amounts wanted of each account, several amounts being before their name.
func checkRows(rows []row, want map[string]money) {
	var group []row
	seen := map[string]bool{}
	for _, r := range rows {
		group = append(group, r)
		if r.name == "" {
			continue
		}
		vx.Assert(!seen[r.name], "account-once")
		seen[r.name] = true
		m, ok := want[r.name]
		if !ok {
			m = money{}
		}
		if r.has || len(group) > 1 {
			vx.Assert(ok, "only-selected-accounts")
		}
		checkMoney(group, m, "balance-of-account")
		group = nil
	}
	vx.Assert(len(group) == 0, "every-amount-has-an-account")
	for name, m := range want {
		for _, n := range m {
			if n != 0 {
				vx.Assert(seen[name], "every-selected-account")
			}
		}
	}
}

// C23_selection: a book of four accounts, one within another, with amounts of any digits in two currencies, and no
// pattern or one or two patterns of any case of any of ten kinds; only the total or not.
func C23_selection() {
	vx.MapOrder(false)
	xs, x := amount("x", 1, 1)
	ys, y := amount("y", 1, 1)
	text := "commodity 1.00 EUR\ncommodity 1.00 USD\n"
	if vx.Choose("listed", 2) == 1 {
		text += "account Zero\naccount Cash:Box\n"
	}
	text += pay("01", "Job", "Cash:Box", xs, "EUR") + pay("02", "Job", "Cash", ys, "EUR") + pay("03", "Job", "Cash:Box", "7.5", "USD")
	want := map[string]money{"Cash:Box": {"EUR": x, "USD": 75 * U / 10}, "Cash": {"EUR": y}, "Job": {"EUR": -x - y, "USD": -75 * U / 10}}
	f := vx.WriteFile("main.journal", text)
	args := []string{"-f", f}
	total := vx.Choose("total", 2) == 1
	if total {
		args = append(args, "-total")
	}
	args = append(args, "balance")
	pats := [][]string{nil, {"cash"}, {"BOX"}, {"Cash:Box"}, {"h:b"}, {"o"}, {"cash", "box"}, {"box", "job"}, {"nothing"}, {"b"}}
	p := pats[vx.Choose("patterns", len(pats))]
	args = append(args, p...)
	sel := map[string]money{}
	sum := money{}
	for full, m := range want {
		ok := len(p) == 0
		for _, s := range p {
			ok = ok || strings.Contains(strings.ToLower(full), strings.ToLower(s))
		}
		if !ok {
			continue
		}
		name := full
		if full == "Cash:Box" && (len(p) == 0 || !strings.HasPrefix("box", strings.ToLower(p[0])) && p[0] != "Cash:Box" && p[0] != "h:b" && strings.ToLower(p[0]) != "b" && p[0] != "o") {
			name = "Box" // below its parent
		}
		sel[name] = m
		for c, n := range m {
			sum.add(c, n)
		}
	}
	rows, tot := balanceReport(total, args...)
	if !total {
		checkRows(rows, sel)
	} else {
		vx.Assert(len(rows) == 0, "only-total")
	}
	checkMoney(tot, sum, "total")
	vx.Cover("shown")
}

// C23_currencies: amounts in three currencies, two of whose names differ in case only, and the report restricted to none or up to two of them, perhaps the same
// twice or one of two that are not there.
func C23_currencies() {
	vx.MapOrder(false)
	xs, x := amount("x", 1, 1)
	ys, y := amount("y", 1, 1)
	text := "commodity 1.00 EUR\ncommodity 1.00 USD\ncommodity 1.00 eur\n"
	text += pay("01", "Job", "Cash", xs, "EUR") + pay("02", "Job", "Cash", ys, "USD") + pay("03", "Job", "Bank", "3.25", "eur") + pay("03", "Bank", "Cash", "1", "eur")
	books := map[string]money{"Cash": {"EUR": x, "USD": y, "eur": U}, "Bank": {"eur": 225 * U / 100}, "Job": {"EUR": -x, "USD": -y, "eur": -325 * U / 100}}
	f := vx.WriteFile("main.journal", text)
	args := []string{"-f", f}
	names := []string{"", "EUR", "USD", "eur", "Usd", "EU"}
	keep := map[string]bool{}
	for i := 0; i < 2; i++ {
		n := names[vx.Choose("currency", len(names))]
		if n != "" {
			args = append(args, "-currency", n)
			keep[n] = true
		}
	}
	args = append(args, []string{"balance", "bal", "b"}[vx.Choose("command", 3)])
	pat := []string{"", "Cash", "a"}[vx.Choose("pattern", 3)]
	if pat != "" {
		args = append(args, pat)
	}
	sel, sum := map[string]money{}, money{}
	for name, m := range books {
		if pat != "" && (pat == "Cash" && name != "Cash" || pat == "a" && name == "Job") {
			continue
		}
		sel[name] = money{}
		for c, n := range m {
			if len(keep) == 0 || keep[c] {
				sel[name][c] = n
				sum.add(c, n)
			}
		}
	}
	rows, tot := balanceReport(false, args...)
	checkRows(rows, sel)
	checkMoney(tot, sum, "total")
	vx.Cover("shown")
}

// C23_market: amounts in two currencies valued in a third, the default, with a price of any digits for one of them that
// changes at a date, and the end given before, at or after that date, or not at all (the end of the world of these tests
// being later than every price).
func C23_market() {
	vx.MapOrder(false)
	xs, x := amount("x", 1, 1)
	ys, y := "12.5", int64(125*U/10)
	if vx.Tier() > 0 {
		ys, y = amount("y", 1, 1)
	}
	p1 := digits("p1", 2)
	p2 := digits("p2", 2)
	r1, r2 := num(p1)*U/10, num(p2)*U/10
	vx.Assume(vx.And(r1 > 0, r2 > 0))
	text := "D 1.00000000 EUR\ncommodity 1.0 USD\ncommodity 1.0 GBP\n" +
		"P 2020-01-05 USD " + string(p1[:1]) + "." + string(p1[1:]) + " EUR\n"
	gbp := vx.Choose("gbp", 3)
	if gbp == 1 {
		text += "P 2020-01-06 GBP 2 EUR\n"
	}
	text += "P 2020-01-09 USD " + string(p2[:1]) + "." + string(p2[1:]) + " EUR\n"
	text += pay("01", "Job", "Cash", xs, "USD") + pay("02", "Job", "Cash", ys, "EUR")
	books := map[string]money{"Cash": {"USD": x, "EUR": y}, "Job": {"USD": -x, "EUR": -y}}
	if gbp > 0 {
		text += pay("03", "Job", "Bank", "1.5", "GBP")
		books["Bank"], books["Job"]["GBP"] = money{"GBP": 15 * U / 10}, -15*U/10
	}
	f := vx.WriteFile("main.journal", text)
	args := []string{"-f", f, "-market"}
	rate := r2
	switch vx.Choose("end", 4) {
	case 0:
		args = append(args, "-e", "2020-01-04")
		rate = r1
	case 1:
		args = append(args, "-e", "2020-01-05/12:00:00")
		rate = r1
	case 2:
		args = append(args, "-e", "2020-01-09")
	}
	pat := []string{"", "cash"}[vx.Choose("pattern", 2)]
	args = append(args, "balance")
	if pat != "" {
		args = append(args, pat)
	}
	if gbp == 2 && pat == "" {
		_, code := vx.RunMain(args...)
		vx.Assert(code != 0, "no-price-is-reported")
		vx.Cover("no price")
		return
	}
	rows, tot := balanceReport(false, args...)
	values := map[string]int64{}
	for name, m := range books {
		if pat == "" || name == "Cash" {
			values[name] = m["EUR"] + m["USD"]/(U/10)*(rate/(U/10))*(U/100) + m["GBP"]*2
		}
	}
	sum := int64(0)
	seen := map[string]bool{}
	for _, r := range rows {
		if !r.has { // an account without postings
			continue
		}
		v, ok := values[r.name]
		vx.Assert(ok && !seen[r.name], "account-once")
		seen[r.name] = true
		vx.Assert(r.cur == "EUR" || r.n == 0, "in-default-currency")
		vx.Assert(vx.And(r.n-v <= 2, v-r.n <= 2), "value-of-account")
		sum += r.n
	}
	for name, v := range values {
		vx.Assert(vx.Or(seen[name], vx.And(v <= 2, v >= -2)), "every-selected-account")
	}
	vx.Assert(len(tot) == 1, "one-total")
	vx.Assert(tot[0].n == sum, "total")
	vx.Cover("shown")
}
