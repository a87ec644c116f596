package h

import (
	"strings"

	"github.com/cespedes/accounting/zzvx/vx"
)

// clock is a time of the day of any digits, with its seconds.
func clock(name string) (string, int64) {
	h, m, s := digits(name+" hour", 2), digits(name+" minute", 2), digits(name+" second", 2)
	vx.Assume(vx.And(num(h) < 24, num(m) < 60, num(s) < 60))
	return string(h) + ":" + string(m) + ":" + string(s), 3600*num(h) + 60*num(m) + num(s)
}

// dayOf is a day of a month of a year of any digits, with its number.
func dayOf(name string, year, month int64) (string, int64) {
	d := digits(name+" day", 2)
	vx.Assume(vx.And(num(d) >= 1, num(d) <= monthDays(year, month)))
	return fourDigits(year) + "-" + twoDigits(month) + "-" + string(d), civil(year, month, num(d))
}

// moment is a day of a year, perhaps with a time, and its seconds.
func moment(name string, year, month int64) (string, int64) {
	text, d := dayOf(name, year, month)
	if vx.Choose(name+" time", 2) == 0 {
		return text, 86400*d + 43200
	}
	c, s := clock(name)
	return text + "/" + c, 86400*d + s
}

// limit is an option with a year, a month, a day or a second of a year, if any, and the first and last seconds it means.
func limit(option, name string, year, month int64) (args []string, first, last int64) {
	switch vx.Choose(name, 5) {
	case 0:
		return nil, -1 << 60, 1 << 60
	case 1:
		return []string{option, fourDigits(year)}, 86400 * civil(year, 1, 1), 86400*civil(year+1, 1, 1) - 1
	case 2:
		return []string{option, fourDigits(year) + "-" + twoDigits(month)}, 86400 * civil(year, month, 1), 86400*(civil(year, month, 1)+monthDays(year, month)) - 1
	case 3:
		text, d := dayOf(name, year, month)
		return []string{option, text}, 86400 * d, 86400*d + 86399
	default:
		text, d := dayOf(name, year, month)
		c, s := clock(name)
		return []string{option, text + "/" + c}, 86400*d + s, 86400*d + s
	}
}

func fourDigits(n int64) string { return twoDigits(n/100) + twoDigits(n%100) }

// bill is a transaction of one posting of an amount, and another without it.
func bill(date, from, to, text string) string {
	return date + " x\n  " + to + "  " + text + " EUR\n  " + from + "\n"
}

// months gives the months of a begin, an end and a transaction.
func months() (y, b, e, t int64) {
	y = 2020
	if vx.Tier() == 0 {
		y -= int64(vx.Choose("year", 2))
	}
	list := []int64{2, 3, 12}
	if vx.Tier() > 0 {
		y = []int64{2020, 2000, 1900, 9998}[vx.Choose("century", 4)] - int64(vx.Choose("year", 2))
	}
	t = list[vx.Choose("month", len(list))]
	if vx.Tier() > 0 {
		return y, list[vx.Choose("month of begin", len(list))], list[vx.Choose("month of end", len(list))], t
	}
	return y, t, t - int64(vx.Choose("end before", 2)), t
}

// period runs a command for a period on a book with a transaction at any moment of three months, one a year before or long before and one
// after, and gives what is before the beginning and within the period, in EUR.
func period() (f string, args []string, before, during, n int64) {
	vx.MapOrder(false)
	y, mb, me, mt := months()
	when, sec := moment("transaction", y, mt)
	y0 := y - 1
	if y%2 == 1 {
		y0 = y - 30
	}
	text := "commodity 1.00 EUR\n" +
		bill(fourDigits(y0)+"-06-30", "Income:Job", "Cash", "1") +
		bill(when, "Income:Job", "Cash", "20") +
		bill(fourDigits(y+1)+"-03-01", "Income:Job", "Cash", "300")
	f = vx.WriteFile("main.journal", text)
	b, begin, _ := limit("-b", "begin", y, mb)
	e, _, end := limit("-e", "end", y, me)
	vx.Assume(begin <= end)
	args = append([]string{"-f", f}, append(b, e...)...)
	for _, x := range []struct{ t, n int64 }{{noon(y0, 6, 30).Unix(), U}, {sec, 20 * U}, {noon(y+1, 3, 1).Unix(), 300 * U}} {
		if x.t < begin {
			before += x.n
		} else if x.t <= end {
			during += x.n
			n++
		}
	}
	return
}

// C24_balance: the balances at the end of the period are those of all the postings up to then, before the beginning too.
func C24_balance() {
	_, args, before, during, _ := period()
	rows, tot := balanceReport(false, append(args, "balance")...)
	checkRows(rows, map[string]money{"Cash": {"EUR": before + during}, "Job": {"EUR": -before - during}})
	checkMoney(tot, money{}, "total")
	vx.Cover("shown")
}

// C24_delta: the changes of an account within the period.
func C24_delta() {
	_, args, _, during, _ := period()
	l := lines(run(append(args, "delta", "cash")...))
	vx.Assert(len(l) == 1, "one-line")
	checkMoney([]row{scanRow(l[0])}, money{"EUR": during}, "delta")
	vx.Cover("shown")
}

// C24_income: the incomes within the period.
func C24_income() {
	_, args, _, during, _ := period()
	l := lines(run(append(append([]string{args[0], args[1], "-total"}, args[2:]...), "incomestatement")...))
	vx.Assert(len(l) == 1, "one-line")
	checkMoney([]row{scanRow(l[0])}, money{"EUR": during}, "net")
	vx.Cover("shown")
}

// C24_transactions: the transactions within the period are printed, and no other.
func C24_transactions() {
	_, args, _, during, n := period()
	sum, k, dates := int64(0), int64(0), int64(0)
	for _, s := range strings.Split(run(append(args, "print")...), "\n") {
		if strings.HasSuffix(s, " x") {
			dates++
		}
		s = strings.TrimLeft(s, " ")
		if strings.HasPrefix(s, "Cash ") {
			sum += scanRow(s[5:]).n
			k++
		}
	}
	vx.Assert(k == n && dates == n && sum == during, "transactions-printed")
	vx.Cover("printed")
}

// C24_own: postings dated apart from their transaction count at their own date, and their transaction at its own.
func C24_own() {
	vx.MapOrder(false)
	y, mb, me, mt := months()
	own, sec := dayOf("posting", y, mt)
	text := "commodity 1.00 EUR\n" + bill(fourDigits(y-1)+"-06-30", "Income:Job", "Cash", "1") +
		fourDigits(y) + "-01-01 x\n  Cash  20 EUR  ; date:" + own + "\n  Income:Job\n" + bill(fourDigits(y+1)+"-03-01", "Income:Job", "Cash", "300")
	f := vx.WriteFile("main.journal", text)
	b, begin, _ := limit("-b", "begin", y, mb)
	e, _, end := limit("-e", "end", y, me)
	vx.Assume(begin <= end)
	args := append([]string{"-f", f}, append(b, e...)...)
	type x struct{ t, n int64 }
	moves := map[string][]x{
		"Cash": {{noon(y-1, 6, 30).Unix(), U}, {86400*sec + 43200, 20 * U}, {noon(y+1, 3, 1).Unix(), 300 * U}},
		"Job":  {{noon(y-1, 6, 30).Unix(), -U}, {noon(y, 1, 1).Unix(), -20 * U}, {noon(y+1, 3, 1).Unix(), -300 * U}},
	}
	if vx.Choose("command", 2) == 0 {
		want := map[string]money{}
		sum := int64(0)
		for name, l := range moves {
			want[name] = money{"EUR": 0}
			for _, m := range l {
				if m.t <= end {
					want[name]["EUR"] += m.n
					sum += m.n
				}
			}
		}
		want["Assets:Transfer account"] = money{"EUR": -sum}
		rows, tot := balanceReport(false, append(args, "balance")...)
		checkRows(rows, want)
		checkMoney(tot, money{}, "total")
		vx.Cover("balances")
		return
	}
	for _, name := range []string{"Cash", "Job"} {
		during := int64(0)
		for _, m := range moves[name] {
			if m.t >= begin && m.t <= end {
				during += m.n
			}
		}
		l := lines(run(append(append([]string{}, args...), "delta", name)...))
		vx.Assert(len(l) == 1, "one-line")
		checkMoney([]row{scanRow(l[0])}, money{"EUR": during}, "delta")
	}
	vx.Cover("changes")
}
