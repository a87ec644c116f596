package h

import (
	"strings"

	"github.com/cespedes/accounting/zzvx/vx"
)

// momentumPeriods is how an end date and a period are written, and the times looked at: the end, and one, two and three periods
// before.
var momentumPeriods = []struct {
	end, period string
	at          [4]string
}{
	{"2020-12-20", "3m0d", [4]string{"2020-12-20/23:59:59", "2020-09-20/23:59:59", "2020-06-20/23:59:59", "2020-03-20/23:59:59"}},
	{"2020-12", "5m", [4]string{"2020-12-31/23:59:59", "2020-07-31/23:59:59", "2020-03-02/23:59:59", "2019-10-02/23:59:59"}},
	{"2020", "10d", [4]string{"2020-12-31/23:59:59", "2020-12-21/23:59:59", "2020-12-11/23:59:59", "2020-12-01/23:59:59"}},
	{"2020-02", "1m1d", [4]string{"2020-02-29/23:59:59", "2020-01-28/23:59:59", "2019-12-27/23:59:59", "2019-11-26/23:59:59"}},
	{"2020-05-06/10:30:00", "0m366d", [4]string{"2020-05-06/10:30:00", "2019-05-06/10:30:00", "2018-05-05/10:30:00", "2017-05-04/10:30:00"}},
	{"2020-12-20", "", [4]string{"2020-12-20/23:59:59", "2020-09-20/23:59:59", "2020-06-20/23:59:59", "2020-03-20/23:59:59"}},
}

// micro reads a number with six decimals, in millionths.
func micro(s string) (n int64, ok bool) {
	s = strings.TrimLeft(s, " ")
	neg := strings.HasPrefix(s, "-")
	if neg {
		s = s[1:]
	}
	k := len(s) - 7
	if k < 1 || s[k] != '.' {
		return 0, false
	}
	for i := range s {
		if i != k && !isDigit(s[i]) {
			return 0, false
		}
	}
	n = num([]byte(s[:k]))*1000000 + num([]byte(s[k+1:]))
	if neg {
		n = -n
	}
	return n, true
}

// C30_momentum: a commodity with a price at the end of any three digits and prices of seven kinds one to three periods
// before, given on those days or the ones of them that bound the period, with one to three measures, next to another
// commodity, before or after it; ends and periods of six kinds; with transactions before, in and after.
func C30_momentum() {
	vx.MapOrder(false)
	p := momentumPeriods[vx.Choose("period", len(momentumPeriods))]
	m := 1 + vx.Choose("measures", 3)
	ds := digits("price", 3)
	a := num(ds)
	olds := []int64{100, 700, 33, 999, 250}
	b := []int64{0, 0, 0, 0}
	for i := 1; i <= 3; i++ {
		if i <= m {
			b[i] = olds[vx.Choose("old", len(olds)-(m-1)*(2-vx.Tier()))]
		} else {
			b[i] = 1234 // not to be looked at
		}
	}
	cents := func(n int64) string {
		return string([]byte{byte('0' + n/1000), byte('0' + n/100%10), '.', byte('0' + n/10%10), byte('0' + n%10)})
	}
	text := "commodity 1.00 EUR\nD 1.00 EUR\n"
	for i := 3; i > 0; i-- {
		text += "P " + p.at[i] + " XXX " + cents(b[i]) + " EUR\nP " + p.at[i] + " YYY 2.00 EUR\n"
	}
	text += "P " + p.at[0] + " YYY 3.00 EUR\nP " + p.at[0] + " XXX " + string(ds[:1]) + "." + string(ds[1:]) + " EUR\nP 2021-01-01 XXX 77 EUR\n"
	text += "2016-01-01 x\n  A  5 EUR\n  B\n2020-01-01 x\n  A  5 EUR\n  B\n2021-01-01 x\n  A  5 EUR\n  B\n"
	args := []string{"-f", vx.WriteFile("main.journal", text)}
	args = append(args, [][]string{nil, {"-b", "2020"}, {"-b", "2020-01-01"}}[vx.Choose("begin", 1+2*vx.Tier())]...)
	args = append(args, "-e", p.end)
	if p.period != "" {
		args = append(args, "-measureperiod", p.period)
	}
	if m > 1 {
		args = append(args, "-measures", string(rune('0'+m)))
	}
	order := vx.Choose("order", 3)
	args = append(args, [][]string{{"XXX"}, {"XXX", "YYY"}, {"YYY", "XXX"}}[order]...)
	out, code := vx.RunTool(args...)
	vx.Assert(code == 0, "runs")
	ls := lines(out)
	vx.Assert(len(ls) == []int{1, 2, 2}[order], "one-line-per-commodity")
	for i, s := range ls {
		if order == 1 && i == 1 || order == 2 && i == 0 {
			vx.Assert(s == " 0.500000 YYY", "each-commodity-its-own")
			continue
		}
		vx.Assert(strings.HasSuffix(s, " XXX"), "name")
		n, ok := micro(strings.TrimSuffix(s, " XXX"))
		vx.Assert(ok, "six-decimals")
		// mean of a/b - 1, as quotient of a*s - m*q by m*q
		q, sum := int64(1), int64(0)
		for j := 1; j <= m; j++ {
			q *= b[j]
		}
		for j := 1; j <= m; j++ {
			sum += q / b[j]
		}
		q *= int64(m)
		diff := n*q - 1000000*(a*sum-q)
		lim := q/2 + q/1000 + 1
		vx.Assert(vx.And(diff <= lim, -diff <= lim), "mean-of-the-changes")
		vx.Cover("momentum")
	}
}

// C30_refused: measuring periods and other periods of ten kinds, four of which name a number of months, of days or of both, and
// ends of six kinds, three of them dates.
func C30_refused() {
	vx.MapOrder(false)
	periods := []string{"3m0d", "2m", "10d", "0m366d", "", "3", "m", "3w", "3m5", "d3"}
	ends := []string{"2020-12-20", "2020-12", "2020", "2020-13-01", "x", "2020-12-20/25:00:00"}
	text := "commodity 1.00 EUR\nD 1.00 EUR\nP 2015-01-01 XXX 2.00 EUR\nP 2021-01-01 XXX 2.00 EUR\n"
	args := []string{"-f", vx.WriteFile("main.journal", text)}
	good := true
	switch vx.Choose("flag", 3) {
	case 0:
		k := vx.Choose("period", len(periods))
		args = append(args, "-e", "2020-12-20", "-measureperiod", periods[k])
		good = k < 4
	case 1:
		k := vx.Choose("period", len(periods))
		args = append(args, "-e", "2020-12-20", "-period", periods[k])
		good = k < 4
	case 2:
		k := vx.Choose("end", len(ends))
		if vx.Choose("side", 2) == 0 {
			args = append(args, "-e", ends[k])
		} else {
			args = append(args, "-b", ends[k])
		}
		good = k < 3
	}
	out, code := vx.RunTool(append(args, "XXX")...)
	if good {
		vx.Assert(code == 0, "accepted")
		vx.Assert(out == " 0.000000 XXX\n", "unchanged-price")
		vx.Cover("accepted")
	} else {
		vx.Assert(code == 1, "refused")
		vx.Assert(out == "", "nothing-printed")
		vx.Cover("refused")
	}
}
