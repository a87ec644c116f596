package h

import (
	"math/big"
	"strings"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// shown takes a displayed amount apart: its currency, sign, integer part (asserting that it is grouped in threes by
// the thousands mark and has no needless zeros) and decimals.
func shown(s string, neg bool, c accounting.Currency, units bool) (ip, dp []byte) {
	dec := c.Decimal
	if dec == "" {
		dec = "."
	}
	if units && c.Name != "" {
		space := " "
		if c.WithoutSpace {
			space = ""
		}
		if c.PrintBefore {
			vx.Assert(strings.HasPrefix(s, c.Name+space), "currency-before")
			s = s[len(c.Name+space):]
		} else {
			vx.Assert(strings.HasSuffix(s, space+c.Name), "currency-after")
			s = s[:len(s)-len(space+c.Name)]
		}
	}
	if neg {
		vx.Assert(len(s) > 0 && s[0] == '-', "minus-sign")
		s = s[1:]
	}
	n := 0
	for n < len(s) && !(s[n] == dec[0]) {
		n++
	}
	if n < len(s) {
		dp = []byte(s[n+1:])
		vx.Assert(len(dp) > 0, "no-decimal-mark-without-decimals")
	}
	ok := true
	last := -1
	for i := 0; i < n; i++ {
		if !isDigit(s[i]) {
			vx.Assert(s[i:i+len(c.Thousand)] == c.Thousand && c.Thousand != "", "only-digits-and-thousands-marks")
			if last < 0 {
				ok = ok && i > 0 && i <= 3
			} else {
				ok = ok && i-last == 4
			}
			last = i
			continue
		}
		ip = append(ip, s[i])
	}
	if last >= 0 {
		ok = ok && n-last == 4
	} else if c.Thousand != "" {
		ok = ok && n <= 3
	}
	vx.Assert(ok, "grouped-in-threes")
	vx.Assert(len(ip) > 0, "integer-part")
	vx.Assert(len(ip) == 1 || ip[0] != '0', "no-needless-zeros")
	for _, d := range dp {
		ok = vx.And(ok, d >= '0', d <= '9')
	}
	vx.Assert(ok, "decimals-are-digits")
	return
}

// format chooses a currency format.
func format() accounting.Currency {
	m := []string{"", ".", ",", "_", "'"}
	c := accounting.Currency{Name: "EUR", Thousand: m[vx.Choose("thousand", 5)], Decimal: m[vx.Choose("decimal", 5)]}
	if c.Decimal == "" {
		vx.Assume(c.Thousand != ".")
	}
	vx.Assume(c.Thousand != c.Decimal || c.Thousand == "")
	c.Precision = vx.Choose("precision", 9)
	return c
}

// amountOf bounds: every int64.
func amountOf() (a int64, abs *big.Int, neg bool) {
	a = vx.Int64("amount", -1<<63, 1<<63-1)
	neg = a < 0
	abs = new(big.Int).Abs(big.NewInt(a))
	return
}

func checkShort(s string, abs *big.Int, neg bool, c accounting.Currency, units bool) {
	ip, dp := shown(s, neg, c, units)
	vx.Assert(len(dp) == c.Precision, "as-many-decimals-as-the-currency")
	// number <= |amount| < number + one unit of the last decimal shown
	n := number(ip, dp)
	vx.Assert(n.Cmp(abs) <= 0, "not-more-than-stored")
	unit := big.NewInt(1)
	for i := len(dp); i < 8; i++ {
		unit.Mul(unit, big.NewInt(10))
	}
	vx.Assert(n.Add(n, unit).Cmp(abs) > 0, "truncated")
}

func checkFull(s string, abs *big.Int, neg bool, c accounting.Currency) {
	ip, dp := shown(s, neg, c, true)
	vx.Assert(len(dp) >= c.Precision && len(dp) <= 8, "at-least-the-currency-decimals")
	if len(dp) > c.Precision {
		vx.Cover("more decimals")
		vx.Assert(dp[len(dp)-1] != '0', "no-needless-decimals")
	}
	vx.Assert(number(ip, dp).Cmp(abs) == 0, "exact")
}

// C16_short: the short form of every amount of 64 bits for the currency formats of all precisions (0 to 8), thousands
// and decimal marks (none and the four marks each), with the currency after it.
func C16_short() {
	c := format()
	a, abs, neg := amountOf()
	checkShort(accounting.Value{Amount: a, Currency: &c}.String(), abs, neg, c, true)
}

// C16_full: the same for the full form.
func C16_full() {
	c := format()
	a, abs, neg := amountOf()
	checkFull(accounting.Value{Amount: a, Currency: &c}.FullString(), abs, neg, c)
}

// C16_sides: both forms, and the one without currency, on either side, with and without space, with and without a
// name, precision 0, 2 or 8, marks "," and "."; and without currency at all.
func C16_sides() {
	var c accounting.Currency
	v := accounting.Value{}
	if vx.Choose("currency", 4) > 0 {
		c = accounting.Currency{Thousand: ",", Decimal: ".", Precision: []int{0, 2, 8}[vx.Choose("precision", 3)]}
		c.PrintBefore = vx.Choose("before", 2) == 1
		c.WithoutSpace = vx.Choose("without space", 2) == 1
		c.Name = []string{"", "$", "EUR"}[vx.Choose("name", 3)]
		vx.Assume(!(c.Name == "" && c.PrintBefore))
		v.Currency = &c
	}
	a, abs, neg := amountOf()
	v.Amount = a
	switch vx.Choose("form", 3) {
	case 0:
		checkShort(v.String(), abs, neg, c, true)
	case 1:
		checkShort(v.GetString(false, false), abs, neg, c, false)
	case 2:
		checkFull(v.FullString(), abs, neg, c)
	}
	vx.Assert(v.Amount == a, "amount-unchanged")
}

// C16_balance: balances of 0 to 3 amounts (any of 64 bits) in three currencies: the short forms separated by commas, or
// 0.
func C16_balance() {
	n := vx.Choose("amounts", 4)
	var b accounting.Balance
	want := "0"
	for i := 0; i < n; i++ {
		c := newCur(i)
		c.Precision = i
		c.PrintBefore = i == 1
		v := accounting.Value{Amount: vx.Int64("amount", -1<<63, 1<<63-1), Currency: c}
		b = append(b, v)
		if i == 0 {
			want = v.String()
		} else {
			want += ", " + v.String()
		}
	}
	vx.Assert(b.String() == want, "balance")
}
