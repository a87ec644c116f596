package h

import (
	"math/big"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// convWindow gives ranges of rates and amounts whose products fit in 64 bits.
func convWindow() (rate, amt int64) {
	if vx.Choose("window", 2) == 1 {
		return 1 << 45, 1 << 43
	}
	return 1 << 29, 1 << 59
}

// timesRate says that res is v*rate/U up to (less than) one unit.
func timesRate(res, v, rate int64) bool {
	d := bigMul(accounting.U, res)
	d.Sub(d, bigMul(v, rate))
	return d.Abs(d).Cmp(big.NewInt(accounting.U)) < 0
}

// pair makes n prices of cur[0] in cur[1] at increasing days among 0..4.
func pair(n int, cur []*accounting.Currency, maxRate int64) (ps []*accounting.Price, d []int64) {
	for i := 0; i < n; i++ {
		lo := int64(0)
		if i > 0 {
			lo = d[i-1] + 1
		}
		hi := int64(5 - (n - 1 - i))
		vx.Assume(lo < hi)
		x := lo + int64(vx.Choose("day", int(hi-lo)))
		d = append(d, x)
		ps = append(ps, &accounting.Price{ID: id("p"), Time: day(x), Currency: cur[0],
			Value: accounting.Value{Amount: vx.Int64("rate", -maxRate, maxRate), Currency: cur[1]}})
	}
	return
}

// checkDirect converts one unit to learn the rate in effect on day w, which must be the one the prices give, and then
// any amount.
func checkDirect(l *accounting.Ledger, cur []*accounting.Currency, rates []int64, d []int64, w int64, amt int64) {
	one, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur[0]}, day(w), cur[1])
	vx.Assert(err == nil && one.Currency == cur[1], "converts-unit")
	prev, next := -1, -1
	for i := range d {
		if d[i] <= w {
			prev = i
		}
		if d[i] >= w && next < 0 {
			next = i
		}
	}
	switch {
	case prev == next:
		vx.Cover("at a price")
		vx.Assert(one.Amount == rates[prev], "rate-of-that-time")
	case next < 0:
		vx.Cover("after all")
		vx.Assert(one.Amount == rates[prev], "last-rate")
	case prev < 0:
		vx.Cover("before all")
		vx.Assert(one.Amount == rates[next], "first-rate")
	default:
		vx.Cover("between two")
		d1, d2 := w-d[prev], d[next]-d[prev]
		e := d2*one.Amount - (d2*rates[prev] + d1*(rates[next]-rates[prev]))
		vx.Assert(vx.And(e < d2, -e < d2), "interpolated-rate")
	}
	v := accounting.Value{Amount: amt, Currency: cur[0]}
	res, err := l.Convert(v, day(w), cur[1])
	vx.Assert(err == nil && res.Currency == cur[1], "converts")
	vx.Assert(timesRate(res.Amount, amt, one.Amount), "amount-times-rate")
	vx.Assert(v.Amount == amt && v.Currency == cur[0], "operand-unchanged")
}

func priceBook(cur []*accounting.Currency, ps []*accounting.Price) *accounting.Ledger {
	l, err := open(func(l *accounting.Ledger) {
		l.Currencies = cur
		l.Prices = append([]*accounting.Price{}, ps...)
	})
	vx.Assert(err == nil, "opens")
	return l
}

// C09_direct: 1 to 3 prices (thorough: 4) of one pair on different days among five, given in any rotation, any rates (up to
// 2^29 or 2^45), any day to convert, any amount (up to 2^59 or 2^43).
func C09_direct() {
	cur := curs(2)
	maxRate, maxV := convWindow()
	n := 1 + vx.Choose("n", 3+vx.Tier())
	ps, d := pair(n, cur, maxRate)
	var rates []int64
	for _, p := range ps {
		rates = append(rates, p.Value.Amount)
	}
	k := vx.Choose("rotate", n)
	l := priceBook(cur, append(append([]*accounting.Price{}, ps[k:]...), ps[:k]...))
	checkDirect(l, cur, rates, d, int64(vx.Choose("when", 5)), vx.Int64("amt", -maxV, maxV))
}

// C09_others: 1 or 2 prices of one pair, and one price between any other two of 3 currencies (the reverse pair
// included) with any rate on any day, before or after the others in the list.
func C09_others() {
	cur := curs(3)
	maxRate, maxV := convWindow()
	n := 1 + vx.Choose("n", 2)
	ps, d := pair(n, cur, maxRate)
	var rates []int64
	for _, p := range ps {
		rates = append(rates, p.Value.Amount)
	}
	others := [][2]int{{1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}}
	o := others[vx.Choose("other", 5)]
	x := &accounting.Price{ID: id("x"), Time: day(int64(vx.Choose("otherday", 5))), Currency: cur[o[0]],
		Value: accounting.Value{Amount: vx.Int64("otherrate", -maxRate, maxRate), Currency: cur[o[1]]}}
	if vx.Choose("first", 2) == 1 {
		ps = append([]*accounting.Price{x}, ps...)
	} else {
		ps = append(ps, x)
	}
	l := priceBook(cur, ps)
	checkDirect(l, cur, rates, d, int64(vx.Choose("when", 5)), vx.Int64("amt", -maxV, maxV))
}

// C09_fine: 2 prices of one pair at seconds of one day, converting at another second; times that are equal in another
// time zone are the same time.
func C09_fine() {
	cur := curs(2)
	maxRate, maxV := convWindow()
	s := []int64{int64(vx.Choose("first", 2)), 7, 86399}
	r := []int64{vx.Int64("rate", -maxRate, maxRate), vx.Int64("rate", -maxRate, maxRate)}
	k := vx.Choose("skip", 2)
	ps := []*accounting.Price{
		{ID: id("p"), Time: at(s[0]), Currency: cur[0], Value: accounting.Value{Amount: r[0], Currency: cur[1]}},
		{ID: id("p"), Time: at(s[1+k]), Currency: cur[0], Value: accounting.Value{Amount: r[1], Currency: cur[1]}}}
	l := priceBook(cur, ps)
	whens := []int64{-1, 0, 1, 3, 7, 8, 43200, 86399, 86400}
	w := whens[vx.Choose("when", len(whens))]
	one, err := l.Convert(accounting.Value{Amount: accounting.U, Currency: cur[0]}, at(w), cur[1])
	vx.Assert(err == nil && one.Currency == cur[1], "converts-unit")
	a, b := s[0], s[1+k]
	switch {
	case w <= a:
		vx.Assert(one.Amount == r[0], "first-rate")
	case w >= b:
		vx.Assert(one.Amount == r[1], "last-rate")
	default:
		vx.Cover("between two")
		d := bigMul(b-a, one.Amount)
		d.Sub(d, bigMul(b-a, r[0]))
		d.Sub(d, bigMul(w-a, r[1]-r[0]))
		vx.Assert(d.Abs(d).Cmp(big.NewInt(b-a)) < 0, "interpolated-rate")
	}
	v := vx.Int64("amt", -maxV, maxV)
	res, err := l.Convert(accounting.Value{Amount: v, Currency: cur[0]}, at(w), cur[1])
	vx.Assert(err == nil && res.Currency == cur[1], "converts")
	vx.Assert(timesRate(res.Amount, v, one.Amount), "amount-times-rate")
}

// C09_impossible: with up to 2 prices among 3 currencies that do not lead from one to the other, converting is an
// error; to its own currency, an amount is unchanged whatever the prices (self prices included).
func C09_impossible() {
	cur := curs(3)
	amt := vx.Int64("amt", -maxAmt, maxAmt)
	var ps []*accounting.Price
	var reach [3]bool
	reach[0] = true
	n := vx.Choose("n", 3)
	var e [][2]int
	for i := 0; i < n; i++ {
		f, t := vx.Choose("from", 3), vx.Choose("to", 3)
		e = append(e, [2]int{f, t})
		ps = append(ps, &accounting.Price{ID: id("p"), Time: day(int64(i)), Currency: cur[f], Value: accounting.Value{Amount: vx.Int64("rate", 1, 1<<29), Currency: cur[t]}})
	}
	for range e {
		for _, x := range e {
			if reach[x[0]] {
				reach[x[1]] = true
			}
		}
	}
	l := priceBook(cur, ps)
	v := accounting.Value{Amount: amt, Currency: cur[0]}
	w := day(int64(vx.Choose("when", 3)))
	same, err := l.Convert(v, w, cur[0])
	vx.Assert(err == nil && same.Currency == cur[0] && same.Amount == amt, "own-currency-unchanged")
	_, err = l.Convert(v, w, cur[1])
	vx.Observe("err", err != nil)
	if !reach[1] {
		vx.Cover("impossible")
		vx.Assert(err != nil, "impossible-is-an-error")
	}
}
