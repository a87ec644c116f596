package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C10_any: every set of 3 prices (thorough: 4) between any of 3 currencies (back and forth, in circles and to
// themselves included) on successive days, with any rates up to 2^29, converting any amount up to 2^20 on any of those
// days or around them to any of the currencies, to one without prices, or to none: an amount in that currency, or an
// error.
func C10_any() {
	cur := curs(3)
	n := 3 + vx.Tier()
	var ps []*accounting.Price
	for i := 0; i < n; i++ {
		f, t := vx.Choose("from", 3), vx.Choose("to", 3)
		ps = append(ps, &accounting.Price{ID: id("p"), Time: day(int64(2 * i)), Currency: cur[f], Value: accounting.Value{Amount: vx.Int64("rate", -1<<29, 1<<29), Currency: cur[t]}})
	}
	l := priceBook(cur, ps)
	w := day(int64([]int{-1, 2, 3, 9}[vx.Choose("when", 4)]))
	targets := []*accounting.Currency{cur[0], cur[1], cur[2], {Name: "XXX"}, nil}
	target := targets[vx.Choose("target", 5)]
	v := accounting.Value{Amount: vx.Int64("amt", -1<<20, 1<<20), Currency: cur[0]}
	res, err := l.Convert(v, w, target)
	vx.Observe("err", err != nil)
	if err == nil {
		vx.Cover("converted")
		vx.Assert(res.Currency == target, "in-requested-currency")
	} else {
		vx.Cover("error")
	}
}

// C10_cycle: prices back and forth between two currencies on one or several days and one to a third, in every order, all
// at the same time or on successive days; converting from either or from no currency to the third, a fourth, or none.
func C10_cycle() {
	cur := append(curs(3), &accounting.Currency{Name: "XXX", Precision: 2})
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	e := [][2]int{{0, 1}, {1, 0}, {vx.Choose("exit", 2), 2}}
	step := int64(vx.Choose("step", 2))
	var ps []*accounting.Price
	for i, k := range perms[vx.Choose("order", 6)] {
		ps = append(ps, &accounting.Price{ID: id("p"), Time: day(step * int64(i)), Currency: cur[e[k][0]], Value: accounting.Value{Amount: vx.Int64("rate", 0, 1<<29), Currency: cur[e[k][1]]}})
	}
	l := priceBook(cur, ps)
	targets := []*accounting.Currency{cur[2], cur[3], nil}
	sources := []*accounting.Currency{cur[0], cur[1], nil}
	target := targets[vx.Choose("target", 3)]
	v := accounting.Value{Amount: vx.Int64("amt", -1<<20, 1<<20), Currency: sources[vx.Choose("source", 3)]}
	res, err := l.Convert(v, day(int64(vx.Choose("when", 5)-1)), target)
	vx.Observe("err", err != nil)
	if err == nil {
		vx.Cover("converted")
		vx.Assert(res.Currency == target, "in-requested-currency")
	} else {
		vx.Cover("error")
	}
}

// C10_chain: one or two prices from a currency to a second and one or two from that to a third (and thorough: from
// there to a fourth): the conversion equals the composition of the direct ones, whatever the rates up to 2^29 and
// the days.
func C10_chain() {
	cur := append(curs(3), &accounting.Currency{Name: "XXX", Precision: 2})
	hops := 2 + vx.Choose("hops", 1+vx.Tier())
	var ps []*accounting.Price
	for h := 0; h < hops; h++ {
		n := 1 + vx.Choose("n", 2)
		for i := 0; i < n; i++ {
			ps = append(ps, &accounting.Price{ID: id("p"), Time: day(int64(i) + int64(vx.Choose("day", 2))), Currency: cur[h],
				Value: accounting.Value{Amount: vx.Int64("rate", 0, 1<<29), Currency: cur[h+1]}})
		}
	}
	l := priceBook(cur, ps)
	v := accounting.Value{Amount: vx.Int64("amt", -1<<20, 1<<20), Currency: cur[0]}
	w := day(int64(vx.Choose("when", 4)) - 1)
	res, err := l.Convert(v, w, cur[hops])
	vx.Assert(err == nil, "converts-through-intermediate")
	vx.Cover("converted")
	x := v
	for h := 0; h < hops; h++ {
		x, err = l.Convert(x, w, cur[h+1])
		vx.Assert(err == nil, "converts-directly")
	}
	vx.Assert(res.Currency == cur[hops] && res.Amount == x.Amount, "composition")
}
