package h

import (
	"math/big"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

func bigMul(a, b int64) *big.Int { return new(big.Int).Mul(big.NewInt(a), big.NewInt(b)) }

// rateIs says that rate is num*U/den up to (less than) one unit: |rate*den - U*num| < |den|.
func rateIs(rate, num, den int64) bool {
	d := bigMul(rate, den)
	d.Sub(d, bigMul(accounting.U, num))
	return d.Abs(d).Cmp(new(big.Int).Abs(big.NewInt(den))) < 0
}

// window is a range of magnitudes such that the rate between any two amounts of it fits in 64 bits.
func window() (lo, hi int64) {
	if vx.Choose("window", 2) == 1 {
		return 1 << 25, 1 << 59
	}
	return 1, 1 << 36
}

// signedIn is zero, or an amount of either sign with absolute value in [lo, hi].
func signedIn(name string, lo, hi int64) int64 {
	switch vx.Choose(name+"sign", 3) {
	case 0:
		return vx.Int64(name, lo, hi)
	case 1:
		return -vx.Int64(name, lo, hi)
	}
	return 0
}

func isPrice(p *accounting.Price, t time.Time, c, in *accounting.Currency) bool {
	return p.Currency == c && p.Value.Currency == in && p.Time.Equal(t)
}

// checkPair asserts that exactly two of ps, at time t, give the rates between a of ca and b of cb, in both directions.
func checkPair(ps []*accounting.Price, t time.Time, a int64, ca *accounting.Currency, b int64, cb *accounting.Currency, label string) {
	n := 0
	for _, p := range ps {
		if p.Currency == ca && p.Value.Currency == cb {
			n++
			vx.Assert(p.Time.Equal(t), label+"-date")
			vx.Assert(rateIs(p.Value.Amount, b, a), label+"-rate")
			vx.Assert(vx.Imp((a > 0) == (b > 0), p.Value.Amount >= 0), label+"-sign")
		}
	}
	vx.Assert(n == 1, label)
	n = 0
	for _, p := range ps {
		if p.Currency == cb && p.Value.Currency == ca {
			n++
			vx.Assert(p.Time.Equal(t), label+"-reverse-date")
			vx.Assert(rateIs(p.Value.Amount, a, b), label+"-reverse-rate")
			vx.Assert(vx.Imp((a > 0) == (b > 0), p.Value.Amount >= 0), label+"-reverse-sign")
		}
	}
	vx.Assert(n == 1, label+"-reverse")
}

// C08_exchange: one transaction of 2 or 3 postings with any amounts of 2 currencies, one of them
// possibly at its own date, next to an explicit price of a third: left with two currencies it adds exactly one price in each direction, on its date, with the exact
// rate; otherwise none. Magnitudes 1 to 2^36 and 2^25 to 2^59.
func C08_exchange() {
	cur := curs(3)
	// the amounts left in each currency, and how one of them may be split in two postings
	lo, hi := window()
	sums := []int64{signedIn("a", lo, hi), signedIn("b", lo, hi)}
	vx.Assume((sums[0] == 0) == (sums[1] == 0))
	w := []wsplit{{cur: 0, amt: sums[0]}, {cur: 1, amt: sums[1]}}
	left := 2
	if sums[0] == 0 {
		left = 0
	}
	if vx.Choose("more", 2) == 1 {
		x := vx.Int64("part", -maxAmt, maxAmt)
		k := vx.Choose("which", 2)
		w[k].amt -= x
		w = append(w, wsplit{cur: k, amt: x})
	}
	d := vx.Int64("day", 0, 2)
	e := vx.Int64("explicit", 0, maxAmt)
	xp := &accounting.Price{ID: id("p"), Time: day(1), Currency: cur[2], Value: accounting.Value{Amount: e, Currency: cur[0]}}
	acc := &accounting.Account{Name: "A", ID: id("a")}
	own := -1
	if len(w) == 2 || vx.Tier() > 0 {
		own = vx.Choose("own", len(w)+1) - 1
	}
	o := vx.Int64("own day", 0, 2)
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{acc}
		l.Currencies = cur
		t := &accounting.Transaction{ID: id("t"), Time: day(d)}
		for i, x := range w {
			t.Splits = append(t.Splits, mkSplit(l, cur, acc, x))
			if i == own {
				tm := day(o)
				t.Splits[i].Time = &tm
			}
		}
		l.Transactions = []*accounting.Transaction{t}
		l.Prices = []*accounting.Price{xp}
	})
	vx.Assert(err == nil, "opens")
	kept := 0
	var added []*accounting.Price
	for i, p := range l.Prices {
		if p == xp {
			kept++
		} else {
			added = append(added, p)
		}
		if i > 0 {
			vx.Assert(vx.Not(l.Prices[i-1].Time.After(p.Time)), "prices-in-order")
		}
	}
	vx.Assert(kept == 1 && isPrice(xp, day(1), cur[2], cur[0]) && xp.Value.Amount == e, "explicit-price-kept")
	if left == 0 {
		vx.Cover("no exchange")
		vx.Assert(len(added) == 0, "no-price-without-exchange")
		return
	}
	vx.Cover("exchange")
	vx.Assert(len(added) == 2, "two-prices")
	checkPair(added, day(d), sums[0], cur[0], -sums[1], cur[1], "exchange")
}

// C08_total: two transactions on any of 3 days, each with one posting of any amount with any total price
// in another currency and possibly its own date, and one that balances it: each posting adds exactly one price
// in each direction, on its date, with the exact rate, unless an amount is zero. Quick: the second posting has a negative
// amount and a positive price. Magnitudes 1 to 2^36 and 2^25 to 2^59.
func C08_total() {
	cur := curs(3)
	acc := &accounting.Account{Name: "A", ID: id("a")}
	var w [2]wsplit
	var d, own [2]int64
	var hasOwn [2]bool
	var lo, hi int64
	for i := range w {
		w[i] = wsplit{cur: i, priced: true, pcur: 2}
		if i == 0 {
			lo, hi = window()
		}
		if i == 0 || vx.Tier() == 1 {
			w[i].amt = signedIn("amt", lo, hi)
			w[i].price = signedIn("price", lo, hi)
		} else {
			w[i].amt = -vx.Int64("amt", lo, hi)
			w[i].price = vx.Int64("price", lo, hi)
		}
		d[i] = vx.Int64("day", 0, 2)
		own[i] = d[i]
		if vx.Choose("own", 2) == 1 {
			hasOwn[i] = true
			own[i] = vx.Int64("ownday", 0, 2)
		}
	}
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{acc}
		l.Currencies = cur
		for i := range w {
			t := &accounting.Transaction{ID: id("t"), Time: day(d[i])}
			s := mkSplit(l, cur, acc, w[i])
			if hasOwn[i] {
				tm := day(own[i])
				s.Time = &tm
			}
			t.Splits = []*accounting.Split{s, mkSplit(l, cur, acc, wsplit{cur: 2, amt: -w[i].price})}
			l.Transactions = append(l.Transactions, t)
		}
	})
	vx.Assert(err == nil, "opens")
	want := 0
	for i := range w {
		if vx.And(w[i].amt != 0, w[i].price != 0) {
			want += 2
		}
	}
	vx.Assert(len(l.Prices) == want, "exactly-the-implied-prices")
	for i := 1; i < len(l.Prices); i++ {
		vx.Assert(vx.Not(l.Prices[i-1].Time.After(l.Prices[i].Time)), "prices-in-order")
	}
	for i := range w {
		if vx.And(w[i].amt != 0, w[i].price != 0) {
			vx.Cover("priced")
			var ps []*accounting.Price
			for _, p := range l.Prices {
				if p.Currency == cur[i] || p.Value.Currency == cur[i] {
					ps = append(ps, p)
				}
			}
			vx.Assert(len(ps) == 2, "two-prices-for-posting")
			checkPair(ps, day(own[i]), w[i].amt, cur[i], w[i].price, cur[2], "priced")
		}
	}
}

// C08_missing: a transaction whose posting with a total price (any amount, price sign included) is balanced
// by a posting without amount; the price recorded has the exact rate. Magnitudes 1 to 2^36 and 2^25 to 2^59.
func C08_missing() {
	cur := curs(2)
	acc := &accounting.Account{Name: "A", ID: id("a")}
	lo, hi := window()
	w := wsplit{cur: 0, amt: signedIn("amt", lo, hi), priced: true, pcur: 1, price: signedIn("price", lo, hi)}
	zero := vx.Or(w.amt == 0, w.price == 0)
	last := vx.Choose("last", 2) == 1
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{acc}
		l.Currencies = cur
		t := &accounting.Transaction{ID: id("t"), Time: day(1)}
		t.Splits = []*accounting.Split{mkSplit(l, cur, acc, w), mkSplit(l, cur, acc, wsplit{elided: true})}
		if last {
			t.Splits[0], t.Splits[1] = t.Splits[1], t.Splits[0]
		}
		l.Transactions = append(l.Transactions, t)
	})
	vx.Assert(err == nil, "opens")
	if zero {
		vx.Cover("nothing exchanged")
		vx.Assert(len(l.Prices) == 0, "no-price-for-zero")
		return
	}
	vx.Cover("exchanged")
	vx.Assert(len(l.Prices) == 2, "two-prices")
	checkPair(l.Prices, day(1), w.amt, cur[0], w.price, cur[1], "priced")
}
