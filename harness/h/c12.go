package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C12_time: 3 transactions (quick: 2, with own dates) on 2 accounts, any amounts, any seconds of a minute: the balance
// of either account at any time (before, between, at and after the postings) and at the zero time.
func C12_time() {
	b := mkBook(2+vx.Tier(), 2, 1, 59, vx.Tier() == 0, true)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	w := vx.Int64("when", -10, 70)
	for ai, a := range b.acc {
		got := l.GetBalance(a, at(w))
		vx.Assert(canonical(got), "canonical")
		var want, all int64
		n := 0
		for _, p := range b.ps {
			if p.acc == ai {
				want += vx.Ite(p.sec <= w, p.amt, 0)
				all += p.amt
				n++
			}
		}
		vx.Assert(amountIn(got, b.cur[0]) == want, "balance-at-time")
		now := l.GetBalance(a, time.Time{})
		vx.Assert(amountIn(now, b.cur[0]) == all && canonical(now), "current-balance")
	}
	vx.Cover("queried")
}

// C12_fine: the same with 2 transactions at any nanoseconds of two seconds and any nanosecond asked for.
func C12_fine() {
	b := mkBook(2, 2, 1, 2000000000, false, true, fine)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	w := vx.Int64("when", 0, 2000000001)
	for ai, a := range b.acc {
		got := l.GetBalance(a, fine(w))
		var want int64
		for _, p := range b.ps {
			if p.acc == ai {
				want += vx.Ite(p.sec <= w, p.amt, 0)
			}
		}
		vx.Assert(amountIn(got, b.cur[0]) == want && canonical(got), "balance-at-time")
	}
	vx.Cover("queried")
}

// C12_start: an account with a start balance of any amounts of 2 currencies and up to 2 postings in the period.
func C12_start() {
	cur := curs(2)
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	var ss []*accounting.Split
	n := vx.Choose("n", 3)
	var amts []int64
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = append([]*accounting.Account{}, acc...)
		l.Currencies = cur
		for i := 0; i < n; i++ {
			amts = append(amts, vx.Int64("amt", -maxAmt, maxAmt))
			s := mkSplit(l, cur, acc[0], wsplit{amt: amts[i]})
			ss = append(ss, s)
			t := &accounting.Transaction{ID: id("t"), Time: day(int64(i))}
			t.Splits = []*accounting.Split{s, mkSplit(l, cur, acc[1], wsplit{elided: true})}
			l.Transactions = append(l.Transactions, t)
		}
	})
	vx.Assert(err == nil, "opens")
	// the first posting is before the period
	k := 0
	if n > 0 && vx.Choose("skip", 2) == 1 {
		acc[0].StartBalance = acc[0].Splits[0].Balance
		acc[0].Splits = acc[0].Splits[1:]
		k = 1
	} else if n == 0 {
		x := vx.Int64("start", 1, maxAmt)
		acc[0].StartBalance = accounting.Balance{{Amount: x, Currency: cur[1]}}
		vx.Assert(amountIn(l.GetBalance(acc[0], day(5)), cur[1]) == x, "start-balance-without-postings")
		vx.Assert(amountIn(l.GetBalance(acc[0], time.Time{}), cur[1]) == x, "start-balance-without-postings")
		vx.Cover("no postings")
		return
	}
	w := vx.Int64("when", -2, 3)
	var want, all int64
	for i := range amts {
		in := int64(i) <= w
		if i < k {
			in = true
		}
		want += vx.Ite(in, amts[i], 0)
		all += amts[i]
	}
	vx.Assert(amountIn(l.GetBalance(acc[0], day(w)), cur[0]) == want, "balance-with-start")
	vx.Assert(amountIn(l.GetBalance(acc[0], time.Time{}), cur[0]) == all, "current-balance")
	vx.Cover("postings")
}
