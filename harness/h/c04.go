package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C04_chain: 2 transactions (thorough: 3) on consecutive days, each with a posting on account A (an amount, an
// amount and an assertion, or only an assertion; 2 currencies, amounts up to 2^59) and one without amount on account B:
// opens exactly when every assertion is true of the exact running balance, and then the missing amounts make them so.
func C04_chain() {
	cur := curs(2)
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	n := 2 + vx.Tier()
	var ss []*accounting.Split
	var ws []wsplit
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = acc
		l.Currencies = cur
		for i := 0; i < n; i++ {
			var w wsplit
			k := vx.Choose("kind", 3)
			if k == 2 {
				w.elided = true
			} else {
				w.cur = vx.Choose("cur", 2)
				w.amt = vx.Int64("amt", -maxAmt, maxAmt)
			}
			if k > 0 {
				w.asserted = true
				w.acur = vx.Choose("acur", 2)
				w.assert = vx.Int64("assert", -maxAmt, maxAmt)
			}
			ws = append(ws, w)
			s := mkSplit(l, cur, acc[0], w)
			ss = append(ss, s)
			t := &accounting.Transaction{ID: id("t"), Time: day(int64(i))}
			t.Splits = []*accounting.Split{s, mkSplit(l, cur, acc[1], wsplit{elided: true})}
			l.Transactions = append(l.Transactions, t)
		}
	})
	var run [2]int64
	var vals []int64
	hold := true
	for _, w := range ws {
		v := w.amt
		if w.elided {
			v = w.assert - run[w.acur]
			run[w.acur] = w.assert
		} else {
			run[w.cur] += w.amt
			if w.asserted {
				hold = vx.And(hold, run[w.acur] == w.assert)
			}
		}
		vals = append(vals, v)
	}
	vx.Observe("err", err != nil)
	vx.Assert(vx.Iff(err == nil, hold), "opens-exactly-when-assertions-hold")
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	for i, w := range ws {
		s := ss[i]
		vx.Assert(s.Value.Amount == vals[i], "amount-from-assertion")
		if w.elided {
			vx.Assert(s.Value.Currency == cur[w.acur], "currency-from-assertion")
		}
		if w.asserted {
			vx.Assert(amountIn(s.Balance, cur[w.acur]) == w.assert, "assertion-true")
			a, ok := l.Assertions[s]
			vx.Assert(vx.And(ok, a.Amount == w.assert, a.Currency == cur[w.acur]), "assertion-kept")
		}
		vx.Assert(canonical(s.Balance), "balance-canonical")
	}
}

// C04_same: one transaction with 2 or 3 postings on the same account (the assertions refer to the balance after
// each posting), of one currency, the last one on another account without amount.
func C04_same() {
	cur := curs(1)
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	n := 2 + vx.Choose("n", 2)
	start := vx.Int64("start", -maxAmt, maxAmt)
	var ss []*accounting.Split
	var ws []wsplit
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = acc
		l.Currencies = cur
		t0 := &accounting.Transaction{ID: id("t0"), Time: day(0)}
		t0.Splits = []*accounting.Split{mkSplit(l, cur, acc[0], wsplit{amt: start}), mkSplit(l, cur, acc[1], wsplit{elided: true})}
		t := &accounting.Transaction{ID: id("t"), Time: day(1)}
		for i := 0; i < n; i++ {
			var w wsplit
			k := vx.Choose("kind", 3)
			if k == 2 {
				w.elided = true
			} else {
				w.amt = vx.Int64("amt", -maxAmt, maxAmt)
			}
			if k > 0 {
				w.asserted = true
				w.assert = vx.Int64("assert", -maxAmt, maxAmt)
			}
			ws = append(ws, w)
			s := mkSplit(l, cur, acc[0], w)
			ss = append(ss, s)
			t.Splits = append(t.Splits, s)
		}
		t.Splits = append(t.Splits, mkSplit(l, cur, acc[1], wsplit{elided: true}))
		l.Transactions = []*accounting.Transaction{t0, t}
	})
	run := start
	hold := true
	var vals []int64
	for _, w := range ws {
		v := w.amt
		if w.elided {
			v = w.assert - run
		}
		run += v
		if w.asserted {
			hold = vx.And(hold, run == w.assert)
		}
		vals = append(vals, v)
	}
	vx.Observe("err", err != nil)
	vx.Assert(vx.Iff(err == nil, hold), "opens-exactly-when-assertions-hold")
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	for i := range ws {
		vx.Assert(ss[i].Value.Amount == vals[i], "amount-from-assertion")
	}
}

// C04_order: three transactions, the first with a posting on A given only by an assertion, the others with postings
// on A whose amounts are missing (absorbed) or given; the postings on A have their own dates, in every order:
// always solvable when the assertions are on the only posting without amount of their transaction.
func C04_order() {
	cur := curs(1)
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}, {Name: "C", ID: id("c")}}
	var d [3]int64
	for i := range d {
		d[i] = vx.Int64("owndate", 0, 3)
	}
	vx.Assume(vx.And(d[0] != d[1], d[1] != d[2], d[0] != d[2]))
	a := vx.Int64("assert", -maxAmt, maxAmt)
	v1 := vx.Int64("v1", -maxAmt, maxAmt)
	v2 := vx.Int64("v2", -maxAmt, maxAmt)
	ws := []wsplit{{elided: true, asserted: true, assert: a}, {elided: true}, {amt: v2}}
	cs := []wsplit{{elided: true}, {amt: v1}, {elided: true}}
	var ss []*accounting.Split
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = acc
		l.Currencies = cur
		for i := range ws {
			s := mkSplit(l, cur, acc[0], ws[i])
			tm := day(d[i])
			s.Time = &tm
			ss = append(ss, s)
			t := &accounting.Transaction{ID: id("t"), Time: day(int64(i))}
			t.Splits = []*accounting.Split{s, mkSplit(l, cur, acc[1+i%2], cs[i])}
			l.Transactions = append(l.Transactions, t)
		}
	})
	vx.Assert(err == nil, "true-assertion-never-refused")
	vx.Cover("accepted")
	want := a - vx.Ite(d[1] < d[0], -v1, 0) - vx.Ite(d[2] < d[0], v2, 0)
	vx.Assert(ss[0].Value.Amount == want, "amount-from-assertion")
	vx.Assert(amountIn(ss[0].Balance, cur[0]) == a, "assertion-true")
	vx.Assert(ss[1].Value.Amount == -v1, "absorbed")
}
