package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// checkElided asserts what C02 says about the opened transaction t written as w.
func checkElided(cur []*accounting.Currency, t *accounting.Transaction, w []wsplit) {
	sums, left, _ := leftover(w)
	for i, x := range w {
		s := t.Splits[i]
		if !x.elided {
			vx.Assert(vx.And(s.Value.Amount == x.amt, s.Value.Currency == cur[x.cur]), "written-amount-unchanged")
			continue
		}
		vx.Assert(s.Value.Currency != nil, "elided-has-currency")
		c := curIndex(cur, s.Value.Currency)
		var want int64
		if c >= 0 {
			want = -sums[c]
		}
		vx.Assert(s.Value.Amount == want, "elided-amount")
		vx.Assert(vx.Or(left == 0, s.Value.Amount != 0), "elided-absorbs")
	}
}

func elidedOne(n int, prices bool) {
	cur := curs(3)
	e := vx.Choose("elided", n)
	var w []wsplit
	for i := 0; i < n; i++ {
		if i == e {
			w = append(w, wsplit{elided: true})
		} else {
			w = append(w, chooseSplit(3, false, prices))
		}
	}
	t := &accounting.Transaction{ID: id("t"), Time: day(1)}
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	def := n == 3 && !prices && vx.Choose("default", 2) == 1
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = acc
		l.Currencies = cur
		if def {
			l.DefaultCurrency = cur[0]
		}
		for i, x := range w {
			s := mkSplit(l, cur, acc[i%2], x)
			t.Splits = append(t.Splits, s)
		}
		l.Transactions = []*accounting.Transaction{t}
	})
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	vx.Observe("amount", t.Splits[e].Value.Amount)
	checkElided(cur, t, w)
}

// C02_amounts: one transaction of up to 4 postings (thorough: 5) of any amounts of 3 currencies, one of them
// without amount, in every position.
func C02_amounts() { elidedOne(1+vx.Choose("n", 4+vx.Tier()), false) }

// C02_prices: as C02_amounts with up to 3 postings (thorough: 4), which can have total prices.
func C02_prices() { elidedOne(1+vx.Choose("n", 3+vx.Tier()), true) }

// C02_two: a transaction with two postings without amount, next to up to two with any amounts of 2 currencies, is
// refused; alone or after a sound transaction.
func C02_two() {
	cur := curs(2)
	n := 2 + vx.Choose("n", 3)
	e1 := vx.Choose("e1", n)
	e2 := vx.Choose("e2", n)
	vx.Assume(e1 < e2)
	first := vx.Choose("first", 2)
	acc := &accounting.Account{Name: "A", ID: id("a")}
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{acc}
		l.Currencies = cur
		if first == 1 {
			a := vx.Int64("a", -maxAmt, maxAmt)
			t := &accounting.Transaction{ID: id("t0"), Time: day(0)}
			t.Splits = append(t.Splits, mkSplit(l, cur, acc, wsplit{amt: a}), mkSplit(l, cur, acc, wsplit{elided: true}))
			l.Transactions = append(l.Transactions, t)
		}
		t := &accounting.Transaction{ID: id("t"), Time: day(1)}
		for i := 0; i < n; i++ {
			w := wsplit{elided: true}
			if i != e1 && i != e2 {
				w = chooseSplit(2, false, false)
			}
			t.Splits = append(t.Splits, mkSplit(l, cur, acc, w))
		}
		l.Transactions = append(l.Transactions, t)
	})
	vx.Cover("decided")
	vx.Assert(err != nil, "two-elided-refused")
}

// C02_written: one transaction of up to 3 (4) postings, all with any amounts of 3 currencies or total prices: the amounts are
// those written.
func C02_written() {
	cur := curs(3)
	var w []wsplit
	n := 1 + vx.Choose("n", 3+vx.Tier())
	for i := 0; i < n; i++ {
		w = append(w, chooseSplit(3, false, n < 3))
	}
	t := &accounting.Transaction{ID: id("t"), Time: day(1)}
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = acc
		l.Currencies = cur
		for i, x := range w {
			t.Splits = append(t.Splits, mkSplit(l, cur, acc[i%2], x))
		}
		l.Transactions = []*accounting.Transaction{t}
	})
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	checkElided(cur, t, w)
}
