package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// wsplit is a posting as written.
type wsplit struct {
	elided   bool
	cur      int
	amt      int64
	priced   bool
	pcur     int
	price    int64
	asserted bool
	acur     int
	assert   int64
}

// leftover counts the currencies in which the written postings do not cancel, and says which they are.
func leftover(w []wsplit) (sums [3]int64, left int64, elided int) {
	for _, s := range w {
		if s.elided {
			elided++
		} else if s.priced {
			sums[s.pcur] += s.price
		} else {
			sums[s.cur] += s.amt
		}
	}
	left = vx.Ite(sums[0] != 0, 1, 0) + vx.Ite(sums[1] != 0, 1, 0) + vx.Ite(sums[2] != 0, 1, 0)
	return
}

func balanceable(w []wsplit) bool {
	_, left, elided := leftover(w)
	switch elided {
	case 0:
		return vx.Or(left == 0, left == 2)
	case 1:
		return left <= 1
	}
	return false
}

// mkSplit makes the posting described by w, in account a.
func mkSplit(l *accounting.Ledger, cur []*accounting.Currency, a *accounting.Account, w wsplit) *accounting.Split {
	s := &accounting.Split{ID: id("s"), Account: a}
	if !w.elided {
		s.Value = accounting.Value{Amount: w.amt, Currency: cur[w.cur]}
	}
	if w.priced {
		l.SplitPrices[s] = accounting.Value{Amount: w.price, Currency: cur[w.pcur]}
	}
	if w.asserted {
		l.Assertions[s] = accounting.Value{Amount: w.assert, Currency: cur[w.acur]}
	}
	return s
}

func chooseSplit(nc int, elide, price bool) wsplit {
	var w wsplit
	n := nc
	if elide {
		n++
	}
	k := vx.Choose("kind", n)
	if k == nc {
		w.elided = true
		return w
	}
	w.cur = k
	w.amt = vx.Int64("amt", -maxAmt, maxAmt)
	if price {
		if p := vx.Choose("price", nc); p > 0 {
			w.priced = true
			w.pcur = (k + p) % nc
			w.price = vx.Int64("price", -maxAmt, maxAmt)
		}
	}
	return w
}

func curs(n int) []*accounting.Currency {
	c := make([]*accounting.Currency, n)
	for i := range c {
		c[i] = newCur(i)
	}
	return c
}

// checkBalanced asserts that the opened transaction t, written as w, is balanced as the property says.
func checkBalanced(l *accounting.Ledger, cur []*accounting.Currency, t *accounting.Transaction, w []wsplit) {
	var sums [3]int64
	for i := range w {
		s := t.Splits[i]
		v := s.Value
		if p, ok := l.SplitPrices[s]; ok {
			v = p
		}
		for c := range cur {
			if v.Currency == cur[c] {
				sums[c] += v.Amount
			}
		}
	}
	left := vx.Ite(sums[0] != 0, 1, 0) + vx.Ite(sums[1] != 0, 1, 0) + vx.Ite(sums[2] != 0, 1, 0)
	_, _, elided := leftover(w)
	if elided > 0 {
		vx.Assert(left == 0, "sums-to-zero")
	} else {
		vx.Assert(vx.Or(left == 0, left == 2), "sums-to-zero-or-exchange")
	}
}

func oneTransaction(n int, elide, prices bool) {
	cur := curs(3)
	var w []wsplit
	for i := 0; i < n; i++ {
		w = append(w, chooseSplit(3, elide, prices))
	}
	t := &accounting.Transaction{ID: id("t"), Time: day(1)}
	acc := &accounting.Account{Name: "A", ID: id("a")}
	def := n == 3 && !prices && vx.Choose("default", 2) == 1
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{acc}
		l.Currencies = cur
		if def {
			l.DefaultCurrency = cur[0]
		}
		for _, x := range w {
			t.Splits = append(t.Splits, mkSplit(l, cur, acc, x))
		}
		l.Transactions = []*accounting.Transaction{t}
	})
	vx.Observe("err", err != nil)
	vx.Assert(vx.Iff(err == nil, balanceable(w)), "accepts-exactly-balanced")
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	checkBalanced(l, cur, t, w)
}

// C01_amounts: one transaction of up to 4 postings (thorough: 5), each without amount or with any amount up to
// 2^59 units of one of 3 currencies; accepted exactly when it can be balanced, and then balanced.
func C01_amounts() {
	n := vx.Choose("n", 5+vx.Tier())
	oneTransaction(n, true, false)
}

// C01_prices: one transaction of up to 3 postings, each without amount or with any amount up to 2^59 units of one
// of 3 currencies and possibly any total price in another.
func C01_prices() {
	n := vx.Choose("n", 4)
	oneTransaction(n, true, true)
}

// C01_two: two transactions of 2 postings each (no amount, or any amount of one of 2 currencies) on any two of 3
// days; the ledger is accepted exactly when both can be balanced.
func C01_two() {
	cur := curs(2)
	var w [2][]wsplit
	var ts []*accounting.Transaction
	acc := &accounting.Account{Name: "A", ID: id("a")}
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{acc}
		l.Currencies = cur
		for i := range w {
			t := &accounting.Transaction{ID: id("t"), Time: day(vx.Int64("day", 0, 2))}
			for j := 0; j < 2; j++ {
				x := chooseSplit(2, true, false)
				w[i] = append(w[i], x)
				t.Splits = append(t.Splits, mkSplit(l, cur, acc, x))
			}
			ts = append(ts, t)
		}
		l.Transactions = []*accounting.Transaction{ts[0], ts[1]}
	})
	vx.Observe("err", err != nil)
	vx.Assert(vx.Iff(err == nil, vx.And(balanceable(w[0]), balanceable(w[1]))), "accepts-exactly-balanced")
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	checkBalanced(l, cur, ts[0], w[0])
	checkBalanced(l, cur, ts[1], w[1])
}

// C01_journal: a journal of one transaction of 2 or 3 postings (quick: the third without amount), each without amount, with an amount of one decimal in
// one of 2 currencies, with a price, total or of a unit, with only a price or with only the asserted balance: if it opens, what it holds is balanced.
func C01_journal() {
	vx.MapOrder(false)
	n := 2 + vx.Choose("n", 2)
	text := "commodity 1.0 EUR\ncommodity 1.0 USD\n2020-01-01 x\n"
	var w []wsplit
	plain, given := true, 0
	for i := 0; i < n; i++ {
		text += "  A" + string(rune('0'+i))
		k := 0
		if i < 2 || vx.Tier() > 0 {
			k = vx.Choose("kind", 7)
		} else {
			k = 5 * vx.Choose("last kind", 2)
		}
		switch k {
		case 0:
			w = append(w, wsplit{elided: true})
		case 1, 2:
			s, x := amount("amount", 1, 1)
			text += "  " + s + []string{" EUR", " USD"}[k-1]
			w = append(w, wsplit{cur: k - 1, amt: x})
			given++
		case 3, 4:
			s, x := amount("amount", 1, 1)
			p := digits("price", 1)
			y := number(p, nil).Int64()
			text += "   " + s + " EUR " + []string{"@@ ", "@ "}[k-3] + string(p) + " USD"
			if k == 4 {
				y = x/U*y + x%U*y/U
			}
			w = append(w, wsplit{cur: 0, amt: x, priced: true, pcur: 1, price: y})
			given++
		case 5:
			text += "   @@ " + string(digits("price", 1)) + " USD"
			plain = false
		case 6:
			s, _ := amount("assert", 1, 0)
			text += "   = " + s + " EUR"
			plain = false
			given++ // by the balance asserted
		}
		text += "\n"
	}
	l, err := journal(text)
	if plain {
		vx.Assert(vx.Iff(err == nil, balanceable(w)), "accepts-exactly-balanced")
	}
	if err != nil {
		vx.Cover("refused")
		return
	}
	vx.Cover("accepted")
	for _, t := range l.Transactions {
		m := map[*accounting.Currency]int64{}
		for _, s := range t.Splits {
			v := s.Value
			if p, ok := l.SplitPrices[s]; ok {
				v = p
			}
			m[v.Currency] += v.Amount
		}
		left := int64(0)
		for _, x := range m {
			left += vx.Ite(x != 0, 1, 0)
		}
		vx.Assert(vx.Or(left == 0, vx.And(left == 2, given == len(t.Splits))), "sums-to-zero")
	}
}
