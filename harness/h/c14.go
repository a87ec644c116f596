package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// richBook opens a ledger with everything a ledger can have: a child account, postings with assertions, total prices,
// own dates, a nameless currency, an exchange, explicit prices, comments on everything, a default currency (named or
// not). Amounts, days and the shape choices are symbolic.
func richBook(l0 *accounting.Ledger) func(l *accounting.Ledger) {
	cur := curs(2)
	cur[1].PrintBefore = true
	cur[1].Thousand = ","
	cur[1].ISIN = "ES0123"
	noname := &accounting.Currency{Decimal: ".", Precision: 1}
	acc := []*accounting.Account{{Name: "B", ID: id("b"), Code: "7"}, {Name: "A", ID: id("a")}, {Name: "C", ID: id("c")}}
	acc[0].Parent = acc[1]
	d := vx.Int64("day", 0, 2)
	own := vx.Choose("own", 2) == 1
	e := vx.Int64("ownday", 0, 2)
	x := vx.Int64("x", 1, maxAmt)
	y := vx.Int64("y", 1, 1<<36)
	exchange := vx.Choose("exchange", 2) == 1
	nameless := vx.Choose("nameless", 2) == 1
	def := vx.Choose("default", 3)
	com := vx.String("comment", 1, "ab")
	vx.MapOrder(false) // every order of iteration is explored by C14_order
	return func(l *accounting.Ledger) {
		l.Accounts = append([]*accounting.Account{}, acc...)
		l.Currencies = cur
		switch def {
		case 1:
			l.DefaultCurrency = cur[1]
		case 2:
			l.DefaultCurrency = noname
		}
		t := &accounting.Transaction{ID: id("t1"), Time: day(1), Description: "one"}
		c := cur[0]
		if nameless {
			c = noname
		}
		s1 := &accounting.Split{ID: id("s1"), Account: acc[0], Value: accounting.Value{Amount: x, Currency: c}}
		l.Assertions[s1] = accounting.Value{Amount: x, Currency: c}
		s2 := &accounting.Split{ID: id("s2"), Account: acc[1]}
		t.Splits = []*accounting.Split{s1, s2}
		u := &accounting.Transaction{ID: id("t2"), Time: day(d), Description: "two"}
		s3 := &accounting.Split{ID: id("s3"), Account: acc[2], Value: accounting.Value{Amount: y, Currency: cur[0]}}
		s4 := &accounting.Split{ID: id("s4"), Account: acc[1], Value: accounting.Value{Amount: -1 << 30, Currency: cur[1]}}
		if own {
			tm := day(e)
			s3.Time = &tm
		}
		if !exchange {
			l.SplitPrices[s3] = accounting.Value{Amount: 1 << 30, Currency: cur[1]}
		}
		u.Splits = []*accounting.Split{s3, s4}
		l.Transactions = []*accounting.Transaction{t, u}
		p := &accounting.Price{ID: id("p"), Time: day(0), Currency: cur[0], Value: accounting.Value{Amount: x, Currency: cur[1]}}
		l.Prices = []*accounting.Price{p}
		l.Comments[t] = []string{"ct", com}
		l.Comments[s1] = []string{com}
		l.Comments[s4] = []string{"c4"}
		l.Comments[p] = []string{"cp"}
		l.Comments[cur[1]] = []string{"cc"}
		l.Comments[acc[0]] = []string{"ca", com}
	}
}

// comments of accounts are not seen by sameLedger.
func sameAccountComments(a, b *accounting.Ledger) bool {
	ok := true
	for i := range a.Accounts {
		ok = vx.And(ok, sameStrs(a.Comments[a.Accounts[i]], b.Comments[b.Accounts[i]]))
	}
	return ok && len(a.Comments) == len(b.Comments)
}

// checkClone asserts that c equals l and shares nothing with it.
func checkClone(l, c *accounting.Ledger) {
	vx.Assert(sameLedger(l, c, true) == "" && sameAccountComments(l, c), "clone-equal")
	curOf := map[*accounting.Currency]*accounting.Currency{}
	samec := func(x, y *accounting.Currency) {
		if x == nil || y == nil {
			vx.Assert(x == y, "currency-mirrored")
			return
		}
		vx.Assert(x != y, "currency-not-shared")
		if o, ok := curOf[x]; ok {
			vx.Assert(o == y, "currency-mirrored")
		}
		curOf[x] = y
	}
	for i := range l.Currencies {
		samec(l.Currencies[i], c.Currencies[i])
	}
	samec(l.DefaultCurrency, c.DefaultCurrency)
	for i := range l.Accounts {
		vx.Assert(l.Accounts[i] != c.Accounts[i], "account-not-shared")
		vx.Assert(l.Accounts[i].ID == c.Accounts[i].ID, "identifier")
		for j := range l.Accounts[i].StartBalance {
			samec(l.Accounts[i].StartBalance[j].Currency, c.Accounts[i].StartBalance[j].Currency)
		}
	}
	for i, t := range l.Transactions {
		u := c.Transactions[i]
		vx.Assert(t != u && t.ID == u.ID, "transaction-not-shared")
		for j, s := range t.Splits {
			r := u.Splits[j]
			vx.Assert(s != r && s.Time != r.Time && s.ID == r.ID, "posting-not-shared")
			samec(s.Value.Currency, r.Value.Currency)
			for k := range s.Balance {
				samec(s.Balance[k].Currency, r.Balance[k].Currency)
			}
			if v, ok := l.Assertions[s]; ok {
				samec(v.Currency, c.Assertions[r].Currency)
			}
			if v, ok := l.SplitPrices[s]; ok {
				samec(v.Currency, c.SplitPrices[r].Currency)
			}
		}
	}
	for i, p := range l.Prices {
		vx.Assert(p != c.Prices[i] && p.ID == c.Prices[i].ID, "price-not-shared")
		samec(p.Currency, c.Prices[i].Currency)
		samec(p.Value.Currency, c.Prices[i].Value.Currency)
	}
}

// C14_clone: the clone of the rich ledger equals it, has the same relations and shares nothing.
func C14_clone() {
	l, err := open(richBook(nil))
	vx.Assert(err == nil, "opens")
	switch vx.Choose("start", 3) {
	case 1:
		l.Accounts[1].StartBalance = l.Accounts[1].Splits[0].Balance
	case 2: // as with -b: nothing left after the start
		for _, a := range l.Accounts {
			if len(a.Splits) > 0 {
				a.StartBalance = a.Splits[len(a.Splits)-1].Balance
			}
			a.Splits = nil
		}
	}
	checkClone(l, l.Clone())
	vx.Cover("cloned")
}

// scribble changes one part of everything l holds.
func scribble(l *accounting.Ledger, what int) {
	switch what {
	case 0:
		for _, a := range l.Accounts {
			a.Name += "!"
			a.Code = "9"
			a.Level = 77
			a.Parent = nil
			for i := range a.Children {
				a.Children[i] = nil
			}
			for i := range a.Splits {
				a.Splits[i] = nil
			}
			for i := range a.StartBalance {
				a.StartBalance[i].Amount += 5
			}
		}
	case 1:
		for _, t := range l.Transactions {
			t.Description += "!"
			t.Time = t.Time.Add(time.Hour)
			for i := range t.Splits {
				s := t.Splits[i]
				s.Value.Amount += 7
				for j := range s.Balance {
					s.Balance[j].Amount += 3
				}
				*s.Time = s.Time.Add(time.Hour)
				s.Account = nil
				s.Transaction = nil
			}
		}
	case 2:
		for _, p := range l.Prices {
			p.Time = p.Time.Add(time.Hour)
			p.Value.Amount++
			p.Currency = nil
		}
		for i := range l.Prices {
			l.Prices[i] = nil
		}
	case 3:
		for i, c := range l.Currencies {
			c.Name += "!"
			c.Precision = 7
			c.Thousand = "_"
			l.Currencies[i] = nil
		}
		if l.DefaultCurrency != nil {
			l.DefaultCurrency.Decimal = "?"
		}
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				s.Value.Currency.Precision = 8
				for _, v := range s.Balance {
					v.Currency.Decimal = "x"
				}
			}
		}
	case 4:
		for k, v := range l.Comments {
			for i := range v {
				v[i] += "!"
			}
			l.Comments[k] = append(v, "more")
		}
		for s := range l.Assertions {
			l.Assertions[s] = accounting.Value{Amount: 1}
		}
		for s := range l.SplitPrices {
			delete(l.SplitPrices, s)
		}
	case 5:
		for i := range l.Accounts {
			l.Accounts[i] = nil
		}
		for i := range l.Transactions {
			for j := range l.Transactions[i].Splits {
				l.Transactions[i].Splits[j] = nil
			}
			l.Transactions[i] = nil
		}
	}
}

// C14_independent: of two clones of the rich ledger, one is as it was after any part of the other, or of the original,
// is changed, and the original is as it was after any part of a clone is changed.
func C14_independent() {
	l, err := open(richBook(nil))
	vx.Assert(err == nil, "opens")
	switch vx.Choose("start", 3) {
	case 1:
		l.Accounts[1].StartBalance = l.Accounts[1].Splits[0].Balance
	case 2: // as with -b: nothing left after the start
		for _, a := range l.Accounts {
			if len(a.Splits) > 0 {
				a.StartBalance = a.Splits[len(a.Splits)-1].Balance
			}
			a.Splits = nil
		}
	}
	a, b := l.Clone(), l.Clone()
	if vx.Choose("change", 2) == 0 {
		scribble(a, vx.Choose("what", 6))
	} else {
		scribble(l, vx.Choose("what", 6))
		l = a
	}
	vx.Assert(sameLedger(l, b, true) == "" && sameAccountComments(l, b), "independent")
	vx.Cover("changed")
}

// C14_fill: filling a clone again gives the same ledger, and leaves the original as it was.
func C14_fill() {
	l, err := open(richBook(nil))
	vx.Assert(err == nil, "opens")
	a, b := l.Clone(), l.Clone()
	vx.Assert(a.Fill() == nil, "fills")
	vx.Assert(sameLedger(a, b, true) == "", "same-after-filling")
	vx.Assert(sameLedger(l, b, true) == "" && sameAccountComments(l, b), "original-unchanged")
	vx.Cover("filled")
}

// C14_order: a ledger with two comments, assertions and total prices, the maps of the ledger iterated in every order:
// the clone equals it and shares nothing.
func C14_order() {
	cur := curs(2)
	x := vx.Int64("x", 1, maxAmt)
	l, err := open(func(l *accounting.Ledger) {
		acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
		l.Accounts = append([]*accounting.Account{}, acc...)
		l.Currencies = cur
		t := &accounting.Transaction{ID: id("t1"), Time: day(1)}
		for i := 0; i < 2; i++ {
			w := wsplit{cur: 0, amt: x, priced: true, pcur: 1, price: x, asserted: true, assert: x}
			if i == 1 {
				w.amt, w.price, w.assert = -x, -x, -x
			}
			s := mkSplit(l, cur, acc[i], w)
			l.Comments[s] = []string{"c", acc[i].Name}
			t.Splits = append(t.Splits, s)
		}
		l.Transactions = []*accounting.Transaction{t}
	})
	vx.Assert(err == nil, "opens")
	for _, p := range l.Prices {
		delete(l.Comments, p)
	}
	checkClone(l, l.Clone())
	vx.Cover("cloned")
}
