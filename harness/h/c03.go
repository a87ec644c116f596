package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// posting is one posting of a many-transaction book, as written.
type posting struct {
	tx  int
	acc int
	cur int
	amt int64
	sec int64 // its time
	own bool
	s   *accounting.Split
}

// book is a ledger of balanced transactions of two postings each: amt in one account and -amt in another.
type book struct {
	cur  []*accounting.Currency
	acc  []*accounting.Account
	ts   []*accounting.Transaction
	tsec []int64
	ps   []*posting
	at   func(int64) time.Time
}

// mkBook prepares nt transactions over na accounts and nc currencies. Times are symbolic seconds in [0, span], or
// units of another clock;
// with own, postings may have their own, and then the transactions are given in chronological order.
//
// With few, the second posting of each transaction is in the account after the first's, and only the first posting
// can have its own time. Otherwise, in the quick tier only one posting of the book can.
func mkBook(nt, na, nc int, span int64, own, few bool, clock ...func(int64) time.Time) *book {
	b := &book{cur: curs(nc), at: at}
	if len(clock) > 0 {
		b.at = clock[0]
	}
	for i := 0; i < na; i++ {
		b.acc = append(b.acc, &accounting.Account{Name: string([]byte{byte('A' + i)}), ID: id("acc")})
	}
	which := -1 // the only posting that can have its own time
	if own && !few && vx.Tier() == 0 {
		which = vx.Choose("which", 2*nt)
	}
	for i := 0; i < nt; i++ {
		sec := vx.Int64("time", 0, span)
		if own && i > 0 {
			vx.Assume(b.tsec[i-1] <= sec)
		}
		t := &accounting.Transaction{ID: id("t"), Time: b.at(sec)}
		b.ts = append(b.ts, t)
		b.tsec = append(b.tsec, sec)
		c := vx.Choose("cur", nc)
		amt := vx.Int64("amt", -maxAmt, maxAmt)
		for j := 0; j < 2; j++ {
			p := &posting{tx: i, cur: c, amt: amt, sec: sec}
			if j == 1 {
				p.amt = -amt
			}
			if few && j == 1 {
				p.acc = (b.ps[len(b.ps)-1].acc + 1) % na
			} else {
				p.acc = vx.Choose("acc", na)
			}
			p.s = &accounting.Split{ID: id("s"), Account: b.acc[p.acc], Value: accounting.Value{Amount: p.amt, Currency: b.cur[c]}}
			if own && !(few && j == 1) && (which < 0 || which == 2*i+j) && vx.Choose("own", 2) == 1 {
				p.own = true
				p.sec = vx.Int64("owntime", 0, span)
				tm := b.at(p.sec)
				p.s.Time = &tm
			}
			t.Splits = append(t.Splits, p.s)
			b.ps = append(b.ps, p)
		}
	}
	return b
}

func (b *book) fill(l *accounting.Ledger) {
	l.Currencies = b.cur
	l.Accounts = append([]*accounting.Account{}, b.acc...)
	l.Transactions = append([]*accounting.Transaction{}, b.ts...)
}

// before says whether posting q comes before posting p or is p, in chronological order and input order on ties.
func (b *book) upTo(i, j int) bool {
	p, q := b.ps[i], b.ps[j]
	if j <= i {
		return q.sec <= p.sec
	}
	return q.sec < p.sec
}

// checkRunning asserts that every posting's balance is the exact sum.
func (b *book) checkRunning(label string) {
	ok := true
	for i, p := range b.ps {
		ok = vx.And(ok, canonical(p.s.Balance))
		for c := range b.cur {
			var want int64
			for j, q := range b.ps {
				if q.acc == p.acc && q.cur == c {
					want += vx.Ite(b.upTo(i, j), q.amt, 0)
				}
			}
			ok = vx.And(ok, amountIn(p.s.Balance, b.cur[c]) == want)
		}
	}
	vx.Assert(ok, label)
}

// C03_sums: 3 transactions of two postings on 2 accounts in 2 currencies, amounts up to 2^59, at any seconds of a
// minute in any order: the balance at each posting is the exact sum. Quick: the two postings are in different accounts.
func C03_sums() {
	b := mkBook(3, 2, 2, 59, false, vx.Tier() == 0)
	_, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkRunning("running-balance")
}

// C03_own: 2 transactions of two postings in one currency, each posting (quick: the first of each transaction)
// possibly with its own time.
func C03_own() {
	b := mkBook(2, 2, 1, 59, true, vx.Tier() == 0)
	_, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkRunning("running-balance")
}

// C03_same: 2 transactions of two postings in 2 currencies, on 2 accounts in every way, at any times.
func C03_same() {
	b := mkBook(2, 2, 2, 59, false, false)
	_, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkRunning("running-balance")
}

// C03_alias: 3 postings on one account in 3 currencies; changing the balance of one posting through every way the
// package offers does not change the balance of another.
func C03_alias() {
	cur := curs(3)
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	var ss []*accounting.Split
	n := 3 + vx.Tier()
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = acc
		l.Currencies = cur
		for i := 0; i < n; i++ {
			t := &accounting.Transaction{ID: id("t"), Time: day(int64(i))}
			w := wsplit{cur: vx.Choose("cur", 3), amt: vx.Int64("amt", -maxAmt, maxAmt)}
			s := mkSplit(l, cur, acc[0], w)
			ss = append(ss, s)
			t.Splits = []*accounting.Split{s, mkSplit(l, cur, acc[1], wsplit{elided: true})}
			l.Transactions = append(l.Transactions, t)
		}
	})
	vx.Assert(err == nil, "opens")
	k := vx.Choose("changed", n)
	var saved []accounting.Balance
	for _, s := range ss {
		saved = append(saved, append(accounting.Balance{}, s.Balance...))
	}
	switch vx.Choose("how", 3) {
	case 0:
		ss[k].Balance.Add(accounting.Value{Amount: 1, Currency: cur[vx.Choose("addcur", 3)]})
	case 1:
		for i := range ss[k].Balance {
			ss[k].Balance[i].Amount++
		}
	case 2:
		full := ss[k].Balance[:cap(ss[k].Balance)]
		for i := range full {
			full[i] = accounting.Value{Amount: 77, Currency: cur[0]}
		}
	}
	vx.Cover("changed")
	for i, s := range ss {
		if i != k {
			vx.Assert(sameBalList(s.Balance, saved[i]), "other-balance-unchanged")
		}
	}
}

// C03_inferred: 3 (4) postings in one account and any of 2 currencies, at any seconds of a minute in chronological order,
// each with an amount, or without one and with an asserted balance, or without either.
func C03_inferred() {
	b := &book{cur: curs(2)}
	a, o := &accounting.Account{Name: "A", ID: id("a")}, &accounting.Account{Name: "B", ID: id("b")}
	var ss, os []*accounting.Split
	n := 3 + vx.Tier()
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{a, o}
		l.Currencies = b.cur
		last := int64(0)
		for i := 0; i < n; i++ {
			sec := vx.Int64("time", 0, 59)
			vx.Assume(last <= sec)
			last = sec
			t := &accounting.Transaction{ID: id("t"), Time: at(sec)}
			w := wsplit{cur: vx.Choose("cur", 2), amt: vx.Int64("amt", -maxAmt, maxAmt)}
			other := wsplit{elided: true}
			switch vx.Choose("kind", 3) {
			case 1:
				vx.Assume(w.amt != 0)
				w.asserted, w.acur, w.assert = true, w.cur, w.amt
				w.elided = true
			case 2:
				w, other = other, w
			}
			s := mkSplit(l, b.cur, a, w)
			ss = append(ss, s)
			t.Splits = []*accounting.Split{s, mkSplit(l, b.cur, o, other)}
			os = append(os, t.Splits[1])
			l.Transactions = append(l.Transactions, t)
		}
	})
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	for _, list := range [][]*accounting.Split{ss, os} {
		var want [2]int64
		for _, s := range list {
			vx.Assert(canonical(s.Balance), "canonical")
			for c := range b.cur {
				if s.Value.Currency == b.cur[c] {
					want[c] += s.Value.Amount
				}
				vx.Assert(amountIn(s.Balance, b.cur[c]) == want[c], "running-balance")
			}
		}
	}
}

// C03_many: an account which holds 5 currencies, and then gets two (three) postings of any amounts of any of them.
func C03_many() {
	b := &book{cur: curs(5)}
	a, o := &accounting.Account{Name: "A", ID: id("a")}, &accounting.Account{Name: "B", ID: id("b")}
	var list [2][]*accounting.Split
	_, err := open(func(l *accounting.Ledger) {
		l.Accounts = []*accounting.Account{a, o}
		l.Currencies = b.cur
		for i := 0; i < len(b.cur)+2+vx.Tier(); i++ {
			w := wsplit{cur: i, amt: int64(100 + i)}
			if i >= len(b.cur) {
				w = wsplit{cur: vx.Choose("cur", len(b.cur)), amt: vx.Int64("amt", -maxAmt, maxAmt)}
			}
			t := &accounting.Transaction{ID: id("t"), Time: day(int64(i))}
			t.Splits = []*accounting.Split{mkSplit(l, b.cur, a, w), mkSplit(l, b.cur, o, wsplit{cur: w.cur, amt: -w.amt})}
			for k, s := range t.Splits {
				list[k] = append(list[k], s)
			}
			l.Transactions = append(l.Transactions, t)
		}
	})
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	for _, ss := range list {
		want := make([]int64, len(b.cur))
		for _, s := range ss {
			for c := range b.cur {
				if s.Value.Currency == b.cur[c] {
					want[c] += s.Value.Amount
				}
			}
			checkBal(s.Balance, b.cur, want, "running-balance")
		}
	}
}
