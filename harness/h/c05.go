package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// checkOrder asserts chronological stable order and that everything is listed once.
func (b *book) checkOrder(l *accounting.Ledger) {
	vx.Assert(len(l.Transactions) == len(b.ts), "transactions-kept")
	pos := map[*accounting.Transaction]int{}
	for i, t := range b.ts {
		pos[t] = i
	}
	seen := map[*accounting.Transaction]bool{}
	ok := true
	for i, t := range l.Transactions {
		k, is := pos[t]
		vx.Assert(is && !seen[t], "transaction-once")
		seen[t] = true
		if i > 0 {
			u := l.Transactions[i-1]
			if pos[u] < k {
				ok = vx.And(ok, vx.Not(u.Time.After(t.Time)))
			} else {
				ok = vx.And(ok, u.Time.Before(t.Time))
			}
		}
		ok = vx.And(ok, t.Time.Equal(b.at(b.tsec[k])))
	}
	vx.Assert(ok, "transactions-sorted-stably")
	spos := map[*accounting.Split]int{}
	for i, p := range b.ps {
		spos[p.s] = i
	}
	ok = true
	n := 0
	for ai, a := range b.acc {
		for i, s := range a.Splits {
			k, is := spos[s]
			vx.Assert(is, "account-has-only-its-postings")
			p := b.ps[k]
			vx.Assert(p.acc == ai && s.Account == a && s.Transaction == b.ts[p.tx], "posting-refers-back")
			n++
			if i > 0 {
				j := spos[a.Splits[i-1]]
				q := b.ps[j]
				vx.Assert(j != k, "posting-once")
				if j < k {
					ok = vx.And(ok, q.sec <= p.sec)
				} else {
					ok = vx.And(ok, q.sec < p.sec)
				}
			}
			ok = vx.And(ok, s.Time.Equal(b.at(p.sec)))
		}
	}
	vx.Assert(n == len(b.ps), "every-posting-in-its-account")
	vx.Assert(ok, "postings-sorted-stably")
	for _, p := range b.ps {
		m := 0
		for _, s := range b.ts[p.tx].Splits {
			if s == p.s {
				m++
			}
		}
		vx.Assert(m == 1, "posting-once-in-its-transaction")
		vx.Assert((p.s.Time == &b.ts[p.tx].Time) == !p.own, "date-of-transaction")
	}
}

// C05_times: 3 transactions (thorough: 4) at any seconds of a minute in any order, two postings each on different
// ones of 2 accounts.
func C05_times() {
	b := mkBook(3+vx.Tier(), 2, 1, 59, false, true)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkOrder(l)
}

// C05_own: 2 transactions (thorough: 3) in chronological order whose first postings can have their own times.
func C05_own() {
	b := mkBook(2+vx.Tier(), 2, 1, 59, true, true)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkOrder(l)
}

// C05_same: 2 transactions of two postings on 2 accounts in every way (both postings of one in the same account
// included), one of them (thorough: each) possibly with its own time.
func C05_same() {
	b := mkBook(2, 2, 1, 3, true, false)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkOrder(l)
}

// C05_prices: 3 market prices (thorough: 4) at any times in any order come out in chronological order, ties in input
// order, none lost or changed.
func C05_prices() {
	cur := curs(2)
	n := 3 + vx.Tier()
	var ps []*accounting.Price
	var sec, amt []int64
	for i := 0; i < n; i++ {
		s := vx.Int64("time", 0, 59)
		a := vx.Int64("amt", -maxAmt, maxAmt)
		sec = append(sec, s)
		amt = append(amt, a)
		ps = append(ps, &accounting.Price{ID: id("p"), Time: at(s), Currency: cur[0], Value: accounting.Value{Amount: a, Currency: cur[1]}})
	}
	l, err := open(func(l *accounting.Ledger) {
		l.Currencies = cur
		l.Prices = append([]*accounting.Price{}, ps...)
	})
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Prices) == n, "prices-kept")
	vx.Cover("opened")
	pos := map[*accounting.Price]int{}
	for i, p := range ps {
		pos[p] = i
	}
	ok := true
	for i, p := range l.Prices {
		k, is := pos[p]
		vx.Assert(is, "price-kept")
		ok = vx.And(ok, p.Value.Amount == amt[k], p.Time.Equal(at(sec[k])))
		if i > 0 {
			j := pos[l.Prices[i-1]]
			vx.Assert(j != k, "price-once")
			if j < k {
				ok = vx.And(ok, sec[j] <= sec[k])
			} else {
				ok = vx.And(ok, sec[j] < sec[k])
			}
		}
	}
	vx.Assert(ok, "prices-sorted-stably")
}

// C05_fine: the same with 2 transactions at any nanoseconds of two seconds.
func C05_fine() {
	b := mkBook(2, 2, 1, 2000000000, vx.Choose("own dates", 2) == 1, true, fine)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkOrder(l)
}

// C05_many: 24 transactions in one account, at two given dates, but four of them (thorough: six) at either, whatever
// the positions of those among the others, with postings dated with their transactions or apart; and 24 prices the same.
func C05_many() {
	const n = 24
	b := &book{cur: curs(1), at: at}
	b.acc = []*accounting.Account{{Name: "A", ID: id("acc")}, {Name: "B", ID: id("acc")}}
	own := vx.Choose("own", 2) == 1
	pattern := vx.Choose("pattern", 3)
	free := 4 + 2*vx.Tier()
	shift := vx.Choose("shift", 3)
	var prices []*accounting.Price
	var psec []int64
	for i := 0; i < n; i++ {
		sec := int64([]int{i / 12, i % 2, 1 - i/12}[pattern])
		if i%5 == shift && i/5 < free {
			sec = vx.Int64("time", 0, 1)
		}
		t := &accounting.Transaction{ID: id("t")}
		if own {
			t.Time = at(-5)
			b.tsec = append(b.tsec, -5)
		} else {
			t.Time = at(sec)
			b.tsec = append(b.tsec, sec)
		}
		b.ts = append(b.ts, t)
		for j := 0; j < 2; j++ {
			p := &posting{tx: i, acc: j, amt: int64(1+i) * int64(1-2*j), sec: sec, own: own}
			p.s = &accounting.Split{ID: id("s"), Account: b.acc[j], Value: accounting.Value{Amount: p.amt, Currency: b.cur[0]}}
			if own {
				tm := at(sec)
				p.s.Time = &tm
			}
			t.Splits = append(t.Splits, p.s)
			b.ps = append(b.ps, p)
		}
		prices = append(prices, &accounting.Price{ID: id("p"), Time: at(sec), Currency: b.cur[0], Value: accounting.Value{Amount: int64(i), Currency: b.cur[0]}})
		psec = append(psec, sec)
	}
	l, err := open(func(l *accounting.Ledger) {
		b.fill(l)
		l.Prices = append([]*accounting.Price{}, prices...)
	})
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	b.checkOrder(l)
	ok := len(l.Prices) == n
	for i := 1; i < n && ok; i++ {
		j, k := l.Prices[i-1].Value.Amount, l.Prices[i].Value.Amount
		ok = vx.And(ok, j != k, psec[j] < psec[k] || psec[j] == psec[k] && j < k)
	}
	vx.Assert(ok, "prices-sorted-stably")
}
