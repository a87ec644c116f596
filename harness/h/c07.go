package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

func transferBook(nt, np, nc int, day func(int64) time.Time) {
	cur := curs(nc)
	acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
	var ts []*accounting.Transaction
	var written [][]*accounting.Split
	var tday []int64
	var sday [][]int64
	owned := false
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = append([]*accounting.Account{}, acc...)
		l.Currencies = cur
		for i := 0; i < nt; i++ {
			d := vx.Int64("day", 0, 3)
			if i > 0 {
				vx.Assume(tday[i-1] <= d)
			}
			t := &accounting.Transaction{ID: id("t"), Time: day(d)}
			var sd []int64
			for j := 0; j < np; j++ {
				w := wsplit{elided: j == np-1 && nc == 1}
				if !w.elided {
					w = chooseSplit(nc, false, false)
				}
				s := mkSplit(l, cur, acc[j%2], w)
				x := d
				if vx.Choose("own", 2) == 1 {
					x = vx.Int64("ownday", 0, 3)
					tm := day(x)
					s.Time = &tm
					owned = true
				}
				sd = append(sd, x)
				t.Splits = append(t.Splits, s)
			}
			ts = append(ts, t)
			tday = append(tday, d)
			sday = append(sday, sd)
			written = append(written, append([]*accounting.Split{}, t.Splits...))
		}
		l.Transactions = append([]*accounting.Transaction{}, ts...)
	})
	if err != nil {
		return
	}
	vx.Cover("accepted")
	var tacc *accounting.Account
	for _, a := range l.Accounts {
		if a != acc[0] && a != acc[1] && len(a.Splits) > 0 {
			vx.Assert(tacc == nil, "one-transfer-account")
			tacc = a
		}
	}
	ntr := 0
	ok := true
	for i, t := range ts {
		for j, s := range written[i] {
			vx.Assert(t.Splits[j] == s, "written-postings-first")
		}
		for _, s := range t.Splits[np:] {
			vx.Assert(s.Account == tacc && s.Transaction == t && s.Time != nil, "only-transfers-added")
			ntr++
		}
		// on every day, what is dated then sums to zero, and to the whole on the transaction's own
		for c := range cur {
			var whole int64
			for _, s := range written[i] {
				if s.Value.Currency == cur[c] {
					whole += s.Value.Amount
				}
			}
			for d := int64(0); d <= 3; d++ {
				var sum int64
				for j, s := range t.Splits {
					if s.Value.Currency != cur[c] {
						continue
					}
					if j < np {
						sum += vx.Ite(sday[i][j] == d, s.Value.Amount, 0)
					} else {
						sum += vx.Ite(s.Time.Equal(day(d)), s.Value.Amount, 0)
					}
				}
				ok = vx.And(ok, sum == vx.Ite(tday[i] == d, whole, 0))
			}
		}
	}
	vx.Assert(ok, "balanced-on-every-date")
	if !owned {
		vx.Assert(ntr == 0, "no-transfers-needed")
	}
	if tacc == nil {
		vx.Assert(ntr == 0, "transfers-in-account")
		return
	}
	vx.Cover("transfers")
	vx.Assert(len(tacc.Splits) == ntr, "transfers-in-account")
	ok = true
	for k, s := range tacc.Splits {
		if k > 0 {
			ok = vx.And(ok, vx.Not(tacc.Splits[k-1].Time.After(*s.Time)))
		}
		in := 0
		for _, t := range ts {
			for _, x := range t.Splits[np:] {
				if x == s {
					in++
				}
			}
		}
		vx.Assert(in == 1, "transfer-once")
		ok = vx.And(ok, canonical(s.Balance))
		for c := range cur {
			var want int64
			for _, x := range tacc.Splits[:k+1] {
				if x.Value.Currency == cur[c] {
					want += x.Value.Amount
				}
			}
			ok = vx.And(ok, amountIn(s.Balance, cur[c]) == want)
		}
		if k == len(tacc.Splits)-1 {
			vx.Assert(len(s.Balance) == 0, "transfer-account-ends-at-zero")
		}
	}
	vx.Assert(ok, "transfer-running-balance")
}

// C07_one: one transaction of 2 or 3 postings in 2 currencies with any amounts up to 2^59, each posting possibly
// dated on any of 4 days.
func C07_one() { transferBook(1, 2+vx.Choose("n", 2), 2, day) }

// C07_two: 2 transactions of 2 postings (thorough: 3) in one currency, the last without amount.
func C07_two() { transferBook(2, 2+vx.Tier(), 1, day) }

// C07_sameday: one transaction of 2 postings in 2 currencies, on any of 4 moments one second or one nanosecond apart.
func C07_sameday() {
	unit := at
	if vx.Choose("unit", 2) == 1 {
		unit = fine
	}
	transferBook(1, 2, 2, unit)
}
