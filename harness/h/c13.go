package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

func checkList(got []*accounting.Transaction, l *accounting.Ledger, want func(i int, t *accounting.Transaction) bool, label string) {
	k := 0
	for i, t := range l.Transactions {
		if want(i, t) {
			vx.Assert(k < len(got) && got[k] == t, label)
			k++
		}
	}
	vx.Assert(k == len(got), label)
}

// C13_interval: 3 transactions (thorough: 4) at any seconds of a minute in any order; the transactions between any
// two seconds, the second before the first included.
func C13_interval() {
	b := mkBook(3+vx.Tier(), 2, 1, 59, false, true)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	snap := l.Clone()
	from, to := vx.Int64("from", -5, 65), vx.Int64("to", -5, 65)
	got := l.TransactionsInInterval(at(from), at(to))
	sec := map[*accounting.Transaction]int64{}
	for i, t := range b.ts {
		sec[t] = b.tsec[i]
	}
	checkList(got, l, func(i int, t *accounting.Transaction) bool { return vx.And(from <= sec[t], sec[t] <= to) }, "exactly-those-in-interval")
	vx.Cover("queried")
	vx.Assert(sameLedger(l, snap, true) == "", "unchanged")
}

// C13_fine: 2 transactions at any nanoseconds of two seconds, and those between any two such moments.
func C13_fine() {
	b := mkBook(2, 2, 1, 2000000000, false, true, fine)
	l, err := open(b.fill)
	vx.Assert(err == nil, "opens")
	from, to := vx.Int64("from", 0, 2000000001), vx.Int64("to", 0, 2000000001)
	sec := map[*accounting.Transaction]int64{}
	for i, t := range b.ts {
		sec[t] = b.tsec[i]
	}
	checkList(l.TransactionsInInterval(fine(from), fine(to)), l, func(i int, t *accounting.Transaction) bool { return vx.And(from <= sec[t], sec[t] <= to) }, "exactly-those-in-interval")
	vx.Cover("queried")
}

// C13_account: 2 transactions of two postings over 3 accounts (one parent of another) in every way, at any times:
// the transactions of each account, and of an identifier nobody has; looking accounts up.
func C13_account() {
	cur := curs(1)
	acc := []*accounting.Account{{Name: "A", ID: id("a1")}, {Name: "B", ID: id("b2")}, {Name: "C", ID: id("c3")}}
	acc[1].Parent = acc[0]
	var in [2][3]bool
	var ts []*accounting.Transaction
	l, err := open(func(l *accounting.Ledger) {
		l.Accounts = append([]*accounting.Account{}, acc...)
		l.Currencies = cur
		for i := 0; i < 2; i++ {
			t := &accounting.Transaction{ID: id("t"), Time: at(vx.Int64("time", 0, 59))}
			x := vx.Int64("amt", -maxAmt, maxAmt)
			for j := 0; j < 2; j++ {
				k := vx.Choose("acc", 3)
				in[i][k] = true
				t.Splits = append(t.Splits, mkSplit(l, cur, acc[k], wsplit{amt: x}))
				x = -x
			}
			ts = append(ts, t)
		}
		l.Transactions = append([]*accounting.Transaction{}, ts...)
	})
	vx.Assert(err == nil, "opens")
	snap := l.Clone()
	for k, a := range acc {
		got := l.TransactionsInAccount(a.ID)
		checkList(got, l, func(i int, t *accounting.Transaction) bool {
			if t == ts[0] {
				return in[0][k]
			}
			return in[1][k]
		}, "exactly-those-of-account")
		vx.Assert(l.Account(a.ID) == a, "account-by-id")
	}
	vx.Assert(len(l.TransactionsInAccount(id("zz"))) == 0, "none-of-unknown-account")
	vx.Assert(l.Account(id("zz")) == nil, "no-account-with-unknown-id")
	vx.Cover("queried")
	vx.Assert(sameLedger(l, snap, true) == "", "unchanged")
}

// C13_ids: identifiers of up to 2 letters; an account is found by exactly its own, the first one when repeated.
func C13_ids() {
	var acc []*accounting.Account
	var ids []string
	for i := 0; i < 3; i++ {
		s := vx.String("id", 1+vx.Choose("len", 2), "ab")
		ids = append(ids, s)
		acc = append(acc, &accounting.Account{Name: "A", ID: id(s)})
	}
	l, err := open(func(l *accounting.Ledger) { l.Accounts = append([]*accounting.Account{}, acc...) })
	vx.Assert(err == nil, "opens")
	q := vx.String("query", 1+vx.Choose("qlen", 2), "ab")
	got := l.Account(id(q))
	for i := range acc {
		if ids[i] == q {
			vx.Assert(got == acc[i], "account-by-id")
			vx.Cover("found")
			return
		}
	}
	vx.Cover("not found")
	vx.Assert(got == nil, "no-account-with-unknown-id")
}
