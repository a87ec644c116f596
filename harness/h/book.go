package h

import (
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// curIndex is the position of c in list, -1 for nil or unknown currencies.
func curIndex(list []*accounting.Currency, c *accounting.Currency) int {
	for i, x := range list {
		if x == c {
			return i
		}
	}
	return -1
}

// sameCur compares two currencies by what can be seen of them.
func sameCur(a, b *accounting.Currency) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return vx.And(a.Name == b.Name, a.PrintBefore == b.PrintBefore, a.WithoutSpace == b.WithoutSpace, a.Thousand == b.Thousand,
		a.Decimal == b.Decimal, a.Precision == b.Precision, a.ISIN == b.ISIN)
}

func sameVal(a, b accounting.Value) bool {
	return vx.And(a.Amount == b.Amount, sameCur(a.Currency, b.Currency))
}

// sameBalList compares two balances entry by entry.
func sameBalList(a, b accounting.Balance) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vx.And(ok, sameVal(a[i], b[i]))
	}
	return ok
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vx.And(ok, a[i] == b[i])
	}
	return ok
}

func sameTime(a, b time.Time) bool { return a.Equal(b) }

func accIndex(l *accounting.Ledger, a *accounting.Account) int {
	for i, x := range l.Accounts {
		if x == a {
			return i
		}
	}
	return -1
}

func txIndex(l *accounting.Ledger, t *accounting.Transaction) int {
	for i, x := range l.Transactions {
		if x == t {
			return i
		}
	}
	return -1
}

// splitPos is the position of s among all postings of the transactions.
func splitPos(l *accounting.Ledger, s *accounting.Split) int {
	n := 0
	for _, t := range l.Transactions {
		for _, x := range t.Splits {
			if x == s {
				return n
			}
			n++
		}
	}
	return -1
}

// sameLedger compares two ledgers in everything that can be seen of them, including the relations within each.
// It returns the first part that differs, or "".
func sameLedger(a, b *accounting.Ledger, comments bool) string {
	if len(a.Accounts) != len(b.Accounts) {
		return "number of accounts"
	}
	ok := true
	for i, x := range a.Accounts {
		y := b.Accounts[i]
		ok = vx.And(ok, x.Name == y.Name, x.Code == y.Code, x.Level == y.Level)
		if accIndex(a, x.Parent) != accIndex(b, y.Parent) || (x.Parent == nil) != (y.Parent == nil) {
			return "parent"
		}
		if len(x.Children) != len(y.Children) {
			return "children"
		}
		for j := range x.Children {
			if accIndex(a, x.Children[j]) != accIndex(b, y.Children[j]) {
				return "children"
			}
		}
		if len(x.Splits) != len(y.Splits) {
			return "postings of account"
		}
		for j := range x.Splits {
			if splitPos(a, x.Splits[j]) != splitPos(b, y.Splits[j]) {
				return "postings of account"
			}
		}
		ok = vx.And(ok, sameBalList(x.StartBalance, y.StartBalance))
	}
	if !ok {
		return "account"
	}
	if len(a.Transactions) != len(b.Transactions) {
		return "number of transactions"
	}
	for i, x := range a.Transactions {
		y := b.Transactions[i]
		ok = vx.And(ok, sameTime(x.Time, y.Time), x.Description == y.Description)
		if len(x.Splits) != len(y.Splits) {
			return "number of postings"
		}
		for j, s := range x.Splits {
			r := y.Splits[j]
			if accIndex(a, s.Account) != accIndex(b, r.Account) {
				return "account of posting"
			}
			if s.Transaction != x || r.Transaction != y {
				return "transaction of posting"
			}
			if (s.Time == &x.Time) != (r.Time == &y.Time) {
				return "whether a posting has its own date"
			}
			ok = vx.And(ok, sameTime(*s.Time, *r.Time), sameVal(s.Value, r.Value), sameBalList(s.Balance, r.Balance))
			v, h1 := a.Assertions[s]
			w, h2 := b.Assertions[r]
			if h1 != h2 {
				return "assertion"
			}
			if h1 {
				ok = vx.And(ok, sameVal(v, w))
			}
			v, h1 = a.SplitPrices[s]
			w, h2 = b.SplitPrices[r]
			if h1 != h2 {
				return "posting price"
			}
			if h1 {
				ok = vx.And(ok, sameVal(v, w))
			}
			if comments {
				ok = vx.And(ok, sameStrs(a.Comments[s], b.Comments[r]))
			}
		}
		if comments {
			ok = vx.And(ok, sameStrs(a.Comments[x], b.Comments[y]))
		}
	}
	if !ok {
		return "transaction or posting"
	}
	if len(a.Assertions) != len(b.Assertions) || len(a.SplitPrices) != len(b.SplitPrices) {
		return "number of assertions or posting prices"
	}
	if len(a.Currencies) != len(b.Currencies) {
		return "number of currencies"
	}
	for i := range a.Currencies {
		ok = vx.And(ok, sameCur(a.Currencies[i], b.Currencies[i]))
		if comments {
			ok = vx.And(ok, sameStrs(a.Comments[a.Currencies[i]], b.Comments[b.Currencies[i]]))
		}
	}
	if !ok {
		return "currency"
	}
	if len(a.Prices) != len(b.Prices) {
		return "number of prices"
	}
	for i, p := range a.Prices {
		q := b.Prices[i]
		ok = vx.And(ok, sameTime(p.Time, q.Time), sameCur(p.Currency, q.Currency), sameVal(p.Value, q.Value))
		if comments {
			ok = vx.And(ok, sameStrs(a.Comments[p], b.Comments[q]))
		}
	}
	if !ok {
		return "price"
	}
	if (a.DefaultCurrency == nil) != (b.DefaultCurrency == nil) {
		return "default currency"
	}
	if !sameCur(a.DefaultCurrency, b.DefaultCurrency) {
		return "default currency"
	}
	return ""
}

// canonical says that a balance lists no currency twice and none with amount zero.
func canonical(b accounting.Balance) bool {
	ok := true
	for i := range b {
		ok = vx.And(ok, b[i].Amount != 0)
		for j := 0; j < i; j++ {
			if b[i].Currency == b[j].Currency {
				return false
			}
		}
	}
	return ok
}

// amountIn is the amount of currency c in b, zero if it is not there.
func amountIn(b accounting.Balance, c *accounting.Currency) int64 {
	s, _ := total(b, c)
	return s
}
