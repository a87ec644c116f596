package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C28_same: opening the rich ledger gives the same whether or not another ledger (transfers, exchange and default currency
// or not) was opened before; opening another afterwards, and using it, does not change it.
func C28_same() {
	f := richBook(nil)
	other := mkOther()
	first, err := open(f)
	vx.Assert(err == nil, "opens")
	snap := first.Clone()
	o, err := open(other)
	vx.Assert(err == nil, "opens")
	osnap := o.Clone()
	vx.Assert(sameLedger(first, snap, true) == "", "not-changed-by-another")
	// postings and accounts of the first are used again by its backend: a fresh copy is what a second process would have
	vx.Assert(first.Fill() == nil && sameLedger(first, snap, true) == "", "same-filled-again")
	vx.Assert(sameLedger(o, osnap, true) == "", "other-not-changed")
	for _, a := range first.Accounts {
		for _, b := range o.Accounts {
			vx.Assert(a != b, "accounts-not-shared")
		}
	}
	vx.Cover("both")
}

// mkOther is a ledger with a posting on another date and an exchange.
func mkOther() func(l *accounting.Ledger) {
	x := vx.Int64("other", 1, 1<<36)
	own := vx.Choose("otherown", 2) == 1
	return func(l *accounting.Ledger) {
		cur := curs(2)
		a := &accounting.Account{Name: "Z", ID: id("z")}
		l.Accounts = []*accounting.Account{a}
		l.Currencies = cur
		t := &accounting.Transaction{ID: id("t"), Time: day(1)}
		s := &accounting.Split{ID: id("s"), Account: a, Value: accounting.Value{Amount: x, Currency: cur[0]}}
		if own {
			tm := day(2)
			s.Time = &tm
		}
		t.Splits = []*accounting.Split{s, {ID: id("s"), Account: a, Value: accounting.Value{Amount: -x - 1, Currency: cur[1]}}}
		l.Transactions = []*accounting.Transaction{t}
	}
}

// C28_twice: the same content opened twice (as fresh data each time) with a third ledger opened in between or not gives
// equal ledgers.
func C28_twice() {
	x := vx.Int64("amt", -maxAmt, maxAmt)
	d := vx.Int64("day", 0, 2)
	own := vx.Choose("own", 2) == 1
	f := func(l *accounting.Ledger) {
		cur := curs(2)
		acc := []*accounting.Account{{Name: "A", ID: id("a")}, {Name: "B", ID: id("b")}}
		l.Accounts = acc
		l.Currencies = cur
		t := &accounting.Transaction{ID: id("t"), Time: day(1)}
		s := &accounting.Split{ID: id("s"), Account: acc[0], Value: accounting.Value{Amount: x, Currency: cur[0]}}
		if own {
			tm := day(d)
			s.Time = &tm
		}
		t.Splits = []*accounting.Split{s, {ID: id("r"), Account: acc[1]}}
		l.Transactions = []*accounting.Transaction{t}
	}
	l1, err := open(f)
	vx.Assert(err == nil, "opens")
	if vx.Choose("between", 2) == 1 {
		_, err = open(mkOther())
		vx.Assert(err == nil, "opens")
	}
	l2, err := open(f)
	vx.Assert(err == nil, "opens")
	vx.Assert(sameLedger(l1, l2, true) == "", "same-result")
	vx.Cover("both")
}

// C28_journals: a journal (digits any) opened before and after it, or another journal or text database, is opened gives equal
// ledgers, the first of which does not change; the same for a text database.
func C28_journals() {
	d, e := string(digits("digit", 2)), string(digits("other digit", 2))
	one := "D 1.00 EUR\naccount A\n ; code:1\nP 2020-01-01 USD 2.5 EUR\n2020-01-01 x\n  A  1." + d + " EUR ; date:2020-01-02\n  B:C\n2020-01-02 y\n  A  3 USD = 3 USD\n  B:C  -2." + d + " EUR\n"
	two := "D USD 1,0\naccount B:C\nP 2020-01-01 USD 3.5 EUR\n2020-01-01 x\n  A  1," + e + " USD\n  B\n"
	db := "1:2020-01-05:x::1:+1." + d + ":\n1:2020-01-06:x::2:-1." + d + ":\n"
	kind := vx.Choose("kind", 2)
	get := func(k int) *accounting.Ledger {
		var l *accounting.Ledger
		var err error
		switch k {
		case 0:
			l, err = journal(one)
		case 1:
			l, err = textDB(threeAccounts, db)
		case 2:
			l, err = journal(two)
		case 3:
			l, err = accounting.Open(vx.WriteFile("second.journal", two))
		case 4:
			l, err = textDB("1:x:x:X::\n2:x:x:Y::1\n", "1:2020-01-05:z::2:+7."+e+":\n1:2020-01-06:z::1:-7."+e+":\n")
		}
		vx.Assert(err == nil, "opens")
		return l
	}
	l1 := get(kind)
	snap := l1.Clone()
	if k := vx.Choose("between", 4); k > 0 {
		get(k + 1)
	}
	l2 := get(kind)
	vx.Assert(sameLedger(l1, snap, true) == "", "not-changed-by-another")
	vx.Assert(sameLedger(l1, l2, true) == "", "same-result")
	vx.Assert(l2.Fill() == nil && sameLedger(l2, snap, true) == "", "same-filled-again")
	for _, a := range l1.Accounts {
		for _, b := range l2.Accounts {
			vx.Assert(a != b, "accounts-not-shared")
		}
	}
	for _, a := range l1.Currencies {
		for _, b := range l2.Currencies {
			vx.Assert(a != b, "currencies-not-shared")
		}
	}
	vx.Cover("both")
}

// C28_scheme: an address whose scheme of up to 3 letters (or one of eight longer words) has no backend is refused, whatever the rest (any
// word, a journal or the folder of a text database); a registered one, in lower or upper case, is not, and gets that rest. Without
// a scheme, it is a journal.
func C28_scheme() {
	words := []string{"", "ledger", "txtdb", "TXTDB", "ledgers", "ledge", "text", "postgres", "txtdb+ledger"}
	k := vx.Choose("len", 3+len(words))
	s := ""
	if k < 3 {
		s = vx.String("scheme", 1+k, "vxwT")
	} else {
		s = words[k-3]
	}
	fill = func(l *accounting.Ledger) {}
	rest := "book"
	d := vx.Mkdir("db")
	kind := vx.Choose("rest", 3)
	switch kind {
	case 1:
		rest = vx.WriteFile("main.journal", "2020-01-01 x\n  A  1 EUR\n  B\n")
	case 2:
		rest = d
		vx.WriteFile("db/accounts", threeAccounts)
	}
	if s != "" {
		rest = s + ":" + rest
	}
	l, err := accounting.Open(rest)
	switch {
	case s == "vx":
		vx.Cover("known")
		vx.Assert(err == nil && l != nil && len(l.Accounts) == 1, "registered-opens")
	case s == "" || s == "ledger":
		vx.Assert((err == nil) == (kind == 1) && (l == nil) == (err != nil), "journal-only")
		vx.Assert(l == nil || len(l.Transactions) == 1, "journal-read")
	case s == "txtdb" || s == "TXTDB":
		vx.Assert((err == nil) == (kind == 2) && (l == nil) == (err != nil), "database-only")
		vx.Assert(l == nil || len(l.Accounts) == 4, "database-read")
	default:
		vx.Cover("unknown")
		vx.Assert(err != nil && l == nil, "unknown-scheme-refused")
	}
}

// C28_register: registering a backend under a name of up to 3 letters is rejected exactly when the name is in use or
// there is no driver, and the backends already there still work.
func C28_register() {
	n := 1 + vx.Choose("len", 3)
	s := vx.String("name", n, "vxw")
	var d accounting.Driver = drv{}
	none := vx.Choose("nil", 2) == 1
	if none {
		d = nil
	}
	rejected := vx.Try(func() { accounting.Register(s, d) })
	vx.Assert(rejected == (none || s == "vx"), "rejected-exactly-when-used-or-nil")
	if !rejected {
		vx.Cover("registered")
		vx.Assert(vx.Try(func() { accounting.Register(s, drv{}) }), "second-time-rejected")
	} else {
		vx.Cover("rejected")
	}
	fill = func(l *accounting.Ledger) {}
	_, err := accounting.Open("vx:book")
	vx.Assert(err == nil, "others-still-work")
	if !rejected {
		_, err = accounting.Open(s + ":book")
		vx.Assert(err == nil, "registered-opens")
	}
}
