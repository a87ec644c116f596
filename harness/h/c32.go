package h

import (
	"errors"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// request is what a backend was asked.
type request struct {
	op         string
	id         accounting.ID
	start, end time.Time
	acc        accounting.Account
	tra        accounting.Transaction
}

// plain is a connection with only what is required.
type plain struct {
	got []request
	err error
}

func (c *plain) ask(r request) {
	c.got = append(c.got, r)
}

func (c *plain) Close() error {
	c.ask(request{op: "close"})
	return c.err
}

func (c *plain) Refresh() { c.ask(request{op: "refresh"}) }

// complete is a connection with everything.
type complete struct {
	plain
	acc *accounting.Account
	tra *accounting.Transaction
	ts  []*accounting.Transaction
}

func (c *complete) Account(i accounting.ID) *accounting.Account {
	c.ask(request{op: "account", id: i})
	return c.acc
}

func (c *complete) TransactionsInAccount(i accounting.ID) []*accounting.Transaction {
	c.ask(request{op: "in account", id: i})
	return c.ts
}

func (c *complete) TransactionsInInterval(start, end time.Time) []*accounting.Transaction {
	c.ask(request{op: "in interval", start: start, end: end})
	return c.ts
}

func (c *complete) NewAccount(a accounting.Account) (*accounting.Account, error) {
	c.ask(request{op: "new account", acc: a})
	return c.acc, c.err
}

func (c *complete) EditAccount(a accounting.Account) (*accounting.Account, error) {
	c.ask(request{op: "edit account", acc: a})
	return c.acc, c.err
}

func (c *complete) NewTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	c.ask(request{op: "new transaction", tra: t})
	return c.tra, c.err
}

func (c *complete) EditTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	c.ask(request{op: "edit transaction", tra: t})
	return c.tra, c.err
}

func (c *complete) Flush() error {
	c.ask(request{op: "flush"})
	return c.err
}

type drv32 struct{}

var next accounting.Connection
var nextErr error

func (drv32) Open(name string, b *accounting.Backend) (accounting.Connection, error) {
	fill(b.Ledger)
	return next, nextErr
}

func init() { accounting.Register("vxc", drv32{}) }

// C32_requests: two ledgers of a backend which implements everything or only what it must, whose answers and errors are
// any, and each of ten requests with any arguments to the first or to the second,
// or to a clone of it.
func C32_requests() {
	ops := []string{"close", "refresh", "flush", "account", "in account", "in interval", "new account", "edit account", "new transaction", "edit transaction"}
	op := ops[vx.Choose("request", len(ops))]
	full := vx.Choose("implemented", 2) == 1
	var fail error
	if vx.Choose("fails", 2) == 1 {
		fail = errors.New("failed")
	}
	a := &accounting.Account{Name: "A", ID: id(vx.String("id", 1, "ab"))}
	var ls [2]*accounting.Ledger
	var cs [2]*plain
	var fs [2]*complete
	for i := range ls {
		fill = func(l *accounting.Ledger) {
			l.Comments = make(map[interface{}][]string)
			if i == 0 {
				l.Accounts = []*accounting.Account{a}
			}
		}
		if full {
			fs[i] = &complete{plain: plain{err: fail}, acc: &accounting.Account{Name: vx.String("name", 1, "xyz")}, tra: &accounting.Transaction{}}
			fs[i].ts = []*accounting.Transaction{fs[i].tra, nil}
			cs[i], next = &fs[i].plain, fs[i]
		} else {
			cs[i] = &plain{err: fail}
			next = cs[i]
		}
		l, err := accounting.Open("vxc:book")
		vx.Assert(err == nil, "opens")
		ls[i] = l
	}
	k := vx.Choose("which", 2)
	l, f := ls[k], fs[k]
	if vx.Choose("clone", 2) == 1 {
		l = l.Clone()
	}
	want := request{op: op}
	var err error
	changes := false
	n, m := len(l.Accounts), len(l.Transactions)
	var accs, ask *accounting.Account
	var tras *accounting.Transaction
	who := id(vx.String("asked", 1, "abc"))
	arg := accounting.Account{Name: vx.String("new", 2, "pq"), ID: who}
	targ := accounting.Transaction{Description: vx.String("new", 2, "pq"), Time: at(vx.Int64("time", 0, 1<<40))}
	switch op {
	case "close":
		err = l.Close()
		vx.Assert(err == fail, "error-returned")
	case "refresh":
		l.Refresh()
	case "flush":
		err = l.Flush()
		vx.Assert(full && err == fail || !full && err == nil, "error-returned")
	case "account":
		want.id = who
		ask = l.Account(who)
		if full {
			vx.Assert(ask == f.acc, "answer-returned")
		}
	case "in account", "in interval":
		var ts []*accounting.Transaction
		if op == "in account" {
			want.id = who
			ts = l.TransactionsInAccount(who)
		} else {
			want.start, want.end = at(vx.Int64("start", 0, 1<<40)), at(vx.Int64("end", 0, 1<<40))
			ts = l.TransactionsInInterval(want.start, want.end)
		}
		if full {
			vx.Assert(len(ts) == 2 && ts[0] == f.tra && ts[1] == nil, "answer-returned")
		} else {
			vx.Assert(len(ts) == 0, "no-transactions")
		}
	case "new account", "edit account":
		want.acc, changes = arg, true
		if op == "new account" {
			accs, err = l.NewAccount(arg)
		} else {
			accs, err = l.EditAccount(arg)
		}
	default:
		want.tra, changes = targ, true
		if op == "new transaction" {
			tras, err = l.NewTransaction(targ)
		} else {
			tras, err = l.EditTransaction(targ)
		}
	}
	vx.Assert(len(l.Accounts) == n && len(l.Transactions) == m, "ledger-left-alone")
	vx.Assert(len(cs[1-k].got) == 0, "only-its-own-backend")
	if !full && op != "close" && op != "refresh" {
		vx.Cover("not implemented")
		vx.Assert(len(cs[k].got) == 0, "nothing-asked")
		if changes {
			vx.Assert(accs == nil && tras == nil && err != nil, "not-implemented-reported")
		}
		return
	}
	vx.Cover("implemented")
	vx.Assert(len(cs[k].got) == 1, "asked-once")
	g := cs[k].got[0]
	vx.Assert(g.op == want.op && g.id == want.id, "same-request")
	vx.Assert(g.start.Equal(want.start) && g.end.Equal(want.end), "same-times")
	vx.Assert(g.acc.Name == want.acc.Name && g.acc.ID == want.acc.ID, "same-account")
	vx.Assert(g.tra.Description == want.tra.Description && g.tra.Time.Equal(want.tra.Time), "same-transaction")
	if changes {
		vx.Assert(err == fail, "error-returned")
		if accs != nil || tras == nil {
			vx.Assert(accs == f.acc, "answer-returned")
		} else {
			vx.Assert(tras == f.tra, "answer-returned")
		}
	}
}

// C32_refused: a backend which cannot open gives its error and no ledger.
func C32_refused() {
	fill = func(l *accounting.Ledger) { l.Accounts = []*accounting.Account{{Name: "A"}} }
	next, nextErr = &plain{}, nil
	if vx.Choose("fails", 2) == 1 {
		nextErr = errors.New(vx.String("why", 2, "abc"))
	}
	want := nextErr
	l, err := accounting.Open("vxc:" + vx.String("name", 2, "ab/"))
	nextErr = nil
	vx.Assert(err == want, "its-error")
	vx.Assert((l == nil) == (want != nil), "no-ledger")
	if want != nil {
		vx.Cover("refused")
	} else {
		vx.Cover("opened")
	}
}
