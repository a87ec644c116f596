package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C06_tree: every forest over 4 accounts (thorough: 5) in every listing order, with names of any letter.
func C06_tree() {
	n := 4 + vx.Tier()
	var acc []*accounting.Account
	for i := 0; i < n; i++ {
		acc = append(acc, &accounting.Account{ID: id("a"), Name: vx.String("name", 1, "ABC:")})
	}
	var par []int
	for i := 0; i < n; i++ {
		p := vx.Choose("parent", n+1) - 1
		vx.Assume(p != i)
		par = append(par, p)
	}
	level := make([]int, n)
	for i := 0; i < n; i++ {
		for p := par[i]; p >= 0; p = par[p] {
			level[i]++
			vx.Assume(level[i] < n) // no cycles
		}
	}
	for i := range acc {
		if par[i] >= 0 {
			acc[i].Parent = acc[par[i]]
		}
		// what a backend leaves in the automatic fields does not matter
		acc[i].Level = 7
		acc[i].Children = []*accounting.Account{acc[0]}
	}
	l, err := open(func(l *accounting.Ledger) { l.Accounts = append([]*accounting.Account{}, acc...) })
	vx.Assert(err == nil, "opens")
	vx.Cover("opened")
	pos := make([]int, n)
	for i := range acc {
		m := 0
		for j, a := range l.Accounts {
			if a == acc[i] {
				m++
				pos[i] = j
			}
		}
		vx.Assert(m == 1, "listed-once")
	}
	for i := range acc {
		if par[i] >= 0 {
			vx.Assert(pos[par[i]] < pos[i], "after-its-parent")
		}
		vx.Assert(acc[i].Level == level[i], "level")
		k := 0
		for j := range acc {
			if par[j] == i {
				vx.Assert(k < len(acc[i].Children) && acc[i].Children[k] == acc[j], "children-in-order")
				k++
			}
		}
		vx.Assert(k == len(acc[i].Children), "no-other-children")
		name := acc[i].Name
		for p := par[i]; p >= 0; p = par[p] {
			name = acc[p].Name + ":" + name
		}
		vx.Assert(acc[i].FullName() == name, "full-name")
	}
}
