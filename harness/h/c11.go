package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

const opMax = 1 << 57

// checkBal asserts that b is canonical and holds exactly the amounts given.
func checkBal(b accounting.Balance, cur []*accounting.Currency, want []int64, label string) {
	ok := canonical(b)
	n := 0
	for c := range cur {
		s, k := total(b, cur[c])
		n += k
		ok = vx.And(ok, s == want[c])
	}
	vx.Assert(ok, label)
	vx.Assert(n == len(b), label+"-no-other-currency")
}

// operand makes a balance with any amount in some of the currencies.
func operand(cur []*accounting.Currency, name string) (accounting.Balance, []int64) {
	var b accounting.Balance
	want := make([]int64, len(cur))
	for c := range cur {
		if vx.Choose(name+"has", 2) == 1 {
			x := vx.Int64(name, -opMax, opMax)
			vx.Assume(x != 0)
			b = append(b, accounting.Value{Amount: x, Currency: cur[c]})
			want[c] = x
		}
	}
	if len(b) > 1 && vx.Choose(name+"swap", 2) == 1 {
		b[0], b[1] = b[1], b[0]
	}
	return b, want
}

// C11_add: sequences of 4 (thorough: 5) additions and subtractions of any amounts (up to 2^57, zero included) of any
// of 3 currencies, from an empty balance.
func C11_add() {
	cur := curs(3)
	var b accounting.Balance
	want := make([]int64, 3)
	for i := 0; i < 4+vx.Tier(); i++ {
		c := vx.Choose("cur", 3)
		x := vx.Int64("amt", -opMax, opMax)
		v := accounting.Value{Amount: x, Currency: cur[c]}
		if vx.Choose("op", 2) == 0 {
			b.Add(v)
			want[c] += x
		} else {
			b.Sub(v)
			want[c] -= x
		}
		vx.Assert(v.Amount == x && v.Currency == cur[c], "operand-unchanged")
		checkBal(b, cur, want, "exact-and-canonical")
	}
	vx.Cover("end")
}

// C11_balance: adding to and subtracting from a balance of up to 2 (thorough: 3) currencies another of up to as many, any
// amounts up to 2^57, and doing it twice; the operand is not changed.
func C11_balance() {
	cur := curs(2 + vx.Tier())
	b, want := operand(cur, "left")
	o, ow := operand(cur, "right")
	for i := 0; i < 2; i++ {
		sg := int64(1)
		if vx.Choose("op", 2) == 0 {
			b.AddBalance(o)
		} else {
			b.SubBalance(o)
			sg = -1
		}
		for c := range want {
			want[c] += sg * ow[c]
		}
		checkBal(b, cur, want, "exact-and-canonical")
		checkBal(o, cur, ow, "operand-unchanged")
	}
	vx.Cover("end")
}

// C11_dup: a duplicate of a balance of up to 3 currencies equals it; after one operation (any amount, any
// currency) on the duplicate, the original is as it was, and the other way around. Two duplicates are independent too.
func C11_dup() {
	cur := curs(3)
	b, want := operand(cur, "amt")
	d := b.Dup()
	e := b.Dup()
	checkBal(d, cur, want, "equal")
	change := func(x *accounting.Balance, w []int64) []int64 {
		w = append([]int64{}, w...)
		c := vx.Choose("cur", 3)
		y := vx.Int64("change", -opMax, opMax)
		switch vx.Choose("op", 2) {
		case 0:
			x.Add(accounting.Value{Amount: y, Currency: cur[c]})
			w[c] += y
		case 1:
			x.SubBalance(accounting.Balance{{Amount: y, Currency: cur[c]}})
			w[c] -= y
		}
		return w
	}
	var dw, bw []int64
	if vx.Choose("first", 2) == 0 {
		dw, bw = change(&d, want), want
	} else {
		dw, bw = want, change(&b, want)
	}
	checkBal(d, cur, dw, "duplicate-independent")
	checkBal(b, cur, bw, "original-independent")
	checkBal(e, cur, want, "other-duplicate-independent")
	vx.Cover("end")
}

// C11_cancel: a balance of 1 to 3 currencies less itself is empty, whatever the amounts; less its duplicate too.
func C11_cancel() {
	cur := curs(3)
	b, want := operand(cur, "amt")
	d := b.Dup()
	o := append(accounting.Balance{}, b...)
	b.SubBalance(o)
	vx.Assert(len(b) == 0, "cancels-to-empty")
	o.SubBalance(d)
	vx.Assert(len(o) == 0, "cancels-to-empty")
	checkBal(d, cur, want, "operand-unchanged")
	vx.Cover("end")
}

// C11_many: additions and subtractions of any amounts of any two (thorough: three) of 5 currencies, from a balance of them all.
func C11_many() {
	cur := curs(5)
	var b accounting.Balance
	want := make([]int64, len(cur))
	for i := range cur {
		want[i] = int64(100 + i)
		b.Add(accounting.Value{Amount: want[i], Currency: cur[i]})
	}
	for i := 0; i < 2+vx.Tier(); i++ {
		c := vx.Choose("cur", len(cur))
		x := vx.Int64("amt", -opMax, opMax)
		switch vx.Choose("op", 4) {
		case 0:
			b.Add(accounting.Value{Amount: x, Currency: cur[c]})
			want[c] += x
		case 1:
			b.Sub(accounting.Value{Amount: x, Currency: cur[c]})
			want[c] -= x
		case 2:
			vx.Assume(x != 0)
			b.AddBalance(accounting.Balance{{Amount: x, Currency: cur[c]}})
			want[c] += x
		case 3:
			vx.Assume(x != 0)
			b.SubBalance(accounting.Balance{{Amount: x, Currency: cur[c]}})
			want[c] -= x
		}
		checkBal(b, cur, want, "exact-and-canonical")
	}
	checkBal(b.Dup(), cur, want, "copy")
	vx.Cover("end")
}
