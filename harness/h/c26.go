package h

import (
	"strings"

	"github.com/cespedes/accounting/zzvx/vx"
)

// scanBalance reads amounts separated by commas, or 0.
func scanBalance(s string) (rows []row) {
	s = strings.Trim(s, " ")
	if s == "0" {
		return nil
	}
	for _, a := range strings.Split(s, ", ") {
		r := scanRow(a)
		vx.Assert(r.has && r.name == "" && r.cur != "", "amounts-with-currency")
		rows = append(rows, r)
	}
	return
}

// entry is a transaction moving an amount from an account to another.
type entry struct {
	day, from, to, text, cur string
	n                        int64
}

// incomesBook is a book with incomes and expenses of any digits in two currencies.
func incomesBook() (text string, list []entry) {
	xs, x := amount("x", 1, 1)
	ys, y := amount("y", 1, 1)
	list = []entry{
		{"01", "Income:Job", "Cash:Box", xs, "EUR", x},
		{"02", "Cash:Box", "Expense:Food", ys, "EUR", y},
		{"03", "Income:Job:Extra", "Bank", "7.5", "USD", 75 * U / 10},
		{"04", "Bank", "Expense:Food:Out", "2.25", "USD", 225 * U / 100},
		{"05", "Income:Rent", "Cash", "30", "EUR", 30 * U},
		{"06", "Cash", "Expense:Food", "10", "EUR", 10 * U},
		{"07", "Cash", "Bank", "5", "EUR", 5 * U},
	}
	text = "commodity 1.00 EUR\ncommodity 1.00 USD\n"
	if vx.Choose("listed", 2) == 1 {
		text += "account Expense\naccount Income\naccount Income:Job\naccount Income:Job:Extra\naccount Expense:Food\naccount Other\n"
	}
	for _, e := range list {
		text += pay(e.day, e.from, e.to, e.text, e.cur)
	}
	return
}

// matches reports whether a name contains one of several texts, whatever the case.
func matches(name string, pats []string) bool {
	for _, p := range pats {
		if strings.Contains(strings.ToLower(name), strings.ToLower(p)) {
			return true
		}
	}
	return false
}

// selection is the sums per account of the entries within a period that involve an account of a pivot.
func selection(list []entry, begin, end string, pivot []string) map[string]money {
	res := map[string]money{}
	for _, e := range list {
		if e.day < begin || e.day > end || len(pivot) > 0 && !matches(e.from, pivot) && !matches(e.to, pivot) {
			continue
		}
		for _, a := range []string{e.from, e.to} {
			if res[a] == nil {
				res[a] = money{}
			}
		}
		res[e.from].add(e.cur, -e.n)
		res[e.to].add(e.cur, e.n)
	}
	return res
}

// periodAndPivot chooses options of a period and a pivot.
func periodAndPivot() (args []string, begin, end string, pivot []string) {
	begin, end = "01", "31"
	switch vx.Choose("period", 4) {
	case 1:
		begin = "02"
		args = append(args, "-b", "2020-01-02")
	case 2:
		end = "04"
		args = append(args, "-e", "2020-01-04")
	case 3:
		begin, end = "03", "06"
		args = append(args, "-b", "2020-01-03", "-e", "2020-01-06")
	}
	pivot = [][]string{nil, {"food"}, {"BOX"}, {"job", "rent"}, {"nothing"}, {"Income:Job"}}[vx.Choose("pivot", 6)]
	for _, p := range pivot {
		args = append(args, "-pivot", p)
	}
	return
}

// C26_delta: what one or two patterns of several kinds select, in some period and with some pivot, negated or not.
func C26_delta() {
	vx.MapOrder(false)
	text, list := incomesBook()
	f := vx.WriteFile("main.journal", text)
	opts, begin, end, pivot := periodAndPivot()
	sign := int64(1)
	if vx.Choose("negate", 2) == 1 {
		opts = append(opts, "-negate")
		sign = -1
	}
	pats := [][]string{{"cash"}, {"Income"}, {"job", "income:job"}, {"food", "cash"}, {"s"}, {":"}, {"none"}}[vx.Choose("patterns", 7)]
	want := money{}
	for name, m := range selection(list, begin, end, pivot) {
		if matches(name, pats) {
			for c, n := range m {
				want.add(c, sign*n)
			}
		}
	}
	l := lines(run(append(append(append([]string{"-f", f}, opts...), "delta"), pats...)...))
	vx.Assert(len(l) == 1, "one-line")
	checkMoney(scanBalance(l[0]), want, "delta")
	vx.Cover("shown")
}

// statement splits the income statement in its three parts.
func statement(out string) (incomes map[string][]row, income []row, expenses map[string][]row, expense, net []row) {
	part := 0
	cur := map[string][]row{}
	var list []string
	for _, s := range lines(out) {
		i := strings.Index(s, "||")
		if i < 0 {
			continue
		}
		name, bal := strings.Trim(s[:i], " "), strings.Trim(s[i+2:], " ")
		switch {
		case bal == "" && name == "Revenues":
			vx.Assert(part == 0, "revenues-first")
			part = 1
		case bal == "" && name == "Expenses":
			vx.Assert(part == 2, "expenses-second")
			part = 3
			cur = map[string][]row{}
		case name == "" && part == 1:
			incomes, income, part = cur, scanBalance(bal), 2
		case name == "" && part == 3:
			expenses, expense, part = cur, scanBalance(bal), 4
		case name == "Net:":
			vx.Assert(part == 4, "net-last")
			net, part = scanBalance(bal), 5
		default:
			vx.Assert(part == 1 || part == 3, "account-in-its-part")
			_, ok := cur[name]
			vx.Assert(!ok, "account-once")
			cur[name] = scanBalance(bal)
		}
	}
	_ = list
	vx.Assert(part == 5, "complete")
	return
}

func checkPart(got map[string][]row, want map[string]money, label string) {
	for name, rows := range got {
		m, ok := want[name]
		vx.Assert(ok, label)
		checkMoney(rows, m, label)
	}
	for name, m := range want {
		_, ok := got[name]
		for _, n := range m {
			vx.Assert(vx.Or(ok, n == 0), label)
		}
	}
}

// C26_income: the income statement of all the accounts or of what one to three patterns select, in some period and with some pivot.
func C26_income() {
	vx.MapOrder(false)
	text, list := incomesBook()
	f := vx.WriteFile("main.journal", text)
	opts, begin, end, pivot := periodAndPivot()
	pats := [][]string{nil, {"job"}, {"Food", "JOB", "out"}, {"income", "extra"}, {"cash"}}[vx.Choose("patterns", 5)]
	if pats == nil {
		// not an account of Income
		text += pay("07", "Incomes:Gift", "Expenses", "4", "EUR")
		f = vx.WriteFile("other.journal", text)
		list = append(list, entry{"07", "Incomes:Gift", "Expenses", "4", "EUR", 4 * U})
	}
	total := vx.Choose("total", 2) == 1
	if total {
		opts = append(opts, "-total")
	}
	in, ex := map[string]money{}, map[string]money{}
	sumIn, sumEx, net := money{}, money{}, money{}
	for name, m := range selection(list, begin, end, pivot) {
		if len(pats) > 0 && !matches(name, pats) {
			continue
		}
		if strings.HasPrefix(name, "Income:") {
			in[name] = money{}
			for c, n := range m {
				in[name].add(c, -n)
				sumIn.add(c, -n)
				net.add(c, -n)
			}
		} else if strings.HasPrefix(name, "Expense:") {
			ex[name] = m
			for c, n := range m {
				sumEx.add(c, n)
				net.add(c, -n)
			}
		}
	}
	out := run(append(append(append([]string{"-f", f}, opts...), "is"), pats...)...)
	if total {
		l := lines(out)
		vx.Assert(len(l) == 1, "one-line")
		checkMoney(scanBalance(l[0]), net, "net")
		vx.Cover("total")
		return
	}
	incomes, income, expenses, expense, n := statement(out)
	checkPart(incomes, in, "income-of-account")
	checkPart(expenses, ex, "expense-of-account")
	checkMoney(income, sumIn, "income")
	checkMoney(expense, sumEx, "expense")
	checkMoney(n, net, "net")
	vx.Cover("shown")
}

// C26_pivot: the balances of a pivot and the transactions printed with it are those of the transactions that involve an
// account of the pivot, those before the period included in the balances.
func C26_pivot() {
	vx.MapOrder(false)
	text, list := incomesBook()
	f := vx.WriteFile("main.journal", text)
	opts, begin, end, pivot := periodAndPivot()
	vx.Assume(len(pivot) > 0)
	if vx.Choose("command", 2) == 0 {
		rows, tot := balanceReport(false, append(append([]string{"-f", f}, opts...), "balance")...)
		want := map[string]money{}
		for name, m := range selection(list, "01", end, pivot) {
			full := strings.Split(name, ":")
			want[full[len(full)-1]] = m
		}
		checkRows(rows, want)
		checkMoney(tot, money{}, "total")
		vx.Cover("balances")
		return
	}
	days := map[string]bool{}
	for _, e := range list {
		if e.day >= begin && e.day <= end && (matches(e.from, pivot) || matches(e.to, pivot)) {
			days[e.day] = true
		}
	}
	n := 0
	for _, s := range lines(run(append(append([]string{"-f", f}, opts...), "print")...) + "\n") {
		if strings.HasPrefix(s, "2020-") {
			vx.Assert(days[s[8:10]], "only-selected-transactions")
			n++
		}
	}
	vx.Assert(n == len(days), "every-selected-transaction")
	vx.Cover("transactions")
}
