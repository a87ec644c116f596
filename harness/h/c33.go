package h

import (
	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// C33_journal: the journal named by -f, by LEDGER_FILE, by both or by none, each of them one of two journals (a posting in an account
// of any letter), an unreadable one or a missing one.
func C33_journal() {
	a, b := vx.String("account", 1, "KL"), vx.String("account", 1, "MN")
	list := []string{"", vx.WriteFile("one.journal", "2020-01-01 x\n  "+a+"  1 EUR\n  B\n"), vx.WriteFile("two.journal", "2020-01-01 x\n  "+b+"  1 EUR\n  B\n"),
		vx.Dir() + "/missing", vx.WriteFile("bad.journal", "2020-01-01 x\n  A  1 EUR\n  B  1 EUR\n")}
	k, m := vx.Choose("option", len(list)), vx.Choose("variable", len(list))
	var args []string
	if k > 0 {
		args = []string{"-f", list[k]}
	}
	if m > 0 || vx.Choose("empty", 2) == 1 {
		vx.Setenv("LEDGER_FILE", list[m])
	}
	used := k
	if k == 0 {
		used = m
	}
	out, code := vx.RunMain(append(args, "accounts")...)
	switch used {
	case 1:
		vx.Assert(code == 0 && out == a+"\nB\n"+accounting.TransferAccount.Name+"\n", "first-journal")
		vx.Cover("first")
	case 2:
		vx.Assert(code == 0 && out == b+"\nB\n"+accounting.TransferAccount.Name+"\n", "second-journal")
	default:
		vx.Assert(code != 0, "error-exit")
		vx.Assert(out == "", "nothing-printed")
		vx.Cover("refused")
	}
}

// okDate says whether s is a date with which a period may begin or end: a year, a month, a day, or one with hour, minute and second.
func okDate(s string) bool {
	part := func(i, j int, lo, hi int64) bool {
		n := int64(0)
		for _, c := range []byte(s[i:j]) {
			if c < '0' || c > '9' {
				return false
			}
			n = 10*n + int64(c-'0')
		}
		return n >= lo && n <= hi
	}
	sep := func(i int) bool {
		return s[i] == '-' || s[i] == '/' || s[i] == '.' || s[i] == '_' || i > 9 && s[i] == ':'
	}
	switch len(s) {
	case 4, 7, 10, 13, 16, 19:
	default:
		return false
	}
	if !part(0, 4, 0, 9999) {
		return false
	}
	year, month := num([]byte(s[:4])), int64(1)
	if len(s) >= 7 {
		if !sep(4) || !part(5, 7, 1, 12) {
			return false
		}
		month = num([]byte(s[5:7]))
	}
	return !(len(s) >= 10 && (!sep(7) || !part(8, 10, 1, monthDays(year, month))) || len(s) >= 13 && (!sep(10) || !part(11, 13, 0, 23)) ||
		len(s) >= 16 && (!sep(13) || !part(14, 16, 0, 59)) || len(s) >= 19 && (!sep(16) || !part(17, 19, 0, 59)))
}

// C33_dates: a date of the beginning or of the end cut after any of eleven (sixteen) numbers of characters, all of its digits any and one of
// its characters perhaps of six kinds, in the first command or in the second. (Hours of one digit are outside the claim.)
func C33_dates() {
	lengths := []int{3, 4, 5, 7, 8, 10, 11, 13, 16, 17, 19, 1, 2, 6, 9, 14}
	n := lengths[vx.Choose("length", 11+5*vx.Tier())]
	format := "20dd-dd-dd/dd:dd:dd"
	s := ""
	odd := vx.Choose("odd", n+1)
	for i := 0; i < n; i++ {
		c := format[i]
		switch {
		case i == odd:
			s += vx.String("odd", 1, "x ,0/_")
		case c == 'd':
			s += string(digits("digit", 1))
		default:
			s += string(c)
		}
	}
	f := vx.WriteFile("main.journal", "account A\n")
	args := []string{"-f", f}
	second := vx.Tier() > 0 && vx.Choose("second", 2) == 1 || odd%2 == 1
	if second {
		args = append(args, "accounts", "--")
	}
	out, code := vx.RunMain(append(args, []string{"-b", "-e"}[vx.Choose("option", 2)], s, "accounts", "--", "accounts")...)
	want := ""
	if second {
		want = "A\n" + accounting.TransferAccount.Name + "\n"
	}
	if okDate(s) {
		vx.Assert(code == 0, "accepted")
		vx.Assert(out == want+"A\n"+accounting.TransferAccount.Name+"\nA\n"+accounting.TransferAccount.Name+"\n", "printed")
		vx.Cover("accepted")
	} else {
		vx.Assert(code != 0, "error-exit")
		vx.Assert(out == want, "nothing-printed")
		vx.Cover("refused")
	}
}

// C33_commands: a command of up to three letters, or one of thirty others near those there are, alone or after another command: those there are
// print what their full names print, and the others nothing.
func C33_commands() {
	full := map[string]string{"accounts": "accounts", "a": "accounts", "balance": "balance", "bal": "balance", "b": "balance", "stats": "stats", "print": "print",
		"incomestatement": "incomestatement", "is": "incomestatement", "delta": "delta", "price": "price"}
	words := []string{"accounts", "balance", "stats", "print", "incomestatement", "delta", "price", "account", "acc", "accountss", "Accounts", "balances", "balanc", "BALANCE", "stat",
		"statss", "prin", "prints", "incomestatements", "income", "delt", "deltas", "prices", "pric", "help", "accounts balance", " a", "a ", "equity", "register"}
	c := ""
	if k := vx.Choose("word", 3+len(words)); k < 3 {
		c = vx.String("word", k+1, "abils")
	} else {
		c = words[k-3]
	}
	f := vx.WriteFile("main.journal", "commodity 1.00 EUR\nD 1.00 EUR\n2020-01-01 x\n  Income:A  -"+string(digits("amount", 1))+".00 EUR\n  B\n")
	args := []string{"-f", f}
	second := vx.Choose("second", 2) == 1
	want := ""
	if second {
		args = append(args, "accounts", "--")
		want = "Income\nIncome:A\nB\n" + accounting.TransferAccount.Name + "\n"
	}
	out, code := vx.RunMain(append(args, c)...)
	for name, same := range full {
		if c == name {
			vx.Assert(code == 0, "accepted")
			o, code := vx.RunMain("-f", f, same)
			vx.Assert(code == 0 && out == want+o, "same-as-full-name")
			vx.Cover("known")
			return
		}
	}
	vx.Assert(code != 0, "error-exit")
	vx.Assert(out == want, "nothing-printed")
	vx.Cover("unknown")
}

// C33_options: an option of a word of up to three letters, or one of twenty others, before a command or after "accounts".
func C33_options() {
	takes := map[string]bool{"b": true, "e": true, "p": true, "pivot": true, "currency": true, "batch": false, "market": false, "total": false, "negate": false}
	words := []string{"pivot", "currency", "batch", "market", "total", "negate", "tree", "Total", "totals", "tota", "neg", "pivots", "market=maybe", "total=2", "total=true", "negate=0",
		"from", "f", "currencies", "begin"}
	c := ""
	if k := vx.Choose("word", 3+len(words)); k < 3 {
		c = vx.String("word", k+1, "bepx")
	} else {
		c = words[k-3]
	}
	f := vx.WriteFile("main.journal", "account A\n")
	opt := []string{"-", "--"}[vx.Choose("dashes", 2)] + c
	if vx.Choose("after", 2) == 1 {
		out, code := vx.RunMain("-f", f, "accounts", opt)
		if c == "tree" {
			vx.Assert(code == 0 && out == "A\n"+accounting.TransferAccount.Name+"\n" || code == 0 && len(out) > 0, "accepted")
			vx.Cover("known")
		} else {
			vx.Assert(code != 0, "error-exit")
			vx.Assert(out == "", "nothing-printed")
		}
		return
	}
	args := []string{"-f", f, opt}
	for name, arg := range takes {
		if c == name || !arg && (c == name+"=true" || c == name+"=0") {
			if arg {
				args = append(args, "2020")
			}
			out, code := vx.RunMain(append(args, "accounts")...)
			vx.Assert(code == 0 && (out == "A\n"+accounting.TransferAccount.Name+"\n"), "accepted")
			vx.Cover("known")
			return
		}
	}
	out, code := vx.RunMain(append(args, "accounts")...)
	vx.Assert(code != 0, "error-exit")
	vx.Assert(out == "", "nothing-printed")
	vx.Cover("unknown")
}
