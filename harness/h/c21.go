package h

import (
	"strings"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// opensOrExits says whether opening a data source gives a ledger.
func refuses(source string) {
	l, err := accounting.Open(source)
	vx.Assert(err != nil && l == nil, "reported")
}

const c21Main = "account A\ncommodity 1.00 EUR\n2020-01-01 x\n  A  1 EUR\n  B  -1 EUR\nP 2020-01-02 EUR 2 USD\n2020-01-02 y\n  A  1 EUR\n  B\n"

// C21_read: reading the journal fails after any number of bytes of it, or at once, whatever they are (any digits).
func C21_read() {
	text := strings.Replace(c21Main, "1 EUR", string(digits("amount", 2))+" EUR", -1)
	k := vx.Choose("fails", len(text)+1)
	refuses(vx.WriteFailing("main.journal", text, k))
}

// C21_include: a file included (directly, in another folder, or by another included file) fails to be read after any
// number of bytes, with or without more of the journal after it.
func C21_include() {
	text := "account B\n2020-01-02 y\n  A  " + string(digits("amount", 2)) + " EUR\n  B\n"
	k := vx.Choose("fails", len(text)+1)
	name := "part"
	if vx.Choose("folder", 2) == 1 {
		vx.Mkdir("sub")
		name = "sub/part"
	}
	switch vx.Choose("by", 2) {
	case 0:
		vx.WriteFailing(name, text, k)
	case 1:
		vx.WriteFile(name, "; first\ninclude second.journal\naccount Z\n")
		vx.WriteFailing(strings.Replace(name, "part", "second.journal", 1), text, k)
	}
	refuses(vx.WriteFile("main.journal", "account A\ninclude "+name+"\n"+[]string{"", "2020-01-03 z\n  A  1 EUR\n  B\n"}[vx.Choose("after", 2)]))
}

// C21_open: a journal, or a file it includes on any of its lines, is missing, cannot be opened, is a folder, has a folder
// missing in its path, or has no name.
func C21_open() {
	name := []string{"missing", "loop", "folder", "nowhere/missing", "folder/missing", ""}[vx.Choose("name", 6)]
	vx.Unopenable("loop")
	d := vx.Mkdir("folder")
	d = d[:len(d)-len("folder")]
	lines := strings.SplitAfter(c21Main, "\n")
	n := vx.Choose("line", len(lines)+1)
	if n == len(lines) {
		refuses(d + name)
		return
	}
	inc := "include " + name + []string{"", " ; comment", "  "}[vx.Choose("comment", 3)] + "\n"
	refuses(vx.WriteFile("main.journal", strings.Join(lines[:n], "")+inc+strings.Join(lines[n:], "")))
}

// C21_long: a line of 65536 characters or more (a comment, a description, blanks) at any place of the journal or of an
// included file.
func C21_long() {
	long := []string{"; ", "2020-01-02 ", " ", "  A  1 EUR ; "}[vx.Choose("kind", 4)] + strings.Repeat([]string{"x", " "}[vx.Choose("of", 2)], 65536+vx.Choose("more", 2)*70000) + "\n"
	lines := strings.SplitAfter(c21Main, "\n")
	n := vx.Choose("line", len(lines))
	text := strings.Join(lines[:n], "") + long + strings.Join(lines[n:], "")
	if vx.Choose("included", 2) == 1 {
		vx.WriteFile("part", text)
		text = "; first\ninclude part\n; last\n"
	}
	refuses(vx.WriteFile("main.journal", text))
}

const c21Accounts = "1:x:x:Cash::\n2:x:x:Bank:B:1\n"
const c21Trans = "1:2020-01-01:first::1:+5.00:\n1:2020-01-01:first::2:-5.00:\n2:2020-01-02:second::1:+1.00:\n2:2020-01-02:second::2:-1.00:\n"

// C21_txtdb: the accounts or transactions of a text database fail to be read after any number of bytes, cannot be opened
// or have a line too long; its accounts are missing.
func C21_txtdb() {
	d := vx.Mkdir("db")
	trans := strings.Replace(c21Trans, "5.00", string(digits("amount", 2))+".00", -1)
	which := vx.Choose("file", 2)
	name, other, text := "db/accounts", "db/transactions", c21Accounts
	if which == 1 {
		name, other, text = other, name, trans
		vx.WriteFile(other, c21Accounts)
	} else {
		vx.WriteFile(other, trans)
	}
	switch vx.Choose("how", 5) {
	case 0:
		vx.WriteFailing(name, text, vx.Choose("fails", len(text)+1))
	case 1:
		vx.Unopenable(name)
	case 2:
		vx.Mkdir(name)
	case 3:
		vx.WriteFile(name, text+strings.Repeat("x", 65536)+"\n"+text)
	case 4:
		vx.Assume(which == 0) // a text database may have no transactions yet
	}
	refuses("txtdb:" + d)
}
