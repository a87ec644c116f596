package h

import (
	"math/big"
	"strings"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/zzvx/vx"
)

// journal opens a journal with this text.
func journal(text string) (*accounting.Ledger, error) {
	return accounting.Open(vx.WriteFile("main.journal", text))
}

// readAmount puts text as the amount of a posting, after some other lines, and returns what was read, if it was not
// refused.
func readAmount(before, text string) (v accounting.Value, refused bool) {
	vx.MustNotExit("no-exit")
	l, err := journal(before + "2020-01-01 x\n  A  " + text + "\n  B\n")
	vx.Assert(err == nil, "opens")
	vx.Assert(len(l.Transactions) == 1, "one-transaction")
	for _, s := range l.Transactions[0].Splits {
		if s.Account.Name == "A" {
			return s.Value, false
		}
	}
	return accounting.Value{}, true
}

const maxInt64 = 1<<63 - 1

// number is the value in units of 10^-8 of an integer and a decimal part, as digits.
func number(ip, dp []byte) *big.Int {
	n := new(big.Int)
	ten := big.NewInt(10)
	for _, c := range ip {
		n.Mul(n, ten)
		n.Add(n, big.NewInt(int64(c)-'0'))
	}
	for i := 0; i < 8; i++ {
		n.Mul(n, ten)
		if i < len(dp) {
			n.Add(n, big.NewInt(int64(dp[i])-'0'))
		}
	}
	return n
}

// group writes digits in threes with a mark.
func group(ip []byte, mark string) string {
	var b []byte
	for i, c := range ip {
		if i > 0 && (len(ip)-i)%3 == 0 && mark != "" {
			b = append(b, mark...)
		}
		b = append(b, c)
	}
	return string(b)
}

func digits(name string, n int) []byte { return []byte(vx.String(name, n, "0123456789")) }

// withCurrency puts the currency on one side of an amount: 0 after with space, 1 after without, 2 before with, 3 before
// without.
func withCurrency(side int, num, cur string) string {
	switch side {
	case 0:
		return num + " " + cur
	case 1:
		return num + cur
	case 2:
		return cur + " " + num
	}
	return cur + num
}

func checkRead(v accounting.Value, refused bool, n *big.Int, sign string, cur string) {
	if n.Cmp(big.NewInt(maxInt64)) > 0 {
		vx.Cover("too big")
		vx.Assert(refused, "out-of-range-refused")
		return
	}
	vx.Cover("in range")
	vx.Assert(!refused, "not-refused")
	if sign == "-" {
		n = new(big.Int).Neg(n)
	}
	vx.Assert(big.NewInt(v.Amount).Cmp(n) == 0, "exact")
	vx.Assert(v.Currency != nil && v.Currency.Name == cur, "currency")
}

var marks = []string{".", ",", "_", "'"}

// C15_established: an amount with 1 to 7 (thorough: 10) integer digits, all any digits, grouped in threes or not, and up
// to 4 (thorough: 8) decimals, with any sign and on any side, of a currency whose marks (each of the twelve pairs) were
// established by its commodity line: read exactly.
func C15_established() {
	t := marks[vx.Choose("thousand", 4)]
	d := marks[vx.Choose("decimal", 4)]
	vx.Assume(t != d)
	nd := vx.Choose("decimals", 5+4*vx.Tier())
	ip := digits("int", 1+vx.Choose("ints", 7+3*vx.Tier()))
	dp := digits("dec", nd)
	mark := ""
	if vx.Choose("grouped", 2) == 1 {
		mark = t
	}
	sign := []string{"", "-", "+"}[vx.Choose("sign", 3)]
	num := sign + group(ip, mark)
	if nd > 0 {
		num += d + string(dp)
	}
	side := 0
	if vx.Tier() == 1 || t == "," || d == "'" {
		side = vx.Choose("side", 4)
	}
	v, refused := readAmount("commodity 1"+t+"000"+d+"00 EUR\n", withCurrency(side, num, "EUR"))
	checkRead(v, refused, number(ip, dp), sign, "EUR")
}

// C15_range: amounts with 10 to 12 integer digits and 0, 1, 7 or 8 decimals (any digits) around the end of the range
// of 64 bits: exact, or refused exactly when they do not fit.
func C15_range() {
	nd := []int{0, 1, 7, 8}[vx.Choose("decimals", 4)]
	ip := digits("int", 10+vx.Choose("ints", 3))
	dp := digits("dec", nd)
	sign := []string{"", "-"}[vx.Choose("sign", 2)]
	num := sign + string(ip)
	if nd > 0 {
		num += "." + string(dp)
	}
	before := ""
	if vx.Choose("known", 2) == 1 {
		before = "commodity 1,000.00 EUR\n"
	}
	v, refused := readAmount(before, withCurrency(2*vx.Choose("side", 2), num, "EUR"))
	checkRead(v, refused, number(ip, dp), sign, "EUR")
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// grouped says whether s is an integer, possibly in threes with mark t; "" when it has no marks.
func groupedInt(s string) (ip []byte, t string, ok bool) {
	last := -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		if isDigit(c) {
			ip = append(ip, c)
			continue
		}
		if strings.IndexByte(".,_'", c) < 0 {
			return nil, "", false
		}
		if t != "" && t != string([]byte{c}) || i == 0 || last < 0 && i > 3 || last >= 0 && i-last != 4 {
			return nil, "", false
		}
		t = string([]byte{c})
		last = i
	}
	if last >= 0 && len(s)-last != 4 {
		return nil, "", false
	}
	return ip, t, len(ip) > 0
}

// interpretations lists the numbers that s can be: as an integer, and with its last mark as the decimal sign; marks
// given as not "" must be those.
func interpretations(s, thousand, decimal string) (list []*big.Int) {
	if ip, t, ok := groupedInt(s); ok && (t == "" || thousand == "" && t != decimal || t == thousand) {
		list = append(list, number(ip, nil))
	}
	k := -1
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			k = i
		}
	}
	if k > 0 && k < len(s)-1 && strings.IndexByte(".,_'", s[k]) >= 0 && len(s)-k-1 <= 8 {
		d := string([]byte{s[k]})
		if ip, t, ok := groupedInt(s[:k]); ok && t != d && (decimal == "" && d != thousand || d == decimal) && (t == "" || thousand == "" || t == thousand) {
			list = append(list, number(ip, []byte(s[k+1:])))
		}
	}
	return
}

// checkFree reads sign and s as an amount, after lines that established the marks (if any), and compares with the
// documented grammar.
func checkFree(before, sign, s, thousand, decimal string, side int) {
	list := interpretations(s, thousand, decimal)
	v, refused := readAmount(before, withCurrency(side, sign+s, "EUR"))
	switch len(list) {
	case 0:
		vx.Cover("not a number")
		vx.Assert(refused, "not-a-number-refused")
	case 1:
		checkRead(v, refused, list[0], sign, "EUR")
	default:
		vx.Cover("ambiguous")
		vx.Assert(refused, "ambiguous-refused")
	}
}

const numAlphabet = "0123456789.,'-+"

// C15_free: any text of up to 5 (thorough: 6) digits, marks (. , ') and signs, next to a currency never seen before:
// read as the only number it can be, or refused when it is none or could be two.
func C15_free() {
	s := vx.String("text", 1+vx.Choose("len", 5+vx.Tier()), numAlphabet)
	sign := []string{"", "-", "+"}[vx.Choose("sign", 3)]
	vx.Assume(sign != "" || isDigit(s[0]))
	checkFree("", sign, s, "", "", 2*vx.Choose("side", 2))
}

// C15_known: the same text for a currency whose marks were established as "," and ".", by its commodity line or by an
// earlier amount, or whose decimal mark only ("," or ".") was.
func C15_known() {
	s := vx.String("text", 1+vx.Choose("len", 5+vx.Tier()), numAlphabet)
	vx.Assume(isDigit(s[0]))
	var before, t, d string
	switch vx.Choose("known", 4) {
	case 0:
		before, t, d = "commodity 1,000.00 EUR\n", ",", "."
	case 1:
		before, t, d = "2020-01-01 y\n  C  1.234,5 EUR\n  D\n", ".", ","
	case 2:
		before, t, d = "P 2020-01-01 USD 5,25 EUR\n", "", ","
	case 3:
		before, t, d = "D 1000.00 EUR\n", "", "."
	}
	if before[0] == '2' {
		// the amount is read in the second transaction
		list := interpretations(s, t, d)
		l, err := journal(before + "2020-01-01 x\n  A  " + s + " EUR\n  B\n")
		vx.Assert(err == nil && len(l.Transactions) == 2, "opens")
		if len(list) == 1 {
			vx.Assert(l.Transactions[1].Splits[0].Account.Name == "A" && big.NewInt(l.Transactions[1].Splits[0].Value.Amount).Cmp(list[0]) == 0, "exact")
		} else {
			vx.Assert(l.Transactions[1].Splits[0].Account.Name != "A", "not-a-number-refused")
		}
		return
	}
	checkFree(before, "", s, t, d, vx.Choose("side", 2))
}

// C15_decimals: 1 to 10 decimals (any digits) after 1 or 4 integer digits, of a known or a new currency: exact to the
// eighth, refused beyond.
func C15_decimals() {
	nd := 1 + vx.Choose("decimals", 10)
	ip := digits("int", 1+3*vx.Choose("ints", 2))
	dp := digits("dec", nd)
	vx.Assume(nd != 3 || len(ip) > 1)
	before := []string{"", "commodity 1,000.00 EUR\n", "commodity 1 EUR\n"}[vx.Choose("known", 3)]
	side := vx.Choose("side", 4)
	v, refused := readAmount(before, withCurrency(side, string(ip)+"."+string(dp), "EUR"))
	if nd > 8 {
		vx.Cover("too many")
		vx.Assert(refused, "too-many-decimals-refused")
		return
	}
	checkRead(v, refused, number(ip, dp), "", "EUR")
}

// C15_currency: currency names of 1 to 3 of the documented characters, on any side; the name read is the one written.
func C15_currency() {
	c := vx.String("cur", 1+vx.Choose("len", 3), "aZ$/-.5_")
	side := vx.Choose("side", 4)
	// a name starts and ends next to the number: its ends must not be parts of a number
	if side == 0 {
		vx.Assume(strings.IndexByte("-.5_", c[0]) < 0)
	}
	if side == 1 || side == 0 {
		vx.Assume(strings.IndexByte("-.5_", c[0]) < 0)
	} else {
		vx.Assume(strings.IndexByte("-5", c[0]) < 0)
		if side == 3 {
			vx.Assume(strings.IndexByte("-.5_", c[len(c)-1]) < 0)
		}
	}
	d := digits("int", 2)
	v, refused := readAmount("", withCurrency(side, string(d)+".2", c))
	checkRead(v, refused, number(d, []byte("2")), "", c)
	vx.Assert(v.Currency.PrintBefore == (side >= 2) && v.Currency.WithoutSpace == (side%2 == 1), "side-and-spacing")
}

// C15_none: an amount without currency, before or after a D line (with a currency or only an amount): the number
// written, in the default currency.
func C15_none() {
	ip := digits("int", 1+vx.Choose("ints", 3))
	dp := digits("dec", vx.Choose("decimals", 3))
	s := string(ip)
	if len(dp) > 0 {
		s += "." + string(dp)
	}
	before := []string{"", "D 1,000.00 EUR\n", "D 1,000.00\n", "D EUR 1,000.00\n"}[vx.Choose("default", 4)]
	v, refused := readAmount(before, s)
	name := ""
	if strings.Contains(before, "EUR") {
		name = "EUR"
	}
	checkRead(v, refused, number(ip, dp), "", name)
}

// C15_refused: an amount of any text of up to 5 digits, marks and signs that must be refused (or a syntax error after a
// well-formed one in the same line) leaves its currency as it was: an amount written next, in either of two
// punctuations, is read exactly.
func C15_refused() {
	s := vx.String("text", 2+vx.Choose("len", 4), numAlphabet)
	vx.Assume(isDigit(s[0]) && len(interpretations(s, "", "")) != 1)
	ip, dp := digits("int", 4), digits("dec", 1)
	num := string(ip[:1]) + "," + string(ip[1:]) + "." + string(dp)
	if vx.Choose("marks", 2) == 1 {
		num = string(ip[:1]) + "." + string(ip[1:]) + "," + string(dp)
	}
	bad := withCurrency(2*vx.Choose("side", 2), s, "EUR")
	if vx.Choose("where", 2) == 1 {
		bad = "1 USD @ " + bad
	}
	l, err := journal("2020-01-01 y\n  C  " + bad + "\n2020-01-01 x\n  A  " + num + " EUR\n  B\n")
	vx.Assert(err == nil && len(l.Transactions) == 2 && len(l.Transactions[0].Splits) == 0 && len(l.Transactions[1].Splits) == 2, "opens")
	v := l.Transactions[1].Splits[0].Value
	checkRead(v, false, number(ip, dp), "", "EUR")
	vx.Assert(v.Currency.Precision == 1 && !v.Currency.PrintBefore, "format-of-the-first-amount")
}

// C15_groups: two to four groups of one to four digits (any digit) with a mark between (and one more with another mark), in
// a currency whose marks are established, or not.
func C15_groups() {
	n := 2 + vx.Choose("groups", 3)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		s += string(digits("group", 1+vx.Choose("size", 4)))
	}
	if vx.Choose("decimals", 2) == 1 {
		s += "." + string(digits("dec", 2))
	}
	if vx.Choose("known", 2) == 1 {
		checkFree("commodity 1,000.00 EUR\n", "", s, ",", ".", 0)
		return
	}
	checkFree("", "", s, "", "", 0)
}
