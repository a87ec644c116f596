package h

import (
	"time"

	"github.com/cespedes/accounting/backend/ledger"
	"github.com/cespedes/accounting/zzvx/vx"
)

// num is the number that digits write.
func num(d []byte) int64 {
	var n int64
	for _, c := range d {
		n = 10*n + int64(c) - '0'
	}
	return n
}

// civil counts days from 1970-01-01 to a date of the Gregorian calendar (proleptic), 0 <= y <= 9999.
func civil(y, m, d int64) int64 {
	var before, leap int64
	switch m { // days before the month in a year that is not leap
	case 1:
	case 2:
		before = 31
	case 3:
		before = 59
	case 4:
		before = 90
	case 5:
		before = 120
	case 6:
		before = 151
	case 7:
		before = 181
	case 8:
		before = 212
	case 9:
		before = 243
	case 10:
		before = 273
	case 11:
		before = 304
	case 12:
		before = 334
	}
	// leap days from year 1 to the year before (m <= 2) or to this one
	u := y
	if m <= 2 {
		u = y - 1
	}
	leap = (u+400)/4 - (u+400)/100 + (u+400)/400 - 97
	return 365*(y-1970) + leap - 477 + before + d - 1
}

func monthDays(y, m int64) int64 {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		leap := vx.And(y%4 == 0, vx.Or(y%100 != 0, y%400 == 0))
		return vx.Ite(leap, 29, 28)
	}
	return 31
}

var separators = []string{"-", "/", ".", "_"}

func checkDate(s string, y, m, d []byte) {
	t, err := ledger.GetDate(s)
	mm := num(m)
	if mm < 1 || mm > 12 {
		vx.Cover("bad month")
		vx.Assert(err != nil, "bad-month-refused")
		return
	}
	valid := vx.And(num(d) >= 1, num(d) <= monthDays(num(y), mm))
	if !valid {
		vx.Cover("bad day")
		vx.Assert(err != nil, "bad-day-refused")
		return
	}
	vx.Assert(err == nil, "not-refused")
	vx.Assert(t.Unix() == 86400*civil(num(y), mm, num(d))+43200, "noon-of-that-day")
	vx.Assert(t.Nanosecond() == 0 && t.Location() == time.UTC, "utc")
}

// C18_date: a year, a month and a day, all eight digits any (years 0000 to 9999; quick: the separators "-" or "/",
// thorough: any), against an independent calendar: noon UTC of that day; refused when there is no such day.
func C18_date() {
	y, m, d := digits("year", 4), digits("month", 2), digits("day", 2)
	sep := separators[vx.Choose("sep", 2+2*vx.Tier())]
	checkDate(string(y)+sep+string(m)+sep+string(d), y, m, d)
}

// C18_separators: every pair of separators, all days of all months of the years 1890 to 2099 ending in any digit.
func C18_separators() {
	m, d := digits("month", 2), digits("day", 2)
	y := append([]byte([]string{"189", "190", "200", "202"}[vx.Choose("decade", 4)]), digits("year", 1)...)
	checkDate(string(y)+separators[vx.Choose("sep1", 4)]+string(m)+separators[vx.Choose("sep2", 4)]+string(d), y, m, d)
}

// C18_time: a date (of eight, with any day) followed by an hour, an hour and minute or an hour, minute and second, all
// digits any, in four notations: that instant, or refused when there is no such time of day. The other notations of the
// same instant are equal.
func C18_time() {
	dd := digits("day", 2)
	ym := []string{"2020-02-", "2021-02-", "1999/12/", "2000.02."}[vx.Choose("month", 4)]
	n := 1 + vx.Choose("parts", 3)
	sep := [][2]string{{"/", ":"}, {"-", "-"}, {"_", "."}, {"/", "-"}}
	k := vx.Choose("notation", 4)
	var f [3][]byte
	text, other := "", ""
	for i := 0; i < n; i++ {
		f[i] = digits([]string{"hour", "minute", "second"}[i], 2)
		if i == 0 {
			text, other = sep[k][0], sep[(k+1)%4][0]
		} else {
			text += sep[k][1]
			other += sep[(k+1)%4][1]
		}
		text += string(f[i])
		other += string(f[i])
	}
	date := ym + string(dd)
	t, err := ledger.GetDate(date + text)
	t2, err2 := ledger.GetDate(date + other)
	vx.Assert((err == nil) == (err2 == nil), "same-refusal")
	var y, m int64
	switch ym {
	case "2020-02-":
		y, m = 2020, 2
	case "2021-02-":
		y, m = 2021, 2
	case "1999/12/":
		y, m = 1999, 12
	default:
		y, m = 2000, 2
	}
	h, mi, se := num(f[0]), num(f[1]), num(f[2])
	if vx.And(num(dd) >= 1, num(dd) <= monthDays(y, m), h <= 23, mi <= 59, se <= 59) {
		vx.Assert(err == nil, "not-refused")
		vx.Assert(t.Unix() == 86400*civil(y, m, num(dd))+3600*h+60*mi+se, "that-instant")
		vx.Assert(t.Equal(t2) && t.Nanosecond() == 0, "same-instant")
		vx.Cover("valid")
	} else {
		vx.Assert(err != nil, "no-such-time-refused")
	}
}

// wellFormed: digits where digits belong and separators (":" is taken as one everywhere) between, in one of the four
// lengths.
func wellFormed(s string) bool {
	if len(s) != 10 && len(s) != 13 && len(s) != 16 && len(s) != 19 {
		return false
	}
	for i := 0; i < len(s); i++ {
		switch i {
		case 4, 7, 10, 13, 16:
			if s[i] != '-' && s[i] != '/' && s[i] != '.' && s[i] != '_' && s[i] != ':' {
				return false
			}
		default:
			if !isDigit(s[i]) {
				return false
			}
		}
	}
	return true
}

// C18_malformed: a date of each of the four lengths in which one or two adjacent characters anywhere are replaced by any
// printable ones, left out, or preceded by another: refused unless it still has the form of a date.
func C18_malformed() {
	base := "2019-10-11/12:10:11"[:10+3*vx.Choose("parts", 4)]
	i := vx.Choose("position", len(base))
	const printable = "0123456789-/._:;,+ TZaz()'"
	var s string
	switch vx.Choose("change", 4) {
	case 0:
		s = base[:i] + vx.String("c", 1, printable) + base[i+1:]
	case 1:
		vx.Assume(i+2 <= len(base))
		s = base[:i] + vx.String("c", 2, printable) + base[i+2:]
	case 2:
		s = base[:i] + base[i+1:]
	case 3:
		s = base[:i] + vx.String("c", 1, printable) + base[i:]
	}
	// an hour of one digit and decimals of a second are accepted although not documented
	vx.Assume(len(s) != 12 && len(s) != 15 && len(s) != 18 && len(s) != 20)
	_, err := ledger.GetDate(s)
	if wellFormed(s) {
		vx.Cover("well formed")
		return
	}
	vx.Assert(err != nil, "malformed-refused")
}
