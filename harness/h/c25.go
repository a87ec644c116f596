package h

import (
	"github.com/cespedes/accounting/zzvx/vx"
)

// commandList is commands with every option.
var commandList = [][]string{
	{"balance"},
	{"-total", "b", "cash", "job"},
	{"-currency", "EUR", "bal"},
	{"-market", "-e", "2020-01-12", "balance"},
	{"-b", "2020-01-02", "-e", "2020-01-10", "balance"},
	{"-pivot", "box", "balance"},
	{"-pivot", "food", "-pivot", "bank", "-b", "2020-01-02", "balance"},
	{"-b", "2020-01-02", "delta", "cash"},
	{"-negate", "delta", "e"},
	{"-market", "-b", "2020-01-02", "delta", "cash"},
	{"incomestatement"},
	{"-pivot", "bank", "-e", "2020-01-10", "is", "o"},
	{"-total", "is"},
	{"accounts"},
	{"accounts", "-tree"},
	{"print"},
	{"-b", "2020-01-03", "print"},
	{"stats"},
	{"price", "USD"},
	{"-batch", "-e", "2020-01-05", "price", "USD", "GBP"},
}

// richJournal is a journal with everything reports use: amounts of any digits.
func richJournal() string {
	xs, _ := amount("x", 1, 1)
	y := "2.5"
	if vx.Tier() > 0 {
		y, _ = amount("y", 1, 1)
	}
	text := "D 1.00 EUR\ncommodity 1.00 USD\ncommodity 1.0 GBP\n" +
		"account Cash\naccount Cash:Box\naccount Bank\naccount Income:Job\naccount Expense:Food\n" +
		"P 2020-01-03 GBP 2 EUR\n" +
		"2020-01-01 a | first\n  Cash:Box  " + xs + " EUR ; note\n  Income:Job\n" +
		"2020-01-02 b\n  Bank  " + y + " USD\n  Cash:Box  -3 EUR\n" +
		"2020-01-04 c\n  Expense:Food  4 EUR\n  Bank  -1 USD @ 4 EUR ; date:2020-01-08\n" +
		"2020-01-10 d\n  Cash  1 GBP\n  Income:Job\n" +
		"2020-01-12 e\n  Expense:Food  2 EUR\n  Cash:Box\n"
	return text
}

// C25_pairs: any two commands in one invocation print what they print alone.
func C25_pairs() {
	vx.MapOrder(false)
	f := vx.WriteFile("main.journal", richJournal())
	a := commandList[vx.Choose("first", len(commandList))]
	b := commandList[vx.Choose("second", len(commandList))]
	args := append(append(append([]string{"-f", f}, a...), "--"), b...)
	if vx.Choose("last", 2) == 1 {
		args = append(args, "--")
	}
	both := run(args...)
	alone := run(append([]string{"-f", f}, a...)...) + run(append([]string{"-f", f}, b...)...)
	vx.Assert(both == alone, "as-alone")
	vx.Cover("compared")
}

// C25_three: the same of three commands, the first and the last being the same.
func C25_three() {
	vx.MapOrder(false)
	f := vx.WriteFile("main.journal", richJournal())
	a := commandList[vx.Choose("first", len(commandList))]
	b := commandList[vx.Choose("second", len(commandList))]
	args := append(append(append(append(append([]string{"-f", f}, a...), "--"), b...), "--"), a...)
	all := run(args...)
	one := run(append([]string{"-f", f}, a...)...)
	two := run(append([]string{"-f", f}, b...)...)
	vx.Assert(all == one+two+one, "as-alone")
	vx.Cover("compared")
}
