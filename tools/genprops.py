#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/genprops.py > properties.jsonl)
import json
A="accounting.go"; T="types.go"; P="backend/ledger/parser.go"; L="backend/ledger/ledger.go"; X="backend/txtdb/txtdb.go"; M="cmd/ledger/main.go"
out=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    out.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
UT="The two existing tests only format a few literal amounts and parse a few literal strings; "
p("C01","Opening a ledger accepts exactly the balanced transactions",
 "When a ledger opens successfully, the postings of every transaction (taking the total price of a posting instead of its amount when it has one) sum to zero in every currency, except that a transaction whose every posting has an amount may leave a remainder in exactly two currencies, which is an exchange. A ledger holding a transaction that cannot be balanced this way (a non-zero remainder in one currency with no posting to absorb it, three or more currencies left over, or two currencies left over next to a posting without amount) is refused with an error. A ledger in which every transaction balances is never refused.",
 ["inputs"],"all transaction shapes (postings, accounts, currencies, prices, amounts) within the stated sizes, every amount value",
 UT+"no test ever opens a ledger, and an imbalance can hide in any combination of amounts.",
 [A],[("balance loop of Fill","accounting.go:Fill")],["error returned by accounting.Open","Ledger.Transactions[].Splits[].Value"])
p("C02","A posting without amount gets exactly the missing amount",
 "In an opened ledger, a posting that was written without an amount carries exactly the negated sum of the other postings of its transaction (their total prices where given), in the currency of that sum, or zero when the others already balance. Amounts that were written are never changed. A transaction with two postings without amount (and without asserted balance) is refused.",
 ["inputs"],"every position of the posting without amount, all amounts, currencies, prices, transaction shapes within the bounds",
 UT+"inference depends on every amount and on the position of the posting.",
 [A],[("unbalancedSplit inference in Fill","accounting.go:Fill")],["Ledger.Transactions[].Splits[].Value","error of accounting.Open"])
p("C03","Running balances are exact sums of the account's postings",
 "In an opened ledger, the balance recorded at each posting of each account is, for every currency, exactly the sum of the amounts of that account's postings up to and including it in chronological order (input order on ties). A balance lists a currency at most once and never with amount zero. The balance recorded at one posting is never altered by later postings or by changing the balance of another posting.",
 ["inputs","histories"],"all histories of postings over accounts, currencies, dates and amounts within the bounds",
 UT+"nothing exercises Fill; sums that cancel, reappear or interleave currencies are unbounded histories.",
 [A],[("balance pass of Fill, Balance.Add, Balance.Dup","accounting.go:Fill")],["Account.Splits[].Balance"])
p("C04","Balance assertions hold, are enforced, and fix missing amounts",
 "An opened ledger satisfies every balance assertion: after the posting that carries it, the account's balance in the asserted currency equals the asserted amount, where a currency not held counts as zero. A ledger with a false assertion is refused with an error, and a true assertion never causes a refusal. A posting with an assertion but without amount receives exactly the amount that makes the assertion true.",
 ["inputs","histories"],"all histories before the assertion, all asserted amounts (zero included), currencies held or not, with and without amount",
 UT+"no test uses an assertion; truth depends on the whole history of the account.",
 [A],[("assertion handling in the account pass of Fill","accounting.go:Fill")],["error of accounting.Open","Split.Balance","Split.Value"])
p("C05","Opening keeps every posting once and sorts by time, stably",
 "In an opened ledger, transactions and each account's postings are in chronological order, and entries with the same time keep their input order; market prices are in chronological order. Every posting of the input appears exactly once in its transaction and exactly once in its account, and refers back to both. A posting without its own date has the date of its transaction.",
 ["inputs"],"every order and tie pattern of dates over transactions, postings and prices within the bounds",
 UT+"ordering faults need particular permutations and ties.",
 [A],[("sorting and indexing in Fill","accounting.go:Fill")],["Ledger.Transactions","Account.Splits","Ledger.Prices"])
p("C06","The account tree is consistent with the parents given",
 "In an opened ledger, every input account is listed exactly once and after its parent, the children of an account are exactly the accounts naming it as parent, in input order, and an account's level is its number of ancestors. The full name of an account is its ancestors' names and its own joined by colons. This holds for every order in which a backend lists the accounts.",
 ["inputs"],"every forest over the bounded number of accounts, in every listing order",
 UT+"no test builds accounts; wrong levels or lost accounts depend on forest shape and listing order.",
 [A],[("parent/children pass of Fill, insertAccount, FullName","accounting.go:Fill")],["Ledger.Accounts","Account.Children","Account.Level","Account.FullName"])
p("C07","Postings dated apart from their transaction keep the books balanced",
 "When postings of a transaction carry their own dates, the opened ledger completes the transaction with postings on the transfer account so that, for every currency and at every moment, what the transaction has moved so far sums to what it would without those dates only at the end: on each date that occurs in the transaction, the amounts dated then sum to zero (up to a two-currency exchange on the transaction's own date). The transfer account's running balances are exact sums in chronological order and its final balance is zero. A ledger without such postings gets no transfer postings.",
 ["inputs","histories"],"all assignments of dates to postings and all amounts within the bounds",
 UT+"no test dates a posting apart.",
 [A,T],[("fake splits at the end of Fill, TransferAccount","accounting.go:Fill")],["Transaction.Splits","transfer account's Splits and Balance"])
p("C08","Transactions record the exchange rates they imply",
 "A transaction left with exactly two currencies adds, on its date, one price for each direction between them, and a posting with a total price adds, on the posting's date, one price for each direction between its currency and the price's currency. Each recorded rate is the quotient of the two amounts up to rounding of the last stored digit (so it may be zero when the quotient is below 10^-8), and is never negative when an amount is exchanged for an amount of the other currency. Explicit prices are kept unchanged, no other price appears, and amounts of zero imply no price and no failure. Rates that do not fit in 64 bits are outside the claim.",
 ["inputs"],"all pairs of exchanged amounts and prices within the bounds, signs and zero included",
 UT+"no test implies a price; rounding, sign and direction errors appear only for particular amounts.",
 [A],[("automatic prices in Fill","accounting.go:Fill")],["Ledger.Prices"])
p("C09","Currency conversion uses the right market price",
 "Converting an amount to its own currency returns it unchanged. Otherwise, with direct prices between the two currencies, the result is the amount times the rate in effect at that time, exact up to rounding of the last stored digit: the price of that very time, the linear interpolation between the last price before and the first after, or the nearest one when there is none on one side. (Prices more than 292 years apart, and results beyond 64 bits, are outside the claim.) Prices of other currencies never influence a direct conversion, and a conversion impossible through the known prices is reported as an error.",
 ["inputs","histories"],"all price histories, query times and amounts within the bounds",
 UT+"nothing converts; the result depends on times, rates and amounts jointly.",
 [A],[("Convert, Value.Mul","accounting.go:Convert")],["Ledger.Convert"])
p("C10","Currency conversion always terminates",
 "For every set of market prices, including prices that go back and forth between currencies or lead nowhere, converting any amount to any currency, or to no currency at all, terminates with an amount or an error and never crashes or runs forever. When it reports no error, the result is in the requested currency. A conversion through an intermediate currency equals the composition of direct conversions.",
 ["inputs","histories"],"all price graphs over the bounded number of currencies and prices, all times and amounts",
 UT+"cyclic price graphs arise from any two-currency transaction and no test converts at all.",
 [A],[("recursion of Convert through intermediate currencies","accounting.go:Convert")],["Ledger.Convert"])
p("C11","Balance arithmetic is exact, canonical and alias-free",
 "Adding or subtracting amounts and balances changes each currency's amount by exactly the operand and leaves the other currencies alone, whatever the order of operations. A balance never lists a currency twice and never with amount zero, so a balance whose amounts all cancel is empty. A duplicate equals the original and is independent of it: changing either leaves the other as it was, and the operand of an addition or subtraction is never changed.",
 ["inputs","histories"],"all sequences of operations of bounded length over bounded currencies, every amount value",
 UT+"no test touches balances; removal of a cancelled entry depends on its position and the history.",
 [A],[("Balance.Add/Sub/AddBalance/SubBalance/Dup","accounting.go:Add")],["accounting.Balance methods"])
p("C12","The balance at a time counts exactly the postings up to then",
 "The balance of an account at a given time is the sum of its postings dated at or before that time, plus its balance at the start of the current period: the start balance itself (empty for a ledger with no start date) when there is no such posting. Asked for the zero time, it is the current balance, after all postings.",
 ["inputs","histories"],"all posting dates, amounts and query times within the bounds, ties and times before the first posting included",
 UT+"no test queries a balance; errors sit at boundaries between dates.",
 [A],[("GetBalance","accounting.go:GetBalance")],["Ledger.GetBalance"])
p("C13","Queries return exactly the matching transactions, in order",
 "Asking for the transactions between two times returns exactly those dated at or after the start and at or before the end, and asking for the transactions of an account exactly those with a posting in it, each once and in chronological order. Looking an account up by its identifier returns that account, or nothing when no account has it. Queries leave the ledger unchanged.",
 ["inputs"],"all dates, intervals (empty and inverted included) and posting patterns within the bounds",
 UT+"no test queries; boundary and duplicate errors need particular inputs.",
 [A],[("TransactionsInInterval, TransactionsInAccount, Account","accounting.go:TransactionsInInterval")],["Ledger.TransactionsInInterval","Ledger.TransactionsInAccount","Ledger.Account"])
p("C14","A cloned ledger is equal to the original and independent of it",
 "A clone of an opened ledger has the same accounts, transactions, postings, amounts, balances, currencies, prices, assertions, posting prices, comments and default currency, with the same relations among them, including currencies that have no name. No account, transaction, posting, price, currency or list is shared: changing any of it in one of the two never shows in the other. Identity within the clone mirrors the original (a posting of a transaction is the same posting in its account, an amount's currency is the clone's currency).",
 ["inputs","histories"],"all opened ledgers within the bounds and any single change made to either copy",
 UT+"no test clones; sharing shows only after a later mutation.",
 [A],[("Clone","accounting.go:Clone")],["Ledger.Clone"])
p("C15","An amount read from a journal is exactly the number written",
 "Reading an amount either reports an error or yields exactly the decimal number written, to the eighth decimal, with the written sign and currency, whichever side the currency is on and whichever of the punctuation marks . , _ ' separate thousands or decimals. Text that is not a number by the documented grammar, is ambiguous, has more than eight decimals or does not fit the representable range is reported as an error and never read as another number. A well-formed amount that uses the currency's established punctuation is never refused.",
 ["inputs","histories"],"all amount texts over digits, signs, punctuation and currency up to the bounded length, after any bounded history of amounts of the same currency",
 "The parser test tries 17 strings; the punctuation state machine depends on every position and on what earlier amounts established.",
 [P],[("getValue","backend/ledger/parser.go:getValue")],["amounts in the opened ledger","error/diagnostic"])
p("C16","An amount is displayed exactly, with its currency's format",
 "The short form of an amount shows its sign, its integer part grouped in threes by the currency's thousands mark, and exactly the currency's number of decimals truncated from the stored value, with the currency name on the proper side and spacing. The full form is the same except that it shows every non-zero decimal stored, so no information is lost. A balance shows its amounts separated by commas, or 0 when empty.",
 ["inputs"],"every representable amount and every currency format (side, spacing, marks, precision 0 to 8)",
 "The formatting test tries about 30 literals; grouping, truncation and trailing zeros depend on every digit.",
 [A],[("GetString, String, FullString","accounting.go:GetString")],["Value.String","Value.FullString","Balance.String"])
p("C17","Exported amounts read back as the same amounts",
 "For every currency format a journal can establish and every representable amount (but the lowest 64-bit integer, whose negation does not exist), the full form of the amount is read back by the journal reader, after that currency's exported commodity line, as the same amount of the same currency. Reading the commodity line back reproduces the currency's side, spacing, marks and precision.",
 ["inputs"],"all formats (side, spacing, thousands mark, decimal mark, precision) and amounts of every magnitude",
 UT+"writer and reader are never run against each other.",
 [A,P,L],[("FullString against getValue","backend/ledger/parser.go:getValue"),("Export commodity lines","backend/ledger/ledger.go:Export")],["accounting.Open of an exported journal"])
p("C18","Dates are read as the calendar date and time written",
 "A date written year, month, day with -, /, . or _ between them denotes noon UTC of that calendar day, and one followed (after -, /, ., _ or :) by an hour, an hour and minute, or an hour, minute and second denotes that instant. Years have four digits, months, days and hours two. A date that does not exist in the calendar or is malformed is refused. Dates written in different notations for the same instant are equal.",
 ["inputs"],"every digit of every notation within the bounded years, every separator choice",
 UT+"no test parses a date.",
 [P],[("GetDate","backend/ledger/parser.go:GetDate")],["ledger.GetDate","Transaction.Time"])
p("C19","A journal is read as the transactions, postings and prices written",
 "Reading a journal yields one transaction per transaction line, with its date and description, and within it one posting per posting line in order, with the account, amount, price (unit prices multiplied by the amount), asserted balance, own date and comments written there. Price, commodity, default-currency, account and include lines take effect likewise, included files being read in place; accounts and currencies with the same name are the same. Comments, blank lines and indentation never change amounts, accounts or dates.",
 ["inputs"],"all bounded journals built from the documented line kinds, with symbolic names, amounts, comments and layout",
 UT+"no test reads a journal.",
 [P],[("readJournal, getAccount, addComment, Scanner","backend/ledger/parser.go:readJournal")],["ledger opened from the journal"])
p("C20","No journal text can crash the program",
 "Opening a journal with any content whatsoever ends in an opened ledger or a reported error, never in a crash or an endless run. A ledger opened from any such text can then be cloned, exported, displayed and queried without crashing, and no command of the ledger program, with any period, pattern, currency or pivot, crashes on it: it prints its report or an error.",
 ["inputs"],"every byte string up to the bounded length at the bounded positions of a journal",
 UT+"crashes hide in rare combinations of directives, prices of zero, precision and comments.",
 [P,A,L],[("readJournal, getValue, Fill, Export, GetString","backend/ledger/parser.go:readJournal")],["process outcome of accounting.Open and ledger.Export"])
p("C21","Unreadable data is reported, never silently dropped",
 "If the journal file cannot be opened, or reading it or a file it includes fails at any point, opening the ledger reports an error instead of presenting a ledger built from part of the data. The same holds for an included file that does not exist, for a journal line too long to be read, and for the data files of the text database (except that a database without a transactions file has no transactions).",
 ["fault_sequences","inputs"],"every point at which opening or reading a file can fail, for every bounded journal",
 UT+"no test injects a read failure.",
 [P,L,X],[("readJournal error returns, Open","backend/ledger/ledger.go:Open"),("conn.read","backend/txtdb/txtdb.go:read")],["error of accounting.Open"])
p("C22","An exported ledger opens as the same books",
 "The text exported from an opened ledger opens again without error, and gives the same transactions (dates, descriptions, postings, accounts, amounts, posting prices, assertions), the same balances for every account at every time, and the same market prices. Exporting that ledger again gives the same transactions and balances. (Outside the claim: names with blanks before a colon, comments, account codes, and amounts without currency in a ledger whose default currency has a name.)",
 ["inputs","histories"],"all opened ledgers within the bounds (amounts, currencies, formats, dates, posting dates, prices)",
 UT+"the exporter is never run.",
 [L,P,A],[("Export against readJournal","backend/ledger/ledger.go:Export")],["ledger.Export","accounting.Open"])
p("C23","The balance report shows the true balances and their total",
 "The balance command shows for every selected account its balance at the end of the period, and the total it prints is, per currency, the sum of the balances of exactly the selected accounts, each counted once however many patterns match it or its ancestors. With no pattern the total is zero in every currency unless transactions exchange currencies. Restricting to currencies keeps exactly those currencies, and market valuation converts each amount at the end date.",
 ["inputs","configurations"],"all bounded ledgers, patterns and option combinations",
 UT+"no test runs the command.",
 [M],[("runBalance, insertAccount","cmd/ledger/main.go:runBalance")],["standard output of the ledger command"])
p("C24","Period options select exactly the postings in the period",
 "With a begin and/or end date (year, month, day or finer), reports count exactly the postings and transactions dated at or after the begin and at or before the end, a year, month or day given as end meaning its last second. The balance before the begin date is carried as the start balance. Reports for consecutive periods therefore add up to the report of the joint period.",
 ["inputs","configurations"],"all posting dates against all period bounds and granularities within the bounds",
 UT+"no test runs a report; errors sit at period boundaries and on empty periods.",
 [M],[("date options in main2","cmd/ledger/main.go:main2")],["standard output of the ledger command"])
p("C25","Commands run in one invocation do not influence each other",
 "Several commands given in one invocation, separated by --, each print exactly what they would print alone, whatever options, filters or pivots the others use. Running reports never alters the ledger they report on.",
 ["configurations","inputs"],"all ordered pairs of bounded commands and options over bounded ledgers",
 UT+"no test runs the command line.",
 [M,A],[("main splitting of arguments, Clone per command","cmd/ledger/main.go:main")],["standard output of the ledger command"])
p("C26","Income statement, delta and pivot reports add up",
 "The delta report prints, per currency, exactly the sum of the selected accounts' postings in the period, each account once, negated on request. The income statement lists for each income account (those below Income) the negated sum and for each expense account (those below Expense) the sum of its postings in the period, and its net is the income total minus the expense total. Restricting to a pivot makes every report count exactly the transactions that involve a matching account.",
 ["inputs","configurations"],"all bounded ledgers, periods, patterns and pivots",
 UT+"no test runs these reports.",
 [M],[("runDelta, runIncomeStatement, doPivot","cmd/ledger/main.go:runDelta")],["standard output of the ledger command"])
p("C27","The text database is read as the accounts and movements it holds",
 "Opening a text database yields one account per well-formed account line with its name, code and parent (a line listed before it), and one transaction per group of consecutive movement lines that adds up to zero, with the date and description of its first movement, each movement with its account, date and exact amount to the cent. A movement giving a balance instead of an amount receives the amount that leads to that balance. Malformed account lines, and movement lines with a wrong number of fields, date, account, sign or number, are skipped without affecting the others.",
 ["inputs"],"all bounded files built from account and movement lines, with symbolic amounts and identifiers",
 UT+"no test opens a text database.",
 [X],[("conn.read","backend/txtdb/txtdb.go:read")],["ledger opened from the database"])
p("C28","Ledgers opened in one process are independent",
 "Opening a ledger gives the same result whatever ledgers were opened before it in the same process, and opening another ledger later does not change it. Filling an opened ledger again changes nothing. An address whose scheme has no registered backend is refused with an error, and registering a backend under a name in use or without a driver is rejected.",
 ["histories","inputs"],"all ordered pairs of bounded ledgers opened in one process",
 UT+"no test opens even one ledger; shared package-level state shows only with two.",
 [A],[("Open, Register, TransferAccount","accounting.go:Open")],["accounting.Open","accounting.Register"])
p("C29","The PostgreSQL backend loads the accounts and movements stored",
 "Opening a PostgreSQL database yields its accounts with their parents and its transactions with their splits, each amount equal to the stored numeric value. A query failure is reported as an error.",
 ["inputs","fault_sequences"],"all database contents",
 "No test has a database.",
 ["backend/postgres/postgres.go"],[("getAccounts, getTransactions","backend/postgres/postgres.go:getTransactions")],["accounting.Open"])
p("C30","The momentum tool prints the mean relative price change over its periods",
 "For each commodity asked for, in that order, the momentum tool prints on a line of its own, to six decimals and with the name of the commodity, the mean, over the requested number of measures, of its price at the end date divided by its price one, two, and so on, measuring periods before the end date, minus one. Prices are those of the ledger in its default currency; a period is a number of months, of days, or of both. It is defined whenever the commodity has a price and the earlier ones are not zero. Periods and dates which are neither are refused, with an error exit and nothing printed.",
 ["inputs"],"all price histories and periods",
 "No test runs the tool.",
 ["cmd/muscular/main.go"],[("momentum loop of main2","cmd/muscular/main.go:main2")],["standard output of the muscular command"])
p("C31","The accounts, price and stats commands print what the ledger holds",
 "The accounts command lists every account of the ledger exactly once, each after its parent, by its full name or, as a tree, by its own name indented two columns per level, whatever the period. The price command prints for each commodity the value of one unit of it, in the default currency at the end date, with all its decimals, only that value in batch mode, and fails for a commodity without a price. The stats command gives the dates of the first and last transactions of the period with the days they span, and the numbers of transactions in the period, of accounts, of currencies with their names, and of prices.",
 ["inputs","configurations"],"all bounded journals, periods and options",
 UT+"no test runs these commands.",
 [M,A],[("runAccounts, runPrice, runStats","cmd/ledger/main.go:runAccounts")],["standard output of the ledger command"])
p("C32","Requests to a ledger reach its own backend and bring back its answers",
 "When a backend implements looking up an account, listing the transactions of an account or between two times, adding or changing accounts or transactions, or flushing, the ledger passes each such request once, with its arguments unchanged, to the connection it was opened with and to no other, and returns its answer and error unchanged. Otherwise it reports that the change is not implemented (and nothing for a flush) and stays as it was. Closing and refreshing always reach that connection. A clone of a ledger uses the connection of its original. When a backend fails to open, its error is returned and no ledger.",
 ["histories","inputs"],"all requests with any arguments to any of two open ledgers of backends that implement everything or nothing",
 UT+"no test has a backend which implements any of these requests.",
 [A],[("Account, TransactionsInAccount, NewAccount, EditTransaction, Flush, Close","accounting.go:NewAccount")],["methods of accounting.Ledger"])
p("C33","The ledger program refuses unknown journals, dates, commands and options",
 "The ledger program reports on the journal named by a first option -f or, without it, by the variable LEDGER_FILE. With none, or one which cannot be opened as a ledger, with a begin or end which is not a year, a month, a day or a time of one, or with a command or an option that does not exist, it ends with an error status and prints nothing for that command nor for those after it. A command given by an abbreviation it has prints the same as by its full name, and the commands that exist are accounts (a), balance (bal, b), stats, print, incomestatement (is), delta and price.",
 ["inputs"],"all command lines made of options, dates and commands",
 "No test runs the program.",
 ["cmd/ledger/main.go"],[("commands, main and main2","cmd/ledger/main.go:main2")],["standard output and exit status of the ledger command"])
p("C34","The screen of accounts shows every balance and every movement",
 "The program tacc, given a journal or a text database, shows a table with one row per account of the ledger, in its order, with the full name of the account and its balance after all its postings. Choosing an account shows a table with one row per posting of it and no other, in chronological order (input order on ties), with the date of the posting (day, month and year), the description of its transaction, its amount (blank or 0 if it is zero) and the balance of the account after it. With no books, more than one, or some which cannot be opened it shows no table and ends with an error status.",
 ["inputs"],"all journals and databases within the bounds, every account chosen or none",
 "No test runs the program.",
 ["cmd/tacc/main.go"],[("tableAccounts, tableTransactions","cmd/tacc/main.go:tableAccounts")],["tables given to the tableview module, exit status of the tacc command"])
for o in out: print(json.dumps(o,ensure_ascii=False))
