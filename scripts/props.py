import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
A="accounting.go"; L="backend/ledger/ledger.go"; R="backend/ledger/parser.go"; M="cmd/ledger/main.go"; X="backend/txtdb/txtdb.go"
none="The repository has two tests (one amount formatting table, one amount parsing table); nothing in them "
p("P01","Every accepted transaction balances",
 "When the automatic fields of a ledger are computed without an error, the postings of every transaction (each counted at its stated total price if it has one, otherwise at its own value) add up to zero in every currency, or else leave amounts in exactly two currencies. A ledger holding a transaction with no missing amount which leaves one currency, or three or more, is refused with an error.",
 ["inputs","histories"],"every ledger: any number of accounts, transactions, postings, currencies and stated prices",
 none+"fills a ledger, and the sums range over unboundedly many postings and currencies.",
 [A],[("balancing loop of Fill",A+": Fill"),("Balance.Add",A+": (*Balance).Add")],["Ledger.Fill","Split.Value","Ledger.SplitPrices"])
p("P02","Only missing amounts are filled in, and exactly",
 "Computing the automatic fields never changes the amount or currency of a posting which had one. A posting without amount gets exactly the value which makes its transaction add up to zero or, when it carries a balance assertion, the value which takes its account to the asserted amount; a transaction with two postings having neither amount nor assertion is refused.",
 ["inputs","histories"],"every ledger and every combination of missing amounts and balance assertions, over any number of transactions",
 none+"fills a ledger; the order in which amounts are deduced depends on the whole history.",
 [A],[("balancing loop of Fill",A+": Fill"),("assertion loop of Fill",A+": Fill")],["Split.Value after Ledger.Fill"])
p("P03","Running balances are exact",
 "When the automatic fields of a ledger are computed without an error, the balance stored in every posting is the sum, currency by currency, of the values of all the postings of the same account up to and including it in chronological order. It holds at most one entry for each currency and none of them is zero, and changing it does not alter the balance of any other posting.",
 ["inputs","histories"],"every ledger: any number of accounts, postings and currencies, in any order of entry",
 none+"fills a ledger; the sums range over unboundedly many postings.",
 [A],[("account loop of Fill",A+": Fill"),("Balance.Add, Dup",A+": (*Balance).Add, Balance.Dup")],["Split.Balance"])
p("P04","Accepted balance assertions are true",
 "When the automatic fields of a ledger are computed without an error, the running balance of every posting which has a balance assertion holds exactly the asserted amount of the currency of the assertion (no entry for that currency counts as zero). If any assertion is false, an error is reported.",
 ["inputs","histories"],"every ledger and every set of balance assertions, including assertions of zero and in currencies the account does not hold",
 none+"uses an assertion.",
 [A],[("assertion loop of Fill",A+": Fill")],["Ledger.Assertions","Split.Balance"])
p("P05","Books balance at every date",
 "When the automatic fields of a ledger are computed and each of its transactions adds up to zero in every currency, then at any moment the sum over all the accounts (the automatic transfer account included) of the values of the postings dated up to that moment is zero in every currency. To that end, each posting dated differently from its transaction comes with exactly two postings in the transfer account: its opposite at its own date, and its value at the date of the transaction.",
 ["inputs","histories"],"every ledger, including postings with dates of their own before or after the date of the transaction",
 none+"fills a ledger, or uses postings with their own date.",
 [A],[("transfer splits in Fill",A+": Fill")],["Ledger.Accounts[i].Splits"])
p("P06","Registers are complete, chronological and stable",
 "After the automatic fields of a ledger are computed, its transactions, its market prices and the postings of each account are in chronological order, and those with the same date keep the order in which they were entered. Every posting of a transaction appears exactly once in the register of its account, linked to its transaction, and registers hold nothing else.",
 ["inputs","histories"],"every ledger, for any order of entry and any number of repeated dates",
 none+"sorts or registers anything.",
 [A],[("stable sorts in Fill",A+": Fill")],["Ledger.Transactions","Account.Splits","Ledger.Prices"])
p("P07","The account tree is consistent",
 "After the automatic fields of a ledger are computed, the list of accounts has the same accounts as before (plus the transfer account), each account comes right after its parent or a descendant of a previous sibling (depth-first order), and lists as children exactly the accounts which name it as parent, in their former order. The level of an account is the number of its ancestors, and its full name is the names of its ancestors and its own, joined by colons.",
 ["inputs"],"every forest of accounts listed parents first, of any size and depth",
 none+"builds an account tree.",
 [A],[("insertAccount",A+": insertAccount"),("Account.FullName",A+": Account.FullName")],["Ledger.Accounts","Account.Children","Account.Level","Account.FullName"])
p("P08","Balance arithmetic is exact and canonical",
 "Adding or subtracting a value or another balance to a balance changes the amount held in each currency by exactly what was added or subtracted, and leaves the other operand and every other balance untouched. A balance built this way has at most one entry for each currency and no zero entry, and a duplicate has the same amounts and shares nothing with the original.",
 ["inputs","histories"],"every balance, value and sequence of operations, for amounts whose results fit in 64 bits",
 none+"calls the arithmetic of balances.",
 [A],[("Balance.Add",A+": (*Balance).Add"),("Sub, AddBalance, SubBalance, Dup",A)],["Balance"])
p("P09","Amounts are read exactly or rejected",
 "Reading the text of an amount gives exactly the decimal number written (a hundred-millionth is the smallest unit), with its sign, whatever the position of the currency, or it reports an error. A text which is not an amount, with a misplaced thousand sign, too many decimals or out of the range of an amount is never read as a different number.",
 ["inputs"],"every text",
 "The test of amount reading tries a few dozen texts; the grammar has unboundedly many combinations of signs, separators and currency positions.",
 [R],[("getValue",R+": getValue")],["value of each posting read from a journal"])
p("P10","Amounts are written exactly",
 "The full text of an amount denotes exactly its value: sign, integer part grouped in thousands if its currency says so, and decimals cut only where the remaining ones are zero. The short text has exactly the number of decimals of the currency, obtained by dropping the rest, and the currency name is put before or after, with or without a space, as its definition says, for every amount from the lowest to the highest possible.",
 ["inputs"],"every 64-bit amount, and every display format of a currency, with zero to eight decimals",
 "The test of amount formatting tries a table of a few dozen values; sign, precision, thousands and extremes multiply.",
 [A],[("Value.GetString",A+": Value.GetString")],["Value.String, Value.FullString"])
p("P11","Currency conversion follows the market prices",
 "Converting a value to its own currency returns it unchanged; otherwise, if there are direct prices, the exact price of that moment is used, or the interpolation in time between the closest ones before and after, or the only closest one. With no direct price it goes through intermediate currencies, and it always ends, with an error when no chain of prices exists.",
 ["inputs"],"every list of prices sorted by date (cycles, repeated and missing dates included), every value, moment and pair of currencies",
 none+"converts a value; recursion depth and the price graph are unbounded.",
 [A],[("Ledger.Convert",A+": Ledger.convert"),("Value.Mul",A+": (*Value).Mul")],["Ledger.Convert"])
p("P12","Automatic prices state what was exchanged",
 "Computing the automatic fields adds, for each transaction left with two currencies and for each posting with a stated total price (none of the amounts being zero), exactly two market prices dated like the transaction or posting: one for each direction, being the quotient of the two exchanged amounts truncated to the smallest unit. No other price is added or altered, the result does not vary from run to run, and no ledger makes it divide by zero.",
 ["inputs"],"every ledger, including zero amounts and any number of priced postings",
 none+"fills a ledger; iteration order of maps varies from run to run.",
 [A],[("automatic prices in Fill",A+": Fill")],["Ledger.Prices"])
p("P13","A clone is faithful and independent",
 "A clone of a ledger has the same accounts, currencies, transactions, postings, prices, comments, assertions and stated prices, with the same contents and the same relations among them. It shares no account, currency, transaction, posting, price, or list of these with the original, so no change in one is visible in the other.",
 ["inputs","histories"],"every ledger whose accounts are listed parents first, with any shape of accounts, postings and comments",
 none+"clones a ledger.",
 [A],[("Ledger.Clone",A+": Ledger.Clone")],["Ledger.Clone"])
p("P14","Queries by date and account are exact",
 "The balance of an account at a moment is the one stored in its last posting not after that moment, or its starting balance if there is none; the zero moment means the last posting of all. The transactions in an interval are exactly those not before its start and not after its end, and the transactions of an account exactly those with some posting in it, once each, in order.",
 ["inputs"],"every register sorted by date, every moment, interval and account",
 none+"queries a ledger.",
 [A],[("GetBalance, TransactionsInInterval, TransactionsInAccount",A)],["Ledger.GetBalance","Ledger.TransactionsInInterval","Ledger.TransactionsInAccount"])
p("P15","Reports for a period use exactly that period",
 "With a beginning date, an ending date or both, the reports of the command line use exactly the transactions, and in every account exactly the postings, dated on or after the beginning and not after the ending (a year, month or day given as ending lasts until its last second); the starting balance of every account is its balance before the beginning, and its final balance that of its last posting not after the ending. Without dates everything is used.",
 ["inputs","configurations"],"every ledger, and every beginning and ending date",
 none+"runs the command line.",
 [M],[("filtering in main2",M+": main2")],["output of ledger balance, accounts, print, with -b and -e"])
p("P16","Report totals equal the sum of their parts",
 "In the balance report every account (or, if names are given, every account whose full name contains one of them, and their descendants) is shown once, with the amount of each currency in its final balance, restricted to the currencies asked for or converted to market value if so requested. The total shown is the sum of the amounts of all the accounts shown, and no account with a balance is left out.",
 ["inputs","configurations"],"every ledger and every combination of the options of the report",
 none+"runs the command line.",
 [M],[("runBalance",M+": runBalance")],["output of ledger balance"])
p("P17","Reading a journal never crashes",
 "Reading any journal text ends with either a ledger or an error, without a crash (entries out of chronological order, or accounts defined twice, end the program with a message). In the ledger it returns every posting belongs to an account and a transaction of that ledger, every account has its parent listed before it, every price is of a currency, and every price and amount which is not zero is in a currency, which is one of the ledger unless it has no name; every currency can be printed (it has from zero to eight decimals).",
 ["inputs"],"every sequence of lines of text, however malformed",
 "The existing tests read a few amounts; no journal is ever loaded by them, much less a malformed one.",
 [R,L],[("readJournal",R+": readJournal"),("NewFile, Line",R)],["accounting.Open of a journal"])
p("P18","A journal is read faithfully",
 "In a journal which is read without error nor warning, each transaction, posting, account, currency, price, stated price and balance assertion of the text appears in the ledger exactly once, with the written date, description, account, amount and comments (except those which state a date, a code or an identification number, which are stored as such), and nothing else appears but the parents of the accounts. Included files are read in the place of the inclusion.",
 ["inputs"],"every well-formed journal, with included files",
 "No test reads a journal.",
 [R],[("readJournal",R+": readJournal"),("addComment, getTag",R)],["ledger returned by accounting.Open"])
p("P19","Dates are read exactly or rejected",
 "The text of a date (year, month and day, optionally followed by the hour, the minute and the second, with any of the separators - / _ : . between them) gives the moment it denotes in universal time, which is noon for a date alone; any other text is rejected with an error and never read as a different date.",
 ["inputs"],"every text",
 "No test reads a date.",
 [R],[("GetDate",R+": GetDate")],["dates of the transactions, postings and prices of a journal"])
p("P20","Data sources are opened by their own driver",
 "Opening a data source uses the driver registered with the scheme of its address, or the plain file driver if it has none, gives it that address, and returns its ledger; an address which cannot be parsed, an unknown scheme or an error of the driver is returned as an error with no ledger. Registering two drivers with the same name, or an invalid one, is refused.",
 ["inputs","configurations"],"every address and every set of registered drivers",
 "No test opens a data source with an unknown or failing driver.",
 [A],[("Open, Register",A+": Open, Register")],["accounting.Open","accounting.Register"])
p("P21","Text databases are loaded completely or refused",
 "Opening a text database gives a ledger in which every well-formed line of the file of accounts (six fields, the first a number) appears once, as an account with the written identifier, name and code, under the account which last had the written parent number before it, if any. When the reading gives no warning, every line of the file of transactions with seven fields and an amount or a balance appears once, as a posting with the written date, account and amount (to hundredths, in the currency of the database), or with no amount and the written balance asserted, in transactions with the date and description of their first posting, which end as soon as they add up to zero. A missing file of accounts, or any file which cannot be read to its end, gives an error and no ledger.",
 ["inputs"],"every set of files in the database directory",
 "No test opens a text database.",
 [X],[("read",X+": read"),("Open",X+": Open")],["accounting.Open of a text database"])
p("P22","Printing writes everything once, in full precision",
 "Printing a ledger, or exporting it, writes each account, currency, transaction, posting and price exactly once with its comments, transactions and prices together in chronological order (a transaction before the prices of its moment) and each in the order of the ledger, every amount, stated price and balance assertion in full precision, so that none is altered by writing it. It changes nothing in the ledger.",
 ["inputs"],"every ledger",
 "No test prints or exports a ledger.",
 [L,M],[("Export",L+": Export"),("runPrint",M+": runPrint")],["output of ledger print"])
p("P23","The driver registry is free of races and deadlocks",
 "Every access to the set of registered drivers happens while holding its lock, exclusively when changing it, and the lock is free again when registering or opening ends, with or without an error or a refusal.",
 ["schedules","inputs"],"every interleaving of registrations and openings, every outcome of each of them",
 "The tests never register or open concurrently, and a test can only sample some schedules.",
 [A],[("driversMu",A+": Open, Register")],["accounting.Open","accounting.Register"])
p("P24","The database backend stores what it is given",
 "Everything written through the database backend (accounts, transactions, postings, currencies, prices) is returned unchanged when the ledger is opened again, and a failed operation leaves the database as it was.",
 ["inputs","histories","crash_points"],"every sequence of edits",
 "No test uses the database backend.",
 ["backend/postgres/postgres.go"],[("queries","backend/postgres/postgres.go")],["accounting.Open of a database"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
