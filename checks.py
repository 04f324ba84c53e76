# What check.py needs to know of each property.
CHECKS = {
    "P01": dict(note="Fill proved, for every ledger: the postings of an accepted transaction leave nothing, or exactly two currencies"),
    "P02": dict(note="Fill proved, for every ledger: given amounts are kept, missing ones get the exact rest or the asserted amount, a second missing one is refused"),
    "P03": dict(note="Fill proved, for every ledger: the balance in every posting is the sum of its register so far in each currency, canonical, and shares no memory with another"),
    "P04": dict(note="Fill proved, for every ledger: accepted assertions are true, and the error is reported when one is not"),
    "P05": dict(note="Fill proved, for every ledger: in each transaction the postings dated up to any moment add up to nothing before its date and to what the transaction adds up to afterwards, by a pair of transfers for each posting with its own date; the sum over the accounts is that over the transactions (P06 relates both; exchanging the two finite sums is not mechanised)"),
    "P06": dict(note="Fill proved, for every ledger: transactions, registers and prices in chronological order and stable, every posting once in the register of its account and linked to its transaction"),
    "P08": dict(note="every operation of Balance proved against its sum for each currency"),
    "P07": dict(note="Fill, insertAccount and FullName proved: no ledger makes them crash, and accounts, children, parents and levels are as stated, for every forest of accounts"),
    "P11": dict(note="Mul, currencyIn, convert (with its recursion) and Convert proved against the definition of conversion by market prices, termination included"),
    "P12": dict(note="Fill proved, for every ledger: how many prices are added, where each goes and what it states, and that those given are kept"),
    "P13": dict(note="Clone proved, for every ledger: each account, currency, transaction, posting, price, comment, assertion and stated price has one new copy, with the same contents and relations"),
    "P14": dict(note="GetBalance, TransactionsInInterval, TransactionsInAccount and Account proved for all registers and moments"),
    "P09": dict(note="getValue proved, for every text and every state of the currencies: what it accepts is a well-formed number, read exactly; digits with at most one decimal sign are accepted if they fit"),
    "P10": dict(note="GetString, String and FullString proved, for every 64-bit amount and every format, to write the digits of the amount and nothing else"),
    "P15": dict(note="main2 proved, for every ledger and all arguments: the ledger given to a command has exactly the transactions and postings of the period, and its starting balances are those before it"),
    "P16": dict(note="the balance report proved, for every ledger and options: one row for each account asked for, with its final balance restricted or converted, and its total; and everything it prints"),
    "P17": dict(note="the reading of journals proved, for every sequence of lines: nothing crashes it, and the accounts, transactions, postings, prices and currencies of the ledger are as stated"),
    "P18": dict(note="the reading of journals proved, line by line: what each line adds to the ledger, and that it changes nothing else"),
    "P19": dict(note="GetDate proved to accept exactly the texts that some accepted layout accepts, and to return what that layout reads"),
    "P20": dict(note="Open and Register proved: which driver gets which address, every error reported, no result with an error"),
    "P21": dict(note="the reading of text databases proved, line by line: what each line adds to the ledger, and that a file which cannot be read is refused"),
    "P22": dict(note="Export and the command which prints proved, for every ledger: the whole sequence of words, amounts, dates and comments which they write, and where"),
    "P23": dict(note="every access to the table of drivers proved to be made under its lock, and every lock released on every path"),
}

NOT_APPLICABLE = {
    "P24": "it needs a running PostgreSQL server: what is stored is decided by the SQL it executes, which no contract on the Go code can express and which cannot be run here",
}
