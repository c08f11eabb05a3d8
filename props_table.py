A = "inputs"
H = "histories"
CFG = "configurations"
T = "cmd/coin."
C = "coin."

prop("C01", "A ledger is accepted only if every single-commodity transaction balances",
 "When a ledger is resolved, every transaction whose accounts share one commodity must have posting amounts summing to exactly zero, or exactly one posting without an amount, which then receives exactly the negated sum of the others; anything else (non-zero sum, two missing amounts, a missing amount in a transaction mixing commodities) is rejected with an error naming the transaction. No accepted posting is left without an amount, and no balanced transaction is rejected.",
 [A], "every ledger: any number of transactions and postings, amounts of any size, sign and number of decimals, any mix of commodities",
 "tests resolve a few small transactions; the guarantee ranges over all posting lists, elided positions and commodity mixes",
 ["coin.go", "amount.go", "check/check.go"],
 [("transaction balancing and elided amount", "coin.go:ResolveTransactions"), ("exact addition and negation", "amount.go:AddIn,adjustedTo,IsZero,Negated,NewZeroAmount"), ("aborting checks", "check/check.go:If,NoError")],
 [C+"ResolveAll", C+"ResolveTransactions", C+"Amount.AddIn", C+"Amount.adjustedTo", C+"Amount.IsZero", C+"Amount.Negated", C+"NewZeroAmount", C+"NewAmount", "check.If", "check.NoError", "check.OK"],
 state=[("Transactions", "all transactions read", "transaction.go"), ("Posting.Quantity", "amount of a posting, nil when elided in the source", "posting.go")],
 observe=["exit status and stderr of any command loading the ledger", "register and balance amounts"])

prop("C02", "Amounts are exact decimals; excess digits are dropped toward zero",
 "Every amount is held as an exact integer number of its commodity's smallest unit: reading a decimal, adding, negating, multiplying by a price and changing the number of decimals never use inexact arithmetic and never lose digits the commodity can hold. Digits beyond the commodity's decimals are dropped toward zero, for negative amounts as for positive ones, and comparisons compare the exact values at the receiver's precision.",
 [A], "all decimal strings, all integer values of any size and sign, all pairs of decimals",
 "unit tests sample a handful of values; rounding and sign errors show only for particular digit/decimals/sign combinations",
 ["amount.go", "pow10.go", "commodity.go", "gnucash/gnucash.go"],
 [("parsing", "amount.go:parseAmount"), ("scaling", "amount.go:adjustedTo, pow10.go:bigPow10"), ("fractions and floats", "amount.go:NewAmountFrac, commodity.go:NewAmountFloat"), ("gnucash fractions", "gnucash:mustParseAmount")],
 [C+"parseAmount", C+"MustParseAmount", C+"NewAmountFrac", C+"NewZeroAmount", C+"NewAmount", C+"Amount.Copy", C+"Amount.adjustedTo", C+"Amount.AddIn", C+"Amount.Times", C+"Amount.Negated", C+"Amount.Magnitude", C+"Amount.CmpMagnitude", C+"Amount.IsBigger", C+"Amount.IsSmaller", C+"Amount.IsZero", C+"Amount.Cmp", C+"Amount.IsEqual", C+"Amount.IsLessThan", C+"Amount.IsMoreThan",
  C+"bigPow10", C+"pow10", C+"log10", C+"bigLog10", C+"init_pow10", C+"Commodity.NewAmountFloat", C+"Commodity.SetFraction", "gnucash.mustParseAmount", C+"Amount.Format", C+"big1", C+"big10", C+"big100", C+"big1000", C+"big10000"],
 observe=["amounts printed by every command"])

prop("C03", "Reporting never changes recorded amounts",
 "Once a ledger is loaded, the amounts of its postings, asserted balances and prices stay as recorded whatever report is computed: totals, cumulative sums, merged rows and running balances are accumulated only in amounts created for that purpose, never in an amount that some posting, price or other total also refers to. Running two reports one after the other gives the same output as running each alone.",
 [A, H], "every ledger and every sequence of commands run in one process (as coin test does)",
 "aliasing shows only when a later reader looks at an amount an earlier report wrote to; tests run one report each",
 ["amount.go", "account.go", "cmd/coin/totals.go", "cmd/coin/balance.go", "cmd/coin/postings.go"],
 [("copies before accumulation", "cmd/coin/totals.go:Copy,AddIn,add,makeCumulative; account.go:CheckPostings"), ("in-place arithmetic on owned amounts only", "amount.go:AddIn")],
 [T+"timeTotals.merge", T+"timeTotals.mergeTotals", T+"accountTotals.mergeTime", T+"accountTotals.makeCumulative", T+"accountTotals.magnitudes", T+"accountTotals.sanitize", T+"accountTotals.top", T+"cmdRegister.aggregatedRegister", T+"cmdRegister.fullRegister", C+"Commodity.Convert", C+"Amount.AddIn", C+"Amount.Magnitude", C+"Amount.Negated", C+"Amount.Times", C+"ResolveTransactions", C+"Account.CheckPostings", C+"Account.Balance", C+"Amount.Copy", C+"Amount.adjustedTo", T+"timeTotal.Copy", T+"timeTotal.AddIn", T+"timeTotals.add", T+"timeTotals.makeCumulative", T+"timeTotals.cumMagnitude", T+"timeTotals.newTotal", T+"cmdBalance.execute", T+"postings.totals", C+"Transaction.MergeDuplicate", C+"Commodity.convert", C+"Amount.Format"],
 rules=["report-effects"],
 state=[("Posting.Quantity / Posting.Balance / Price.Value", "recorded amounts", "posting.go, price.go")])

prop("C04", "An amount that cannot be added or converted is never silently dropped",
 "Whenever adding two amounts needs a conversion for which no price exists, the operation stops with an error (or hands the error to its caller, which stops); no total, balance, running balance or aggregated row ever omits an amount because its addition failed. A failed addition leaves the accumulator unchanged.",
 [A], "every ledger with any mix of commodities and any set of prices, in every report",
 "the tests' ledgers have prices for every conversion they need; the failing branches are never taken",
 ["amount.go", "commodity.go", "coin.go", "account.go", "cmd/coin/totals.go", "cmd/coin/balance.go", "cmd/coin/postings.go"],
 [("error from conversion", "amount.go:AddIn, commodity.go:Convert,convert"), ("checked additions", "cmd/coin/totals.go, cmd/coin/balance.go, account.go:CheckPostings, coin.go:ResolveTransactions")],
 [T+"timeTotals.merge", T+"timeTotals.mergeTotals", T+"accountTotals.mergeTime", T+"accountTotals.makeCumulative", T+"accountTotals.magnitudes", T+"accountTotals.sanitize", T+"accountTotals.top", C+"Account.Balance", T+"cmdRegister.aggregatedRegister", C+"Amount.AddIn", C+"Commodity.Convert", C+"Commodity.convert", C+"Commodity.includedIn", C+"Account.CheckPostings", C+"ResolveTransactions", T+"timeTotal.AddIn", T+"timeTotals.add", T+"timeTotals.makeCumulative", T+"timeTotals.cumMagnitude", T+"cmdBalance.execute", T+"postings.totals", T+"cmdRegister.fullRegister", T+"timeTotals.Commodity", "check.NoError"])

prop("C05", "Running balances follow posting order and failed assertions are reported",
 "For every account the balance recorded after each posting is the exact sum of that account's posting amounts up to and including it, in date order with ledger order kept within a day; an asserted balance is kept as asserted. Every assertion that differs from the running balance is reported on standard error with the account, date, both amounts and the transaction's location, and no assertion that agrees is reported.",
 [A], "all accounts, all posting sequences with any dates and same-day ties, any assertions",
 "tests assert a couple of balances; ordering ties, out-of-order dates and assertion mismatches in the middle of a sequence are not sampled",
 ["account.go", "coin.go", "check/warn/warn.go", "amount.go"],
 [("running balance", "account.go:CheckPostings,Balance"), ("order", "account.go:sortPostings,addPosting,findPosting"), ("report", "check/warn/warn.go:If")],
 [C+"Account.CheckPostings", C+"Account.Balance", C+"Account.sortPostings", C+"Account.addPosting", C+"Account.findPosting", C+"ResolveTransactions", C+"Amount.Cmp", C+"Amount.IsEqual", C+"Amount.adjustedTo", C+"Amount.AddIn", C+"Amount.Copy", "check/warn.If", C+"AccountsDo", T+"postings.totals", T+"cmdRegister.fullRegister"],
 state=[("Account.balance", "running balance of an account", "account.go"), ("Posting.Balance", "account balance as of a posting", "posting.go")],
 observe=["stderr of any loading command", "balance column of register"])

prop("C06", "Accounts and transactions always list the same postings",
 "Every posting of a posted transaction is listed exactly once by its own account and by no other, in date order, whatever sequence of posting, moving and dropping of transactions happened; moving a posting to another account changes only that posting, and dropping transactions removes exactly their postings. A transaction posted between two accounts has exactly two postings of opposite amounts, the one with the non-negative amount listed first.",
 [A, H], "all interleavings of post, move and drop, all date orders and same-day ties, all slice capacities",
 "index arithmetic on insertion, deletion and same-day search depends on positions and capacities the few tests do not reach",
 ["account.go", "posting.go", "transaction.go"],
 [("ordered insert/delete/find", "account.go:addPosting,deletePosting,findPosting,sortPostings"), ("move and drop", "posting.go:MoveTo,drop; transaction.go:drop,DropTransactions"), ("posting", "transaction.go:Post,PostConversion")],
 [C+"Account.addPosting", C+"Account.deletePosting", C+"Account.findPosting", C+"Account.sortPostings", C+"Posting.MoveTo", C+"Posting.drop", C+"Transaction.drop", C+"DropTransactions", C+"Transaction.Post", C+"Transaction.PostConversion", C+"Transaction.Other", "cmd/csv2coin.transactionFrom", "gnucash.resolveSplits"],
 state=[("Account.Postings", "postings of an account in date order", "account.go"), ("Transaction.Postings", "postings of a transaction", "transaction.go")])

prop("C07", "An account name or pattern denotes exactly one account or is an error",
 "Looking up an account by its full name always gives that account. A pattern that is not a full name is accepted only if it matches exactly one account, or if the first match in name order is an ancestor of all other matches; otherwise the lookup fails listing the candidates, and no pattern ever silently selects one of several unrelated accounts. Pattern words match case-insensitively and in order, a single colon crossing at least one level and a double colon any number of levels.",
 [A], "all account trees and all patterns",
 "tests look up a few patterns in one small tree; ambiguity depends on the whole set of names",
 ["coin.go", "gnucash/account.go"],
 [("lookup", "coin.go:MustFindAccount,FindAccounts,FindAccountOfxId"), ("pattern translation", "coin.go:ToRegex"), ("gnucash names", "gnucash:mustFindAccount")],
 [T+"cmdRegister.execute", T+"cmdBalance.execute", T+"cmdModify.init", C+"MustFindAccount", C+"FindAccounts", C+"ToRegex", C+"FindAccountOfxId", C+"AccountsDo", C+"MustFindCommodity", "gnucash.mustFindAccount"])

prop("C08", "The account hierarchy is a tree containing every account exactly once",
 "After resolving, every account other than the root has as parent exactly the account whose full name is its own without the last component (the root for top-level names), missing intermediate accounts are created, each account is a child of its parent exactly once, children are ordered by name, and cycles or duplicate adoption are refused. Traversals visit every account of a subtree exactly once, parents before children or children before parents as requested, and level and closedness are derived from the chain of parents.",
 [A], "all sets of declared account names in any map iteration order",
 "tests build one or two trees; missing parents, deep nesting and map order vary without bound",
 ["account.go", "coin.go"],
 [("linking", "coin.go:ResolveAccounts, account.go:adopt"), ("names", "account.go:parentAndName,ParentName,accountFromName"), ("traversal", "account.go:WithChildrenDo,FirstWithChildrenDo; coin.go:AccountsDo,CommoditiesDo")],
 [C+"ResolveAccounts", C+"Account.adopt", C+"Account.WithChildrenDo", C+"Account.FirstWithChildrenDo", C+"AccountsDo", C+"CommoditiesDo", C+"Account.Depth", C+"Account.IsClosed", C+"Account.ParentName", C+"parentAndName", C+"accountFromName", C+"ResolveAll", C+"ResolvePrices", C+"DefaultCommodity", C+"Parser.parseAccount", C+"Root", C+"Unbalanced", C+"AccountsByName", C+"DefaultCommodityId"])

prop("C09", "Ledger lines are either fully understood or rejected",
 "Every line of a ledger file is matched in full by the grammar of exactly one construct (commodity, account, price, transaction, posting, note, include, test); each field gets exactly its part of the line, notes are kept verbatim, and no trailing text is dropped. A line that fits no construct at its place is an error naming the offending line.",
 [A], "all texts of ledger files",
 "tests parse well-formed samples; unanchored or shifted patterns accept malformed lines silently",
 ["parser.go", "transaction.go", "account.go", "commodity.go", "price.go", "include.go", "test.go", "rex/rex.go"],
 [("dispatch on first byte(s)", "parser.go:Next,Scan"), ("line patterns", "*REX variables"), ("named groups", "rex/rex.go:Match,MustCompile")],
 [C+"Parser.Next", C+"Parser.Scan", C+"NewParser", C+"Parser.parse*", C+"AccountREX", C+"AmountREX", C+"CommodityREX", C+"accountNameREX", C+"accountBodyREX", C+"accountHeadREX", C+"commodityBodyREX", C+"commodityHeadREX", C+"postingREX", C+"transactionREX", C+"priceREX", C+"DateREX", C+"includeHead", C+"testHead", "rex.Exp.Match", "rex.MustCompile", C+"Load"])

prop("C10", "What is written in ledger form reads back as the same items",
 "Writing accounts, commodities, prices, transactions, postings and import rules and reading the text back yields items with the same content: dates, codes, descriptions, every note, account names, amounts with all their digits, balance assertions, symbols, closing dates and bank identifiers. Formatting never widens, narrows or misplaces a digit, and padding depends only on widths.",
 [A], "all representable items: any amounts, name lengths, note lengths and counts",
 "tests round-trip a few short samples; note splitting at the line limit, widths and rare fields depend on content",
 ["transaction.go", "posting.go", "account.go", "commodity.go", "price.go", "amount.go", "rules.go", "cmd/coin/format.go"],
 [("writers", "Write methods"), ("amount text", "amount.go:Format,String,Width,Write"), ("readers", "parse methods")],
 [C+"Account.Write", C+"Commodity.Write", C+"Price.Write", C+"Posting.Write", C+"Transaction.Write", C+"Amount.Write", C+"Amount.Format", C+"Amount.String", C+"Amount.Width", C+"Commodity.SafeId", C+"Posting.String", C+"Transaction.String", C+"Price.String", C+"writeStrings", C+"Rule.Write", C+"Rule.Name", C+"RuleSet.Name", C+"ReadRules", C+"ScanRules", C+"headerRE", C+"bodyRE", C+"patternRE", C+"RuleSet.Write", C+"RuleIndex.Write", C+"writeRules", C+"TRANSACTION_LINE_MAX", C+"DateFormat", C+"disallowed", C+"Parser.parseTransaction", C+"Parser.parseAccount", C+"Parser.parseCommodity", C+"Parser.parsePrice", C+"bigLog10", C+"Account.String", C+"Commodity.String", C+"ParseTags"],
 rules=[])

prop("C11", "A problem reading input stops the command; nothing is reported from part of it",
 "Every failure to open, read, match or parse a ledger file, an included file, a price file, an import rule file or a bank statement, and every reference to an unknown commodity or account, ends the command with an error; no command continues with the part read so far. The set of files read is exactly the fixed files plus all transaction and price files of the ledger directory, each once.",
 [A, "fault_sequences"], "all inputs and all read failures at any point of any input",
 "tests feed well-formed input; error returns are never produced",
 ["coin.go", "parser.go", "include.go", "rules.go", "cmd/csv2coin/main.go", "cmd/csv2coin/rules.go", "cmd/ofx2coin/main.go", "gnucash/gnucash.go", "check/check.go"],
 [("loading", "coin.go:Load,LoadFile,LoadAll,LoadPrices"), ("includes", "include.go:Files"), ("scanner errors", "parser.go:Next, rules.go:ScanRules,ReadRules, cmd/csv2coin/rules.go:ScanSource"), ("abort", "check/check.go")],
 [C+"Load", C+"LoadFile", C+"LoadAll", C+"LoadPrices", C+"ResolveAll", C+"Include.Files", C+"NewParser", C+"Parser.Next", C+"Parser.Scan", C+"Parser.parse*", C+"ScanRules", C+"ReadRules", "cmd/csv2coin.ScanSource", "cmd/csv2coin.ReadRules", "cmd/csv2coin.readTransactions", "cmd/csv2coin.parseFields", "cmd/ofx2coin.readTransactions", "cmd/ofx2coin.bmoReader.Read", "cmd/ofx2coin.newBMOReader", "check.*", "check/warn.If", C+"MustFindCommodity", C+"MustFindAccount", C+"MustParseAmount", "gnucash.Load", "gnucash.mustParseAmount", "gnucash.mustParseTimeStamp", C+"*Filename", C+"*Extension", C+"CoinExtension", C+"DB", C+"AccountsFile", C+"CommoditiesFile", C+"PricesFile", C+"TransactionsFile", C+"Tests", C+"Prices", C+"Transactions"])

prop("C12", "In-place rewriting replaces a file only with its complete new content",
 "Commands that rewrite ledger files in place (format, modify, test) put the new content in a temporary file in the same directory and rename it over the original only after every write and the close succeeded; the original is never removed, truncated or opened for writing. A failure or interruption at any point leaves either the complete old or the complete new content under the file's name.",
 [A, "crash_points", "fault_sequences"], "all files, all failing write/close/rename calls and all points of interruption",
 "tests write to memory; failing writes and interrupted runs are not produced",
 ["cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go"],
 [("temp file + rename", "cmd/coin/format.go, cmd/coin/modify.go, cmd/coin/test.go:updateTestFile"), ("propagated write errors", "Write methods, writeStrings")],
 [T+"cmdFormat.execute", T+"cmdFormat.writeTransactions", T+"cmdModify.execute", T+"updateTestFile", T+"cmdTest.execute", T+"file", C+"Transaction.Write", C+"Posting.Write", C+"writeStrings", T+"cmdFormat.init", T+"cmdModify.init", "check.NoError", C+"DefaultCommodityId"],
 observe=["content of the rewritten file after success, error or kill"])

prop("C13", "Only commands that rewrite files touch files, and only quotes use the network",
 "Loading a ledger and every report, listing, check or conversion of a statement only read: they never create, change, rename or remove a file, start a process, change the environment or contact a network, and a coin command writes its result only to the output it is handed. Files are replaced only by format, modify and test, created only by gc2coin and gen2coin, and the network is used only by the commodities command to get quotes. Merely starting a program, including its package initialisation, has no such effect.",
 [A, CFG], "every command, option combination and ledger, and every function that may run on their behalf, including methods called through interfaces and package initialisation",
 "a test sees only the files it looks at; an effect behind a rare branch, a new helper or an initialiser is not noticed",
 ["cmd/coin/main.go", "cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go", "cmd/coin/commodities.go", "cmd/gc2coin/main.go", "cmd/gen2coin/main.go", "coin.go"],
 [("files replaced", "cmd/coin/format.go:execute, cmd/coin/modify.go:execute, cmd/coin/test.go:updateTestFile"), ("files created", "cmd/gc2coin/main.go:next, cmd/gen2coin/main.go:main"), ("quotes", "cmd/coin/commodities.go:execute"), ("dispatch", "cmd/coin/main.go:command")],
 [], rules=["effects-by-command"], observe=["the file system", "standard output of coin test"],
 technique="effect analysis over the call graph (direct, interface and function-value calls) from every command, initialiser and exported function to calls that change files, use the network, start processes or write to standard output",
 note="Static, no execution. Over-approximates what may run: a call is allowed for a command only if the table in tool/sinks.go lists it. Effects of standard-library and third-party functions are classified by package and name; unknown os functions count as file effects. Under which options an allowed effect happens is decided by C12, C25 and C30.")

prop("C14", "The same input gives the same output",
 "What a command prints or writes depends only on its input files, its arguments and the environment, and where relative dates or quotes are asked for on today's date: never on the order in which a map is gone over, on scheduling, addresses, process identity or chance. Only generated samples are random.",
 [A, "schedules"], "all inputs and all map iteration orders",
 "map order differs from run to run, and small maps in tests often come out in the expected order",
 ["coin.go", "account.go", "commodity.go", "rules.go", "tags.go", "rex/rex.go", "cmd/coin/totals.go", "cmd/coin/tags.go", "cmd/coin/balance.go", "gnucash/"],
 [("ordered traversals", "coin.go:AccountsDo,CommoditiesDo; commodity.go:Currencies; tags.go:Keys"), ("sorted outputs", "cmd/coin/tags.go:sortAndClean; cmd/coin/totals.go:top; rules.go:Write"), ("order-free reductions", "cmd/coin/totals.go, cmd/coin/balance.go")],
 [C+"AccountsDo", C+"CommoditiesDo", C+"Commodity.Currencies", C+"Tags.Keys", T+"timeTotal.Categories", T+"timeTotal.Commodity", T+"accountTotals.top", T+"sortAndClean", C+"RuleIndex.Write", C+"ResolveAccounts"], rules=["same-output"],
 observe=["output of every command"],
 technique="dataflow analysis of every loop over a map (iterations independent, exact commutative reductions, lists sorted before use) plus an inventory of calls with run-dependent results over the call graph; loops outside of that rule count only while their function is value-graph equivalent to a reference reviewed for it",
 note="Static, no execution. A loop over a map is accepted if no iteration can observe another, or if every caller path goes through a function equal to a reference listed with a reason in tool/order.go. Which of several errors is reported first may depend on the order. Trusts the standard library to be deterministic.")

prop("C15", "Date ranges include the begin date and exclude the end date, everywhere",
 "Restricting a report to a date range selects exactly the postings or transactions dated on or after the begin date (when given) and strictly before the end date (when given), in every command offering a range, for any data including none in range.",
 [A], "all sorted posting/transaction sequences, with duplicates of boundary dates, and all ranges, including empty and inverted ones",
 "tests use one or two ranges with matches; boundary days, ties and out-of-data ranges are not sampled",
 ["cmd/coin/utils.go", "cmd/coin/stats.go", "cmd/coin/balance.go", "cmd/coin/register.go", "transaction.go"],
 [("posting range", "cmd/coin/utils.go:trim"), ("transaction range", "cmd/coin/stats.go:transactions"), ("one day", "transaction.go:Day")],
 [T+"trim", T+"cmdStats.transactions", T+"cmdBalance.trim", T+"cmdRegister.trim", C+"TransactionsByTime.Day", C+"Date.Set", "cmd/csv2coin.trim", "cmd/ofx2coin.trim", T+"cmdBalance.newCommand", T+"cmdRegister.newCommand", T+"cmdStats.newCommand", T+"cmdBalance.execute", T+"cmdRegister.fullRegister", T+"cmdRegister.aggregatedRegister", C+"Account.sortPostings", C+"Account.addPosting"])

prop("C16", "Filters select exactly the matching postings and are the same for every account",
 "A payee filter selects exactly the postings whose transaction description matches the pattern case-insensitively (does not match it, when inverted); a tag filter selects exactly those whose own or transaction's tags match the given key and value patterns. The selection depends only on the posting and the command line: not on which account, file or earlier command was processed before.",
 [A, H, CFG], "all postings, tags and filter expressions, all account traversals",
 "tests filter one account with one pattern; state carried between accounts or commands shows only with several",
 ["cmd/coin/register.go", "cmd/coin/balance.go", "tags.go"],
 [("filters", "cmd/coin/register.go:trim, cmd/coin/balance.go:trim"), ("tag matching", "tags.go:NewTagMatcher,Match")],
 [T+"trim", C+"ParseTags", C+"Tags.Includes", T+"cmdRegister.trim", T+"cmdBalance.trim", C+"NewTagMatcher", C+"TagMatcher.Match", T+"cmdRegister.fullRegister", T+"cmdRegister.init", T+"cmdBalance.newCommand", T+"cmdRegister.newCommand", T+"cmdBalance.execute", T+"cmdRegister.aggregatedRegister", T+"cmdBalance.init", C+"Account.WithChildrenDo"])

prop("C17", "Aggregated registers conserve amounts: no posting is lost or counted twice",
 "For every period, payee or tag aggregation the sum of all cells equals the sum of the selected postings of the selected accounts: every posting is counted in exactly one row of its account's column, sub-accounts folded into parents or into the Other column are merged period by period and category by category, and alignment only adds zero cells. The accounts shown separately are those of largest magnitude and every remaining account is in Other.",
 [A, CFG], "all ledgers, account trees, aggregation options and numbers of columns",
 "merging of two sorted timelines with gaps depends on how periods interleave; tests merge one small example",
 ["cmd/coin/totals.go", "cmd/coin/register.go", "cmd/coin/postings.go"],
 [("accumulation", "cmd/coin/totals.go:add,AddIn,newTotal"), ("merging", "cmd/coin/totals.go:mergeTotals,merge,mergeKeys,mergeTime"), ("top and Other", "cmd/coin/totals.go:top"), ("driver", "cmd/coin/register.go:aggregatedRegister")],
 [T+"timeTotals.add", T+"timeTotals.mergeTotals", T+"timeTotals.merge", T+"timeTotals.mergeKeys", T+"timeTotals.newTotal", T+"timeTotal.AddIn", T+"timeTotal.Copy", T+"timeTotals.cumMagnitude", T+"timeTotals.makeCumulative", T+"timeTotals.Commodity", T+"timeTotal.Commodity", T+"timeTotal.Categories", T+"accountTotals.top", T+"accountTotals.magnitudes", T+"accountTotals.accounts", T+"accountTotals.mergeTime", T+"accountTotals.makeCumulative", T+"accountTotals.sanitize", T+"accountTotals.newTotals", T+"cmdRegister.aggregatedRegister", T+"postings.totals", C+"Amount.AddIn", C+"Amount.CmpMagnitude", T+"accountTotals.rows", T+"accountTotals.output"])

prop("C18", "Each posting falls in exactly the period and category it belongs to",
 "A posting is reported under the week starting on the Sunday on or before its date, the first day of its month, of its quarter (January, April, July, October) or of its year, and under its own payee or its full set of tags; two postings share a row exactly if these agree. Periods are labelled by their first day, month or year.",
 [A], "all dates, including year and quarter boundaries and leap days, all payees and tag sets",
 "tests reduce a handful of dates",
 ["cmd/coin/totals.go", "cmd/coin/register.go"],
 [("reducers", "cmd/coin/totals.go:week,month,quarter,year,payees,tags"), ("selection", "cmd/coin/register.go:period,category")],
 [T+"week", T+"month", T+"quarter", T+"year", T+"payees", T+"tags", T+"cmdRegister.period", T+"cmdRegister.category", T+"cmdRegister.isAggregating", T+"timeTotals.add", C+"MonthFormat", C+"YearFormat", C+"DateFormat", C+"Tags.With", C+"Tags.KeysAndValues", C+"Tags.Keys", T+"cmdRegister.newCommand", C+"ParseTags", T+"accountTotals.rows", T+"cmdRegister.aggregatedRegister"])

prop("C19", "Text, CSV and JSON outputs show the same values",
 "The text, CSV and JSON forms of an aggregated register have the same rows, columns, labels and amounts, in the same order, differing only in layout; column widths never truncate an amount or a label, and every row has one cell per column. Registers print one line per selected posting with its date, description, counter-accounts, amount and running total.",
 [A, CFG], "all result tables and all output options",
 "tests compare a few text outputs",
 ["cmd/coin/totals.go", "cmd/coin/postings.go"],
 [("rows", "cmd/coin/totals.go:rows,writeCSV,writeJSON,print,output"), ("widths", "cmd/coin/totals.go:widths,maxWidth; cmd/coin/postings.go:widths"), ("registers", "cmd/coin/postings.go:print,printLong")],
 [T+"accountTotals.rows", T+"accountTotals.output", T+"accountTotals.print", T+"rows.writeCSV", T+"rows.writeJSON", T+"accountTotals.widths", T+"timeTotals.max*Width", T+"postings.print", T+"postings.printLong", T+"postings.widths", T+"options.*", T+"printNotes", T+"trimLocation", T+"min", T+"max", C+"ShortenAccountName", C+"Amount.Width", C+"Amount.Format", C+"Amount.String", T+"balances.*", T+"cmdBalance.print", T+"cmdRegister.execute", T+"cmdRegister.fullRegister", T+"cmdRegister.aggregatedRegister", T+"postings.totals", C+"Transaction.Other"])

prop("C20", "The exported HTML carries the complete ledger under the agreed names",
 "The generated page contains every commodity, price, account and transaction of the ledger as data, each with the field names the viewer reads and with exact decimal amounts and full account names, followed by the viewer itself; optional fields are present exactly when they have a value. Failure to encode or write any part fails the command.",
 [A, "fault_sequences"], "all ledgers and all write failures",
 "there are no tests of the export; missing or renamed fields only show in the browser",
 ["cmd/coin2html/main.go", "account.go", "amount.go", "commodity.go", "price.go", "posting.go", "transaction.go"],
 [("encoders", "MarshalJSON methods"), ("page assembly", "cmd/coin2html/main.go:main")],
 [C+"Account.MarshalJSON", C+"Amount.MarshalJSON", C+"Commodity.MarshalJSON", C+"Price.MarshalJSON", C+"Posting.MarshalJSON", C+"Transaction.MarshalJSON", "cmd/coin2html.main", C+"*.Location", C+"LoadAll", C+"Load", C+"LoadPrices", C+"LoadFile", C+"Amount.Format", C+"Amount.String"])

prop("C21", "Every statement line becomes one balanced transaction in the right accounts",
 "Importing a bank statement yields, for every statement line and nothing else, one transaction dated as the line, whose two postings carry opposite amounts: one on the statement's account with the line's amount and the balance if given, the other on the account of the first rule, in file order and included rule sets in place, that applies to the payee or on Unbalanced when none applies. Notes and codes given by the statement or rule are kept.",
 [A], "all statements, account mappings and rule files",
 "tests import one or two sample statements with a small rule set",
 ["rules.go", "cmd/csv2coin/main.go", "cmd/csv2coin/rules.go", "cmd/ofx2coin/main.go", "cmd/ofx2coin/bmo.go", "transaction.go"],
 [("rules", "rules.go:RuleFor,ReadRules,ScanRules"), ("csv", "cmd/csv2coin/main.go:transactionFrom, rules.go"), ("ofx", "cmd/ofx2coin/main.go:newTransaction,readTransactions"), ("two legs", "transaction.go:Post,PostConversion")],
 [C+"Rule.*", C+"RuleSet.*", C+"AccountRules.RuleFor", C+"RuleIndex.AccountRulesFor", C+"ReadRules", C+"ScanRules", C+"headerRE", C+"bodyRE", C+"patternRE", "cmd/csv2coin.transactionFrom", "cmd/csv2coin.readTransactions", "cmd/csv2coin.Field*", "cmd/csv2coin.Source.Value", "cmd/csv2coin.parseFields", "cmd/csv2coin.ReadRules", "cmd/csv2coin.ScanSource", "cmd/csv2coin.*Rex", "cmd/csv2coin.*REX", "cmd/csv2coin.findAccountForCommodity", "cmd/ofx2coin.newTransaction", "cmd/ofx2coin.readTransactions", "cmd/ofx2coin.bmoHack", "cmd/ofx2coin.bmoReader.Read", "cmd/ofx2coin.newBMOReader", "cmd/ofx2coin.emptyLine", "cmd/ofx2coin.trim", C+"Transaction.Post", C+"Transaction.PostConversion", "cmd/csv2coin.labels", "cmd/csv2coin.init_main", "cmd/ofx2coin.init_main", "cmd/csv2coin.main", "cmd/ofx2coin.main", C+"MustFindAccount", C+"FindAccountOfxId", C+"parseAmount", C+"Commodity.NewAmountFloat"])

prop("C22", "Imports drop a transaction only if the very same one is already recorded",
 "An imported transaction is left out only if a transaction of the same date, code, and the same postings (account, commodity and amount, in order) is already in the ledger, and leaving it out is reported; everything else is written out. A balance known to the statement but not to the kept transaction is carried over to it, never the reverse.",
 [A, H], "all pairs of ledgers and statements, and repeated imports",
 "tests compare single transactions; dropping a distinct transaction loses data silently",
 ["transaction.go", "posting.go", "cmd/csv2coin/main.go", "cmd/ofx2coin/main.go"],
 [("equality", "transaction.go:IsEqual, posting.go:IsEqual"), ("search", "transaction.go:FindEqual,Includes,Day"), ("merge", "transaction.go:MergeDuplicate"), ("use", "cmd/csv2coin/main.go:main, cmd/ofx2coin/main.go:main")],
 [C+"Transaction.IsEqual", C+"Posting.IsEqual", C+"TransactionsByTime.FindEqual", C+"TransactionsByTime.Includes", C+"TransactionsByTime.Day", C+"Transaction.MergeDuplicate", "cmd/csv2coin.main", "cmd/ofx2coin.main", "cmd/ofx2coin.keepDupes", "cmd/ofx2coin.newTransaction", C+"Amount.IsEqual", C+"Amount.Cmp", "cmd/csv2coin.readTransactions", "cmd/ofx2coin.readTransactions", "cmd/csv2coin.transactionFrom"])

prop("C23", "A date expression denotes exactly one existing day or is rejected",
 "A date given on the command line or in a ledger is read as year/month/day, month/day of the current year (or the default year), or relative to today by a number of days, weeks, months or years, two-digit years being placed in the current century; it is always noon UTC of an existing calendar day. Anything else, including impossible days and trailing text, is an error.",
 [A], "all strings and all current dates",
 "tests parse a few forms relative to a fixed day",
 ["date.go", "gnucash/gnucash.go"],
 [("parsing", "date.go:parseDate,mustParseDate,MustParseDate,Date.Set"), ("pattern", "date.go:DateREX,ymd,offset")],
 [C+"parseDate", C+"mustParseDate", C+"MustParseDate", C+"Date.Set", C+"Date.String", C+"DateREX", C+"ymd", C+"offset", C+"WithDate", C+"WithYear", C+"init_date", C+"DateFormat"])

prop("C24", "Conversions use the latest price and keep the target commodity's precision",
 "Converting an amount to another commodity uses the most recent price recorded between the two commodities, directly or through the chain of prices, never a commodity's price twice, multiplies exactly and truncates to the target commodity's decimals; the result is in the target commodity. If no chain of prices exists the conversion fails.",
 [A], "all price lists, commodity graphs with cycles, and amounts",
 "tests convert through one or two prices",
 ["commodity.go", "price.go", "coin.go"],
 [("conversion", "commodity.go:Convert,convert,includedIn,AddPrice,Currencies"), ("order", "coin.go:ResolvePrices"), ("product", "amount.go:Times")],
 [C+"Commodity.Convert", C+"Commodity.convert", C+"Commodity.includedIn", C+"Commodity.AddPrice", C+"Commodity.Currencies", C+"ResolvePrices", C+"Amount.Times", C+"Parser.parsePrice", C+"priceREX", C+"Commodity.NewAmountFloat", C+"Amount.adjustedTo", C+"Amount.AddIn", C+"MustFindCommodity", C+"LoadPrices", C+"Load"])

prop("C25", "A ledger test passes exactly if the command's output equals the recorded result",
 "Running the tests of a file executes each recorded command with exactly its recorded arguments and reports success for it only if its output equals the recorded result byte for byte; any difference is reported as a failure with a diff and makes the verdict of that file (each file with tests gets its own) a failure. A test clause without its end is an error. A test is given its output as result only if none was recorded, and then the result is inserted right after the test's command line, leaving all other text of the file as it was.",
 [A], "all test files and command outputs",
 "the test runner itself has no unit tests",
 ["cmd/coin/test.go", "test.go", "cmd/coin/main.go"],
 [("verdict", "cmd/coin/test.go:execute"), ("update", "cmd/coin/test.go:updateTestFile"), ("reading tests", "test.go:parseTest")],
 [T+"cmdTest.*", T+"updateTestFile", T+"file", C+"Parser.parseTest", C+"testHead", C+"Test.Location", T+"newCommand", T+"main", T+"init_*", T+"cmd*.newCommand", T+"trimWS", T+"aliases", T+"commands"])

prop("C26", "Balances of parents include all their descendants, converted to their commodity",
 "The balance report shows for every account of the chosen subtree its own total over the selected postings and a cumulative total equal to its own plus the cumulative totals of all its children, converted to its own commodity; accounts are left out only because their cumulative total is zero or they lie below the requested level, and this never changes the totals of the accounts shown.",
 [A, CFG], "all trees, ledgers, filters and levels",
 "tests cover a few fixed reports",
 ["cmd/coin/balance.go", "account.go"],
 [("totals and propagation", "cmd/coin/balance.go:execute"), ("selection of rows", "cmd/coin/balance.go:print"), ("traversal", "account.go:WithChildrenDo,FirstWithChildrenDo")],
 [T+"cmdBalance.*", T+"balances.*", C+"Account.WithChildrenDo", C+"Account.FirstWithChildrenDo", C+"Account.Depth", C+"Amount.IsZero", C+"Amount.AddIn", C+"Amount.Copy", C+"Commodity.Convert", C+"Commodity.convert", C+"Account.adopt", C+"ResolveAccounts", T+"trim"])

prop("C27", "Transactions are ordered by date, keeping ledger order within a day",
 "Resolved and formatted transactions are in order of date; within a day transactions with balance assertions come after those without and otherwise the order of the input is kept, so that ordering never invalidates an assertion that held and reformatting twice changes nothing.",
 [A], "all permutations of transactions with any ties",
 "tests sort small lists without ties",
 ["transaction.go", "coin.go", "cmd/coin/format.go", "cmd/csv2coin/main.go", "cmd/ofx2coin/main.go"],
 [("order", "transaction.go:Less,Len,Swap,HasBalanceAssertions"), ("stable sort", "coin.go:ResolveTransactions, cmd/coin/format.go")],
 [C+"TransactionsByTime.Len", C+"TransactionsByTime.Less", C+"TransactionsByTime.Swap", C+"Transaction.HasBalanceAssertions", T+"cmdFormat.execute", T+"cmdFormat.writeTransactions", C+"Account.sortPostings", C+"ResolveTransactions", "cmd/csv2coin.main", "cmd/ofx2coin.main", T+"cmdModify.execute", C+"Account.addPosting", C+"Account.findPosting", T+"cmdRegister.fullRegister"])

prop("C28", "Modify changes exactly the matching postings and transactions",
 "The modify command moves to the new account, or tags, every posting selected by the account or tag given and no other, tags every transaction selected by payee, tag and account and no other, and leaves amounts, dates, descriptions and all existing notes as they were; moved postings stay part of a balanced transaction. Every transaction of the file is written back, once, in order, and the reported count is the number of transactions changed.",
 [A, CFG], "all ledgers and option combinations",
 "tests modify small ledgers with one matching posting per transaction",
 ["cmd/coin/modify.go", "posting.go", "tags.go"],
 [("selection and change", "cmd/coin/modify.go:modify,modifyPosting,addTagLine,mustParseTags"), ("move", "posting.go:MoveTo"), ("driver", "cmd/coin/modify.go:execute")],
 [T+"cmdModify.*", T+"addTagLine", T+"mustParseTags", C+"Posting.MoveTo", C+"TagMatcher.Match", C+"NewTagMatcher", C+"Transaction.Write", C+"Posting.Write", C+"Account.addPosting", C+"Account.deletePosting", C+"Account.findPosting", C+"Tags.Keys", C+"Tags.KeysAndValues", C+"ParseTags"])

prop("C29", "Every tag written in a note is recognised with exactly its key and value",
 "A tag is any #word in a note, optionally followed by a colon and a value reaching to the next comma or the end of the note; all tags of a note are found, keys and values are kept exactly, a later occurrence of a key replaces an earlier one, and combining transaction and posting tags keeps all of both. Tag listings show every key in use once, with all its values when asked, and nothing else.",
 [A], "all notes and tag sets",
 "tests parse a few notes",
 ["tags.go", "cmd/coin/tags.go"],
 [("parsing", "tags.go:ParseTags, tagREX"), ("access", "tags.go:Includes,Value,Keys,KeysAndValues,With"), ("listing", "cmd/coin/tags.go")],
 [C+"ParseTags", C+"Tags.*", C+"tagREX", C+"tagREXKey", C+"tagREXValue", C+"TagMatcher.Match", C+"NewTagMatcher", T+"cmdTags.*", T+"add", T+"clean", T+"sortAndClean", T+"decode"])

prop("C30", "Listings and statistics report exactly the items of the ledger",
 "The accounts, commodities and stats commands list every matching account or commodity of the ledger once, in order, with its own properties, count exactly the items loaded and in range, and report every pair of equal transactions on the same day, every posting on Unbalanced and every one-to-one conversion between different commodities when asked to, and nothing else.",
 [A, CFG], "all ledgers and options",
 "no tests beyond a few outputs",
 ["cmd/coin/accounts.go", "cmd/coin/commodities.go", "cmd/coin/stats.go"],
 [("accounts", "cmd/coin/accounts.go:execute"), ("commodities", "cmd/coin/commodities.go:execute"), ("stats", "cmd/coin/stats.go:execute,transactions")],
 [T+"cmdAccounts.*", T+"cmdCommodities.*", T+"cmdStats.*", T+"cmdVersion.*", C+"Transaction.IsEqual", C+"CommoditiesDo", C+"Account.IsClosed", T+"trimWS", C+"AccountsDo", C+"Commodity.Currencies", C+"LoadPrices", C+"LoadAll", C+"FindAccounts", C+"ToRegex", C+"Unbalanced"])

prop("C31", "Converting a GnuCash book keeps every account, price, transaction and split",
 "Converting a GnuCash file yields each of its accounts under its full name with its commodity, each price, and each transaction with all its splits' accounts and exact values and dates; nothing is dropped other than the placeholder root accounts and template data, and references that cannot be resolved are errors. Splitting by year puts every transaction in the file of its year.",
 [A], "all GnuCash XML books",
 "tests convert one small sample",
 ["gnucash/", "cmd/gc2coin/main.go"],
 [("decoding tags", "gnucash struct tags"), ("resolution", "gnucash:resolve*"), ("output", "cmd/gc2coin/main.go")],
 ["gnucash.*", "gnucash.*.*", "cmd/gc2coin.*", C+"AccountsDo", C+"CommoditiesDo", C+"NewAmountFrac"])

prop("C32", "Generated sample ledgers consist of valid, balanced, dated transactions",
 "Every generated transaction has postings that balance, amounts within the limits of its rule, a date produced by the rule's schedule within the requested range, and transactions are written in date order; the amounts drawn from a balance never exceed it.",
 [A], "all random draws, date ranges and rules",
 "randomised generation is sampled once in tests",
 ["cmd/gen2coin/"],
 [("rules", "cmd/gen2coin/rule.go"), ("schedules", "cmd/gen2coin/dates.go"), ("output order", "cmd/gen2coin/main.go")],
 ["cmd/gen2coin.*", "cmd/gen2coin.*.*", C+"Transaction.Post", C+"Account.CheckPostings"])

NA = []
