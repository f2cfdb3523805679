#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "256-bit integer arithmetic is exact modulo 2^256",
  "Every arithmetic, shift, bitwise, comparison, sign, modular, root and overflow-reporting operation of the 256-bit integer type returns exactly the mathematically defined value (modulo 2^256, two's complement for the signed ones, zero for division or modulus by zero), whichever of its operands and result share storage. Operands that are not the result are left unchanged, and the raw wide multiply and wide divide return the exact product, quotient and remainder.",
  ["inputs"], "all operand values of 0..256 bits (512-bit dividends for the wide divide), all aliasing patterns of result and operands",
  "The unit tests compare a few thousand uniformly drawn values with big.Int; carry chains, quotient-estimate corrections, operands of unequal word length and aliased calls are hit rarely or never.",
  ["uint256/uint256.go", "uint256/div.go", "uint256/mod.go"],
  [("word-wise add/sub/mul with carries", "uint256/uint256.go"), ("Knuth division with 2-by-1 reciprocal", "uint256/uint256.go, uint256/div.go"), ("Barrett reduction", "uint256/mod.go")],
  ["return values", "operands after the call"])

p("C02", "Integer conversions and encodings round-trip without loss",
  "Converting a 256-bit integer to and from big integers (signed and unsigned), byte strings of any length, fixed-size arrays, hexadecimal text, JSON, RLP and machine words yields exactly the same value, or an explicit overflow/error report exactly when the input does not fit or is malformed. The result of decoding depends only on the input, never on what the receiver held before.",
  ["inputs"], "all values, all byte lengths 0..40, all hex strings including malformed ones, all prior receiver contents",
  "Tests decode a fixed table into fresh receivers; they never reuse a non-zero receiver and sample few lengths.",
  ["uint256/conversion.go", "uint256/uint256.go"],
  [("SetBytes family, FromBig/ToBig/SToBig, hex/JSON/RLP codecs", "uint256/conversion.go")],
  ["decoded value", "overflow flag / error", "encoded bytes"])

p("C03", "Full-precision multiply-divide is exact in both rounding directions",
  "Multiplying two 256-bit values and dividing by a third gives the exact floor (or ceiling, for the rounding-up form) of the full 512-bit product's quotient whenever that quotient fits in 256 bits. When it does not fit, or the divisor of a non-zero product is zero, the call is rejected rather than returning a truncated value, and the operands are never modified.",
  ["inputs"], "all triples of 256-bit values, including products and divisors of very different word lengths",
  "The only test checks a handful of products; unequal word counts, exact multiples and quotients near 2^256 are never tried.",
  ["lib/fullmath/fullmath.go", "uint256/uint256.go"],
  [("512-bit product and wide division", "lib/fullmath/fullmath.go")], ["returned value", "rejection"])

p("C04", "Tick-to-price mapping equals the contract at every tick",
  "For every tick from -887272 to 887272 the square-root price is exactly the value the Uniswap v3 contract computes (the rounded-up Q64.96 value of sqrt(1.0001)^tick), strictly increasing from the minimum to the maximum ratio. Ticks outside that range are rejected, and callers that modify a returned price cannot change what later calls return.",
  ["inputs", "histories"], "all 1,774,545 ticks, before and after any use of the returned values",
  "Tests check a few dozen ticks; a wrong constant or rounding can show at any of the other 1.77 million.",
  ["lib/tickmath/tickmath.go"], [("precomputed table from magic constants", "lib/tickmath/tickmath.go")], ["price returned per tick"])

p("C05", "Price-to-tick lookup returns the greatest tick at or below the price",
  "For every square-root price in [minimum, maximum) the lookup returns the greatest tick whose price does not exceed it, so that price(tick) <= p < price(tick+1). Prices outside that interval are rejected, and the lookup changes neither its argument nor any later answer.",
  ["inputs"], "all Q64.96 prices in the valid range, notably each tick's own price and its two neighbours",
  "Tests try a handful of prices; boundaries of the other million intervals are never touched.",
  ["lib/tickmath/tickmath.go"], [("binary search over the tick table", "lib/tickmath/tickmath.go")], ["tick returned per price"])

p("C06", "Rounding ticks to the spacing and the protocol constants are exact",
  "Rounding a tick to a spacing gives exactly the greatest multiple at or below it (down), the least multiple at or above it (up) or the nearest multiple (nearest, a tie going away from zero), for positive and negative ticks alike. The shared protocol constants (tick and price bounds, fixed-point units, tick spacing of each fee tier) have the contract's values and keep them, whatever parts of the library have been used.",
  ["inputs", "histories"], "all ticks within twice the valid range and all spacings from 1 to 65536",
  "No test rounds a tick; a wrong direction below zero or on a tie shows at single ticks only, and a constant altered by a computation shows only in what runs afterwards.",
  ["lib/tickmath/tickmath.go", "lib/constants/constants.go"], [("Floor, Ceil and Round through floating point", "lib/tickmath/tickmath.go"), ("shared mutable integers", "lib/constants/constants.go")],
  ["rounded ticks", "constants before and after use"])

p("C07", "A single swap step is exact and stays within its bounds",
  "For every current price, target price, liquidity, remaining amount (exact input or exact output) and fee, one swap step returns exactly the contract's next price, input, output and fee. Consequently the next price never passes the target, input plus fee never exceeds an exact-input amount (and equals it when the target is not reached), output never exceeds an exact-output amount, and the arguments are left unchanged.",
  ["inputs"], "all prices in range, liquidity 0..2^128-1, signed amounts over the whole int256 range, the fee tiers and other fees 0..999999",
  "The single existing test covers a few steps at price one.",
  ["lib/swapmath/swapmath.go", "lib/sqrtprice_math/sqrtprice_math.go"],
  [("step computation", "lib/swapmath/swapmath.go")], ["four returned values", "arguments after the call"])

p("C08", "Token deltas and next-price computations are exact and favour the pool",
  "The token amounts between two prices for a given liquidity equal the exact rational value rounded up or down as requested, independent of the order of the two prices, and signed liquidity rounds up for additions and down for removals. The next price after an input or output equals the contract's value, rounded so that the pool never gives more or receives less than the exact curve; impossible requests are rejected.",
  ["inputs"], "all price pairs in range, liquidity 0..2^128-1, amounts 0..2^256-1, both directions and roundings",
  "Not tested directly at all; exercised only through table-driven step tests.",
  ["lib/sqrtprice_math/sqrtprice_math.go", "lib/fullmath/fullmath.go"],
  [("amount delta and next price formulas", "lib/sqrtprice_math/sqrtprice_math.go")], ["returned values", "rejections"])

p("C09", "Liquidity computed from token budgets is affordable and maximal",
  "For any price, range and token budget, the liquidity computed equals the periphery contract's value and never costs more of either token than the budget when minted; it is the largest affordable up to the documented intermediate rounding. The amounts computed for a liquidity equal exactly what burning that liquidity pays out, in range, at either boundary and on either side, with the range's ends given in either order.",
  ["inputs"], "all prices and ranges, budgets up to 2^127, prices exactly on and one unit beside each boundary",
  "There are no tests of these computations.",
  ["lib/liquidity_amounts/liquidity_amounts.go"], [("liquidity for amounts / amounts for liquidity", "lib/liquidity_amounts/liquidity_amounts.go")],
  ["returned liquidity and amounts", "amounts charged and paid by a real pool for that liquidity"])

p("C10", "Swaps replicate the v3 contract exactly over any pool history",
  "After any sequence of valid mints, burns, swaps (exact input or output, with or without a price limit) and flashes, in any fee tier and at any price, each swap returns exactly the token amounts the Uniswap v3 contract would, with the same resulting price, current tick and active liquidity. Arguments passed in are never modified.",
  ["histories", "inputs"], "all operation sequences, fee tiers, prices (positive, zero and negative ticks), tick layouts with gaps, shared edges and word boundaries, both directions, all limits",
  "The only end-to-end test needs data files that are not in the repository and runs one history of one pool at tick ~195000; negative ticks and exact output are never exercised.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/swapmath/swapmath.go"],
  [("swap loop", "lib/pool/pool.go"), ("tick crossing", "lib/tickdata/tickdata.go")],
  ["returned amounts", "price, tick and liquidity after each operation"],
  [("pool price, tick, active liquidity", "slot0 and liquidity of the contract", "lib/pool/pool.go")])

p("C11", "Minting and burning liquidity replicate the v3 contract exactly",
  "After any valid history, adding or removing liquidity on a range charges or credits exactly the contract's token amounts and changes active liquidity only when the range contains the current tick. The ranges' boundary ticks then carry exactly the contract's net and gross liquidity, a tick exists exactly while some range uses it, and a position's liquidity is the sum of its additions minus its removals.",
  ["histories", "inputs"], "all interleavings of mints, partial and full burns and swaps over overlapping, nested, adjacent and identical ranges",
  "No unit test mints or burns; the data-driven one is not runnable and covers one history.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/position/position.go"],
  [("position modification", "lib/pool/pool.go"), ("tick update and clearing", "lib/tickdata/tickdata.go")],
  ["returned amounts", "tick net and gross liquidity", "active liquidity", "position liquidity"])

p("C12", "Fees are accrued, attributed and collected exactly as in the contract",
  "After any valid history the global fee growth of both tokens, the growth recorded at every tick and the tokens owed to every position equal the contract's, for swap fees and flash fees alike, including wrap-around. Collecting returns exactly what burnt principal and accrued fees add up to and leaves nothing owed, so a second collect returns zero.",
  ["histories", "inputs"], "all histories of swaps, flashes, mints, pokes, burns and collects, with positions created before, inside and after price crossings",
  "The one fee test needs missing data files and checks one position on one history.",
  ["lib/pool/pool.go", "lib/position/position.go", "lib/tickdata/tickdata.go"],
  [("fee growth accumulators", "lib/pool/pool.go"), ("fee growth inside a range", "lib/tickdata/tickdata.go"), ("position update", "lib/position/position.go")],
  ["fee growth globals", "fee growth outside per tick", "tokens owed", "collected amounts"])

p("C13", "Liquidity bookkeeping stays structurally consistent",
  "At every point between operations the net liquidity over all ticks sums to zero, active liquidity equals the sum of net liquidity at or below the current tick and the total liquidity of the ranges containing it, and every existing tick has positive gross liquidity no smaller than the magnitude of its net. The current tick agrees with the current price (equal to the tick at or below it, or one less only when the last price move was downward and stopped on a boundary tick), and the price stays inside the valid range.",
  ["histories"], "every quiescent state reached by any sequence of operations",
  "Needs checking invariants after every operation of long random histories; no test looks at these invariants.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go"], [("tick table maintenance", "lib/tickdata/tickdata.go"), ("liquidity update on mint, burn and cross", "lib/pool/pool.go")],
  ["tick table", "active liquidity", "price and tick"])

p("C14", "Tokens are conserved and the pool is always solvent",
  "At every point what has been paid into the pool (mint charges, swap inputs, flash fees) minus what it has paid out covers every position's principal and fees in both tokens, and once everything is burnt and collected only rounding dust remains. No trader can gain by swapping there and back or by splitting a swap.",
  ["histories"], "all histories of mints, burns, collects, swaps and flashes, followed by any order of withdrawal",
  "A global accounting identity over whole histories; tests look at individual calls.",
  ["lib/pool/pool.go", "lib/swapmath/swapmath.go", "lib/position/position.go"],
  [("pool-favouring rounding", "lib/sqrtprice_math/sqrtprice_math.go"), ("fee growth flooring", "lib/pool/pool.go")],
  ["ledger of all amounts returned"])

p("C15", "Every swap terminates at its amount or its price limit and nowhere else",
  "Every valid swap finishes, and when it does either the whole specified amount has been used or delivered exactly, or the price is exactly the limit. The price moves only in the swap's direction and never beyond the limit, the amounts have the contract's signs, and stretches without liquidity (including a pool with none at all) are traversed without exchanging tokens.",
  ["histories", "inputs"], "all pool states including gaps, no liquidity and negative ticks; all amounts and limits in both directions",
  "Termination and stop conditions over all states cannot be sampled by the fixed swap tests, which never cross a negative tick boundary.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go"], [("swap loop stop condition", "lib/pool/pool.go"), ("next initialized tick search", "lib/tickdata/tickdata.go")],
  ["returned amounts", "price before and after", "completion of the call"])

p("C16", "Positions on different ranges never share or leak accounting",
  "Minting, burning, poking or collecting one position leaves the liquidity and the owed tokens of every position on a different range untouched, whatever the two ranges' ticks are. Repeated additions to the same range accumulate in one position.",
  ["inputs", "histories"], "all pairs of distinct ranges, in particular negative ticks, ticks sharing one end, and ticks equal up to sign, digits or truncation",
  "Collisions depend on the pair of ranges; no test uses two positions.",
  ["lib/pool/pool.go", "lib/position/position.go"], [("position lookup by range", "lib/pool/pool.go")],
  ["amounts collected per range", "position table"])

p("C17", "A cloned pool is equal to and independent of its original",
  "A clone of a pool in any state shows the same price, tick, liquidity, fee growth, ticks and positions (every field), and behaves identically under the same operations. Afterwards no operation on either of them changes anything observable in the other.",
  ["histories"], "all pool states at the time of cloning and all subsequent operation sequences on original, clone and clones of clones",
  "No test clones a pool that has ticks or positions.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/position/position.go"],
  [("pool, tick and position cloning", "lib/pool/pool.go, lib/tickdata/tickdata.go, lib/position/position.go")],
  ["all observables of original and clone after each operation"])

p("C18", "Invalid requests are rejected and leave the pool untouched",
  "A request the contract would refuse - inverted or out-of-range ticks, zero or negative mint amounts, burning more than a position holds or one that does not exist, collecting a position that does not exist, a zero swap amount, a price limit on the wrong side or outside the valid range, a flash without liquidity, an initial price or fee out of range - is rejected. After the rejection every observable of the pool is as before and later operations behave as if it had never been made.",
  ["inputs", "histories"], "all such requests at every point of every history",
  "No test checks a rejection, let alone the state after it.",
  ["lib/pool/pool.go", "lib/invariant/invariant.go", "lib/tickmath/tickmath.go"], [("argument invariants", "lib/pool/pool.go")],
  ["rejection", "all observables before and after"])

p("C19", "Tick table lookups match the contract's tick bitmap for any tick set",
  "For any set of initialized ticks and any current tick (negative ones included) the search for the next initialized tick in either direction returns what the contract's one-word bitmap search returns: the nearest initialized tick within the same 256-slot word, or that word's boundary. Updates, crossings, clearing and fee-growth-inside queries affect and read exactly the addressed ticks, and a query for a tick that does not exist is rejected.",
  ["inputs", "histories"], "all tick sets, spacings, query ticks and directions; all orders of insertion and removal",
  "The tick table has no tests; the positive-tick data set never reaches the negative half.",
  ["lib/tickdata/tickdata.go"], [("sorted slice and binary searches", "lib/tickdata/tickdata.go")],
  ["returned tick and flag", "tick contents"])

p("C20", "A strategy's money is fully accounted for at all times",
  "For every strategy and market history, a strategy starts with exactly the amounts it is given, its uninvested balances never go negative and change only by its own requests, the reported amounts equal uninvested balances plus the principal of the open ranges at the current price, and liquidating returns exactly that plus the fees those ranges earned. After liquidation the pool holds none of the strategy's liquidity, the reported amounts equal what was returned, and liquidating again changes nothing.",
  ["histories", "inputs", "configurations"], "all eleven strategies and the no-provision baseline, all parameters, all sequences of start, market activity, snapshot, rebalance, valuation and liquidation",
  "No test runs any strategy except the passive baseline on missing data.",
  ["lib/strategy", "lib/pool/pool.go", "lib/liquidity_amounts/liquidity_amounts.go"],
  [("mint/burn/collect bookkeeping of each strategy", "lib/strategy/*.go")],
  ["balances returned by start, rebalance, valuation and liquidation", "pool tick table"])

p("C21", "Each strategy provides liquidity exactly where its definition says",
  "Whenever a strategy starts or rebalances, the ranges it opens and the liquidity in each are exactly those of its published definition applied to the current tick, its parameters and its price history (symmetric interval, fixed interval, average- and volatility-based bands, full range, side orders), using all that the budget affords there. A limit order is reported with its side and the tick at which it is filled. All ranges lie on ticks the pool's spacing allows.",
  ["histories", "inputs", "configurations"], "all strategies, parameters, fee tiers and market histories with a full price window (for the two-interval strategy, outer widths of a whole number of spacings)",
  "Placement is never tested.",
  ["lib/strategy", "lib/tickmath/tickmath.go", "lib/prices/prices.go"],
  [("range selection of each strategy", "lib/strategy/*.go"), ("rounding to tick spacing", "lib/tickmath/tickmath.go")],
  ["change of the pool's tick table at each start and rebalance"])

p("C22", "No market situation crashes or stalls a strategy",
  "Starting, rebalancing, valuing and liquidating any strategy completes without a crash for every market state, including a constant price history, a price exactly on a range boundary, empty or one-sided balances, bands narrower than one tick and prices far outside every range. A strategy that cannot open a range keeps its balances instead.",
  ["histories", "inputs", "configurations"], "all strategies, budgets including zero, parameters including degenerate widths, and market histories including flat and jumping prices and price windows that are empty or partly filled, as far as the pool contract itself can represent the resulting liquidity (below 2^120) and the price window the price (square-root price below 2^115)",
  "A batch run of thousands of parameter values dies on the first degenerate one; no test tries any.",
  ["lib/strategy", "lib/prices/prices.go", "lib/liquidity_amounts/liquidity_amounts.go"],
  [("zero-liquidity and empty-range guards", "lib/strategy/*.go")], ["completion of each call", "balances"])

p("C23", "Rolling price statistics equal their definition over the last n prices",
  "Once at least n prices have been recorded, the average is the exact floor of the mean of the last n squared prices and the volatility the integer square root of their sample variance, whatever was recorded before them. Recording never alters the caller's price, and a price whose square cannot be represented safely is rejected instead of being recorded wrongly.",
  ["histories", "inputs"], "all windows n >= 2 and all sequences of prices over the valid range",
  "No test covers the price window.",
  ["lib/prices/prices.go"], [("ring buffer", "lib/prices/prices.go")], ["average", "volatility", "rejections"])

p("C24", "Executions replay the log once, in order, and act on schedule",
  "An execution applies every transaction up to its end time exactly once, in order, to the strategy's pool; it starts the strategy once, at the first transaction at or after the start time, and from then on takes a valuation and a rebalance, and from the first transaction on a price snapshot, exactly when a transaction arrives at or after the due time of each: a due time is the previous due time plus the interval, and at most one of each is taken per transaction. They happen before that transaction is applied, in the order start, price snapshot, valuation, rebalance. The recorded series is the start value, each scheduled valuation and the final liquidation value, each equal to the first token plus the second converted at the pool's current price, rounded down.",
  ["histories", "inputs", "configurations"], "all non-empty transaction logs (bursts, gaps, equal timestamps, all types), start and end times, and interval lengths of at least one second",
  "The only tests of an execution need missing data and check one number.",
  ["lib/executor/executor.go"], [("replay loop and timers", "lib/executor/executor.go")],
  ["calls the strategy receives and the pool state at each", "recorded value series"])

p("C25", "Parallel executions are race-free and equal to sequential ones",
  "Running any number of executions concurrently over the same transactions, start amounts and base pool produces for each exactly the results of running it alone, in any order and interleaving. No execution modifies the shared transactions, amounts, base pool or library constants, and no memory is accessed by two of them without synchronisation.",
  ["schedules", "configurations"], "all interleavings of concurrent executions of every strategy, from fresh and from already populated base pools",
  "Needs the race detector and many schedules; the tests run single-threaded.",
  ["main.go", "lib/executor/executor.go", "lib/pool/pool.go", "lib/strategy", "lib/tickmath/tickmath.go", "lib/constants/constants.go"],
  [("cloning of pool and amounts per execution", "lib/strategy/*.go, lib/pool/pool.go")],
  ["race detector reports", "result series", "shared inputs before and after"])

p("C26", "Transactions survive serialisation unchanged",
  "Serialising a transaction and reading it back with the documented input format yields the same type, identifier, time, ticks, signed amounts, price and flag that its type carries, for all values including negative amounts and ticks, zero and the extremes. Transactions of an unknown type are refused.",
  ["inputs"], "all transaction types and all field values",
  "No test serialises a transaction.",
  ["lib/transaction/transaction.go"], [("JSON marshalling per type", "lib/transaction/transaction.go")], ["JSON text", "decoded fields"])

p("C27", "The batch run reports a correct, complete result for every parameter",
  "A batch run over a transaction file writes one JSON report with exactly one row for every parameter value from 1 to 65535, in order, together with the data set's time span and the configured settings. Each row's end amount, return, drawdown, deviations and value-at-risk (hourly, daily and weekly) are those of an independent replay of that parameter's strategy and the statistics' definitions, and are always finite numbers; a report that cannot be written is a failure, not a silent success.",
  ["inputs", "configurations", "schedules"], "all valid non-empty transaction files whose valuations stay above zero, and all update intervals of at least an hour",
  "The program's main path has no test.",
  ["main.go", "lib/result/result.go", "lib/executor/executor.go", "lib/strategy/bollinger_fill_up.go"],
  [("batch loop, statistics and report writing", "main.go")], ["report file", "exit status"])

p("C28", "Memory kept depends on the state, not on how many operations led to it",
  "Repeating a cycle of operations that returns a pool to the same price and ranges (mints, swaps, pokes, flashes, clones, burns, collects), or a strategy's market to the same price, keeps no additional memory however often it is repeated. An execution keeps nothing per transaction beyond one number per recorded valuation, and computations on numbers, ticks and prices keep nothing.",
  ["histories"], "all cycles of operations on pools and strategies that return to the same price and ranges, repeated any number of times",
  "Tests are too short to notice a leak of a few bytes per operation; batch runs perform 10^9 operations in a bounded job memory.",
  ["lib/pool/pool.go", "lib/tickdata/tickdata.go", "lib/position/position.go", "lib/strategy", "lib/prices/prices.go", "lib/executor/executor.go"],
  [("ticks deleted when unused, ranges dropped when liquidated, fixed price window", "lib/tickdata/tickdata.go, lib/strategy/*.go, lib/prices/prices.go")],
  ["live heap after full collections"])

p("C29", "A batch on data that cannot be read or replayed fails and writes no report",
  "When the batch run's transaction file is missing, empty or not a JSON list of transactions, when one of its numbers is not a decimal integer or does not fit into 256 bits, when one of its requests is one the pool refuses (a mint of nothing or outside the tick range, a burn of more than there is, a flash without liquidity), or when the command line is not understood, the program ends with a failure status, writes no report, and leaves an older report of the same name as it was. Data without such a defect is accepted; numbers of fields that do not apply to a transaction may be absent or empty.",
  ["inputs", "configurations"], "all transaction files with such a defect, at any place",
  "The program's main path has no test; a silently altered number gives a plausible report.",
  ["main.go", "lib/executor/executor.go", "lib/pool/pool.go", "lib/transaction/transaction.go"],
  [("reading of the transaction file, panics of an execution", "main.go, lib/executor/executor.go")], ["exit status", "report file"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
