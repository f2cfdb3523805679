package main

import (
	"fmt"
	"math/big"

	"uniswap-simulator/lib/executor"
	ppool "uniswap-simulator/lib/pool"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() { checks["C24"] = checkC24 }

// ---------------------------------------------------------------- logs

// logGen generates a transaction log that is valid on a pool.
type logGen struct {
	c      *Case
	p      *ppool.Pool // simulates the log
	led    map[ref.Key]*big.Int
	bounds []int
	wlo    int
	whi    int
	now    int
	gap    int
	bits   int // of the liquidity of a mint
	txs    []ent.Transaction
}

// newTx is a transaction with every field set.
func newTx(kind string, ts int) ent.Transaction {
	return ent.Transaction{Type: kind, Timestamp: ts, Amount: new(ui.Int), Amount0: new(ui.Int), Amount1: new(ui.Int), SqrtPriceX96: new(ui.Int)}
}

// next appends one transaction, or returns false.
func (g *logGen) next() (t ent.Transaction, ok bool) {
	c := g.c
	switch c.Intn(6) {
	case 0: // the same second
	case 1:
		g.now += c.Intn(3 * g.gap)
	case 2:
		if c.Intn(4) == 0 {
			g.now += c.Intn(40 * g.gap)
		}
	default:
		g.now += c.Intn(g.gap + 1)
	}
	kind := []string{"Swap", "Swap", "Swap", "Swap", "Swap", "Mint", "Burn", "Flash"}[c.Intn(8)]
	t = newTx(kind, g.now)
	t.ID = fmt.Sprintf("tx%d", c.Intn(1<<30))
	switch kind {
	case "Mint":
		lo, hi := g.bounds[c.Intn(len(g.bounds))], g.bounds[c.Intn(len(g.bounds))]
		if lo == hi {
			return t, false
		}
		if lo > hi {
			lo, hi = hi, lo
		}
		l := randExact(c.Rand, 1+c.Intn(g.bits))
		t.TickLower, t.TickUpper, t.Amount = lo, hi, toUI(l)
		k := ref.Key{Lo: lo, Hi: hi}
		if g.led[k] == nil {
			g.led[k] = new(big.Int)
		}
		g.led[k].Add(g.led[k], l)
	case "Burn":
		ks := make([]ref.Key, 0, len(g.led))
		for k := range g.led {
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			return t, false
		}
		sortKeys(ks)
		k := ks[c.Intn(len(ks))]
		a := new(big.Int).Set(g.led[k])
		switch c.Intn(3) {
		case 0:
			a = addI(randBelow(c.Rand, a), 1)
		case 1:
			if c.Intn(3) == 0 {
				a = new(big.Int)
			}
		}
		t.TickLower, t.TickUpper, t.Amount = k.Lo, k.Hi, toUI(a)
		if g.led[k].Sub(g.led[k], a); g.led[k].Sign() == 0 {
			delete(g.led, k)
		}
	case "Flash":
		if g.p.Liquidity.IsZero() {
			return t, false
		}
		t.Amount0, t.Amount1 = toUI(randBits(c.Rand, 60)), toUI(randBits(c.Rand, 60))
	case "Swap":
		tk := g.p.TickCurrent
		zf1 := c.Intn(2) == 0
		if tk <= g.wlo {
			zf1 = false
		}
		if tk >= g.whi {
			zf1 = true
		}
		// Amounts as recorded by the chain: what goes in is positive, what
		// comes out negative; the amount in decides.
		q := g.p.Clone()
		target := ref.SqrtAt(clampTick(tk+1+c.Intn(200), ref.MinTick+1, ref.MaxTick-1))
		if zf1 {
			target = ref.SqrtAt(clampTick(tk-1-c.Intn(200), ref.MinTick+1, ref.MaxTick-1))
		}
		cur := fromUI(q.SqrtRatioX96)
		if zf1 != (target.Cmp(cur) < 0) || target.Cmp(cur) == 0 {
			return t, false
		}
		a0, a1 := applyImpl(q, Op{Kind: "swap", A: pow2(180), ZF1: zf1, Limit: target}, toUI)
		in := a1
		if zf1 {
			in = a0
		}
		if in.Sign() <= 0 || in.BitLen() > 120 {
			return t, false
		}
		switch c.Intn(3) {
		case 0:
			in = addI(randBelow(c.Rand, in), 1)
		case 1:
			if c.Intn(4) == 0 {
				in = big.NewInt(1)
			}
		}
		out := a0
		if zf1 {
			out = a1
		}
		if zf1 {
			t.Amount0, t.Amount1 = toUI(in), toUI(out)
		} else {
			t.Amount0, t.Amount1 = toUI(out), toUI(in)
		}
		if c.Intn(12) == 0 { // the amount out was recorded as zero
			if zf1 {
				t.Amount1 = new(ui.Int)
			} else {
				t.Amount0 = new(ui.Int)
			}
		}
		if c.Intn(6) == 0 { // what came out is a few units
			u := toUI(big.NewInt(-int64(1 + c.Intn(12))))
			if zf1 {
				t.Amount1 = u
			} else {
				t.Amount0 = u
			}
		}
		if zf1 && c.Intn(30) == 0 { // both are positive: the first token goes in
			t.Amount1 = toUI(randExact(c.Rand, 1+c.Intn(60)))
			c.Count("both_positive", 1)
		}
		if c.Intn(40) == 0 { // nothing went in
			t.Amount0, t.Amount1 = new(ui.Int), toUI(big.NewInt(-int64(c.Intn(2))))
		}
	}
	applyTx(g.p, t)
	return t, true
}

// applyTx is what a transaction of the log means.
func applyTx(p *ppool.Pool, t ent.Transaction) {
	switch t.Type {
	case "Mint":
		p.Mint(t.TickLower, t.TickUpper, t.Amount)
	case "Burn":
		p.Burn(t.TickLower, t.TickUpper, t.Amount)
	case "Flash":
		p.Flash(t.Amount0, t.Amount1)
	case "Swap":
		if fromUIS(t.Amount0).Sign() > 0 {
			p.ExactInputSwap(t.Amount0, p.Token0, new(ui.Int))
		} else if fromUIS(t.Amount1).Sign() > 0 {
			p.ExactInputSwap(t.Amount1, p.Token1, new(ui.Int))
		}
	}
}

// newLog makes a base pool and a log on it.
func newLog(c *Case, n int) (base *ppool.Pool, txs []ent.Transaction) {
	fee := []int{500, 3000, 10000}[c.Intn(3)]
	sp := ref.Spacings[fee]
	p := c.initialPrice(sp)
	if c.Intn(3) != 0 {
		for ref.TickAt(p) > histMax-60000 || ref.TickAt(p) < -histMax {
			p = c.initialPrice(sp)
		}
	}
	base = ppool.NewPool(tok0, tok1, fee, toUI(p))
	m := ref.MaxTick / sp
	g := newLogGen(c, base, 1600000000+c.Intn(1000000), []int{1, 30, 900, 5000}[c.Intn(4)])
	if c.Intn(4) != 0 { // some of the liquidity is there from the start
		base.Mint(-m*sp, m*sp, toUI(randExact(c.Rand, 40+c.Intn(40))))
		g.p = base.Clone()
	} else {
		g.add(g.full(randExact(c.Rand, 40+c.Intn(40))))
	}
	g.fill(n)
	return base, g.txs
}

func newLogGen(c *Case, base *ppool.Pool, now, gap int) *logGen {
	t := base.TickCurrent
	sp := base.TickSpacing
	m := ref.MaxTick / sp
	g := &logGen{c: c, p: base.Clone(), led: map[ref.Key]*big.Int{}, wlo: clampTick(t-4000, ref.MinTick+2000, ref.MaxTick-2000), whi: clampTick(t+4000, ref.MinTick+2000, ref.MaxTick-2000), now: now, gap: gap, bits: 80}
	for i := 0; i < 6; i++ {
		g.bounds = append(g.bounds, clampTick(ref.FloorDiv(t, sp)+c.Intn(81)-40, -m, m)*sp)
	}
	return g
}

// full is a mint over all prices.
func (g *logGen) full(l *big.Int) ent.Transaction {
	sp := g.p.TickSpacing
	m := ref.MaxTick / sp
	t := newTx("Mint", g.now)
	t.TickLower, t.TickUpper, t.Amount = -m*sp, m*sp, toUI(l)
	return t
}

func (g *logGen) add(t ent.Transaction) {
	applyTx(g.p, t)
	g.txs = append(g.txs, t)
}

// fill makes the log n transactions long.
func (g *logGen) fill(n int) {
	for try := 0; len(g.txs) < n && try < 10*n; try++ {
		if t, ok := g.next(); ok {
			g.txs = append(g.txs, t)
		}
	}
}

func describeLog(c *Case, txs []ent.Transaction) {
	for i, t := range txs {
		c.Op("tx %d: time %d %s [%d,%d) amount %v amounts %v %v", i, t.Timestamp, t.Type, t.TickLower, t.TickUpper, fromUI(t.Amount), fromUIS(t.Amount0), fromUIS(t.Amount1))
	}
}

// txPrint shows a whole transaction.
func txPrint(t ent.Transaction) string {
	return fmt.Sprintf("%s|%v|%v|%v|%s|%v|%d|%d|%d|%d|%v", t.Type, *t.Amount, *t.Amount0, *t.Amount1, t.ID, *t.SqrtPriceX96, t.Tick, t.TickLower, t.TickUpper, t.Timestamp, t.UseX96)
}

// ---------------------------------------------------------------- C24

// event is one call the strategy receives, with the pool state at that moment.
type event struct{ what, state string }

// recorder is a strategy that only records what it is asked, and whose start,
// rebalance and liquidation move the pool, so that the order is visible.
type recorder struct {
	p      *ppool.Pool
	log    []event
	acts   int
	seed   int64
	moves  bool
	lo, hi int
}

func (r *recorder) note(what string) {
	r.log = append(r.log, event{what, slot0(r.p) + " " + growth(r.p)})
}

// amounts depend on the state only, not on how often they are asked for.
func (r *recorder) amounts() (*ui.Int, *ui.Int) {
	x := new(big.Int).Mul(fromUI(r.p.SqrtRatioX96), big.NewInt(r.seed|1))
	x.Add(x, big.NewInt(int64(r.acts)*7919))
	a := new(big.Int).Mod(x, pow2(70))
	b := new(big.Int).Mod(x.Rsh(x, 13), pow2(uint(1+r.seed%90)))
	return toUI(a), toUI(b)
}

func (r *recorder) act() {
	r.acts++
	if !r.moves {
		return
	}
	r.p.MintStrategy(r.lo, r.hi, ui.NewInt(uint64(1000+r.acts)))
	if !r.p.Liquidity.IsZero() {
		r.p.ExactInputSwap(ui.NewInt(uint64(1+r.acts*50)), r.p.Token0, new(ui.Int))
	}
}

func (r *recorder) Init() (*ui.Int, *ui.Int)       { r.note("start"); r.act(); return r.amounts() }
func (r *recorder) Rebalance() (*ui.Int, *ui.Int)  { r.note("rebalance"); r.act(); return r.amounts() }
func (r *recorder) BurnAll() (*ui.Int, *ui.Int)    { r.note("liquidate"); r.act(); return r.amounts() }
func (r *recorder) GetPool() *ppool.Pool           { return r.p }
func (r *recorder) GetAmounts() (*ui.Int, *ui.Int) { return r.amounts() }
func (r *recorder) MakeSnapshot()                  { r.note("price snapshot") }

// schedule of an execution.
type schedule struct{ Start, End, Update, Value, Price int }

// valueOf is amount0 plus amount1 converted at the price, rounded down.
func valueOf(a0, a1, p *big.Int) *big.Int {
	v := new(big.Int).Lsh(a1, 192)
	v.Quo(v, new(big.Int).Mul(p, p))
	return v.Add(v, a0)
}

// timeline replays the log by definition: what the strategy is asked, when,
// and the recorded values.
func timeline(r *recorder, s schedule, txs []ent.Transaction) (vals []*big.Int, stats map[string]int64) {
	stats = map[string]int64{}
	value := func(a0, a1 *ui.Int) {
		vals = append(vals, valueOf(fromUI(a0), fromUI(a1), fromUI(r.p.SqrtRatioX96)))
	}
	started := false
	nextU, nextV, nextP := 0, 0, txs[0].Timestamp
	for _, t := range txs {
		ts := t.Timestamp
		if ts > s.End {
			stats["stopped_early"]++
			break
		}
		if !started && ts >= s.Start {
			started = true
			nextU, nextV = ts+s.Update, ts+s.Value
			value(r.Init())
			stats["started"]++
		}
		if ts >= nextP {
			r.MakeSnapshot()
			stats["price_snapshots"]++
			if ts >= nextP+s.Price {
				stats["late"]++
			}
			nextP += s.Price
		}
		if started && ts >= nextV {
			value(r.GetAmounts())
			stats["valuations"]++
			nextV += s.Value
		}
		if started && ts >= nextU {
			r.Rebalance()
			stats["rebalances"]++
			nextU += s.Update
		}
		applyTx(r.p, t)
		stats["tx."+t.Type]++
	}
	if !started {
		stats["never_started"]++
	}
	value(r.BurnAll())
	return
}

func checkC24(x *Ctx) {
	x.rule = "each evaluation replays one generated log through an execution whose strategy records every call with the pool state at that moment, and compares calls, states, final pool and value series with the schedule's definition applied to a copy; distinct = (interval sizes against gaps, counts of each event, start and end position)"
	x.Require("started", "never_started", "stopped_early", "valuations", "rebalances", "price_snapshots", "late", "tx.Swap", "tx.Mint", "tx.Burn", "tx.Flash", "same_second", "high_price", "start_on_first", "end_on_tx", "due_exactly", "both_positive")
	x.Require("long_logs", "series_of_66000")
	x.Run("long", x.N(6, 60), func(c *Case) { c24run(c, true) })
	x.Run("log", x.N(100000, 1500000), func(c *Case) { c24run(c, false) })
}

// longLog is a log of thousands of small trades, plain mints, burns and flashes.
func longLog(c *Case, n int) (*ppool.Pool, []ent.Transaction) {
	p := c.initialPrice(40)
	for p.BitLen() < 80 || p.BitLen() > 112 {
		p = c.initialPrice(40)
	}
	base := ppool.NewPool(tok0, tok1, []int{500, 3000, 10000}[c.Intn(3)], toUI(p))
	sp := base.TickSpacing
	now := 1600000000 + c.Intn(100000000)
	top := ref.MaxTick / sp * sp
	full := newTx("Mint", now)
	full.TickLower, full.TickUpper, full.Amount = -top, top, toUI(randExact(c.Rand, 90))
	txs := []ent.Transaction{full}
	k := ref.FloorDiv(base.TickCurrent, sp)
	gap := 2 + c.Intn(40)
	minted := 0
	for len(txs) < n {
		now += c.Intn(2*gap + 1)
		var t ent.Transaction
		switch i := c.Intn(8); {
		case i == 0:
			t = newTx("Flash", now)
			t.Amount0, t.Amount1 = toUI(randBits(c.Rand, 40)), toUI(randBits(c.Rand, 40))
		case i == 1 && (minted == 0 || c.Intn(2) == 0):
			t = newTx("Mint", now)
			t.TickLower, t.TickUpper, t.Amount = (k-30)*sp, (k+30)*sp, ui.NewInt(1000)
			minted++
		case i == 1:
			t = newTx("Burn", now)
			t.TickLower, t.TickUpper, t.Amount = (k-30)*sp, (k+30)*sp, ui.NewInt(1000)
			minted--
		default:
			t = newTx("Swap", now)
			a := toUI(addI(randBits(c.Rand, 30+c.Intn(20)), 1))
			if c.Intn(2) == 0 {
				t.Amount0 = a
			} else {
				t.Amount1 = a
			}
		}
		txs = append(txs, t)
	}
	return base, txs
}

func c24run(c *Case, long bool) {
	var base *ppool.Pool
	var txs []ent.Transaction
	if long {
		n := 300 + c.Intn(6000)
		if c.idx%6 == 0 {
			n = 70000
		}
		base, txs = longLog(c, n)
		c.Count("long_logs", 1)
	} else {
		base, txs = newLog(c, 1+c.Intn(60))
	}
	first, last := txs[0].Timestamp, txs[len(txs)-1].Timestamp
	span := last - first + 1
	at := func() int { // a time, often exactly that of a transaction
		switch c.Intn(5) {
		case 0, 1:
			return txs[c.Intn(len(txs))].Timestamp + c.Intn(3) - 1
		case 2:
			return txs[c.Intn(len(txs))].Timestamp
		}
		return first + c.Intn(span) - span/8
	}
	iv := func() int {
		switch c.Intn(6) {
		case 0:
			return 1
		case 1:
			return span * (1 + c.Intn(3))
		case 2: // the exact distance of two transactions
			d := txs[c.Intn(len(txs))].Timestamp - txs[c.Intn(len(txs))].Timestamp
			if d < 0 {
				d = -d
			}
			return d + 1 - c.Intn(2)*btoi(d > 0)
		}
		return 1 + c.Intn(span/(1+c.Intn(12))+1)
	}
	s := schedule{Start: at(), End: 90000000000000, Update: iv(), Value: iv(), Price: iv()}
	switch c.Intn(8) {
	case 0:
		s.Start = first
	case 1:
		s.Start = first - c.Intn(1000)
	case 2:
		if c.Intn(3) == 0 {
			s.Start = last + 1 + c.Intn(1000)
		}
	}
	switch c.Intn(4) {
	case 0:
		s.End = at()
	case 1:
		if c.Intn(3) == 0 {
			s.End = first - 1 + c.Intn(2)
		}
	}
	if long { // intervals of the size of a few gaps
		gap := 1 + span/len(txs)
		s.Update, s.Value, s.Price = 1+c.Intn(6*gap), 1+c.Intn(3*gap), 1+c.Intn(4*gap)
		if s.End != 90000000000000 && c.Intn(3) > 0 {
			s.End = last - c.Intn(span/8+1)
		}
		if s.Start > last || c.Intn(2) == 0 {
			s.Start = first + c.Intn(span/4+1)
		}
		if c.idx%6 == 0 {
			s.Start, s.End, s.Value = first+c.Intn(span/50+1), 90000000000000, 1
		}
	}
	sp := base.TickSpacing
	mk := func() *recorder {
		k := ref.FloorDiv(base.TickCurrent, sp)
		m := ref.MaxTick / sp
		return &recorder{p: base.Clone(), seed: 0, lo: clampTick(k-20, -m, m-1) * sp, hi: clampTick(k+20, -m+1, m) * sp}
	}
	ra, rb := mk(), mk()
	ra.seed = int64(c.Intn(1 << 30))
	ra.moves = c.Intn(2) == 0
	rb.seed, rb.moves = ra.seed, ra.moves
	c.Op("schedule %+v, strategy moves the pool: %v", s, ra.moves)
	if long {
		c.Op("%d transactions", len(txs))
	} else {
		describeLog(c, txs)
	}
	var vals []*big.Int
	var st map[string]int64
	if bad, v := c.Try(func() { vals, st = timeline(rb, s, txs) }); bad {
		c.Op("-- abandoned: %v", v)
		c.Count("abandoned", 1)
		return
	}
	for k, v := range st {
		c.Count(k, v)
	}
	if len(vals) > 66000 {
		c.Count("series_of_66000", 1)
	}
	for i := 1; i < len(txs); i++ {
		if txs[i].Timestamp == txs[i-1].Timestamp {
			c.Count("same_second", 1)
		}
		if txs[i].Timestamp == s.Start+s.Update || txs[i].Timestamp == s.Start+s.Value || txs[i].Timestamp == first+s.Price {
			c.Count("due_exactly", 1)
		}
		if txs[i].Timestamp == s.End {
			c.Count("end_on_tx", 1)
		}
	}
	if s.Start == first {
		c.Count("start_on_first", 1)
	}
	if fromUI(base.SqrtRatioX96).BitLen() > 128 {
		c.Count("high_price", 1)
	}
	prints := make([]string, len(txs))
	for i, t := range txs {
		prints[i] = txPrint(t)
	}
	e := executor.CreateExecution(ra, s.Start, s.End, s.Update, s.Value, s.Price, txs)
	if bad, v := c.Try(e.Run); bad {
		c.Fail("the execution crashed: %v", v)
	}
	c.Eval(1)
	for i := range ra.log {
		if i >= len(rb.log) {
			c.Fail("the strategy was asked to %s (call %d, pool %s), which the schedule does not contain", ra.log[i].what, i, ra.log[i].state)
		}
		if ra.log[i] != rb.log[i] {
			c.Fail("call %d to the strategy is %s with the pool at %s; the schedule has %s with the pool at %s", i, ra.log[i].what, ra.log[i].state, rb.log[i].what, rb.log[i].state)
		}
	}
	if len(ra.log) < len(rb.log) {
		c.Fail("the strategy was never asked to %s (call %d of the schedule)", rb.log[len(ra.log)].what, len(ra.log))
	}
	if g, w := slot0(ra.p)+growth(ra.p), slot0(rb.p)+growth(rb.p); g != w {
		c.Fail("the pool ends at %s, the replayed log gives %s", g, w)
	}
	if len(e.AmountUSDSnapshots) != len(vals) {
		c.Fail("the series has %d values, the schedule gives %d", len(e.AmountUSDSnapshots), len(vals))
	}
	for i, v := range vals {
		if fromUI(e.AmountUSDSnapshots[i]).Cmp(v) != 0 {
			c.Fail("value %d of the series is %v, expected %v", i, fromUI(e.AmountUSDSnapshots[i]), v)
		}
	}
	for i, t := range txs {
		if txPrint(t) != prints[i] {
			c.Fail("the execution changed transaction %d from %s to %s", i, prints[i], txPrint(t))
		}
	}
	c.Distinct(len(ra.log), len(vals), st["rebalances"], st["price_snapshots"], st["stopped_early"], st["never_started"], ra.moves)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
