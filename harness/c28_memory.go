package main

import (
	"fmt"
	"math/big"
	"runtime"

	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/fullmath"
	la "uniswap-simulator/lib/liquidity_amounts"
	ppool "uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickmath"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() { checks["C28"] = checkC28 }

// C28: what is kept in memory depends on the state, not on how many
// operations led to it. The live heap is measured after full collections while
// a cycle that returns to the same state is repeated; one case runs at a time
// because the heap is the whole process's.

const (
	leakSlack   = 48 << 10 // bytes of noise
	leakObjects = 600      // objects of noise
)

func liveHeap() (bytes, objects int64) {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), int64(ms.Mallocs - ms.Frees)
}

// steady repeats a cycle and compares the live heap along the way.
func (c *Case) steady(what string, warm, n int, cycle func(i int)) {
	for i := 0; i < warm; i++ {
		cycle(i)
		c.Tick()
	}
	b0, o0 := liveHeap()
	for i := 0; i < n; i++ {
		cycle(warm + i)
		c.Tick()
	}
	b1, o1 := liveHeap()
	c.Op("%s: %d repetitions, live memory %+d bytes, %+d objects", what, n, b1-b0, o1-o0)
	c.Eval(int64(n))
	c.Count("repetitions", int64(n))
	if b1-b0 <= leakSlack && o1-o0 <= leakObjects {
		return
	}
	// Noise does not repeat and does not grow with the repetitions.
	for i := 0; i < 2*n; i++ {
		cycle(warm + n + i)
		c.Tick()
	}
	b2, o2 := liveHeap()
	runtime.KeepAlive(cycle)
	if b2-b1 > leakSlack && 2*(b2-b1) > b1-b0 || o2-o1 > leakObjects && 2*(o2-o1) > o1-o0 {
		c.Fail("%s: the live memory grew by %d bytes and %d objects over %d repetitions of a cycle that returns to the same state, and by %d bytes and %d objects over %d more", what, b1-b0, o1-o0, n, b2-b1, o2-o1, 2*n)
	}
	c.Count("noise", 1)
}

func checkC28(x *Ctx) {
	x.rule = "each evaluation is one repetition of a cycle of operations that returns to the same price and ranges, during which the live heap may not grow; distinct = (kind of cycle, strategy, fee, operations in it)"
	x.Require("pool_cycles", "pool_ticks_crossed", "strategy_cycles", "execution_cycles", "number_cycles", "clone_cycles", "clone_of_clone_cycles", "strategies_with_own_ticks")
	for _, k := range stratKinds {
		x.Require("strategy_cycles." + k)
	}
	x.RunP("pool", x.N(60, 600), 1, c28pool)
	x.RunP("strategy", x.N(6, 60)*len(stratKinds), 1, c28strategy)
	x.RunP("execution", x.N(12, 100), 1, c28exec)
	x.RunP("numbers", x.N(4, 40), 1, c28numbers)
}

func (c *Case) swapTo(p *ppool.Pool, target, amt *ui.Int) bool {
	s := p.SqrtRatioX96.Cmp(target)
	if s == 0 {
		return false
	}
	in := tok1
	if s > 0 {
		in = tok0
	}
	p.ExactInputSwap(amt, in, target)
	return true
}

func c28pool(c *Case) {
	h := NewHist(c)
	h.noWrap = true
	for i := c.Intn(40); i > 0; i-- {
		h.Step()
	}
	p := h.impl
	start := toUI(fromUI(p.SqrtRatioX96))
	huge := toUI(pow2(254))
	type rg struct {
		lo, hi int
		l, l2  *ui.Int
		plain  bool
	}
	var rs []rg
	for i := 1 + c.Intn(4); i > 0; i-- {
		lo, hi := h.rng()
		l := addI(h.liq(), 1)
		if new(big.Int).Add(h.total, l).BitLen() > 120 {
			l = big.NewInt(1000000)
		}
		h.total.Add(h.total, l)
		half := new(big.Int).Rsh(l, 1)
		rs = append(rs, rg{lo, hi, toUI(half), toUI(new(big.Int).Sub(l, half)), c.Intn(3) == 0})
		c.Op("a range [%d,%d) of %v, plain: %v", lo, hi, l, rs[len(rs)-1].plain)
	}
	var ts []*ui.Int
	for i := 1 + c.Intn(3); i > 0; i-- {
		t := clampTick(h.m.Tick+c.Intn(4000)-2000, ref.MinTick+1, ref.MaxTick-1)
		if len(h.m.Sorted) > 0 && c.Intn(2) == 0 {
			t = clampTick(h.m.Sorted[c.Intn(len(h.m.Sorted))], ref.MinTick+1, ref.MaxTick-1)
		}
		ts = append(ts, toUI(ref.SqrtAt(t)))
		c.Op("a trade to tick %d", t)
	}
	zero, fl := new(ui.Int), ui.NewInt(1000)
	clone, flash, descend := c.Intn(2) == 0, c.Intn(2) == 0, c.Intn(2) == 0
	crossed := int64(0)
	cycle := func(int) {
		for _, r := range rs {
			if r.plain {
				p.Mint(r.lo, r.hi, r.l)
				p.Mint(r.lo, r.hi, r.l2)
				continue
			}
			if !r.l.IsZero() {
				p.MintStrategy(r.lo, r.hi, r.l)
			}
			p.MintStrategy(r.lo, r.hi, r.l2)
		}
		t0 := p.TickCurrent
		for _, t := range ts {
			c.swapTo(p, t, huge)
			if p.TickCurrent != t0 {
				crossed++
			}
			for _, r := range rs {
				if !r.plain {
					p.BurnStrategy(r.lo, r.hi, zero)
				}
			}
		}
		if flash && !p.Liquidity.IsZero() {
			p.Flash(fl, fl)
		}
		q := p
		if clone {
			q = p.Clone()
			c.swapTo(q, ts[0], huge)
			q = p.Clone()
			if descend { // continue on the clone
				p, q = q, p
			}
		}
		c.swapTo(p, start, huge)
		if q != p {
			c.swapTo(q, start, huge)
		}
		for _, r := range rs {
			if r.plain {
				p.Burn(r.lo, r.hi, r.l2)
				p.Burn(r.lo, r.hi, r.l)
				continue
			}
			p.BurnStrategy(r.lo, r.hi, r.l)
			p.BurnStrategy(r.lo, r.hi, r.l2)
			p.CollectStrategy(r.lo, r.hi)
		}
	}
	n := 1500
	if bad, v := c.Try(func() { cycle(0); cycle(1) }); bad {
		c.Op("-- the pool refused: %v", v)
		c.Count("abandoned", 1)
		return
	}
	c.steady("pool", 50, n, cycle)
	c.Count("pool_cycles", 1)
	if clone {
		c.Count("clone_cycles", 1)
		if descend {
			c.Count("clone_of_clone_cycles", 1)
		}
	}
	c.Count("pool_ticks_crossed", crossed)
	c.Distinct("pool", h.m.Fee, len(rs), len(ts), clone, flash)
}

func c28strategy(c *Case) {
	kind := stratKinds[c.idx%len(stratKinds)]
	var d *SD
	if bad, _ := c.Try(func() { d = newSD(c, kind, false) }); bad {
		c.Count("abandoned", 1)
		return
	}
	p := d.p
	start := toUI(fromUI(p.SqrtRatioX96))
	huge := toUI(pow2(200))
	var ts []*ui.Int
	for i := 1 + c.Intn(3); i > 0; i-- {
		t := d.wlo + c.Intn(d.whi-d.wlo+1)
		ts = append(ts, toUI(ref.SqrtAt(clampTick(t, ref.MinTick+1, ref.MaxTick-1))))
		c.Op("a trade to tick %d", t)
	}
	burnAll := c.Intn(3) == 0
	often := c.Intn(2) == 0
	cycle := func(int) {
		for _, t := range ts {
			c.swapTo(p, t, huge)
			d.s.MakeSnapshot()
			d.s.GetAmounts()
			if often {
				d.s.Rebalance()
			}
		}
		c.swapTo(p, start, huge)
		d.s.MakeSnapshot()
		if burnAll {
			d.s.BurnAll()
		}
		d.s.Rebalance()
		d.s.GetAmounts()
	}
	bad, v := c.Try(func() {
		for i := 0; i < 3; i++ {
			d.s.MakeSnapshot()
		}
		d.s.Init()
		cycle(0)
	})
	if !bad {
		bad, v = c.Try(func() { c.steady(kind, 2*d.par.N+10, 1200, cycle) })
	}
	if bad {
		c.Op("-- the strategy refused: %v", v)
		c.Count("abandoned", 1)
		return
	}
	before := len(walkTicks(c, p))
	if bad, _ := c.Try(func() { d.s.BurnAll() }); !bad && len(walkTicks(c, p)) < before {
		c.Count("strategies_with_own_ticks", 1)
	}
	c.Count("strategy_cycles", 1)
	c.Count("strategy_cycles."+kind, 1)
	c.Distinct("strategy", kind, d.fee, len(ts), burnAll, often)
}

// c28exec compares what is kept after a short and after a long log.
func c28exec(c *Case) {
	const cyc = 8
	fee := []int{500, 3000, 10000}[c.Intn(3)]
	sp := ref.Spacings[fee]
	tick := c.Intn(20000) - 10000
	l := pow2(uint(50 + c.Intn(30)))
	base := ppool.NewPool(tok0, tok1, fee, toUI(ref.SqrtAt(tick)))
	lo, hi := (ref.FloorDiv(tick, sp)-3-c.Intn(20))*sp, (ref.FloorDiv(tick, sp)+4+c.Intn(20))*sp
	n := ref.MaxTick / sp * sp
	base.Mint(-n, n, toUI(l))
	amt := toUI(new(big.Int).Rsh(l, uint(4+c.Intn(8))))
	log := func(rep int) []ent.Transaction {
		one := make([]ent.Transaction, 0, cyc)
		add := func(kind string) *ent.Transaction {
			one = append(one, newTx(kind, 0))
			return &one[len(one)-1]
		}
		r := func(t *ent.Transaction) { t.TickLower, t.TickUpper, t.Amount = lo, hi, amt }
		r(add("Mint"))
		add("Swap").Amount0 = amt
		t := add("Flash")
		t.Amount0, t.Amount1 = amt, amt
		r(add("Mint"))
		add("Swap").Amount1 = amt
		r(add("Burn"))
		r(add("Burn"))
		add("Flash").Amount1 = amt
		out := make([]ent.Transaction, 0, rep*cyc)
		for i := 0; i < rep; i++ {
			for _, t := range one {
				t.Timestamp = len(out)
				out = append(out, t)
			}
		}
		return out
	}
	kind := stratKinds[c.idx%len(stratKinds)]
	par := c.stratParams(kind, sp)
	par.N = 3
	c.Op("%v on fee %d at tick %d", par, fee, tick)
	measure := func(rep int) (db, do int64, values int) {
		txs := log(rep)
		total := len(txs)
		s := newStrategy(par, toUI(pow2(30)), toUI(pow2(30)), base)
		e := executor.CreateExecution(s, 100, total+10, total/4+1, total/10+1, 7, txs)
		b0, o0 := liveHeap()
		e.Run()
		c.Tick()
		b1, o1 := liveHeap()
		values = len(e.AmountUSDSnapshots)
		runtime.KeepAlive(txs)
		runtime.KeepAlive(s)
		runtime.KeepAlive(e)
		return b1 - b0, o1 - o0, values
	}
	var b1, o1, b2, o2, b3, o3 int64
	var v1, v2 int
	bad, v := c.Try(func() {
		b1, o1, v1 = measure(60)
		b2, o2, v2 = measure(1500)
		if b2-b1 > leakSlack || o2-o1 > leakObjects {
			b3, o3, _ = measure(4500)
		}
	})
	if bad {
		c.Op("-- refused: %v", v)
		c.Count("abandoned", 1)
		return
	}
	c.Op("kept after 480 transactions %d bytes %d objects (%d values), after 12000 %d bytes %d objects (%d values)", b1, o1, v1, b2, o2, v2)
	c.Eval(1)
	if b3-b2 > leakSlack && b2-b1 > leakSlack || o3-o2 > leakObjects && o2-o1 > leakObjects {
		c.Fail("%v keeps %d bytes in %d objects after 480 transactions, %d in %d after 12000 and %d in %d after 36000, with the same ranges and about the same number of values (%d, %d)", par, b1, o1, b2, o2, b3, o3, v1, v2)
	}
	c.Count("execution_cycles", 1)
	c.Distinct("execution", kind, fee)
}

// c28numbers repeats computations; nothing of them may be kept.
func c28numbers(c *Case) {
	ps := make([]*ui.Int, 64)
	for i := range ps {
		ps[i] = toUI(addI(ref.SqrtAt(c.Intn(2*ref.MaxTick)-ref.MaxTick), int64(c.Intn(2))))
	}
	l := toUI(randExact(c.Rand, 80))
	kept := new(ui.Int)
	cycle := func(i int) {
		a, b := ps[i%64], ps[(i*7+1)%64]
		t := tickmath.TM.GetTickAtSqrtRatio(a)
		kept.Xor(kept, tickmath.TM.GetSqrtRatioAtTick(t))
		kept.Xor(kept, fullmath.MulDiv(a, l, b))
		fullmath.MulDivRoundingUp(a, l, b)
		swapmath.ComputeSwapStep(a, b, l, l, 3000)
		if !a.Eq(b) {
			la.GetAmountsForLiquidity(ps[(i*3)%64], a, b, l)
			la.GetLiquidityForAmount(ps[(i*3)%64], a, b, l, l)
		}
		x := new(ui.Int).MulMod(a, b, l)
		x.Exp(x, ui.NewInt(uint64(i%300)))
		x.Sqrt(x)
		y, _ := ui.FromHex(x.Hex())
		y.SetBytes(x.Bytes())
		_ = y.ToBig().String()
		x.SDiv(x.Neg(x), l)
	}
	bad, v := c.Try(func() { cycle(0) })
	if bad {
		c.Op("-- refused: %v", v)
		c.Count("abandoned", 1)
		return
	}
	c.steady("computations", 200, 12000, cycle)
	c.Count("number_cycles", 1)
	c.Distinct("numbers", fmt.Sprint(*kept))
}
