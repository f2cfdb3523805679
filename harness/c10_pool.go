package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	ppool "uniswap-simulator/lib/pool"
	"verifharness/ref"
)

func init() {
	checks["C10"] = checkC10
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C14"] = checkC14
	checks["C15"] = checkC15
}

func mslot0(m *ref.Pool) string {
	return fmt.Sprintf("price %v tick %d liquidity %v", m.P, m.Tick, m.L)
}

// ---------------------------------------------------------------- C10

func checkC10(x *Ctx) {
	x.rule = "each evaluation compares one operation's outcome in the real pool (swap amounts; price, tick and active liquidity after any operation) with the reference model; distinct = distinct (fee tier, operation, sign of tick, word-boundary and crossing counts of the swap, exact in/out, limit use, liquidity magnitude) combinations seen"
	x.Require("histories_with_16_ticks", "histories_with_64_ticks", "op.swap", "op.mint", "op.burn", "op.flash", "op.pmint", "op.pburn", "swap.tick_crossings", "swap.negative_tick_crossings", "swap.negative_word_boundaries", "swap.steps_without_liquidity", "swap.partial_output_steps", "swap.steps_to_the_limit", "clones")
	x.histories(x.N(40000, 800000), func(c *Case) {
		h := NewHist(c)
		n := h.long(15 + c.Intn(40))
		for i := 0; i < n; i++ {
			before := h.m.Stats
			o, r := h.Step()
			if o.Kind == "swap" {
				if !bigEq(r.M0, r.I0) || !bigEq(r.M1, r.I1) {
					c.Fail("%v returned (%v, %v), the contract returns (%v, %v)", o, r.I0, r.I1, r.M0, r.M1)
				}
				s := h.m.Stats
				c.Distinct(h.m.Fee, o.ZF1, o.A.Sign(), o.Limit.Sign(), h.m.Tick < 0, s.Crosses-before.Crosses, s.WordStops-before.WordStops > 0, s.ZeroLiqSteps-before.ZeroLiqSteps > 0, h.m.L.BitLen()/8, o.A.BitLen()/8)
			} else {
				c.Distinct(h.m.Fee, o.Kind, h.m.Tick < 0, h.m.L.BitLen()/8)
			}
			if g, w := slot0(h.impl), mslot0(h.m); g != w {
				c.Fail("after %v: %s, the contract has %s", o, g, w)
			}
			c.Eval(1)
			if c.Intn(25) == 0 { // carry on with a clone
				h.impl = h.impl.Clone()
				c.Count("clones", 1)
			}
		}
		h.flush()
	})
}

// ---------------------------------------------------------------- C11

func checkC11(x *Ctx) {
	x.rule = "each evaluation compares, after one operation, the amounts of a mint or burn, active liquidity, net and gross liquidity of every tick, the set of ticks, or a position's liquidity with the reference model; distinct = (operation, place of the range relative to the tick, shared ends, full or partial, magnitudes) combinations"
	x.Require("histories_with_16_ticks", "histories_with_64_ticks", "op.mint", "op.burn", "op.pmint", "op.pburn", "ticks_cleared", "ticks_shared", "in_range", "below_range", "above_range", "at_lower_edge", "at_upper_edge", "table_walks")
	x.histories(x.N(40000, 800000), func(c *Case) {
		h := NewHist(c)
		n := h.long(15 + c.Intn(45))
		for i := 0; i < n; i++ {
			ticksBefore := len(h.m.Ticks)
			o, r := h.Step()
			switch o.Kind {
			case "mint", "burn", "poke":
				if !bigEq(r.M0, r.I0) || !bigEq(r.M1, r.I1) {
					c.Fail("%v returned (%v, %v), the contract's amounts are (%v, %v)", o, r.I0, r.I1, r.M0, r.M1)
				}
				fallthrough
			case "pmint", "pburn":
				where := "in_range"
				if h.m.Tick < o.Lo {
					where = "below_range"
				} else if h.m.Tick >= o.Hi {
					where = "above_range"
				}
				c.Count(where, 1)
				if h.m.Tick == o.Lo {
					c.Count("at_lower_edge", 1)
				}
				if h.m.Tick == o.Hi || h.m.Tick == o.Hi-1 {
					c.Count("at_upper_edge", 1)
				}
				if len(h.m.Ticks) < ticksBefore {
					c.Count("ticks_cleared", 1)
				}
				if len(h.m.Ticks) == ticksBefore+1 {
					c.Count("ticks_shared", 1)
				}
				c.Distinct(o.Kind, where, len(h.m.Ticks)-ticksBefore, h.m.Fee, o.A.BitLen()/8, o.Lo < 0, o.Hi < 0)
			}
			c.Eval(1)
			if fromUIS(h.impl.Liquidity).Cmp(h.m.L) != 0 {
				c.Fail("after %v active liquidity is %v, the contract has %v", o, fromUIS(h.impl.Liquidity), h.m.L)
			}
			for _, t := range h.m.Sorted {
				tk := h.impl.TickData.GetTick(t)
				w := h.m.Ticks[t]
				if fromUIS(tk.LiquidityNet).Cmp(w.Net) != 0 || fromUIS(tk.LiquidityGross).Cmp(w.Gross) != 0 || tk.Index != t {
					c.Fail("after %v tick %d carries net %v gross %v, the contract has %v and %v", o, t, fromUIS(tk.LiquidityNet), fromUIS(tk.LiquidityGross), w.Net, w.Gross)
				}
			}
			if o.Kind == "burn" || o.Kind == "pburn" {
				for _, t := range []int{o.Lo, o.Hi} {
					if h.m.Ticks[t] == nil {
						if bad, _ := c.Try(func() { h.impl.TickData.GetTick(t) }); !bad {
							c.Fail("after %v tick %d still exists, no range uses it", o, t)
						}
					}
				}
			}
			if i == n-1 || c.Intn(12) == 0 {
				c.Count("table_walks", 1)
				if g, w := fmt.Sprint(walkTicks(c, h.impl)), fmt.Sprint(h.m.Sorted); g != w && !(g == "[]" && len(h.m.Sorted) == 0) {
					c.Fail("after %v the ticks are %s, ranges use %s", o, g, w)
				}
			}
			if g, w := posLiq(h.impl), mposLiq(h.m); g != w {
				c.Fail("after %v the positions' liquidities are %s, additions minus removals give %s", o, g, w)
			}
		}
		h.flush()
	})
}

func posLiq(p *ppool.Pool) string {
	var s []string
	for _, i := range p.Positions {
		if l := fromUIS(i.Liquidity); l.Sign() != 0 {
			s = append(s, l.String())
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func mposLiq(m *ref.Pool) string {
	var s []string
	for _, i := range m.Pos {
		if i.L.Sign() != 0 {
			s = append(s, i.L.String())
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// ---------------------------------------------------------------- C12

func posOwed(p *ppool.Pool) string {
	var s []string
	for _, i := range p.Positions {
		l, a, b := fromUIS(i.Liquidity), fromUI(i.TokensOwed0), fromUI(i.TokensOwed1)
		if l.Sign() != 0 || a.Sign() != 0 || b.Sign() != 0 {
			s = append(s, fmt.Sprintf("(%v: %v, %v)", l, a, b))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func mposOwed(m *ref.Pool) string {
	var s []string
	for _, i := range m.Pos {
		if i.L.Sign() != 0 || i.Owed0.Sign() != 0 || i.Owed1.Sign() != 0 {
			s = append(s, fmt.Sprintf("(%v: %v, %v)", i.L, i.Owed0, i.Owed1))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func checkC12(x *Ctx) {
	x.rule = "each evaluation compares, after one operation, global fee growth, every tick's outside growth, what every position is owed and what a collect pays with the reference model; every few operations all positions of a copy are poked and collected twice; distinct = (operation, number of ticks crossed, wrapped or not, positions with fees)"
	x.Require("histories_with_16_ticks", "histories_with_64_ticks", "op.swap", "op.flash", "op.collect", "op.poke", "op.burn", "growth_wrapped", "collected_nonzero", "full_collects", "swap.tick_crossings", "fees_paid_out_of_range")
	x.histories(x.N(40000, 800000), func(c *Case) {
		h := NewHist(c)
		if c.Intn(2) == 0 {
			h.noWrap = true
		}
		n := h.long(20 + c.Intn(45))
		for i := 0; i < n; i++ {
			g0, g1 := new(big.Int).Set(h.m.G0), new(big.Int).Set(h.m.G1)
			cr := h.m.Stats.Crosses
			o, r := h.Step()
			wrapped := h.m.G0.Cmp(g0) < 0 || h.m.G1.Cmp(g1) < 0
			if wrapped {
				c.Count("growth_wrapped", 1)
			}
			c.Eval(1)
			if fromUI(h.impl.FeeGrowthGlobal0X128).Cmp(h.m.G0) != 0 || fromUI(h.impl.FeeGrowthGlobal1X128).Cmp(h.m.G1) != 0 {
				c.Fail("after %v: %s, the contract has %v / %v", o, growth(h.impl), h.m.G0, h.m.G1)
			}
			for _, t := range h.m.Sorted {
				tk := h.impl.TickData.GetTick(t)
				w := h.m.Ticks[t]
				if fromUI(tk.FeeGrowthOutside0X128).Cmp(w.Out0) != 0 || fromUI(tk.FeeGrowthOutside1X128).Cmp(w.Out1) != 0 {
					c.Fail("after %v tick %d records growth %v / %v, the contract has %v / %v", o, t, fromUI(tk.FeeGrowthOutside0X128), fromUI(tk.FeeGrowthOutside1X128), w.Out0, w.Out1)
				}
			}
			if g, w := posOwed(h.impl), mposOwed(h.m); g != w {
				c.Fail("after %v the positions are owed %s, the contract owes %s", o, g, w)
			}
			if o.Kind == "collect" {
				if !bigEq(r.M0, r.I0) || !bigEq(r.M1, r.I1) {
					c.Fail("%v paid (%v, %v), the contract pays (%v, %v)", o, r.I0, r.I1, r.M0, r.M1)
				}
				if r.M0.Sign()+r.M1.Sign() > 0 {
					c.Count("collected_nonzero", 1)
				}
				a, b := applyImpl(h.impl, o, h.arg)
				if a.Sign() != 0 || b.Sign() != 0 {
					c.Fail("a second %v paid (%v, %v)", o, a, b)
				}
			}
			c.Distinct(o.Kind, h.m.Stats.Crosses-cr, wrapped, h.m.Fee, len(h.m.Pos), h.m.Tick < 0)
			if i == n-1 || c.Intn(10) == 0 {
				c12all(c, h)
			}
		}
		h.flush()
	})
}

// c12all pokes and collects every position of copies of both sides.
func c12all(c *Case, h *Hist) {
	impl, m := h.impl.Clone(), h.m.Clone()
	c.Count("full_collects", 1)
	for _, k := range sortedKeys(h.m.Pos) {
		if m.Pos[k].L.Sign() > 0 {
			o := Op{Kind: "poke", Lo: k.Lo, Hi: k.Hi, A: new(big.Int)}
			if _, _, err := applyModel(m, o); err != nil {
				c.Fail("model: %v", err)
			}
			applyImpl(impl, o, toUI)
		}
		o := Op{Kind: "collect", Lo: k.Lo, Hi: k.Hi}
		m0, m1, _ := applyModel(m, o)
		a, b := applyImpl(impl, o, toUI)
		c.Eval(1)
		if a.Cmp(m0) != 0 || b.Cmp(m1) != 0 {
			c.Fail("collecting [%d,%d) paid (%v, %v), the contract pays (%v, %v)", k.Lo, k.Hi, a, b, m0, m1)
		}
		if (m0.Sign() > 0 || m1.Sign() > 0) && (h.m.Tick < k.Lo || h.m.Tick >= k.Hi) {
			c.Count("fees_paid_out_of_range", 1)
		}
		if a, b = applyImpl(impl, o, toUI); a.Sign() != 0 || b.Sign() != 0 {
			c.Fail("collecting [%d,%d) again paid (%v, %v)", k.Lo, k.Hi, a, b)
		}
	}
}

// ---------------------------------------------------------------- C13

func checkC13(x *Ctx) {
	x.rule = "after every operation the invariants of the statement are evaluated on the real pool's own tick table, price and tick, and on the ledger of successful range changes (no reference pool is consulted); distinct = (number of ticks, tick agrees exactly or is one below, operation, sign)"
	x.Require("histories_with_16_ticks", "histories_with_64_ticks", "op.swap", "op.mint", "op.burn", "op.pburn", "tick_equal", "tick_one_below", "empty_table", "full_walks")
	x.histories(x.N(40000, 800000), func(c *Case) {
		h := NewHist(c)
		led := map[ref.Key]*big.Int{}
		lastP, lastTick, lastDown := h.start, h.m.Tick, false
		n := h.long(15 + c.Intn(45))
		for i := 0; i < n; i++ {
			o, _ := h.Step()
			k := ref.Key{Lo: o.Lo, Hi: o.Hi}
			if P := fromUI(h.impl.SqrtRatioX96); P.Cmp(lastP) != 0 || h.impl.TickCurrent != lastTick {
				lastP, lastTick, lastDown = P, h.impl.TickCurrent, o.ZF1
			}
			switch o.Kind {
			case "mint", "pmint":
				if led[k] == nil {
					led[k] = new(big.Int)
				}
				led[k].Add(led[k], o.A)
			case "burn", "pburn":
				led[k].Sub(led[k], o.A)
				if led[k].Sign() == 0 {
					delete(led, k)
				}
			}
			c13inv(c, h, led, o, i == n-1 || c.Intn(10) == 0, lastDown)
		}
		h.flush()
	})
}

// c13inv evaluates the invariants; lastDown tells whether the last operation
// that moved price or tick was a swap of token 0 for token 1.
func c13inv(c *Case, h *Hist, led map[ref.Key]*big.Int, o Op, full, lastDown bool) {
	p := h.impl
	c.Eval(1)
	P, L := fromUI(p.SqrtRatioX96), fromUIS(p.Liquidity)
	// the tick set: from the table itself when walking, else the ranges' ends
	var ticks []int
	if full {
		c.Count("full_walks", 1)
		ticks = walkTicks(c, p)
		if !sort.IntsAreSorted(ticks) {
			c.Fail("the tick table is not sorted: %v", ticks)
		}
	} else {
		set := map[int]bool{}
		for k := range led {
			set[k.Lo], set[k.Hi] = true, true
		}
		for t := range set {
			ticks = append(ticks, t)
		}
		sort.Ints(ticks)
	}
	sum, atOrBelow := new(big.Int), new(big.Int)
	for _, t := range ticks {
		tk := p.TickData.GetTick(t)
		net, gross := fromUIS(tk.LiquidityNet), fromUIS(tk.LiquidityGross)
		if gross.Sign() <= 0 || gross.CmpAbs(net) < 0 {
			c.Fail("after %v tick %d has gross liquidity %v, net %v", o, t, gross, net)
		}
		sum.Add(sum, net)
		if t <= p.TickCurrent {
			atOrBelow.Add(atOrBelow, net)
		}
	}
	if sum.Sign() != 0 {
		c.Fail("after %v the net liquidity over all ticks sums to %v", o, sum)
	}
	if atOrBelow.Cmp(L) != 0 {
		c.Fail("after %v active liquidity is %v, net liquidity at or below tick %d sums to %v", o, L, p.TickCurrent, atOrBelow)
	}
	in := new(big.Int)
	for k, l := range led {
		if p.TickCurrent >= k.Lo && p.TickCurrent < k.Hi {
			in.Add(in, l)
		}
	}
	if in.Cmp(L) != 0 {
		c.Fail("after %v active liquidity is %v, the ranges containing tick %d hold %v", o, L, p.TickCurrent, in)
	}
	if P.Cmp(ref.MinSP) < 0 || P.Cmp(ref.MaxSP) >= 0 {
		c.Fail("after %v the price is %v", o, P)
	}
	at := ref.TickAt(P)
	switch {
	case p.TickCurrent == at:
		c.Count("tick_equal", 1)
	case p.TickCurrent == at-1 && ref.SqrtAt(at).Cmp(P) == 0 && lastDown:
		c.Count("tick_one_below", 1)
	default:
		c.Fail("after %v the current tick is %d at price %v (tick %d)", o, p.TickCurrent, P, at)
	}
	if len(ticks) == 0 {
		c.Count("empty_table", 1)
	}
	c.Distinct(o.Kind, len(ticks), p.TickCurrent-at, at < 0, L.Sign(), h.m.Fee)
}

// ---------------------------------------------------------------- C14

func checkC14(x *Ctx) {
	x.rule = "a ledger of everything paid in and out is kept; after operations a copy of the pool is liquidated completely in random order and the balance compared with zero and with the number of roundings so far; round trips and splits of swaps are tried on copies; distinct = (operation before the liquidation, positions, dust sizes, direction)"
	x.Require("liquidations", "round_trips", "splits_in", "splits_out", "op.swap", "op.flash", "op.burn", "op.collect", "final_liquidations")
	x.histories(x.N(20000, 400000), func(c *Case) {
		h := NewHist(c)
		h.noPln, h.noWrap = true, true
		bal := [2]*big.Int{new(big.Int), new(big.Int)}
		var roundings int64
		extra := [2]*big.Int{new(big.Int), new(big.Int)}
		n := h.long(15 + c.Intn(40))
		for i := 0; i < n; i++ {
			steps := h.m.Stats.Steps
			o, r := h.Step()
			switch o.Kind {
			case "mint", "swap":
				bal[0].Add(bal[0], r.I0)
				bal[1].Add(bal[1], r.I1)
				roundings += 1 + 4*int64(h.m.Stats.Steps-steps)
				if o.Kind == "mint" {
					roundings += 2
				} else if o.A.Sign() < 0 {
					// An exact output may stop up to one price unit further
					// than the output needs; the difference stays in the pool.
					L := h.m.Stats.LastL
					if o.ZF1 {
						extra[1].Add(extra[1], exact1(h.m.P, addI(h.m.P, 1), L, true))
					} else {
						extra[0].Add(extra[0], exact0(h.m.P, addI(h.m.P, -1), L, true))
					}
				}
			case "collect":
				bal[0].Sub(bal[0], r.I0)
				bal[1].Sub(bal[1], r.I1)
			case "burn", "poke":
				roundings += 3
			case "flash":
				for j, a := range []*big.Int{o.A, o.B} {
					bal[j].Add(bal[j], ref.CeilDiv(new(big.Int).Mul(a, big.NewInt(int64(h.m.Fee))), ref.E6))
				}
				roundings += 2
			}
			if i == n-1 || c.Intn(4) == 0 {
				c14liquidate(c, h, h.impl.Clone(), bal, extra, roundings, o)
			}
			if c.Intn(3) == 0 {
				c14trade(c, h)
			}
		}
		c14liquidate(c, h, h.impl, bal, extra, roundings, Op{Kind: "end"})
		c.Count("final_liquidations", 1)
		h.args.check(c, "the history")
	})
}

func c14liquidate(c *Case, h *Hist, p *ppool.Pool, bal, extra [2]*big.Int, roundings int64, o Op) {
	ks := sortedKeys(h.m.Pos)
	c.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	left := [2]*big.Int{new(big.Int).Set(bal[0]), new(big.Int).Set(bal[1])}
	for _, k := range ks {
		if l := h.m.Pos[k].L; l.Sign() > 0 {
			if c.Intn(4) == 0 && l.Cmp(one) > 0 { // in two parts
				a := addI(randBelow(c.Rand, addI(l, -1)), 1)
				applyImpl(p, Op{Kind: "burn", Lo: k.Lo, Hi: k.Hi, A: a}, toUI)
				applyImpl(p, Op{Kind: "burn", Lo: k.Lo, Hi: k.Hi, A: new(big.Int).Sub(l, a)}, toUI)
				roundings += 3
			} else {
				applyImpl(p, Op{Kind: "burn", Lo: k.Lo, Hi: k.Hi, A: l}, toUI)
			}
			roundings += 3
		}
		a, b := applyImpl(p, Op{Kind: "collect", Lo: k.Lo, Hi: k.Hi}, toUI)
		left[0].Sub(left[0], a)
		left[1].Sub(left[1], b)
		for j := range left {
			if left[j].Sign() < 0 {
				c.Fail("after %v: paying out the positions leaves the pool short of %v of token %d", o, new(big.Int).Neg(left[j]), j)
			}
		}
	}
	for j := range left {
		if left[j].Cmp(addI(extra[j], roundings)) > 0 {
			c.Fail("after %v: with everything burnt and collected %v of token %d remain in the pool, more than %d roundings (and %v of price rounding) explain", o, left[j], j, roundings, extra[j])
		}
	}
	if fromUIS(p.Liquidity).Sign() != 0 {
		c.Fail("after %v: with everything burnt active liquidity is %v", o, fromUIS(p.Liquidity))
	}
	c.Eval(1)
	c.Count("liquidations", 1)
	c.Distinct(o.Kind, len(ks), left[0].BitLen(), left[1].BitLen())
}

// c14trade tries to gain by trading back and forth and by splitting.
func c14trade(c *Case, h *Hist) {
	m := h.m
	if m.L.Sign() == 0 && c.Intn(4) != 0 {
		return
	}
	zf1 := c.Intn(2) == 0
	if zf1 && m.P.Cmp(addI(ref.MinSP, 1)) <= 0 || !zf1 && m.P.Cmp(addI(ref.MaxSP, -1)) >= 0 {
		return
	}
	amt := addI(randBits(c.Rand, h.lbits+4), 1)
	if c.Intn(3) == 0 {
		// cross a few ticks
		if o, ok := h.swapOp(); ok {
			zf1, amt = o.ZF1, new(big.Int).Abs(o.A)
		}
	}
	run := func(p *ppool.Pool, z bool, a *big.Int) (in, out *big.Int) {
		x, y := applyImpl(p, Op{Kind: "swap", ZF1: z, A: a, Limit: new(big.Int)}, toUI)
		if !z {
			x, y = y, x
		}
		return x, y
	}
	room := func(p *ppool.Pool, z bool) bool {
		P := fromUI(p.SqrtRatioX96)
		if z {
			return P.Cmp(addI(ref.MinSP, 1)) > 0
		}
		return P.Cmp(addI(ref.MaxSP, -1)) < 0
	}
	// there and back
	p := h.impl.Clone()
	in, out := run(p, zf1, amt)
	got := new(big.Int).Neg(out)
	if got.Sign() > 0 && room(p, !zf1) {
		back, ret := run(p, !zf1, got)
		c.Eval(1)
		c.Count("round_trips", 1)
		if new(big.Int).Neg(ret).Cmp(in) > 0 && back.Cmp(got) <= 0 {
			c.Fail("swapping %v (zeroForOne %v) gave %v, swapping that back returned %v", in, zf1, got, new(big.Int).Neg(ret))
		}
	}
	// split an exact input
	if amt.Cmp(one) > 0 && in.Cmp(amt) == 0 {
		a := addI(randBelow(c.Rand, addI(amt, -1)), 1)
		p := h.impl.Clone()
		_, o1 := run(p, zf1, a)
		if room(p, zf1) {
			_, o2 := run(p, zf1, new(big.Int).Sub(amt, a))
			c.Eval(1)
			c.Count("splits_in", 1)
			s := new(big.Int).Add(o1, o2)
			if s.Cmp(out) < 0 { // both negative: more was paid out
				c.Fail("swapping %v at once gave %v, in two parts (%v first) %v", amt, new(big.Int).Neg(out), a, s.Neg(s))
			}
		}
	}
	// split an exact output
	want := new(big.Int).Neg(got)
	if got.Cmp(one) > 0 {
		p := h.impl.Clone()
		cost, o := run(p, zf1, want)
		if o.Cmp(want) != 0 {
			return
		}
		a := addI(randBelow(c.Rand, addI(got, -1)), 1)
		p = h.impl.Clone()
		c1, p1 := run(p, zf1, new(big.Int).Neg(a))
		if room(p, zf1) {
			c2, p2 := run(p, zf1, new(big.Int).Sub(a, got))
			if new(big.Int).Add(p1, p2).Cmp(want) == 0 {
				c.Eval(1)
				c.Count("splits_out", 1)
				if s := new(big.Int).Add(c1, c2); s.Cmp(cost) < 0 {
					c.Fail("buying %v at once costs %v, in two parts (%v first) %v", got, cost, a, s)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C15

func checkC15(x *Ctx) {
	x.rule = "each evaluation is one swap of the real pool judged by the stop conditions only: completes, uses or delivers the whole amount or stops exactly at the limit, moves only in its direction, amounts carry the right signs, no tokens move where there is no liquidity; distinct = (stop reason, direction, exact in/out, liquidity before and after, crossings, sign of tick)"
	x.Require("stopped.amount", "stopped.limit", "stopped.both", "empty_pool", "gap", "negative", "exact_out", "no_limit", "extreme_price")
	x.histories(x.N(40000, 800000), func(c *Case) {
		h := NewHist(c)
		n := 15 + c.Intn(40)
		if h.factor >= 20 {
			n = h.long(n)
		}
		k := 0
		if c.Intn(6) == 0 {
			k = 3 // swaps in a pool that never had a tick
		}
		for i := 0; i < n; i++ {
			if k > 0 {
				k--
				if o, ok := h.swapOp(); ok {
					c15swap(c, h, o)
				}
				continue
			}
			o := h.Next()
			if o.Kind == "swap" {
				c15swap(c, h, o)
				continue
			}
			if _, _, err := applyModel(h.m, o); err != nil {
				continue
			}
			c.Op("%v", o)
			h.account(o)
			applyImpl(h.impl, o, h.arg)
		}
		h.args.check(c, "the history")
	})
}

func c15swap(c *Case, h *Hist, o Op) {
	before := h.m.Stats
	P0 := fromUI(h.impl.SqrtRatioX96)
	L0 := fromUIS(h.impl.Liquidity)
	if _, _, err := applyModel(h.m, o); err != nil {
		return
	}
	c.Op("%v", o)
	a0, a1 := applyImpl(h.impl, o, h.arg)
	P1 := fromUI(h.impl.SqrtRatioX96)
	limit := o.Limit
	if limit.Sign() == 0 {
		c.Count("no_limit", 1)
		limit = addI(ref.MaxSP, -1)
		if o.ZF1 {
			limit = addI(ref.MinSP, 1)
		}
	}
	in, out := a0, a1
	if !o.ZF1 {
		in, out = a1, a0
	}
	spec := in
	if o.A.Sign() < 0 {
		spec = out
		c.Count("exact_out", 1)
	}
	whole, atLimit := spec.Cmp(o.A) == 0, P1.Cmp(limit) == 0
	reason := "amount"
	if whole && atLimit {
		reason = "both"
	} else if atLimit {
		reason = "limit"
	}
	c.Eval(1)
	c.Count("stopped."+reason, 1)
	if !whole && !atLimit {
		c.Fail("%v stopped at price %v with %v of the amount used", o, P1, spec)
	}
	if o.ZF1 && (P1.Cmp(P0) > 0 || P1.Cmp(limit) < 0) || !o.ZF1 && (P1.Cmp(P0) < 0 || P1.Cmp(limit) > 0) {
		c.Fail("%v moved the price from %v to %v", o, P0, P1)
	}
	if in.Sign() < 0 || out.Sign() > 0 {
		c.Fail("%v returned amounts (%v, %v)", o, a0, a1)
	}
	if spec.CmpAbs(o.A) > 0 {
		c.Fail("%v used %v, more than specified", o, spec)
	}
	s := h.m.Stats
	gap := s.ZeroLiqSteps - before.ZeroLiqSteps
	if gap > 0 {
		c.Count("gap", 1)
	}
	if gap == s.Steps-before.Steps || (len(h.m.Ticks) == 0) {
		if len(h.m.Ticks) == 0 {
			c.Count("empty_pool", 1)
		}
		if a0.Sign() != 0 || a1.Sign() != 0 {
			c.Fail("%v exchanged (%v, %v) where there is no liquidity", o, a0, a1)
		}
	}
	if h.impl.TickCurrent < 0 {
		c.Count("negative", 1)
	}
	if P1.BitLen() < 40 || P1.BitLen() > 150 {
		c.Count("extreme_price", 1)
	}
	c.Distinct(reason, o.ZF1, o.A.Sign(), L0.Sign(), fromUIS(h.impl.Liquidity).Sign(), s.Crosses-before.Crosses, gap > 0, h.impl.TickCurrent < 0, h.m.Fee)
}
