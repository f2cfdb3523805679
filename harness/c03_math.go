package main

import (
	"math/big"

	"uniswap-simulator/lib/fullmath"
	"uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C07"] = checkC07
	checks["C08"] = checkC08
}

// ---------------------------------------------------------------- C03

func checkC03(x *Ctx) {
	x.rule = "each evaluation calls MulDiv and MulDivRoundingUp on one triple and compares with the exact 512-bit quotient, or requires a rejection; distinct counts (word lengths of both factors, of the divisor and of the quotient, exactness, outcome)"
	x.Require("fits", "exact", "inexact", "rejected.large", "rejected.zero", "quotient_max", "roundup_overflow", "short_product", "remainder_chosen")
	x.Run("muldiv", x.N(60000, 2000000), func(c *Case) {
		for k := 0; k < 150; k++ {
			c.Tick()
			c03one(c)
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "150 triples; last operands are in counters only")
		}
	})
}

func c03one(c *Case) {
	a, b, d := operand(c), operand(c), operand(c)
	ba, bb := fromUI(a), fromUI(b)
	prod := new(big.Int).Mul(ba, bb)
	switch c.Intn(11) {
	case 0, 1: // quotient near the 256-bit edge: d ~ prod / 2^256
		bd := new(big.Int).Rsh(prod, 256)
		bd.Add(bd, big.NewInt(int64(c.Intn(4)-1)))
		if bd.Sign() >= 0 && bd.BitLen() <= 256 {
			d = toUI(bd)
		}
	case 2: // exact multiple: d divides a
		bd := randBits(c.Rand, 128)
		q := randBits(c.Rand, 128)
		a = toUI(new(big.Int).Mul(bd, q))
		d = toUI(bd)
	case 3: // quotient of exactly 2^256-1 (with a remainder in the second form)
		m := ref.Max
		bd := randExact(c.Rand, 2+c.Intn(255))
		a, d = toUI(m), toUI(bd)
		b = toUI(bd)
		if c.Intn(2) == 0 {
			// a*b/d = (2^256-1) + r/d for odd shapes: a=2^256-1, b=d+1 with tiny d+1 overflows; use b = d
			a = toUI(addI(m, -int64(c.Intn(2))))
			b = toUI(addI(bd, int64(c.Intn(2))))
		}
	case 4: // divisor near the product
		bd := addI(prod, int64(c.Intn(3)-1))
		if bd.Sign() >= 0 && bd.BitLen() <= 256 {
			d = toUI(bd)
		}
	case 5: // quotient with remainder beyond 2^256-1: find b so that floor(a*b/d) = 2^256-1
		bd := randExact(c.Rand, 1+c.Intn(256))
		ax := randExact(c.Rand, 200+c.Intn(57))
		n := new(big.Int).Mul(ref.Q256, bd)
		n.Sub(n, one)
		bx := n.Quo(n, ax)
		if bx.BitLen() <= 256 {
			a, b, d = toUI(ax), toUI(bx), toUI(bd)
		}
	case 6: // product at the edge of some number of words
		fx, fy := factors(c)
		a, b = toUI(fx), toUI(fy)
		if n := fx.BitLen() + fy.BitLen(); n > 256 && c.Intn(2) == 0 {
			d = toUI(randExact(c.Rand, n-256))
		} else if c.Intn(2) == 0 {
			d = toUI(randExact(c.Rand, 1+c.Intn(256)))
		}
	case 7, 8: // a remainder with few bits, often by a power of two
		bd := fromUI(d)
		if c.Intn(2) == 0 {
			bd = pow2(uint(c.Intn(256)))
			if c.Intn(3) == 0 {
				bd = pow2(uint([]int{32, 64, 96, 128, 160, 192}[c.Intn(6)]))
			}
		}
		if fx, fy, ok := leaving(c, bd); ok {
			a, b, d = toUI(fx), toUI(fy), toUI(bd)
			c.Count("remainder_chosen", 1)
		}
	}
	if c.Intn(12) == 0 {
		b = a
	}
	if c.Intn(12) == 0 {
		d = b
	}
	again(c, "muldiv", &a, &b, &d)
	ba, bb = fromUI(a), fromUI(b)
	bd := fromUI(d)
	prod.Mul(ba, bb)
	g := guardOf(a, b, d)
	c.Eval(2)
	if prod.Sign() == 0 {
		if bd.Sign() == 0 {
			return // 0*x/0 is left open
		}
		c.eqUI("MulDiv", fullmath.MulDiv(a, b, d), prod, ba, bb, bd)
		c.eqUI("MulDivRoundingUp", fullmath.MulDivRoundingUp(a, b, d), prod, ba, bb, bd)
		g.check(c, "MulDiv")
		return
	}
	lo, elo := ref.MulDiv(ba, bb, bd)
	hi, ehi := ref.MulDivUp(ba, bb, bd)
	var glo, ghi *ui.Int
	badLo, v := c.Try(func() { glo = fullmath.MulDiv(a, b, d) })
	badHi, w := c.Try(func() { ghi = fullmath.MulDivRoundingUp(a, b, d) })
	if badLo != (elo != nil) {
		c.Fail("MulDiv(%#x, %#x, %#x): rejected %v (%v), model %v / %v", ba, bb, bd, badLo, v, lo, elo)
	}
	if badHi != (ehi != nil) {
		c.Fail("MulDivRoundingUp(%#x, %#x, %#x): rejected %v (%v), model %v / %v", ba, bb, bd, badHi, w, hi, ehi)
	}
	out := "fits"
	if elo == nil {
		c.eqUI("MulDiv", glo, lo, ba, bb, bd)
		c.Count("fits", 1)
		if lo.Cmp(ref.Max) == 0 {
			c.Count("quotient_max", 1)
			if ehi != nil {
				c.Count("roundup_overflow", 1)
			}
		}
		if ehi == nil {
			c.eqUI("MulDivRoundingUp", ghi, hi, ba, bb, bd)
			if lo.Cmp(hi) == 0 {
				c.Count("exact", 1)
			} else {
				c.Count("inexact", 1)
			}
		}
		if wl(prod) < wl(bd) {
			c.Count("short_product", 1)
		}
	} else if bd.Sign() == 0 {
		c.Count("rejected.zero", 1)
		out = "zero"
	} else {
		c.Count("rejected.large", 1)
		out = "large"
	}
	g.check(c, "MulDiv")
	n := 0
	if lo != nil {
		n = wl(lo)
	}
	c.Distinct(wl(ba), wl(bb), wl(bd), n, out, lo != nil && hi != nil && lo.Cmp(hi) == 0)
}

// ---------------------------------------------------------------- C04

const chunk = 8192

func chunks() int { return (ref.MaxTick-ref.MinTick)/chunk + 1 }

func checkC04(x *Ctx) {
	x.rule = "every tick's price is compared with the contract's formula (also checked against 300-bit powers of sqrt(1.0001)), for strict growth, and again after overwriting every returned number; out-of-range ticks must be rejected; distinct = ticks"
	x.exhaust = true
	x.Require("ticks", "reread", "rejected")
	total := chunks()
	// pass 1: values; the returned numbers are overwritten
	x.Run("values", total, func(c *Case) {
		lo := ref.MinTick + c.idx*chunk
		hi := lo + chunk
		if hi > ref.MaxTick+1 {
			hi = ref.MaxTick + 1
		}
		c.Op("ticks %d..%d", lo, hi-1)
		// independent high-precision value at the chunk start
		step := new(big.Float).SetPrec(400).SetRat(big.NewRat(10001, 10000))
		step.Sqrt(step)
		f := powFloat(step, lo)
		q96 := new(big.Float).SetPrec(400).SetInt(ref.Q96)
		f.Mul(f, q96)
		prev := new(big.Int)
		for t := lo; t < hi; t++ {
			got := tickmath.TM.GetSqrtRatioAtTick(t)
			want := ref.ComputeSqrtAt(t)
			b := fromUI(got)
			if b.Cmp(want) != 0 {
				c.Fail("price of tick %d: %v, want %v", t, b, want)
			}
			if t > lo && b.Cmp(prev) <= 0 {
				c.Fail("prices of ticks %d and %d do not grow", t-1, t)
			}
			if t == lo && t > ref.MinTick {
				if p := fromUI(tickmath.TM.GetSqrtRatioAtTick(t - 1)); p.Cmp(b) >= 0 {
					c.Fail("prices of ticks %d and %d do not grow", t-1, t)
				}
			}
			// Every multiplication truncates below one unit of the 128-bit ratio,
			// so |price - 2^96 sqrt(1.0001)^t| <= 1.01 + 20 price^2 / 2^224.
			diff := new(big.Float).SetPrec(400).SetInt(b)
			diff.Sub(diff, f)
			diff.Abs(diff)
			tol := new(big.Float).SetPrec(400).Mul(f, f)
			tol.SetMantExp(tol, -224)
			tol.Mul(tol, big.NewFloat(20))
			tol.Add(tol, big.NewFloat(1.01))
			if diff.Cmp(tol) > 0 {
				c.Fail("price of tick %d is %v away from 2^96*sqrt(1.0001)^%d", t, diff.Text('g', 10), t)
			}
			f.Mul(f, step)
			prev = b
			for i := range got {
				got[i] = ^got[i]
			}
			c.Tick()
		}
		if lo == ref.MinTick && fromUI(tickmath.TM.GetSqrtRatioAtTick(lo)).Cmp(fromUI(tickmath.MinSqrtRatio)) != 0 || fromUI(tickmath.MinSqrtRatio).Cmp(ref.MinSP) != 0 {
			c.Fail("the smallest price is not the minimum ratio")
		}
		if hi == ref.MaxTick+1 && fromUI(tickmath.TM.GetSqrtRatioAtTick(hi-1)).Cmp(fromUI(tickmath.MaxSqrtRatio)) != 0 || fromUI(tickmath.MaxSqrtRatio).Cmp(ref.MaxSP) != 0 {
			c.Fail("the largest price is not the maximum ratio")
		}
		c.Count("ticks", int64(hi-lo))
		c.Eval(int64(hi - lo))
		for t := lo; t < hi; t++ {
			c.dist = append(c.dist, uint64(t-ref.MinTick))
		}
	})
	// pass 2: the same answers after every returned number was overwritten
	x.Run("reread", total, func(c *Case) {
		lo := ref.MinTick + c.idx*chunk
		hi := lo + chunk
		if hi > ref.MaxTick+1 {
			hi = ref.MaxTick + 1
		}
		c.Op("re-reading ticks %d..%d", lo, hi-1)
		for t := lo; t < hi; t++ {
			got := tickmath.TM.GetSqrtRatioAtTick(t)
			if b := fromUI(got); b.Cmp(ref.ComputeSqrtAt(t)) != 0 {
				c.Fail("price of tick %d after callers overwrote returned values: %v, want %v", t, b, ref.ComputeSqrtAt(t))
			}
			got.Clear()
			if t%64 == 0 { // again, immediately
				if b := fromUI(tickmath.TM.GetSqrtRatioAtTick(t)); b.Cmp(ref.ComputeSqrtAt(t)) != 0 {
					c.Fail("price of tick %d after overwriting it: %v", t, b)
				}
			}
			c.Tick()
		}
		c.Count("reread", int64(hi-lo))
		c.Eval(int64(hi - lo))
	})
	x.Run("range", 64, func(c *Case) {
		for k := 0; k < 64; k++ {
			t := ref.MaxTick + 1 + c.Intn(3)
			switch c.Intn(4) {
			case 0:
				t += c.Intn(1 << 22)
			case 1:
				t = 1 << uint(20+c.Intn(42))
			}
			if c.Intn(2) == 0 {
				t = -t
			}
			if k == 0 {
				t = ref.MaxTick + 1
			} else if k == 1 {
				t = ref.MinTick - 1
			}
			c.Op("tick %d", t)
			var r *ui.Int
			if bad, _ := c.Try(func() { r = tickmath.TM.GetSqrtRatioAtTick(t) }); !bad {
				c.Fail("tick %d is outside the range but has price %v", t, fromUI(r))
			}
			c.Count("rejected", 1)
			c.Eval(1)
		}
	})
}

func powFloat(x *big.Float, n int) *big.Float {
	neg := n < 0
	if neg {
		n = -n
	}
	r := new(big.Float).SetPrec(400).SetInt64(1)
	b := new(big.Float).Copy(x)
	for n > 0 {
		if n&1 == 1 {
			r.Mul(r, b)
		}
		b.Mul(b, b)
		n >>= 1
	}
	if neg {
		r.Quo(new(big.Float).SetPrec(400).SetInt64(1), r)
	}
	return r
}

// ---------------------------------------------------------------- C05

func checkC05(x *Ctx) {
	x.rule = "each evaluation looks up one price (every tick's own price, its two neighbours, a random price of its interval, and random prices over all magnitudes) and requires price(answer) <= p < price(answer+1) with the model's prices; distinct = (tick, place in its interval)"
	x.Require("at", "below", "above", "between", "random", "alike", "rejected")
	look := func(c *Case, p *big.Int, what string) {
		u := toUI(p)
		k := *u
		var got int
		if bad, v := c.Try(func() { got = tickmath.TM.GetTickAtSqrtRatio(u) }); bad {
			c.Fail("lookup of valid price %v panicked: %v", p, v)
		}
		c.Eval(1)
		c.Count(what, 1)
		if got < ref.MinTick || got >= ref.MaxTick || ref.SqrtAt(got).Cmp(p) > 0 || ref.SqrtAt(got+1).Cmp(p) <= 0 {
			c.Fail("lookup of price %v (%s): tick %d, want %d", p, what, got, ref.TickAt(p))
		}
		if *u != k {
			c.Fail("lookup modified its argument %v", p)
		}
	}
	x.Run("ticks", chunks(), func(c *Case) {
		lo := ref.MinTick + c.idx*chunk
		hi := lo + chunk
		if hi > ref.MaxTick {
			hi = ref.MaxTick
		}
		c.Op("prices around ticks %d..%d", lo, hi-1)
		for t := lo; t < hi; t++ {
			c.Tick()
			p := ref.SqrtAt(t)
			look(c, p, "at")
			if t > ref.MinTick {
				look(c, addI(p, -1), "below")
			}
			look(c, addI(p, 1), "above")
			n := ref.SqrtAt(t + 1)
			r := new(big.Int).Sub(n, p)
			look(c, r.Add(p, randBelow(c.Rand, r)), "between")
			c.dist = append(c.dist, uint64(4*(t-ref.MinTick)), uint64(4*(t-ref.MinTick))+1, uint64(4*(t-ref.MinTick))+2, uint64(4*(t-ref.MinTick))+3)
		}
		if hi == ref.MaxTick {
			look(c, addI(ref.MaxSP, -1), "below")
		}
	})
	x.Run("random", x.N(200, 4000), func(c *Case) {
		for k := 0; k < 500; k++ {
			c.Tick()
			p := randExact(c.Rand, 33+c.Intn(128))
			if p.Cmp(ref.MinSP) < 0 || p.Cmp(ref.MaxSP) >= 0 {
				continue
			}
			look(c, p, "random")
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "500 random prices")
		}
	})
	// Prices that agree in part of their representation, looked up in a row.
	x.Run("alike", x.N(2000, 40000), func(c *Case) {
		valid := func(p *big.Int) bool { return p.Cmp(ref.MinSP) >= 0 && p.Cmp(ref.MaxSP) < 0 }
		for k := 0; k < 60; k++ {
			c.Tick()
			p := c.price()
			if !valid(p) {
				continue
			}
			look(c, p, "random")
			for j := 0; j < 6; j++ {
				q := fromUI(relative(c, toUI(p)))
				if c.Intn(4) == 0 { // the same low or high bits
					n := uint(1 + c.Intn(159))
					m := addI(pow2(n), -1)
					if c.Intn(2) == 0 {
						q = new(big.Int).Or(new(big.Int).And(p, m), new(big.Int).Lsh(randBits(c.Rand, 160-int(n)), n))
					} else {
						q = new(big.Int).Or(new(big.Int).AndNot(p, m), randBits(c.Rand, int(n)))
					}
				}
				if valid(q) {
					look(c, q, "alike")
					look(c, p, "random")
				}
			}
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "60 prices and six relatives of each")
		}
	})
	x.Run("reject", 200, func(c *Case) {
		for k := 0; k < 20; k++ {
			var p *big.Int
			switch c.Intn(5) {
			case 0:
				p = addI(ref.MinSP, -1-int64(c.Intn(3)))
			case 1:
				p = randBelow(c.Rand, ref.MinSP)
			case 2:
				p = addI(ref.MaxSP, int64(c.Intn(3)))
			case 3:
				p = randExact(c.Rand, 161+c.Intn(96))
			case 4:
				p = addI(ref.Max, -int64(c.Intn(100)))
			}
			c.Op("price %v", p)
			u := toUI(p)
			k := *u
			var got int
			if bad, _ := c.Try(func() { got = tickmath.TM.GetTickAtSqrtRatio(u) }); !bad {
				c.Fail("price %v outside the valid range was looked up as tick %d", p, got)
			}
			if *u != k {
				c.Fail("lookup modified its argument %v", p)
			}
			c.Count("rejected", 1)
			c.Eval(1)
		}
	})
}

// ---------------------------------------------------------------- C07

func checkC07(x *Ctx) {
	x.rule = "each evaluation runs one swap step and compares next price, input, output and fee with the contract's computation and with the bounds of the statement; distinct counts (direction, exact in/out, target reached, bit lengths of liquidity and amount, fee class)"
	x.Require("in.reached", "in.partial", "out.reached", "out.partial", "zero_liquidity", "huge_amount", "capped_output", "edge")
	x.Run("step", x.N(60000, 2000000), func(c *Case) {
		for k := 0; k < 80; k++ {
			c.Tick()
			c07one(c)
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "80 generated steps; parameters in counters")
		}
	})
}

func c07one(c *Case) {
	p, target := c.pair()
	l := randBits(c.Rand, 128)
	againIn(c, "step", []*big.Int{ref.MinSP, ref.MinSP, new(big.Int)}, []*big.Int{ref.MaxSP, ref.MaxSP, addI(ref.Q128, -1)}, &p, &target, &l)
	fee := c.fee()
	zf1 := p.Cmp(target) >= 0
	exactIn := c.Intn(2) == 0
	// the step's own full input or output, to aim amounts at its edge
	var edge *big.Int
	var e error
	if exactIn == zf1 {
		edge, e = ref.Amount0Delta(p, target, l, exactIn)
	} else {
		edge, e = ref.Amount1Delta(p, target, l, exactIn)
	}
	if e != nil {
		c.Fail("model: %v", e)
	}
	if exactIn { // gross it up by the fee
		n := new(big.Int).Mul(edge, ref.E6)
		edge = ref.CeilDiv(n, big.NewInt(int64(1000000-fee)))
	}
	var amt *big.Int
	switch c.Intn(8) {
	case 0, 1, 2:
		amt = addI(edge, int64(c.Intn(5)-2))
		c.Count("edge", 1)
	case 3:
		amt = randBelow(c.Rand, addI(edge, 2))
	case 4:
		amt = randBits(c.Rand, 20)
	case 5:
		amt = addI(ref.Q255, -int64(1+c.Intn(4)))
	default:
		amt = randBits(c.Rand, 255)
	}
	if amt.Sign() < 0 {
		amt = new(big.Int)
	}
	if amt.BitLen() > 255 {
		amt = addI(ref.Q255, -1)
	}
	if !exactIn {
		if amt.Sign() == 0 {
			amt = big.NewInt(1)
		}
		amt = new(big.Int).Neg(amt)
		if c.Intn(200) == 0 {
			amt = new(big.Int).Neg(ref.Q255)
		}
	}
	next, in, out, feeAmt, err := ref.Step(p, target, l, amt, int64(fee))
	if err != nil {
		c.Fail("model: step(%v, %v, %v, %v, %d): %v", p, target, l, amt, fee, err)
	}
	up, ut, ul, ua := toUI(p), toUI(target), toUI(l), toUI(amt)
	g := guardOf(up, ut, ul, ua)
	var gn, gi, go_, gf *ui.Int
	if bad, v := c.Try(func() { gn, gi, go_, gf = swapmath.ComputeSwapStep(up, ut, ul, ua, fee) }); bad {
		c.Fail("step(price %v, target %v, liquidity %v, amount %v, fee %d) panicked: %v", p, target, l, amt, fee, v)
	}
	c.Eval(1)
	args := []interface{}{p, target, l, amt, fee}
	c.eqUI("swap step next price", gn, next, args...)
	c.eqUI("swap step input", gi, in, args...)
	c.eqUI("swap step output", go_, out, args...)
	c.eqUI("swap step fee", gf, feeAmt, args...)
	g.check(c, "ComputeSwapStep")
	// bounds, without the model
	N, I, O, F := fromUI(gn), fromUI(gi), fromUI(go_), fromUI(gf)
	if zf1 && (N.Cmp(target) < 0 || N.Cmp(p) > 0) || !zf1 && (N.Cmp(target) > 0 || N.Cmp(p) < 0) {
		c.Fail("step left its interval: %v -> %v, target %v", p, N, target)
	}
	reached := N.Cmp(target) == 0
	if exactIn {
		s := new(big.Int).Add(I, F)
		if s.Cmp(amt) > 0 || (!reached && s.Cmp(amt) != 0) {
			c.Fail("step(%v, %v, %v, %v, %d) takes %v+%v of an input of %v (target reached: %v)", p, target, l, amt, fee, I, F, amt, reached)
		}
	} else if O.Cmp(new(big.Int).Neg(amt)) > 0 {
		c.Fail("step gives %v, more than the requested %v", O, amt)
	}
	k := "out."
	if exactIn {
		k = "in."
	}
	if reached {
		k += "reached"
	} else {
		k += "partial"
	}
	c.Count(k, 1)
	if l.Sign() == 0 {
		c.Count("zero_liquidity", 1)
	}
	if amt.BitLen() > 236 {
		c.Count("huge_amount", 1)
	}
	if !exactIn && !reached && O.CmpAbs(amt) == 0 {
		c.Count("capped_output", 1)
	}
	c.Distinct(zf1, k, l.BitLen(), amt.BitLen(), fee == 500 || fee == 3000 || fee == 10000)
}

// ---------------------------------------------------------------- C08

func checkC08(x *Ctx) {
	x.rule = "each evaluation calls one amount-delta or next-price function and compares with the exact rational value (deltas) or the contract's value and the pool-favouring side (next price), or requires a rejection; distinct counts (function, direction, rounding, bit lengths, outcome)"
	x.Require("delta0.up", "delta0.down", "delta1.up", "delta1.down", "signed.neg", "signed.pos", "next.in", "next.out", "next.rejected", "next.fallback", "zero_price")
	x.Run("delta", x.N(50000, 1500000), func(c *Case) {
		for k := 0; k < 80; k++ {
			c.Tick()
			c08delta(c)
			c08next(c)
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "80 delta and 80 next-price evaluations; parameters in counters")
		}
	})
}

func c08delta(c *Case) {
	a, b := c.pair()
	l := randBits(c.Rand, 128)
	againIn(c, "delta", []*big.Int{ref.MinSP, ref.MinSP, new(big.Int)}, []*big.Int{ref.MaxSP, ref.MaxSP, addI(ref.Q128, -1)}, &a, &b, &l)
	if c.Intn(60) == 0 {
		b = new(big.Int).Set(a)
	}
	up := c.Intn(2) == 0
	ua, ub, ul := toUI(a), toUI(b), toUI(l)
	g := guardOf(ua, ub, ul)
	c.Eval(6)
	c.eqUI("amount0 delta", sqrtprice_math.GetAmount0Delta(ua, ub, ul, up), exact0(a, b, l, up), a, b, l, up)
	c.eqUI("amount0 delta (prices swapped)", sqrtprice_math.GetAmount0Delta(ub, ua, ul, up), exact0(a, b, l, up), a, b, l, up)
	c.eqUI("amount1 delta", sqrtprice_math.GetAmount1Delta(ua, ub, ul, up), exact1(a, b, l, up), a, b, l, up)
	c.eqUI("amount1 delta (prices swapped)", sqrtprice_math.GetAmount1Delta(ub, ua, ul, up), exact1(a, b, l, up), a, b, l, up)
	g.check(c, "amount delta")
	s := "down"
	if up {
		s = "up"
	}
	c.Count("delta0."+s, 1)
	c.Count("delta1."+s, 1)
	sl := new(big.Int).Set(l)
	w0, w1 := exact0(a, b, l, true), exact1(a, b, l, true)
	if c.Intn(2) == 0 && l.Sign() > 0 {
		sl.Neg(l)
		w0, w1 = exact0(a, b, l, false), exact1(a, b, l, false)
		w0.Neg(w0)
		w1.Neg(w1)
		c.Count("signed.neg", 1)
	} else {
		c.Count("signed.pos", 1)
	}
	us := toUI(sl)
	g = guardOf(ua, ub, us)
	c.eqUI("signed amount0 delta", sqrtprice_math.GetAmount0DeltaRounded(ua, ub, us), w0, a, b, sl)
	c.eqUI("signed amount1 delta", sqrtprice_math.GetAmount1DeltaRounded(ub, ua, us), w1, a, b, sl)
	g.check(c, "signed amount delta")
	if c.Intn(40) == 0 {
		z := new(ui.Int)
		c.Count("zero_price", 1)
		if bad, _ := c.Try(func() { sqrtprice_math.GetAmount0Delta(z, ub, ul, up) }); !bad {
			c.Fail("amount0 delta accepts a zero price")
		}
		if bad, _ := c.Try(func() { sqrtprice_math.GetAmount0Delta(ub, z, ul, up) }); !bad {
			c.Fail("amount0 delta accepts a zero price")
		}
	}
	c.Distinct("delta", a.BitLen()/4, b.BitLen()/4, l.BitLen()/4, up)
}

func c08next(c *Case) {
	p := c.price()
	l := randBits(c.Rand, 128)
	zf1 := c.Intn(2) == 0
	input := c.Intn(2) == 0
	if c.Intn(80) == 0 {
		p = new(big.Int)
	}
	// reserves, to aim at their edge
	var amt *big.Int
	switch c.Intn(7) {
	case 0, 1:
		amt = randBits(c.Rand, 256)
	case 2: // token0 reserve L*2^96/p
		if p.Sign() > 0 {
			amt = addI(new(big.Int).Quo(new(big.Int).Lsh(l, 96), p), int64(c.Intn(5)-2))
		}
	case 3: // token1 reserve L*p/2^96
		amt = addI(new(big.Int).Rsh(new(big.Int).Mul(l, p), 96), int64(c.Intn(5)-2))
	case 4: // around the multiplication overflow of the fallback
		if p.Sign() > 0 {
			amt = addI(new(big.Int).Quo(ref.Max, p), int64(c.Intn(5)-2))
		}
	case 5: // around the 160-bit price edge
		if l.Sign() > 0 {
			t := new(big.Int).Sub(ref.Q160, p)
			t.Mul(t, l)
			t.Rsh(t, 96)
			amt = addI(t, int64(c.Intn(5)-2))
		}
	}
	if amt == nil {
		amt = randBits(c.Rand, 60)
	}
	if amt.Sign() < 0 {
		amt = new(big.Int)
	}
	if amt.BitLen() > 256 {
		amt = new(big.Int).Set(ref.Max)
	}
	if p.Sign() > 0 {
		againIn(c, "next", []*big.Int{ref.MinSP, new(big.Int), new(big.Int)}, []*big.Int{ref.MaxSP, addI(ref.Q128, -1), ref.Max}, &p, &l, &amt)
	}
	fn, rf := sqrtprice_math.GetNextSqrtPriceFromInput, ref.NextFromInput
	name := "next.in"
	if !input {
		fn, rf = sqrtprice_math.GetNextSqrtPriceFromOutput, ref.NextFromOutput
		name = "next.out"
	}
	want, err := rf(p, l, amt, zf1)
	up, ul, ua := toUI(p), toUI(l), toUI(amt)
	g := guardOf(up, ul, ua)
	var got *ui.Int
	bad, v := c.Try(func() { got = fn(up, ul, ua, zf1) })
	c.Eval(1)
	c.Count(name, 1)
	if bad != (err != nil) {
		c.Fail("%s(price %v, liquidity %v, amount %v, zeroForOne %v): rejected %v (%v), model %v %v", name, p, l, amt, zf1, bad, v, want, err)
	}
	g.check(c, name)
	if err != nil {
		c.Count("next.rejected", 1)
		c.Distinct(name, zf1, "rejected", amt.BitLen()/8, l.BitLen()/8)
		return
	}
	c.eqUI(name, got, want, p, l, amt, zf1)
	if input && zf1 && new(big.Int).Mul(amt, p).BitLen() > 256 {
		c.Count("next.fallback", 1)
	}
	// the exact curve: the pool never gives more or receives less
	N := fromUI(got)
	lq := new(big.Int).Lsh(l, 96)
	switch {
	case zf1 && input: // N >= lq*p/(lq+amt*p)
		lhs := new(big.Int).Mul(N, new(big.Int).Add(lq, new(big.Int).Mul(amt, p)))
		if lhs.Cmp(new(big.Int).Mul(lq, p)) < 0 {
			c.Fail("next price %v after input %v is below the exact curve", N, amt)
		}
	case !zf1 && input: // N <= p + amt*2^96/l
		lhs := new(big.Int).Mul(new(big.Int).Sub(N, p), l)
		if lhs.Cmp(new(big.Int).Lsh(amt, 96)) > 0 {
			c.Fail("next price %v after input %v is above the exact curve", N, amt)
		}
	case zf1 && !input: // N <= p - amt*2^96/l
		lhs := new(big.Int).Mul(new(big.Int).Sub(p, N), l)
		if lhs.Cmp(new(big.Int).Lsh(amt, 96)) < 0 {
			c.Fail("next price %v after output %v is above the exact curve", N, amt)
		}
	default: // N >= lq*p/(lq-amt*p)
		lhs := new(big.Int).Mul(N, new(big.Int).Sub(lq, new(big.Int).Mul(amt, p)))
		if lhs.Cmp(new(big.Int).Mul(lq, p)) < 0 {
			c.Fail("next price %v after output %v is below the exact curve", N, amt)
		}
	}
	c.Distinct(name, zf1, amt.BitLen()/8, l.BitLen()/8)
}
