package main

import (
	"math/big"

	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/fullmath"
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() { checks["C06"] = checkC06 }

// checkC06: rounding of ticks to a spacing, and the protocol's constants.
func checkC06(x *Ctx) {
	x.rule = "each evaluation compares one rounding of one tick with integer division, or one protocol constant with its definition (before and after all parts of the library were used); distinct = (spacing, sign, position between two multiples)"
	x.exhaust = true
	x.Require("negative", "ties", "multiples", "constants", "constants_after_use", "executions_used", "beyond_the_range")
	span := 2*ref.MaxTick + 1000 // a tick plus the widest interval
	units := []int{10, 60, 200, 1, 2, 3, 7, 50, 100, 256, 887272}
	const block = 50000
	blocks := 2*span/block + 1
	c06constants(x, "constants")
	x.Run("round", blocks*len(units), func(c *Case) {
		u := units[c.idx%len(units)]
		lo := -span + c.idx/len(units)*block
		c.Op("ticks %d to %d, spacing %d", lo, lo+block-1, u)
		c06block(c, u, lo, lo+block-1)
	})
	x.Run("spacing", x.N(300, 20000), func(c *Case) {
		u := 1 + c.Intn(1<<uint(1+c.Intn(16)))
		lo := c.Intn(2*span) - span
		c.Op("ticks from %d, spacing %d", lo, u)
		c06block(c, u, lo, lo+2000)
		k := ref.FloorDiv(lo, u) * u
		c06block(c, u, k-2, k+2)
		if u%2 == 0 {
			c06block(c, u, k+u/2-1, k+u/2+1)
		}
	})
	x.Run("use", x.N(400, 4000), func(c *Case) {
		c.Try(func() {
			h := NewHist(c)
			for i := 0; i < 30; i++ {
				h.Step()
			}
		})
		c.Try(func() {
			d := newSD(c, stratKinds[c.idx%len(stratKinds)], true)
			d.s.MakeSnapshot()
			d.s.MakeSnapshot()
			d.s.Init()
			d.market()
			d.s.Rebalance()
			d.s.GetAmounts()
			d.s.BurnAll()
		})
		c.Try(func() {
			base, txs := newLog(c, 30)
			first, last := txs[0].Timestamp, txs[len(txs)-1].Timestamp
			iv := 1 + (last-first)/10
			par := c.stratParams(stratKinds[c.Intn(len(stratKinds))], base.TickSpacing)
			par.N = 2 + c.Intn(5)
			e := executor.CreateExecution(newStrategy(par, toUI(randExact(c.Rand, 30)), toUI(randExact(c.Rand, 60)), base), first+3*iv, last, iv, iv, iv/2+1, txs)
			for _, t := range txs {
				t.MarshalJSON()
			}
			e.Run()
			c.Count("executions_used", 1)
		})
		v := func() *ui.Int {
			if c.Intn(8) == 0 {
				return new(ui.Int)
			}
			return toUI(randExact(c.Rand, 1+c.Intn(256)))
		}
		price := func() *ui.Int { return toUI(ref.SqrtAt(c.Intn(2*ref.MaxTick) - ref.MaxTick)) }
		for i := 0; i < 40; i++ {
			a, b, p, l := price(), price(), price(), toUI(randExact(c.Rand, 1+c.Intn(128)))
			up, rem := c.Intn(2) == 0, v()
			for _, f := range []func(){
				func() { sqrtprice_math.GetAmount0Delta(a, b, l, up) },
				func() { sqrtprice_math.GetAmount1Delta(a, b, l, up) },
				func() { sqrtprice_math.GetAmount0DeltaRounded(a, b, v()) },
				func() { sqrtprice_math.GetAmount1DeltaRounded(a, b, v()) },
				func() { sqrtprice_math.GetNextSqrtPriceFromInput(p, l, rem, up) },
				func() { sqrtprice_math.GetNextSqrtPriceFromOutput(p, l, rem, up) },
				func() { swapmath.ComputeSwapStep(a, b, l, rem, c.Intn(1000000)) },
				func() { la.GetLiquidityForAmount(p, a, b, rem, v()) },
				func() { la.GetAmountsForLiquidity(p, a, b, l) },
				func() { fullmath.MulDiv(v(), v(), v()) },
				func() { fullmath.MulDivRoundingUp(v(), v(), v()) },
				func() { tickmath.TM.GetTickAtSqrtRatio(p) },
			} {
				c.Try(f)
			}
		}
		c.Count("used", 1)
	})
	c06constants(x, "constants_after_use")
}

func c06block(c *Case, u, lo, hi int) {
	neg, tie, mul, far := int64(0), int64(0), int64(0), int64(0)
	for t := lo; t <= hi; t++ {
		fl := ref.FloorDiv(t, u) * u
		ce, ro := fl, fl
		if fl != t {
			ce = fl + u
			switch {
			case 2*(t-fl) > u:
				ro = ce
			case 2*(t-fl) == u: // a tie goes away from zero
				tie++
				if t > 0 {
					ro = ce
				}
			}
		} else {
			mul++
		}
		if t < 0 {
			neg++
		}
		if t < ref.MinTick || t > ref.MaxTick {
			far++
		}
		if g := tickmath.Floor(t, u); g != fl {
			c.Fail("tick %d rounded down to the spacing %d gives %d, expected %d", t, u, g, fl)
		}
		if g := tickmath.Ceil(t, u); g != ce {
			c.Fail("tick %d rounded up to the spacing %d gives %d, expected %d", t, u, g, ce)
		}
		if g := tickmath.Round(t, u); g != ro {
			c.Fail("tick %d rounded to the spacing %d gives %d, expected %d", t, u, g, ro)
		}
		if t-lo < 400 {
			c.Distinct(u, t < 0, t-fl)
		}
	}
	c.Tick()
	c.Eval(3 * int64(hi-lo+1))
	c.Count("negative", neg)
	c.Count("ties", tie)
	c.Count("multiples", mul)
	c.Count("beyond_the_range", far)
}

func c06constants(x *Ctx, when string) {
	x.Run(when, 1, func(c *Case) {
		eq := func(name string, got *ui.Int, want *big.Int) {
			if fromUI(got).Cmp(new(big.Int).Mod(want, q256)) != 0 {
				c.Fail("%s: the constant %s is %v, expected %v", when, name, fromUI(got), want)
			}
			c.Op("%s = %v", name, want)
			c.Eval(1)
			c.Count(when, 1)
		}
		eq("Zero", cons.Zero, new(big.Int))
		eq("One", cons.One, one)
		eq("NegativeOne", cons.NegativeOne, big.NewInt(-1))
		eq("MaxUint256", cons.MaxUint256, big.NewInt(-1))
		eq("Q96", cons.Q96, pow2(96))
		eq("Q128", cons.Q128, pow2(128))
		eq("Q192", cons.Q192, pow2(192))
		eq("E6", cons.E6, big.NewInt(1000000))
		eq("E18", cons.E18, big.NewInt(1000000000000000000))
		eq("MinSqrtRatio", tickmath.MinSqrtRatio, ref.MinSP)
		eq("MaxSqrtRatio", tickmath.MaxSqrtRatio, ref.MaxSP)
		if tickmath.MinTick != -887272 || tickmath.MaxTick != 887272 {
			c.Fail("the tick range is %d to %d", tickmath.MinTick, tickmath.MaxTick)
		}
		for fee, sp := range ref.Spacings {
			if g := cons.TickSpaces[fee]; g != sp {
				c.Fail("%s: the tick spacing of fee %d is %d, expected %d", when, fee, g, sp)
			}
		}
		if len(cons.TickSpaces) < len(ref.Spacings) {
			c.Fail("%s: there are %d fee tiers", when, len(cons.TickSpaces))
		}
	})
}
