package main

import (
	"math/big"
	"uniswap-simulator/lib/liquidity_amounts"
	ppool "uniswap-simulator/lib/pool"
	"verifharness/ref"
)

func init() { checks["C09"] = checkC09 }

func checkC09(x *Ctx) {
	x.rule = "each evaluation computes liquidity for budgets (equality with the periphery's value, mint cost within budget) or amounts for liquidity (equality with the model and, in the pool group, with what the pool's burn pays); distinct counts (place of the price relative to the range, order of the ends, bit lengths)"
	x.Require("below", "at_lower", "inside", "at_upper", "above", "swapped", "limited0", "limited1", "pool")
	x.Run("budget", x.N(50000, 1500000), func(c *Case) {
		for k := 0; k < 80; k++ {
			c.Tick()
			c09one(c)
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "80 budget and 80 amount evaluations; parameters in counters")
		}
	})
	x.Run("pool", x.N(15000, 500000), func(c *Case) {
		for k := 0; k < 10; k++ {
			c.Tick()
			c09pool(c)
		}
	})
}

func (c *Case) place(a, b *big.Int) (*big.Int, string) {
	switch c.Intn(9) {
	case 0:
		return new(big.Int).Set(a), "at_lower"
	case 1:
		return new(big.Int).Set(b), "at_upper"
	case 2:
		if p := addI(a, -1); p.Cmp(ref.MinSP) >= 0 {
			return p, "below"
		}
	case 3:
		if p := addI(b, 1); p.Cmp(ref.MaxSP) <= 0 {
			return p, "above"
		}
	case 4:
		if p := addI(a, 1); p.Cmp(b) < 0 {
			return p, "inside"
		}
	case 5:
		if p := addI(b, -1); p.Cmp(a) > 0 {
			return p, "inside"
		}
	case 6:
		d := new(big.Int).Sub(b, a)
		p := new(big.Int).Add(a, randBelow(c.Rand, d))
		if p.Cmp(a) > 0 {
			return p, "inside"
		}
	}
	p := c.price()
	switch {
	case p.Cmp(a) < 0:
		return p, "below"
	case p.Cmp(a) == 0:
		return p, "at_lower"
	case p.Cmp(b) < 0:
		return p, "inside"
	case p.Cmp(b) == 0:
		return p, "at_upper"
	}
	return p, "above"
}

func c09one(c *Case) {
	a, b := c.pair()
	for a.Cmp(b) == 0 {
		a, b = c.pair()
	}
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	p, where := c.place(a, b)
	x0, x1 := randBits(c.Rand, 127), randBits(c.Rand, 127)
	if c.Intn(3) == 0 {
		againIn(c, "amounts", []*big.Int{new(big.Int), new(big.Int)}, []*big.Int{addI(pow2(127), -1), addI(pow2(127), -1)}, &x0, &x1)
	}
	ua, ub, up, u0, u1 := toUI(a), toUI(b), toUI(p), toUI(x0), toUI(x1)
	swapped := c.Intn(2) == 0
	if swapped {
		ua, ub = ub, ua
		c.Count("swapped", 1)
	}
	g := guardOf(ua, ub, up, u0, u1)
	c.Count(where, 1)
	c.Eval(2)
	args := []interface{}{p, a, b, x0, x1, swapped}
	if want, err := ref.LiquidityForAmounts(p, a, b, x0, x1); err == nil && want.BitLen() <= 128 {
		got := liquidity_amounts.GetLiquidityForAmount(up, ua, ub, u0, u1)
		c.eqUI("liquidity for amounts", got, want, args...)
		// affordable
		l := fromUI(got)
		var n0, n1 *big.Int
		switch {
		case p.Cmp(a) <= 0:
			n0, n1 = exact0(a, b, l, true), new(big.Int)
		case p.Cmp(b) < 0:
			n0, n1 = exact0(p, b, l, true), exact1(a, p, l, true)
		default:
			n0, n1 = new(big.Int), exact1(a, b, l, true)
		}
		if n0.Cmp(x0) > 0 || n1.Cmp(x1) > 0 {
			c.Fail("liquidity %v costs (%v, %v), budget (%v, %v): %s", l, n0, n1, x0, x1, showArgs(args))
		}
		if where == "inside" {
			l0, _ := ref.LiquidityForAmounts(p, a, b, x0, ref.Q128)
			if l0 != nil && l0.Cmp(l) == 0 {
				c.Count("limited0", 1)
			} else {
				c.Count("limited1", 1)
			}
		}
	}
	l := randBits(c.Rand, 128)
	ul := toUI(l)
	g2 := guardOf(ul)
	w0, w1, err := ref.AmountsForLiquidity(p, a, b, l)
	if err != nil {
		c.Fail("model: %v", err)
	}
	g0, g1 := liquidity_amounts.GetAmountsForLiquidity(up, ua, ub, ul)
	c.eqUI("amount0 for liquidity", g0, w0, p, a, b, l, swapped)
	c.eqUI("amount1 for liquidity", g1, w1, p, a, b, l, swapped)
	g.check(c, "liquidity/amounts")
	g2.check(c, "amounts")
	c.Distinct(where, swapped, x0.BitLen()/8, x1.BitLen()/8, a.BitLen()/8, b.BitLen()/8)
}

// c09pool compares with what a real mint and burn of the pool move.
func c09pool(c *Case) {
	fee := []int{500, 3000, 10000}[c.Intn(3)]
	sp := ref.Spacings[fee]
	n := ref.MaxTick / sp
	lo := (c.Intn(2*n) - n)
	hi := lo + 1 + c.Intn(n-lo)
	if c.Intn(2) == 0 {
		hi = lo + 1 + c.Intn(20)
		if hi > n {
			hi = n
		}
	}
	lo, hi = lo*sp, hi*sp
	a, b := ref.SqrtAt(lo), ref.SqrtAt(hi)
	p, where := c.place(a, b)
	if p.Cmp(ref.MaxSP) >= 0 {
		return
	}
	x0, x1 := randBits(c.Rand, 110), randBits(c.Rand, 110)
	c.Op("pool fee %d price %v range [%d,%d) budget (%v,%v)", fee, p, lo, hi, x0, x1)
	want, err := ref.LiquidityForAmounts(p, a, b, x0, x1)
	if err != nil || want.BitLen() > 127 || want.Sign() == 0 {
		return
	}
	pl := ppool.NewPool("a", "b", fee, toUI(p))
	l := liquidity_amounts.GetLiquidityForAmount(toUI(p), toUI(a), toUI(b), toUI(x0), toUI(x1))
	c.eqUI("liquidity for amounts", l, want)
	m0, m1 := pl.MintStrategy(lo, hi, l.Clone())
	if fromUI(m0).Cmp(x0) > 0 || fromUI(m1).Cmp(x1) > 0 {
		c.Fail("minting %v charges (%v,%v), budget (%v,%v)", want, fromUI(m0), fromUI(m1), x0, x1)
	}
	g0, g1 := liquidity_amounts.GetAmountsForLiquidity(toUI(p), toUI(a), toUI(b), l)
	pl.BurnStrategy(lo, hi, l.Clone())
	r0, r1 := pl.CollectStrategy(lo, hi)
	if *g0 != *r0 || *g1 != *r1 {
		c.Fail("amounts for liquidity %v say (%v,%v), burning paid (%v,%v)", want, fromUI(g0), fromUI(g1), fromUI(r0), fromUI(r1))
	}
	c.Eval(3)
	c.Count("pool", 1)
	c.Distinct("pool", fee, where, want.BitLen())
}
