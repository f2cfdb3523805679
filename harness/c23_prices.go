package main

import (
	"math/big"

	"uniswap-simulator/lib/prices"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() { checks["C23"] = checkC23 }

func checkC23(x *Ctx) {
	x.rule = "each evaluation compares average and volatility of a full window with the definition over the last n recorded prices in big integers, or checks that a price of 2^115 and more is refused without effect; distinct = (window size, pattern, whether the window wrapped, size of mean and deviation)"
	x.Require("stats", "rejected", "rejected_wrapping", "wrapped", "constant", "zero_volatility", "extreme_spread", "asked_twice", "price_reused")
	x.Require("long_windows", "long_series")
	x.Run("long", x.N(16, 300), c23long)
	x.Run("window", x.N(120000, 1000000), func(c *Case) {
		n := 2 + c.Intn(9)
		switch c.Intn(12) {
		case 0:
			n = 100
		case 1:
			n = 11 + c.Intn(60)
		}
		p := prices.NewPrices(n)
		c.Op("window of %d", n)
		top := pow2(115)
		pat := c.Intn(7)
		base := c.snapPrice()
		var hist []*big.Int
		var args guard
		draw := func() *big.Int {
			switch pat {
			case 0:
				return base
			case 1:
				return c.snapPrice()
			case 2: // small changes
				d := randBits(c.Rand, base.BitLen()/2)
				r := new(big.Int).Add(base, d)
				if c.Intn(2) == 0 {
					r.Sub(base, d)
				}
				if r.Cmp(ref.MinSP) < 0 || r.Cmp(top) >= 0 {
					return base
				}
				return r
			case 3: // the ends of the range
				if c.Intn(2) == 0 {
					return addI(ref.MinSP, int64(c.Intn(3)))
				}
				return addI(top, -1-int64(c.Intn(3)))
			case 4: // one outlier
				if c.Intn(n) == 0 {
					return c.snapPrice()
				}
				return base
			case 5: // a trend
				return new(big.Int).Add(base, big.NewInt(int64(len(hist)*(1+c.Intn(1000)))))
			}
			return randBelow(c.Rand, top)
		}
		total := n + c.Intn(2*n+3)
		if total > 150 {
			total = n + c.Intn(20)
		}
		var shared *ui.Int // one object reused for several prices
		for i := 0; i < total; i++ {
			for c.Intn(6) == 0 {
				bad := new(big.Int)
				switch c.Intn(4) {
				case 0:
					bad = addI(top, int64(c.Intn(3)))
				case 1: // the square wraps 256 bits
					bad = randExact(c.Rand, 129+c.Intn(32))
					c.Count("rejected_wrapping", 1)
				case 2: // the square is a multiple of 2^256
					bad = pow2(uint(128 + c.Intn(32)))
				default:
					bad = randExact(c.Rand, 116+c.Intn(45))
				}
				u := toUI(bad)
				g := guardOf(u)
				c.Op("record %v (too large)", bad)
				if ok, _ := c.Try(func() { p.Add(u) }); !ok {
					c.Fail("the price %v was recorded although its square has %d bits", bad, 2*bad.BitLen())
				}
				g.check(c, "a refused price")
				c.Count("rejected", 1)
				c.Eval(1)
			}
			v := draw()
			if v.Cmp(top) >= 0 {
				v = base
			}
			c.Op("record %v", v)
			if shared != nil && c.Intn(2) == 0 {
				*shared = *toUI(v)
				c.Count("price_reused", 1)
			} else {
				shared = toUI(v)
			}
			keep := *shared
			p.Add(shared)
			if *shared != keep {
				c.Fail("recording %v changed the caller's price to %v", v, fromUI(shared))
			}
			hist = append(hist, v)
			if len(hist) < n {
				continue
			}
			if len(hist) > n {
				c.Count("wrapped", 1)
			}
			if len(hist) > n && c.Intn(3) != 0 && i != total-1 {
				continue
			}
			w := window(hist, n)
			avg, vol := meanOf(w), volatilityOf(w)
			c.Eval(2)
			c.Count("stats", 1)
			rep := 1 + c.Intn(2)
			if rep == 2 {
				c.Count("asked_twice", 1)
			}
			for k := 0; k < rep; k++ {
				a, b := p.Average(), p.Volatility()
				if fromUI(a).Cmp(avg) != 0 {
					c.Fail("average of the last %d squared prices is %v, reported %v", n, avg, fromUI(a))
				}
				if fromUI(b).Cmp(vol) != 0 {
					c.Fail("volatility of the last %d prices is %v, reported %v", n, vol, fromUI(b))
				}
				a.Add(a, ui.NewInt(1)) // the caller's own copies
				b.Clear()
			}
			if vol.Sign() == 0 {
				c.Count("zero_volatility", 1)
			}
			if pat == 0 {
				c.Count("constant", 1)
			}
			if vol.BitLen() > 225 {
				c.Count("extreme_spread", 1)
			}
			c.Distinct(n, pat, len(hist) > n, avg.BitLen()/8, vol.BitLen()/8)
		}
		args.check(c, "recording")
	})
}

// snapPrice draws a price whose square is representable in the window.
func (c *Case) snapPrice() *big.Int {
	for {
		p := c.initialPrice(60)
		if p.BitLen() <= 115 {
			return p
		}
	}
}

// c23long: windows of hundreds of prices, and series of more than 2^16.
func c23long(c *Case) {
	n, total := 101+c.Intn(900), 0
	switch c.idx % 4 {
	case 0:
		n = 2 + c.Intn(120)
		total = 66000 + c.Intn(2000)
		c.Count("long_series", 1)
	case 1:
		n = 1000 + c.Intn(3000)
		total = n + c.Intn(3*n)
		c.Count("long_windows", 1)
	case 2: // around powers of two
		n = 1<<uint(7+c.Intn(5)) + c.Intn(3) - 1
		total = n + c.Intn(2*n)
	default:
		total = n + c.Intn(8*n)
	}
	p := prices.NewPrices(n)
	c.Op("window of %d, %d prices", n, total)
	top := pow2(115)
	var hist []*big.Int
	v := c.snapPrice()
	for i := 0; i < total; i++ {
		if c.Intn(4) > 0 { // a walk with some jumps
			d := randBits(c.Rand, v.BitLen()-5)
			w := new(big.Int).Add(v, d)
			if c.Intn(2) == 0 {
				w.Sub(v, d)
			}
			if w.Cmp(ref.MinSP) >= 0 && w.Cmp(top) < 0 {
				v = w
			}
		} else if c.Intn(20) == 0 {
			v = c.snapPrice()
		}
		p.Add(toUI(v))
		c.Tick()
		hist = append(hist, v)
		m := len(hist)
		if m < n || m != n && m != n+1 && m != 2*n && m != total && m != 65535 && m != 65536 && m != 65537 && c.Intn(total/12+1) != 0 {
			continue
		}
		w := window(hist, n)
		c.Eval(2)
		c.Count("stats", 1)
		if a, b := p.Average(), meanOf(w); fromUI(a).Cmp(b) != 0 {
			c.Fail("average of the last %d squared prices, of %d, is %v, reported %v", n, m, b, fromUI(a))
		}
		if a, b := p.Volatility(), volatilityOf(w); fromUI(a).Cmp(b) != 0 {
			c.Fail("volatility of the last %d prices, of %d, is %v, reported %v", n, m, b, fromUI(a))
		}
		c.Distinct("long", n, m)
	}
}
