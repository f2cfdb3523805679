package main

import (
	"fmt"
	"math/big"
	"sort"
	"uniswap-simulator/lib/tickdata"
	"verifharness/ref"
)

func init() { checks["C19"] = checkC19 }

type mtick struct{ net, gross, o0, o1 *big.Int }

func checkC19(x *Ctx) {
	x.rule = "tick tables are filled, crossed and cleared directly in random order; every lookup is compared with the bitmap search over a plain sorted set, and every tick's content with a map; distinct = (query relative to its neighbours, direction, sign, word-boundary case, spacing, table size class)"
	x.Require("lookup.lte", "lookup.gt", "lookup.empty", "lookup.negative", "lookup.hit", "lookup.boundary", "lookup.at_tick", "update.new", "update.again", "cross", "clear", "inside", "missing", "lookup.repeated", "several_changes_between_queries", "insert.front", "insert.back", "insert.middle", "unaligned")
	x.Require("ticks_in_big_tables", "table_of_66000_ticks")
	x.Run("big", x.N(6, 60), c19big)
	x.Run("table", x.N(80000, 2000000), c19one)
}

func c19one(c *Case) {
	sp := []int{10, 60, 200, 1}[c.Intn(4)]
	td := tickdata.NewTickData(sp)
	set := map[int]*mtick{}
	var sorted []int
	max := ref.MaxTick / sp
	span := 1 + c.Intn(2*max)
	if c.Intn(2) == 0 {
		span = 1 + c.Intn(1200)
	}
	centre := c.Intn(2*max+1) - max
	if c.Intn(3) == 0 {
		centre = 0
	}
	pick := func() int {
		k := centre + c.Intn(2*span+1) - span
		if c.Intn(5) == 0 {
			k = ref.FloorDiv(k, 256)*256 + []int{0, 255, 256, -1}[c.Intn(4)]
		}
		if k < -max {
			k = -max
		}
		if k > max {
			k = max
		}
		return k * sp
	}
	// The strategies also put ticks between the spaced ones into the table; a
	// bitmap search is not defined for those.
	loose := sp > 1 && c.Intn(6) == 0
	if loose {
		c.Count("unaligned", 1)
		aligned := pick
		pick = func() int {
			t := aligned()
			if c.Intn(2) == 0 {
				t = clampTick(t+c.Intn(2*sp+1)-sp, ref.MinTick, ref.MaxTick)
			}
			return t
		}
	}
	existing := func() int { return sorted[c.Intn(len(sorted))] }
	// Some tables are read only now and then, so that several changes lie
	// between a query and its repetition.
	quiet := c.Intn(3) == 0
	if quiet {
		c.Count("several_changes_between_queries", 1)
	}
	var asked []int
	G0, G1 := randBits(c.Rand, 256), randBits(c.Rand, 256)
	n := 10 + c.Intn(60)
	if c.Intn(10) == 0 {
		n = 300
	}
	check := func(t int) {
		tk := td.GetTick(t)
		w := set[t]
		if tk.Index != t || fromUIS(tk.LiquidityNet).Cmp(w.net) != 0 || fromUI(tk.LiquidityGross).Cmp(w.gross) != 0 || fromUI(tk.FeeGrowthOutside0X128).Cmp(w.o0) != 0 || fromUI(tk.FeeGrowthOutside1X128).Cmp(w.o1) != 0 {
			c.Fail("tick %d holds (index %d) net %v gross %v outside %v %v; expected net %v gross %v outside %v %v", t, tk.Index, fromUIS(tk.LiquidityNet), fromUI(tk.LiquidityGross), fromUI(tk.FeeGrowthOutside0X128), fromUI(tk.FeeGrowthOutside1X128), w.net, w.gross, w.o0, w.o1)
		}
	}
	for i := 0; i < n; i++ {
		u0, u1 := toUI(G0), toUI(G1)
		g := guardOf(u0, u1)
		switch k := c.Intn(10); {
		case k < 5 || len(sorted) == 0: // update
			t := pick()
			if len(sorted) > 0 && c.Intn(3) == 0 {
				t = existing()
			}
			cur := pick() + c.Intn(3) - 1
			upper := c.Intn(2) == 0
			d := addI(randBits(c.Rand, 100), 1)
			w := set[t]
			if w != nil && c.Intn(2) == 0 {
				d = new(big.Int).Neg(w.gross)
				if c.Intn(2) == 0 {
					d = new(big.Int).Neg(addI(randBelow(c.Rand, w.gross), 1))
				}
			}
			c.Op("update tick %d current %d delta %v upper %v", t, cur, d, upper)
			if w == nil {
				w = &mtick{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
				if t <= cur {
					w.o0.Set(G0)
					w.o1.Set(G1)
				}
				set[t] = w
				j := sort.SearchInts(sorted, t)
				switch {
				case len(sorted) == 0:
				case j == 0:
					c.Count("insert.front", 1)
				case j == len(sorted):
					c.Count("insert.back", 1)
				default:
					c.Count("insert.middle", 1)
				}
				sorted = append(sorted, 0)
				copy(sorted[j+1:], sorted[j:])
				sorted[j] = t
				c.Count("update.new", 1)
			} else {
				c.Count("update.again", 1)
			}
			w.gross.Add(w.gross, d)
			if upper {
				w.net.Sub(w.net, d)
			} else {
				w.net.Add(w.net, d)
			}
			ud := toUI(d)
			g2 := guardOf(ud)
			empty := td.UpdateTick(t, cur, ud, u0, u1, upper)
			g2.check(c, "UpdateTick")
			if empty != (w.gross.Sign() == 0) {
				c.Fail("updating tick %d to gross liquidity %v reports empty %v", t, w.gross, empty)
			}
			c.Eval(1)
			if !quiet {
				check(t)
			}
			if empty {
				td.ClearTick(t)
				j := sort.SearchInts(sorted, t)
				sorted = append(sorted[:j], sorted[j+1:]...)
				delete(set, t)
				c.Count("clear", 1)
			}
		case k < 7: // cross
			t := existing()
			c.Op("cross tick %d", t)
			net := td.Cross(t, u0, u1)
			w := set[t]
			w.o0 = ref.Wrap(new(big.Int).Sub(G0, w.o0))
			w.o1 = ref.Wrap(new(big.Int).Sub(G1, w.o1))
			c.Eval(1)
			c.Count("cross", 1)
			if fromUIS(net).Cmp(w.net) != 0 {
				c.Fail("crossing tick %d returns %v, expected %v", t, fromUIS(net), w.net)
			}
			check(t)
		case k < 8 && len(sorted) > 1: // inside
			a, b := existing(), existing()
			if a == b {
				continue
			}
			if a > b {
				a, b = b, a
			}
			cur := []int{a, b, a - 1, b - 1, pick()}[c.Intn(5)]
			g0, g1 := td.GetFeeGrowthInside(a, b, cur, u0, u1)
			f := func(G, l, u *big.Int) *big.Int {
				below, above := l, u
				if cur < a {
					below = new(big.Int).Sub(G, l)
				}
				if cur >= b {
					above = new(big.Int).Sub(G, u)
				}
				r := new(big.Int).Sub(G, below)
				return bwrap(r.Sub(r, above))
			}
			c.Op("growth inside [%d,%d) at %d", a, b, cur)
			c.Eval(1)
			c.Count("inside", 1)
			c.eqUI("growth inside of token 0", g0, f(G0, set[a].o0, set[b].o0), a, b, cur)
			c.eqUI("growth inside of token 1", g1, f(G1, set[a].o1, set[b].o1), a, b, cur)
		default: // a tick that does not exist
			t := pick() + c.Intn(2)
			if set[t] != nil {
				continue
			}
			c.Count("missing", 1)
			c.Eval(1)
			c.Op("query missing tick %d", t)
			if bad, _ := c.Try(func() { td.GetTick(t) }); !bad {
				c.Fail("tick %d does not exist, the query for it is answered", t)
			}
			if bad, _ := c.Try(func() { td.Cross(t, u0, u1) }); !bad {
				c.Fail("tick %d does not exist but is crossed", t)
			}
			if len(sorted) > 0 {
				if e := existing(); e != t {
					lo, hi := e, t
					if lo > hi {
						lo, hi = hi, lo
					}
					if bad, _ := c.Try(func() { td.GetFeeGrowthInside(lo, hi, pick(), u0, u1) }); !bad {
						c.Fail("growth inside [%d,%d) is answered, tick %d does not exist", lo, hi, t)
					}
				}
			}
		}
		g.check(c, "a tick table operation")
		if quiet && c.Intn(3) > 0 {
			continue
		}
		if !loose {
			asked = c19lookups(c, td, sorted, sp, pick, asked)
		}
		if loose || c.Intn(4) == 0 {
			for _, t := range sorted {
				check(t)
			}
		}
		if c.Intn(4) == 0 {
			G0, G1 = ref.Wrap(new(big.Int).Add(G0, randBits(c.Rand, 200))), ref.Wrap(new(big.Int).Add(G1, randBits(c.Rand, 255)))
		}
		if c.Intn(12) == 0 {
			td = td.Clone()
		}
	}
}

// c19big: tables of thousands of ticks, queried and changed all over.
func c19big(c *Case) {
	sp := []int{1, 10, 60}[c.Intn(3)]
	n := 300 + c.Intn(6000)
	if c.idx == 0 {
		sp, n = []int{1, 10}[c.Intn(2)], 66000
		c.Count("table_of_66000_ticks", 1)
	}
	max := ref.MaxTick / sp
	if n > max {
		n = max
	}
	c.Op("table of %d ticks, spacing %d", n, sp)
	td := tickdata.NewTickData(sp)
	set := map[int]*mtick{}
	// Steps whose average spans the whole range, or a dense block.
	step := 2 * max / n
	if c.Intn(2) == 0 && step > 2 {
		step = 2
	}
	t := -max + c.Intn(2*max-step*n+1)
	G0, G1 := randBits(c.Rand, 256), randBits(c.Rand, 256)
	u0, u1 := toUI(G0), toUI(G1)
	var sorted []int
	update := func(t, cur int, d *big.Int, upper bool) {
		w := set[t]
		if w == nil {
			w = &mtick{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
			if t <= cur {
				w.o0.Set(G0)
				w.o1.Set(G1)
			}
			set[t] = w
			j := sort.SearchInts(sorted, t)
			sorted = append(sorted, 0)
			copy(sorted[j+1:], sorted[j:])
			sorted[j] = t
		}
		w.gross.Add(w.gross, d)
		if upper {
			w.net.Sub(w.net, d)
		} else {
			w.net.Add(w.net, d)
		}
		empty := td.UpdateTick(t, cur, toUI(d), u0, u1, upper)
		c.Tick()
		if empty != (w.gross.Sign() == 0) {
			c.Fail("updating tick %d of %d to gross liquidity %v reports empty %v", t, len(sorted), w.gross, empty)
		}
		if empty {
			td.ClearTick(t)
			j := sort.SearchInts(sorted, t)
			sorted = append(sorted[:j], sorted[j+1:]...)
			delete(set, t)
		}
	}
	check := func(t int) {
		tk := td.GetTick(t)
		w := set[t]
		c.Eval(1)
		if tk.Index != t || fromUIS(tk.LiquidityNet).Cmp(w.net) != 0 || fromUI(tk.LiquidityGross).Cmp(w.gross) != 0 || fromUI(tk.FeeGrowthOutside0X128).Cmp(w.o0) != 0 || fromUI(tk.FeeGrowthOutside1X128).Cmp(w.o1) != 0 {
			c.Fail("tick %d of %d holds (index %d) net %v gross %v outside %v %v; expected net %v gross %v outside %v %v", t, len(sorted), tk.Index, fromUIS(tk.LiquidityNet), fromUI(tk.LiquidityGross), fromUI(tk.FeeGrowthOutside0X128), fromUI(tk.FeeGrowthOutside1X128), w.net, w.gross, w.o0, w.o1)
		}
	}
	cur := (c.Intn(2*max+1) - max) * sp
	for i := 0; i < n; i++ {
		update(t*sp, cur, addI(randBits(c.Rand, 40), 1), c.Intn(2) == 0)
		t += 1 + c.Intn(2*step-1)
		if t > max {
			break
		}
	}
	c.Count("ticks_in_big_tables", int64(len(sorted)))
	pick := func() int {
		if c.Intn(2) == 0 {
			return clampTick(ref.FloorDiv(sorted[c.Intn(len(sorted))], sp)+c.Intn(600)-300, -max, max) * sp
		}
		return (c.Intn(2*max+1) - max) * sp
	}
	var asked []int
	for i := 0; i < 1500; i++ {
		e := sorted[[]int{0, len(sorted) - 1, c.Intn(len(sorted)), c.Intn(len(sorted)), c.Intn(len(sorted))}[c.Intn(5)]]
		switch c.Intn(6) {
		case 0:
			update(pick(), cur, addI(randBits(c.Rand, 40), 1), c.Intn(2) == 0)
		case 1:
			update(e, cur, new(big.Int).Neg(set[e].gross), c.Intn(2) == 0)
		case 2:
			net := td.Cross(e, u0, u1)
			w := set[e]
			w.o0 = ref.Wrap(new(big.Int).Sub(G0, w.o0))
			w.o1 = ref.Wrap(new(big.Int).Sub(G1, w.o1))
			if fromUIS(net).Cmp(w.net) != 0 {
				c.Fail("crossing tick %d of %d returns %v, expected %v", e, len(sorted), fromUIS(net), w.net)
			}
			check(e)
		default:
			check(e)
		}
		if c.Intn(3) == 0 {
			asked = c19lookups(c, td, sorted, sp, pick, asked)
		}
		if c.Intn(500) == 0 {
			td = td.Clone()
		}
	}
	for _, t := range sorted {
		check(t)
	}
	c.Distinct("big", len(sorted), sp)
}

// c19lookups repeats some of the last queries, the latest first, and asks new
// ones; it returns the queries in the order asked.
func c19lookups(c *Case, td *tickdata.TickData, sorted []int, sp int, pick func() int, asked []int) []int {
	var now []int
	for k := 0; k < 4; k++ {
		q := pick() + c.Intn(2*sp+1) - sp
		again := k < 2 && len(asked) > k && c.Intn(3) > 0
		if again {
			q = asked[len(asked)-1-k]
			c.Count("lookup.repeated", 1)
		} else if len(sorted) > 0 && c.Intn(2) == 0 {
			q = sorted[c.Intn(len(sorted))] + c.Intn(5) - 2
		}
		if q < ref.MinTick-1 {
			q = ref.MinTick - 1
		}
		if q > ref.MaxTick {
			q = ref.MaxTick
		}
		now = append(now, q)
		down := c.Intn(2) == 0
		for _, lte := range []bool{down, !down} {
			wt, wi := ref.NextInit(sorted, sp, q, lte)
			gt, gi := td.NextInitializedTickWithinOneWord(q, lte)
			c.Eval(1)
			if gt != wt || gi != wi {
				c.Fail("searching from tick %d (spacing %d, down %v) gives %d initialized %v, the bitmap gives %d %v; %d ticks %v", q, sp, lte, gt, gi, wt, wi, len(sorted), cut(fmt.Sprint(sorted), 2000))
			}
			if lte {
				c.Count("lookup.lte", 1)
			} else {
				c.Count("lookup.gt", 1)
			}
			if len(sorted) == 0 {
				c.Count("lookup.empty", 1)
			}
			if q < 0 {
				c.Count("lookup.negative", 1)
			}
			if wi {
				c.Count("lookup.hit", 1)
			} else {
				c.Count("lookup.boundary", 1)
			}
			i := sort.SearchInts(sorted, q)
			at := i < len(sorted) && sorted[i] == q
			if at {
				c.Count("lookup.at_tick", 1)
			}
			sz := 0
			for n := len(sorted); n > 0; n /= 2 {
				sz++
			}
			c.Distinct(lte, wi, at, i == 0, i == len(sorted), q < 0, q%sp == 0, ref.FloorDiv(ref.FloorDiv(q, sp), 256) != ref.FloorDiv(ref.FloorDiv(q, sp)+1, 256), sp, sz)
		}
	}
	return now
}
