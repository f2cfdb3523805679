package main

import (
	"fmt"
	"math/big"
	"sort"

	ppool "uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() {
	checks["C16"] = checkC16
	checks["C17"] = checkC17
	checks["C18"] = checkC18
}

// ---------------------------------------------------------------- C16

// rangeFamily builds ranges that a careless key would confuse.
func rangeFamily(c *Case, sp int) []ref.Key {
	max := ref.MaxTick / sp * sp
	al := func(t int) int { return ref.FloorDiv(t, sp) * sp }
	var out []ref.Key
	seen := map[ref.Key]bool{}
	add := func(a, b int) {
		a, b = al(a), al(b)
		if a > b {
			a, b = b, a
		}
		if a == b || a < -max || b > max || seen[ref.Key{Lo: a, Hi: b}] {
			return
		}
		seen[ref.Key{Lo: a, Hi: b}] = true
		out = append(out, ref.Key{Lo: a, Hi: b})
	}
	a, b := al(c.Intn(2*max)-max), al(c.Intn(2*max)-max)
	switch c.Intn(6) {
	case 0:
		a, b = al(55296+c.Intn(2000)), al(55296+c.Intn(2000))
	case 1:
		a, b = al(-c.Intn(3000)), al(c.Intn(3000))
	case 2:
		a, b = al(195000+c.Intn(3000)), al(195000+c.Intn(3000))
	case 3:
		a, b = -al(c.Intn(max)), -al(c.Intn(max))
	}
	add(a, b)
	l := 65536 * sp // equal after truncation to 16 bits, and aligned
	for l/2%sp == 0 && l/2%65536 == 0 {
		l /= 2
	}
	for i := 0; i < 40 && len(out) < 4+c.Intn(6); i++ {
		switch c.Intn(13) {
		case 0:
			add(-a, -b)
		case 1:
			add(-a, b)
		case 2:
			add(a, -b)
		case 3:
			add(a+l, b)
		case 4:
			add(a, b-l)
		case 5:
			add(a+l, b+l)
		case 6:
			d := sp * (1 + c.Intn(50))
			add(a-d, b+d) // same sum
		case 7:
			d := sp * (1 + c.Intn(50))
			add(a+d, b+d) // same width
		case 8:
			add(a, b+sp*(1+c.Intn(9)))
		case 9:
			add(a-sp*(1+c.Intn(9)), b)
		case 10:
			add(b, b+sp*(1+c.Intn(200)))
		case 11: // digits moved from one end to the other
			add(a/10, b*10+a%10)
			add(a*10, b/10)
		case 12:
			add(al(c.Intn(2*max)-max), al(c.Intn(2*max)-max))
		}
	}
	return out
}

func checkC16(x *Ctx) {
	x.rule = "each evaluation performs one mint, burn, poke, collect or swap on ranges from an adversarial family and compares liquidity (full burn works, one more is refused) and owed tokens of every other range before and after on copies; distinct = (family shape, relation of touched and untouched range, operation)"
	x.Require("pairs", "both_negative", "opposite_sign", "shared_end", "surrogate", "truncation", "accumulated", "owed_nonzero", "fees_pending", "crowd_positions", "lattice_positions", "op.mint", "op.burn", "op.collect", "op.poke")
	x.Run("crowd", x.N(12, 400), c16crowd)
	x.Run("lattice", x.N(40, 1200), c16lattice)
	x.Require("hoard_positions")
	x.Run("hoard", x.N(2, 24), c16hoard)
	x.Run("family", x.N(20000, 800000), func(c *Case) {
		fee := []int{500, 3000, 10000}[c.Intn(3)]
		sp := ref.Spacings[fee]
		fam := rangeFamily(c, sp)
		if len(fam) < 2 {
			return
		}
		// a price inside, at the edge of, or away from the first range
		t := []int{(fam[0].Lo + fam[0].Hi) / 2, fam[0].Lo, fam[0].Hi, fam[1].Lo, (fam[1].Lo + fam[1].Hi) / 2}[c.Intn(5)]
		if t >= ref.MaxTick {
			t = ref.MaxTick - 1
		}
		h := newHistAt(c, fee, new(big.Int).Set(ref.SqrtAt(t)))
		h.lbits, h.noPln = 60+c.Intn(40), true
		led := map[ref.Key]*big.Int{}
		made := map[ref.Key]bool{}
		n := 12 + c.Intn(20)
		for i := 0; i < n; i++ {
			k := fam[c.Intn(len(fam))]
			var o Op
			switch c.Intn(8) {
			case 0, 1, 2:
				o = Op{Kind: "mint", Lo: k.Lo, Hi: k.Hi, A: h.liq()}
			case 3:
				if led[k] == nil || led[k].Sign() == 0 {
					continue
				}
				o = Op{Kind: "burn", Lo: k.Lo, Hi: k.Hi, A: h.part(led[k])}
			case 4:
				if led[k] == nil || led[k].Sign() == 0 {
					continue
				}
				o = Op{Kind: "poke", Lo: k.Lo, Hi: k.Hi, A: new(big.Int)}
			case 5:
				if !made[k] {
					continue
				}
				o = Op{Kind: "collect", Lo: k.Lo, Hi: k.Hi}
			default:
				var ok bool
				if o, ok = h.swapOp(); !ok {
					continue
				}
			}
			var before map[ref.Key]string
			if o.Kind != "swap" {
				before = c16view(c, h.impl, led, made)
			}
			if _, _, err := applyModel(h.m, o); err != nil {
				continue
			}
			c.Op("%v", o)
			applyImpl(h.impl, o, h.arg)
			c.Count("op."+o.Kind, 1)
			switch o.Kind {
			case "swap":
				continue
			case "mint":
				if led[k] == nil {
					led[k] = new(big.Int)
				} else if led[k].Sign() > 0 {
					c.Count("accumulated", 1)
				}
				led[k].Add(led[k], o.A)
				made[k] = true
			case "burn":
				led[k].Sub(led[k], o.A)
			}
			after := c16view(c, h.impl, led, made)
			for q, s := range before {
				if q == k {
					continue
				}
				c.Eval(1)
				c16note(c, k, q, o)
				if after[q] != s {
					c.Fail("%v changed the position [%d,%d) from %s to %s", o, q.Lo, q.Hi, s, after[q])
				}
			}
		}
	})
}

// c16crowd: very many positions on all kinds of ranges; each holds its own
// liquidity and not a unit more, whatever is done to the others.
func c16crowd(c *Case) {
	fee := []int{500, 3000, 10000}[c.Intn(3)]
	sp := ref.Spacings[fee]
	max := ref.MaxTick / sp
	n := []int{120, 460, 460}[c.Intn(3)]
	span := []int{n, 3 * n, 2 * max}[c.Intn(3)]
	if span > 2*max {
		span = 2 * max
	}
	from := c.Intn(2*max-span+1) - max
	if c.Intn(3) == 0 && span < 2*max {
		from = -span / 2
	}
	seen := map[int]bool{}
	var ts []int
	for len(ts) < n && len(ts) < span {
		t := (from + c.Intn(span+1)) * sp
		if !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	sort.Ints(ts)
	type pos struct {
		k ref.Key
		l uint64
	}
	var all []pos
	for i, lo := range ts {
		for _, hi := range ts[i+1:] {
			all = append(all, pos{ref.Key{Lo: lo, Hi: hi}, 1 + uint64(c.Int63n(1<<uint(1+c.Intn(40))))})
		}
	}
	c.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	p := ppool.NewPool(tok0, tok1, fee, toUI(ref.SqrtAt(ts[len(ts)/2])))
	c.Op("%d positions on all pairs of %d ticks from %d to %d, fee %d", len(all), len(ts), ts[0], ts[len(ts)-1], fee)
	for _, q := range all {
		p.MintStrategy(q.k.Lo, q.k.Hi, ui.NewInt(q.l))
		c.Tick()
	}
	for i, q := range all {
		c.Tick()
		if bad, v := c.Try(func() { p.BurnStrategy(q.k.Lo, q.k.Hi, ui.NewInt(q.l)) }); bad {
			c.Fail("position [%d,%d) cannot burn its liquidity %d after %d others were burnt: %v", q.k.Lo, q.k.Hi, q.l, i, v)
		}
		if bad, _ := c.Try(func() { p.BurnStrategy(q.k.Lo, q.k.Hi, ui.NewInt(1)) }); !bad {
			c.Fail("position [%d,%d) had %d added and burnt, and still burns another unit", q.k.Lo, q.k.Hi, q.l)
		}
	}
	c.Eval(2 * int64(len(all)))
	c.Count("crowd_positions", int64(len(all)))
	c.Distinct("crowd", fee, n, span == 2*max)
	if l := fromUI(p.Liquidity); l.Sign() != 0 {
		c.Fail("all positions are burnt but %v is active", l)
	}
}

// c16lattice: positions on all pairs of ticks that differ by powers of two and
// ten (and one more or less), in ticks or in spacings, from two base ticks:
// packing two ticks into one number confuses some of them unless every tick has
// room for all its digits. Positions off the spacing are strategy ranges too.
func c16lattice(c *Case) {
	fee := []int{500, 3000, 10000}[c.Intn(3)]
	unit := []int{1, ref.Spacings[fee]}[c.Intn(2)]
	max := ref.MaxTick / unit
	var diffs []int
	for k := 1; k <= 2*max; k *= 2 {
		diffs = append(diffs, k-1, k, k+1)
	}
	for k := 10; k <= 2*max; k *= 10 {
		diffs = append(diffs, k-1, k, k+1)
	}
	base := func() int {
		switch c.Intn(6) {
		case 0:
			return -max
		case 1:
			return max
		case 2:
			return 0
		}
		return c.Intn(2*max+1) - max
	}
	around := func(b int) []int {
		seen := map[int]bool{}
		out := []int{}
		for _, d := range append(append([]int{}, diffs...), 0) {
			for _, t := range []int{b + d, b - d, -b - d, -b + d} {
				if t >= -max && t <= max && !seen[t] && (c.Intn(2) == 0 || t == b+d || t == b-d) {
					seen[t] = true
					out = append(out, t*unit)
				}
			}
		}
		sort.Ints(out)
		return out
	}
	b0, b1 := base(), base()
	for i := 0; i < 20 && b0 >= b1; i++ {
		b0, b1 = base(), base()
	}
	lows, highs := around(b0), around(b1)
	type pos struct {
		k ref.Key
		l uint64
	}
	var all []pos
	for _, lo := range lows {
		for _, hi := range highs {
			if lo < hi {
				all = append(all, pos{ref.Key{Lo: lo, Hi: hi}, 1 + uint64(c.Int63n(1<<uint(1+c.Intn(40))))})
			}
		}
	}
	c.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	p := ppool.NewPool(tok0, tok1, fee, toUI(ref.SqrtAt(c.Intn(2*ref.MaxTick)-ref.MaxTick)))
	c.Op("%d positions on pairs of ticks a power of two or ten (times %d) from %d and %d, fee %d", len(all), unit, b0*unit, b1*unit, fee)
	made := all[:0]
	for _, q := range all {
		c.Tick()
		if unit == 1 { // may be refused
			if bad, _ := c.Try(func() { p.MintStrategy(q.k.Lo, q.k.Hi, ui.NewInt(q.l)) }); bad {
				continue
			}
		} else {
			p.MintStrategy(q.k.Lo, q.k.Hi, ui.NewInt(q.l))
		}
		made = append(made, q)
	}
	for _, q := range made {
		c.Tick()
		if bad, _ := c.Try(func() { p.BurnStrategy(q.k.Lo, q.k.Hi, ui.NewInt(q.l+1)) }); !bad {
			c.Fail("position [%d,%d) had %d added and burns %d", q.k.Lo, q.k.Hi, q.l, q.l+1)
		}
		if bad, v := c.Try(func() { p.BurnStrategy(q.k.Lo, q.k.Hi, ui.NewInt(q.l)) }); bad {
			c.Fail("position [%d,%d) cannot burn its liquidity %d: %v", q.k.Lo, q.k.Hi, q.l, v)
		}
	}
	c.Eval(2 * int64(len(made)))
	c.Count("lattice_positions", int64(len(made)))
	c.Distinct("lattice", fee, unit, b0 < 0, b1 < 0)
}

func c16note(c *Case, k, q ref.Key, o Op) {
	c.Count("pairs", 1)
	rel := ""
	if k.Hi <= 0 && q.Hi <= 0 {
		c.Count("both_negative", 1)
		rel += "n"
	}
	if k.Lo == -q.Lo || k.Hi == -q.Hi || k.Lo == -q.Hi {
		c.Count("opposite_sign", 1)
		rel += "s"
	}
	if k.Lo == q.Lo || k.Hi == q.Hi || k.Hi == q.Lo || k.Lo == q.Hi {
		c.Count("shared_end", 1)
		rel += "e"
	}
	sur := func(t int) bool { return t >= 0xd800 && t < 0xe000 }
	if sur(k.Lo) && sur(q.Lo) || sur(k.Hi) && sur(q.Hi) {
		c.Count("surrogate", 1)
		rel += "r"
	}
	if k.Lo != q.Lo && (k.Lo-q.Lo)%65536 == 0 || k.Hi != q.Hi && (k.Hi-q.Hi)%65536 == 0 {
		c.Count("truncation", 1)
		rel += "t"
	}
	c.Distinct(rel, o.Kind, k.Lo < 0, k.Hi < 0, q.Lo < 0, q.Hi < 0, k.Hi-k.Lo == q.Hi-q.Lo, k.Hi+k.Lo == q.Hi+q.Lo)
}

// c16view reads every range's liquidity and owed tokens through the public
// interface of copies.
func c16view(c *Case, p *ppool.Pool, led map[ref.Key]*big.Int, made map[ref.Key]bool) map[ref.Key]string {
	out := map[ref.Key]string{}
	for k := range made {
		q := p.Clone()
		a, b := applyImpl(q, Op{Kind: "collect", Lo: k.Lo, Hi: k.Hi}, toUI)
		if a.Sign() > 0 || b.Sign() > 0 {
			c.Count("owed_nonzero", 1)
		}
		l := led[k]
		if bad, _ := c.Try(func() {
			applyImpl(q.Clone(), Op{Kind: "burn", Lo: k.Lo, Hi: k.Hi, A: addI(l, 1)}, toUI)
		}); !bad {
			c.Fail("position [%d,%d) holds more than its additions minus removals %v", k.Lo, k.Hi, l)
		}
		f, g := new(big.Int), new(big.Int)
		if l.Sign() > 0 {
			r := q.Clone()
			if bad, v := c.Try(func() {
				applyImpl(r, Op{Kind: "poke", Lo: k.Lo, Hi: k.Hi, A: new(big.Int)}, toUI)
				f, g = applyImpl(r, Op{Kind: "collect", Lo: k.Lo, Hi: k.Hi}, toUI)
			}); bad {
				c.Fail("position [%d,%d) cannot collect its fees: %v", k.Lo, k.Hi, v)
			}
			if f.Sign() > 0 || g.Sign() > 0 {
				c.Count("fees_pending", 1)
			}
			if bad, v := c.Try(func() { applyImpl(q, Op{Kind: "burn", Lo: k.Lo, Hi: k.Hi, A: l}, toUI) }); bad {
				c.Fail("position [%d,%d) cannot burn its own liquidity %v: %v", k.Lo, k.Hi, l, v)
			}
		}
		out[k] = fmt.Sprintf("(liquidity %v, owed %v and %v, not yet credited %v and %v)", l, a, b, f, g)
	}
	return out
}

// ---------------------------------------------------------------- C17

func viewNow(c *Case, h *Hist) string {
	return fullView(c, h.impl, h.m.Sorted)
}

// branch is one of several pools descending from a common ancestor.
type branch struct {
	h    *Hist
	view string
	name string
}

func (h *Hist) fork() *Hist {
	g := &Hist{c: h.c, impl: h.impl.Clone(), m: h.m.Clone(), bounds: append([]int(nil), h.bounds...), plain: map[ref.Key]*big.Int{},
		total: new(big.Int).Set(h.total), lbits: h.lbits, start: h.start, crowd: h.crowd, factor: h.factor}
	for k, v := range h.plain {
		g.plain[k] = new(big.Int).Set(v)
	}
	return g
}

func checkC17(x *Ctx) {
	x.rule = "pools are cloned at random points (clones of clones included); a clone must show every field of its original, the same operation must have the same effect on both, and after every operation on one branch the complete view of all other branches must be unchanged and each branch must still follow its own reference model; distinct = (operation, branch count, generation, ticks and positions at cloning)"
	x.Require("clones", "clones_of_clones", "clones_with_positions", "clones_with_owed", "ops_on_original", "ops_on_clone", "twin_ops", "crossings_after_clone")
	x.Require("chain_of_300_clones")
	x.Run("chain", x.N(4, 80), c17chain)
	x.Require("fans_of_256_clones", "fans_of_65536_clones", "ops_on_original_of_fan", "ops_on_clone_of_fan")
	x.Run("fan", x.N(24, 300), c17fan)
	x.Run("fork", x.N(10000, 400000), func(c *Case) {
		root := &branch{h: NewHist(c), name: "original"}
		root.h.lbits = 60
		n := root.h.long(c.Intn(20))
		for i := 0; i < n; i++ {
			root.h.Step()
		}
		bs := []*branch{root}
		n = 15 + c.Intn(30)
		for i := 0; i < n; i++ {
			b := bs[c.Intn(len(bs))]
			if len(bs) < 5 && (i == 0 || c.Intn(6) == 0) {
				f := &branch{h: b.h.fork(), name: b.name + "'"}
				c.Op("-- %s = clone of %s", f.name, b.name)
				c.Count("clones", 1)
				if len(b.name) > len("original") {
					c.Count("clones_of_clones", 1)
				}
				if len(b.h.m.Pos) > 0 {
					c.Count("clones_with_positions", 1)
				}
				for _, p := range b.h.m.Pos {
					if p.Owed0.Sign() > 0 && p.Owed1.Sign() > 0 {
						c.Count("clones_with_owed", 1)
						break
					}
				}
				v, w := viewNow(c, b.h), viewNow(c, f.h)
				c.Eval(1)
				if v != w {
					c.Fail("the clone differs from its original: %s", firstDiff(v, w))
				}
				c.Distinct("clone", len(f.name), len(b.h.m.Ticks), len(b.h.m.Pos))
				b.view, f.view = v, w
				bs = append(bs, f)
				if c.Intn(2) == 0 { // the same operation on both
					o := b.h.Next()
					if _, _, err := applyModel(b.h.m, o); err == nil {
						applyModel(f.h.m, o)
						b.h.account(o)
						f.h.account(o)
						c.Op("%s and %s: %v", b.name, f.name, o)
						a0, a1 := applyImpl(b.h.impl, o, b.h.arg)
						c0, c1 := applyImpl(f.h.impl, o, b.h.arg)
						b.view, f.view = viewNow(c, b.h), viewNow(c, f.h)
						c.Eval(1)
						c.Count("twin_ops", 1)
						if !bigEq(a0, c0) || !bigEq(a1, c1) || b.view != f.view {
							c.Fail("%v behaves differently on clone and original: (%v, %v) and (%v, %v); %s", o, a0, a1, c0, c1, firstDiff(b.view, f.view))
						}
					}
				}
				continue
			}
			c.Op("-- on %s:", b.name)
			cr := b.h.m.Stats.Crosses
			o, r := b.h.Step()
			b.view = viewNow(c, b.h)
			if b.h.m.Stats.Crosses > cr && len(bs) > 1 {
				c.Count("crossings_after_clone", 1)
			}
			if b == root {
				c.Count("ops_on_original", 1)
			} else {
				c.Count("ops_on_clone", 1)
			}
			if !bigEq(r.M0, r.I0) || !bigEq(r.M1, r.I1) {
				c.Fail("%v on %s returned (%v, %v), expected (%v, %v): another branch leaked into it", o, b.name, r.I0, r.I1, r.M0, r.M1)
			}
			for _, q := range bs {
				if q == b || q.view == "" {
					continue
				}
				c.Eval(1)
				if v := viewNow(c, q.h); v != q.view {
					c.Fail("%v on %s changed %s: %s", o, b.name, q.name, firstDiff(q.view, v))
				}
			}
			c.Distinct(o.Kind, b == root, len(bs), b.h.m.Stats.Crosses-cr)
		}
		for _, b := range bs {
			if g, w := walkTicks(c, b.h.impl), b.h.m.Sorted; fmt.Sprint(g) != fmt.Sprint(w) && len(g)+len(w) > 0 {
				c.Fail("%s has ticks %v, expected %v", b.name, g, w)
			}
			b.h.args.check(c, "the history")
		}
	})
}

// ---------------------------------------------------------------- C18

func checkC18(x *Ctx) {
	x.rule = "each evaluation makes one invalid request at a random point of a random history; it must be rejected, the complete view of the pool must be as before, and the continued history must still follow the reference model; distinct = (request kind, operation before, ticks, positions)"
	x.Require("bad.mint_zero", "bad.mint_negative", "bad.inverted", "bad.equal", "bad.out_of_range", "bad.overburn", "bad.burn_missing", "bad.poke_missing", "bad.poke_empty", "bad.collect_missing", "bad.swap_zero", "bad.limit_side", "bad.limit_range", "bad.flash_empty", "bad.new_price", "bad.new_fee", "bad.plain_overburn", "bad.plain_missing", "later_ops")
	x.histories(x.N(40000, 800000), func(c *Case) {
		h := NewHist(c)
		n := 8 + c.Intn(25)
		if m := h.long(n); m < 80 {
			n = m
		} else if h.factor >= 20 {
			n = m / 2
		}
		rejected := false
		last := ""
		for i := 0; i < n; i++ {
			for k := c.Intn(4); k > 0; k-- {
				c18one(c, h, last)
				rejected = true
			}
			o, r := h.Step()
			last = o.Kind
			if rejected {
				c.Count("later_ops", 1)
				c.Eval(1)
				if !bigEq(r.M0, r.I0) || !bigEq(r.M1, r.I1) || slot0(h.impl) != mslot0(h.m) || posOwed(h.impl) != mposOwed(h.m) {
					c.Fail("after rejected requests %v returned (%v, %v) and left %s; without them (%v, %v) and %s", o, r.I0, r.I1, slot0(h.impl), r.M0, r.M1, mslot0(h.m))
				}
			}
		}
		h.args.check(c, "the history")
	})
}

func c18one(c *Case, h *Hist, last string) {
	m, p := h.m, h.impl
	lo, hi := h.rng()
	l := h.liq()
	sp := m.Spacing
	far := func() int {
		t := (ref.MaxTick/sp + 1 + c.Intn(3)) * sp
		switch c.Intn(5) {
		case 0:
			t = ref.MaxTick + 1
		case 1:
			t *= 2
		case 2:
			t = 1 << uint(20+c.Intn(12))
		}
		return t
	}
	zero := new(big.Int)
	var name string
	var f func()
	do := func(o Op) func() { return func() { applyImpl(p, o, h.arg) } }
	kinds := func() string { return []string{"mint", "burn", "poke", "pmint", "pburn"}[c.Intn(5)] }
	amtFor := func(k string) *big.Int {
		if k == "poke" {
			return zero
		}
		return l
	}
	switch c.Intn(18) {
	case 0:
		name = "mint_zero"
		f = do(Op{Kind: []string{"mint", "pmint"}[c.Intn(2)], Lo: lo, Hi: hi, A: zero})
	case 1:
		name = "mint_negative"
		a := new(big.Int).Neg(l)
		if c.Intn(6) == 0 {
			a = new(big.Int).Neg(ref.Q255)
		}
		f = do(Op{Kind: []string{"mint", "pmint"}[c.Intn(2)], Lo: lo, Hi: hi, A: a})
	case 2:
		name = "inverted"
		k := kinds()
		f = do(Op{Kind: k, Lo: hi, Hi: lo, A: amtFor(k)})
	case 3:
		name = "equal"
		k := kinds()
		f = do(Op{Kind: k, Lo: lo, Hi: lo, A: amtFor(k)})
	case 4, 5:
		name = "out_of_range"
		k := kinds()
		a, b := lo, far()
		if c.Intn(2) == 0 {
			a, b = -far(), hi
		}
		f = do(Op{Kind: k, Lo: a, Hi: b, A: amtFor(k)})
	case 6, 7:
		q, pos := h.pickPos()
		if pos == nil {
			return
		}
		name = "overburn"
		a := addI(pos.L, 1)
		switch c.Intn(4) {
		case 0:
			a = new(big.Int).Add(pos.L, l)
		case 1:
			a = addI(ref.Q255, int64(c.Intn(3)-1))
		case 2: // what the ticks could bear
			if t := m.Ticks[q.Lo]; t != nil && t.Gross.Cmp(pos.L) > 0 {
				a = new(big.Int).Set(t.Gross)
			}
		}
		if c.Intn(8) == 0 {
			a = new(big.Int).Neg(l) // a negative burn would be a mint
		}
		f = do(Op{Kind: "burn", Lo: q.Lo, Hi: q.Hi, A: a})
	case 8:
		if m.Pos[ref.Key{Lo: lo, Hi: hi}] != nil {
			return
		}
		name = "burn_missing"
		f = do(Op{Kind: "burn", Lo: lo, Hi: hi, A: l})
	case 9:
		if m.Pos[ref.Key{Lo: lo, Hi: hi}] != nil {
			return
		}
		name = "poke_missing"
		f = do(Op{Kind: "poke", Lo: lo, Hi: hi, A: zero})
	case 10:
		q, pos := h.pickPos()
		if pos == nil || pos.L.Sign() != 0 {
			return
		}
		name = "poke_empty"
		f = do(Op{Kind: "poke", Lo: q.Lo, Hi: q.Hi, A: zero})
	case 11:
		if m.Pos[ref.Key{Lo: lo, Hi: hi}] != nil {
			return
		}
		name = "collect_missing"
		f = do(Op{Kind: "collect", Lo: lo, Hi: hi})
	case 12:
		name = "swap_zero"
		f = func() {
			p.ExactInputSwap(h.arg(zero), []string{tok0, tok1}[c.Intn(2)], h.arg(zero))
		}
		if c.Intn(2) == 0 {
			f = func() {
				p.ExactOutputSwap(h.arg(zero), []string{tok0, tok1}[c.Intn(2)], h.arg(zero))
			}
		}
	case 13: // limit on the wrong side or at the price
		name = "limit_side"
		zf1 := c.Intn(2) == 0
		d := randBits(c.Rand, c.Intn(m.P.BitLen()))
		if !zf1 {
			d.Neg(d)
		}
		lim := d.Add(m.P, d)
		if lim.Cmp(ref.MinSP) <= 0 || lim.Cmp(ref.MaxSP) >= 0 {
			lim = new(big.Int).Set(m.P)
		}
		a := randBits(c.Rand, 60)
		if a.Sign() == 0 {
			a = one
		}
		if c.Intn(2) == 0 {
			a = new(big.Int).Neg(a)
		}
		f = do(Op{Kind: "swap", ZF1: zf1, A: a, Limit: lim})
	case 14: // limit outside the valid range
		name = "limit_range"
		zf1 := c.Intn(2) == 0
		lim := new(big.Int).Add(ref.MaxSP, randBits(c.Rand, c.Intn(160)))
		if c.Intn(4) == 0 {
			lim = new(big.Int).Set(ref.MaxSP)
		}
		if zf1 {
			lim = addI(randBelow(c.Rand, ref.MinSP), 1)
			if c.Intn(4) == 0 {
				lim = new(big.Int).Set(ref.MinSP)
			}
		}
		a := addI(randBits(c.Rand, 60), 1)
		if c.Intn(2) == 0 {
			a.Neg(a)
		}
		f = do(Op{Kind: "swap", ZF1: zf1, A: a, Limit: lim})
	case 15:
		if m.L.Sign() != 0 {
			return
		}
		name = "flash_empty"
		f = do(Op{Kind: "flash", A: randBits(c.Rand, 60), B: randBits(c.Rand, 60)})
	case 16: // a new pool: no state to compare
		c.Eval(1)
		if c.Intn(2) == 0 {
			bad := randBelow(c.Rand, ref.MinSP)
			switch c.Intn(4) {
			case 0:
				bad = addI(ref.MinSP, -1)
			case 1:
				bad = new(big.Int).Set(ref.MaxSP)
			case 2:
				bad = new(big.Int).Add(ref.MaxSP, randBits(c.Rand, 255))
			}
			c.Op("new pool with price %v", bad)
			c.Count("bad.new_price", 1)
			if r, _ := c.Try(func() { ppool.NewPool(tok0, tok1, m.Fee, toUI(bad)) }); !r {
				c.Fail("a pool was created with the price %v", bad)
			}
			return
		}
		fee := -1 - c.Intn(1000)
		if c.Intn(2) == 0 {
			fee = 1000001 + c.Intn(1000)
		}
		c.Op("new pool with fee %d", fee)
		c.Count("bad.new_fee", 1)
		if r, _ := c.Try(func() { ppool.NewPool(tok0, tok1, fee, toUI(ref.Q96)) }); !r {
			c.Fail("a pool was created with the fee %d", fee)
		}
		return
	case 17: // plain burns beyond what the ticks hold
		tl, tu := m.Ticks[lo], m.Ticks[hi]
		if tl != nil && tu != nil {
			g := tl.Gross
			if tu.Gross.Cmp(g) < 0 {
				g = tu.Gross
			}
			name = "plain_overburn"
			f = do(Op{Kind: "pburn", Lo: lo, Hi: hi, A: addI(g, 1)})
		} else {
			name = "plain_missing"
			f = do(Op{Kind: "pburn", Lo: lo, Hi: hi, A: l})
		}
	}
	before := viewNow(c, h)
	c.Op("invalid request %s", name)
	bad, _ := c.Try(f)
	c.Eval(1)
	c.Count("bad."+name, 1)
	c.Distinct(name, last, len(m.Ticks), len(m.Pos), m.L.Sign())
	if !bad {
		c.Fail("the invalid request %s was accepted", name)
	}
	if after := viewNow(c, h); after != before {
		c.Fail("the rejected request %s changed the pool: %s", name, firstDiff(before, after))
	}
	if c.Intn(6) == 0 {
		if g, w := walkTicks(c, p), m.Sorted; fmt.Sprint(g) != fmt.Sprint(w) && len(g)+len(w) > 0 {
			c.Fail("after the rejected request %s the ticks are %v, before %v", name, g, w)
		}
	}
}

// c17chain: a long chain of clones of clones, all kept; every one must still
// show what it showed when it was last worked on.
func c17chain(c *Case) {
	bs := []*branch{{h: NewHist(c), name: "0"}}
	bs[0].h.lbits = 60
	for i := 5 + c.Intn(10); i > 0; i-- {
		bs[0].h.Step()
	}
	bs[0].view = viewNow(c, bs[0].h)
	for len(bs) <= 300 {
		l := bs[len(bs)-1]
		f := &branch{h: l.h.fork(), name: fmt.Sprint(len(bs))}
		if f.view = viewNow(c, f.h); f.view != l.view {
			c.Fail("clone %s differs from its original: %s", f.name, firstDiff(l.view, f.view))
		}
		bs = append(bs, f)
		for k := c.Intn(3); k > 0; k-- {
			b := bs[len(bs)-1]
			if c.Intn(3) == 0 {
				b = bs[c.Intn(len(bs))]
			}
			c.Op("-- on %s:", b.name)
			b.h.Step()
			b.view = viewNow(c, b.h)
		}
	}
	for _, b := range bs {
		c.Eval(1)
		if v := viewNow(c, b.h); v != b.view {
			c.Fail("pool %s of a chain of %d clones changed although nothing was done to it: %s", b.name, len(bs), firstDiff(b.view, v))
		}
	}
	c.Count("chain_of_300_clones", 1)
	c.Distinct("chain", len(bs[0].h.m.Ticks))
}

// c17fan: a pool is cloned very often without anything happening in between,
// either always from the original or each clone from the one before. Then the
// original and clones of all ages are worked on; nothing of it may show in any
// other.
func c17fan(c *Case) {
	root := &branch{h: NewHist(c), name: "original"}
	root.h.lbits = 60
	for i := 3 + c.Intn(8); i > 0; i-- {
		root.h.Step()
	}
	for round := 1 + c.Intn(3); round > 0; round-- {
		n := 254 + c.Intn(5)
		if round == 1 && c.idx%6 == 0 {
			n = 65534 + c.Intn(5)
			c.Count("fans_of_65536_clones", 1)
		} else {
			c.Count("fans_of_256_clones", 1)
		}
		chain := c.Intn(2) == 0
		root.view = viewNow(c, root.h)
		c.Op("-- %d clones of %s", n, map[bool]string{true: "clones", false: "the original"}[chain])
		keep := map[int]bool{0: true, 1: true, 254: true, 255: true, 256: true, n - 257: true, n - 256: true, n - 255: true, n - 2: true, n - 1: true}
		for len(keep) < 20 {
			keep[c.Intn(n)] = true
		}
		bs := []*branch{root}
		pool := root.h.impl
		for i := 0; i < n; i++ {
			from := root.h.impl
			if chain {
				from = pool
			}
			pool = from.Clone()
			if keep[i] {
				f := &branch{h: root.h.fork(), name: fmt.Sprintf("clone %d", i+1)}
				f.h.impl = pool
				if f.view = viewNow(c, f.h); f.view != root.view {
					c.Fail("%s differs from its original: %s", f.name, firstDiff(root.view, f.view))
				}
				bs = append(bs, f)
			}
		}
		for k := 12 + c.Intn(12); k > 0; k-- {
			b := bs[c.Intn(len(bs))]
			if c.Intn(3) == 0 {
				b = root
			}
			c.Op("-- on %s:", b.name)
			o, r := b.h.Step()
			b.view = viewNow(c, b.h)
			if !bigEq(r.M0, r.I0) || !bigEq(r.M1, r.I1) {
				c.Fail("%v on %s returned (%v, %v), expected (%v, %v): another branch leaked into it", o, b.name, r.I0, r.I1, r.M0, r.M1)
			}
			if b == root {
				c.Count("ops_on_original_of_fan", 1)
			} else {
				c.Count("ops_on_clone_of_fan", 1)
			}
			for _, q := range bs {
				c.Eval(1)
				if v := viewNow(c, q.h); v != q.view {
					c.Fail("%v on %s changed %s: %s", o, b.name, q.name, firstDiff(q.view, v))
				}
			}
		}
		c.Distinct("fan", n, chain, len(root.h.m.Ticks))
		root = bs[c.Intn(len(bs))]
	}
}

// c16hoard: a position on every one of some 200,000 ranges, so that even a
// confusion of two ranges that is due to chance alone (of a 32-bit digest) has
// to happen several times.
func c16hoard(c *Case) {
	fee := []int{500, 3000}[c.Intn(2)]
	sp := ref.Spacings[fee]
	max := ref.MaxTick / sp
	seen := map[int]bool{}
	var ticks []int
	for len(ticks) < 650 {
		if t := c.Intn(2*max+1) - max; !seen[t] {
			seen[t] = true
			ticks = append(ticks, t*sp)
		}
	}
	sort.Ints(ticks)
	type rng struct{ lo, hi int }
	var rs []rng
	for i, lo := range ticks {
		for _, hi := range ticks[i+1:] {
			rs = append(rs, rng{lo, hi})
		}
	}
	p := ppool.NewPool(tok0, tok1, fee, toUI(ref.SqrtAt(c.Intn(100000)-50000)))
	c.Op("a position on each of %d ranges", len(rs))
	liq := func(i int) *ui.Int { return ui.NewInt(uint64(i)*3 + 5) }
	for _, i := range c.Perm(len(rs)) {
		p.MintStrategy(rs[i].lo, rs[i].hi, liq(i))
		c.Tick()
	}
	for _, i := range c.Perm(len(rs)) {
		r := rs[i]
		c.Eval(1)
		c.Count("hoard_positions", 1)
		if bad, _ := c.Try(func() { p.BurnStrategy(r.lo, r.hi, new(ui.Int).Add(liq(i), ui.NewInt(1))) }); !bad {
			c.Fail("[%d, %d] holds more than the %v that was added to it", r.lo, r.hi, liq(i))
		}
		var b0, b1, g0, g1 *ui.Int
		if bad, v := c.Try(func() {
			b0, b1 = p.BurnStrategy(r.lo, r.hi, liq(i))
			g0, g1 = p.CollectStrategy(r.lo, r.hi)
		}); bad {
			c.Fail("[%d, %d] does not hold the %v that was added to it: %v", r.lo, r.hi, liq(i), v)
		}
		if !b0.Eq(g0) || !b1.Eq(g1) {
			c.Fail("[%d, %d]: burning everything pays (%v, %v), but (%v, %v) is collected", r.lo, r.hi, b0, b1, g0, g1)
		}
		c.Tick()
	}
	c.Distinct("hoard", fee)
}
