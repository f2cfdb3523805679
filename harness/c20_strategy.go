package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	ppool "uniswap-simulator/lib/pool"
	strat "uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() {
	checks["C20"] = checkC20
	checks["C21"] = checkC21
	checks["C22"] = checkC22
}

var stratKinds = []string{"NoProvision", "V2", "ConstantInterval", "IntervalAroundPrice", "TwoInterval", "IntervalAroundAverage",
	"IntervalAroundPriceAndSwap", "FillUp", "LimitOrder", "BollingerBands", "BollingerBandsFillUp", "VolatilitySized"}

func usesHistory(kind string) bool {
	switch kind {
	case "IntervalAroundAverage", "BollingerBands", "BollingerBandsFillUp", "VolatilitySized":
		return true
	}
	return false
}

// Params of a strategy.
type Params struct {
	Kind          string
	A, B, N, Mult int
}

func (p Params) String() string {
	return fmt.Sprintf("%s(a=%d b=%d n=%d mult=%d)", p.Kind, p.A, p.B, p.N, p.Mult)
}

func newStrategy(p Params, a0, a1 *ui.Int, pool *ppool.Pool) strat.Strategy {
	switch p.Kind {
	case "NoProvision":
		return strat.NewNoProvisionStrategy(a0, a1, pool)
	case "V2":
		return strat.NewV2Strategy(a0, a1, pool)
	case "ConstantInterval":
		return strat.NewConstantIntervalStrategy(a0, a1, pool, p.A)
	case "IntervalAroundPrice":
		return strat.NewIntervalAroundPriceStrategy(a0, a1, pool, p.A)
	case "TwoInterval":
		return strat.NewTwoIntervalAroundPriceStrategy(a0, a1, pool, p.A, p.B)
	case "IntervalAroundAverage":
		return strat.NewIntervalAroundAverageStrategy(a0, a1, pool, p.A, p.N)
	case "IntervalAroundPriceAndSwap":
		return strat.NewIntervalAroundPriceAndSwapStrategy(a0, a1, pool, p.A)
	case "FillUp":
		return strat.NewFillUpStrategy(a0, a1, pool, p.A)
	case "LimitOrder":
		return strat.NewLimitOrderStrategy(a0, a1, pool, p.A)
	case "BollingerBands":
		return strat.NewBollingerBandsStrategy(a0, a1, pool, p.N, p.Mult)
	case "BollingerBandsFillUp":
		return strat.NewBollingerBandsFillUpStrategy(a0, a1, pool, p.N, p.Mult)
	case "VolatilitySized":
		return strat.NewVolatilitySizedIntervalStrategy(a0, a1, pool, p.N, p.Mult)
	}
	panic("unknown strategy " + p.Kind)
}

func (s span) String() string { return fmt.Sprintf("[%d,%d):%v", s.Lo, s.Hi, s.L) }

// SD drives one strategy and the market on its pool. Market requests are
// generated from the pool's own public state, so no model is involved.
type SD struct {
	c      *Case
	par    Params
	fee    int
	sp     int
	s      strat.Strategy
	p      *ppool.Pool
	led    map[ref.Key]*big.Int // liquidity of the market's own ranges
	hist   []*big.Int           // square-root prices recorded so far
	fixLo  int
	fixHi  int
	wlo    int // the market keeps the price inside these ticks
	whi    int
	bounds []int
	open   []span // ranges found at the last start or rebalance
	args   guard
	given  [2]*big.Int

	orderKnown bool // the definition places a limit order last:
	orderUp    bool // selling the first token
	orderEnd   int  // the tick at which it is filled
}

func (d *SD) arg(x *big.Int) *ui.Int {
	u := toUI(x)
	d.args.p = append(d.args.p, u)
	d.args.v = append(d.args.v, *u)
	return u
}

func (c *Case) stratParams(kind string, sp int) Params {
	width := func() int {
		switch c.Intn(9) {
		case 0:
			return c.Intn(3)
		case 1:
			return sp / 2
		case 2:
			return sp - 1 + c.Intn(3)
		case 3:
			return sp * (1 + c.Intn(5))
		case 4:
			return c.Intn(100000)
		case 5:
			return []int{887272, 887000, 1774544, 500000}[c.Intn(4)]
		}
		return c.Intn(4000)
	}
	p := Params{Kind: kind, A: width()}
	p.B = (width()/sp + c.Intn(2)) * sp
	if c.Intn(3) == 0 {
		p.B = sp
	}
	p.N = 2 + c.Intn(8)
	if c.Intn(10) == 0 {
		p.N = 100
	}
	p.Mult = []int{1, 2 + c.Intn(30), 100, 1024, 1 + c.Intn(65535), 65535}[c.Intn(6)]
	return p
}

// newSD creates a base pool with some liquidity and a strategy on it.
func newSD(c *Case, kind string, wide bool) *SD {
	d := &SD{c: c, led: map[ref.Key]*big.Int{}}
	d.fee = []int{500, 3000, 10000}[c.Intn(3)]
	d.sp = ref.Spacings[d.fee]
	p := c.initialPrice(d.sp)
	hi := ref.MaxTick - 1
	if usesHistory(kind) {
		hi = histMax
		for ref.TickAt(p) > hi {
			p = c.initialPrice(d.sp)
		}
	}
	t := ref.TickAt(p)
	w := []int{60, 700, 3000, 20000}[c.Intn(4)]
	if wide {
		w = []int{100, 5000, 2 * ref.MaxTick}[c.Intn(3)]
	}
	d.wlo, d.whi = clampTick(t-w, ref.MinTick, hi), clampTick(t+w, ref.MinTick, hi)
	d.par = c.stratParams(kind, d.sp)
	if c.Intn(3) != 0 { // scale the widths to the market
		d.par.A = c.Intn(w + w/2 + 2)
		if kind == "TwoInterval" {
			d.par.B = (1 + c.Intn(w/d.sp+1)) * d.sp
		}
	}
	base := ppool.NewPool(tok0, tok1, d.fee, d.arg(p))
	d.p = base
	c.Op("base pool fee %d sqrt price %v (tick %d), market between ticks %d and %d", d.fee, p, t, d.wlo, d.whi)
	for i := 0; i < 4; i++ {
		d.bounds = append(d.bounds, d.bound())
	}
	n := c.Intn(5)
	for i := 0; i < n; i++ {
		d.plainMint(i == 0)
	}
	// move away from the exact start, possibly stopping on a boundary
	for i := c.Intn(4); i > 0; i-- {
		d.swap()
	}
	a0, a1 := d.budget()
	d.given = [2]*big.Int{a0, a1}
	c.Op("new %v amounts %v %v", d.par, a0, a1)
	d.s = newStrategy(d.par, d.arg(a0), d.arg(a1), base)
	d.p = d.s.GetPool()
	return d
}

// budget draws start amounts, most of the time worth about the same.
func (d *SD) budget() (*big.Int, *big.Int) {
	c := d.c
	l := randExact(c.Rand, 1+c.Intn([]int{12, 40, 70, 90}[c.Intn(4)]))
	p := fromUI(d.p.SqrtRatioX96)
	a0 := new(big.Int).Lsh(l, 96)
	a0.Quo(a0, p)
	a1 := new(big.Int).Mul(l, p)
	a1.Rsh(a1, 96)
	skew := func(a *big.Int) {
		switch c.Intn(6) {
		case 0:
			a.SetInt64(0)
		case 1:
			a.Set(randBelow(c.Rand, addI(a, 1)))
		case 2:
			a.SetInt64(int64(c.Intn(4)))
		}
	}
	if c.Intn(2) == 0 {
		skew(a0)
	}
	if c.Intn(2) == 0 {
		skew(a1)
	}
	return a0, a1
}

func (d *SD) bound() int {
	c := d.c
	t := d.p.TickCurrent
	switch c.Intn(4) {
	case 0:
		t += (c.Intn(7) - 3) * d.sp
	case 1:
		t = d.wlo + c.Intn(d.whi-d.wlo+1)
	case 2:
		t = []int{d.wlo - 2*d.sp, d.whi + 2*d.sp, ref.MinTick, ref.MaxTick}[c.Intn(4)]
	default:
		t += c.Intn(2001) - 1000
	}
	n := ref.MaxTick / d.sp
	return clampTick(ref.FloorDiv(t, d.sp), -n, n) * d.sp
}

func (d *SD) plainMint(wide bool) {
	c := d.c
	n := ref.MaxTick / d.sp * d.sp
	lo, hi := d.bounds[c.Intn(len(d.bounds))], d.bounds[c.Intn(len(d.bounds))]
	if wide {
		lo, hi = -n, n
	}
	if lo == hi {
		d.bounds[c.Intn(len(d.bounds))] = d.bound()
		return
	}
	if lo > hi {
		lo, hi = hi, lo
	}
	l := randExact(c.Rand, 1+c.Intn(95))
	k := ref.Key{Lo: lo, Hi: hi}
	c.Op("market adds %v on [%d,%d)", l, lo, hi)
	d.p.Mint(lo, hi, d.arg(l))
	if d.led[k] == nil {
		d.led[k] = new(big.Int)
	}
	d.led[k].Add(d.led[k], l)
}

func (d *SD) plainBurn() {
	if len(d.led) == 0 {
		return
	}
	ks := make([]ref.Key, 0, len(d.led))
	for k := range d.led {
		ks = append(ks, k)
	}
	sortKeys(ks)
	k := ks[d.c.Intn(len(ks))]
	l := d.led[k]
	a := new(big.Int).Set(l)
	if d.c.Intn(2) == 0 {
		a = addI(randBelow(d.c.Rand, l), 1)
	}
	d.c.Op("market removes %v on [%d,%d)", a, k.Lo, k.Hi)
	d.p.Burn(k.Lo, k.Hi, d.arg(a))
	if d.led[k] = new(big.Int).Sub(l, a); d.led[k].Sign() == 0 {
		delete(d.led, k)
	}
}

// swap trades to a price inside the market's window or by an amount.
func (d *SD) swap() {
	c := d.c
	cur := fromUI(d.p.SqrtRatioX96)
	tick := d.p.TickCurrent
	var cand []int
	for _, s := range d.open {
		cand = append(cand, s.Lo, s.Hi)
	}
	for k := range d.led {
		cand = append(cand, k.Lo, k.Hi)
	}
	sort.Ints(cand)
	target := func() *big.Int {
		var t int
		switch c.Intn(6) {
		case 0, 1:
			if len(cand) == 0 {
				return new(big.Int)
			}
			t = cand[c.Intn(len(cand))]
		case 2:
			t = d.wlo + c.Intn(d.whi-d.wlo+1)
		case 3:
			t = tick + c.Intn(2*d.sp+1) - d.sp
		case 4:
			t = (ref.FloorDiv(tick, d.sp) + c.Intn(3)) * d.sp
		case 5:
			w := 1 << uint(c.Intn(14))
			t = tick + c.Intn(2*w+1) - w
		}
		t = clampTick(t, d.wlo, d.whi)
		r := new(big.Int).Set(ref.SqrtAt(t))
		switch c.Intn(5) {
		case 0:
			r = addI(r, int64(c.Intn(3)-1))
		case 1:
			r.Add(r, randBelow(c.Rand, new(big.Int).Sub(ref.SqrtAt(t+1), ref.SqrtAt(t))))
		}
		return r
	}
	lo, hi := addI(ref.MinSP, 1), addI(ref.MaxSP, -1)
	var limit *big.Int
	for i := 0; ; i++ {
		limit = target()
		if c.Intn(6) == 0 { // to the very end of the price range
			if d.whi >= ref.MaxTick-1 && c.Intn(2) == 0 {
				limit = hi
			} else if d.wlo <= ref.MinTick {
				limit = lo
			}
		}
		if limit.Cmp(lo) >= 0 && limit.Cmp(hi) <= 0 && limit.Cmp(cur) != 0 {
			break
		}
		if i > 20 {
			return
		}
	}
	zf1 := limit.Cmp(cur) < 0
	amt := pow2(200)
	if c.Intn(3) == 0 {
		amt = randExact(c.Rand, 1+c.Intn(110))
	}
	if c.Intn(4) == 0 {
		amt.Neg(amt)
	}
	o := Op{Kind: "swap", A: amt, ZF1: zf1, Limit: limit}
	c.Op("market: %v", o)
	applyImpl(d.p, o, d.arg)
}

func (d *SD) flash() {
	if fromUI(d.p.Liquidity).Sign() == 0 {
		return
	}
	a, b := randBits(d.c.Rand, 60), randBits(d.c.Rand, 60)
	d.c.Op("market flashes %v %v", a, b)
	d.p.Flash(d.arg(a), d.arg(b))
}

func (d *SD) snapshot() {
	d.hist = append(d.hist, fromUI(d.p.SqrtRatioX96))
	d.c.Op("price snapshot %v", d.hist[len(d.hist)-1])
	d.s.MakeSnapshot()
}

// market makes one request; ok is false when the pool refused a valid one (a
// matter of the pool's own properties), which ends the case.
func (d *SD) market() (ok bool) {
	bad, v := d.c.Try(func() {
		switch d.c.Intn(10) {
		case 0:
			d.plainMint(d.c.Intn(4) == 0)
		case 1:
			d.plainBurn()
		case 2:
			d.flash()
		default:
			d.swap()
		}
	})
	d.c.Count("market_ops", 1)
	if bad {
		d.c.Op("-- the pool refused: %v", v)
		d.c.Count("abandoned", 1)
	}
	return !bad
}

// bal reads the uninvested balances.
func (d *SD) bal() (*big.Int, *big.Int) {
	get := func(n string) *big.Int {
		f, ok := field(reflect.ValueOf(d.s), n)
		if !ok {
			return nil
		}
		var b *big.Int
		switch u := f.Interface().(type) {
		case *ui.Int:
			b = fromUI(u)
		case ui.Int:
			b = fromUI(&u)
		default:
			return nil
		}
		if b.Bit(255) == 1 {
			d.c.Fail("the uninvested balance %s is negative: %v", n, new(big.Int).Sub(b, q256))
		}
		return b
	}
	b0, b1 := get("Amount0"), get("Amount1")
	if b0 == nil || b1 == nil { // not kept in this shape: what is reported beyond the open ranges
		d.c.Count("balances_inferred", 1)
		g0, g1 := d.s.GetAmounts()
		p0, p1 := d.principal()
		return p0.Sub(fromUI(g0), p0), p1.Sub(fromUI(g1), p1)
	}
	return b0, b1
}

// entries is the number of ranges the strategy keeps track of.
func (d *SD) entries(dflt int) int {
	f, ok := field(reflect.ValueOf(d.s), "Positions")
	if !ok || f.Kind() != reflect.Slice {
		return dflt + 1
	}
	return f.Len()
}

// ledgerTicks is what the market's own ranges put into the tick table.
func (d *SD) ledgerTicks() (net, gross map[int]*big.Int, active *big.Int) {
	net, gross, active = map[int]*big.Int{}, map[int]*big.Int{}, new(big.Int)
	add := func(m map[int]*big.Int, t int, x *big.Int) {
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], x)
	}
	for k, l := range d.led {
		add(net, k.Lo, l)
		add(net, k.Hi, new(big.Int).Neg(l))
		add(gross, k.Lo, l)
		add(gross, k.Hi, l)
		if k.Lo <= d.p.TickCurrent && d.p.TickCurrent < k.Hi {
			active.Add(active, l)
		}
	}
	return
}

// foreign lists the ticks at which the pool holds other liquidity than the
// market's own.
func (d *SD) foreign(p *ppool.Pool) []int {
	net, gross, _ := d.ledgerTicks()
	var out []int
	seen := map[int]bool{}
	for _, t := range walkTicks(d.c, p) {
		seen[t] = true
		tk := p.TickData.GetTick(t)
		g, n := gross[t], net[t]
		if g == nil {
			g, n = new(big.Int), new(big.Int)
		}
		if fromUIS(tk.LiquidityGross).Cmp(g) != 0 || fromUIS(tk.LiquidityNet).Cmp(n) != 0 {
			out = append(out, t)
		}
	}
	for t := range gross {
		if !seen[t] {
			out = append(out, t)
		}
	}
	sort.Ints(out)
	return out
}

// discover finds the strategy's open ranges through the pool's public
// interface: which ranges can be poked, and how much can be burnt there.
func (d *SD) discover() []span {
	q := d.p.Clone()
	ts := d.foreign(q)
	var out []span
	for i, lo := range ts {
		for _, hi := range ts[i+1:] {
			if bad, _ := d.c.Try(func() { q.BurnStrategy(lo, hi, new(ui.Int)) }); bad {
				continue
			}
			l := new(big.Int)
			for k := 127; k >= 0; k-- {
				b := pow2(uint(k))
				if bad, _ := d.c.Try(func() { q.BurnStrategy(lo, hi, toUI(b)) }); !bad {
					l.Add(l, b)
				}
			}
			out = append(out, span{lo, hi, l})
		}
	}
	if r := d.foreign(q); len(r) > 0 {
		d.c.Fail("after removing everything the strategy can burn (%v) its liquidity remains at ticks %v", out, r)
	}
	d.open = out
	return out
}

// payout is what liquidating the open ranges pays on a copy of the pool.
func (d *SD) payout() (q *ppool.Pool, a0, a1 *big.Int) {
	q = d.p.Clone()
	a0, a1 = new(big.Int), new(big.Int)
	for _, s := range d.open {
		q.BurnStrategy(s.Lo, s.Hi, toUI(s.L))
		x, y := q.CollectStrategy(s.Lo, s.Hi)
		a0.Add(a0, fromUI(x))
		a1.Add(a1, fromUI(y))
	}
	return
}

// principal is the worth of the open ranges at the current price.
func (d *SD) principal() (*big.Int, *big.Int) {
	a0, a1 := new(big.Int), new(big.Int)
	p := fromUI(d.p.SqrtRatioX96)
	for _, s := range d.open {
		x, y, err := ref.AmountsForLiquidity(p, ref.SqrtAt(s.Lo), ref.SqrtAt(s.Hi), s.L)
		if err != nil {
			d.c.Fail("model: %v", err)
		}
		a0.Add(a0, x)
		a1.Add(a1, y)
	}
	return a0, a1
}

// where describes the price relative to the open ranges.
func (d *SD) where() string {
	p := fromUI(d.p.SqrtRatioX96)
	s := ""
	for _, r := range d.open {
		switch {
		case p.Cmp(ref.SqrtAt(r.Lo)) < 0:
			s += "b"
		case p.Cmp(ref.SqrtAt(r.Lo)) == 0:
			s += "l"
			d.c.Count("price_on_boundary", 1)
		case p.Cmp(ref.SqrtAt(r.Hi)) < 0:
			s += "i"
			d.c.Count("price_inside", 1)
		case p.Cmp(ref.SqrtAt(r.Hi)) == 0:
			s += "u"
			d.c.Count("price_on_boundary", 1)
		default:
			s += "a"
		}
	}
	return s
}

// ---------------------------------------------------------------- definitions

func roundTo(x, unit int) int { // half away from zero
	if x < 0 {
		return -roundTo(-x, unit)
	}
	return (2*x + unit) / (2 * unit) * unit
}

// expect computes the ranges the definition of the strategy opens from the
// state after its ranges were liquidated (q, b0, b1), and what stays
// uninvested. ok is false when the liquidity leaves the contract's domain.
func (d *SD) expect(q *ppool.Pool, b0, b1 *big.Int, first bool) (out []span, r0, r1 *big.Int, ok bool) {
	b0, b1 = new(big.Int).Set(b0), new(big.Int).Set(b1)
	ok = true
	tick, sp := q.TickCurrent, d.sp
	limit := pow2(120)
	put := func(lo, hi int, half bool) {
		if lo >= hi || lo < ref.MinTick || hi > ref.MaxTick {
			return
		}
		p := fromUI(q.SqrtRatioX96)
		sl, sh := ref.SqrtAt(lo), ref.SqrtAt(hi)
		l, err := ref.LiquidityForAmounts(p, sl, sh, b0, b1)
		if err != nil || l.Cmp(limit) > 0 {
			ok = false
			return
		}
		if half {
			l.Quo(l, big.NewInt(2))
		}
		if l.Sign() == 0 {
			return
		}
		a0, a1 := new(big.Int), new(big.Int)
		switch {
		case q.TickCurrent < lo:
			a0, _ = ref.Amount0Signed(sl, sh, l)
		case q.TickCurrent < hi:
			a0, _ = ref.Amount0Signed(p, sh, l)
			a1, _ = ref.Amount1Signed(sl, p, l)
		default:
			a1, _ = ref.Amount1Signed(sl, sh, l)
		}
		b0.Sub(b0, a0)
		b1.Sub(b1, a1)
		out = append(out, span{lo, hi, l})
	}
	around := func(t int) (int, int) { return roundTo(t-d.par.A, sp), roundTo(t+d.par.A, sp) }
	d.orderKnown = false
	side := func(w int, half bool) {
		if b0.Sign() != 0 {
			lo, n := ceilTo(tick, sp), len(out)
			put(lo, lo+w, half)
			d.orderKnown, d.orderUp, d.orderEnd = len(out) > n, true, lo+w
		}
		if b1.Sign() != 0 {
			hi, n := floorTo(tick, sp), len(out)
			put(hi-w, hi, half)
			d.orderKnown, d.orderUp, d.orderEnd = len(out) > n, false, hi-w
		}
	}
	fill := func(lo, hi int) {
		if b0.Sign() != 0 {
			put(ceilTo(tick, sp), hi, false)
		} else if b1.Sign() != 0 {
			put(lo, floorTo(tick, sp), false)
		}
	}
	scaled := func(w []*big.Int) *big.Int {
		v := new(big.Int).Mul(volatilityOf(w), big.NewInt(int64(d.par.Mult)))
		return v.Sqrt(v.Rsh(v, 10))
	}
	switch d.par.Kind {
	case "NoProvision":
	case "V2":
		put(ceilTo(ref.MinTick, sp), floorTo(ref.MaxTick, sp), false)
	case "ConstantInterval":
		if first {
			d.fixLo, d.fixHi = around(tick)
		}
		put(d.fixLo, d.fixHi, false)
	case "IntervalAroundPrice":
		lo, hi := around(tick)
		put(lo, hi, false)
	case "TwoInterval":
		lo, hi := around(tick)
		put(lo, hi, false)
		side(d.par.B, false)
	case "LimitOrder":
		lo, hi := around(tick)
		put(lo, hi, false)
		side(sp, true)
	case "FillUp":
		lo, hi := around(tick)
		put(lo, hi, false)
		fill(lo, hi)
	case "IntervalAroundAverage":
		p := meanOf(window(d.hist, d.par.N))
		p.Sqrt(p)
		if p.Cmp(ref.MinSP) < 0 {
			break
		}
		lo, hi := around(ref.TickAt(p))
		put(lo, hi, false)
	case "BollingerBands", "BollingerBandsFillUp":
		w := window(d.hist, d.par.N)
		p := meanOf(w)
		lo, hi := band(p.Sqrt(p), scaled(w))
		put(lo, hi, false)
		if d.par.Kind == "BollingerBandsFillUp" && !first && lo <= tick && tick <= hi {
			fill(lo, hi)
		}
	case "VolatilitySized":
		lo, hi := band(fromUI(q.SqrtRatioX96), scaled(window(d.hist, d.par.N)))
		put(lo, hi, false)
	case "IntervalAroundPriceAndSwap":
		lo, hi := around(tick)
		if lo >= hi || lo < ref.MinTick || hi > ref.MaxTick {
			break
		}
		p := fromUI(q.SqrtRatioX96)
		l, err := ref.LiquidityForAmounts(p, ref.SqrtAt(lo), ref.SqrtAt(hi), b0, b1)
		if err != nil || l.Cmp(limit) > 0 {
			return nil, nil, nil, false
		}
		n0, n1, _ := ref.AmountsForLiquidity(p, ref.SqrtAt(lo), ref.SqrtAt(hi), l)
		d0, d1 := n0.Sub(b0, n0), n1.Sub(b1, n1)
		if d0.BitLen() > 200 || d1.BitLen() > 200 {
			return nil, nil, nil, false
		}
		// the surplus that is worth more at 10^9 (2^9 in the code's scale) is halved by a swap
		zf1 := new(big.Int).Lsh(d0, 9).Cmp(d1) > 0
		amt, tok := d1, q.Token1
		if zf1 {
			amt, tok = d0, q.Token0
		}
		amt = new(big.Int).Rsh(amt, 1)
		if amt.Sign() > 0 {
			x, y := q.ExactInputSwap(toUI(amt), tok, new(ui.Int))
			b0.Sub(b0, fromUIS(x))
			b1.Sub(b1, fromUIS(y))
			d.c.Count("balancing_swaps", 1)
		}
		put(lo, hi, false)
	}
	if b0.BitLen() > 200 || b1.BitLen() > 200 {
		ok = false
	}
	return out, b0, b1, ok
}

func merged(in []span) []span {
	var out []span
next:
	for _, s := range in {
		for i := range out {
			if out[i].Lo == s.Lo && out[i].Hi == s.Hi {
				out[i].L = new(big.Int).Add(out[i].L, s.L)
				continue next
			}
		}
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Lo < out[j].Lo || out[i].Lo == out[j].Lo && out[i].Hi < out[j].Hi })
	return out
}

// inDomain tells whether the next start or rebalance stays in the domain of
// the contract's number types (liquidity below 2^120).
func (d *SD) inDomain(first bool) bool {
	ok := false
	crashed, _ := d.c.Try(func() {
		q, x, y := d.payout()
		b0, b1 := d.bal()
		lo, hi := d.fixLo, d.fixHi
		_, _, _, ok = d.expect(q, x.Add(x, b0), y.Add(y, b1), first)
		if !first {
			d.fixLo, d.fixHi = lo, hi
		}
	})
	if crashed { // the strategy's own call will show it
		d.c.Count("crash_expected", 1)
		return true
	}
	if !ok {
		d.c.Count("out_of_domain", 1)
	}
	return ok
}

// ---------------------------------------------------------------- C20

func checkC20(x *Ctx) {
	x.rule = "each evaluation checks one strategy after one request (start, rebalance, market trade, liquidation): balances not negative, reported amounts = balances + principal of the ranges found in the pool, liquidation = what those ranges pay on a copy of the pool; distinct = (strategy, event, number of ranges, price relative to each, fees earned, one-sidedness)"
	x.Require("rebalances", "liquidations", "idempotent", "fees_earned", "price_inside", "price_on_boundary", "without_start", "two_ranges", "unequal_amounts", "balancing_swaps_accounted", "partial_balancing_swaps")
	for _, k := range stratKinds {
		x.Require("kind." + k)
	}
	x.Run("long", x.N(6, 120)*len(stratKinds), func(c *Case) {
		d := newSD(c, stratKinds[c.idx%len(stratKinds)], false)
		n := c20history(c, d, 260+c.Intn(60))
		if n > 256 {
			c.Count("long_histories", 1)
		}
	})
	x.Run("history", x.N(72000, 2000000), func(c *Case) {
		d := newSD(c, stratKinds[c.idx%len(stratKinds)], false)
		c.Count("kind."+d.par.Kind, 1)
		c20history(c, d, 0)
		d.args.check(c, "the history")
	})
}

// c20same: nothing but the strategy's own requests moves its balances.
func c20same(c *Case, d *SD, w0, w1 *big.Int, what string) {
	b0, b1 := d.bal()
	c.Eval(1)
	if b0.Cmp(w0) != 0 || b1.Cmp(w1) != 0 {
		c.Fail("after %s the uninvested balances are (%v, %v); they were (%v, %v)", what, b0, b1, w0, w1)
	}
}

// c20history returns the number of rebalances it came to.
func c20history(c *Case, d *SD, rounds int) (done int) {
	c20same(c, d, d.given[0], d.given[1], "creation with these amounts")
	if d.given[0].Cmp(d.given[1]) != 0 {
		c.Count("unequal_amounts", 1)
	}
	for i := c.Intn(d.par.N + 6); i > 0; i-- {
		if !d.market() {
			return
		}
		d.snapshot()
	}
	c20same(c, d, d.given[0], d.given[1], "trades and snapshots before the start")
	if c.Intn(12) == 0 { // never started
		c.Count("without_start", 1)
		c20now(c, d, "unstarted")
		c20liquidate(c, d)
		return
	}
	if !d.inDomain(true) {
		return
	}
	w0, w1 := d.bal()
	q := d.p.Clone()
	c.Op("start")
	r0, r1 := d.s.Init()
	c.Eval(1)
	if fromUI(r0).Cmp(w0) != 0 || fromUI(r1).Cmp(w1) != 0 {
		c.Fail("starting reported (%v, %v), the balances were (%v, %v)", fromUI(r0), fromUI(r1), w0, w1)
	}
	d.discover()
	c20kept(c, d, q, w0, w1, "start")
	c20now(c, d, "start")
	if rounds == 0 {
		rounds = 1 + c.Intn(5)
	}
	for r := 0; r < rounds; r++ {
		w0, w1 := d.bal()
		for i := c.Intn(5); i > 0; i-- {
			if !d.market() {
				return
			}
			c20now(c, d, "trade")
			if c.Intn(3) == 0 {
				d.snapshot()
			}
		}
		c20same(c, d, w0, w1, "trades, snapshots and valuations")
		switch {
		case c.Intn(8) == 0:
			c20liquidate(c, d)
		default:
			if !d.inDomain(false) {
				return
			}
			q, x, y := d.payout()
			e0, e1 := d.bal()
			p0, p1 := d.principal()
			if x.Cmp(p0) > 0 || y.Cmp(p1) > 0 {
				c.Count("fees_earned", 1)
			}
			e0.Add(e0, x)
			e1.Add(e1, y)
			tol := d.entries(len(d.open)) - len(d.open)
			c.Op("rebalance")
			g0, g1 := d.s.Rebalance()
			c.Count("rebalances", 1)
			done++
			c.Eval(1)
			if d.par.Kind != "NoProvision" {
				if !within(fromUI(g0), e0, tol) || !within(fromUI(g1), e1, tol) {
					c.Fail("rebalancing liquidated to (%v, %v); balances plus what the open ranges %v pay is (%v, %v)", fromUI(g0), fromUI(g1), d.open, e0, e1)
				}
				e0, e1 = fromUI(g0), fromUI(g1)
			}
			d.discover()
			c20kept(c, d, q, e0, e1, "rebalance")
			c20now(c, d, "rebalance")
		}
	}
	c20liquidate(c, d)
	return
}

// c20kept: opening ranges keeps the money up to one unit per range and token.
func c20kept(c *Case, d *SD, q *ppool.Pool, e0, e1 *big.Int, what string) {
	if len(d.open) > 1 {
		c.Count("two_ranges", 1)
	}
	g0, g1 := d.s.GetAmounts()
	n := d.entries(len(d.open))
	c.Eval(1)
	if d.par.Kind == "IntervalAroundPriceAndSwap" {
		c20swapped(c, d, q, e0, e1, n, what)
		return
	}
	if !within(fromUI(g0), e0, n) || !within(fromUI(g1), e1, n) {
		c.Fail("after the %s the strategy reports (%v, %v) of the (%v, %v) it had, in %d ranges %v", what, fromUI(g0), fromUI(g1), e0, e1, n, d.open)
	}
}

// c20swapped: a strategy that trades with the pool (q, before the trade) pays
// what moves the price as far as it moved, gets what that pays out, and keeps
// the rest.
func c20swapped(c *Case, d *SD, q *ppool.Pool, e0, e1 *big.Int, n int, what string) {
	was, now := fromUI(q.SqrtRatioX96), fromUI(d.p.SqrtRatioX96)
	r0, r1 := d.s.GetAmounts()
	g := [2]*big.Int{fromUI(r0), fromUI(r1)}
	hi, lo := [2]*big.Int{e0, e1}, [2]*big.Int{}
	cost := func(zf1 bool, limit *big.Int) (in, out *big.Int) {
		if limit.Cmp(ref.MinSP) <= 0 || limit.Cmp(ref.MaxSP) >= 0 {
			return nil, nil
		}
		a0, a1 := applyImpl(q.Clone(), Op{Kind: "swap", A: pow2(180), ZF1: zf1, Limit: limit}, toUI)
		if zf1 {
			return a0, a1.Neg(a1)
		}
		return a1, a0.Neg(a0)
	}
	// further is what a movement by one more unit takes.
	further := func(zf1 bool, p *big.Int, in *big.Int) *big.Int {
		next := addI(p, 1)
		if zf1 {
			next = addI(p, -1)
		}
		x, _ := cost(zf1, next)
		if x == nil {
			return in
		}
		return x
	}
	if d.par.A == 0 && now.Cmp(was) == 0 && g[0].Cmp(e0) == 0 && g[1].Cmp(e1) == 0 {
		return
	}
	exact := e0.BitLen()+was.BitLen() < 250 && e0.BitLen()+now.BitLen() < 250
	if bad, _ := c.Try(func() {
		if now.Cmp(was) == 0 {
			z := new(big.Int)
			lo[0] = new(big.Int).Sub(e0, further(true, was, z))
			lo[1] = new(big.Int).Sub(e1, further(false, was, z))
			return
		}
		zf1 := now.Cmp(was) < 0
		i, o := 0, 1
		if !zf1 {
			i, o = 1, 0
		}
		in, out := cost(zf1, now)
		most := further(zf1, now, in)
		if most.Cmp(in) == 0 {
			c.Count("partial_balancing_swaps", 1)
		}
		lo[i] = new(big.Int).Sub(hi[i], most)
		hi[i] = new(big.Int).Sub(hi[i], in)
		hi[o] = new(big.Int).Add(hi[o], out)
		lo[o] = hi[o]
	}); bad {
		return
	}
	c.Count("balancing_swaps_accounted", 1)
	for i := range g {
		if g[i].Cmp(hi[i]) > 0 || exact && g[i].Cmp(addI(lo[i], int64(-n))) < 0 {
			c.Fail("after the %s, which moved the price from %v to %v, the strategy reports %v of token %d; with (%v, %v) before, between %v and %v are accounted for", what, was, now, g[i], i, e0, e1, lo[i], hi[i])
		}
	}
}

func c20now(c *Case, d *SD, what string) {
	b0, b1 := d.bal()
	p0, p1 := d.principal()
	p0.Add(p0, b0)
	p1.Add(p1, b1)
	g0, g1 := d.s.GetAmounts()
	c.Eval(1)
	tol := d.entries(len(d.open)) - len(d.open)
	if !within(fromUI(g0), p0, tol) || !within(fromUI(g1), p1, tol) {
		c.Fail("the strategy reports (%v, %v) at sqrt price %v; balances plus principal of %v is (%v, %v)", fromUI(g0), fromUI(g1), fromUI(d.p.SqrtRatioX96), d.open, p0, p1)
	}
	c.Distinct(d.par.Kind, what, len(d.open), d.where(), b0.Sign(), b1.Sign(), len(d.led) > 0)
}

func c20liquidate(c *Case, d *SD) {
	_, x, y := d.payout()
	b0, b1 := d.bal()
	p0, p1 := d.principal()
	fees := x.Cmp(p0) > 0 || y.Cmp(p1) > 0
	if fees {
		c.Count("fees_earned", 1)
	}
	x.Add(x, b0)
	y.Add(y, b1)
	tol := d.entries(len(d.open)) - len(d.open)
	c.Op("liquidate")
	g0, g1 := d.s.BurnAll()
	c.Count("liquidations", 1)
	c.Eval(1)
	if !within(fromUI(g0), x, tol) || !within(fromUI(g1), y, tol) {
		c.Fail("liquidating returned (%v, %v); balances plus what the open ranges %v pay is (%v, %v)", fromUI(g0), fromUI(g1), d.open, x, y)
	}
	where := d.where()
	was := d.open
	d.open = nil
	_, _, active := d.ledgerTicks()
	if f := d.foreign(d.p); len(f) > 0 || fromUI(d.p.Liquidity).Cmp(active) != 0 {
		c.Fail("after liquidation the pool differs from the market's own liquidity at ticks %v (active %v, the market's %v); ranges were %v", f, fromUI(d.p.Liquidity), active, was)
	}
	h0, h1 := d.s.GetAmounts()
	if !h0.Eq(g0) || !h1.Eq(g1) {
		c.Fail("liquidating returned (%v, %v) but the strategy then reports (%v, %v)", fromUI(g0), fromUI(g1), fromUI(h0), fromUI(h1))
	}
	before := slot0(d.p) + growth(d.p)
	var z0, z1 *ui.Int
	if bad, v := c.Try(func() { z0, z1 = d.s.BurnAll() }); bad {
		c.Fail("liquidating again crashes: %v", v)
	}
	h0, h1 = d.s.GetAmounts()
	c.Count("idempotent", 1)
	if !z0.Eq(g0) || !z1.Eq(g1) || !h0.Eq(g0) || !h1.Eq(g1) || before != slot0(d.p)+growth(d.p) || len(d.foreign(d.p)) > 0 {
		c.Fail("liquidating again changed something: (%v, %v) then (%v, %v), reported (%v, %v)", fromUI(g0), fromUI(g1), fromUI(z0), fromUI(z1), fromUI(h0), fromUI(h1))
	}
	c.Distinct(d.par.Kind, "liquidate", len(was), where, fees, b0.Sign(), b1.Sign())
}

// ---------------------------------------------------------------- C21

func checkC21(x *Ctx) {
	x.rule = "each evaluation compares the ranges and liquidity found in the pool after one start or rebalance, and the balances left, with the strategy's definition evaluated in big integers on the current tick, price, budget and recorded prices; distinct = (strategy, start or rebalance, ranges opened, price relative to each, sign of ticks, alignment)"
	x.Require("starts", "rebalances", "with_side_order", "negative_ticks", "one_sided", "budget_left_zero", "window_wrapped", "limit_orders")
	for _, k := range stratKinds {
		x.Require("kind." + k)
	}
	f := func(c *Case) {
		long := strings.HasPrefix(c.ID, "long/")
		d := newSD(c, stratKinds[c.idx%len(stratKinds)], c.Intn(4) == 0 && !long)
		c.Count("kind."+d.par.Kind, 1)
		n := 0
		if usesHistory(d.par.Kind) {
			n = d.par.N + c.Intn(2*d.par.N)
		}
		for i := 0; i < n; i++ {
			for k := c.Intn(3); k > 0; k-- {
				if !d.market() {
					return
				}
			}
			d.snapshot()
		}
		if n > d.par.N {
			c.Count("window_wrapped", 1)
		}
		if !c21act(c, d, true) {
			return
		}
		r := 1 + c.Intn(5)
		if long {
			r += 260
		}
		for ; r > 0; r-- {
			for i := c.Intn(5); i > 0; i-- {
				if !d.market() {
					return
				}
				if c.Intn(3) == 0 {
					d.snapshot()
				}
			}
			if !c21act(c, d, false) {
				return
			}
		}
		if long {
			c.Count("long_histories", 1)
		}
		d.args.check(c, "the history")
	}
	x.Run("long", x.N(6, 120)*len(stratKinds), f)
	x.Run("history", x.N(90000, 2000000), f)
}

func c21act(c *Case, d *SD, first bool) bool {
	var q *ppool.Pool
	var b0, b1, r0, r1 *big.Int
	var want []span
	ok := true
	// The state from which the ranges are opened, and the definition. A crash
	// here is the pool's, not the strategy's.
	if bad, v := c.Try(func() {
		q, b0, b1 = d.payout()
		x, y := d.bal()
		b0.Add(b0, x)
		b1.Add(b1, y)
		want, r0, r1, ok = d.expect(q, b0, b1, first)
	}); bad || !ok {
		c.Op("-- abandoned: %v", v)
		c.Count("out_of_domain", 1)
		return false
	}
	name := "rebalance"
	if first {
		name = "start"
	}
	c.Op("%s, defined to open %v", name, want)
	c.Count(name+"s", 1)
	dup := len(d.open) < d.entries(len(d.open))
	if first {
		d.s.Init()
	} else {
		d.s.Rebalance()
	}
	got := d.discover()
	c.Eval(1)
	n := len(want)
	want = merged(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		if dup && len(got) == len(want) { // two tracked ranges were one in the pool: budgets differ by rounding
			c.Count("shared_range", 1)
			return false
		}
		c.Fail("%v opened %v at tick %d with (%v, %v); its definition gives %v", d.par, got, q.TickCurrent, b0, b1, want)
	}
	g0, g1 := d.bal()
	if g0.Cmp(r0) != 0 || g1.Cmp(r1) != 0 {
		if dup {
			return false
		}
		c.Fail("%v left (%v, %v) uninvested of (%v, %v) after opening %v; the ranges cost all but (%v, %v)", d.par, g0, g1, b0, b1, want, r0, r1)
	}
	if n > 1 {
		c.Count("with_side_order", 1)
	}
	if d.par.Kind == "LimitOrder" && d.orderKnown {
		c.Count("limit_orders", 1)
		if o, is := d.s.(interface {
			GetDirection() bool
			GetCurrentLimitTick() int
		}); is && (o.GetDirection() != d.orderUp || o.GetCurrentLimitTick() != d.orderEnd) {
			c.Fail("%v reports its order as (sells token 0: %v, filled at %d); the order it placed last is (%v, %d), of %v", d.par, o.GetDirection(), o.GetCurrentLimitTick(), d.orderUp, d.orderEnd, got)
		}
		if o, is := d.s.(interface{ GetDirections() bool }); is && o.GetDirections() != d.orderUp {
			c.Fail("%v reports its order as selling token 0: %v; the order it placed last: %v, of %v", d.par, o.GetDirections(), d.orderUp, got)
		}
	}
	if r0.Sign() == 0 || r1.Sign() == 0 {
		c.Count("budget_left_zero", 1)
	}
	align := true
	for _, s := range want {
		if s.Lo < 0 {
			c.Count("negative_ticks", 1)
		}
		if s.Lo%d.sp != 0 || s.Hi%d.sp != 0 {
			align = false
		}
	}
	w := d.where()
	if w == "b" || w == "a" {
		c.Count("one_sided", 1)
	}
	c.Distinct(d.par.Kind, first, w, q.TickCurrent < 0, align, r0.Sign(), r1.Sign())
	if !align {
		c.Known("unaligned-"+d.par.Kind, "%v opens %v although the pool's tick spacing is %d", d.par, want, d.sp)
	}
	return true
}

// ---------------------------------------------------------------- C22

func checkC22(x *Ctx) {
	x.rule = "each evaluation is one start, rebalance, valuation, snapshot or liquidation of a strategy in a generated market state that must complete; when no range could be opened the balances must be as before; distinct = (strategy, call, window state, balances, price relative to the open ranges, at the end of the price range)"
	x.Require("calls", "constant_history", "partial_window", "empty_window", "no_budget", "one_sided_budget", "no_range", "kept", "narrow_band", "price_at_end", "at_upper_end", "far_outside", "no_market_liquidity", "on_boundary")
	for _, k := range stratKinds {
		x.Require("kind." + k)
	}
	x.Run("long", x.N(3, 60)*len(stratKinds), func(c *Case) {
		d := newSD(c, stratKinds[c.idx%len(stratKinds)], c.Intn(2) == 0)
		c22case(c, d)
	})
	x.Run("market", x.N(135000, 3000000), func(c *Case) {
		d := newSD(c, stratKinds[c.idx%len(stratKinds)], c.Intn(3) != 0)
		c.Count("kind."+d.par.Kind, 1)
		c22case(c, d)
	})
}

func c22case(c *Case, d *SD) {
	mode := c.Intn(5)
	n := d.par.N + c.Intn(5)
	state := "full"
	switch mode {
	case 0: // a constant price
		state = "constant"
		c.Count("constant_history", 1)
		for i := 0; i < n; i++ {
			d.snapshot()
		}
	case 1:
		state = "partial"
		c.Count("partial_window", 1)
		for i := 1 + c.Intn(d.par.N-1); i > 0; i-- {
			d.snapshot()
		}
	case 2:
		state = "empty"
		c.Count("empty_window", 1)
	default:
		for i := 0; i < n; i++ {
			if c.Intn(2) == 0 && !d.market() {
				return
			}
			d.snapshot()
		}
	}
	call := func(name string, f func()) {
		c.Op("%s", name)
		c.Eval(1)
		c.Count("calls", 1)
		p := fromUI(d.p.SqrtRatioX96)
		at := p.Cmp(addI(ref.MinSP, 1)) <= 0 || p.Cmp(addI(ref.MaxSP, -1)) >= 0
		if at {
			c.Count("price_at_end", 1)
			if p.BitLen() > 100 {
				c.Count("at_upper_end", 1)
			}
		}
		c.Distinct(d.par.Kind, name, state, d.given[0].Sign(), d.given[1].Sign(), d.where(), at, d.p.TickCurrent%d.sp == 0, len(d.led) == 0)
		if bad, v := c.Try(f); bad {
			c.Fail("%v of %v crashes at tick %d, sqrt price %v: %v", name, d.par, d.p.TickCurrent, p, v)
		}
		c.Tick()
	}
	switch s := d.given[0].Sign() + d.given[1].Sign(); s {
	case 0:
		c.Count("no_budget", 1)
	case 1:
		c.Count("one_sided_budget", 1)
	}
	act := func(first bool) bool {
		if len(d.led) == 0 {
			c.Count("no_market_liquidity", 1)
		}
		for _, s := range d.open {
			t := d.p.TickCurrent
			if t < s.Lo-100000 || t > s.Hi+100000 {
				c.Count("far_outside", 1)
			}
			if t == s.Lo || t == s.Hi || t == s.Hi-1 || t == s.Lo-1 {
				c.Count("on_boundary", 1)
			}
		}
		if !d.inDomain(first) {
			return false
		}
		var e0, e1 *big.Int
		lost, _ := c.Try(func() {
			_, x, y := d.payout()
			b0, b1 := d.bal()
			e0, e1 = x.Add(x, b0), y.Add(y, b1)
		})
		tol := d.entries(len(d.open)) - len(d.open)
		if first {
			call("start", func() { d.s.Init() })
		} else {
			call("rebalance", func() { d.s.Rebalance() })
		}
		if bad, _ := c.Try(func() { d.discover() }); bad {
			return false
		}
		for _, s := range d.open {
			if s.Hi-s.Lo <= 2 {
				c.Count("narrow_band", 1)
			}
		}
		if len(d.open) == 0 {
			c.Count("no_range", 1)
			if d.par.Kind != "IntervalAroundPriceAndSwap" && !lost {
				b0, b1 := d.bal()
				c.Count("kept", 1)
				if !within(b0, e0, tol) || !within(b1, e1, tol) {
					c.Fail("%v opened no range but its balances went from (%v, %v) to (%v, %v)", d.par, e0, e1, b0, b1)
				}
			}
		}
		return true
	}
	if c.Intn(15) == 0 {
		call("value", func() { d.s.GetAmounts() })
		call("liquidate", func() { d.s.BurnAll() })
		return
	}
	if !act(true) {
		return
	}
	i := 2 + c.Intn(8)
	if strings.HasPrefix(c.ID, "long/") {
		i += 600
		c.Count("long_histories", 1)
	}
	for ; i > 0; i-- {
		if c.Intn(4) != 0 {
			if !d.market() {
				return
			}
		}
		switch c.Intn(6) {
		case 0:
			call("value", func() { d.s.GetAmounts() })
		case 1:
			if c.Intn(4) == 0 {
				call("liquidate", func() { d.s.BurnAll() })
				d.open = nil
			}
		case 2:
			call("snapshot", func() { d.snapshot() })
		default:
			if !act(false) {
				return
			}
		}
	}
	call("value", func() { d.s.GetAmounts() })
	call("liquidate", func() { d.s.BurnAll() })
	d.open = nil
	call("liquidate again", func() { d.s.BurnAll() })
}
