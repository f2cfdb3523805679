package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	ppool "uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func (o Op) String() string {
	switch o.Kind {
	case "swap":
		d := "1->0"
		if o.ZF1 {
			d = "0->1"
		}
		return fmt.Sprintf("swap %s amount %v limit %v", d, o.A, o.Limit)
	case "flash":
		return fmt.Sprintf("flash %v %v", o.A, o.B)
	case "collect", "poke":
		return fmt.Sprintf("%s [%d,%d)", o.Kind, o.Lo, o.Hi)
	}
	return fmt.Sprintf("%s [%d,%d) liquidity %v", o.Kind, o.Lo, o.Hi, o.A)
}

// Hist drives a pool of the code under test in lockstep with the model.
type Hist struct {
	c      *Case
	impl   *ppool.Pool
	m      *ref.Pool
	bounds []int // candidate range ends
	plain  map[ref.Key]*big.Int
	total  *big.Int // sum of all gross range liquidity
	lbits  int
	noPln  bool // no plain mints and burns
	noWrap bool // no flashes that make the fee growth wrap
	crowd  int  // ticks to set up before anything else becomes frequent
	factor int
	args   guard
	start  *big.Int
}

const tok0, tok1 = "USDC", "WETH"

// NewHist creates a pool at a generated price.
func NewHist(c *Case) *Hist {
	fee := []int{500, 3000, 10000}[c.Intn(3)]
	return newHistAt(c, fee, c.initialPrice(ref.Spacings[fee]))
}

func newHistAt(c *Case, fee int, p *big.Int) *Hist {
	h := &Hist{c: c, plain: map[ref.Key]*big.Int{}, total: new(big.Int), start: p}
	m, err := ref.NewPool(fee, p)
	if err != nil {
		c.Fail("model: %v", err)
	}
	h.m = m
	c.Op("new pool fee %d sqrt price %v (tick %d)", fee, p, m.Tick)
	a := h.arg(p)
	h.impl = ppool.NewPool(tok0, tok1, fee, a)
	h.lbits = []int{4, 30, 64, 90, 120}[c.Intn(5)]
	n := 3 + c.Intn(7)
	h.factor = 1
	if strings.HasPrefix(c.ID, "deep/") {
		n = 300 + c.Intn(1500)
		h.factor = 20 + c.Intn(30)
		h.crowd = n * 3 / 4
		if h.lbits > 100 {
			h.lbits = 100
		}
	} else if c.Intn(30) == 0 { // many ticks, a long history
		n = 20 + c.Intn(180)
		h.factor = 3 + c.Intn(7)
		if c.Intn(10) == 0 {
			h.factor *= 5
		}
		h.crowd = n / 2
		if h.lbits > 110 {
			h.lbits = 110
		}
	}
	for i := 0; i < n; i++ {
		b := h.bound()
		if n >= 300 && i%4 > 0 { // spread out
			w := []int{300, 3000, ref.MaxTick / m.Spacing}[i%4-1]
			b = clampTick(ref.FloorDiv(m.Tick, m.Spacing)+c.Intn(2*w+1)-w, -ref.MaxTick/m.Spacing, ref.MaxTick/m.Spacing) * m.Spacing
		}
		h.bounds = append(h.bounds, b)
	}
	return h
}

// histories runs f on many short and a few very long histories.
func (x *Ctx) histories(n int, f func(c *Case)) {
	x.Run("deep", x.N(16, 160), func(c *Case) {
		f(c)
		c.Count("deep_histories", 1)
	})
	x.Run("history", n, f)
}

// long lengthens the histories of pools with many ticks.
func (h *Hist) long(n int) int { return n * h.factor }

// arg converts an argument and remembers it: no call may change it, ever.
func (h *Hist) arg(x *big.Int) *ui.Int {
	u := toUI(x)
	h.args.p = append(h.args.p, u)
	h.args.v = append(h.args.v, *u)
	return u
}

// bound draws a candidate range end.
func (h *Hist) bound() int {
	c, sp := h.c, h.m.Spacing
	n := ref.MaxTick / sp
	cur := ref.FloorDiv(h.m.Tick, sp)
	var k int
	switch c.Intn(10) {
	case 0:
		k = c.Intn(2*n+1) - n
	case 1:
		k = []int{-n, n}[c.Intn(2)]
	case 2: // word edge near the current tick
		k = ref.FloorDiv(cur, 256)*256 + []int{-256, -1, 0, 1, 255, 256, 257}[c.Intn(7)]
	case 3, 4:
		k = cur + c.Intn(5) - 2
	case 5, 6, 7:
		k = cur + c.Intn(41) - 20
	default:
		d := 1 << uint(c.Intn(12))
		k = cur + c.Intn(2*d+1) - d
	}
	if k < -n {
		k = -n
	}
	if k > n {
		k = n
	}
	return k * sp
}

func (h *Hist) rng() (int, int) {
	for i := 0; ; i++ {
		if h.c.Intn(12) == 0 || i > 20 {
			h.bounds[h.c.Intn(len(h.bounds))] = h.bound()
		}
		a, b := h.bounds[h.c.Intn(len(h.bounds))], h.bounds[h.c.Intn(len(h.bounds))]
		if a < b {
			return a, b
		}
		if b < a {
			return b, a
		}
	}
}

func (h *Hist) pickPos() (ref.Key, *ref.PosInfo) {
	if len(h.m.Pos) == 0 {
		return ref.Key{}, nil
	}
	ks := sortedKeys(h.m.Pos)
	k := ks[h.c.Intn(len(ks))]
	return k, h.m.Pos[k]
}

func sortedKeys(m map[ref.Key]*ref.PosInfo) []ref.Key {
	ks := make([]ref.Key, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	return ks
}

func sortKeys(ks []ref.Key) {
	sort.Slice(ks, func(i, j int) bool { return ks[i].Lo < ks[j].Lo || ks[i].Lo == ks[j].Lo && ks[i].Hi < ks[j].Hi })
}

func (h *Hist) liq() *big.Int {
	l := randExact(h.c.Rand, 1+h.c.Intn(h.lbits))
	if h.c.Intn(3) == 0 {
		l = randExact(h.c.Rand, h.lbits)
	}
	return l
}

// part draws a part of x: all, one, or a random share.
func (h *Hist) part(x *big.Int) *big.Int {
	switch h.c.Intn(4) {
	case 0, 1:
		return new(big.Int).Set(x)
	case 2:
		if x.Cmp(one) > 0 && h.c.Intn(2) == 0 {
			return addI(x, -1)
		}
		return big.NewInt(1)
	}
	return addI(randBelow(h.c.Rand, x), 1)
}

// Next generates a request that is valid in the model's state.
func (h *Hist) Next() Op {
	c := h.c
	for {
		k := c.Intn(20)
		if len(h.m.Ticks) == 0 && c.Intn(4) != 0 {
			k = c.Intn(5)
		}
		if len(h.m.Ticks) < h.crowd && c.Intn(3) != 0 {
			k = c.Intn(4)
		}
		switch {
		case k < 4:
			lo, hi := h.rng()
			l := h.liq()
			if new(big.Int).Add(h.total, l).BitLen() > 126 {
				continue
			}
			if k == 3 && !h.noPln {
				return Op{Kind: "pmint", Lo: lo, Hi: hi, A: l}
			}
			return Op{Kind: "mint", Lo: lo, Hi: hi, A: l}
		case k < 7:
			if k == 6 && len(h.plain) > 0 {
				ks := make([]ref.Key, 0, len(h.plain))
				for q := range h.plain {
					ks = append(ks, q)
				}
				sortKeys(ks)
				q := ks[c.Intn(len(ks))]
				a := h.part(h.plain[q])
				if c.Intn(10) == 0 {
					a = new(big.Int)
				}
				return Op{Kind: "pburn", Lo: q.Lo, Hi: q.Hi, A: a}
			}
			q, p := h.pickPos()
			if p == nil || p.L.Sign() == 0 {
				continue
			}
			return Op{Kind: "burn", Lo: q.Lo, Hi: q.Hi, A: h.part(p.L)}
		case k == 7:
			q, p := h.pickPos()
			if p == nil || p.L.Sign() == 0 {
				continue
			}
			return Op{Kind: "poke", Lo: q.Lo, Hi: q.Hi, A: new(big.Int)}
		case k == 8:
			q, p := h.pickPos()
			if p == nil {
				continue
			}
			return Op{Kind: "collect", Lo: q.Lo, Hi: q.Hi}
		case k == 9:
			if h.m.L.Sign() == 0 {
				continue
			}
			a, b := randBits(c.Rand, 100), randBits(c.Rand, 100)
			if c.Intn(6) == 0 {
				a = new(big.Int)
			}
			if !h.noWrap && c.Intn(3) == 0 { // the fee growth wraps
				if l := h.m.L.BitLen(); l < 110 {
					k := 124 + l + map[int]int{500: 11, 3000: 8, 10000: 7}[h.m.Fee] + c.Intn(4)
					a = randExact(c.Rand, k)
					b = randBits(c.Rand, k)
				}
			}
			return Op{Kind: "flash", A: a, B: b}
		default:
			if o, ok := h.swapOp(); ok {
				return o
			}
		}
	}
}

var hugeAmt = addI(ref.Q255, -1)

// swapOp generates a valid swap.
func (h *Hist) swapOp() (Op, bool) {
	c, m := h.c, h.m
	zf1 := c.Intn(2) == 0
	// drift back towards the start so that histories keep crossing their ranges
	if c.Intn(3) != 0 {
		if m.P.Cmp(h.start) > 0 && m.P.BitLen() > h.start.BitLen()+1 {
			zf1 = true
		} else if m.P.Cmp(h.start) < 0 && m.P.BitLen()+1 < h.start.BitLen() {
			zf1 = false
		}
	}
	lo, hi := addI(ref.MinSP, 1), addI(ref.MaxSP, -1)
	if zf1 && m.P.Cmp(lo) <= 0 {
		zf1 = false
	}
	if !zf1 && m.P.Cmp(hi) >= 0 {
		zf1 = true
	}
	okLimit := func(p *big.Int) bool {
		if zf1 {
			return p.Cmp(m.P) < 0 && p.Cmp(ref.MinSP) > 0
		}
		return p.Cmp(m.P) > 0 && p.Cmp(ref.MaxSP) < 0
	}
	target := func() *big.Int {
		switch c.Intn(6) {
		case 0, 1: // an initialized tick's price
			if len(m.Sorted) > 0 {
				t := m.Sorted[c.Intn(len(m.Sorted))]
				if c.Intn(3) != 0 { // the nearest ones
					i := 0
					for i < len(m.Sorted) && m.Sorted[i] <= m.Tick {
						i++
					}
					if zf1 {
						i -= 1 + c.Intn(2)
					} else {
						i += c.Intn(2)
					}
					if i >= 0 && i < len(m.Sorted) {
						t = m.Sorted[i]
					}
				}
				return addI(ref.SqrtAt(t), int64(c.Intn(3)-1))
			}
		case 2: // next boundary of the tick search
			n, _ := m.NextInit(m.Tick, zf1)
			if n >= ref.MinTick && n <= ref.MaxTick {
				return addI(ref.SqrtAt(n), int64(c.Intn(3)-1))
			}
		case 3:
			d := 1 << uint(c.Intn(14))
			t := m.Tick + 1 + c.Intn(d)
			if zf1 {
				t = m.Tick - c.Intn(d)
			}
			if t >= ref.MinTick && t <= ref.MaxTick {
				return new(big.Int).Set(ref.SqrtAt(t))
			}
		case 4:
			return addI(m.P, []int64{-2, -1, 1, 2}[c.Intn(4)])
		}
		d := randBits(c.Rand, m.P.BitLen()-1)
		if zf1 {
			return d.Sub(m.P, d)
		}
		return d.Add(m.P, d)
	}
	limit := new(big.Int)
	switch c.Intn(8) {
	case 0, 1, 2:
		for i := 0; i < 4; i++ {
			if t := target(); okLimit(t) {
				limit = t
				break
			}
		}
	case 3:
		if c.Intn(6) == 0 {
			l := hi
			if zf1 {
				l = lo
			}
			if okLimit(l) {
				limit = l
			}
		}
	}
	exactIn := c.Intn(3) != 0
	var amt *big.Int
	switch c.Intn(10) {
	case 0, 1, 2, 3, 4: // exactly to some price, one more or one less
		t := target()
		for i := 0; i < 4 && !okLimit(t); i++ {
			t = target()
		}
		if !okLimit(t) {
			return Op{}, false
		}
		q := m.Clone()
		a := new(big.Int).Set(hugeAmt)
		if !exactIn {
			a.Neg(a)
		}
		a0, a1, err := q.Swap(zf1, a, t)
		if err != nil {
			return Op{}, false
		}
		if zf1 == exactIn {
			amt = a0
		} else {
			amt = a1
		}
		amt = new(big.Int).Abs(amt)
		amt.Add(amt, big.NewInt(int64(c.Intn(3)-1)))
		if c.Intn(6) == 0 {
			amt = addI(randBelow(c.Rand, amt), 1)
		}
	case 5:
		amt = big.NewInt(int64(1 + c.Intn(2000)))
	case 6:
		if c.Intn(4) == 0 {
			amt = new(big.Int).Set(hugeAmt)
		} else {
			amt = randBits(c.Rand, h.lbits+10)
		}
	default:
		amt = randBits(c.Rand, h.lbits)
	}
	if amt.Sign() <= 0 {
		amt = big.NewInt(1)
	}
	if amt.Cmp(hugeAmt) > 0 {
		amt = new(big.Int).Set(hugeAmt)
	}
	if limit.Sign() == 0 && !okLimit(map[bool]*big.Int{true: lo, false: hi}[zf1]) {
		return Op{}, false
	}
	if !exactIn {
		amt = new(big.Int).Neg(amt)
	}
	return Op{Kind: "swap", A: amt, ZF1: zf1, Limit: limit}, true
}

// Model applies an operation to the model (atomic when it refuses).
func applyModel(m *ref.Pool, o Op) (a0, a1 *big.Int, err error) {
	switch o.Kind {
	case "mint":
		return m.Mint(o.Lo, o.Hi, o.A)
	case "burn", "poke":
		return m.Burn(o.Lo, o.Hi, o.A)
	case "collect":
		return m.Collect(o.Lo, o.Hi)
	case "pmint":
		return nil, nil, m.PlainMint(o.Lo, o.Hi, o.A)
	case "pburn":
		return nil, nil, m.PlainBurn(o.Lo, o.Hi, o.A)
	case "flash":
		_, _, err = m.Flash(o.A, o.B)
		return nil, nil, err
	case "swap":
		return m.Swap(o.ZF1, o.A, o.Limit)
	}
	panic("unknown operation " + o.Kind)
}

// applyImpl applies an operation to the code under test.
func applyImpl(p *ppool.Pool, o Op, arg func(*big.Int) *ui.Int) (a0, a1 *big.Int) {
	s := func(x, y *ui.Int) (*big.Int, *big.Int) { return fromUIS(x), fromUIS(y) }
	switch o.Kind {
	case "mint":
		return s(p.MintStrategy(o.Lo, o.Hi, arg(o.A)))
	case "burn", "poke":
		return s(p.BurnStrategy(o.Lo, o.Hi, arg(o.A)))
	case "collect":
		return s(p.CollectStrategy(o.Lo, o.Hi))
	case "pmint":
		p.Mint(o.Lo, o.Hi, arg(o.A))
	case "pburn":
		p.Burn(o.Lo, o.Hi, arg(o.A))
	case "flash":
		p.Flash(arg(o.A), arg(o.B))
	case "swap":
		in, out := tok0, tok1
		if !o.ZF1 {
			in, out = tok1, tok0
		}
		if o.A.Sign() > 0 {
			return s(p.ExactInputSwap(arg(o.A), in, arg(o.Limit)))
		}
		return s(p.ExactOutputSwap(arg(o.A), out, arg(o.Limit)))
	default:
		panic("unknown operation " + o.Kind)
	}
	return nil, nil
}

// account keeps the generator's own totals.
func (h *Hist) account(o Op) {
	k := ref.Key{Lo: o.Lo, Hi: o.Hi}
	switch o.Kind {
	case "mint", "pmint":
		h.total.Add(h.total, o.A)
		if o.Kind == "pmint" {
			if h.plain[k] == nil {
				h.plain[k] = new(big.Int)
			}
			h.plain[k].Add(h.plain[k], o.A)
		}
	case "burn", "pburn":
		h.total.Sub(h.total, o.A)
		if o.Kind == "pburn" {
			h.plain[k].Sub(h.plain[k], o.A)
			if h.plain[k].Sign() == 0 {
				delete(h.plain, k)
			}
		}
	}
}

// Result is what one operation returned on both sides.
type Result struct{ M0, M1, I0, I1 *big.Int }

// Step generates and applies one operation to both sides. A refusal by the
// model makes it draw again.
func (h *Hist) Step() (Op, Result) {
	for {
		o := h.Next()
		m0, m1, err := applyModel(h.m, o)
		if err != nil {
			if !ref.IsRevert(err) {
				h.c.Fail("model: %v", err)
			}
			continue
		}
		h.c.Op("%v", o)
		h.account(o)
		i0, i1 := applyImpl(h.impl, o, h.arg)
		h.c.Count("op."+o.Kind, 1)
		return o, Result{m0, m1, i0, i1}
	}
}

// flush adds the model's branch statistics to the evidence.
func (h *Hist) flush() {
	s := h.m.Stats
	if n := len(h.m.Ticks); n >= 256 {
		h.c.Count("histories_with_256_ticks", 1)
	} else if n >= 64 {
		h.c.Count("histories_with_64_ticks", 1)
	} else if n >= 16 {
		h.c.Count("histories_with_16_ticks", 1)
	}
	h.c.Count("swap.steps", int64(s.Steps))
	h.c.Count("swap.tick_crossings", int64(s.Crosses))
	h.c.Count("swap.negative_tick_crossings", int64(s.CrossNeg))
	h.c.Count("swap.word_boundaries", int64(s.WordStops))
	h.c.Count("swap.negative_word_boundaries", int64(s.WordStopsNeg))
	h.c.Count("swap.steps_without_liquidity", int64(s.ZeroLiqSteps))
	h.c.Count("swap.partial_input_steps", int64(s.PartialIn))
	h.c.Count("swap.partial_output_steps", int64(s.PartialOut))
	h.c.Count("swap.steps_to_the_limit", int64(s.TargetLimit))
	h.args.check(h.c, "the history")
}

func bigEq(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

// walkTicks lists the pool's ticks through the public search.
func walkTicks(c *Case, p *ppool.Pool) []int {
	var out []int
	t := ref.MinTick - 1
	for {
		n, init := p.TickData.NextInitializedTickWithinOneWord(t, false)
		if n <= t {
			c.Fail("walking the tick table upwards from %d leads to %d", t, n)
		}
		if init {
			if n > ref.MaxTick {
				c.Fail("tick %d outside the range exists", n)
			}
			out = append(out, n)
		}
		if n >= ref.MaxTick {
			return out
		}
		t = n
	}
}

func growth(p *ppool.Pool) string {
	return fmt.Sprintf("fee growth %v / %v", fromUI(p.FeeGrowthGlobal0X128), fromUI(p.FeeGrowthGlobal1X128))
}

func slot0(p *ppool.Pool) string {
	return fmt.Sprintf("price %v tick %d liquidity %v", fromUI(p.SqrtRatioX96), p.TickCurrent, fromUIS(p.Liquidity))
}

// fullView prints every observable of a pool; keys are only sorted, never read.
func fullView(c *Case, p *ppool.Pool, ticks []int) string {
	s := fmt.Sprintf("%s/%s fee %d spacing %d %s %s\n", p.Token0, p.Token1, p.Fee, p.TickSpacing, slot0(p), growth(p))
	for _, t := range ticks {
		tk := p.TickData.GetTick(t)
		s += fmt.Sprintf("tick %d/%d net %v gross %v outside %v %v\n", t, tk.Index, fromUIS(tk.LiquidityNet), fromUIS(tk.LiquidityGross), fromUI(tk.FeeGrowthOutside0X128), fromUI(tk.FeeGrowthOutside1X128))
	}
	var ps []string
	for k, i := range p.Positions {
		ps = append(ps, fmt.Sprintf("position %v liquidity %v inside %v %v owed %v %v\n", k, fromUIS(i.Liquidity), fromUI(i.FeeGrowthInside0LastX128), fromUI(i.FeeGrowthInside1LastX128), fromUI(i.TokensOwed0), fromUI(i.TokensOwed1)))
	}
	sort.Strings(ps)
	s += strings.Join(ps, "")
	return s
}
