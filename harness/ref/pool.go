package ref

import (
	"fmt"
	"math/big"
	"sort"
)

// TickInfo is one initialized tick.
type TickInfo struct {
	Net, Gross, Out0, Out1 *big.Int // Out*: modulo 2^256
}

// PosInfo is one position.
type PosInfo struct {
	L, In0, In1, Owed0, Owed1 *big.Int
}

// Key is a position's range.
type Key struct{ Lo, Hi int }

// Pool is the model of one v3 pool.
type Pool struct {
	Fee, Spacing int
	P            *big.Int
	Tick         int
	L            *big.Int
	G0, G1       *big.Int
	Ticks        map[int]*TickInfo
	Sorted       []int
	Pos          map[Key]*PosInfo
	Stats        Stats
}

// Stats counts what happened inside the model (branch evidence).
type Stats struct {
	Steps, Crosses, CrossNeg, WordStops, WordStopsNeg, ZeroLiqSteps, PartialIn, PartialOut, TargetLimit int
	TickFromPrice                                                                                       int
	LastL                                                                                               *big.Int // liquidity of the last swap step
}

// Spacings are the supported fee tiers.
var Spacings = map[int]int{500: 10, 3000: 60, 10000: 200}

// NewPool creates a pool or reverts.
func NewPool(fee int, p *big.Int) (*Pool, error) {
	if p.Cmp(MinSP) < 0 || p.Cmp(MaxSP) >= 0 {
		return nil, revert("price")
	}
	return &Pool{Fee: fee, Spacing: Spacings[fee], P: new(big.Int).Set(p), Tick: TickAt(p), L: new(big.Int),
		G0: new(big.Int), G1: new(big.Int), Ticks: map[int]*TickInfo{}, Pos: map[Key]*PosInfo{}}, nil
}

func cp(x *big.Int) *big.Int { return new(big.Int).Set(x) }

// Clone is a deep copy.
func (p *Pool) Clone() *Pool {
	q := &Pool{Fee: p.Fee, Spacing: p.Spacing, P: cp(p.P), Tick: p.Tick, L: cp(p.L), G0: cp(p.G0), G1: cp(p.G1),
		Ticks: make(map[int]*TickInfo, len(p.Ticks)), Pos: make(map[Key]*PosInfo, len(p.Pos)), Stats: p.Stats}
	q.Sorted = append([]int(nil), p.Sorted...)
	for k, t := range p.Ticks {
		q.Ticks[k] = &TickInfo{cp(t.Net), cp(t.Gross), cp(t.Out0), cp(t.Out1)}
	}
	for k, i := range p.Pos {
		q.Pos[k] = &PosInfo{cp(i.L), cp(i.In0), cp(i.In1), cp(i.Owed0), cp(i.Owed1)}
	}
	return q
}

func (p *Pool) insert(t int) {
	i := sort.SearchInts(p.Sorted, t)
	p.Sorted = append(p.Sorted, 0)
	copy(p.Sorted[i+1:], p.Sorted[i:])
	p.Sorted[i] = t
}

func (p *Pool) remove(t int) {
	i := sort.SearchInts(p.Sorted, t)
	p.Sorted = append(p.Sorted[:i], p.Sorted[i+1:]...)
	delete(p.Ticks, t)
}

// updateTick returns whether the tick flipped.
func (p *Pool) updateTick(t int, d *big.Int, upper bool) {
	ti := p.Ticks[t]
	if ti == nil {
		ti = &TickInfo{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
		if t <= p.Tick {
			ti.Out0.Set(p.G0)
			ti.Out1.Set(p.G1)
		}
		p.Ticks[t] = ti
		p.insert(t)
	}
	ti.Gross.Add(ti.Gross, d)
	if upper {
		ti.Net.Sub(ti.Net, d)
	} else {
		ti.Net.Add(ti.Net, d)
	}
}

// Inside is the fee growth inside [lo, hi).
func (p *Pool) Inside(lo, hi int) (*big.Int, *big.Int) {
	l, u := p.Ticks[lo], p.Ticks[hi]
	f := func(g, lOut, uOut *big.Int) *big.Int {
		below, above := cp(lOut), cp(uOut)
		if p.Tick < lo {
			below.Sub(g, lOut)
		}
		if p.Tick >= hi {
			above.Sub(g, uOut)
		}
		r := new(big.Int).Sub(g, below)
		r.Sub(r, above)
		return r.Mod(r, Q256)
	}
	return f(p.G0, l.Out0, u.Out0), f(p.G1, l.Out1, u.Out1)
}

func checkRange(lo, hi int) error {
	if lo >= hi {
		return revert("tick order")
	}
	if lo < MinTick || hi > MaxTick {
		return revert("tick range")
	}
	return nil
}

// amounts returns the signed token amounts of a liquidity change d.
func (p *Pool) amounts(lo, hi int, d *big.Int) (a0, a1 *big.Int, err error) {
	a0, a1 = new(big.Int), new(big.Int)
	sl, su := SqrtAt(lo), SqrtAt(hi)
	switch {
	case p.Tick < lo:
		a0, err = Amount0Signed(sl, su, d)
	case p.Tick < hi:
		if a0, err = Amount0Signed(p.P, su, d); err != nil {
			return
		}
		a1, err = Amount1Signed(sl, p.P, d)
	default:
		a1, err = Amount1Signed(sl, su, d)
	}
	return
}

func (p *Pool) liquidityMove(lo, hi int, d *big.Int) {
	p.updateTick(lo, d, false)
	p.updateTick(hi, d, true)
	if p.Tick >= lo && p.Tick < hi {
		p.L.Add(p.L, d)
	}
}

func (p *Pool) clearEmpty(lo, hi int) {
	for _, t := range []int{lo, hi} {
		if ti := p.Ticks[t]; ti != nil && ti.Gross.Sign() == 0 {
			p.remove(t)
		}
	}
}

// Mint adds position liquidity and returns the charge.
func (p *Pool) Mint(lo, hi int, amt *big.Int) (a0, a1 *big.Int, err error) {
	if amt.Sign() <= 0 {
		return nil, nil, revert("mint amount")
	}
	if err = checkRange(lo, hi); err != nil {
		return
	}
	if a0, a1, err = p.amounts(lo, hi, amt); err != nil {
		return
	}
	p.liquidityMove(lo, hi, amt)
	p.touch(lo, hi, amt)
	return
}

func (p *Pool) touch(lo, hi int, d *big.Int) *PosInfo {
	in0, in1 := p.Inside(lo, hi)
	k := Key{lo, hi}
	i := p.Pos[k]
	if i == nil {
		i = &PosInfo{new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
		p.Pos[k] = i
	}
	add := func(owed, now, last *big.Int) {
		x := new(big.Int).Sub(now, last)
		x.Mod(x, Q256)
		x.Mul(x, i.L)
		x.Rsh(x, 128)
		owed.Add(owed, x)
	}
	add(i.Owed0, in0, i.In0)
	add(i.Owed1, in1, i.In1)
	i.In0, i.In1 = in0, in1
	i.L.Add(i.L, d)
	return i
}

// Burn removes position liquidity (zero: poke) and credits what is owed.
func (p *Pool) Burn(lo, hi int, amt *big.Int) (a0, a1 *big.Int, err error) {
	if err = checkRange(lo, hi); err != nil {
		return
	}
	i := p.Pos[Key{lo, hi}]
	if i == nil || i.L.Cmp(amt) < 0 || (amt.Sign() == 0 && i.L.Sign() == 0) || amt.Sign() < 0 {
		return nil, nil, revert("burn exceeds position")
	}
	d := new(big.Int).Neg(amt)
	if amt.Sign() == 0 {
		p.touch(lo, hi, d)
		return new(big.Int), new(big.Int), nil
	}
	n0, n1, err := p.amounts(lo, hi, d)
	if err != nil {
		return nil, nil, err
	}
	p.liquidityMove(lo, hi, d)
	i = p.touch(lo, hi, d)
	p.clearEmpty(lo, hi)
	a0, a1 = n0.Neg(n0), n1.Neg(n1)
	i.Owed0.Add(i.Owed0, a0)
	i.Owed1.Add(i.Owed1, a1)
	return a0, a1, nil
}

// Collect pays everything owed.
func (p *Pool) Collect(lo, hi int) (a0, a1 *big.Int, err error) {
	i := p.Pos[Key{lo, hi}]
	if i == nil {
		return nil, nil, revert("no position")
	}
	a0, a1 = i.Owed0, i.Owed1
	i.Owed0, i.Owed1 = new(big.Int), new(big.Int)
	return
}

// PlainMint and PlainBurn change liquidity without position bookkeeping.
func (p *Pool) PlainMint(lo, hi int, amt *big.Int) error {
	if amt.Sign() <= 0 {
		return revert("mint amount")
	}
	if err := checkRange(lo, hi); err != nil {
		return err
	}
	p.liquidityMove(lo, hi, amt)
	return nil
}

func (p *Pool) PlainBurn(lo, hi int, amt *big.Int) error {
	if err := checkRange(lo, hi); err != nil {
		return err
	}
	if amt.Sign() == 0 {
		return nil
	}
	l, u := p.Ticks[lo], p.Ticks[hi]
	if l == nil || u == nil || l.Gross.Cmp(amt) < 0 || u.Gross.Cmp(amt) < 0 {
		return revert("burn exceeds liquidity")
	}
	p.liquidityMove(lo, hi, new(big.Int).Neg(amt))
	p.clearEmpty(lo, hi)
	return nil
}

// Flash adds the fees of a flash loan.
func (p *Pool) Flash(x0, x1 *big.Int) (f0, f1 *big.Int, err error) {
	if p.L.Sign() <= 0 {
		return nil, nil, revert("no liquidity")
	}
	fee := big.NewInt(int64(p.Fee))
	if f0, err = MulDivUp(x0, fee, E6); err != nil {
		return
	}
	if f1, err = MulDivUp(x1, fee, E6); err != nil {
		return
	}
	d0, err := MulDiv(f0, Q128, p.L)
	if err != nil {
		return nil, nil, err
	}
	d1, err := MulDiv(f1, Q128, p.L)
	if err != nil {
		return nil, nil, err
	}
	p.G0 = Wrap(new(big.Int).Add(p.G0, d0))
	p.G1 = Wrap(new(big.Int).Add(p.G1, d1))
	return f0, f1, nil
}

// NextInit is the contract's nextInitializedTickWithinOneWord.
func (p *Pool) NextInit(tick int, lte bool) (int, bool) {
	return NextInit(p.Sorted, p.Spacing, tick, lte)
}

// NextInit searches a sorted tick set by the bitmap's definition.
func NextInit(sorted []int, spacing, tick int, lte bool) (int, bool) {
	c := FloorDiv(tick, spacing)
	if lte {
		bound := FloorDiv(c, 256) * 256 * spacing
		i := sort.SearchInts(sorted, tick+1) - 1
		if i >= 0 && sorted[i] >= bound {
			return sorted[i], true
		}
		return bound, false
	}
	bound := (FloorDiv(c+1, 256)*256 + 255) * spacing
	i := sort.SearchInts(sorted, tick+1)
	if i < len(sorted) && sorted[i] <= bound {
		return sorted[i], true
	}
	return bound, false
}

// Swap runs the contract's swap. amt < 0: exact output. limit zero: none.
func (p *Pool) Swap(zf1 bool, amt, limit *big.Int) (a0, a1 *big.Int, err error) {
	if amt.Sign() == 0 {
		return nil, nil, revert("zero amount")
	}
	if limit.Sign() == 0 {
		if zf1 {
			limit = new(big.Int).Add(MinSP, One)
		} else {
			limit = new(big.Int).Sub(MaxSP, One)
		}
	}
	if zf1 {
		if limit.Cmp(p.P) >= 0 || limit.Cmp(MinSP) <= 0 {
			return nil, nil, revert("limit")
		}
	} else if limit.Cmp(p.P) <= 0 || limit.Cmp(MaxSP) >= 0 {
		return nil, nil, revert("limit")
	}
	exactIn := amt.Sign() > 0
	rem, calc := cp(amt), new(big.Int)
	sp, tick, liq := cp(p.P), p.Tick, cp(p.L)
	g := cp(p.G0)
	if !zf1 {
		g = cp(p.G1)
	}
	st := p.Stats
	type flip struct {
		t          *TickInfo
		out0, out1 *big.Int
	}
	var flips []flip
	for rem.Sign() != 0 && sp.Cmp(limit) != 0 {
		st.Steps++
		next, init := p.NextInit(tick, zf1)
		if next < MinTick {
			next, init = MinTick, init && next >= MinTick
		} else if next > MaxTick {
			next = MaxTick
		}
		spNext := SqrtAt(next)
		target := spNext
		if (zf1 && spNext.Cmp(limit) < 0) || (!zf1 && spNext.Cmp(limit) > 0) {
			target = limit
			st.TargetLimit++
		}
		start := sp
		st.LastL = cp(liq)
		if liq.Sign() == 0 {
			st.ZeroLiqSteps++
		}
		var in, out, fee *big.Int
		sp, in, out, fee, err = Step(sp, target, liq, rem, int64(p.Fee))
		if err != nil {
			return nil, nil, err
		}
		if sp.Cmp(target) != 0 {
			if exactIn {
				st.PartialIn++
			} else {
				st.PartialOut++
			}
		}
		if exactIn {
			rem.Sub(rem, in)
			rem.Sub(rem, fee)
			calc.Sub(calc, out)
		} else {
			rem.Add(rem, out)
			calc.Add(calc, in)
			calc.Add(calc, fee)
		}
		if liq.Sign() > 0 {
			d, e := MulDiv(fee, Q128, liq)
			if e != nil {
				return nil, nil, e
			}
			g = Wrap(g.Add(g, d))
		}
		if sp.Cmp(spNext) == 0 {
			if init {
				ti := p.Ticks[next]
				g0, g1 := g, p.G1
				if !zf1 {
					g0, g1 = p.G0, g
				}
				flips = append(flips, flip{ti,
					new(big.Int).Mod(new(big.Int).Sub(g0, ti.Out0), Q256),
					new(big.Int).Mod(new(big.Int).Sub(g1, ti.Out1), Q256)})
				if zf1 {
					liq.Sub(liq, ti.Net)
				} else {
					liq.Add(liq, ti.Net)
				}
				st.Crosses++
				if next < 0 {
					st.CrossNeg++
				}
				if liq.Sign() < 0 {
					return nil, nil, fmt.Errorf("model: negative liquidity")
				}
			} else {
				st.WordStops++
				if next < 0 {
					st.WordStopsNeg++
				}
			}
			if zf1 {
				tick = next - 1
			} else {
				tick = next
			}
		} else if sp.Cmp(start) != 0 {
			tick = TickAt(sp)
			st.TickFromPrice++
		}
	}
	for _, f := range flips {
		f.t.Out0, f.t.Out1 = f.out0, f.out1
	}
	p.Stats = st
	p.P, p.Tick, p.L = sp, tick, liq
	if zf1 {
		p.G0 = g
	} else {
		p.G1 = g
	}
	used := new(big.Int).Sub(amt, rem)
	if zf1 == exactIn {
		return used, calc, nil
	}
	return calc, used, nil
}

// NetSum and such are left to the monitors.
