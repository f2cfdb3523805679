// Package ref is an independent model of Uniswap v3 (core and periphery) over
// math/big, written from the Solidity sources' semantics. It shares no code
// with the repository under test.
package ref

import (
	"errors"
	"math/big"
	"sync/atomic"
)

var (
	Zero  = big.NewInt(0)
	One   = big.NewInt(1)
	E6    = big.NewInt(1000000)
	Q32   = pow2(32)
	Q96   = pow2(96)
	Q128  = pow2(128)
	Q160  = pow2(160)
	Q192  = pow2(192)
	Q255  = pow2(255)
	Q256  = pow2(256)
	Max   = new(big.Int).Sub(Q256, One)
	MinSP = big.NewInt(4295128739)
	MaxSP = dec("1461446703485210103287273052203988822378723970342")
)

const (
	MinTick = -887272
	MaxTick = 887272
)

// ErrRevert marks what the contract refuses.
type ErrRevert struct{ Why string }

func (e *ErrRevert) Error() string { return "revert: " + e.Why }

func revert(w string) error { return &ErrRevert{w} }

// IsRevert tells whether err is a refusal by the model.
func IsRevert(err error) bool { var e *ErrRevert; return errors.As(err, &e) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// Pow2 is 2^n.
func Pow2(n uint) *big.Int { return pow2(n) }

func dec(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return b
}

func hex(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return b
}

// Wrap reduces modulo 2^256 into [0, 2^256).
func Wrap(x *big.Int) *big.Int {
	if x.Sign() >= 0 && x.BitLen() <= 256 {
		return x
	}
	return new(big.Int).Mod(x, Q256)
}

// Signed reads a 256-bit word as two's complement.
func Signed(x *big.Int) *big.Int {
	if x.Bit(255) == 1 {
		return new(big.Int).Sub(x, Q256)
	}
	return new(big.Int).Set(x)
}

// CeilDiv is ceil(a/b) for a >= 0, b > 0.
func CeilDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 {
		q.Add(q, One)
	}
	return q
}

// MulDiv is floor(a*b/d), or a revert when it does not fit or d is zero.
func MulDiv(a, b, d *big.Int) (*big.Int, error) {
	if d.Sign() == 0 {
		return nil, revert("muldiv by zero")
	}
	q := new(big.Int).Mul(a, b)
	q.Quo(q, d)
	if q.BitLen() > 256 {
		return nil, revert("muldiv overflow")
	}
	return q, nil
}

// MulDivUp is ceil(a*b/d), or a revert.
func MulDivUp(a, b, d *big.Int) (*big.Int, error) {
	if d.Sign() == 0 {
		return nil, revert("muldiv by zero")
	}
	q := CeilDiv(new(big.Int).Mul(a, b), d)
	if q.BitLen() > 256 {
		return nil, revert("muldiv overflow")
	}
	return q, nil
}

// TickConst are the contract's constants 2^128 / sqrt(1.0001)^(2^i).
var TickConst = []*big.Int{
	hex("fffcb933bd6fad37aa2d162d1a594001"),
	hex("fff97272373d413259a46990580e213a"),
	hex("fff2e50f5f656932ef12357cf3c7fdcc"),
	hex("ffe5caca7e10e4e61c3624eaa0941cd0"),
	hex("ffcb9843d60f6159c9db58835c926644"),
	hex("ff973b41fa98c081472e6896dfb254c0"),
	hex("ff2ea16466c96a3843ec78b326b52861"),
	hex("fe5dee046a99a2a811c461f1969c3053"),
	hex("fcbe86c7900a88aedcffc83b479aa3a4"),
	hex("f987a7253ac413176f2b074cf7815e54"),
	hex("f3392b0822b70005940c7a398e4b70f3"),
	hex("e7159475a2c29b7443b29c7fa6e889d9"),
	hex("d097f3bdfd2022b8845ad8f792aa5825"),
	hex("a9f746462d870fdf8a65dc1f90e061e5"),
	hex("70d869a156d2a1b890bb3df62baf32f7"),
	hex("31be135f97d08fd981231505542fcfa6"),
	hex("9aa508b5b7a84e1c677de54f3e99bc9"),
	hex("5d6af8dedb81196699c329225ee604"),
	hex("2216e584f5fa1ea926041bedfe98"),
	hex("48a170391f7dc42444e8fa2"),
}

var spTable [MaxTick - MinTick + 1]atomic.Value

// SqrtAt is the contract's getSqrtRatioAtTick. The result must not be modified.
func SqrtAt(tick int) *big.Int {
	if v := spTable[tick-MinTick].Load(); v != nil {
		return v.(*big.Int)
	}
	r := ComputeSqrtAt(tick)
	spTable[tick-MinTick].Store(r)
	return r
}

// ComputeSqrtAt computes the contract's getSqrtRatioAtTick afresh.
func ComputeSqrtAt(tick int) *big.Int {
	abs := tick
	if abs < 0 {
		abs = -abs
	}
	if abs > MaxTick {
		panic("ref: tick out of range")
	}
	r := new(big.Int).Set(Q128)
	for i := range TickConst {
		if abs&(1<<uint(i)) != 0 {
			r.Mul(r, TickConst[i])
			r.Rsh(r, 128)
		}
	}
	if tick > 0 {
		r.Quo(Max, r)
	}
	q, m := new(big.Int).QuoRem(r, Q32, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, One)
	}
	return q
}

// TickAt is the greatest tick whose price is at most p (MinSP <= p < MaxSP).
func TickAt(p *big.Int) int {
	lo, hi := MinTick, MaxTick
	for lo < hi {
		mid := lo + (hi-lo+1)/2
		if SqrtAt(mid).Cmp(p) <= 0 {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return lo
}

func order(a, b *big.Int) (*big.Int, *big.Int) {
	if a.Cmp(b) > 0 {
		return b, a
	}
	return a, b
}

// Amount0Delta is L * 2^96 * (b-a) / (a*b), rounded as the contract rounds.
func Amount0Delta(a, b, l *big.Int, up bool) (*big.Int, error) {
	a, b = order(a, b)
	if a.Sign() <= 0 {
		return nil, revert("zero price")
	}
	n := new(big.Int).Lsh(l, 96)
	d := new(big.Int).Sub(b, a)
	if up {
		q, err := MulDivUp(n, d, b)
		if err != nil {
			return nil, err
		}
		return CeilDiv(q, a), nil
	}
	q, err := MulDiv(n, d, b)
	if err != nil {
		return nil, err
	}
	return q.Quo(q, a), nil
}

// Amount1Delta is L * (b-a) / 2^96.
func Amount1Delta(a, b, l *big.Int, up bool) (*big.Int, error) {
	a, b = order(a, b)
	d := new(big.Int).Sub(b, a)
	if up {
		return MulDivUp(l, d, Q96)
	}
	return MulDiv(l, d, Q96)
}

// Amount0Signed and Amount1Signed take signed liquidity; result has its sign.
func Amount0Signed(a, b, l *big.Int) (*big.Int, error) {
	if l.Sign() < 0 {
		r, err := Amount0Delta(a, b, new(big.Int).Neg(l), false)
		if err != nil {
			return nil, err
		}
		return r.Neg(r), nil
	}
	return Amount0Delta(a, b, l, true)
}

func Amount1Signed(a, b, l *big.Int) (*big.Int, error) {
	if l.Sign() < 0 {
		r, err := Amount1Delta(a, b, new(big.Int).Neg(l), false)
		if err != nil {
			return nil, err
		}
		return r.Neg(r), nil
	}
	return Amount1Delta(a, b, l, true)
}

func next0Up(p, l, amt *big.Int, add bool) (*big.Int, error) {
	if amt.Sign() == 0 {
		return new(big.Int).Set(p), nil
	}
	n := new(big.Int).Lsh(l, 96)
	prod := new(big.Int).Mul(amt, p)
	if add {
		if prod.BitLen() <= 256 {
			den := new(big.Int).Add(n, prod)
			if den.BitLen() <= 256 {
				return MulDivUp(n, p, den)
			}
		}
		den := new(big.Int).Quo(n, p)
		den.Add(den, amt)
		if den.BitLen() > 256 {
			return nil, revert("overflow")
		}
		return CeilDiv(n, den), nil
	}
	if prod.BitLen() > 256 || n.Cmp(prod) <= 0 {
		return nil, revert("output exceeds reserves")
	}
	r, err := MulDivUp(n, p, new(big.Int).Sub(n, prod))
	if err != nil {
		return nil, err
	}
	if r.BitLen() > 160 {
		return nil, revert("price overflow")
	}
	return r, nil
}

func next1Down(p, l, amt *big.Int, add bool) (*big.Int, error) {
	if add {
		q, err := MulDiv(amt, Q96, l)
		if err != nil {
			return nil, err
		}
		q.Add(q, p)
		if q.BitLen() > 160 {
			return nil, revert("price overflow")
		}
		return q, nil
	}
	q, err := MulDivUp(amt, Q96, l)
	if err != nil {
		return nil, err
	}
	if p.Cmp(q) <= 0 {
		return nil, revert("output exceeds reserves")
	}
	return new(big.Int).Sub(p, q), nil
}

// NextFromInput is getNextSqrtPriceFromInput.
func NextFromInput(p, l, amt *big.Int, zeroForOne bool) (*big.Int, error) {
	if p.Sign() <= 0 || l.Sign() <= 0 {
		return nil, revert("zero price or liquidity")
	}
	if zeroForOne {
		return next0Up(p, l, amt, true)
	}
	return next1Down(p, l, amt, true)
}

// NextFromOutput is getNextSqrtPriceFromOutput.
func NextFromOutput(p, l, amt *big.Int, zeroForOne bool) (*big.Int, error) {
	if p.Sign() <= 0 || l.Sign() <= 0 {
		return nil, revert("zero price or liquidity")
	}
	if zeroForOne {
		return next1Down(p, l, amt, false)
	}
	return next0Up(p, l, amt, false)
}

// Step is computeSwapStep; amt is signed (negative: exact output).
func Step(p, target, l, amt *big.Int, fee int64) (next, in, out, feeAmt *big.Int, err error) {
	zf1 := p.Cmp(target) >= 0
	exactIn := amt.Sign() >= 0
	inAmt := func(x *big.Int) (*big.Int, error) {
		if zf1 {
			return Amount0Delta(x, p, l, true)
		}
		return Amount1Delta(p, x, l, true)
	}
	outAmt := func(x *big.Int) (*big.Int, error) {
		if zf1 {
			return Amount1Delta(x, p, l, false)
		}
		return Amount0Delta(p, x, l, false)
	}
	neg := new(big.Int).Neg(amt)
	rest := big.NewInt(1000000 - fee)
	reached := false
	if exactIn {
		less, e := MulDiv(amt, rest, E6)
		if e != nil {
			err = e
			return
		}
		if in, err = inAmt(target); err != nil {
			return
		}
		if less.Cmp(in) >= 0 {
			next, reached = target, true
		} else if next, err = NextFromInput(p, l, less, zf1); err != nil {
			return
		}
	} else {
		if out, err = outAmt(target); err != nil {
			return
		}
		if neg.Cmp(out) >= 0 {
			next, reached = target, true
		} else if next, err = NextFromOutput(p, l, neg, zf1); err != nil {
			return
		}
	}
	_ = reached
	max := next.Cmp(target) == 0
	if !(max && exactIn) {
		if in, err = inAmt(next); err != nil {
			return
		}
	}
	if !(max && !exactIn) {
		if out, err = outAmt(next); err != nil {
			return
		}
	}
	if !exactIn && out.Cmp(neg) > 0 {
		out = neg
	}
	if exactIn && !max {
		feeAmt = new(big.Int).Sub(amt, in)
	} else {
		feeAmt, err = MulDivUp(in, big.NewInt(fee), rest)
	}
	next = new(big.Int).Set(next)
	return
}

// LiquidityForAmounts is the periphery's getLiquidityForAmounts.
func LiquidityForAmounts(p, a, b, amt0, amt1 *big.Int) (*big.Int, error) {
	a, b = order(a, b)
	for0 := func(a, b *big.Int) (*big.Int, error) {
		i, err := MulDiv(a, b, Q96)
		if err != nil {
			return nil, err
		}
		return MulDiv(amt0, i, new(big.Int).Sub(b, a))
	}
	for1 := func(a, b *big.Int) (*big.Int, error) {
		return MulDiv(amt1, Q96, new(big.Int).Sub(b, a))
	}
	if p.Cmp(a) <= 0 {
		return for0(a, b)
	}
	if p.Cmp(b) < 0 {
		l0, err := for0(p, b)
		if err != nil {
			return nil, err
		}
		l1, err := for1(a, p)
		if err != nil {
			return nil, err
		}
		if l0.Cmp(l1) < 0 {
			return l0, nil
		}
		return l1, nil
	}
	return for1(a, b)
}

// AmountsForLiquidity is the periphery's getAmountsForLiquidity.
func AmountsForLiquidity(p, a, b, l *big.Int) (*big.Int, *big.Int, error) {
	a, b = order(a, b)
	z := func() *big.Int { return new(big.Int) }
	if p.Cmp(a) <= 0 {
		x, err := Amount0Delta(a, b, l, false)
		return x, z(), err
	}
	if p.Cmp(b) < 0 {
		x, err := Amount0Delta(p, b, l, false)
		if err != nil {
			return nil, nil, err
		}
		y, err := Amount1Delta(a, p, l, false)
		return x, y, err
	}
	y, err := Amount1Delta(a, b, l, false)
	return z(), y, err
}

// FloorDiv is mathematical floor division.
func FloorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
