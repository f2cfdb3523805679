package main

import (
	"fmt"
	"math/big"
	"math/bits"

	ui "uniswap-simulator/uint256"
)

func init() { checks["C01"] = checkC01 }

// knuthAddBacks counts the add-back corrections schoolbook division needs.
func knuthAddBacks(u, d *big.Int) (n int) {
	dw := words(d)
	if len(dw) < 2 {
		return 0
	}
	sh := uint(bits.LeadingZeros64(dw[len(dw)-1]))
	un := words(new(big.Int).Lsh(u, sh))
	dn := words(new(big.Int).Lsh(d, sh))
	un = append(un, 0)
	D := fromWords(dn)
	b := pow2(64)
	for j := len(un) - len(dn) - 1; j >= 0; j-- {
		top := new(big.Int).Lsh(new(big.Int).SetUint64(un[j+len(dn)]), 64)
		top.Add(top, new(big.Int).SetUint64(un[j+len(dn)-1]))
		d1, d2 := new(big.Int).SetUint64(dn[len(dn)-1]), new(big.Int).SetUint64(dn[len(dn)-2])
		q := new(big.Int).Quo(top, d1)
		r := new(big.Int).Sub(top, new(big.Int).Mul(q, d1))
		for {
			if q.Cmp(b) < 0 {
				lhs := new(big.Int).Mul(q, d2)
				rhs := new(big.Int).Add(new(big.Int).Lsh(r, 64), new(big.Int).SetUint64(un[j+len(dn)-2]))
				if lhs.Cmp(rhs) <= 0 {
					break
				}
			}
			q.Sub(q, one)
			r.Add(r, d1)
			if r.Cmp(b) >= 0 {
				break
			}
		}
		U := fromWords(un[j : j+len(dn)+1])
		t := new(big.Int).Sub(U, new(big.Int).Mul(q, D))
		if t.Sign() < 0 {
			n++
			t.Add(t, D)
		}
		nw := words(t)
		for i := 0; i <= len(dn); i++ {
			un[j+i] = 0
			if i < len(nw) {
				un[j+i] = nw[i]
			}
		}
	}
	return
}

func words(x *big.Int) []uint64 {
	var w []uint64
	m := new(big.Int).SetUint64(^uint64(0))
	y := new(big.Int).Set(x)
	for y.Sign() > 0 {
		w = append(w, new(big.Int).And(y, m).Uint64())
		y.Rsh(y, 64)
	}
	return w
}

func fromWords(w []uint64) *big.Int {
	x := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(w[i]))
	}
	return x
}

// dividend builds a dividend (up to nbits) for divisor d with chosen quotient shape.
func dividend(c *Case, d *big.Int, nbits int) *big.Int {
	if d.Sign() == 0 {
		return randBits(c.Rand, nbits)
	}
	if c.Intn(3) == 0 && d.BitLen() > 128 && nbits > d.BitLen() {
		// Provoke a quotient digit that is estimated one too high.
		n := (d.BitLen() + 63) / 64
		low := uint(64 * (n - 2))
		sh := uint(64*n - d.BitLen())
		dn := new(big.Int).Lsh(d, sh)
		q := new(big.Int).SetUint64(word(c))
		u := new(big.Int).Mul(q, new(big.Int).Rsh(dn, low))
		u.Add(u, big.NewInt(int64(c.Intn(3))))
		u.Lsh(u, low)
		u.Rsh(u, sh)
		if c.Intn(2) == 0 {
			u.Lsh(u, uint(64*c.Intn(4)))
		}
		if u.BitLen() <= nbits {
			return u
		}
	}
	qb := nbits - d.BitLen()
	if qb < 0 {
		qb = 0
	}
	var q *big.Int
	if c.Intn(2) == 0 {
		q = randBits(c.Rand, qb)
	} else {
		q = new(big.Int)
		for q.BitLen() < qb {
			q.Lsh(q, 64)
			q.Or(q, new(big.Int).SetUint64(word(c)))
			if c.Intn(4) == 0 {
				break
			}
		}
		if q.BitLen() > qb {
			q.Rsh(q, uint(q.BitLen()-qb))
		}
	}
	u := new(big.Int).Mul(q, d)
	switch c.Intn(4) {
	case 0:
	case 1:
		u.Add(u, new(big.Int).Sub(d, one))
	case 2:
		u.Add(u, randBelow(c.Rand, d))
	case 3:
		u.Sub(u, one)
	}
	if u.Sign() < 0 || u.BitLen() > nbits {
		return randBits(c.Rand, nbits)
	}
	return u
}

type binOp struct {
	name string
	f    func(z, x, y *ui.Int) *ui.Int
	g    func(x, y *big.Int) *big.Int
}

func bdiv(x, y *big.Int) *big.Int {
	if y.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).Quo(x, y)
}

func bmod(x, y *big.Int) *big.Int {
	if y.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).Rem(x, y)
}

var binOps = []binOp{
	{"Add", func(z, x, y *ui.Int) *ui.Int { return z.Add(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }},
	{"Sub", func(z, x, y *ui.Int) *ui.Int { return z.Sub(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }},
	{"Mul", func(z, x, y *ui.Int) *ui.Int { return z.Mul(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }},
	{"Div", func(z, x, y *ui.Int) *ui.Int { return z.Div(x, y) }, bdiv},
	{"Mod", func(z, x, y *ui.Int) *ui.Int { return z.Mod(x, y) }, bmod},
	{"SDiv", func(z, x, y *ui.Int) *ui.Int { return z.SDiv(x, y) }, func(x, y *big.Int) *big.Int { return bdiv(bsigned(x), bsigned(y)) }},
	{"SMod", func(z, x, y *ui.Int) *ui.Int { return z.SMod(x, y) }, func(x, y *big.Int) *big.Int { return bmod(bsigned(x), bsigned(y)) }},
	{"And", func(z, x, y *ui.Int) *ui.Int { return z.And(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) }},
	{"Or", func(z, x, y *ui.Int) *ui.Int { return z.Or(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) }},
	{"Xor", func(z, x, y *ui.Int) *ui.Int { return z.Xor(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) }},
	{"ExtendSign", func(z, x, y *ui.Int) *ui.Int { return z.ExtendSign(x, y) }, func(x, y *big.Int) *big.Int {
		if y.Cmp(big.NewInt(31)) > 0 {
			return x
		}
		n := uint(y.Uint64()*8 + 8)
		r := new(big.Int).Mod(x, pow2(n))
		if r.Bit(int(n-1)) == 1 {
			r.Sub(r, pow2(n))
		}
		return r
	}},
	{"Exp", func(z, x, y *ui.Int) *ui.Int { return z.Exp(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Exp(x, y, q256) }},
	{"AddOverflow", nil, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }},
	{"SubOverflow", nil, func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }},
	{"MulOverflow", nil, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }},
}

// callBin calls binary operation i and returns result pointer and overflow flag.
func callBin(name string, op binOp, z, x, y *ui.Int) (*ui.Int, bool, bool) {
	switch name {
	case "AddOverflow":
		r, o := z.AddOverflow(x, y)
		return r, o, true
	case "SubOverflow":
		r, o := z.SubOverflow(x, y)
		return r, o, true
	case "MulOverflow":
		r, o := z.MulOverflow(x, y)
		return r, o, true
	}
	return op.f(z, x, y), false, false
}

type unOp struct {
	name string
	f    func(z, x *ui.Int) *ui.Int
	g    func(x *big.Int) *big.Int
}

var unOps = []unOp{
	{"Not", func(z, x *ui.Int) *ui.Int { return z.Not(x) }, func(x *big.Int) *big.Int { return new(big.Int).Not(x) }},
	{"Neg", func(z, x *ui.Int) *ui.Int { return z.Neg(x) }, func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }},
	{"Abs", func(z, x *ui.Int) *ui.Int { return z.Abs(x) }, func(x *big.Int) *big.Int { return new(big.Int).Abs(bsigned(x)) }},
	{"Sqrt", func(z, x *ui.Int) *ui.Int { return z.Sqrt(x) }, func(x *big.Int) *big.Int { return new(big.Int).Sqrt(x) }},
	{"Set", func(z, x *ui.Int) *ui.Int { return z.Set(x) }, func(x *big.Int) *big.Int { return x }},
}

func sgn(x int) int {
	if x < 0 {
		return -1
	}
	if x > 0 {
		return 1
	}
	return 0
}

func checkC01(x *Ctx) {
	x.rule = "each evaluation calls one operation of the 256-bit integer on generated operands (word-structured, near powers of two, divisor-multiple +-1, quotient-digit-overestimate shapes) in one aliasing pattern and compares result, flag and untouched operands with math/big; distinct counts (operation, aliasing, operand word lengths, result word length, shape) combinations"
	x.Require("op.Add", "op.Mul", "op.Reciprocal", "op.Div", "op.Mod", "op.SDiv", "op.SMod", "op.Exp", "op.Sqrt", "op.AddMod", "op.MulMod", "op.Udivrem", "op.Lsh", "op.SRsh", "div.addback", "udivrem.short_dividend")
	x.Run("arith", x.N(12000, 400000), func(c *Case) {
		for k := 0; k < 120; k++ {
			c.Tick()
			c01bin(c)
			c01un(c)
			c01tern(c)
			c01wide(c)
			c01shift(c)
			c01cmp(c)
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "120 rounds of one binary, unary, modular, wide, shift and comparison call each; last operands in counters")
		}
	})
}

func c01bin(c *Case) {
	op := binOps[c.Intn(len(binOps))]
	x, y := operand(c), operand(c)
	if c.Intn(8) == 0 { // both short, to half words
		n := 32 * (1 + c.Intn(8))
		x, y = toUI(randBits(c.Rand, n)), toUI(randBits(c.Rand, n))
	}
	switch op.name {
	case "Div", "Mod", "SDiv", "SMod":
		if c.Intn(3) > 0 {
			x = toUI(dividend(c, fromUI(y), 256))
			if op.name[0] == 'S' {
				if c.Intn(2) == 0 {
					x = toUI(new(big.Int).Neg(fromUI(x)))
				}
			}
			c.Count("div.addback", int64(knuthAddBacks(fromUI(x), fromUI(y))))
		}
	case "ExtendSign":
		if c.Intn(4) > 0 {
			y = ui.NewInt(uint64(c.Intn(34)))
		}
	case "Exp":
		if c.Intn(2) == 0 {
			y = ui.NewInt(uint64(c.Intn(300)))
		}
	case "Mul", "MulOverflow":
		if c.Intn(3) == 0 {
			fx, fy := factors(c)
			x, y = toUI(fx), toUI(fy)
		}
	case "AddOverflow", "SubOverflow", "Sub":
		if c.Intn(3) == 0 {
			y = toUI(addI(fromUI(x), int64(c.Intn(3)-1)))
		} else if c.Intn(3) == 0 {
			y = toUI(addI(new(big.Int).Neg(fromUI(x)), int64(c.Intn(3)-1)))
		}
	}
	again(c, op.name, &x, &y)
	bx, by := fromUI(x), fromUI(y)
	alias := c.Intn(5)
	if alias >= 3 {
		y, by = x, bx
	}
	var z *ui.Int
	switch alias {
	case 0, 3:
		z = operand(c)
	case 1, 4:
		z = x
	case 2:
		z = y
	}
	want := op.g(bx, by)
	got, flag, hasFlag := callBin(op.name, op, z, x, y)
	c.Eval(1)
	c.Count("op."+op.name, 1)
	if got != z {
		c.Fail("%s does not return its receiver", op.name)
	}
	c.eqUI(op.name+fmt.Sprint(" alias ", alias), got, want, bx, by)
	if hasFlag && flag != (want.Sign() < 0 || want.BitLen() > 256) {
		c.Fail("%s(%#x, %#x): overflow flag %v", op.name, bx, by, flag)
	}
	if z != x && fromUI(x).Cmp(bx) != 0 || z != y && fromUI(y).Cmp(by) != 0 {
		c.Fail("%s alias %d modified an operand (%#x, %#x)", op.name, alias, bx, by)
	}
	c.Distinct(op.name, alias, wl(bx), wl(by), wl(bwrap(want)))
}

func c01un(c *Case) {
	op := unOps[c.Intn(len(unOps))]
	x := operand(c)
	if op.name == "Sqrt" && c.Intn(2) == 0 {
		r := randBits(c.Rand, 128)
		x = toUI(addI(new(big.Int).Mul(r, r), int64(c.Intn(3)-1)))
	}
	again(c, op.name, &x)
	bx := fromUI(x)
	z := operand(c)
	alias := c.Intn(2)
	if alias == 1 {
		z = x
	}
	want := op.g(bx)
	got := op.f(z, x)
	c.Eval(1)
	c.Count("op."+op.name, 1)
	if got != z {
		c.Fail("%s does not return its receiver", op.name)
	}
	c.eqUI(op.name, got, want, bx)
	if z != x && fromUI(x).Cmp(bx) != 0 {
		c.Fail("%s modified its operand %#x", op.name, bx)
	}
	cl := x.Clone()
	if cl == x || *cl != *x {
		c.Fail("Clone of %#x", fromUI(x))
	}
	cl[c.Intn(4)] ^= 1
	if *cl == *x {
		c.Fail("Clone shares storage")
	}
	c.Distinct(op.name, alias, wl(bx), bx.BitLen()%64 == 0)
}

func c01tern(c *Case) {
	x, y, m := operand(c), operand(c), operand(c)
	switch c.Intn(7) {
	case 4: // product at the edge of some number of words, short moduli
		fx, fy := factors(c)
		x, y = toUI(fx), toUI(fy)
		if c.Intn(2) == 0 {
			m = toUI(randExact(c.Rand, 1+c.Intn(64*(1+c.Intn(4)))))
		}
	case 5: // a chosen remainder
		if fx, fy, ok := leaving(c, fromUI(m)); ok {
			x, y = toUI(fx), toUI(fy)
		}
	case 6: // all of one length in words
		n := 64 * (1 + c.Intn(4))
		x, y, m = toUI(randBits(c.Rand, n)), toUI(randBits(c.Rand, n)), toUI(randBits(c.Rand, n))
	case 0:
		m = toUI(randExact(c.Rand, 193+c.Intn(64)))
	case 1: // operands near m
		x = toUI(addI(fromUI(m), int64(c.Intn(5)-2)))
	case 2:
		m = toUI(new(big.Int).Add(pow2(uint(c.Intn(256))), big.NewInt(int64(c.Intn(3)-1))))
	}
	again(c, "mod", &x, &y, &m)
	which := c.Intn(3)
	alias := c.Intn(6)
	switch alias {
	case 4:
		y = x
	case 5:
		m = x
	}
	bx, by, bm := fromUI(x), fromUI(y), fromUI(m)
	z := operand(c)
	switch alias {
	case 1:
		z = x
	case 2:
		z = y
	case 3:
		z = m
	}
	var got *ui.Int
	var want *big.Int
	name := "AddMod"
	if which == 0 {
		got = z.AddMod(x, y, m)
		want = bmod(new(big.Int).Add(bx, by), bm)
	} else {
		want = bmod(new(big.Int).Mul(bx, by), bm)
		if which == 1 {
			name = "MulMod"
			got = z.MulMod(x, y, m)
		} else {
			name = "MulModWithReciprocal"
			mu := ui.Reciprocal(m)
			c01reciprocal(c, bm, mu)
			got = z.MulModWithReciprocal(x, y, m, &mu)
		}
	}
	c.Eval(1)
	c.Count("op."+name, 1)
	if got != z {
		c.Fail("%s does not return its receiver", name)
	}
	c.eqUI(name+fmt.Sprint(" alias ", alias), got, want, bx, by, bm)
	if z != x && fromUI(x).Cmp(bx) != 0 || z != y && fromUI(y).Cmp(by) != 0 || z != m && fromUI(m).Cmp(bm) != 0 {
		c.Fail("%s modified an operand", name)
	}
	c.Distinct(name, alias, wl(bx), wl(by), wl(bm))
}

// c01reciprocal: 2^512 / m, rounded down but for a few units, when m has four
// words; zero otherwise.
func c01reciprocal(c *Case, m *big.Int, mu [5]uint64) {
	got := fromWords(mu[:])
	c.Count("op.Reciprocal", 1)
	if m.BitLen() <= 192 {
		if got.Sign() != 0 {
			c.Fail("Reciprocal(%#x) = %#x, not zero", m, got)
		}
		return
	}
	d := new(big.Int).Quo(pow2(512), m)
	d.Sub(d, got)
	if d.CmpAbs(big.NewInt(8)) > 0 {
		c.Fail("Reciprocal(%#x) = %#x is %v away from 2^512 divided by it", m, got, d)
	}
}

func c01wide(c *Case) {
	// full product
	x, y := operand(c), operand(c)
	bx, by := fromUI(x), fromUI(y)
	p := ui.Umul(x, y)
	c.Eval(1)
	c.Count("op.Umul", 1)
	if fromWords(p[:]).Cmp(new(big.Int).Mul(bx, by)) != 0 {
		c.Fail("Umul(%#x, %#x) = %#x", bx, by, fromWords(p[:]))
	}
	// word steps
	a, b, d, e := word(c), word(c), word(c), word(c)
	hi, lo := ui.UmulStep(a, b, d, e)
	w := new(big.Int).Mul(new(big.Int).SetUint64(b), new(big.Int).SetUint64(d))
	w.Add(w, new(big.Int).SetUint64(a))
	w2 := new(big.Int).Set(w)
	w.Add(w, new(big.Int).SetUint64(e))
	if fromWords([]uint64{lo, hi}).Cmp(w) != 0 {
		c.Fail("UmulStep(%#x,%#x,%#x,%#x)", a, b, d, e)
	}
	hi, lo = ui.UmulHop(a, b, d)
	if fromWords([]uint64{lo, hi}).Cmp(w2) != 0 {
		c.Fail("UmulHop(%#x,%#x,%#x)", a, b, d)
	}
	// wide division
	dv := operand(c)
	for dv[0]|dv[1]|dv[2]|dv[3] == 0 {
		dv = operand(c)
	}
	bd := fromUI(dv)
	n := 4 + c.Intn(5)
	bu := dividend(c, bd, 64*n)
	if bu.Sign() == 0 {
		bu = big.NewInt(1)
	}
	u := make([]uint64, n)
	copy(u, words(bu))
	u0 := append([]uint64(nil), u...)
	quot := make([]uint64, n)
	rem := ui.Udivrem(quot, u, dv)
	c.Eval(1)
	c.Count("op.Udivrem", 1)
	wq, wr := new(big.Int).QuoRem(bu, bd, new(big.Int))
	if fromWords(quot).Cmp(wq) != 0 || fromUI(&rem).Cmp(wr) != 0 {
		c.Fail("wide division %#x / %#x: got quotient %#x remainder %#x, want %#x, %#x", bu, bd, fromWords(quot), fromUI(&rem), wq, wr)
	}
	for i := range u {
		if u[i] != u0[i] {
			c.Fail("wide division modified its dividend %#x", bu)
		}
	}
	if fromUI(dv).Cmp(bd) != 0 {
		c.Fail("wide division modified its divisor %#x", bd)
	}
	c.Count("div.addback", int64(knuthAddBacks(bu, bd)))
	if wl(bu)+2 <= wl(bd) {
		c.Count("udivrem.short_dividend", 1)
	}
	c.Distinct("wide", wl(bu), wl(bd), wl(wq), wl(wr))
}

func c01shift(c *Case) {
	x := operand(c)
	bx := fromUI(x)
	n := uint(c.Intn(300))
	switch c.Intn(4) {
	case 0:
		n = uint(64 * c.Intn(6))
	case 1:
		n = uint(64*c.Intn(6) + 63)
	}
	if c.Intn(50) == 0 {
		n = uint(c.Uint64())
	}
	z := operand(c)
	alias := c.Intn(2)
	if alias == 1 {
		z = x
	}
	k := c.Intn(3)
	var got *ui.Int
	want := new(big.Int)
	name := []string{"Lsh", "Rsh", "SRsh"}[k]
	small := n
	if small > 600 {
		small = 600
	}
	switch k {
	case 0:
		got = z.Lsh(x, n)
		want.Lsh(bx, small)
	case 1:
		got = z.Rsh(x, n)
		want.Rsh(bx, small)
	case 2:
		got = z.SRsh(x, n)
		want.Rsh(bsigned(bx), small)
	}
	c.Eval(1)
	c.Count("op."+name, 1)
	if got != z {
		c.Fail("%s does not return its receiver", name)
	}
	c.eqUI(name, got, want, bx, n)
	if alias == 0 && fromUI(x).Cmp(bx) != 0 {
		c.Fail("%s modified its operand", name)
	}
	c.Distinct(name, alias, n, wl(bx))

	// word-sized second operands
	w := word(c)
	bw := new(big.Int).SetUint64(w)
	x = operand(c)
	bx = fromUI(x)
	z = operand(c)
	if alias == 1 {
		z = x
	}
	if c.Intn(2) == 0 {
		c.eqUI("AddUint64", z.AddUint64(x, w), new(big.Int).Add(bx, bw), bx, w)
	} else {
		c.eqUI("SubUint64", z.SubUint64(x, w), new(big.Int).Sub(bx, bw), bx, w)
	}
	if alias == 0 && fromUI(x).Cmp(bx) != 0 {
		c.Fail("AddUint64/SubUint64 modified its operand")
	}
	// byte extraction
	x = operand(c)
	bx = fromUI(x)
	nb := ui.NewInt(uint64(c.Intn(36)))
	if c.Intn(6) == 0 {
		nb = operand(c)
	}
	bn := fromUI(nb)
	wantB := new(big.Int)
	if bn.Cmp(big.NewInt(32)) < 0 {
		wantB.And(new(big.Int).Rsh(bx, uint(8*(31-bn.Uint64()))), big.NewInt(255))
	}
	c.eqUI("Byte", x.Byte(nb), wantB, bx, bn)
	c.Eval(2)
}

func c01cmp(c *Case) {
	x, y := operand(c), operand(c)
	switch c.Intn(4) {
	case 0:
		y = x.Clone()
	case 1:
		y = toUI(addI(fromUI(x), int64(c.Intn(3)-1)))
	case 2:
		y = x.Clone()
		y[c.Intn(4)] = word(c)
	}
	bx, by := fromUI(x), fromUI(y)
	sx, sy := bsigned(bx), bsigned(by)
	w := word(c)
	if c.Intn(3) == 0 {
		w = x[0]
	}
	bw := new(big.Int).SetUint64(w)
	bad := func(what string) { c.Fail("%s wrong for %#x, %#x, %#x", what, bx, by, w) }
	u := bx.Cmp(by)
	s := sx.Cmp(sy)
	switch {
	case sgn(x.Cmp(y)) != u:
		bad("Cmp")
	case x.Lt(y) != (u < 0):
		bad("Lt")
	case x.Gt(y) != (u > 0):
		bad("Gt")
	case x.Eq(y) != (u == 0):
		bad("Eq")
	case x.Slt(y) != (s < 0):
		bad("Slt")
	case x.Sgt(y) != (s > 0):
		bad("Sgt")
	case sgn(x.Sign()) != sx.Sign():
		bad("Sign")
	case x.IsZero() != (bx.Sign() == 0):
		bad("IsZero")
	case x.IsUint64() != bx.IsUint64():
		bad("IsUint64")
	case x.BitLen() != bx.BitLen():
		bad("BitLen")
	case x.ByteLen() != (bx.BitLen()+7)/8:
		bad("ByteLen")
	case x.LtUint64(w) != (bx.Cmp(bw) < 0):
		bad("LtUint64")
	case x.GtUint64(w) != (bx.Cmp(bw) > 0):
		bad("GtUint64")
	case fromUI(x).Cmp(bx) != 0 || fromUI(y).Cmp(by) != 0:
		bad("operand changed by a comparison")
	}
	c.Eval(13)
	c.Count("op.compare", 1)
	c.Distinct("cmp", u, s, wl(bx), wl(by))
	z := operand(c)
	c.eqUI("SetUint64", z.SetUint64(w), bw)
	c.eqUI("SetOne", z.SetOne(), one)
	c.eqUI("SetAllOne", z.SetAllOne(), new(big.Int).Sub(q256, one))
	c.eqUI("Clear", z.Clear(), new(big.Int))
	c.eqUI("NewInt", ui.NewInt(w), bw)
}
