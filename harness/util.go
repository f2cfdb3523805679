package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"
	ui "uniswap-simulator/uint256"
	"unsafe"
	"verifharness/ref"
)

// Helpers that do not touch the code under test.

// again replaces operands by those of the last evaluation of the kind, one of
// them by a relative, so that results remembered for other operands show.
func again(c *Case, kind string, xs ...**ui.Int) {
	last := c.recent[kind]
	if len(last) == len(xs) && c.Intn(3) == 0 {
		k := c.Intn(len(xs))
		for i, x := range xs {
			if i == k {
				*x = relative(c, last[i])
			} else if c.Intn(4) > 0 {
				*x = last[i].Clone()
			}
		}
		c.Count("related_operands", 1)
	}
	now := make([]*ui.Int, len(xs))
	for i, x := range xs {
		now[i] = (*x).Clone()
	}
	if c.recent == nil {
		c.recent = map[string][]*ui.Int{}
	}
	c.recent[kind] = now
}

// againIn does so for operands that have to stay within bounds.
func againIn(c *Case, kind string, lo, hi []*big.Int, xs ...**big.Int) {
	us, ps := make([]*ui.Int, len(xs)), make([]**ui.Int, len(xs))
	for i, x := range xs {
		us[i] = toUI(*x)
		ps[i] = &us[i]
	}
	again(c, kind, ps...)
	for i, x := range xs {
		if v := fromUI(us[i]); v.Cmp(lo[i]) >= 0 && v.Cmp(hi[i]) <= 0 {
			*x = v
		}
	}
}

// operand draws a 256-bit value, mixing word-structured and bit-structured ones.
func operand(c *Case) *ui.Int {
	switch c.Intn(5) {
	case 0, 1:
		var z ui.Int
		n := c.Intn(5)
		for i := 0; i < n; i++ {
			z[i] = word(c)
		}
		return &z
	case 2:
		return toUI(randBits(c.Rand, 256))
	case 3: // near 2^k
		x := pow2(uint(c.Intn(257)))
		return toUI(addI(x, int64(c.Intn(7)-3)))
	}
	return &ui.Int{c.Uint64(), c.Uint64(), c.Uint64(), c.Uint64()}
}

// factors draws two values whose bit lengths add up to about a multiple of 32,
// so that their product just fits some number of words, or just does not.
func factors(c *Case) (x, y *big.Int) {
	n := 32*(1+c.Intn(16)) + c.Intn(5) - 2
	if n > 512 {
		n = 512
	}
	lo, hi := n-256, n-1
	if lo < 1 {
		lo = 1
	}
	if hi > 256 {
		hi = 256
	}
	l := lo + c.Intn(hi-lo+1)
	draw := func(l int) *big.Int {
		switch c.Intn(4) {
		case 0:
			return addI(pow2(uint(l)), -1)
		case 1:
			return pow2(uint(l - 1))
		}
		return randExact(c.Rand, l)
	}
	return draw(l), draw(n - l)
}

// leaving draws two values whose product leaves a remainder with few (or all
// but few) bits set when divided by d.
func leaving(c *Case, d *big.Int) (a, b *big.Int, ok bool) {
	if d.Sign() <= 0 || d.BitLen() > 256 {
		return nil, nil, false
	}
	r := new(big.Int)
	switch c.Intn(5) {
	case 0, 1:
		r = pow2(uint(c.Intn(d.BitLen())))
	case 2:
		r = addI(d, -1)
	case 3:
		r.Sub(d, pow2(uint(c.Intn(d.BitLen()))))
	}
	r.Mod(r, d)
	a = randExact(c.Rand, 1+c.Intn(256))
	if d.Bit(0) == 0 {
		a.SetBit(a, 0, 1)
	}
	inv := new(big.Int).ModInverse(a, d)
	if inv == nil {
		return nil, nil, false
	}
	b = inv.Mul(inv, r)
	b.Mod(b, d)
	if n := 256 - d.BitLen(); n > 0 {
		b.Add(b, new(big.Int).Mul(d, randBits(c.Rand, n)))
	}
	return a, b, b.BitLen() <= 256
}

// relative draws a value sharing part of x: some of its words, its low or high
// bits, or the combination of its words.
func relative(c *Case, x *ui.Int) *ui.Int {
	z := *x
	switch c.Intn(7) {
	case 0: // one bit
		z[c.Intn(4)] ^= 1 << uint(c.Intn(64))
	case 1: // same low words
		for i := 1 + c.Intn(3); i < 4; i++ {
			z[i] = word(c)
		}
	case 2: // same high words
		for i := c.Intn(3); i >= 0; i-- {
			z[i] = word(c)
		}
	case 3: // words exchanged
		i, j := c.Intn(4), c.Intn(4)
		z[i], z[j] = z[j], z[i]
	case 4: // same exclusive or
		i, j, m := c.Intn(4), c.Intn(4), word(c)
		z[i], z[j] = z[i]^m, z[j]^m
	case 5: // same sum of words
		i, j, m := c.Intn(4), c.Intn(4), word(c)
		z[i], z[j] = z[i]+m, z[j]-m
	case 6: // shifted by words
		z.Lsh(&z, uint(64*(1+c.Intn(3))))
	}
	return &z
}

func showArgs(args []interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += ", "
		}
		switch v := a.(type) {
		case *ui.Int:
			s += fmt.Sprintf("%#x", fromUI(v))
		case *big.Int:
			s += fmt.Sprintf("%#x", v)
		default:
			s += fmt.Sprint(v)
		}
	}
	return s
}

func wl(x *big.Int) int { return (x.BitLen() + 63) / 64 }

// word draws one 64-bit word with structure.
func word(c *Case) uint64 {
	switch c.Intn(9) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return ^uint64(0)
	case 3:
		return 1 << 63
	case 4:
		return 1<<63 - 1
	case 5:
		return uint64(c.Intn(16))
	case 6:
		return ^uint64(0) - uint64(c.Intn(16))
	}
	return c.Uint64()
}

func bsigned(x *big.Int) *big.Int {
	if x.Bit(255) == 1 {
		return new(big.Int).Sub(x, q256)
	}
	return new(big.Int).Set(x)
}

func bwrap(x *big.Int) *big.Int { return new(big.Int).Mod(x, q256) }

// guard keeps copies of arguments and tells whether one changed.
type guard struct {
	p []*ui.Int
	v []ui.Int
}

func guardOf(xs ...*ui.Int) guard {
	g := guard{p: xs, v: make([]ui.Int, len(xs))}
	for i, x := range xs {
		g.v[i] = *x
	}
	return g
}

// exact0 and exact1 are the rational values rounded once.
func exact0(a, b, l *big.Int, up bool) *big.Int {
	d := new(big.Int).Sub(b, a)
	d.Abs(d)
	n := new(big.Int).Lsh(l, 96)
	n.Mul(n, d)
	den := new(big.Int).Mul(a, b)
	if up {
		return ref.CeilDiv(n, den)
	}
	return n.Quo(n, den)
}

func exact1(a, b, l *big.Int, up bool) *big.Int {
	d := new(big.Int).Sub(b, a)
	d.Abs(d)
	n := new(big.Int).Mul(l, d)
	if up {
		return ref.CeilDiv(n, ref.Q96)
	}
	return n.Rsh(n, 96)
}

func within(got, want *big.Int, tol int) bool {
	x := new(big.Int).Sub(want, got)
	return x.Sign() >= 0 && x.Cmp(big.NewInt(int64(tol))) <= 0
}

func clampTick(t, lo, hi int) int {
	if t < lo {
		return lo
	}
	if t > hi {
		return hi
	}
	return t
}

// span is liquidity on a range.
type span struct {
	Lo, Hi int
	L      *big.Int
}

// window returns the last n squared prices (zero where none was recorded).
func window(hist []*big.Int, n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
		if j := len(hist) - n + i; j >= 0 {
			out[i].Mul(hist[j], hist[j])
		}
	}
	return out
}

func meanOf(w []*big.Int) *big.Int {
	s := new(big.Int)
	for _, x := range w {
		s.Add(s, x)
	}
	return s.Quo(s, big.NewInt(int64(len(w))))
}

// volatilityOf is the integer root of the sample variance.
func volatilityOf(w []*big.Int) *big.Int {
	m := meanOf(w)
	s := new(big.Int)
	for _, x := range w {
		d := new(big.Int).Sub(x, m)
		s.Add(s, d.Mul(d, d))
	}
	s.Quo(s, big.NewInt(int64(len(w)-1)))
	return s.Sqrt(s)
}

// band is the tick range between two square-root prices.
func band(mid, half *big.Int) (int, int) {
	at := func(p *big.Int) int {
		switch {
		case p.Cmp(ref.MinSP) < 0:
			return ref.MinTick
		case p.Cmp(ref.MaxSP) >= 0:
			return ref.MaxTick
		}
		return ref.TickAt(p)
	}
	return at(new(big.Int).Sub(mid, half)), at(new(big.Int).Add(mid, half))
}

func ceilTo(x, unit int) int { return -ref.FloorDiv(-x, unit) * unit }

func floorTo(x, unit int) int { return ref.FloorDiv(x, unit) * unit }

// field finds a field of the strategy by name, in structs it is made of too.
func field(v reflect.Value, name string) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || !strings.HasSuffix(v.Type().PkgPath(), "/strategy") {
		return v, false
	}
	for i := 0; i < v.NumField(); i++ {
		if strings.EqualFold(v.Type().Field(i).Name, name) {
			f := v.Field(i)
			if !f.CanInterface() && f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			return f, f.CanInterface()
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if f, ok := field(v.Field(i), name); ok {
			return f, true
		}
	}
	return v, false
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// keepAlive marks progress while a child process runs.
func keepAlive(c *Case, done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(200 * time.Millisecond):
			c.Tick()
		}
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	for i > 0 && a[i-1] != '\n' {
		i--
	}
	cut := func(s string) string {
		if i >= len(s) {
			return "(nothing)"
		}
		s = s[i:]
		for j := range s {
			if s[j] == '\n' {
				return s[:j]
			}
		}
		return s
	}
	return cut(a) + "  |  " + cut(b)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Op is one request to a pool.
type Op struct {
	Kind   string // mint burn poke collect pmint pburn swap flash
	Lo, Hi int
	A, B   *big.Int // liquidity / swap amount (A) or flash amounts (A, B)
	ZF1    bool
	Limit  *big.Int
}

func (g guard) check(c *Case, what string) {
	for i, x := range g.p {
		if *x != g.v[i] {
			c.Fail("%s modified argument %d: %#x -> %#x", what, i, fromUI(&g.v[i]), fromUI(x))
		}
	}
}

// price draws a square-root price in [MinSP, MaxSP].
func (c *Case) price() *big.Int {
	var p *big.Int
	switch c.Intn(6) {
	case 0:
		p = randExact(c.Rand, 33+c.Intn(128))
	case 1:
		p = new(big.Int).Set(ref.SqrtAt(ref.MinTick + c.Intn(ref.MaxTick-ref.MinTick+1)))
	case 2:
		p = addI(ref.SqrtAt(ref.MinTick+c.Intn(ref.MaxTick-ref.MinTick+1)), int64(c.Intn(5)-2))
	case 3:
		p = addI(pow2(uint(33+c.Intn(127))), int64(c.Intn(3)-1))
	case 4: // near 1
		p = new(big.Int).Add(ref.SqrtAt(c.Intn(2000)-1000), randBits(c.Rand, 80))
	default:
		p = []*big.Int{ref.MinSP, addI(ref.MinSP, 1), addI(ref.MaxSP, -1), ref.MaxSP, ref.Q96}[c.Intn(5)]
		p = new(big.Int).Set(p)
	}
	if p.Cmp(ref.MinSP) < 0 {
		p.Set(ref.MinSP)
	}
	if p.Cmp(ref.MaxSP) > 0 {
		p.Set(ref.MaxSP)
	}
	return p
}

// near draws a price near p.
func (c *Case) near(p *big.Int) *big.Int {
	d := randBits(c.Rand, c.Intn(p.BitLen()))
	if c.Intn(2) == 0 {
		d.Neg(d)
	}
	q := new(big.Int).Add(p, d)
	if q.Cmp(ref.MinSP) < 0 || q.Cmp(ref.MaxSP) > 0 {
		return c.price()
	}
	return q
}

func (c *Case) pair() (*big.Int, *big.Int) {
	p := c.price()
	if c.Intn(2) == 0 {
		return p, c.near(p)
	}
	return p, c.price()
}

func (c *Case) fee() int {
	switch c.Intn(6) {
	case 0:
		return c.Intn(1000000)
	case 1:
		return []int{0, 1, 999999, 999998, 500000}[c.Intn(5)]
	}
	return []int{500, 3000, 10000}[c.Intn(3)]
}

// histMax is the largest tick at which price snapshots are representable.
const histMax = 263000

func (c *Case) eqUI(what string, got *ui.Int, want *big.Int, args ...interface{}) {
	if got == nil || fromUI(got).Cmp(bwrap(want)) != 0 {
		g := "nil"
		if got != nil {
			g = fmt.Sprintf("%#x", fromUI(got))
		}
		c.Fail("%s: got %s, want %#x; operands %s", what, g, bwrap(want), showArgs(args))
	}
}

func (c *Case) initialPrice(sp int) *big.Int {
	var t int
	switch c.Intn(6) {
	case 0:
		t = ref.MinTick + 1 + c.Intn(ref.MaxTick-ref.MinTick-1)
	case 1:
		t = (c.Intn(601) - 300) * sp
		t += c.Intn(sp)
	case 2: // at a word boundary
		k := ref.MaxTick / (256 * sp)
		t = (c.Intn(2*k+1)-k)*256*sp + c.Intn(5) - 2
	case 3:
		t = 195000 + c.Intn(4000) - 2000
	case 4:
		t = ref.MaxTick - 1 - c.Intn(3000)
		if c.Intn(2) == 0 {
			t = -t
		}
	case 5: // negative and unaligned
		t = -1 - c.Intn(60000)
	}
	if t < ref.MinTick {
		t = ref.MinTick
	}
	if t >= ref.MaxTick {
		t = ref.MaxTick - 1
	}
	p := ref.SqrtAt(t)
	switch c.Intn(3) {
	case 0:
		return new(big.Int).Set(p)
	case 1:
		if t > ref.MinTick {
			return addI(p, int64(c.Intn(3)-1))
		}
		return addI(p, 1)
	}
	d := new(big.Int).Sub(ref.SqrtAt(t+1), p)
	return d.Add(p, randBelow(c.Rand, d))
}
