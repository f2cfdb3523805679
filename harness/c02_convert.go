package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	ui "uniswap-simulator/uint256"
)

func init() { checks["C02"] = checkC02 }

type setN struct {
	n int
	f func(z *ui.Int, b []byte) *ui.Int
}

var setNs = []setN{
	{1, (*ui.Int).SetBytes1}, {2, (*ui.Int).SetBytes2}, {3, (*ui.Int).SetBytes3}, {4, (*ui.Int).SetBytes4},
	{5, (*ui.Int).SetBytes5}, {6, (*ui.Int).SetBytes6}, {7, (*ui.Int).SetBytes7}, {8, (*ui.Int).SetBytes8},
	{9, (*ui.Int).SetBytes9}, {10, (*ui.Int).SetBytes10}, {11, (*ui.Int).SetBytes11}, {12, (*ui.Int).SetBytes12},
	{13, (*ui.Int).SetBytes13}, {14, (*ui.Int).SetBytes14}, {15, (*ui.Int).SetBytes15}, {16, (*ui.Int).SetBytes16},
	{17, (*ui.Int).SetBytes17}, {18, (*ui.Int).SetBytes18}, {19, (*ui.Int).SetBytes19}, {20, (*ui.Int).SetBytes20},
	{21, (*ui.Int).SetBytes21}, {22, (*ui.Int).SetBytes22}, {23, (*ui.Int).SetBytes23}, {24, (*ui.Int).SetBytes24},
	{25, (*ui.Int).SetBytes25}, {26, (*ui.Int).SetBytes26}, {27, (*ui.Int).SetBytes27}, {28, (*ui.Int).SetBytes28},
	{29, (*ui.Int).SetBytes29}, {30, (*ui.Int).SetBytes30}, {31, (*ui.Int).SetBytes31}, {32, (*ui.Int).SetBytes32},
}

func checkC02(x *Ctx) {
	x.rule = "each evaluation converts one generated value or input through one encoder or decoder, with a dirty receiver, and compares value, error/overflow report and untouched inputs with math/big; distinct counts (operation, input length or bit length, outcome) combinations"
	x.Require("dec.SetBytes", "dec.SetBytesN", "dec.hex.ok", "dec.hex.bad", "dec.json.ok", "dec.json.bad", "dec.big.overflow", "dec.big.negative", "enc.hex", "enc.rlp", "enc.bytes")
	x.Run("conv", x.N(36000, 1500000), func(c *Case) {
		for k := 0; k < 40; k++ {
			c.Tick()
			c02dec(c)
			c02big(c)
			c02hex(c)
			c02enc(c)
		}
		if len(c.trace) == 0 {
			c.trace = append(c.trace, "40 rounds of one byte decode, big-integer, hex/JSON and encode comparison each")
		}
	})
}

func rndBytes(c *Case, n int) []byte {
	b := make([]byte, n)
	switch c.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(i + 1)
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		c.Read(b)
	}
	for i := 0; i < n && c.Intn(3) == 0; i++ { // leading zeros
		b[i] = 0
	}
	return b
}

func c02dec(c *Case) {
	// SetBytes with any length
	n := c.Intn(41)
	if c.Intn(20) == 0 {
		n = 41 + c.Intn(60)
	}
	in := rndBytes(c, n)
	keep := append([]byte(nil), in...)
	z := operand(c)
	last := in
	if n > 32 {
		last = in[n-32:]
	}
	got := z.SetBytes(in)
	c.Eval(1)
	c.Count("dec.SetBytes", 1)
	if got != z {
		c.Fail("SetBytes does not return its receiver")
	}
	c.eqUI(fmt.Sprintf("SetBytes of %d bytes %x", n, in), z, new(big.Int).SetBytes(last))
	if !bytes.Equal(in, keep) {
		c.Fail("SetBytes modified its input %x -> %x", keep, in)
	}
	for i := range in { // the number must not alias the buffer
		in[i] ^= 0xff
	}
	c.eqUI("SetBytes result after overwriting the buffer", z, new(big.Int).SetBytes(func() []byte {
		if n > 32 {
			return keep[n-32:]
		}
		return keep
	}()))
	c.Distinct("SetBytes", n, z.BitLen())
	// fixed lengths
	s := setNs[c.Intn(len(setNs))]
	in = rndBytes(c, s.n+c.Intn(3))
	keep = append([]byte(nil), in...)
	z = operand(c)
	got = s.f(z, in)
	c.Eval(1)
	c.Count("dec.SetBytesN", 1)
	if got != z {
		c.Fail("SetBytes%d does not return its receiver", s.n)
	}
	c.eqUI(fmt.Sprintf("SetBytes%d of %x", s.n, keep), z, new(big.Int).SetBytes(keep[:s.n]))
	if !bytes.Equal(in, keep) {
		c.Fail("SetBytes%d modified its input", s.n)
	}
	c.Distinct("SetBytesN", s.n)
	// machine words
	w := word(c)
	z = operand(c)
	z.SetUint64(w)
	c.eqUI("SetUint64", z, new(big.Int).SetUint64(w))
	c.eqUI("NewInt", ui.NewInt(w), new(big.Int).SetUint64(w))
	y := operand(c)
	by := fromUI(y)
	u, o := y.Uint64WithOverflow()
	if u != y[0] || y.Uint64() != y[0] || o != (by.BitLen() > 64) || y.IsUint64() == (by.BitLen() > 64) {
		c.Fail("machine-word reading of %#x: %d %v", by, u, o)
	}
	c.Eval(4)
}

func c02big(c *Case) {
	var b *big.Int
	switch c.Intn(6) {
	case 0:
		b = randBits(c.Rand, 400)
	case 1:
		b = addI(pow2(256), int64(c.Intn(5)-2))
	case 2:
		b = addI(pow2(255), int64(c.Intn(5)-2))
	case 3:
		b = addI(pow2(uint(c.Intn(330))), int64(c.Intn(3)-1))
	default:
		b = randBits(c.Rand, 256)
	}
	if c.Intn(2) == 0 {
		b.Neg(b)
		c.Count("dec.big.negative", 1)
	}
	keep := new(big.Int).Set(b)
	over := b.BitLen() > 256
	if over {
		c.Count("dec.big.overflow", 1)
	}
	z := operand(c)
	o := z.SetFromBig(b)
	f, o2 := ui.FromBig(b)
	c.Eval(2)
	c.eqUI("SetFromBig", z, b, b)
	c.eqUI("FromBig", f, b, b)
	if o != over || o2 != over {
		c.Fail("FromBig(%v) overflow report %v/%v, want %v", b, o, o2, over)
	}
	if b.Cmp(keep) != 0 {
		c.Fail("FromBig modified its argument %v -> %v", keep, b)
	}
	b.Add(b, one) // no aliasing of the words
	c.eqUI("FromBig result after changing the argument", z, keep)
	y := operand(c)
	by := fromUI(y)
	t, s := y.ToBig(), y.SToBig()
	c.Eval(2)
	if t.Cmp(by) != 0 {
		c.Fail("ToBig of %#x gives %#x", by, t)
	}
	if s.Cmp(bsigned(by)) != 0 {
		c.Fail("SToBig of %#x gives %v, want %v", by, s, bsigned(by))
	}
	t.Add(t, one)
	s.Add(s, one)
	if fromUI(y).Cmp(by) != 0 {
		c.Fail("ToBig/SToBig share storage with or modify %#x", by)
	}
	c.Distinct("big", keep.BitLen(), keep.Sign(), over)
}

const hexAlpha = "0123456789abcdefABCDEF"

func hexInput(c *Case) string {
	n := c.Intn(70)
	if c.Intn(4) == 0 {
		n = 60 + c.Intn(10)
	}
	var sb strings.Builder
	switch c.Intn(12) {
	case 0:
		sb.WriteString("0X")
	case 1:
		sb.WriteString([]string{"", "0", "x", "1x", "0y", " 0x", "-0x", "0x0x", "0", "00"}[c.Intn(10)])
	default:
		sb.WriteString("0x")
	}
	for i := 0; i < n; i++ {
		ch := hexAlpha[c.Intn(len(hexAlpha))]
		if i == 0 && c.Intn(8) != 0 {
			ch = hexAlpha[1+c.Intn(len(hexAlpha)-1)]
		}
		sb.WriteByte(ch)
	}
	s := []byte(sb.String())
	if c.Intn(4) == 0 && len(s) > 0 { // one bad character at a random place
		s[c.Intn(len(s))] = byte(c.Intn(256))
	}
	return string(s)
}

// hexMeaning is the documented decoding of a hex string.
func hexMeaning(s string) (*big.Int, error) {
	if len(s) == 0 {
		return nil, ui.ErrEmptyString
	}
	if len(s) < 2 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X') {
		return nil, ui.ErrMissingPrefix
	}
	if len(s) == 2 {
		return nil, ui.ErrEmptyNumber
	}
	if len(s) > 3 && s[2] == '0' {
		return nil, ui.ErrLeadingZero
	}
	if len(s) > 66 {
		return nil, ui.ErrBig256Range
	}
	v := new(big.Int)
	for _, ch := range []byte(s[2:]) {
		var d int64
		switch {
		case ch >= '0' && ch <= '9':
			d = int64(ch - '0')
		case ch >= 'a' && ch <= 'f':
			d = int64(ch-'a') + 10
		case ch >= 'A' && ch <= 'F':
			d = int64(ch-'A') + 10
		default:
			return nil, ui.ErrSyntax
		}
		v.Lsh(v, 4)
		v.Add(v, big.NewInt(d))
	}
	return v, nil
}

func c02hex(c *Case) {
	s := hexInput(c)
	want, werr := hexMeaning(s)
	if werr == nil {
		c.Count("dec.hex.ok", 1)
	} else {
		c.Count("dec.hex.bad", 1)
	}
	judge := func(what string, z *ui.Int, err error) {
		c.Eval(1)
		if (err != nil) != (werr != nil) {
			c.Fail("%s(%q): error %v, want %v", what, s, err, werr)
		}
		if werr == nil {
			c.eqUI(fmt.Sprintf("%s(%q)", what, s), z, want)
		}
	}
	z, err := ui.FromHex(s)
	judge("FromHex", z, err)
	d := operand(c)
	in := []byte(s)
	err = d.UnmarshalText(in)
	judge("UnmarshalText on a used number", d, err)
	if string(in) != s {
		c.Fail("UnmarshalText modified its input")
	}
	d = operand(c)
	err = d.UnmarshalJSON([]byte(`"` + s + `"`))
	judge("UnmarshalJSON on a used number", d, err)
	if c.Intn(2) == 0 {
		for _, bad := range []string{s, `"` + s, s + `"`, "", `"`, "12", "null", "{}"} {
			if len(bad) >= 2 && bad[0] == '"' && bad[len(bad)-1] == '"' {
				continue
			}
			d = operand(c)
			c.Eval(1)
			c.Count("dec.json.bad", 1)
			if d.UnmarshalJSON([]byte(bad)) == nil {
				c.Fail("UnmarshalJSON accepts %q", bad)
			}
		}
	}
	c.Distinct("hex", len(s), fmt.Sprint(werr))
}

func rlpOf(b *big.Int) []byte {
	by := b.Bytes()
	if len(by) == 0 {
		return []byte{0x80}
	}
	if len(by) == 1 && by[0] < 0x80 {
		return by
	}
	return append([]byte{0x80 + byte(len(by))}, by...)
}

func c02enc(c *Case) {
	z := operand(c)
	if c.Intn(4) == 0 {
		z = toUI(randBits(c.Rand, 1+c.Intn(256)))
	}
	b := fromUI(z)
	var full [32]byte
	b.FillBytes(full[:])
	c.Eval(10)
	want := fmt.Sprintf("%#x", b)
	txt, err := z.MarshalText()
	if z.Hex() != want || z.String() != want || err != nil || string(txt) != want {
		c.Fail("hex of %#x: Hex %q String %q MarshalText %q %v", b, z.Hex(), z.String(), txt, err)
	}
	c.Count("enc.hex", 1)
	back, err := ui.FromHex(z.Hex())
	if err != nil {
		c.Fail("FromHex(%q): %v", z.Hex(), err)
	}
	c.eqUI("hex round trip", back, b)
	js, err := json.Marshal(z)
	if err != nil || string(js) != `"`+want+`"` {
		c.Fail("JSON of %#x: %s %v", b, js, err)
	}
	d := operand(c)
	holder := struct{ V *ui.Int }{d}
	if err := json.Unmarshal([]byte(`{"V":`+string(js)+`}`), &holder); err != nil {
		c.Fail("JSON decoding of %s: %v", js, err)
	}
	c.eqUI("JSON round trip into a used number", holder.V, b)
	c.Count("dec.json.ok", 1)
	var buf bytes.Buffer
	if err := z.EncodeRLP(&buf); err != nil || !bytes.Equal(buf.Bytes(), rlpOf(b)) {
		c.Fail("RLP of %#x: %x, want %x (%v)", b, buf.Bytes(), rlpOf(b), err)
	}
	buf.Reset()
	if err := (*ui.Int)(nil).EncodeRLP(&buf); err != nil || !bytes.Equal(buf.Bytes(), []byte{0x80}) {
		c.Fail("RLP of nil: %x %v", buf.Bytes(), err)
	}
	c.Count("enc.rlp", 1)
	if !bytes.Equal(z.Bytes(), b.Bytes()) {
		c.Fail("Bytes of %#x: %x", b, z.Bytes())
	}
	if z.Bytes32() != full {
		c.Fail("Bytes32 of %#x: %x", b, z.Bytes32())
	}
	b20 := z.Bytes20()
	if !bytes.Equal(b20[:], full[12:]) {
		c.Fail("Bytes20 of %#x: %x", b, b20)
	}
	var a32 [32]byte
	var a20 [20]byte
	c.Read(a32[:])
	c.Read(a20[:])
	z.WriteToArray32(&a32)
	z.WriteToArray20(&a20)
	if a32 != full || !bytes.Equal(a20[:], full[12:]) {
		c.Fail("WriteToArray of %#x: %x %x", b, a32, a20)
	}
	for _, f := range []string{"%d", "%x", "%#x", "%b", "%+d", "%040d", "%v"} {
		if g, w := fmt.Sprintf(f, z), fmt.Sprintf(f, bsigned(b)); g != w {
			c.Fail("formatting %#x with %s: %s, want %s", b, f, g, w)
		}
	}
	n := c.Intn(41)
	dst := make([]byte, n)
	c.Read(dst)
	was := append([]byte(nil), dst...)
	z.WriteToSlice(dst)
	exp := append([]byte(nil), was...)
	// the first 32 bytes, or the low part when shorter
	if n >= 32 {
		copy(exp, full[:])
	} else {
		copy(exp, full[32-n:])
	}
	if !bytes.Equal(dst, exp) {
		c.Fail("WriteToSlice(%d bytes) of %#x: %x, want %x", n, b, dst, exp)
	}
	n = c.Intn(41)
	pb := z.PaddedBytes(n)
	exp = make([]byte, n)
	for i := 0; i < n && i < 32; i++ {
		exp[n-1-i] = full[31-i]
	}
	if !bytes.Equal(pb, exp) {
		c.Fail("PaddedBytes(%d) of %#x: %x, want %x", n, b, pb, exp)
	}
	c.Count("enc.bytes", 1)
	if fromUI(z).Cmp(b) != 0 {
		c.Fail("an encoder modified the number %#x", b)
	}
	c.Distinct("enc", b.BitLen())
}
