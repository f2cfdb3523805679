package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() { checks["C26"] = checkC26 }

func checkC26(x *Ctx) {
	x.rule = "each evaluation serialises one transaction (alone, by pointer or in a list), decodes the text with the documented input format and compares every field its type carries; unknown types must be refused; distinct = (type, signs and sizes of the amounts, signs of the ticks, flag, kind of identifier)"
	x.Require("Swap", "Mint", "Burn", "Flash", "unknown", "negative_amount", "negative_tick", "zero_tick", "extreme", "in_list", "by_pointer", "flag_set", "odd_identifier", "long_identifier", "missing_fields", "encoded")
	x.Run("tx", x.N(200000, 2000000), c26one)
}

func c26amount(c *Case) *big.Int {
	switch c.Intn(8) {
	case 0:
		return new(big.Int)
	case 1:
		return addI(ref.Q255, -1)
	case 2:
		return new(big.Int).Neg(ref.Q255)
	case 3:
		return big.NewInt(int64(c.Intn(5) - 2))
	}
	a := randBits(c.Rand, 255)
	if c.Intn(2) == 0 {
		a = randBits(c.Rand, 100)
	}
	if c.Intn(2) == 0 {
		a.Neg(a)
	}
	return a
}

func c26tick(c *Case) int {
	switch c.Intn(6) {
	case 0:
		return 0
	case 1:
		return []int{ref.MinTick, ref.MaxTick, -1, 1}[c.Intn(4)]
	}
	return c.Intn(2*ref.MaxTick+1) - ref.MaxTick
}

func c26id(c *Case) string {
	switch c.Intn(6) {
	case 0:
		if c.Intn(50) == 0 {
			c.Count("long_identifier", 1)
			return strings.Repeat("0x9f", 60+c.Intn(1<<uint(5+c.Intn(11))))
		}
		return ""
	case 1:
		return "a\"b\\c<&>\u2028\n\t"
	case 2:
		return strconv.Itoa(c.Intn(1 << 30))
	case 3:
		b := make([]rune, c.Intn(12))
		for i := range b {
			b[i] = rune(c.Intn(0x2fff))
		}
		if s := string(b); utf8.ValidString(s) {
			return s
		}
	}
	return fmt.Sprintf("0x%064x", c.Int63())
}

func c26one(c *Case) {
	n := 1
	list := c.Intn(3) == 0
	if list {
		n = 1 + c.Intn(5)
		if c.idx%2000 == 7 {
			n = 257 + c.Intn(2000)
			c.Count("long_list", 1)
		}
	}
	type want struct {
		a, a0, a1, p *big.Int
	}
	txs := make([]ent.Transaction, n)
	ws := make([]want, n)
	var g guard
	for i := range txs {
		t := ent.Transaction{Type: []string{"Swap", "Mint", "Burn", "Flash"}[c.Intn(4)], ID: c26id(c), Timestamp: int(randBits(c.Rand, 48).Int64())}
		if c.Intn(20) == 0 {
			t.Timestamp = -t.Timestamp
		}
		w := want{a0: c26amount(c), a1: c26amount(c)}
		t.Amount0, t.Amount1 = toUI(w.a0), toUI(w.a1)
		full := c.Intn(2) == 0 // the fields of other types are set as well
		if full || t.Type == "Mint" || t.Type == "Burn" {
			w.a = c26amount(c)
			t.Amount = toUI(w.a)
			t.TickLower, t.TickUpper = c26tick(c), c26tick(c)
		}
		if full || t.Type == "Swap" {
			w.p = c.price()
			if c.Intn(10) == 0 {
				w.p = new(big.Int)
			}
			t.SqrtPriceX96 = toUI(w.p)
			t.Tick = c26tick(c)
			t.UseX96 = c.Intn(2) == 0
		}
		if !full {
			c.Count("missing_fields", 1)
		}
		for _, u := range []*ui.Int{t.Amount, t.Amount0, t.Amount1, t.SqrtPriceX96} {
			if u != nil {
				g.p = append(g.p, u)
				g.v = append(g.v, *u)
			}
		}
		txs[i], ws[i] = t, w
		c.Op("%s id %q time %d amounts %v %v %v price %v ticks %d %d %d flag %v", t.Type, t.ID, t.Timestamp, w.a, w.a0, w.a1, w.p, t.Tick, t.TickLower, t.TickUpper, t.UseX96)
	}
	if c.Intn(12) == 0 {
		t := txs[0]
		t.Type = []string{"", "swap", "Collect", "SWAP", "Swap ", "Mint2", "mint", "flash"}[c.Intn(8)]
		var err error
		var out []byte
		bad, _ := c.Try(func() { out, err = json.Marshal(t) })
		c.Count("unknown", 1)
		c.Eval(1)
		if !bad && err == nil {
			c.Fail("a transaction of type %q was serialised as %s", t.Type, out)
		}
		c.Distinct("unknown", t.Type)
		return
	}
	var text []byte
	var err error
	switch {
	case list && c.Intn(3) == 0:
		// One by one, all texts kept until the last one is written.
		parts := make([][]byte, n)
		for i := range txs {
			if m, ok := interface{}(txs[i]).(json.Marshaler); ok {
				parts[i], err = m.MarshalJSON()
				c.Count("held", 1)
			} else {
				parts[i], err = json.Marshal(txs[i])
			}
			if err != nil {
				c.Fail("serialising failed: %v", err)
			}
		}
		text = append(append([]byte("["), bytes.Join(parts, []byte(","))...), ']')
		c.Count("in_list", 1)
	case list && c.Intn(3) == 0:
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetEscapeHTML(c.Intn(2) == 0)
		e.SetIndent("", strings.Repeat(" ", c.Intn(3)))
		err = e.Encode(txs)
		text = buf.Bytes()
		c.Count("encoded", 1)
		c.Count("in_list", 1)
	case list:
		text, err = json.Marshal(txs)
		c.Count("in_list", 1)
	case c.Intn(2) == 0:
		text, err = json.Marshal(&txs[0])
		c.Count("by_pointer", 1)
	default:
		text, err = json.Marshal(txs[0])
	}
	if err != nil {
		c.Fail("serialising failed: %v", err)
	}
	g.check(c, "serialising")
	in := make([]ent.TransactionInput, 1)
	if list {
		err = json.Unmarshal(text, &in)
	} else {
		err = json.Unmarshal(text, &in[0])
	}
	if err != nil || len(in) != n {
		c.Fail("%s does not decode: %v", text, err)
	}
	for i, t := range txs {
		r, w := in[i], ws[i]
		c.Eval(1)
		c.Count(t.Type, 1)
		bad := func(f string, got, want interface{}) {
			c.Fail("%s of a %s came back as %v, was %v; text %s", f, t.Type, got, want, text)
		}
		num := func(f, s string, want *big.Int) {
			b, ok := new(big.Int).SetString(s, 10)
			if !ok {
				bad(f, strconv.Quote(s), want)
			}
			u, over := ui.FromBig(b)
			if over || b.Cmp(want) != 0 || fromUIS(u).Cmp(want) != 0 {
				bad(f, s, want)
			}
			if want.Sign() < 0 {
				c.Count("negative_amount", 1)
			}
			if want.BitLen() >= 255 {
				c.Count("extreme", 1)
			}
		}
		tick := func(f string, got, want int) {
			if got != want {
				bad(f, got, want)
			}
			if want < 0 {
				c.Count("negative_tick", 1)
			} else if want == 0 {
				c.Count("zero_tick", 1)
			}
		}
		if r.Type != t.Type {
			bad("type", r.Type, t.Type)
		}
		if r.ID != t.ID {
			bad("identifier", strconv.Quote(r.ID), strconv.Quote(t.ID))
		}
		if len(t.ID) > 0 && t.ID[0] != '0' {
			c.Count("odd_identifier", 1)
		}
		if r.Timestamp != t.Timestamp {
			bad("time", r.Timestamp, t.Timestamp)
		}
		num("first amount", r.Amount0, w.a0)
		num("second amount", r.Amount1, w.a1)
		switch t.Type {
		case "Swap":
			num("price", r.SqrtPriceX96, w.p)
			tick("tick", r.Tick, t.Tick)
			f, _ := strconv.ParseBool(r.UseX96)
			if f != t.UseX96 {
				bad("flag", r.UseX96, t.UseX96)
			}
			if f {
				c.Count("flag_set", 1)
			}
		case "Mint", "Burn":
			num("amount", r.Amount, w.a)
			tick("lower tick", r.TickLower, t.TickLower)
			tick("upper tick", r.TickUpper, t.TickUpper)
		}
		al := 0
		if w.a != nil {
			al = w.a.BitLen() / 16
		}
		c.Distinct(t.Type, w.a0.Sign(), w.a0.BitLen()/16, w.a1.Sign(), w.a1.BitLen()/16, al, t.Tick < 0, t.TickLower < 0, t.UseX96)
	}
}
