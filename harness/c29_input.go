package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	ent "uniswap-simulator/lib/transaction"
	"verifharness/ref"
)

func init() { checks["C29"] = checkC29 }

func checkC29(x *Ctx) {
	x.rule = "each evaluation is one run of the real program on a transaction file with exactly one defect: the exit status must be a failure and the report must be absent, or, if an older one was there, unchanged; the control runs are the same data without the defect and must succeed; distinct = distinct (kind of defect, place)"
	if os.Getenv("VERIF_SIM_BIN") == "" {
		fmt.Println("NO-ANSWER property=C29: run through check.sh")
		os.Exit(2)
	}
	x.Require("control_success", "older_report_untouched", "no_report",
		"number_syntax", "number_too_large", "number_too_small", "number_wraps_to_valid", "field_amount", "field_amount0", "field_amount1", "field_sqrtPriceX96", "type_Swap", "type_Mint", "type_Burn", "type_Flash", "first_transaction", "last_transaction",
		"json_truncated", "json_trailing", "json_type", "json_syntax", "file",
		"refused_mint", "refused_burn", "refused_flash", "refused_before_start", "refused_after_start", "refused_last", "arguments")
	var wg sync.WaitGroup
	run := func(group string, n, workers int, f func(c *Case)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.RunP(group, n, workers, f)
		}()
	}
	run("control", x.N(2, 24), 1, c29control)
	run("number", x.N(72, 500), 3, c29number)
	run("json", x.N(64, 500), 3, c29json)
	run("file", x.N(16, 64), 1, c29file)
	run("refused", x.N(36, 252), 2, c29refused)
	run("arguments", x.N(7, 42), 1, c29arguments)
	wg.Wait()
}

// rawTx is a transaction as the file has it, fields in any form.
type rawTx map[string]interface{}

func rawLog(txs []ent.Transaction) []rawTx {
	out := make([]rawTx, len(txs))
	for i, t := range txs {
		r := rawTx{"type": t.Type, "id": t.ID, "timestamp": t.Timestamp, "amount0": fromUIS(t.Amount0).String(), "amount1": fromUIS(t.Amount1).String()}
		switch t.Type {
		case "Mint", "Burn":
			r["amount"], r["tickLower"], r["tickUpper"] = fromUIS(t.Amount).String(), t.TickLower, t.TickUpper
		case "Swap":
			r["sqrtPriceX96"], r["tick"], r["useX96"] = fromUI(t.SqrtPriceX96).String(), t.Tick, "false"
		}
		out[i] = r
	}
	return out
}

func rawBytes(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

// c29log is a short valid log with every kind of transaction.
func c29log(c *Case) []ent.Transaction {
	for {
		txs := simLog(c, 5+c.Intn(10), 4+c.Intn(10), 0)
		kinds := map[string]bool{}
		for _, t := range txs {
			kinds[t.Type] = true
		}
		if len(kinds) == 4 && txs[len(txs)-2].Timestamp > txs[0].Timestamp+simMonth {
			return txs
		}
	}
}

type simRun struct {
	dir, name string
	old       []byte
	args      []string
}

// newRun prepares a directory with the data, and sometimes an older report.
func newRun(c *Case, data []byte) *simRun {
	r := &simRun{dir: simDir(), name: []string{"report.json", "1_day.json", "x"}[c.Intn(3)]}
	must(os.MkdirAll(filepath.Join(r.dir, "data"), 0o755))
	must(os.WriteFile(r.data(), data, 0o644))
	switch c.idx % 4 {
	case 0:
		must(os.Mkdir(filepath.Join(r.dir, "results"), 0o755))
	case 1, 2:
		r.old = []byte(fmt.Sprintf("{\"an\": \"older report %d\"}\n", c.Intn(1000)))
		if c.idx%8 == 1 {
			r.old = []byte{}
		}
		must(os.Mkdir(filepath.Join(r.dir, "results"), 0o755))
		must(os.WriteFile(filepath.Join(r.dir, "results", r.name), r.old, 0o644))
	}
	r.args = []string{"-n", fmt.Sprint([]int{1, 24, 168}[c.Intn(3)]), "-file", r.name}
	return r
}

func (r *simRun) data() string {
	return filepath.Join(r.dir, "data", "transactions_insample.json")
}

// mustFail runs the program and demands a failure without a report.
func (r *simRun) mustFail(c *Case, what string) {
	defer os.RemoveAll(r.dir)
	c.Op("batch %v where %s", r.args, what)
	out, err := runSim(c, r.dir, 0, r.args...)
	c.Eval(1)
	if err == nil {
		c.Fail("the batch reports success although %s; output:\n%s", what, cut(out, 2000))
	}
	if _, ok := err.(*exec.ExitError); !ok {
		panic(err)
	}
	got, err := os.ReadFile(filepath.Join(r.dir, "results", r.name))
	switch {
	case r.old == nil && err == nil:
		c.Fail("the batch failed because %s, but left a report of %d bytes: %s", what, len(got), cut(string(got), 500))
	case r.old != nil && (err != nil || !bytes.Equal(got, r.old)):
		c.Fail("the batch failed because %s, but the older report is no longer there (%d bytes, error %v)", what, len(got), err)
	case r.old != nil:
		c.Count("older_report_untouched", 1)
	default:
		c.Count("no_report", 1)
	}
	if rs, err := os.ReadDir(filepath.Join(r.dir, "results")); err == nil {
		for _, f := range rs {
			if f.Name() != r.name && strings.HasSuffix(f.Name(), ".json") {
				c.Fail("the batch failed because %s, but wrote %s", what, f.Name())
			}
		}
	}
}

// c29control runs valid data whose form is unusual.
func c29control(c *Case) {
	txs := c29log(c)
	raw := rawLog(txs)
	// Fields that do not apply may be absent, empty or zero.
	for _, r := range raw {
		if r["type"] == "Mint" || r["type"] == "Burn" {
			switch c.Intn(3) {
			case 0:
				delete(r, "amount0")
				delete(r, "amount1")
			case 1:
				r["amount0"], r["amount1"], r["sqrtPriceX96"], r["useX96"] = "", "0", "", ""
			}
		} else {
			switch c.Intn(3) {
			case 0:
				r["amount"], r["tickLower"] = "", 0
			case 1:
				delete(r, "id")
				delete(r, "useX96")
			}
		}
		if c.Intn(4) == 0 {
			r["origin"] = []string{"a field", "nobody reads"}
		}
	}
	data := rawBytes(raw)
	if c.idx%2 == 0 {
		var b bytes.Buffer
		must(json.Indent(&b, data, " ", "\t"))
		data = append([]byte(" \r\n\t"), append(b.Bytes(), '\n', ' ')...)
	}
	r := newRun(c, data)
	defer os.RemoveAll(r.dir)
	c.Op("batch %v on valid data: %s", r.args, cut(string(data), 20000))
	out, err := runSim(c, r.dir, 0, r.args...)
	c.Eval(1)
	if err != nil {
		c.Fail("the batch failed on valid data: %v\n%s", err, cut(out, 3000))
	}
	var rep simReport
	b, err := os.ReadFile(filepath.Join(r.dir, "results", r.name))
	if err == nil {
		err = json.Unmarshal(b, &rep)
	}
	if err != nil || len(rep.Results) != simRows {
		c.Fail("the batch succeeded without a complete report: %v, %d rows", err, len(rep.Results))
	}
	c.Count("control_success", 1)
	c.Distinct("control", c.idx)
}

// place draws a transaction and a number of it.
func (c *Case) spot(raw []rawTx) (int, string) {
	kinds := []string{"Swap", "Mint", "Burn", "Flash"}
	kind := kinds[c.idx%4]
	fields := map[string][]string{"Swap": {"amount0", "amount1", "sqrtPriceX96", "amount"}, "Mint": {"amount", "amount0", "amount1"}, "Burn": {"amount", "amount0", "amount1"}, "Flash": {"amount0", "amount1"}}[kind]
	f := fields[c.idx/4%len(fields)]
	i := 0
	switch {
	case c.idx%7 == 0 && kind == "Mint": // the first one is a mint
	case c.idx%5 == 0: // the last one
		i = len(raw) - 1
		for raw[i]["type"] != kind {
			i--
		}
		last := raw[i]
		copy(raw[i:], raw[i+1:])
		last["timestamp"] = raw[len(raw)-2]["timestamp"]
		i = len(raw) - 1
		raw[i] = last
	default:
		i = c.Intn(len(raw))
		for raw[i]["type"] != kind {
			i = (i + 1) % len(raw)
		}
	}
	c.Count("type_"+kind, 1)
	c.Count("field_"+f, 1)
	if i == 0 {
		c.Count("first_transaction", 1)
	}
	if i == len(raw)-1 {
		c.Count("last_transaction", 1)
	}
	return i, f
}

// c29number spoils one number.
func c29number(c *Case) {
	raw := rawLog(c29log(c))
	i, f := c.spot(raw)
	old, _ := raw[i][f].(string)
	v, ok := new(big.Int).SetString(old, 10)
	if !ok {
		v, old = new(big.Int), "0"
	}
	lim := pow2(256)
	bad := ""
	kind := ""
	switch (c.idx + c.idx/4) % 6 {
	case 0, 1:
		kind = "number_syntax"
		cutAt := c.Intn(len(old) + 1)
		forms := []string{"x", old + "x", "0x" + old, old + ".0", old + ".", "." + old, "1e18", old + "e0", " " + old, old + " ", old + "\n", "\t" + old,
			"--" + old, "- 1", "-", "+", "0b1", "1_000", "1,000", "NaN", "Infinity", "null", "undefined", "٣", "１２", old[:cutAt] + "\x00" + old[cutAt:], old[:cutAt] + " " + old[cutAt:] + "1", "0xff", "#1", "½", "1/2", "(" + old + ")", "deadbeef", "true", "\"" + old + "\"", " "}
		bad = forms[c.Intn(len(forms))]
	case 2:
		kind = "number_too_large"
		bad = []*big.Int{lim, addI(lim, 1), new(big.Int).Add(lim, randBits(c.Rand, 255)), pow2(257), addI(pow2(512), -1), pow2(320), new(big.Int).Lsh(big.NewInt(7), uint(256+c.Intn(2000)))}[c.Intn(7)].String()
	case 3:
		kind = "number_too_small"
		m := addI(pow2(255), 1)
		bad = new(big.Int).Neg([]*big.Int{m, addI(m, 1), new(big.Int).Add(m, randBits(c.Rand, 254)), lim, addI(lim, 1), pow2(300)}[c.Intn(6)]).String()
	case 4, 5: // what is left after wrapping around is what was there
		kind = "number_wraps_to_valid"
		k := new(big.Int).Lsh(big.NewInt(int64(1+c.Intn(1000))), uint(256+64*c.Intn(4)))
		w := new(big.Int).Add(v, k)
		if v.Sign() < 0 || c.Intn(3) == 0 {
			w.Sub(v, k)
		}
		bad = w.String()
	}
	raw[i][f] = bad
	c.Count(kind, 1)
	data := rawBytes(raw)
	c.Op("data %s", cut(string(data), 20000))
	newRun(c, data).mustFail(c, fmt.Sprintf("the %s of transaction %d of %d (%v) is %q", f, i, len(raw), raw[i]["type"], cut(bad, 200)))
	c.Distinct(kind, f, raw[i]["type"], len(bad))
}

// c29json spoils the file's structure.
func c29json(c *Case) {
	txs := c29log(c)
	raw := rawLog(txs)
	data := rawBytes(raw)
	what, kind := "", ""
	switch c.idx % 4 {
	case 0:
		kind = "json_truncated"
		n := c.Intn(len(data))
		switch c.idx / 4 % 6 {
		case 0:
			n = len(data) - 1
		case 1: // between two transactions
			var ends []int
			for i := 0; i < len(data)-1; i++ {
				if data[i] == '}' {
					ends = append(ends, i+1, i+2)
				}
			}
			n = ends[c.Intn(len(ends))]
			if n > len(data)-1 {
				n = len(data) - 1
			}
		case 2:
			n = c.Intn(3)
		}
		data = data[:n]
		what = fmt.Sprintf("the file ends after %d bytes", n)
	case 1:
		kind = "json_trailing"
		t := []string{"x", "]", "[]", "{}", "\x00", "0", "\"\"", ",", "null", "//", "\n" + string(data), "\n]", " [", "\n\n.", "[{\"type\":\"Mint\"}]", "#"}[(c.idx/4)%16]
		data = append(data, t...)
		what = fmt.Sprintf("the list is followed by %q", cut(t, 40))
	case 2:
		kind = "json_type"
		i := c.Intn(len(raw))
		f := []string{"type", "id", "timestamp", "amount0", "amount1", "amount", "sqrtPriceX96", "tick", "tickLower", "tickUpper", "useX96"}[c.Intn(11)]
		var bad interface{}
		switch f {
		case "timestamp", "tick", "tickLower", "tickUpper":
			bad = []interface{}{"12", "", 1.5, true, json.RawMessage("1e30"), json.RawMessage("9223372036854775808"), json.RawMessage("-9223372036854775809"), []int{1}, rawTx{}, json.RawMessage("1600000000.25"), json.RawMessage("\"1600000000\"")}[c.Intn(11)]
		default:
			bad = []interface{}{12, -1, 0, 1.5, true, false, []string{"1"}, rawTx{"v": "1"}, json.RawMessage("115792089237316195423570985008687907853269984665640564039457584007913129639936")}[c.Intn(9)]
		}
		switch c.idx / 4 % 4 {
		case 0: // the whole
			switch c.Intn(5) {
			case 0:
				data = rawBytes(rawTx{"transactions": raw})
			case 1:
				data = rawBytes(string(data))
			case 2:
				data = rawBytes(raw[0])
			case 3:
				data = rawBytes([]interface{}{raw})
			default:
				data = []byte([]string{"0", "true", "\"\"", "{}", "[]", "null", " [ ] "}[c.Intn(7)])
			}
			what = "the file is not a list of transactions"
		case 1: // one transaction
			l := make([]interface{}, len(raw))
			for k := range raw {
				l[k] = raw[k]
			}
			l[i] = []interface{}{1, "Mint", []rawTx{raw[i]}, true, string(rawBytes(raw[i]))}[c.Intn(5)]
			data = rawBytes(l)
			what = fmt.Sprintf("transaction %d of %d is no object", i, len(raw))
		default:
			raw[i][f] = bad
			data = rawBytes(raw)
			what = fmt.Sprintf("the %s of transaction %d of %d is %s", f, i, len(raw), rawBytes(bad))
		}
	case 3:
		kind = "json_syntax"
		// One structural character is dropped, doubled or replaced. Only
		// characters outside strings count.
		var at []int
		in := false
		for i, b := range data {
			if b == '"' {
				in = !in
			} else if !in && strings.IndexByte("[]{}:,", b) >= 0 {
				at = append(at, i)
			}
		}
		n := at[c.Intn(len(at))]
		mid := ""
		switch c.Intn(3) {
		case 0:
		case 1:
			mid = string(data[n : n+1])
			mid += mid
			if data[n] == '[' || data[n] == '{' || n == len(data)-1 {
				mid = ","
			}
		default:
			mid = []string{";", "'", "/**/", "=", "\\"}[c.Intn(5)]
		}
		what = fmt.Sprintf("byte %d of %d, %q, is %q instead", n, len(data), data[n], mid)
		data = append(append(append([]byte{}, data[:n]...), mid...), data[n+1:]...)
		if json.Valid(data) {
			what = "the opening bracket is missing"
			data = rawBytes(raw)[1:]
		}
	}
	c.Count(kind, 1)
	c.Op("data %s", cut(string(data), 20000))
	newRun(c, data).mustFail(c, what)
	c.Distinct(kind, what)
}

// c29file takes the file away in various ways.
func c29file(c *Case) {
	data := rawBytes(rawLog(c29log(c)))
	r := newRun(c, data)
	file, dir := r.data(), filepath.Dir(r.data())
	what := ""
	switch c.idx / 2 % 8 {
	case 0:
		what = "there is no data directory"
		must(os.RemoveAll(dir))
	case 1:
		what = "there is no transaction file"
		must(os.Remove(file))
	case 2:
		what = "the transaction file is a directory"
		must(os.Remove(file))
		must(os.Mkdir(file, 0o755))
	case 3:
		what = "the data directory is a file"
		must(os.RemoveAll(dir))
		must(os.WriteFile(dir, data, 0o644))
	case 4:
		what = "the transaction file is a link to nothing"
		must(os.Remove(file))
		must(os.Symlink("nothing.json", file))
	case 5:
		what = "the transaction file is a link to itself"
		must(os.Remove(file))
		must(os.Symlink(filepath.Base(file), file))
	case 6:
		what = "the transaction file is empty"
		must(os.Truncate(file, 0))
	case 7:
		what = "the transaction file has another name"
		must(os.Rename(file, file+"~"))
	}
	c.Count("file", 1)
	r.mustFail(c, what)
	c.Distinct(what)
}

// c29refused puts one request among the others that the pool refuses.
func c29refused(c *Case) {
	txs := c29log(c)
	started := 0
	for txs[started].Timestamp < txs[0].Timestamp+simMonth {
		started++
	}
	if started > len(txs)-2 {
		started = len(txs) - 2
	}
	at := []int{1 + c.Intn(len(txs)-1), started + 1 + c.Intn(len(txs)-1-started), len(txs), 1}[c.idx%4]
	sp := ref.Spacings[simFee]
	top := ref.MaxTick / sp * sp
	// A range of its own, far away from everything else.
	lo, hi := -top+sp*(1+c.Intn(40)), top-sp*(1+c.Intn(40))
	kind, what := "", ""
	var t ent.Transaction
	l := randExact(c.Rand, 1+c.Intn(50))
	tx := func(k string, lo, hi int, l *big.Int) ent.Transaction {
		t := newTx(k, 0)
		t.TickLower, t.TickUpper, t.Amount = lo, hi, toUI(new(big.Int).And(l, addI(pow2(256), -1)))
		return t
	}
	held := false
	switch c.idx / 4 % 9 {
	case 0:
		kind, what, t = "refused_mint", "a mint of nothing", tx("Mint", lo, hi, new(big.Int))
	case 1:
		kind, what, t = "refused_mint", "a mint of a negative amount", tx("Mint", lo, hi, new(big.Int).Neg(l))
	case 2:
		kind, what, t = "refused_mint", "a mint with inverted ticks", tx("Mint", hi, lo, l)
		if c.Intn(2) == 0 {
			what, t = "a mint of an empty range", tx("Mint", lo, lo, l)
		}
	case 3:
		kind, what, t = "refused_mint", "a mint above the highest tick", tx("Mint", lo, top+sp*(1+c.Intn(3)), l)
	case 4:
		kind, what, t = "refused_mint", "a mint below the lowest tick", tx("Mint", -top-sp*(1+c.Intn(3)), hi, l)
	case 5:
		kind, what, t = "refused_burn", "a burn of a range nobody minted", tx("Burn", lo, hi, l)
	case 6:
		held = true
		kind, what, t = "refused_burn", "a burn of one more than was minted", tx("Burn", lo, hi, addI(l, 1))
	case 7:
		kind, what = "refused_burn", "a burn of far more than there is"
		t = tx("Burn", -top, top, pow2(uint(100+c.Intn(27))))
	case 8:
		kind, what = "refused_flash", "a flash without liquidity"
		t = newTx("Flash", 0)
		t.Amount0, t.Amount1 = toUI(addI(randBits(c.Rand, 30), 1)), toUI(addI(randBits(c.Rand, 30), 1))
		at = 0
	}
	t.ID = "refused"
	put := func(at int, t ent.Transaction) {
		if at == 0 {
			t.Timestamp = txs[0].Timestamp
		} else {
			t.Timestamp = txs[at-1].Timestamp
		}
		txs = append(txs, t)
		copy(txs[at+1:], txs[at:])
		txs[at] = t
	}
	switch {
	case at == len(txs):
		c.Count("refused_last", 1)
	case at > 0 && txs[at-1].Timestamp >= txs[0].Timestamp+simMonth:
		c.Count("refused_after_start", 1)
	default:
		c.Count("refused_before_start", 1)
	}
	put(at, t)
	if held {
		m := tx("Mint", lo, hi, l)
		put(at, m)
	}
	c.Count(kind, 1)
	describeLog(c, txs)
	newRun(c, rawBytes(rawLog(txs))).mustFail(c, fmt.Sprintf("transaction %d of %d is %s", at, len(txs), what))
	c.Distinct(what, at, len(txs))
}

// c29arguments: a command line that is not understood.
func c29arguments(c *Case) {
	r := newRun(c, rawBytes(rawLog(c29log(c))))
	args := [][]string{{"-n", "abc"}, {"-n", "1.5"}, {"-n", ""}, {"-n"}, {"-n", "99999999999999999999"}, {"-unknown"}, {"-unknown", "1"}}[c.idx%7]
	r.args = append([]string{"-file", r.name}, args...)
	c.Count("arguments", 1)
	r.mustFail(c, fmt.Sprintf("the arguments are %q", args))
	c.Distinct(strings.Join(args, " "))
}
