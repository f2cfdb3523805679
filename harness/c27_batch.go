package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"uniswap-simulator/lib/executor"
	ppool "uniswap-simulator/lib/pool"
	strat "uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	"verifharness/ref"
)

func init() { checks["C27"] = checkC27 }

// The batch's documented settings.
const (
	simRows    = 65535
	simFee     = 500
	simWindow  = 100
	simHistory = 24 * 60 * 60
	simValue   = 60 * 60
	simMonth   = 30 * 24 * 60 * 60
	simEnd     = 90000000000000
	simStartA  = "2000000"
)

var (
	simPrice, _ = new(big.Int).SetString("1350174849792634181862360983626536", 10)
	simAmount0  = big.NewInt(1000000)
	simAmount1  = big.NewInt(366874042000000)
)

// ---------------------------------------------------------------- data

// simLog is a transaction file for the batch: `before` transactions in the
// month before the start and `after` later ones, `gap` seconds apart on
// average (0: any).
func simLog(c *Case, before, after, gap int) []ent.Transaction {
	base := ppool.NewPool(tok0, tok1, simFee, toUI(simPrice))
	now := 1600000000 + c.Intn(100000000)
	g := newLogGen(c, base, now, 1)
	g.wlo, g.whi = base.TickCurrent-9000, base.TickCurrent+9000
	g.bits = 44 + c.Intn(20) // of every liquidity, so that no row's price runs away
	g.add(g.full(randExact(c.Rand, g.bits)))
	if before > 1 {
		g.gap = simMonth / before
	}
	g.fill(before)
	if after > 0 {
		g.now = now + simMonth + c.Intn(3)*c.Intn(5000)
		if g.txs[len(g.txs)-1].Timestamp > g.now {
			g.now = g.txs[len(g.txs)-1].Timestamp
		}
		g.gap = gap
		if gap == 0 {
			g.gap = []int{60, 1800, 3600, 20000}[c.Intn(4)]
		}
		g.fill(len(g.txs) + after)
	}
	return g.txs
}

// calmLog has a transaction in every interval of the price history, for the
// whole month, so that the history is taken on schedule and not with every
// transaction; the price moves in the last day of it and after the start.
func calmLog(c *Case) []ent.Transaction {
	base := ppool.NewPool(tok0, tok1, simFee, toUI(simPrice))
	now := 1600000000 + c.Intn(100000000)
	start := now + simMonth
	g := newLogGen(c, base, now, 1)
	g.wlo, g.whi = base.TickCurrent-9000, base.TickCurrent+9000
	g.bits = 44 + c.Intn(20) // of every liquidity, so that no row's price runs away
	g.add(g.full(randExact(c.Rand, g.bits)))
	for g.now < start-30*3600 {
		g.now += simHistory/simWindow - c.Intn(64)
		t := newTx("Flash", g.now)
		t.Amount0, t.Amount1 = toUI(randBits(c.Rand, 40)), toUI(randBits(c.Rand, 40))
		g.add(t)
	}
	end := start + (26+c.Intn(10))*3600
	for g.now < end {
		g.gap = 300
		if g.now > start {
			g.gap = 600
		}
		if t, ok := g.next(); ok {
			g.txs = append(g.txs, t)
		}
	}
	return g.txs
}

// naiveVariance is the single-pass formula, whose rounding can be hostile.
func naiveVariance(v []*big.Int) float64 {
	sq, sum, n := 0.0, 0.0, len(v)-1
	for i := 1; i < len(v); i++ {
		r := math.Log(toF(v[i]) / toF(v[i-1]))
		sq += r * r
		sum += r
	}
	return sq/float64(n-1) - sum*sum/float64(n*(n-1))
}

// flatLog makes the value series a geometric one: the price is constant for
// the whole window before the start, so that the band is empty and the budget
// stays uninvested, and then follows the series. All returns are equal, which
// is where a variance cancels to nothing; the series is chosen so that a
// single-pass variance comes out negative.
func flatLog(c *Case) []ent.Transaction {
	var series []*big.Int
	for try := 0; try < 5000; try++ {
		n := 3 + c.Intn(9)
		a, b := int64(1+c.Intn(12)), int64(1+c.Intn(12))
		if a == b {
			continue
		}
		v := big.NewInt(1100000 + int64(c.Intn(3000000)))
		for i := 0; i < n; i++ {
			v.Mul(v, big.NewInt(a))
		}
		series = series[:0]
		ok := true
		for i := 0; i <= n; i++ {
			series = append(series, new(big.Int).Set(v))
			ok = ok && v.Cmp(big.NewInt(1100000)) >= 0 && v.BitLen() < 50
			v.Mul(v, big.NewInt(b))
			v.Quo(v, big.NewInt(a))
		}
		if ok && naiveVariance(series) < 0 {
			c.Count("hostile_variance", 1)
			break
		}
	}
	base := ppool.NewPool(tok0, tok1, simFee, toUI(simPrice))
	g := newLogGen(c, base, 1600000000+c.Intn(100000000), 1)
	g.add(g.full(randExact(c.Rand, 70)))
	to := func(v *big.Int) {
		x := new(big.Int).Sub(v, simAmount0) // the second token's value
		d := new(big.Int).Add(x, x)
		q := new(big.Int).Lsh(simAmount1, 193)
		target := q.Quo(q, d.Add(d, one))
		target.Sqrt(target)
		t := newTx("Swap", g.now)
		zf1 := target.Cmp(fromUI(g.p.SqrtRatioX96)) < 0
		a0, a1 := applyImpl(g.p.Clone(), Op{Kind: "swap", A: pow2(180), ZF1: zf1, Limit: target}, toUI)
		t.Amount0, t.Amount1 = toUI(a0), toUI(a1)
		g.add(t)
	}
	start := g.now + simMonth
	to(series[0])
	for i := 0; i < simWindow+3; i++ {
		g.now += simHistory/simWindow + c.Intn(1000)
		t := newTx("Flash", g.now)
		t.Amount0, t.Amount1 = toUI(randBits(c.Rand, 40)), toUI(randBits(c.Rand, 40))
		g.add(t)
	}
	g.now = start
	for _, v := range series[1:] {
		to(v)
		g.now += simValue + c.Intn(600)
	}
	return g.txs
}

// writeSimData writes the file the batch reads.
func writeSimData(dir string, txs []ent.Transaction) {
	in := make([]ent.TransactionInput, len(txs))
	for i, t := range txs {
		in[i] = ent.TransactionInput{Type: t.Type, ID: t.ID, Timestamp: t.Timestamp, Amount0: fromUIS(t.Amount0).String(), Amount1: fromUIS(t.Amount1).String()}
		switch t.Type {
		case "Mint", "Burn":
			in[i].Amount, in[i].TickLower, in[i].TickUpper = fromUIS(t.Amount).String(), t.TickLower, t.TickUpper
		case "Swap":
			in[i].SqrtPriceX96, in[i].Tick, in[i].UseX96 = fromUI(t.SqrtPriceX96).String(), t.Tick, "false"
		}
	}
	b, err := json.Marshal(in)
	if err == nil {
		err = os.MkdirAll(filepath.Join(dir, "data"), 0o755)
	}
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "data", "transactions_insample.json"), b, 0o644)
	}
	if err != nil {
		panic(err)
	}
}

// runSim runs the program in dir.
func runSim(c *Case, dir string, procs int, args ...string) (out string, err error) {
	done := make(chan struct{})
	go keepAlive(c, done)
	defer close(done)
	ctx, cancel := context.WithTimeout(context.Background(), 7*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_SIM_BIN"), args...)
	cmd.Dir = dir
	if procs > 0 {
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs))
	}
	b, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		// The longest run needs some 150 s of processor time. A run that got
		// much more does not end; one that got less was starved: no verdict.
		if used := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime(); used > 390*time.Second {
			c.Fail("the batch did not finish within 7 minutes and %v of processor time", used)
		}
		fmt.Printf("INCONCLUSIVE property=%s: the batch did not get enough processor time\n", c.ctx.Prop)
		os.Exit(2)
	}
	return string(b), err
}

// ---------------------------------------------------------------- independent replay

// refBatch replays one parameter on the reference pool: the Bollinger band
// strategy that fills up, on the batch's schedule.
type refBatch struct {
	p      *ref.Pool
	b0, b1 *big.Int
	hist   []*big.Int
	mult   int
	pos    []span
	fills  int
}

func (r *refBatch) mint(lo, hi int) {
	if lo >= hi || lo < ref.MinTick || hi > ref.MaxTick {
		return
	}
	l, err := ref.LiquidityForAmounts(r.p.P, ref.SqrtAt(lo), ref.SqrtAt(hi), r.b0, r.b1)
	must(err)
	if l.Sign() == 0 {
		return
	}
	a0, a1, err := r.p.Mint(lo, hi, l)
	must(err)
	r.b0.Sub(r.b0, a0)
	r.b1.Sub(r.b1, a1)
	r.pos = append(r.pos, span{lo, hi, l})
}

func (r *refBatch) open(first bool) {
	w := window(r.hist, simWindow)
	mid := meanOf(w)
	half := new(big.Int).Mul(volatilityOf(w), big.NewInt(int64(r.mult)))
	half.Rsh(half, 10)
	lo, hi := band(mid.Sqrt(mid), half.Sqrt(half))
	r.mint(lo, hi)
	if t := r.p.Tick; !first && lo <= t && t <= hi {
		sp := ref.Spacings[simFee]
		if r.b0.Sign() != 0 {
			lo = ceilTo(t, sp)
		} else if r.b1.Sign() != 0 {
			hi = floorTo(t, sp)
		} else {
			return
		}
		r.fills++
		r.mint(lo, hi)
	}
}

func (r *refBatch) liquidate() {
	for _, s := range r.pos {
		_, _, err := r.p.Burn(s.Lo, s.Hi, s.L)
		must(err)
		a0, a1, err := r.p.Collect(s.Lo, s.Hi)
		must(err)
		r.b0.Add(r.b0, a0)
		r.b1.Add(r.b1, a1)
	}
	r.pos = nil
}

// value is what the strategy is worth in the first token.
func (r *refBatch) value() *big.Int {
	a0, a1 := new(big.Int).Set(r.b0), new(big.Int).Set(r.b1)
	for _, s := range r.pos {
		x, y, err := ref.AmountsForLiquidity(r.p.P, ref.SqrtAt(s.Lo), ref.SqrtAt(s.Hi), s.L)
		must(err)
		a0.Add(a0, x)
		a1.Add(a1, y)
	}
	return valueOf(a0, a1, r.p.P)
}

func refReplay(txs []ent.Transaction, mult, hours int) (vals []*big.Int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	p, err := ref.NewPool(simFee, simPrice)
	must(err)
	r := &refBatch{p: p, b0: new(big.Int).Set(simAmount0), b1: new(big.Int).Set(simAmount1), mult: mult}
	startTime := txs[0].Timestamp + simMonth
	started, nextU, nextV, nextP := false, 0, 0, txs[0].Timestamp
	for _, t := range txs {
		ts := t.Timestamp
		if !started && ts >= startTime {
			started, nextU, nextV = true, ts+hours*3600, ts+simValue
			vals = append(vals, r.value())
			r.open(true)
		}
		if ts >= nextP {
			r.hist = append(r.hist, new(big.Int).Set(r.p.P))
			nextP += simHistory / simWindow
		}
		if started && ts >= nextV {
			vals = append(vals, r.value())
			nextV += simValue
		}
		if started && ts >= nextU {
			r.liquidate()
			r.open(false)
			nextU += hours * 3600
		}
		switch t.Type {
		case "Mint":
			must(r.p.PlainMint(t.TickLower, t.TickUpper, fromUI(t.Amount)))
		case "Burn":
			must(r.p.PlainBurn(t.TickLower, t.TickUpper, fromUI(t.Amount)))
		case "Flash":
			_, _, err := r.p.Flash(fromUI(t.Amount0), fromUI(t.Amount1))
			must(err)
		case "Swap":
			a0, a1 := fromUIS(t.Amount0), fromUIS(t.Amount1)
			if a0.Sign() > 0 {
				_, _, err = r.p.Swap(true, a0, addI(ref.MinSP, 1))
			} else if a1.Sign() > 0 {
				_, _, err = r.p.Swap(false, a1, addI(ref.MaxSP, -1))
			}
			must(err)
		}
	}
	r.liquidate()
	return append(vals, r.value()), nil
}

// implReplay runs one parameter alone, on inputs of its own.
func implReplay(txs []ent.Transaction, mult, hours int) []*big.Int {
	own := make([]ent.Transaction, len(txs))
	for i, t := range txs {
		own[i] = t
		own[i].Amount, own[i].Amount0, own[i].Amount1, own[i].SqrtPriceX96 = t.Amount.Clone(), t.Amount0.Clone(), t.Amount1.Clone(), t.SqrtPriceX96.Clone()
	}
	pool := ppool.NewPool(tok0, tok1, simFee, toUI(simPrice))
	s := strat.NewBollingerBandsFillUpStrategy(toUI(simAmount0), toUI(simAmount1), pool, simWindow, mult)
	e := executor.CreateExecution(s, txs[0].Timestamp+simMonth, simEnd, hours*3600, simValue, simHistory/simWindow, own)
	e.Run()
	out := make([]*big.Int, len(e.AmountUSDSnapshots))
	for i, v := range e.AmountUSDSnapshots {
		out[i] = fromUI(v)
	}
	return out
}

// ---------------------------------------------------------------- statistics

// stats of a value series, by definition.
type stats struct {
	roi, drawdown           float64
	std, dd, vr             [3]float64
	varTol                  [3]float64 // tolerance of the variance
	series, rising, falling int
}

func toF(x *big.Int) float64 { f, _ := new(big.Float).SetInt(x).Float64(); return f }

func statsOf(vals []*big.Int) (s stats) {
	f := make([]float64, len(vals))
	for i, v := range vals {
		f[i] = toF(v)
	}
	n := len(f)
	s.roi = (f[n-1] - f[0]) / f[0]
	peak := f[0]
	for _, v := range f {
		if v > peak {
			peak = v
		}
		if d := v/peak - 1; d < s.drawdown {
			s.drawdown = d
		}
	}
	for k, every := range []int{1, 24, 168} {
		var p, r []float64
		for i := 0; i < n; i += every {
			p = append(p, f[i])
		}
		if len(p) <= 2 {
			continue
		}
		s.series++
		for i := 1; i < len(p); i++ {
			r = append(r, math.Log(p[i])-math.Log(p[i-1]))
			if p[i] < p[i-1] {
				s.falling++
			}
			if p[i] > p[i-1] {
				s.rising++
			}
		}
		mean, sq, down := 0.0, 0.0, 0.0
		for _, v := range r {
			mean += v
			sq += v * v
			if v < 0 {
				down += v * v
			}
		}
		m := float64(len(r))
		mean /= m
		dev := 0.0
		for _, v := range r {
			dev += (v - mean) * (v - mean)
		}
		s.std[k] = math.Sqrt(dev / (m - 1))
		s.dd[k] = math.Sqrt(down / m)
		s.varTol[k] = 1e-11*sq/m + 1e-24
		sort.Float64s(r)
		s.vr[k] = r[len(r)/20]
	}
	return
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-11+1e-9*math.Abs(b)
}

// simRow and simReport are the documented report format.
type simRow struct {
	UpdateInterval *int     `json:"update_interval"`
	Mult           *int     `json:"multiplierX10"`
	Window         *int     `json:"history_window"`
	Return         *float64 `json:"return_on_investment"`
	End            *string  `json:"end_amount"`
	Drawdown       *float64 `json:"max_draw_down"`
	StdH           *float64 `json:"standard_deviation_hourly"`
	StdD           *float64 `json:"standard_deviation_daily"`
	StdW           *float64 `json:"standard_deviation_weekly"`
	DownH          *float64 `json:"downward_deviation_hourly"`
	DownD          *float64 `json:"downward_deviation_daily"`
	DownW          *float64 `json:"downward_deviation_weekly"`
	VarH           *float64 `json:"VaR95_hourly"`
	VarD           *float64 `json:"VaR95_daily"`
	VarW           *float64 `json:"VaR95_weekly"`
}

type simReport struct {
	StartAmount *string  `json:"start_amount"`
	StartTime   *int     `json:"start_time"`
	EndTime     *int     `json:"end_time"`
	Results     []simRow `json:"results"`
}

func (r *simRow) nums() map[string]*float64 {
	return map[string]*float64{"return_on_investment": r.Return, "max_draw_down": r.Drawdown,
		"standard_deviation_hourly": r.StdH, "standard_deviation_daily": r.StdD, "standard_deviation_weekly": r.StdW,
		"downward_deviation_hourly": r.DownH, "downward_deviation_daily": r.DownD, "downward_deviation_weekly": r.DownW,
		"VaR95_hourly": r.VarH, "VaR95_daily": r.VarD, "VaR95_weekly": r.VarW}
}

// compare tells how a row differs from the series' statistics.
func (r *simRow) compare(vals []*big.Int) string {
	s := statsOf(vals)
	if *r.End != vals[len(vals)-1].String() {
		return fmt.Sprintf("end amount %s, expected %v", *r.End, vals[len(vals)-1])
	}
	want := map[string]float64{"return_on_investment": s.roi, "max_draw_down": s.drawdown,
		"downward_deviation_hourly": s.dd[0], "downward_deviation_daily": s.dd[1], "downward_deviation_weekly": s.dd[2],
		"VaR95_hourly": s.vr[0], "VaR95_daily": s.vr[1], "VaR95_weekly": s.vr[2]}
	got := r.nums()
	for k, w := range want {
		if !near(*got[k], w) {
			return fmt.Sprintf("%s %v, expected %v (%d values)", k, *got[k], w, len(vals))
		}
	}
	for k, name := range []string{"standard_deviation_hourly", "standard_deviation_daily", "standard_deviation_weekly"} {
		g := *got[name]
		if g < 0 || math.Abs(g*g-s.std[k]*s.std[k]) > s.varTol[k] {
			return fmt.Sprintf("%s %v, expected %v (%d values)", name, g, s.std[k], len(vals))
		}
	}
	return ""
}

// readReport decodes a report and checks everything that needs no replay.
func readReport(c *Case, path string, txs []ent.Transaction, hours int) *simReport {
	b, err := os.ReadFile(path)
	if err != nil {
		c.Fail("the batch succeeded without a report: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	rep := &simReport{}
	if err := dec.Decode(rep); err != nil {
		c.Fail("the report is not valid JSON: %v", err)
	}
	if dec.More() {
		c.Fail("the report is followed by something else")
	}
	if rep.StartAmount == nil || rep.StartTime == nil || rep.EndTime == nil {
		c.Fail("the report lacks its header")
	}
	first, last := txs[0].Timestamp, txs[len(txs)-1].Timestamp
	if *rep.StartTime != first || *rep.EndTime != last {
		c.Fail("the report covers %d to %d, the data %d to %d", *rep.StartTime, *rep.EndTime, first, last)
	}
	if *rep.StartAmount != simStartA {
		c.Fail("the report's start amount is %s", *rep.StartAmount)
	}
	if len(rep.Results) != simRows {
		c.Fail("the report has %d rows, expected %d", len(rep.Results), simRows)
	}
	for i := range rep.Results {
		r := &rep.Results[i]
		if r.Mult == nil || r.UpdateInterval == nil || r.Window == nil || r.End == nil {
			c.Fail("row %d lacks fields", i)
		}
		if *r.Mult != i+1 {
			c.Fail("row %d is for parameter %d, expected %d", i, *r.Mult, i+1)
		}
		if *r.UpdateInterval != hours*3600 || *r.Window != simHistory {
			c.Fail("row %d has update interval %d and history window %d", i, *r.UpdateInterval, *r.Window)
		}
		if e, ok := new(big.Int).SetString(*r.End, 10); !ok || e.Sign() < 0 {
			c.Fail("row %d has end amount %q", i, *r.End)
		}
		for k, v := range r.nums() {
			if v == nil || math.IsNaN(*v) || math.IsInf(*v, 0) {
				c.Fail("row %d has no finite %s", i, k)
			}
		}
	}
	c.Count("rows_identified", simRows)
	return rep
}

// parallel runs f(0..n-1) on all cores and reports the first failure.
func parallel(c *Case, n int, f func(i int) string) {
	var next int64 = -1
	var wg sync.WaitGroup
	fails := make([]string, n)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							fails[i] = fmt.Sprintf("replay crashed: %v", r)
						}
					}()
					fails[i] = f(i)
				}()
				c.Tick()
			}
		}()
	}
	wg.Wait()
	for i, s := range fails {
		if s != "" {
			c.Fail("item %d: %s", i, s)
		}
	}
}

func checkC27(x *Ctx) {
	x.rule = "each evaluation is one report row of the real program compared with an independent replay of its parameter (all rows: in-process execution on fresh inputs and the statistics' definitions; sampled rows: the big-integer reference pool and strategy); every row's identity, settings and finiteness are checked; distinct = distinct (value series, parameter band)"
	if os.Getenv("VERIF_SIM_BIN") == "" {
		fmt.Println("NO-ANSWER property=C27: run through check.sh")
		os.Exit(2)
	}
	x.Require("rows_identified", "rows_replayed", "rows_reference", "never_started", "weekly_statistics", "var_beyond_minimum", "fills", "hostile_variance", "failures_reported", "replaced_report", "gomaxprocs", "falling", "rising", "default_flags", "one_value", "two_values", "two_daily_values", "dense_logs")
	// Running several programs at once is part of the workload.
	var wg sync.WaitGroup
	run := func(group string, n, workers int, f func(c *Case)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.RunP(group, n, workers, f)
		}()
	}
	run("long", x.N(1, 6), 1, func(c *Case) { c27run(c, true) })
	run("small", x.N(6, 56), 2, func(c *Case) { c27run(c, false) })
	run("failure", x.N(4, 8), 2, c27failure)
	if os.Getenv("VERIF_PROBE_BIN") != "" {
		x.Require("probe_series", "probe_weekly", "probe_multiple_of_20", "probe_last_completes_day", "probe_near_total_loss")
		run("statistics", x.N(40, 1500), 2, c27probe)
	} else {
		fmt.Println("NOTE property=C27: the statistics are observed through whole batches only")
	}
	wg.Wait()
}

func simDir() string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "sim")
	if err != nil {
		panic(err)
	}
	return dir
}

func c27run(c *Case, long bool) {
	dir := simDir()
	defer os.RemoveAll(dir)
	var txs []ent.Transaction
	dense := false
	hours := []int{1, 2, 5, 24, 24, 168, 720}[c.Intn(7)]
	switch {
	case long:
		hours = []int{12, 24, 24}[c.Intn(3)]
		n := 345 // enough for weekly statistics
		if c.ctx.Tier == "thorough" {
			n = 560
		}
		for try := 0; try < 20; try++ {
			txs = simLog(c, 60+c.Intn(60), n, 3600)
			if len(implReplay(txs, 1, hours)) > 2*168 {
				break
			}
			n += 5
		}
	case c.idx == 0 && c.Intn(2) == 0: // a single transaction
		txs = simLog(c, 1, 0, 0)
	case c.idx == 0: // the data ends before the start time
		txs = simLog(c, 2+c.Intn(8), 0, 0)
		for txs[len(txs)-1].Timestamp >= txs[0].Timestamp+simMonth {
			txs = txs[:len(txs)-1]
		}
	case c.idx == 1: // a first and a last value, one return
		for try := 0; try < 50; try++ {
			txs = simLog(c, 1+c.Intn(4), 1, 0)
			if len(implReplay(txs, 1, hours)) == 2 {
				break
			}
		}
	case c.idx == 3 || c.idx > 6 && c.Intn(8) == 0:
		// Many transactions an hour, for long enough that intervals which are
		// a little off miss one.
		hours = []int{1, 2, 5}[c.Intn(3)]
		dense = true
		for try := 0; try < 50; try++ {
			txs = simLog(c, 4+c.Intn(12), 150+c.Intn(50), 400+c.Intn(300))
			if n := len(implReplay(txs, 1, hours)); n > 18 {
				c.Count("dense_logs", 1)
				break
			}
		}
	case c.idx == 5 || c.idx > 6 && c.Intn(8) == 0: // two daily values
		hours = 24
		dense = true
		for try := 0; try < 50; try++ {
			txs = calmLog(c)
			if n := len(implReplay(txs, 1, hours)); n > 24 && n <= 48 {
				break
			}
		}
	case c.idx == 2 || c.idx > 6 && c.Intn(8) == 0:
		hours = 168
		txs = flatLog(c)
	default:
		txs = simLog(c, 3+c.Intn(20), 2+c.Intn(14), 0)
	}
	describeLog(c, txs)
	writeSimData(dir, txs)
	name := []string{"report.json", "1_day.json", "a b.json", "x"}[c.Intn(4)]
	if c.idx%2 == 1 { // an older, longer report is replaced
		os.Mkdir(filepath.Join(dir, "results"), 0o755)
		junk := bytes.Repeat([]byte("[{\"old\": 1}]\n"), 4<<20)
		if err := os.WriteFile(filepath.Join(dir, "results", name), junk, 0o644); err != nil {
			panic(err)
		}
		c.Count("replaced_report", 1)
	}
	procs := []int{0, 0, 1, 3, 16}[(c.idx+c.Intn(3))%5]
	if procs > 0 && !long {
		c.Count("gomaxprocs", 1)
	} else {
		procs = 0
	}
	var args []string
	if !long && !dense && c.idx%3 == 0 {
		c.Count("default_flags", 1)
		name, hours = "1_day.json", 24
		if c.Intn(2) == 0 {
			name = "report.json"
			args = []string{"-file", name}
		}
	} else {
		args = []string{"-n", fmt.Sprint(hours), "-file", name}
	}
	c.Op("batch %v, GOMAXPROCS %d", args, procs)
	if out, err := runSim(c, dir, procs, args...); err != nil {
		c.Fail("the batch failed: %v\n%s", err, cut(out, 3000))
	}
	rep := readReport(c, filepath.Join(dir, "results", name), txs, hours)
	if txs[len(txs)-1].Timestamp < txs[0].Timestamp+simMonth {
		c.Count("never_started", 1)
	}
	rows := make([]int, simRows)
	for i := range rows {
		rows[i] = i
	}
	if (long || dense) && c.ctx.Tier == "quick" {
		rows = sampleRows(c, 1500)
	}
	prints := make([]string, len(rows))
	parallel(c, len(rows), func(k int) string {
		i := rows[k]
		vals := implReplay(txs, i+1, hours)
		prints[k] = fmt.Sprint(vals)
		if d := rep.Results[i].compare(vals); d != "" {
			return fmt.Sprintf("parameter %d: %s", i+1, d)
		}
		return ""
	})
	c.Eval(int64(len(rows)))
	c.Count("rows_replayed", int64(len(rows)))
	seen := map[string]bool{}
	for _, p := range prints {
		if !seen[p] {
			seen[p] = true
			c.Distinct(p)
		}
	}
	c.Count("distinct_series", int64(len(seen)))
	vals := implReplay(txs, 1, hours)
	switch len(vals) {
	case 1:
		c.Count("one_value", 1)
	case 2:
		c.Count("two_values", 1)
	default:
		if len(vals) > 24 && len(vals) <= 48 {
			c.Count("two_daily_values", 1)
		}
	}
	if s := statsOf(vals); true {
		c.Count("falling", int64(s.falling))
		c.Count("rising", int64(s.rising))
		if s.series == 3 {
			c.Count("weekly_statistics", 1)
		}
		if s.series > 1 {
			c.Count("var_beyond_minimum", 1)
		}
	}
	refs := sampleRows(c, map[bool]int{true: 60, false: 300}[long])
	var fills, skipped int64
	parallel(c, len(refs), func(k int) string {
		i := refs[k]
		vals, err := refReplay(txs, i+1, hours)
		if err != nil {
			atomic.AddInt64(&skipped, 1)
			return ""
		}
		if len(vals) > 3 {
			atomic.AddInt64(&fills, 1)
		}
		if d := rep.Results[i].compare(vals); d != "" {
			return fmt.Sprintf("parameter %d against the reference: %s", i+1, d)
		}
		return ""
	})
	c.Eval(int64(len(refs)))
	c.Count("rows_reference", int64(len(refs))-skipped)
	c.Count("reference_out_of_domain", skipped)
	c.Count("fills", fills)
}

// sampleRows draws row numbers, batch and power-of-two edges included.
func sampleRows(c *Case, n int) []int {
	set := map[int]bool{0: true, 1: true, simRows - 1: true, simRows - 2: true}
	for i := 5000; i < simRows && len(set) < n; i += 5000 {
		set[i-1], set[i] = true, true
	}
	for i := 2; i < simRows && len(set) < n; i *= 2 {
		set[i-1] = true
	}
	for len(set) < n {
		if c.Intn(3) == 0 {
			set[c.Intn(2000)] = true
		} else {
			set[c.Intn(simRows)] = true
		}
	}
	out := make([]int, 0, len(set))
	for i := range set {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

// c27failure: a report that cannot be written is a failure.
func c27failure(c *Case) {
	dir := simDir()
	defer os.RemoveAll(dir)
	txs := simLog(c, 3, 3, 0)
	writeSimData(dir, txs)
	res := filepath.Join(dir, "results")
	what := ""
	var err error
	switch c.idx % 4 {
	case 0:
		what = "the results directory is a file"
		err = os.WriteFile(res, []byte("x"), 0o644)
	case 1:
		what = "the report's name is a directory"
		err = os.MkdirAll(filepath.Join(res, "r.json"), 0o755)
	case 2:
		what = "the report goes to a full device"
		if err = os.Mkdir(res, 0o755); err == nil {
			err = os.Symlink("/dev/full", filepath.Join(res, "r.json"))
		}
	case 3:
		what = "there is no data"
		err = os.RemoveAll(filepath.Join(dir, "data"))
	}
	if err != nil {
		panic(err)
	}
	c.Op("batch where %s", what)
	out, err := runSim(c, dir, 0, "-n", "24", "-file", "r.json")
	c.Eval(1)
	if err == nil {
		c.Fail("the batch reports success although %s; output:\n%s", what, cut(out, 2000))
	}
	if _, ok := err.(*exec.ExitError); !ok {
		panic(err)
	}
	c.Count("failures_reported", 1)
	c.Distinct(what)
}

// probeSeries is a value series that stresses the statistics' definitions.
func probeSeries(c *Case) []*big.Int {
	n := 2 + c.Intn(60)
	switch c.Intn(8) {
	case 0: // around a multiple of twenty returns
		n = 20*(1+c.Intn(6)) + c.Intn(3)
	case 1: // around whole days
		n = 24*(1+c.Intn(25)) + c.Intn(3)
	case 2:
		n = 24*20*(1+c.Intn(2)) + c.Intn(3)
	case 3: // around whole weeks
		n = 168*(1+c.Intn(5)) + c.Intn(3)
	case 4:
		if c.Intn(4) == 0 {
			n = 168*20 + c.Intn(3)
		}
	}
	v := make([]*big.Int, n)
	v[0] = addI(randExact(c.Rand, 1+c.Intn(60)), 1000)
	if c.Intn(6) == 0 {
		v[0] = randExact(c.Rand, 1+c.Intn(200))
	}
	kind := c.Intn(7)
	num, den := int64(1+c.Intn(2000)), int64(1000)
	for i := 1; i < n; i++ {
		x := new(big.Int).Set(v[i-1])
		switch kind {
		case 0: // flat
		case 1: // geometric
			x.Quo(x.Mul(x, big.NewInt(num)), big.NewInt(den))
		case 2: // falling in steps
			if c.Intn(4) == 0 {
				x.Quo(x.Mul(x, big.NewInt(int64(900+c.Intn(100)))), big.NewInt(1000))
			}
		case 3: // rising
			x.Quo(x.Mul(x, big.NewInt(int64(1000+c.Intn(50)))), big.NewInt(1000))
		case 4: // mostly flat, some jumps
			if c.Intn(10) == 0 {
				x = randExact(c.Rand, 1+c.Intn(60))
			}
		default: // random walk
			x.Quo(x.Mul(x, big.NewInt(int64(950+c.Intn(102)))), big.NewInt(1000))
		}
		if x.BitLen() > 240 {
			x = randExact(c.Rand, 20)
		}
		if x.Sign() <= 0 {
			x.SetInt64(1)
		}
		v[i] = x
	}
	switch c.Intn(8) {
	case 0: // almost everything is lost at the end
		v[n-1] = big.NewInt(int64(1 + c.Intn(30)))
	case 1: // a late recovery
		v[n-1] = new(big.Int).Lsh(v[0], uint(c.Intn(4)))
	}
	return v
}

// c27probe feeds value series to the program's own statistics.
func c27probe(c *Case) {
	done := make(chan struct{})
	go keepAlive(c, done)
	defer close(done)
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	var all [][]*big.Int
	for i := 0; i < 60; i++ {
		v := probeSeries(c)
		all = append(all, v)
		s := make([]string, len(v))
		for j := range v {
			s[j] = v[j].String()
		}
		enc.Encode(s)
	}
	cmd := exec.Command(os.Getenv("VERIF_PROBE_BIN"))
	cmd.Env = append(os.Environ(), "VERIF_PROBE=1")
	cmd.Dir = os.Getenv("VERIF_TMP")
	cmd.Stdin = &in
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	out, err := cmd.Output()
	dec := json.NewDecoder(bytes.NewReader(out))
	for k, v := range all {
		var ans struct {
			Values []string
			Row    *simRow
			Error  string
		}
		if e := dec.Decode(&ans); e != nil {
			c.Fail("the statistics of %s (%d values) ended the program: %v %s", cut(fmt.Sprint(v), 1500), len(v), err, cut(errOut.String(), 1500))
		}
		if len(c.trace) < 40 {
			c.Op("series %d: %d values %s", k, len(v), cut(fmt.Sprint(v), 200))
		}
		if ans.Error != "" {
			c.Fail("the statistics of %s: %s", cut(fmt.Sprint(v), 3000), ans.Error)
		}
		if fmt.Sprint(ans.Values) != fmt.Sprint(v) {
			c.Count("probe_other_series", 1)
		}
		got := make([]*big.Int, len(ans.Values))
		for i, s := range ans.Values {
			got[i], _ = new(big.Int).SetString(s, 10)
		}
		for name, x := range ans.Row.nums() {
			if x == nil || math.IsNaN(*x) || math.IsInf(*x, 0) {
				c.Fail("no finite %s for %s", name, cut(fmt.Sprint(v), 3000))
			}
		}
		if ans.Row.End == nil {
			c.Fail("no end amount for %s", cut(fmt.Sprint(v), 3000))
		}
		if d := ans.Row.compare(got); d != "" {
			c.Fail("%s; series %s", d, cut(fmt.Sprint(got), 6000))
		}
		n := len(got)
		c.Eval(1)
		c.Count("probe_series", 1)
		if n > 336 {
			c.Count("probe_weekly", 1)
		}
		if n > 20 && n%20 == 1 {
			c.Count("probe_multiple_of_20", 1)
		}
		if n > 48 && n%24 == 1 {
			c.Count("probe_last_completes_day", 1)
		}
		if *ans.Row.Return < -0.9999 {
			c.Count("probe_near_total_loss", 1)
		}
		c.Distinct("series", n)
	}
}
