package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"uniswap-simulator/lib/executor"
	ppool "uniswap-simulator/lib/pool"
	strat "uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"verifharness/ref"
)

func init() {
	checks["C25"] = checkC25
	canary = raceCanary
}

// ---------------------------------------------------------------- detector

// raceReports reads what the race detector wrote to its log.
func raceReports(prefix string) string {
	files, _ := filepath.Glob(prefix + ".*")
	sort.Strings(files)
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil && strings.Contains(string(b), "DATA RACE") {
			out = append(out, string(b))
		}
	}
	return strings.Join(out, "\n")
}

// raceCanary races on purpose, to show that the detector is alive.
func raceCanary() {
	var v int
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				v++
			}
		}()
	}
	wg.Wait()
	fmt.Println("canary", v)
}

// ---------------------------------------------------------------- jittery strategy

// jitter gives up the processor at each call, so that executions interleave.
type jitter struct {
	strat.Strategy
	mu    sync.Mutex
	r     *rand.Rand
	level int
}

func (j *jitter) pause() {
	n := j.r.Intn(8)
	switch {
	case j.level == 0:
	case n < 3:
		runtime.Gosched()
	case n == 3 && j.level > 1:
		time.Sleep(time.Duration(j.r.Intn(200)) * time.Microsecond)
	}
}

func (j *jitter) Init() (*ui.Int, *ui.Int)       { j.pause(); return j.Strategy.Init() }
func (j *jitter) Rebalance() (*ui.Int, *ui.Int)  { j.pause(); return j.Strategy.Rebalance() }
func (j *jitter) BurnAll() (*ui.Int, *ui.Int)    { j.pause(); return j.Strategy.BurnAll() }
func (j *jitter) GetAmounts() (*ui.Int, *ui.Int) { j.pause(); return j.Strategy.GetAmounts() }
func (j *jitter) MakeSnapshot()                  { j.pause(); j.Strategy.MakeSnapshot() }

// ---------------------------------------------------------------- world

// world is everything executions share.
type world struct {
	base *ppool.Pool
	txs  []ent.Transaction
	a0   *ui.Int
	a1   *ui.Int
}

// newWorld is a function of the seed, so that fresh copies share nothing.
func newWorld(c *Case, seed int64) *world {
	k := &Case{Rand: rand.New(rand.NewSource(seed)), ctx: c.ctx, counts: map[string]int64{}}
	base, txs := newLog(k, 8+k.Intn(50))
	n := 0
	if k.Intn(3) != 0 { // the base pool has lived already
		n = k.Intn(len(txs))
	}
	for _, t := range txs[:n] {
		applyTx(base, t)
	}
	txs = txs[n:]
	if k.Intn(3) == 0 { // and holds positions of its own, some with something owed
		at := base.TickCurrent / base.TickSpacing * base.TickSpacing
		for i := 1 + k.Intn(3); i > 0; i-- {
			lo, hi := at-base.TickSpacing*k.Intn(50), at+base.TickSpacing*(1+k.Intn(50))
			if lo < ref.MinTick || hi > ref.MaxTick {
				continue
			}
			amount := toUI(big.NewInt(1 + k.Int63n(1<<40)))
			base.MintStrategy(lo, hi, amount)
			if k.Intn(2) == 0 {
				base.BurnStrategy(lo, hi, toUI(big.NewInt(k.Int63n(fromUI(amount).Int64()))))
			}
			c.Count("base_positions", 1)
		}
	}
	d := &SD{c: k, p: base, sp: base.TickSpacing}
	a0, a1 := d.budget()
	if n > 0 {
		c.Count("populated_base", 1)
	} else {
		c.Count("fresh_base", 1)
	}
	return &world{base: base, txs: txs, a0: toUI(a0), a1: toUI(a1)}
}

// shared prints all that executions must not change.
func (w *world) shared(c *Case) string {
	s := fullView(c, w.base, walkTicks(c, w.base)) + fmt.Sprintf("amounts %v %v\n", fromUI(w.a0), fromUI(w.a1))
	for i, t := range w.txs {
		s += fmt.Sprintf("transaction %d: %s\n", i, txPrint(t))
	}
	return s
}

// job is one execution.
type job struct {
	par   Params
	sch   schedule
	want  string
	got   string
	exec  *executor.Execution
	strat strat.Strategy
}

func outcome(c *Case, e *executor.Execution, p *ppool.Pool) string {
	s := ""
	for i, v := range e.AmountUSDSnapshots {
		s += fmt.Sprintf("value %d: %v\n", i, fromUI(v))
	}
	return s + fullView(c, p, walkTicks(c, p))
}

func (j *job) alone(c *Case, seed int64) (out string, ok bool) {
	w := newWorld(c, seed)
	bad, _ := c.Try(func() {
		s := newStrategy(j.par, w.a0, w.a1, w.base)
		e := executor.CreateExecution(s, j.sch.Start, j.sch.End, j.sch.Update, j.sch.Value, j.sch.Price, w.txs)
		e.Run()
		out = outcome(c, e, s.GetPool())
	})
	return out, !bad
}

func checkC25(x *Ctx) {
	x.rule = "each evaluation is one execution run concurrently with others under the race detector, compared (value series, pool with all ticks and positions) with the same execution alone on fresh inputs, plus the shared inputs, base pool and constants compared before and after; distinct = (strategies present, number of executions, processors, delays, base pool state, construction while others run)"
	logPrefix := os.Getenv("VERIF_RACE_LOG")
	canary := os.Getenv("VERIF_CANARY_LOG")
	self, _ := os.Executable()
	if logPrefix == "" || canary == "" {
		fmt.Println("NO-ANSWER property=C25: run through check.sh")
		os.Exit(2)
	}
	cmd := exec.Command(self, "race-canary")
	cmd.Env = append(os.Environ(), "GORACE=log_path="+canary+" halt_on_error=0 exitcode=0")
	out, err := cmd.CombinedOutput()
	if err != nil || raceReports(canary) == "" {
		fmt.Printf("NO-ANSWER property=C25: the race detector did not report the canary: %v %s\n", err, out)
		os.Exit(2)
	}
	x.mu.Lock()
	x.counts["canary_race_reported"] = 1
	x.mu.Unlock()
	x.Require("canary_race_reported", "fresh_base", "populated_base", "constructed_while_running", "executions", "same_parameters", "different_parameters", "several_processors", "one_processor", "sweeps", "batch_runs_race_built", "base_positions", "ended_early")
	for _, k := range stratKinds {
		x.Require("strategy." + k)
	}
	cpus := runtime.NumCPU()
	before := constants()
	one := func(c *Case, sweep bool) {
		p := []int{cpus, cpus, cpus, 1, 2}[c.Intn(5)]
		runtime.GOMAXPROCS(p)
		c25one(c, p, sweep)
		if g := constants(); g != before {
			c.Fail("constants changed: %s", firstDiff(before, g))
		}
		if r := raceReports(logPrefix); r != "" {
			c.Fail("unsynchronised access between executions:\n%s", cut(r, 6000))
		}
	}
	batch := make(chan struct{})
	go func() {
		x.RunP("batch", x.N(1, 4), 1, c25batch)
		close(batch)
	}()
	x.RunP("sweep", x.N(12, 200), 1, func(c *Case) { one(c, true) })
	x.RunP("mix", x.N(250, 6000), 1, func(c *Case) { one(c, false) })
	runtime.GOMAXPROCS(cpus)
	<-batch
}

func c25one(c *Case, procs int, sweep bool) {
	seed := c.Int63()
	w := newWorld(c, seed)
	first, last := w.txs[0].Timestamp, w.txs[len(w.txs)-1].Timestamp
	span := last - first + 1
	sch := schedule{Start: first + c.Intn(span/2+1), End: 90000000000000}
	if c.Intn(4) == 0 {
		sch.End = first + c.Intn(span)
		c.Count("ended_early", 1)
	}
	iv := func() int { return 1 + c.Intn(span/(1+c.Intn(20))+1) }
	sch.Update, sch.Value, sch.Price = iv(), iv(), iv()
	n := 2 + c.Intn(14)
	if sweep {
		n = 200
		c.Count("sweeps", 1)
	}
	var jobs []*job
	kind := stratKinds[c.Intn(len(stratKinds))]
	same := c.Intn(4)
	if same == 0 || sweep {
		if c.Intn(2) == 0 {
			kind = "BollingerBandsFillUp"
		}
	}
	par := c.stratParams(kind, w.base.TickSpacing)
	c.Op("%d executions, %d processors, schedule %+v, amounts %v %v, %d transactions", n, procs, sch, fromUI(w.a0), fromUI(w.a1), len(w.txs))
	kinds := map[string]bool{}
	tried := 0
	for len(jobs) < n && tried < 3*n {
		tried++
		j := &job{par: par, sch: sch}
		switch {
		case sweep: // as the batch does: one parameter varies
			j.par.Mult = tried
			j.par.A = tried * 7
			j.par.B = tried * w.base.TickSpacing
		case same == 0:
			c.Count("same_parameters", 1)
		default:
			j.par = c.stratParams(stratKinds[c.Intn(len(stratKinds))], w.base.TickSpacing)
			j.sch.Update, j.sch.Value, j.sch.Price = iv(), iv(), iv()
			c.Count("different_parameters", 1)
		}
		var ok bool
		if j.want, ok = j.alone(c, seed); !ok {
			c.Count("out_of_domain", 1)
			continue
		}
		c.Tick()
		kinds[j.par.Kind] = true
		jobs = append(jobs, j)
		if len(c.trace) < 30 {
			c.Op("execution %d: %v every %d/%d/%d", len(jobs)-1, j.par, j.sch.Update, j.sch.Value, j.sch.Price)
		}
	}
	if len(jobs) == 0 {
		return
	}
	if procs > 1 {
		c.Count("several_processors", 1)
	} else {
		c.Count("one_processor", 1)
	}
	before := w.shared(c)
	level := c.Intn(3)
	during := c.Intn(3) != 0 // construct while the others already run, as the batch does
	var wg sync.WaitGroup
	fails := make([]string, len(jobs))
	run := func(i int) {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				fails[i] = fmt.Sprint(r)
			}
		}()
		jobs[i].exec.Run()
	}
	make1 := func(i int) {
		j := jobs[i]
		j.strat = newStrategy(j.par, w.a0, w.a1, w.base)
		js := &jitter{Strategy: j.strat, r: rand.New(rand.NewSource(seed + int64(i))), level: level}
		j.exec = executor.CreateExecution(js, j.sch.Start, j.sch.End, j.sch.Update, j.sch.Value, j.sch.Price, w.txs)
	}
	order := c.Perm(len(jobs))
	if !during {
		for _, i := range order {
			make1(i)
		}
	}
	for _, i := range order {
		if during {
			make1(i)
			c.Count("constructed_while_running", 1)
		}
		wg.Add(1)
		go run(i)
	}
	wg.Wait()
	c.Tick()
	for i, j := range jobs {
		c.Eval(1)
		c.Count("executions", 1)
		c.Count("strategy."+j.par.Kind, 1)
		c.Count("values", int64(len(j.exec.AmountUSDSnapshots)))
		if fails[i] != "" {
			c.Fail("%v crashed only when run with others: %s", j.par, fails[i])
		}
		if g := outcome(c, j.exec, j.strat.GetPool()); g != j.want {
			c.Fail("%v gives another result when run with %d others; with | alone: %s", j.par, len(jobs)-1, firstDiff(g, j.want))
		}
	}
	if g := w.shared(c); g != before {
		c.Fail("shared inputs changed; before | after: %s", firstDiff(before, g))
	}
	if c.Intn(4) == 0 { // alone once more, now that the others have run
		j := jobs[c.Intn(len(jobs))]
		if g, ok := j.alone(c, seed); !ok || g != j.want {
			c.Fail("%v alone gives another result after others ran; after | before: %s", j.par, firstDiff(g, j.want))
		}
		c.Count("alone_again", 1)
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.Distinct(ks, len(jobs), procs, level, during, len(w.base.Positions))
}

// c25batch runs the real program, built with the race detector.
func c25batch(c *Case) {
	bin := os.Getenv("VERIF_SIM_RACE_BIN")
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "batch")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	txs := simLog(c, 5+c.Intn(4), 3+c.Intn(3), 0)
	writeSimData(dir, txs)
	done := make(chan struct{})
	go keepAlive(c, done)
	cmd := exec.Command(bin, "-n", "24", "-file", "r.json")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 exitcode=0")
	out, err := cmd.CombinedOutput()
	close(done)
	c.Op("real batch run over %d transactions", len(txs))
	if err != nil {
		c.Fail("the batch failed under the race detector: %v\n%s", err, cut(string(out), 3000))
	}
	if r := raceReports(filepath.Join(dir, "race")); r != "" {
		c.Fail("unsynchronised access in the batch run:\n%s", cut(r, 6000))
	}
	c.Eval(1)
	c.Count("batch_runs_race_built", 1)
	c.Distinct("batch", len(txs))
}
