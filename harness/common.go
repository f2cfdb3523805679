package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	ui "uniswap-simulator/uint256"
)

// ---------------------------------------------------------------- numbers

func toUI(b *big.Int) *ui.Int {
	x := b
	if x.Sign() < 0 || x.BitLen() > 256 {
		x = new(big.Int).Mod(x, q256)
	}
	var z ui.Int
	var buf [32]byte
	x.FillBytes(buf[:])
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			z[i] |= uint64(buf[31-8*i-j]) << uint(8*j)
		}
	}
	return &z
}

func fromUI(z *ui.Int) *big.Int {
	if z == nil {
		return nil
	}
	var buf [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			buf[31-8*i-j] = byte(z[i] >> uint(8*j))
		}
	}
	return new(big.Int).SetBytes(buf[:])
}

// fromUIS reads two's complement.
func fromUIS(z *ui.Int) *big.Int {
	b := fromUI(z)
	if b.Bit(255) == 1 {
		b.Sub(b, q256)
	}
	return b
}

var (
	q256 = new(big.Int).Lsh(big.NewInt(1), 256)
	one  = big.NewInt(1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

func addI(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }

// randBits draws a value of a random bit length up to n, with structure.
func randBits(r *rand.Rand, n int) *big.Int {
	l := r.Intn(n + 1)
	if l == 0 {
		return new(big.Int)
	}
	x := randExact(r, l)
	switch r.Intn(8) {
	case 0: // 2^k
		x = pow2(uint(l - 1))
	case 1: // 2^k - 1
		x = new(big.Int).Sub(pow2(uint(l)), one)
	case 2: // 2^k + small
		x = new(big.Int).Add(pow2(uint(l-1)), big.NewInt(int64(r.Intn(4))))
		if x.BitLen() > n {
			x = pow2(uint(l - 1))
		}
	}
	return x
}

// randExact draws a value of exactly l bits (l >= 1).
func randExact(r *rand.Rand, l int) *big.Int {
	b := make([]byte, (l+7)/8)
	r.Read(b)
	x := new(big.Int).SetBytes(b)
	x.Rsh(x, uint(len(b)*8-l))
	x.SetBit(x, l-1, 1)
	return x
}

// randBelow draws uniformly from [0, n).
func randBelow(r *rand.Rand, n *big.Int) *big.Int {
	if n.Sign() <= 0 {
		return new(big.Int)
	}
	return new(big.Int).Rand(r, n)
}

// ---------------------------------------------------------------- run context

type violation struct{ msg string }

// Ctx is one run of one check.
type Ctx struct {
	Prop, Tier string
	Seed       int64
	Dir        string // /verif
	Only       string // replay: run only this group/case
	Scale      float64
	start      time.Time

	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	evals    int64
	samples  []interface{}
	viol     *violRec
	nviol    int64
	known    map[string]string // id -> detail, listed
	hit      map[string]string // known findings met in this run
	required []string
	rule     string
	extra    map[string]interface{}
	stop     int32
	exhaust  bool
}

type violRec struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Case     string   `json:"case"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Stack    string   `json:"stack,omitempty"`
	order    int
}

// Case is one generated case.
type Case struct {
	*rand.Rand
	ctx    *Ctx
	ID     string
	idx    int
	trace  []string
	counts map[string]int64
	dist   []uint64
	evals  int64
	slot   *slot
	phase  string
	recent map[string][]*ui.Int
}

type slot struct {
	ops    int64 // progress counter
	active int32
	what   atomic.Value
}

// Op records one step of the case (kept for the replay file) as progress.
func (c *Case) Op(format string, a ...interface{}) {
	c.trace = append(c.trace, fmt.Sprintf(format, a...))
	if c.slot != nil {
		atomic.AddInt64(&c.slot.ops, 1)
		c.slot.what.Store(c.ID)
	}
}

// Tick records progress without a trace line.
func (c *Case) Tick() {
	if c.slot != nil {
		atomic.AddInt64(&c.slot.ops, 1)
	}
}

func (c *Case) Count(k string, n int64) { c.counts[k] += n }

// Eval counts one oracle evaluation.
func (c *Case) Eval(n int64) { c.evals += n }

// Distinct notes a distinct non-trivial situation by fingerprint.
func (c *Case) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.dist = append(c.dist, h.Sum64())
}

// Fail reports a violation and ends the case.
func (c *Case) Fail(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Known reports a violation that may be listed in the known findings; it
// returns if so, and fails the case otherwise.
func (c *Case) Known(id, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	c.ctx.mu.Lock()
	_, ok := c.ctx.known[id]
	if ok {
		if _, seen := c.ctx.hit[id]; !seen {
			c.ctx.hit[id] = msg
		}
	}
	c.ctx.mu.Unlock()
	if !ok {
		panic(violation{id + ": " + msg})
	}
	c.Count("known_finding:"+id, 1)
}

// Try runs f and tells whether it panicked.
func (c *Case) Try(f func()) (bad bool, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			bad, val = true, r
		}
	}()
	f()
	return
}

func caseSeed(seed int64, prop, id string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", seed, prop, id)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// N scales a quick case count by tier.
func (x *Ctx) N(quick, thorough int) int {
	n := quick
	if x.Tier == "thorough" {
		n = thorough
	}
	n = int(float64(n) * x.Scale)
	if n < 1 {
		n = 1
	}
	return n
}

// Run executes n cases of a group on all cores.
func (x *Ctx) Run(group string, n int, f func(c *Case)) { x.RunP(group, n, runtime.GOMAXPROCS(0), f) }

// RunP is Run with a given number of workers.
func (x *Ctx) RunP(group string, n, workers int, f func(c *Case)) {
	if x.Only != "" && !strings.HasPrefix(x.Only, group+"/") {
		return
	}
	if atomic.LoadInt32(&x.stop) != 0 {
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	slots := make([]*slot, workers)
	done := make(chan struct{})
	for w := 0; w < workers; w++ {
		slots[w] = &slot{}
		slots[w].what.Store("")
	}
	go x.watch(slots, done)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(s *slot) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt32(&x.stop) != 0 {
					return
				}
				id := group + "/" + strconv.Itoa(i)
				if x.Only != "" && x.Only != id {
					continue
				}
				c := &Case{Rand: rand.New(rand.NewSource(caseSeed(x.Seed, x.Prop, id))), ctx: x, ID: id, idx: i,
					counts: map[string]int64{}, slot: s}
				atomic.StoreInt32(&s.active, 1)
				x.one(c, f)
				atomic.StoreInt32(&s.active, 0)
			}
		}(slots[w])
	}
	wg.Wait()
	close(done)
}

func (x *Ctx) one(c *Case, f func(c *Case)) {
	c.slot.what.Store(c.ID)
	var rec *violRec
	func() {
		defer func() {
			if r := recover(); r != nil {
				rec = &violRec{Property: x.Prop, Tier: x.Tier, Seed: x.Seed, Case: c.ID, order: c.idx}
				if v, ok := r.(violation); ok {
					rec.Message = v.msg
				} else {
					rec.Message = fmt.Sprintf("unexpected panic: %v", r)
					rec.Stack = string(debug.Stack())
				}
				rec.Trace = c.trace
			}
		}()
		f(c)
	}()
	x.mu.Lock()
	defer x.mu.Unlock()
	for k, v := range c.counts {
		x.counts[k] += v
	}
	for _, d := range c.dist {
		x.distinct[d] = struct{}{}
	}
	x.counts["cases"]++
	x.evals += c.evals
	if len(x.samples) < 3 && c.idx < 40 && len(c.trace) > 0 {
		t := c.trace
		if len(t) > 12 {
			t = append(append([]string{}, t[:12]...), fmt.Sprintf("... %d more steps", len(t)-12))
		}
		x.samples = append(x.samples, map[string]interface{}{"case": c.ID, "steps": t})
	}
	if rec != nil {
		x.nviol++
		if x.viol == nil {
			x.viol = rec
		}
		atomic.StoreInt32(&x.stop, 1)
	}
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// hangBudget is the processor time (per active worker) an operation may take
// without completing before it is reported as not terminating. The longest
// legitimate operation takes a few milliseconds.
var hangBudget = 25 * time.Second

// watch reports an operation that makes no progress. It counts the processor
// time of this process, not wall-clock time.
func (x *Ctx) watch(slots []*slot, done chan struct{}) {
	last := make([]int64, len(slots))
	since := make([]time.Duration, len(slots))
	prev := cpuNow()
	for {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			var what []string
			for _, s := range slots {
				if atomic.LoadInt32(&s.active) != 0 {
					what = append(what, s.what.Load().(string))
				}
			}
			x.die(strings.Join(what, " "), fmt.Sprintf("the running cases hold %d MB of memory (normal: below 500 MB): an operation grows without bound", ms.HeapAlloc>>20))
		}
		now := cpuNow()
		delta := now - prev
		prev = now
		act := 0
		for _, s := range slots {
			if atomic.LoadInt32(&s.active) != 0 {
				act++
			}
		}
		if act == 0 {
			continue
		}
		share := delta / time.Duration(act)
		for i, s := range slots {
			ops := atomic.LoadInt64(&s.ops)
			if atomic.LoadInt32(&s.active) == 0 || ops != last[i] {
				last[i], since[i] = ops, 0
				continue
			}
			since[i] += share
			if since[i] > hangBudget {
				x.die(s.what.Load().(string), fmt.Sprintf("an operation of this case did not finish within %v of processor time (normal: milliseconds)", hangBudget))
			}
		}
	}
}

// heapLimit bounds the live heap of a run.
const heapLimit = 12 << 30

// die reports a violation that cannot be recovered from and ends the run.
func (x *Ctx) die(id, msg string) {
	rec := &violRec{Property: x.Prop, Tier: x.Tier, Seed: x.Seed, Case: id, Message: msg}
	buf := make([]byte, 1<<16)
	rec.Stack = string(buf[:runtime.Stack(buf, true)])
	x.mu.Lock()
	x.nviol++
	x.viol = rec
	x.mu.Unlock()
	os.Exit(x.finish())
}

// finish writes evidence and prints the verdict; it returns the exit code.
func (x *Ctx) finish() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.Only == "" {
		x.writeEvidence()
	}
	ids := make([]string, 0, len(x.hit))
	for id := range x.hit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", x.Prop, id, x.hit[id])
	}
	if x.viol != nil {
		dir := filepath.Join(x.Dir, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, x.Prop+".json")
		if len(x.viol.Trace) > 400 {
			x.viol.Trace = x.viol.Trace[len(x.viol.Trace)-400:]
		}
		b, _ := json.MarshalIndent(x.viol, "", " ")
		os.WriteFile(path, b, 0o644)
		m := x.viol.Message
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("case %s: %s\n", x.viol.Case, m)
		fmt.Printf("VIOLATION property=%s replay=%s\n", x.Prop, path)
		return 1
	}
	if x.Only == "" {
		for _, k := range x.required {
			if x.counts[k] == 0 {
				fmt.Printf("INCONCLUSIVE property=%s: nothing observed for %q\n", x.Prop, k)
				return 2
			}
		}
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d cases=%d wall=%.1fs\n", x.Prop, x.evals, len(x.distinct), x.counts["cases"], time.Since(x.start).Seconds())
	return 0
}

func (x *Ctx) writeEvidence() {
	cov := map[string]interface{}{
		"evaluations":         x.evals,
		"distinct_nontrivial": len(x.distinct),
		"rule":                x.rule,
		"samples":             x.samples,
		"observed":            x.counts,
	}
	if x.exhaust {
		cov["exhaustive"] = true
	}
	for k, v := range x.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": x.Prop, "tier": x.Tier, "seed": x.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(x.start).Seconds(), "violations": x.nviol,
		"assumptions": []string{"the big-integer reference model in /verif/harness/ref states the intended semantics", "only the executions generated from this seed were observed"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(2)
	}
	dir := filepath.Join(x.Dir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, x.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(2)
	}
}

// Require names counters that must be positive for a conclusive run.
func (x *Ctx) Require(keys ...string) { x.required = append(x.required, keys...) }

type checkFn func(x *Ctx)

var checks = map[string]checkFn{}

func loadKnown(dir, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.jsonl"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k struct{ Property, ID, Detail, Status string }
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "known" {
			out[k.ID] = k.Detail
		}
	}
	return out
}

// canary races on purpose, in the check that looks for races.
var canary = func() {}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "race-canary" {
		canary()
		return
	}
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh <property> [--only group/case]")
		os.Exit(2)
	}
	x := &Ctx{Prop: os.Args[1], Tier: os.Getenv("VERIF_TIER"), Dir: os.Getenv("VERIF_DIR"), start: time.Now(),
		counts: map[string]int64{}, distinct: map[uint64]struct{}{}, hit: map[string]string{}, extra: map[string]interface{}{}, Scale: 1}
	if x.Tier != "thorough" {
		x.Tier = "quick"
	}
	x.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		x.Seed = s
	}
	if s, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil && s > 0 {
		x.Scale = s
	}
	if x.Dir == "" {
		x.Dir = "/verif"
	}
	if len(os.Args) > 3 && os.Args[2] == "--only" {
		x.Only = os.Args[3]
	}
	x.known = loadKnown(x.Dir, x.Prop)
	if s := os.Getenv("VERIF_W32"); s != "" {
		x.extra["as_32_bit_program"] = s
	}
	checks[x.Prop](x)
	os.Exit(x.finish())
}
