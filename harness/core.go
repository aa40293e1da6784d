// Command gpsmon runs the monitors of /verif against the real go-gpsgen code.
//
// One process per shard executes a fixed, seeded list of cases of one property; every case
// drives the public API and an oracle judges what was observed. The parent process watches
// the shards (crashes, race reports, endless loops, deadlocks), merges what they observed
// into the evidence file and gives the verdict.
package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const libFrame = "github.com/mmadfox/go-gpsgen"

// Prop is one monitored property.
type Prop struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Quick       int    // cases of the quick tier
	Thorough    int    // cases of the thorough tier
	Race        bool   // cases run in the binary built with -race
	Conc        bool   // cases use many threads
	Shards      int    // processes (0: one per core)
	MustSee     []string
	Assumptions []string
	Run         func(c *C)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is one refutation of a property.
type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     int      `json:"case"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Sig      string   `json:"signature"`
	Trace    []string `json:"trace,omitempty"`
	Stack    string   `json:"stack,omitempty"`
}

// Result is what one shard observed.
type Result struct {
	Cases      int                 `json:"cases"`
	Counters   map[string]int64    `json:"counters"`
	Distinct   map[string][]uint64 `json:"distinct"`
	Samples    []string            `json:"samples"`
	Violations []*Violation        `json:"violations"`
	Known      []*Violation        `json:"known"`
	Incon      string              `json:"inconclusive,omitempty"`
	Done       bool                `json:"done"`
}

// C is the context of one case.
type C struct {
	*rand.Rand
	P     *Prop
	Idx   int
	Seed  uint64
	Tier  string
	sh    *shard
	mu    sync.Mutex
	trace []string
	empty bool       // a polygon without rings was written
	err   *Violation // failure recorded by another goroutine
}

type shard struct {
	mu       sync.Mutex
	res      Result
	distinct map[string]map[uint64]struct{}
	cur      *C
	curTid   int
	curCPU   float64
	curStart time.Time
	out      string
}

type abort struct{ v *Violation }

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func newC(p *Prop, sh *shard, seed uint64, tier string, idx int) *C {
	h := hash(p.ID)
	return &C{
		Rand: rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15^h, uint64(idx)*0xD1B54A32D192ED03+1)),
		P:    p, Idx: idx, Seed: seed, Tier: tier, sh: sh,
	}
}

// Thorough reports whether the thorough tier runs.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Logf appends to the trace that accompanies a violation of this case.
func (c *C) Logf(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.trace) > 400 {
		c.trace = append(c.trace[:0], c.trace[200:]...)
	}
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

func (c *C) violation(kind, format string, args ...any) *Violation {
	c.mu.Lock()
	tr := append([]string(nil), c.trace...)
	c.mu.Unlock()
	msg := fmt.Sprintf(format, args...)
	return &Violation{Property: c.P.ID, Tier: c.Tier, Seed: c.Seed, Case: c.Idx, Kind: kind,
		Message: msg, Sig: kind, Trace: tr}
}

// Fail refutes the property on this case and ends the case.
func (c *C) Fail(kind, format string, args ...any) {
	panic(abort{c.violation(kind, format, args...)})
}

// Finding reports a failure identified by sig; listed in the known findings it does not
// end the case, otherwise it is a violation.
func (c *C) Finding(sig, format string, args ...any) {
	v := c.violation("finding", format, args...)
	v.Sig = sig
	if isKnown(c.P.ID, sig) {
		c.sh.mu.Lock()
		c.sh.res.Known = append(c.sh.res.Known, v)
		c.sh.mu.Unlock()
		return
	}
	panic(abort{v})
}

// Async records a failure observed on a goroutine other than the case's own.
func (c *C) Async(kind, format string, args ...any) {
	v := c.violation(kind, format, args...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = v
	}
}

// Check ends the case when another goroutine recorded a failure.
func (c *C) Check() {
	c.mu.Lock()
	v := c.err
	c.mu.Unlock()
	if v != nil {
		panic(abort{v})
	}
}

// Count adds to a named counter of observed events.
func (c *C) Count(name string, n int) {
	c.sh.mu.Lock()
	c.sh.res.Counters[name] += int64(n)
	c.sh.mu.Unlock()
}

// Distinct records that a value was seen in a named set.
func (c *C) Distinct(set, key string) {
	h := hash(key)
	c.sh.mu.Lock()
	m := c.sh.distinct[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.sh.distinct[set] = m
	}
	if len(m) < 400000 {
		m[h] = struct{}{}
	}
	c.sh.mu.Unlock()
}

// NonTrivial records the fingerprint of a case that exercised the property.
func (c *C) NonTrivial(format string, args ...any) {
	c.Distinct("nontrivial", fmt.Sprintf(format, args...))
}

// Sample keeps a few cases written out.
func (c *C) Sample(format string, args ...any) {
	c.sh.mu.Lock()
	if len(c.sh.res.Samples) < 2 {
		c.sh.res.Samples = append(c.sh.res.Samples, fmt.Sprintf("case %d: ", c.Idx)+fmt.Sprintf(format, args...))
	}
	c.sh.mu.Unlock()
}

// ---- random helpers

func (c *C) Chance(p float64) bool { return c.Float64() < p }

func (c *C) Range(a, b float64) float64 { return a + c.Float64()*(b-a) }

// Int returns a value in [a,b].
func (c *C) Int(a, b int) int { return a + c.IntN(b-a+1) }

func pick[T any](c *C, xs ...T) T { return xs[c.IntN(len(xs))] }

// LogRange is log-uniform in [a,b].
func (c *C) LogRange(a, b float64) float64 {
	return a * pow(b/a, c.Float64())
}

// ---- running

func (sh *shard) runCase(c *C) (v *Violation) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if a, ok := r.(abort); ok {
			v = a.v
			return
		}
		st := string(debug.Stack())
		v = c.violation("panic", "panic: %v", r)
		v.Stack = st
	}()
	c.P.Run(c)
	c.Check()
	return nil
}

func (sh *shard) finish() {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	sh.res.Distinct = map[string][]uint64{}
	for k, m := range sh.distinct {
		l := make([]uint64, 0, len(m))
		for h := range m {
			l = append(l, h)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		sh.res.Distinct[k] = l
	}
	writeJSON(sh.out, &sh.res)
}

func threadCPU(tid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return -1
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+2:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

const (
	cpuLimit  = 60.0              // CPU seconds of one sequential case before it counts as an endless loop
	wallLimit = 600 * time.Second // wall clock watchdog; firing is inconclusive
)

// runShard executes the cases idx = i, i+n, i+2n, ...
func runShard(p *Prop, tier string, seed uint64, i, n, total int, only int, repeat int, out string) {
	sh := &shard{out: out, distinct: map[string]map[uint64]struct{}{}}
	sh.res.Counters = map[string]int64{}
	go sh.watch(p)
	loop := func(idx int) bool {
		c := newC(p, sh, seed, tier, idx)
		sh.mu.Lock()
		sh.cur, sh.curStart = c, time.Now()
		if !p.Conc {
			sh.curCPU = threadCPU(sh.curTid)
		}
		sh.mu.Unlock()
		v := sh.runCase(c)
		sh.mu.Lock()
		sh.res.Cases++
		if v != nil {
			sh.res.Violations = append(sh.res.Violations, v)
		}
		sh.mu.Unlock()
		return v == nil
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		if !p.Conc {
			runtime.LockOSThread()
			sh.mu.Lock()
			sh.curTid = syscall.Gettid()
			sh.mu.Unlock()
		}
		if only >= 0 {
			for k := 0; k < repeat; k++ {
				if !loop(only) {
					break
				}
			}
		} else {
			for idx := i; idx < total; idx += n {
				if !loop(idx) {
					break
				}
			}
		}
	}()
	<-done
	sh.mu.Lock()
	sh.res.Done = true
	sh.mu.Unlock()
	sh.finish()
}

func (sh *shard) watch(p *Prop) {
	for {
		time.Sleep(500 * time.Millisecond)
		sh.mu.Lock()
		c, tid, start, cpu0 := sh.cur, sh.curTid, sh.curStart, sh.curCPU
		sh.mu.Unlock()
		if c == nil {
			continue
		}
		if !p.Conc && tid != 0 && cpu0 >= 0 {
			if used := threadCPU(tid) - cpu0; used > cpuLimit {
				dump := allStacks()
				lib := false
				var where string
				for _, g := range dump {
					if g.has("main.(*shard).runCase") {
						where = g.text
						lib = g.has(libFrame)
					}
				}
				v := c.violation("endless-loop", "one case consumed more than %.0f s of CPU time inside the library", cpuLimit)
				v.Stack = where
				sh.mu.Lock()
				if lib {
					sh.res.Violations = append(sh.res.Violations, v)
				} else {
					sh.res.Incon = "a case used too much CPU time outside the library"
				}
				sh.res.Done = true
				sh.mu.Unlock()
				sh.finish()
				os.Exit(0)
			}
		}
		if time.Since(start) > wallLimit {
			sh.mu.Lock()
			sh.res.Incon = fmt.Sprintf("case %d exceeded the wall clock watchdog", c.Idx)
			sh.res.Done = true
			sh.mu.Unlock()
			sh.finish()
			for _, g := range allStacks() {
				fmt.Fprintln(os.Stderr, g.text)
			}
			os.Exit(0)
		}
	}
}

// ---- goroutine states

type gor struct {
	id    string
	state string
	text  string
}

func (g gor) has(s string) bool { return strings.Contains(g.text, s) }

func allStacks() []gor {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []gor
	for _, t := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(t, "goroutine ") {
			continue
		}
		h := t[:strings.IndexByte(t+"\n", '\n')]
		a, b := strings.IndexByte(h, '['), strings.LastIndexByte(h, ']')
		if a < 0 || b < a {
			continue
		}
		st := h[a+1 : b]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		out = append(out, gor{id: strings.Fields(h)[1], state: st, text: t})
	}
	return out
}

// frames strips addresses and goroutine header so that dumps can be compared.
func (g gor) frames() string {
	var b strings.Builder
	for _, l := range strings.Split(g.text, "\n")[1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if k := strings.LastIndexByte(l, '('); k > 0 {
			l = l[:k]
		}
		b.WriteString(l)
		b.WriteByte('\n')
	}
	return b.String()
}

func blockedState(s string) bool {
	for _, p := range []string{"chan receive", "chan send", "select", "sync.", "semacquire"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// idleGenerator tells the goroutines of a running generator that merely wait for their
// next event from those stuck in the middle of something.
func idleGenerator(g gor) bool {
	if g.state != "select" {
		return false
	}
	fr := strings.SplitN(g.frames(), "\n", 2)[0]
	return strings.HasSuffix(fr, "(*Generator).run") || strings.HasSuffix(fr, "(*Generator).doWorker") ||
		strings.HasSuffix(fr, "(*Generator).doNext")
}

// stuck decides whether nothing in the process can make progress any more: in several
// dumps taken apart from one another no goroutine running library or case code is able to
// run or waits for a timer, and the same ones are blocked at the same places.
func stuck(ignoreIdle bool) (bool, string) {
	var prev string
	for k := 0; k < 5; k++ {
		if k > 0 {
			time.Sleep(700 * time.Millisecond)
		}
		var cur []string
		var text strings.Builder
		for _, g := range allStacks() {
			if !g.has(libFrame) && !g.has("main.(*C)") && !g.has("main.run") {
				continue
			}
			if g.has("main.stuck") || g.has("main.(*shard).watch") {
				continue
			}
			if !g.has(libFrame) && g.has("main.runShard") && !g.has("runCase") {
				continue
			}
			if ignoreIdle && idleGenerator(g) {
				continue
			}
			if !blockedState(g.state) {
				return false, ""
			}
			cur = append(cur, g.id+g.state+g.frames())
			text.WriteString(g.text + "\n\n")
		}
		sort.Strings(cur)
		s := strings.Join(cur, "\n")
		if k > 0 && s != prev {
			return false, ""
		}
		prev = s
		if k == 4 {
			if s == "" || !strings.Contains(s, libFrame) {
				return false, ""
			}
			return true, text.String()
		}
	}
	return false, ""
}

// Await waits for ch. If it does not come, the goroutine states decide between a deadlock
// of the library (a violation) and a slow machine (keep waiting).
func (c *C) Await(ch <-chan struct{}, live bool, what string) {
	for {
		t := time.NewTimer(5 * time.Second)
		select {
		case <-ch:
			t.Stop()
			return
		case <-t.C:
		}
		c.Check() // what was recorded meanwhile may be why it does not come
		res := make(chan string, 1)
		go func() {
			ok, text := stuck(live)
			if ok {
				res <- text
			} else {
				res <- ""
			}
		}()
		var text string
		select {
		case <-ch:
			<-res
			return
		case text = <-res:
		}
		if text != "" {
			select {
			case <-ch:
				return
			default:
			}
			v := c.violation("deadlock", "%s: every goroutine of the library is blocked for good", what)
			v.Stack = text
			panic(abort{v})
		}
	}
}
