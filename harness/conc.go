package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
)

// ---- fleets

// longTrack is a straight line that no tracker of this file can finish.
func (c *C) longTrack(p pt) *navigator.Track {
	q := pt{Lat: p.Lat + 8, Lon: p.Lon + 3}
	t, err := navigator.NewTrack([]pt{p, q})
	if err != nil {
		c.Fail("construct", "NewTrack = %v", err)
	}
	return t
}

// tracker makes a tracker that keeps moving: online for ever, slow, on a very long track of its own.
func (c *C) tracker(id string, withRoute bool) *gpsgen.Device {
	o := gpsgen.NewDeviceOptions()
	o.ID = id
	o.Model, o.Color = "model", "#ff8040"
	o.Navigator.SkipOffline = true
	o.Speed.Min, o.Speed.Max = 0.25, 0.5
	o.Speed.Amplitude, o.Navigator.Elevation.Amplitude = 4, 4
	o.Battery.ChargeTime = 1e6 * time.Hour
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	if withRoute {
		r := navigator.NewRoute()
		r.AddTrack(c.longTrack(pt{Lat: c.Range(-50, 40), Lon: c.Range(-100, 100)}))
		if err := d.AddRoute(r); err != nil {
			c.Fail("construct", "AddRoute = %v", err)
		}
	}
	return d
}

// fleet makes n trackers; three of four have a route.
func (c *C) fleet(prefix string, n int) []*gpsgen.Device {
	out := make([]*gpsgen.Device, n)
	for i := range out {
		out[i] = c.tracker(fmt.Sprintf("%s%d", prefix, i), i == 0 || c.Chance(0.75))
	}
	return out
}

func (c *C) generator(workers, packet int, interval time.Duration) *gpsgen.Generator {
	o := gpsgen.NewOptions()
	o.NumWorkers, o.PacketSize, o.Interval = workers, packet, interval
	return gpsgen.New(o)
}

func (c *C) attach(g *gpsgen.Generator, ds ...*gpsgen.Device) {
	for _, d := range ds {
		if err := g.Attach(d); err != nil {
			c.Fail("construct", "Attach = %v", err)
		}
	}
}

// start runs the generator; the channel is closed when Run has returned.
func (c *C) start(g *gpsgen.Generator) chan struct{} {
	done := make(chan struct{})
	go func() {
		g.Run()
		close(done)
	}()
	return done
}

// async is a once-only signal.
type signal struct {
	ch   chan struct{}
	once sync.Once
}

func newSignal() *signal { return &signal{ch: make(chan struct{})} }

func (s *signal) fire() { s.once.Do(func() { close(s.ch) }) }

func (s *signal) fired() bool {
	select {
	case <-s.ch:
		return true
	default:
		return false
	}
}

// within waits for the signal for some time.
func (s *signal) within(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-s.ch:
		return true
	case <-t.C:
		return s.fired()
	}
}

// generatorGoroutines lists what is left of running generators.
func generatorGoroutines() []gor {
	var out []gor
	for _, g := range allStacks() {
		if g.has("gpsgen.(*Generator).run") || g.has("gpsgen.(*Generator).do") ||
			(g.has("created by "+libFrame) && g.has("Generator")) {
			out = append(out, g)
		}
	}
	return out
}

// noise burns a little time in one of several ways.
func (c *C) noiseFn() func(k int) {
	mode := c.IntN(6)
	us := c.Int(1, 800)
	return func(k int) {
		switch mode {
		case 0:
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(us) * time.Microsecond)
		case 3:
			if k%3 == 0 {
				time.Sleep(time.Duration(us) * time.Microsecond)
			}
		case 4:
			if k%7 == 2 {
				time.Sleep(3 * time.Millisecond)
			}
		case 5:
			for i := 0; i < us; i++ {
				runtime.Gosched()
			}
		}
	}
}

// ---------------------------------------------------------------- C01

var workerCounts = []int{1, 2, 3, 4, 5, 7, 8, 16, 64, 1000, 2000}

func (c *C) fleetSize(packet, workers int) int {
	ws := packet / workers
	b := pick(c, packet, 2*packet, workers, ws, workers+ws, packet-workers, 3*workers, packet/2)
	if c.Chance(0.15) {
		return c.Int(0, 40)
	}
	if c.Chance(0.15) {
		return c.Int(0, 2*packet+packet/2)
	}
	n := b + c.Int(-2, 2)
	if c.Chance(0.2) {
		n = b
	}
	return max(0, min(n, 2*packet+3))
}

func runC01(c *C) {
	asked := pick(c, 0, 1, 1000, 1024, 1024, 1024, 1025, 1300, 1536, 2048)
	packet := max(asked, 1024)
	workers := workerCounts[c.IntN(len(workerCounts))]
	askedWorkers := workers
	if c.Chance(0.05) {
		askedWorkers, workers = 0, runtime.NumCPU()
	}
	n := c.fleetSize(packet, workers)
	rounds := c.Int(2, 5)
	g := c.generator(askedWorkers, asked, pick(c, 300*time.Microsecond, time.Millisecond, 3*time.Millisecond))
	ds := c.fleet("t", n)
	routed := map[string]bool{}
	for _, d := range ds {
		routed[d.ID()] = d.NumRoutes() > 0
	}
	noise := c.noiseFn()
	var (
		mu      sync.Mutex
		seq     []string
		durs    = map[string]float64{}
		packets int
		sizes   []int
		nexts   int
		done    = newSignal()
	)
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		defer mu.Unlock()
		packets++
		if err != nil {
			c.Async("round", "a packet does not decode: %v", err)
			done.fire()
			return
		}
		if len(p.Devices) == 0 {
			c.Async("round", "a packet without trackers was delivered (fleet of %d)", n)
			done.fire()
		}
		sizes = append(sizes, len(p.Devices))
		for _, d := range p.Devices {
			seq = append(seq, d.Id)
			if routed[d.Id] {
				if d.Duration <= durs[d.Id] {
					c.Async("round", "tracker %s is reported with duration %v after %v: an outdated entry", d.Id, d.Duration, durs[d.Id])
					done.fire()
				}
				durs[d.Id] = d.Duration
			}
		}
		if n > 0 && len(seq) >= rounds*n {
			done.fire()
		}
		k := packets
		mu.Unlock()
		noise(k)
		mu.Lock()
	})
	g.OnNext(func() {
		mu.Lock()
		nexts++
		if nexts > rounds+100 {
			done.fire()
		}
		mu.Unlock()
	})
	c.attach(g, ds...)
	run := c.start(g)
	if n == 0 {
		time.Sleep(15 * time.Millisecond)
	} else {
		c.Await(done.ch, true, fmt.Sprintf("waiting for %d rounds of %d trackers", rounds, n))
	}
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()

	mu.Lock()
	defer mu.Unlock()
	if n == 0 {
		if packets > 0 {
			c.Fail("round", "%d packets from a generator without trackers", packets)
		}
		c.Count("empty_fleets", 1)
		return
	}
	where := fmt.Sprintf("fleet %d, packet size %d, %d workers, packets of %v", n, packet, workers, clipInts(sizes, 24))
	seen := map[string]bool{}
	full := 0
	for i, id := range seq {
		if i%n == 0 {
			if i > 0 {
				full++
			}
			seen = map[string]bool{}
		}
		if _, ok := routed[id]; !ok {
			c.Fail("round", "round %d reports %q, which is not attached (%s)", i/n+1, id, where)
		}
		if seen[id] {
			c.Fail("round", "round %d reports tracker %q twice before every tracker was reported once (%s)", i/n+1, id, where)
		}
		seen[id] = true
	}
	if len(seq) < rounds*n {
		missing := ""
		for id := range routed {
			if !seen[id] {
				missing = id
				break
			}
		}
		c.Fail("round", "after more than %d rounds only %d entries of %d trackers were reported, for example %q is missing (%s)", rounds+100, len(seq), n, missing, where)
	}
	c.Count("packets", packets)
	c.Count("entries", len(seq))
	c.Count("rounds", full)
	if n > packet {
		c.Count("rounds_of_several_packets", full)
	}
	if n%packet == 0 {
		c.Count("rounds_of_full_packets", full)
	}
	c.Distinct("packet_partitions", fmt.Sprint(clipInts(sizes, 40)))
	c.NonTrivial("n=%d p=%d w=%d", n, packet, workers)
	c.Sample("%s: %d rounds checked", where, full)
}

func clipInts(x []int, n int) []int {
	if len(x) > n {
		return x[:n]
	}
	return x
}

// ---------------------------------------------------------------- C06

type span struct {
	may, must       int // first round it may, must be in
	mayEnd, mustEnd int // last round it may, must be in
}

type member struct {
	d        *gpsgen.Device
	attached bool
	spans    []*span
	frozen   float64 // duration after the detach, -1 unknown
	fresh    bool
}

// runC06 uses one worker and fleets below the packet size: one packet is one round.
func runC06(c *C) {
	if c.Chance(0.25) {
		runC06Multi(c)
		return
	}
	n := c.Int(1, 60)
	if c.Chance(0.3) {
		n = c.Int(60, 700)
	}
	rounds := c.Int(8, 30)
	g := c.generator(1, pick(c, 1024, 2048), pick(c, 200*time.Microsecond, time.Millisecond, 2*time.Millisecond))
	stable := c.fleet("s", n)
	inner := make([]*member, c.Int(1, 12))
	outer := make([]*member, c.Int(0, 8))
	for i := range inner {
		inner[i] = &member{d: c.tracker(fmt.Sprintf("i%d", i), true), frozen: -1, fresh: true}
	}
	for i := range outer {
		outer[i] = &member{d: c.tracker(fmt.Sprintf("o%d", i), true), frozen: -1, fresh: true}
	}
	members := map[string]*member{}
	for _, m := range append(append([]*member(nil), inner...), outer...) {
		members[m.d.ID()] = m
	}
	isStable := map[string]bool{}
	for _, d := range stable {
		isStable[d.ID()] = true
	}
	contended := len(outer) > 0
	const inf = 1 << 40

	// initial fleet: stable and some others, in random order
	type ent struct {
		d *gpsgen.Device
		m *member
	}
	var init []ent
	for _, d := range stable {
		init = append(init, ent{d: d})
	}
	for _, m := range members {
		if c.Chance(0.5) {
			init = append(init, ent{d: m.d, m: m})
		}
	}
	// map order is random: sort by id first to keep the case reproducible
	for i := range init {
		for j := i + 1; j < len(init); j++ {
			if init[j].d.ID() < init[i].d.ID() {
				init[i], init[j] = init[j], init[i]
			}
		}
	}
	c.Shuffle(len(init), func(i, j int) { init[i], init[j] = init[j], init[i] })
	for _, e := range init {
		c.attach(g, e.d)
		if e.m != nil {
			e.m.attached = true
			e.m.spans = append(e.m.spans, &span{may: 1, must: 1, mayEnd: inf, mustEnd: inf})
		}
	}
	var (
		mu      sync.Mutex
		started int
		present []map[string]int
		last    = map[string]*pb.Device{}
		first   = map[string]bool{}
		done    = newSignal()
		inOps   int
	)
	fail := func(format string, args ...any) {
		c.Async("membership", format, args...)
		done.fire()
	}
	seedA, seedB := c.Uint64(), c.Uint64()
	_ = seedB
	rc := newC(c.P, c.sh, seedA, c.Tier, c.Idx+1) // random source of the callback
	closed := false
	noise := c.noiseFn()
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		defer mu.Unlock()
		if closed {
			return
		}
		if err != nil {
			fail("a packet does not decode: %v", err)
			return
		}
		started++
		k := started
		m := map[string]int{}
		for _, d := range p.Devices {
			m[d.Id]++
			if m[d.Id] > 1 {
				fail("round %d reports tracker %s twice", k, d.Id)
			}
			x := members[d.Id]
			if x == nil && !isStable[d.Id] {
				fail("round %d reports %q, which was never attached", k, d.Id)
				continue
			}
			if len(d.Routes.GetRoutes()) > 0 {
				pr := last[d.Id]
				var pd float64
				if pr != nil {
					pd = pr.Duration
				}
				step := d.Duration - pd
				idle := contended && step == 0
				if x != nil && x.fresh && first[d.Id] == false {
					if !idle && !near(d.Duration, d.Tick, 1e-9, 0) {
						fail("tracker %s is reported for the first time in round %d with a duration of %v s, its step was %v s", d.Id, k, d.Duration, d.Tick)
					}
				} else if !idle && !near(step, d.Tick, 1e-9, 0) {
					fail("tracker %s: its duration went from %v to %v in round %d, its step was %v s: stepped more or less than once", d.Id, pd, d.Duration, k, d.Tick)
				}
				first[d.Id] = true
				last[d.Id] = d
			}
		}
		for id := range isStable {
			if m[id] == 0 {
				fail("round %d misses tracker %s, which is attached all the time", k, id)
				break
			}
		}
		present = append(present, m)
		// operations inside the callback: this round is still in progress
		ops := rc.IntN(4)
		mu.Unlock()
		noise(k)
		for ; ops > 0; ops-- {
			x := inner[rc.IntN(len(inner))]
			if x.attached {
				if err := g.Detach(x.d.ID()); err != nil {
					fail("Detach(%s) = %v", x.d.ID(), err)
				}
				x.attached = false
				s := x.spans[len(x.spans)-1]
				s.mayEnd, s.mustEnd = k, k
				x.frozen = x.d.Duration()
			} else {
				if x.frozen >= 0 && x.d.Duration() != x.frozen {
					fail("tracker %s was stepped while it was detached: duration %v, at the detach %v", x.d.ID(), x.d.Duration(), x.frozen)
				}
				if err := g.Attach(x.d); err != nil {
					fail("Attach(%s) = %v", x.d.ID(), err)
				}
				x.attached = true
				x.spans = append(x.spans, &span{may: k + 1, must: k + 1, mayEnd: inf, mustEnd: inf})
			}
			inOps++
		}
		mu.Lock()
		if k >= rounds {
			done.fire()
		}
	})
	run := c.start(g)
	// operations outside, at any time
	outDone := make(chan struct{})
	outOps := 0
	go func() {
		defer close(outDone)
		if len(outer) == 0 {
			return
		}
		rc := newC(c.P, c.sh, seedB, c.Tier, c.Idx+2)
		begun := func() int {
			mu.Lock()
			defer mu.Unlock()
			return started
		}
		for i := 0; i < 60 && !done.fired(); i++ {
			x := outer[rc.IntN(len(outer))]
			a := begun()
			if x.attached {
				if err := g.Detach(x.d.ID()); err != nil {
					fail("Detach(%s) = %v", x.d.ID(), err)
				}
				x.attached = false
				b := begun()
				s := x.spans[len(x.spans)-1]
				s.mayEnd, s.mustEnd = b+1, a
			} else {
				if err := g.Attach(x.d); err != nil {
					fail("Attach(%s) = %v", x.d.ID(), err)
				}
				x.attached = true
				b := begun()
				x.spans = append(x.spans, &span{may: a + 1, must: b + 2, mayEnd: inf, mustEnd: inf})
			}
			outOps++
			time.Sleep(time.Duration(rc.Int(0, 3000)) * time.Microsecond)
		}
	}()
	c.Await(done.ch, true, "waiting for rounds")
	<-outDone
	mu.Lock()
	closed = true
	mu.Unlock()
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	for _, m := range append(append([]*member(nil), inner...), outer...) {
		id := m.d.ID()
		for r := 1; r <= len(present); r++ {
			may, must := false, false
			for _, s := range m.spans {
				may = may || (r >= s.may && r <= s.mayEnd)
				must = must || (r >= s.must && r <= s.mustEnd)
			}
			if present[r-1][id] > 0 && !may {
				c.Fail("membership", "tracker %s is reported in round %d although it was not attached when the round began; spans %s", id, r, spans(m.spans))
			}
			if present[r-1][id] == 0 && must {
				c.Fail("membership", "tracker %s is missing from round %d although it was attached before the round began; spans %s", id, r, spans(m.spans))
			}
		}
	}
	c.Count("rounds", len(present))
	c.Count("changes_inside_a_round", inOps)
	c.Count("changes_at_any_time", outOps)
	c.NonTrivial("n=%d in=%d out=%d seq=%v", n, inOps, outOps, spans(inner[0].spans))
	c.Sample("%d stable trackers, %d rounds, %d changes from the packet callback, %d from outside", n, len(present), inOps, outOps)
}

func spans(l []*span) string {
	var b strings.Builder
	for _, s := range l {
		e := fmt.Sprint(s.mayEnd)
		if s.mayEnd > 1e9 {
			e = "end"
		}
		fmt.Fprintf(&b, "[%d..%s]", s.must, e)
	}
	return b.String()
}

// runC06Multi: rounds of several packets; the trackers that stay are never missed or repeated.
func runC06Multi(c *C) {
	n := c.Int(900, 1500)
	churn := c.Int(1, 400)
	workers := pick(c, 1, 2, 3, 4, 8)
	rounds := c.Int(4, 9)
	g := c.generator(workers, 1024, time.Millisecond)
	anchors := map[string]bool{}
	var all []*gpsgen.Device
	var others []*gpsgen.Device
	for i := 0; i < n; i++ {
		d := c.tracker(fmt.Sprintf("a%d", i), true)
		anchors[d.ID()] = true
		all = append(all, d)
	}
	for i := 0; i < churn; i++ {
		d := c.tracker(fmt.Sprintf("x%d", i), true)
		others = append(others, d)
		all = append(all, d)
	}
	c.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	c.attach(g, all...)
	attached := map[string]bool{}
	since := map[string]int{} // anchor round at the last change
	for _, d := range others {
		attached[d.ID()] = true
	}
	var (
		mu     sync.Mutex
		counts = map[string]int{}
		durs   = map[string]float64{}
		cur    int
		atCur  int
		done   = newSignal()
		ops    int
		closed bool
	)
	inside := c.Chance(0.7)
	rc := newC(c.P, c.sh, c.Uint64(), c.Tier, c.Idx+1)
	change := func() {
		d := others[rc.IntN(len(others))]
		id := d.ID()
		mu.Lock()
		was := attached[id]
		mu.Unlock()
		var err error
		if was {
			mu.Lock()
			attached[id] = false
			delete(since, id) // known again once Detach has returned
			mu.Unlock()
			err = g.Detach(id)
			mu.Lock()
			since[id] = cur
			mu.Unlock()
		} else {
			mu.Lock()
			attached[id] = true
			delete(since, id)
			mu.Unlock()
			err = g.Attach(d)
		}
		if err != nil {
			c.Async("membership", "attaching or detaching %s (attached: %v) = %v", id, was, err)
			done.fire()
		}
		mu.Lock()
		ops++
		mu.Unlock()
	}
	var opMu sync.Mutex
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		if closed {
			mu.Unlock()
			return
		}
		if err != nil {
			c.Async("membership", "a packet does not decode: %v", err)
			done.fire()
			mu.Unlock()
			return
		}
		for _, d := range p.Devices {
			if anchors[d.Id] {
				if counts[d.Id] == cur {
					if atCur != len(anchors) && cur > 0 {
						c.Async("membership", "tracker %s is reported for the %dth time before every other one was reported %d times: a round missed or repeated a tracker", d.Id, cur+1, cur)
						done.fire()
					}
					cur++
					atCur = 0
				} else if counts[d.Id] != cur-1 {
					c.Async("membership", "tracker %s was reported %d times when others were reported %d times", d.Id, counts[d.Id], cur)
					done.fire()
				}
				counts[d.Id]++
				atCur++
				step := d.Duration - durs[d.Id]
				if !(step == 0 && !inside) && !near(step, d.Tick, 1e-9, 0) {
					c.Async("membership", "tracker %s: its duration went from %v to %v in one round, its step was %v", d.Id, durs[d.Id], d.Duration, d.Tick)
					done.fire()
				}
				durs[d.Id] = d.Duration
			} else if s, ok := since[d.Id]; ok && !attached[d.Id] && cur > s+2 {
				c.Async("membership", "tracker %s, detached in round %d, is reported in round %d", d.Id, s, cur)
				done.fire()
			}
		}
		if cur > rounds {
			done.fire()
		}
		mu.Unlock()
		if inside && opMu.TryLock() {
			for k := rc.IntN(6); k > 0; k-- {
				change()
			}
			opMu.Unlock()
		}
	})
	run := c.start(g)
	if !inside {
		for !done.fired() {
			change()
			time.Sleep(time.Duration(rc.Int(0, 500)) * time.Microsecond)
		}
	}
	c.Await(done.ch, true, "waiting for rounds")
	mu.Lock()
	closed = true
	mu.Unlock()
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	c.Count("rounds_of_several_packets", cur)
	c.Count("changes_inside_a_round", ops)
	c.NonTrivial("multi n=%d churn=%d w=%d ops=%d", n, churn, workers, ops)
}

// ---------------------------------------------------------------- C08

func runC08(c *C) {
	if c.Idx < 24 {
		runC08Wall(c)
		return
	}
	switch c.IntN(10) {
	case 0:
		runC08Fast(c)
	case 1, 2, 3:
		runC08Concurrent(c)
	default:
		runC08Contended(c)
	}
}

// tick draws a time step.
func (c *C) tick() float64 {
	switch c.IntN(6) {
	case 0:
		return 1
	case 1:
		return float64(c.Int(2, 60))
	case 2:
		return c.Range(0, 1)
	case 3:
		return c.LogRange(1e-6, 1e-2)
	case 4:
		return float64(c.Int(1, 5)) + 0.999999999
	default:
		return c.Range(1, 100)
	}
}

// runC08Contended steps a tracker while its lock is held: nothing is lost.
func runC08Contended(c *C) {
	d := c.tracker("d", true)
	s, err := gpsgen.NewSensor("sensor", 0, 1, 4, 0)
	if err != nil {
		c.Fail("construct", "NewSensor = %v", err)
	}
	d.AddSensor(s)
	asked, pending := 0.0, 0.0
	n := c.Int(3, 40)
	missed := 0
	pat := ""
	var at *gpsgen.Generator
	gens := []*gpsgen.Generator{c.generator(1, 1024, time.Hour), c.generator(1, 1024, time.Hour)}
	defer func() {
		for _, g := range gens {
			g.Close()
		}
	}()
	for i := 0; i < n; i++ {
		t := c.tick()
		if c.Chance(0.15) {
			// being attached or detached in between loses nothing either
			if at != nil {
				at.Detach(d.ID())
				at = nil
				pat += "-"
			} else {
				at = gens[c.IntN(2)]
				if err := at.Attach(d); err != nil {
					c.Fail("registry", "Attach of a detached tracker = %v", err)
				}
				pat += "+"
			}
		}
		if c.Chance(0.6) {
			ok := false
			busy := func() { ok = d.Next(t) }
			if c.Chance(0.5) {
				d.EachSensor(func(int, *gpsgen.Sensor) bool { busy(); return false })
			} else {
				d.EachRoute(func(int, *navigator.Route) bool { busy(); return false })
			}
			asked += t
			if ok {
				pending = 0
			} else {
				pending += t
				missed++
				pat += "b"
			}
			continue
		}
		d.Next(t)
		asked += t
		pending += t
		st := d.State()
		pat += "s"
		if !near(st.Tick, pending, 2e-9*float64(i+1), 1e-12) {
			c.Fail("time", "a step of %v s after missed steps reports %v s, expected %v s (%s)", t, st.Tick, pending, pat)
		}
		pending = 0
		if !near(st.Duration, asked, 2e-9*float64(i+1), 1e-12) {
			c.Fail("time", "after %v s of steps the tracker has advanced %v s (%s)", asked, st.Duration, pat)
		}
	}
	d.Next(1)
	asked++
	if got := d.Duration(); !near(got, asked, 2e-9*float64(n+1), 1e-12) {
		c.Fail("time", "after %v s of steps the tracker has advanced %v s (%s)", asked, got, pat)
	}
	c.Count("contended_steps", missed)
	c.NonTrivial("%s", pat)
	c.Sample("steps (b = tracker busy, s = free, + attached, - detached) %s: %v s asked and advanced", pat, asked)
}

// runC08Concurrent: many threads step and read one tracker; the sum is conserved.
func runC08Concurrent(c *C) {
	d := c.tracker("d", true)
	s, _ := gpsgen.NewSensor("sensor", 0, 1, 4, 0)
	d.AddSensor(s)
	threads := c.Int(2, 8)
	per := c.Int(20, 400)
	readers := c.Int(0, 3)
	stop := make(chan struct{})
	var rw, ww sync.WaitGroup
	for k := 0; k < readers; k++ {
		rw.Add(1)
		go func() {
			defer rw.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				switch k {
				case 0:
					d.State()
				case 1:
					d.Location()
				default:
					d.SetDescription("x")
				}
			}
		}()
	}
	sum := 0.0
	refused := make([]int, threads)
	for k := 0; k < threads; k++ {
		ts := make([]float64, per)
		for i := range ts {
			ts[i] = c.tick()
			sum += ts[i]
		}
		ww.Add(1)
		go func() {
			defer ww.Done()
			for _, t := range ts {
				if !d.Next(t) {
					refused[k]++
				}
			}
		}()
	}
	ww.Wait()
	close(stop)
	rw.Wait()
	d.Next(1)
	sum++
	tol := 2e-9*float64(threads*per) + 1e-12*sum
	if got := d.Duration(); !near(got, sum, tol, 1e-11) {
		c.Fail("time", "%d threads asked for %.9f s together, the tracker advanced %.9f s", threads, sum, got)
	}
	total := 0
	for _, r := range refused {
		total += r
	}
	c.Count("concurrent_steps", threads*per)
	c.Count("contended_steps", total)
	c.NonTrivial("threads=%d per=%d readers=%d refused=%d", threads, per, readers, total)
}

// runC08Fast: rounds faster than a second advance by exactly one second; a busy tracker
// catches up with an idle one.
func runC08Fast(c *C) {
	g := c.generator(pick(c, 1, 2, 4), 1024, pick(c, 300*time.Microsecond, time.Millisecond, 4*time.Millisecond))
	quiet := c.tracker("quiet", true)
	busy := c.tracker("busy", true)
	lazy := c.tracker("lazy", false)
	s, _ := gpsgen.NewSensor("sensor", 0, 1, 4, 0)
	busy.AddSensor(s)
	c.attach(g, quiet, busy, lazy)
	var (
		mu       sync.Mutex
		rounds   int
		stopped  = newSignal()
		settle   int
		done     = newSignal()
		qd       float64
		deferred int
	)
	want := c.Int(10, 60)
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil || done.fired() {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		var q, u *pb.Device
		for _, d := range p.Devices {
			switch d.Id {
			case "quiet":
				q = d
			case "busy":
				u = d
			case "lazy":
				if d.Duration != 0 || d.Tick != 0 {
					c.Async("time", "a tracker without routes advanced %v s", d.Duration)
				}
			}
		}
		if q != nil {
			rounds++
			if q.Tick != 1 {
				c.Async("time", "rounds every few milliseconds advance a tracker by %v s, expected 1 s", q.Tick)
			}
			if q.Duration != qd+1 {
				c.Async("time", "round %d advanced the duration from %v to %v", rounds, qd, q.Duration)
			}
			qd = q.Duration
		}
		if u != nil && u.Duration < float64(rounds) {
			deferred++
		}
		if stopped.fired() && q != nil && u != nil {
			settle++
			if settle > 3 {
				if u.Duration != q.Duration {
					c.Async("time", "a tracker that was busy now and then advanced %v s, another one in the same rounds %v s", u.Duration, q.Duration)
				}
				if settle > 6 {
					done.fire()
				}
			}
		}
	})
	run := c.start(g)
	for {
		mu.Lock()
		r := rounds
		mu.Unlock()
		if r >= want {
			break
		}
		// keep the tracker busy for a while
		busy.EachSensor(func(int, *gpsgen.Sensor) bool {
			time.Sleep(time.Duration(c.Int(0, 900)) * time.Microsecond)
			return true
		})
		if c.Chance(0.3) {
			time.Sleep(200 * time.Microsecond)
		}
	}
	stopped.fire()
	c.Await(done.ch, true, "waiting for rounds")
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	c.Count("generator_rounds", rounds)
	c.Count("generator_rounds_behind", deferred)
	c.NonTrivial("fast rounds=%d deferred=%d", rounds, deferred)
}

// runC08Wall: rounds slower than a second advance by the time elapsed, also after a
// callback held up a round.
func runC08Wall(c *C) {
	switch c.Idx % 3 {
	case 0:
		c.stallRun()
		return
	case 1:
		c.idleRun()
		return
	}
	for try := 0; ; try++ {
		lag, calm, early := c.wallRun()
		c.Count("wall_clock_runs", 1)
		if early != "" {
			c.Fail("time", "%s", early) // more time than has passed: no load can cause it
		}
		if lag <= 0.4 {
			c.NonTrivial("wall %d", c.Idx)
			return
		}
		c.Logf("try %d: lag %.3f s, calm=%v", try, lag, calm)
		if try >= 2 && calm {
			c.Fail("time", "in three runs the trackers advanced at least %.3f s less than the time that passed between rounds", lag)
		}
		if try >= 8 {
			c.Count("wall_clock_undecided", 1)
			return
		}
	}
}

func (c *C) wallRun() (lag float64, calm bool, early string) {
	interval := time.Duration(c.Int(1050, 1300)) * time.Millisecond
	g := c.generator(1, 1024, interval)
	d := c.tracker("d", true)
	c.attach(g, d)
	var mu sync.Mutex
	done := newSignal()
	block := c.Int(1, 2)
	rounds := 0
	minLag := math.Inf(1)
	start := time.Now()
	g.OnPacket(func(b []byte) {
		at := time.Since(start).Seconds()
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		defer mu.Unlock()
		if err != nil || len(p.Devices) != 1 || done.fired() {
			return
		}
		x := p.Devices[0]
		rounds++
		if x.Duration > at+0.002 {
			early = fmt.Sprintf("after %.3f s of running with rounds every %v the tracker has advanced %.3f s", at, interval, x.Duration)
		}
		if x.Tick < 1 {
			early = fmt.Sprintf("a round advanced the tracker by %v s, less than one second", x.Tick)
		}
		if rounds == block {
			mu.Unlock()
			time.Sleep(2200 * time.Millisecond)
			mu.Lock()
		} else if rounds > block+1 {
			minLag = math.Min(minLag, at-x.Duration)
		}
		if rounds >= block+3 {
			done.fire()
		}
	})
	calmly := watchLoad()
	run := c.start(g)
	c.Await(done.ch, true, "waiting for rounds")
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	calm = calmly()
	mu.Lock()
	defer mu.Unlock()
	return minLag, calm, early
}

// watchLoad measures its own scheduling delay, which tells a loaded machine from a slow
// tracker; the function it returns ends the watch and tells whether it was calm.
func watchLoad() func() bool {
	worst := 0.0
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			t := time.Now()
			select {
			case <-stop:
				return
			case <-time.After(10 * time.Millisecond):
			}
			worst = math.Max(worst, time.Since(t).Seconds()-0.01)
		}
	}()
	return func() bool {
		close(stop)
		wg.Wait()
		return worst < 0.1
	}
}

// idleRun: a tracker that comes to a generator which has had none for a while owes nothing
// for the time before it came: its first round counts from the round before, like any other.
func (c *C) idleRun() {
	for try := 0; ; try++ {
		interval := time.Duration(c.Int(20, 300)) * time.Millisecond
		idle := time.Duration(c.Int(1800, 3000)) * time.Millisecond
		left := c.Chance(0.5) // idle because the former ones have left
		g := c.generator(pick(c, 1, 2), pick(c, 1, 1024), interval)
		first, some := newSignal(), newSignal()
		var (
			mu   sync.Mutex
			tick float64
		)
		g.OnPacket(func(b []byte) {
			p, err := gpsgen.PacketFromBytes(b)
			mu.Lock()
			defer mu.Unlock()
			if err != nil || len(p.Devices) != 1 {
				return
			}
			if p.Devices[0].Id == "late" && !first.fired() {
				tick = p.Devices[0].Tick
				first.fire()
			}
			some.fire()
		})
		calmly := watchLoad()
		run := c.start(g)
		if left {
			c.attach(g, c.tracker("early", true))
			c.Await(some.ch, true, "waiting for a round")
			if err := g.Detach("early"); err != nil {
				c.Fail("time", "Detach = %v", err)
			}
		}
		time.Sleep(idle)
		c.attach(g, c.tracker("late", true))
		c.Await(first.ch, true, "waiting for the first round of a late tracker")
		g.Close()
		c.Await(run, false, "waiting for Run after Close")
		calm := calmly()
		c.Check()
		mu.Lock()
		got := tick
		mu.Unlock()
		c.Count("idle_runs", 1)
		if got < 1 {
			c.Fail("time", "the first round of a tracker advanced it by %v s, less than one second", got)
		}
		if got <= 1.5 {
			c.NonTrivial("idle %d", c.Idx)
			return
		}
		c.Logf("try %d: first tick %.3f s, calm=%v", try, got, calm)
		if try >= 2 && calm {
			c.Fail("time", "a generator with rounds every %v had no trackers for %v (former ones left: %v); the first round of a tracker attached then advanced it by %.3f s", interval, idle, left, got)
		}
		if try >= 8 {
			c.Count("wall_clock_undecided", 1)
			return
		}
	}
}

// stallRun: one round of a fast generator is held up much longer than its interval; the two
// rounds after it make up for it. However loaded the machine is, at least the time of the
// stall lies between the beginnings of the held-up round and of the second one after it.
func (c *C) stallRun() {
	interval := time.Duration(c.Int(20, 600)) * time.Millisecond
	g := c.generator(pick(c, 1, 2), 1024, interval)
	d := c.tracker("d", true)
	c.attach(g, d)
	stall := time.Duration(c.Int(2600, 4200)) * time.Millisecond
	block := c.Int(1, 3)
	var (
		mu     sync.Mutex
		done   = newSignal()
		rounds int
		durs   []float64
		start  = time.Now()
	)
	g.OnPacket(func(b []byte) {
		p, err := gpsgen.PacketFromBytes(b)
		mu.Lock()
		defer mu.Unlock()
		if err != nil || len(p.Devices) != 1 || done.fired() {
			return
		}
		rounds++
		durs = append(durs, p.Devices[0].Duration)
		if at, x := time.Since(start).Seconds(), p.Devices[0].Duration; x > at+float64(rounds)+0.002 {
			c.Async("time", "after %.3f s and %d rounds the tracker has advanced %.3f s", at, rounds, x)
		}
		if rounds == block {
			time.Sleep(stall)
		}
		if rounds == block+2 {
			done.fire()
		}
	})
	run := c.start(g)
	c.Await(done.ch, true, "waiting for rounds")
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	mu.Lock()
	defer mu.Unlock()
	got := durs[block+1] - durs[block-1]
	if got < stall.Seconds()-0.005 {
		c.Fail("time", "round %d of a generator with rounds every %v was held up for %v, but in the two rounds after it the tracker advanced only %.3f s", block, interval, stall, got)
	}
	c.Count("stalled_rounds", 1)
	c.NonTrivial("stall %v %v %d", interval, stall, block)
	c.Sample("rounds every %v, one held up for %v: the two rounds after it advanced %.3f s", interval, stall, got)
}
