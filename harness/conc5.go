package main

import (
	"fmt"
	"math"
	"sync"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
)

// ---------------------------------------------------------------- C09

// pacer watches the handlers of a running generator with a constant fleet. Rounds are
// counted by the entries delivered: round k is complete when k*n have been.
type pacer struct {
	c        *C
	n        int
	interval time.Duration
	born     time.Time

	mu        sync.Mutex
	begun     int // entries of packets whose handler has begun
	fin       int // entries of packets whose handler has returned
	roundEnd  int64
	calls     int // of the next handler
	inNext    int
	lastNext  int // rounds complete when the last call began
	holdAt    int // hold the first packet of this round or a later one
	held      *signal
	release   chan struct{}
	holdNext  bool
	heldNext  *signal
	freeNext  chan struct{}
	waitNext  int // fire gotNext when a call begins with this many rounds complete
	gotNext   *signal
	waitRound int
	gotRound  *signal
	owner     int // handlers of this generation are installed
	limit     int // entries that handlers of a former generation may still get
	stray     int // calls of former next handlers after they were replaced
	packets   int
	slow      func(int)
	slowNext  time.Duration
	ended     bool
}

func (p *pacer) pace(what string, k int) {
	if el := time.Since(p.born); float64(k) > float64(el)/float64(p.interval)+1 {
		p.c.Async("pace", "%s %d comes %v after the generator was made with an interval of %v", what, k, el, p.interval)
	}
}

func (p *pacer) onPacket(gen int) func([]byte) {
	return func(b []byte) {
		now := time.Now().Unix()
		pck, err := gpsgen.PacketFromBytes(b)
		p.mu.Lock()
		defer p.mu.Unlock()
		if err != nil {
			p.c.Async("packet", "a packet does not decode: %v", err)
			return
		}
		first := p.begun%max(p.n, 1) == 0
		round := p.begun/max(p.n, 1) + 1
		if gen != p.owner {
			if p.begun+len(pck.Devices) > p.limit {
				p.c.Async("handler", "a packet handler that has been replaced during round %d gets a packet of round %d", p.limit/max(p.n, 1), round)
			}
		}
		p.begun += len(pck.Devices)
		p.packets++
		if pck.Timestamp < p.roundEnd || pck.Timestamp > now {
			p.c.Async("timestamp", "a packet of round %d bears the time %d; the round before ended at %d, and the packet was delivered at %d", round, pck.Timestamp, p.roundEnd, now)
		}
		if first {
			p.pace("round", round)
		}
		if p.holdAt > 0 && round >= p.holdAt && first && gen == p.owner {
			p.holdAt = 0
			p.held.fire()
			ch := p.release
			p.mu.Unlock()
			<-ch
			p.mu.Lock()
		} else if p.slow != nil {
			k := p.packets
			p.mu.Unlock()
			p.slow(k)
			p.mu.Lock()
		}
		p.fin += len(pck.Devices)
		if p.n > 0 && p.fin%p.n == 0 {
			p.roundEnd = time.Now().Unix()
			if p.waitRound > 0 && p.fin/p.n >= p.waitRound {
				p.waitRound = 0
				p.gotRound.fire()
			}
		}
	}
}

func (p *pacer) onNext(gen int) func() {
	return func() {
		p.mu.Lock()
		defer p.mu.Unlock()
		if gen != p.owner {
			if p.stray++; p.stray > 1 {
				p.c.Async("handler", "a next handler that has been replaced is called again and again")
			}
		}
		p.calls++
		p.inNext++
		defer func() { p.inNext-- }()
		if p.inNext > 1 {
			p.c.Async("next", "the next handler is called while it is still running")
		}
		if p.n > 0 {
			p.lastNext = p.fin / p.n
			if p.calls > p.lastNext {
				p.c.Async("next", "the next handler is called for the %dth time when %d rounds have been delivered completely (%d of %d entries of the next one)", p.calls, p.lastNext, p.fin%p.n, p.n)
			}
		} else {
			p.lastNext = p.calls
			p.pace("announcement", p.calls)
		}
		if p.waitNext > 0 && p.lastNext >= p.waitNext {
			p.waitNext = 0
			p.gotNext.fire()
		}
		if p.holdNext {
			p.holdNext = false
			p.heldNext.fire()
			ch := p.freeNext
			p.mu.Unlock()
			<-ch
			p.mu.Lock()
		} else if p.slowNext > 0 {
			p.mu.Unlock()
			time.Sleep(p.slowNext)
			p.mu.Lock()
		}
	}
}

func (p *pacer) install(g *gpsgen.Generator, gen int) {
	p.mu.Lock()
	p.owner = gen
	p.stray = 0
	p.mu.Unlock()
	g.OnPacket(p.onPacket(gen))
	g.OnNext(p.onNext(gen))
}

// hold stops the generator in the first packet of a round; it returns the round.
func (p *pacer) hold() int {
	p.mu.Lock()
	p.held, p.release = newSignal(), make(chan struct{})
	p.holdAt = p.begun/p.n + 1
	sig := p.held
	p.mu.Unlock()
	p.c.Await(sig.ch, true, "waiting for the next round")
	p.c.Check()
	p.mu.Lock()
	defer p.mu.Unlock()
	// entries of the held packet have begun
	return (p.begun-1)/p.n + 1
}

// quiet lets rounds pass without a next handler and registers one during a round.
func (p *pacer) quiet(g *gpsgen.Generator, gen int) {
	p.mu.Lock()
	p.waitRound, p.gotRound = p.fin/p.n+p.c.Int(1, 4), newSignal()
	sig := p.gotRound
	p.mu.Unlock()
	p.c.Await(sig.ch, true, "waiting for rounds while there is no next handler")
	p.c.Check()
	p.hold()
	g.OnNext(p.onNext(gen))
	close(p.release)
}

// announced waits until the next handler has been called after the given round.
func (p *pacer) announced(round int) {
	p.mu.Lock()
	if p.lastNext >= round {
		p.mu.Unlock()
		return
	}
	p.waitNext, p.gotNext = round, newSignal()
	sig := p.gotNext
	p.mu.Unlock()
	p.c.Await(sig.ch, false, fmt.Sprintf("waiting for the next handler to be called after round %d, while round %d is being delivered", round, round+1))
	p.c.Check()
}

func runC09(c *C) {
	switch {
	case c.Idx == 6:
		c.steadyRun(nil, 3*time.Second, 1)
		return
	case c.Idx == 7:
		c.steadyRun(&gpsgen.Options{Interval: time.Duration(-c.IntN(2))}, time.Second, 2)
		return
	case c.Idx < 40 || c.Chance(0.01):
		if c.Idx >= 8 {
			iv := time.Duration(c.Int(20, 60)) * time.Millisecond
			c.steadyRun(&gpsgen.Options{Interval: iv, PacketSize: pick(c, 0, 2000), NumWorkers: c.Int(1, 4)}, iv, 8)
			return
		}
	}
	if c.Idx < 6 || c.Chance(0.03) {
		runC09Options(c)
		return
	}
	n := pick(c, 0, 1, 1, 2, 10, 100, 300)
	if c.Chance(0.05) {
		n = pick(c, 1024, 1025, 1500)
	}
	workers := pick(c, 1, 2, 3, 4, 8, 16)
	p := &pacer{c: c, n: n, interval: pick(c, 100*time.Microsecond, 500*time.Microsecond, time.Millisecond, 3*time.Millisecond)}
	if c.Chance(0.5) {
		p.slow = c.noiseFn()
	}
	if c.Chance(0.3) {
		p.slowNext = time.Duration(c.Int(1, 3000)) * time.Microsecond
	}
	p.born = time.Now()
	g := c.generator(workers, 1024, p.interval)
	for i := 0; i < n; i++ {
		c.attach(g, c.tracker(fmt.Sprintf("t%d", i), i < 2))
	}
	late := c.Chance(0.25)
	if late {
		g.OnPacket(p.onPacket(0))
	} else {
		p.install(g, 0)
	}
	p.roundEnd = time.Now().Unix()
	run := c.start(g)
	gen := 0
	history := ""
	if late { // the next handler is registered when rounds have taken place without
		if n == 0 {
			time.Sleep(time.Duration(c.Int(1, 5)) * p.interval)
			g.OnNext(p.onNext(0))
		} else {
			p.quiet(g, 0)
		}
		history = "l"
		c.Count("handlers_registered_late", 1)
	}
	if n == 0 {
		// rounds without trackers are announced as well
		for k := c.Int(1, 4); k > 0; k-- {
			p.mu.Lock()
			p.waitNext, p.gotNext = p.lastNext+c.Int(1, 4), newSignal()
			sig := p.gotNext
			p.mu.Unlock()
			c.Await(sig.ch, true, "waiting for rounds without trackers to be announced")
			c.Check()
		}
		history += "empty"
		c.Count("announcements_without_trackers", p.calls)
	} else {
		for k := c.Int(3, 12); k > 0; k-- {
			switch c.IntN(7) {
			case 6: // rounds pass without a next handler, then there is one again
				r := p.hold()
				p.announced(r - 1)
				gen++
				p.mu.Lock()
				p.limit, p.owner, p.stray = r*n, gen, 0
				p.mu.Unlock()
				g.OnPacket(p.onPacket(gen))
				g.OnNext(nil)
				close(p.release)
				p.quiet(g, gen)
				history += "q"
				c.Count("rounds_without_handler", 1)
			case 0, 1: // every round is announced
				r := p.hold()
				p.announced(r - 1)
				close(p.release)
				history += "h"
				c.Count("rounds_held", 1)
			case 2, 3: // also those that end while the handler is busy
				p.mu.Lock()
				p.holdNext, p.heldNext, p.freeNext = true, newSignal(), make(chan struct{})
				sig := p.heldNext
				p.mu.Unlock()
				if !sig.within(3 * time.Second) {
					// a generator that is kept busy by its rounds: stop it in one
					p.hold()
					close(p.release)
					p.hold()
					c.Await(sig.ch, false, "waiting for the last round to be announced while the next one is being delivered")
					close(p.release)
				}
				c.Check()
				p.mu.Lock()
				p.waitRound, p.gotRound = p.fin/n+c.Int(1, 4), newSignal()
				sig = p.gotRound
				p.mu.Unlock()
				c.Await(sig.ch, true, "waiting for rounds while the next handler is busy")
				r := p.hold()
				close(p.freeNext)
				p.announced(r - 1)
				close(p.release)
				history += "b"
				c.Count("rounds_while_busy", 1)
			case 4: // handlers that were replaced are not called any more
				r := p.hold()
				p.announced(r - 1)
				gen++
				p.mu.Lock()
				p.limit = r * n
				p.mu.Unlock()
				p.install(g, gen)
				close(p.release)
				history += "r"
				c.Count("handlers_replaced", 1)
			case 5: // a packet of the next second bears another time
				if !c.Chance(0.1) {
					continue
				}
				p.hold()
				now := time.Now()
				time.Sleep(now.Truncate(time.Second).Add(time.Second + time.Millisecond).Sub(now))
				close(p.release)
				history += "t"
				c.Count("second_boundaries", 1)
			}
		}
		r := p.hold()
		p.announced(r - 1)
		close(p.release)
		if c.Chance(0.4) {
			// handlers that were removed
			r := p.hold()
			p.announced(r - 1)
			p.mu.Lock()
			p.owner, p.limit, p.stray = -1, r*n, 0
			p.mu.Unlock()
			g.OnPacket(nil)
			g.OnNext(nil)
			close(p.release)
			time.Sleep(4*p.interval + time.Millisecond)
			history += "0"
			c.Count("handlers_removed", 1)
		}
	}
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	c.Count("rounds", p.fin/max(n, 1))
	c.Count("packets", p.packets)
	c.Count("announcements", p.calls)
	c.NonTrivial("n=%d w=%d %v %s", n, workers, p.interval, history)
	c.Sample("fleet %d, %d workers, every %v: %d rounds in %d packets, %d announcements (%s)", n, workers, p.interval, p.fin/max(n, 1), p.packets, p.calls, history)
}

// runC09Options: options out of range count as the documented ones.
func runC09Options(c *C) {
	o := &gpsgen.Options{
		Interval:   pick(c, 200*time.Microsecond, 2*time.Millisecond),
		PacketSize: pick(c, 0, -1, 1, 10, 1023, 1024, 1025, 3000),
		NumWorkers: pick(c, 0, -1, -1000, 1, 3, 1500),
	}
	wantInterval := o.Interval
	want := 3
	switch {
	case c.Idx < 2:
		o.Interval, wantInterval = time.Duration(-c.IntN(2)), time.Second
		want = 2
	case c.Idx == 2:
		o, wantInterval, want = nil, 3*time.Second, 1
	case c.Idx == 3:
		o = gpsgen.NewOptions()
		wantInterval, want = 3*time.Second, 1
		if o.Interval != 3*time.Second || o.PacketSize != 8192 || o.NumWorkers != 4 {
			c.Fail("options", "NewOptions gives %v, %d, %d", o.Interval, o.PacketSize, o.NumWorkers)
		}
	}
	asked := "no options"
	if o != nil {
		asked = fmt.Sprintf("interval %v, packet size %d, %d workers", o.Interval, o.PacketSize, o.NumWorkers)
	}
	size := 1024
	if o == nil {
		size = 8192
	} else {
		size = max(size, o.PacketSize)
	}
	n := pick(c, 1, 10, 1024)
	if c.Chance(0.2) {
		n = 2000
	}
	p := &pacer{c: c, n: n, interval: wantInterval, born: time.Now(), roundEnd: time.Now().Unix()}
	g := gpsgen.New(o)
	for i := 0; i < n; i++ {
		c.attach(g, c.tracker(fmt.Sprintf("t%d", i), i < 1))
	}
	p.install(g, 0)
	largest := 0
	inner := p.onPacket(0)
	var mu sync.Mutex
	g.OnPacket(func(b []byte) {
		if x, err := gpsgen.PacketFromBytes(b); err == nil {
			mu.Lock()
			largest = max(largest, len(x.Devices))
			mu.Unlock()
		}
		inner(b)
	})
	p.waitRound, p.gotRound = want, newSignal()
	sig := p.gotRound
	run := c.start(g)
	c.Await(sig.ch, true, "waiting for rounds of a generator with "+asked)
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	if largest > size {
		c.Fail("options", "a generator with %s makes packets of %d trackers", asked, largest)
	}
	if p.calls > p.fin/n {
		c.Fail("next", "%d announcements of %d rounds (%s)", p.calls, p.fin/n, asked)
	}
	c.Count("options_tried", 1)
	c.Count("rounds", p.fin/n)
	c.Count("packets", p.packets)
	c.NonTrivial("%s n=%d", asked, n)
	c.Sample("%s, fleet %d: %d rounds, largest packet %d", asked, n, p.fin/n, largest)
}

// steadyRun: rounds that take less than the interval follow each other once per interval,
// however much of it their handlers take; the first one comes an interval after the generator
// was made. A machine that does not keep up is told from a late generator by several tries.
func (c *C) steadyRun(opts *gpsgen.Options, interval time.Duration, rounds int) {
	share := pick(c, 0, 0.3, 0.5, 0.65)
	nextShare := pick(c, 0, 0.5, 2.5)
	n := c.Int(1, 5)
	for try := 0; ; try++ {
		var o *gpsgen.Options
		if opts != nil {
			x := *opts
			o = &x
		}
		calmly := watchLoad()
		born := time.Now()
		g := gpsgen.New(o)
		for i := 0; i < n; i++ {
			c.attach(g, c.tracker(fmt.Sprintf("t%d", i), true))
		}
		var (
			mu     sync.Mutex
			starts []time.Time
			done   = newSignal()
		)
		g.OnPacket(func([]byte) {
			mu.Lock()
			starts = append(starts, time.Now())
			if len(starts) >= rounds {
				done.fire()
			}
			mu.Unlock()
			time.Sleep(time.Duration(share * float64(interval)))
		})
		g.OnNext(func() { time.Sleep(time.Duration(nextShare * float64(interval))) })
		run := c.start(g)
		c.Await(done.ch, true, "waiting for rounds")
		g.Close()
		c.Await(run, false, "waiting for Run after Close")
		c.Check()
		calm := calmly()
		mu.Lock()
		first := starts[0].Sub(born)
		least := time.Duration(math.MaxInt64)
		for i := 1; i < rounds; i++ {
			least = min(least, starts[i].Sub(starts[i-1]))
		}
		mu.Unlock()
		late := ""
		switch {
		case float64(first) > 1.35*float64(interval)+1e7:
			late = fmt.Sprintf("the first round comes %v after the generator was made", first)
		case rounds > 2 && float64(least) > 1.2*float64(interval):
			late = fmt.Sprintf("no two of %d rounds follow each other within %v", rounds, least)
		}
		c.Count("steady_runs", 1)
		c.Count("rounds", rounds)
		if late == "" {
			c.NonTrivial("steady %v %v %v %d", interval, share, nextShare, n)
			return
		}
		c.Logf("try %d: %s, calm=%v", try, late, calm)
		if try >= 2 && calm {
			c.Fail("pace", "in three runs: interval %v, packet handlers take %.2f of it, the next handler %.2f: %s", interval, share, nextShare, late)
		}
		if try >= 8 {
			c.Count("steady_runs_undecided", 1)
			return
		}
	}
}
