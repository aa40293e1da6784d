package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
)

// ---------------------------------------------------------------- C07

type watch7 struct {
	mu      sync.Mutex
	packets map[string]int // by sorted ids
	byID    map[string]int
	bad     map[string]bool // ids that must not be delivered now
	errors  int
	nexts   int
	strict  bool // a failure has never been provoked or has long gone
	cond    func() bool
	sig     *signal
}

func (w *watch7) reset() {
	w.packets, w.byID = map[string]int{}, map[string]int{}
	w.errors, w.nexts = 0, 0
}

func (w *watch7) poke() {
	if w.sig != nil && !w.sig.fired() && (w.nexts > 200 || w.cond()) {
		w.sig.fire()
	}
}

// until waits for the condition or for 200 further rounds.
func (c *C) until7(w *watch7, run chan struct{}, what string, cond func() bool) (reached bool) {
	w.mu.Lock()
	w.nexts = 0
	w.cond, w.sig = cond, newSignal()
	sig := w.sig
	w.mu.Unlock()
	either := make(chan struct{})
	go func() {
		select {
		case <-sig.ch:
		case <-run:
		}
		close(either)
	}()
	c.Await(either, true, what)
	c.Check()
	select {
	case <-run:
		c.Fail("keeps-running", "the generator stopped by itself while %s", what)
	default:
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return cond()
}

func runC07(c *C) {
	workers := pick(c, 1, 2, 3, 4, 8, 16)
	n := pick(c, 1, 2, 30, 200, 300, 700, 1024, 1025, 1400)
	if c.Chance(0.6) {
		n = c.Int(1, 400)
	}
	huge := c.Chance(0.05)
	if huge {
		n = c.Int(1, 40)
	}
	g := c.generator(workers, 1024, pick(c, 200*time.Microsecond, time.Millisecond))
	ds := map[string]*gpsgen.Device{}
	var ids []string
	for i := 0; i < n; i++ {
		d := c.tracker(fmt.Sprintf("t%d", i), i%50 == 0)
		if i%7 == 0 {
			s, _ := gpsgen.NewSensor("sensor", 0, 1, 4, 0)
			d.AddSensor(s)
		}
		if huge && (i == 0 || c.Chance(0.05)) {
			d.SetDescription(strings.Repeat("tracker ", c.Int(100000, 800000)))
			c.Count("huge_descriptions", 1)
		}
		ds[d.ID()] = d
		ids = append(ids, d.ID())
		c.attach(g, d)
	}
	withErr := c.Chance(0.75)
	withPacket := !withErr || c.Chance(0.9)
	w := &watch7{bad: map[string]bool{}, strict: true}
	w.reset()
	if withPacket {
		g.OnPacket(func(b []byte) {
			p, err := gpsgen.PacketFromBytes(b)
			w.mu.Lock()
			defer w.mu.Unlock()
			if err != nil {
				c.Async("undecodable", "a delivered packet does not decode: %v", err)
				return
			}
			var l []string
			for _, d := range p.Devices {
				l = append(l, d.Id)
				w.byID[d.Id]++
				if w.bad[d.Id] {
					c.Async("delivered", "a packet with tracker %s, which cannot be encoded, was delivered", d.Id)
				}
			}
			if len(l) == 0 {
				c.Async("delivered", "a packet without trackers was delivered")
			}
			sort.Strings(l)
			w.packets[strings.Join(l, ",")]++
			w.poke()
		})
	}
	if withErr {
		g.OnError(func(err error) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if err == nil {
				c.Async("error", "the error handler was called without an error")
			}
			w.errors++
			if w.strict {
				c.Async("error", "the error handler was called although every tracker can be encoded: %v", err)
			}
			w.poke()
		})
	}
	g.OnNext(func() {
		w.mu.Lock()
		w.nexts++
		w.poke()
		w.mu.Unlock()
	})
	run := c.start(g)

	// learn which trackers share a packet
	everyID := func(k int) func() bool {
		return func() bool {
			if !withPacket {
				return w.nexts > 5
			}
			for _, id := range ids {
				if w.byID[id] < k {
					return false
				}
			}
			return true
		}
	}
	if !c.until7(w, run, "waiting for every tracker to be reported", everyID(3)) {
		c.Fail("delivered", "trackers that can be encoded are not delivered")
	}
	w.mu.Lock()
	group := map[string]string{}
	stable := true
	for key := range w.packets {
		for _, id := range strings.Split(key, ",") {
			if old, ok := group[id]; ok && old != key {
				stable = false
			}
			group[id] = key
		}
	}
	w.mu.Unlock()
	groups := map[string]bool{}
	for _, k := range group {
		groups[k] = true
	}
	if withPacket && !stable {
		c.Count("unstable_partitions", 1)
		groups = map[string]bool{}
	}
	phases := c.Int(1, 3)
	provoked, judged, errs := 0, 0, 0
	for ph := 0; ph < phases; ph++ {
		// make some trackers impossible to encode
		bad := map[string]bool{}
		undo := []func(){}
		for k := pick(c, 1, 1, 2, 5, n); k > 0; k-- {
			id := ids[c.IntN(n)]
			if bad[id] {
				continue
			}
			bad[id] = true
			d := ds[id]
			junk := pick(c, "\xff", "ab\xc3", "\xed\xa0\x80abc", "ok then \xfe")
			w.mu.Lock()
			w.strict = false
			w.mu.Unlock()
			switch c.IntN(4) {
			case 0:
				d.SetDescription(junk)
				undo = append(undo, func() { d.SetDescription("fine") })
			case 1:
				d.SetUserID(junk)
				undo = append(undo, func() { d.SetUserID("") })
			case 2:
				if err := d.SetModel("abc" + junk); err != nil {
					c.Fail("construct", "SetModel = %v", err)
				}
				undo = append(undo, func() { d.SetModel("model") })
			default:
				s, err := gpsgen.NewSensor(junk, 0, 1, 4, 0)
				if err != nil {
					c.Fail("construct", "NewSensor = %v", err)
				}
				d.AddSensor(s)
				undo = append(undo, func() { d.RemoveSensor(s.ID()) })
			}
			provoked++
		}
		var good []string
		badGroups := map[string]bool{}
		for id := range bad {
			badGroups[group[id]] = true
		}
		for k := range groups {
			if !badGroups[k] {
				good = append(good, k)
			}
		}
		sort.Strings(good)
		rounds := func(k int) func() bool {
			return func() bool {
				for _, x := range good {
					if w.packets[x] < k {
						return false
					}
				}
				if len(good) == 0 {
					if withErr {
						return w.errors >= k*max(1, len(badGroups))
					}
					return w.nexts > k+1
				}
				return true
			}
		}
		settle := func(cond func() bool, what, fail string) {
			w.mu.Lock()
			w.reset()
			w.mu.Unlock()
			if !c.until7(w, run, what, cond) {
				if fail == "" {
					fail = "after 200 rounds with trackers that cannot be encoded, trackers in other packets are not delivered or the error handler is not told"
				}
				c.Fail("delivered", "%s (fleet %d, %d workers, %d bad trackers, %d of %d packets affected, error handler %v, errors %d)",
					fail, n, workers, len(bad), len(badGroups), len(groups), withErr, w.errors)
			}
		}
		settle(rounds(2), "waiting for rounds with trackers that cannot be encoded", "")
		w.mu.Lock()
		w.bad = bad
		w.reset()
		w.mu.Unlock()
		want := c.Int(4, 8)
		if !c.until7(w, run, "waiting for rounds with trackers that cannot be encoded", rounds(want)) {
			c.Fail("delivered", "trackers in other packets are not delivered, or the error handler is not told (fleet %d, %d workers, error handler %v)", n, workers, withErr)
		}
		w.mu.Lock()
		e := w.errors
		kmin, kmax := 1<<30, 0
		for _, x := range good {
			kmin, kmax = min(kmin, w.packets[x]), max(kmax, w.packets[x])
		}
		w.mu.Unlock()
		if withErr && withPacket && stable && len(good) > 0 {
			b := len(badGroups)
			if e < (kmin-2)*b || e > (kmax+2)*b {
				c.Fail("error", "in %d to %d rounds with %d packets that cannot be encoded the error handler was called %d times (fleet %d, %d workers)", kmin, kmax, b, e, n, workers)
			}
			judged++
		}
		errs += e
		// and remove the cause
		w.mu.Lock()
		w.bad = map[string]bool{}
		w.mu.Unlock()
		for _, f := range undo {
			f()
		}
		settle(everyID(2), "waiting for delivery to resume", "delivery does not resume after the cause is gone")
		w.mu.Lock()
		w.reset()
		w.strict = true
		w.mu.Unlock()
		if !c.until7(w, run, "waiting for delivery after the cause is gone", everyID(2)) {
			c.Fail("delivered", "delivery does not resume after the cause is gone")
		}
		c.Count("recoveries", 1)
	}
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	c.Check()
	c.Count("trackers_made_unencodable", provoked)
	c.Count("errors_seen", errs)
	c.Count("windows_with_error_count_judged", judged)
	if !withErr {
		c.Count("cases_without_error_handler", 1)
	}
	if len(groups) > 1 {
		c.Count("cases_with_several_packets", 1)
	}
	c.NonTrivial("n=%d w=%d groups=%d provoked=%d err=%v pck=%v", n, workers, len(groups), provoked, withErr, withPacket)
	c.Sample("fleet %d in %d packets, %d trackers made impossible to encode in %d phases, %d errors, handlers %v/%v", n, len(groups), provoked, phases, errs, withErr, withPacket)
}
