package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"google.golang.org/protobuf/proto"
)

// ---------------------------------------------------------------- C02

func runC02(c *C) {
	switch c.IntN(4) {
	case 0:
		runC02Isolation(c)
	case 1:
		runC02Generator(c)
	default:
		runC02Register(c)
	}
}

// busyTracker has routes of several tracks and segments, sensors, and finishes laps quickly or not at all.
func (c *C) busyTracker(id string, long bool) (*gpsgen.Device, []*mRoute) {
	o := gpsgen.NewDeviceOptions()
	o.ID = id
	o.Model, o.Color = "model", "#ff8040"
	o.Navigator.SkipOffline = long || c.Chance(0.5)
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, 3
	o.Speed.Min, o.Speed.Max = 5, 50
	if long {
		o.Speed.Min, o.Speed.Max = 0.2, 0.5
	}
	o.Speed.Amplitude, o.Navigator.Elevation.Amplitude = 4, 4
	o.Battery.ChargeTime = 1e5 * time.Hour
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	var routes []*mRoute
	for k := c.Int(1, 3); k > 0; k-- {
		r := &mRoute{r: navigator.NewRoute()}
		r.id = r.r.ID()
		for j := c.Int(1, 3); j > 0; j-- {
			var t *mTrack
			if long {
				p := pt{Lat: c.Range(-40, 40), Lon: c.Range(-100, 100)}
				pts := []pt{p, {Lat: p.Lat + 5, Lon: p.Lon + 5}, {Lat: p.Lat + 1, Lon: p.Lon - 4}}
				nt, err := navigator.NewTrack(pts)
				if err != nil {
					c.Fail("construct", "NewTrack = %v", err)
				}
				t = modelTrack(nt, pts)
			} else {
				t = c.newTrack(3000)
			}
			r.r.AddTrack(t.t)
			r.tracks = append(r.tracks, t)
		}
		routes = append(routes, r)
		if err := d.AddRoute(r.r); err != nil {
			c.Fail("construct", "AddRoute = %v", err)
		}
	}
	for k := c.Int(0, 3); k > 0; k-- {
		s, err := gpsgen.NewSensor(fmt.Sprintf("sensor%d", k), 0, 10, 4, 0)
		if err != nil {
			c.Fail("construct", "NewSensor = %v", err)
		}
		d.AddSensor(s)
	}
	return d, routes
}

// runC02Register: one thread changes the tracker and notes the state after every change;
// whatever other threads read must be one of the noted states, of the right moment.
func runC02Register(c *C) {
	d, routes := c.busyTracker("d", false)
	ops := c.Int(60, 400)
	readers := c.Int(1, 5)
	type noted struct {
		st *pb.Device
		h  uint64
	}
	history := make([]noted, 1, ops+1)
	st := d.State()
	history[0] = noted{st, stateHash(st)}
	var begun, done atomic.Int64
	type seen struct {
		lo, hi int64
		st     *pb.Device
		h      uint64
	}
	got := make([][]seen, readers)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	snapToo := c.Chance(0.3)
	for k := 0; k < readers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if len(got[k]) > 1500 {
					time.Sleep(100 * time.Microsecond)
					continue
				}
				lo := done.Load()
				s := d.State()
				hi := begun.Load()
				got[k] = append(got[k], seen{lo, hi, s, stateHash(s)})
				if snapToo {
					d.Snapshot()
				}
				if i%16 == 0 {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}()
	}
	extra := c.newRoute(2, 3000)
	pat := ""
	for i := 0; i < ops; i++ {
		begun.Add(1)
		switch x := c.IntN(20); x {
		case 0:
			d.SetDescription(fmt.Sprintf("descr %d", i))
		case 1:
			d.SetModel(fmt.Sprintf("model-%d", i))
		case 2:
			r := c.IntN(len(routes))
			d.MoveToSegment(r, c.IntN(3), c.IntN(4))
		case 3:
			d.DestinationTo(c.Range(1, 9000))
		case 4:
			s, _ := gpsgen.NewSensor("more", 0, 10, 4, 0)
			d.AddSensor(s)
		case 5:
			d.ResetSensors()
		case 6:
			d.Update()
		case 7:
			if c.Chance(0.5) {
				d.AddRoute(extra.r)
			} else {
				d.RemoveRoute(extra.id)
			}
		case 8:
			d.SetColor(c.color())
		case 9:
			d.SetUserID(fmt.Sprintf("user %d", i))
		case 10:
			b, err := d.MarshalBinary()
			if err == nil && c.Chance(0.3) {
				if err := d.UnmarshalBinary(b); err != nil {
					c.Fail("restore", "UnmarshalBinary of own data = %v", err)
				}
			}
		default:
			d.Next(c.Range(0.1, 30))
		}
		st := d.State()
		history = append(history, noted{st, stateHash(st)})
		done.Store(int64(len(history) - 1))
		begun.Store(int64(len(history) - 1))
		if i%8 == 0 {
			time.Sleep(30 * time.Microsecond)
		}
	}
	close(stop)
	wg.Wait()
	total, distinct := 0, map[uint64]bool{}
	for k := range got {
		for _, s := range got[k] {
			total++
			ok := false
			for j := max(s.lo, 0); j <= s.hi && j < int64(len(history)); j++ {
				if history[j].h == s.h {
					ok = true
					break
				}
			}
			if !ok {
				best := ""
				for j := s.lo; j <= s.hi && j < int64(len(history)); j++ {
					best += fmt.Sprintf("\n  state %d differs in %s", j, diffMsg(history[j].st, s.st))
				}
				c.Fail("moment", "a state read while the tracker was changed is none of its states: read between changes %d and %d%s", s.lo, s.hi, best)
			}
			if stateHash(s.st) != s.h {
				c.Fail("isolation", "a state handed out earlier has changed since: %s", diffMsg(history[s.lo].st, s.st))
			}
			if s.hi > s.lo {
				distinct[s.h] = true
			}
		}
	}
	for j := range history {
		if stateHash(history[j].st) != history[j].h {
			c.Fail("isolation", "the state handed out after change %d has changed since", j)
		}
	}
	c.Count("states_read", total)
	c.Count("changes", ops)
	c.Count("states_read_during_a_change", len(distinct))
	c.NonTrivial("reg ops=%d readers=%d total=%d %s %s", ops, readers, total, pat, fpRoutes(routes))
	c.Sample("%d changes, %d threads read %d states, %d of them distinct and read during a change", ops, readers, total, len(distinct))
}

// runC02Isolation: changing what was handed out does not reach the tracker, and the other way round.
func runC02Isolation(c *C) {
	d, routes := c.busyTracker("d", false)
	for _, r := range routes {
		r.r.Props().Set("k", c.text(1, 9))
		for _, t := range r.tracks {
			if c.Chance(0.5) {
				t.t.Props().Set("p", c.IntN(1000))
			}
		}
	}
	d.Update()
	var g *gpsgen.Generator
	var run chan struct{}
	shelf := newShelf()
	if c.Chance(0.3) {
		g = c.generator(2, 1024, 300*time.Microsecond)
		c.attach(g, d)
		g.OnPacket(func(b []byte) {
			shelf.put(b)
			p, err := gpsgen.PacketFromBytes(b)
			if err != nil {
				c.Async("isolation", "a packet does not decode: %v", err)
				return
			}
			for _, x := range p.Devices {
				if x.Id != "d" || x.Model != "model" {
					c.Async("isolation", "a packet reports %q, model %q: a changed copy reached the tracker", x.Id, x.Model)
				}
			}
		})
		run = c.start(g)
	}
	n := c.Int(5, 30)
	type kept struct {
		m proto.Message
		h uint64
	}
	var keep []kept
	for i := 0; i < n; i++ {
		d.Next(c.Range(0.1, 20))
		s1, s2 := d.State(), d.Snapshot()
		keep = append(keep, kept{s1, stateHash(s1)}, kept{s2, stateHash(s2)})
		a, b := d.State(), d.Snapshot()
		ha, hb := stateHash(a), stateHash(b)
		x, y := d.State(), d.Snapshot()
		scribble(x.ProtoReflect())
		scribble(y.ProtoReflect())
		if g == nil {
			if after := d.State(); stateHash(after) != ha {
				c.Fail("isolation", "changing a state handed out changed the tracker: %s", diffMsg(a, after))
			}
			if after := d.Snapshot(); stateHash(after) != hb {
				c.Fail("isolation", "changing a snapshot handed out changed the tracker: %s", diffMsg(b, after))
			}
			c.Count("copies_changed", 2)
		} else if d.ID() != "d" || d.Model() != "model" {
			c.Fail("isolation", "changing a state handed out changed the tracker: id %q model %q", d.ID(), d.Model())
		}
		switch c.IntN(8) {
		case 0:
			d.ResetSensors()
		case 1:
			s, _ := gpsgen.NewSensor("more", 0, 10, 4, 0)
			d.AddSensor(s)
		case 2:
			d.MoveToSegment(c.IntN(2), c.IntN(2), c.IntN(3))
		case 3:
			d.SetDescription(c.text(0, 9))
		case 4:
			d.Update()
		case 5:
			if c.Chance(0.2) {
				d.ResetRoutes()
			}
		}
	}
	if g != nil {
		g.Close()
		c.Await(run, false, "waiting for Run after Close")
		c.Check()
		c.Count("copies_changed_while_running", n)
	}
	shelf.check(c, "isolation")
	d.Update()
	for i, k := range keep {
		if stateHash(k.m) != k.h {
			c.Fail("isolation", "a value handed out at step %d has changed since: %s", i/2, msgText(k.m))
		}
	}
	// lists handed out are copies
	d.AddRoute(c.newRoute(1, 3000).r, c.newRoute(1, 3000).r)
	rs := d.Routes()
	if len(rs) > 0 {
		before := d.RouteAt(0)
		rs[0] = nil
		if d.RouteAt(0) != before {
			c.Fail("isolation", "changing the list of routes handed out changed the tracker")
		}
	}
	c.Count("states_kept", len(keep))
	c.NonTrivial("iso n=%d gen=%v %s", n, g != nil, fpRoutes(routes))
}

// runC02Generator: packets and states read meanwhile belong to single moments.
func runC02Generator(c *C) {
	quiet := c.Chance(0.5) // only the generator steps the trackers: one state per duration
	g := c.generator(pick(c, 1, 2, 4, 8), 1024, pick(c, 300*time.Microsecond, time.Millisecond))
	n := c.Int(1, 12)
	ds := make([]*gpsgen.Device, n)
	models := map[string][]*mRoute{}
	for i := range ds {
		id := fmt.Sprintf("d%d", i)
		ds[i], models[id] = c.busyTracker(id, true)
	}
	c.attach(g, ds...)
	want := c.Int(8, 40)
	var mu sync.Mutex
	packets, entries, read := 0, 0, 0
	byDur := map[string]map[float64]*pb.Device{}
	for id := range models {
		byDur[id] = map[float64]*pb.Device{}
	}
	done := newSignal()
	judge := func(x *pb.Device, where string) {
		if msg := selfConsistent(x, models[x.Id]); msg != "" {
			c.Async("moment", "%s: %s: %s", where, msg, msgText(x))
			done.fire()
		}
		if !quiet {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		m := byDur[x.Id]
		if m == nil {
			return
		}
		if y := m[x.Duration]; y == nil {
			m[x.Duration] = x
		} else if diff := diffMsg(y, x); diff != "" {
			c.Async("moment", "%s: two different states of one moment (duration %v) of tracker %s: %s", where, x.Duration, x.Id, diff)
			done.fire()
		}
	}
	shelf := newShelf()
	g.OnPacket(func(b []byte) {
		shelf.put(b)
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			c.Async("moment", "a packet does not decode: %v", err)
			done.fire()
			return
		}
		mu.Lock()
		packets++
		entries += len(p.Devices)
		if packets >= want {
			done.fire()
		}
		mu.Unlock()
		for _, x := range p.Devices {
			judge(x, "packet")
		}
	})
	run := c.start(g)
	var wg sync.WaitGroup
	for k := c.Int(1, 3); k > 0; k-- {
		rc := newC(c.P, c.sh, c.Uint64(), c.Tier, c.Idx+1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000 && !done.fired(); i++ {
				d := ds[rc.IntN(len(ds))]
				switch x := rc.IntN(8); {
				case x < 4 || quiet:
					judge(d.State(), "state")
					mu.Lock()
					read++
					mu.Unlock()
				case x == 4:
					d.MoveToSegment(rc.IntN(3), rc.IntN(3), rc.IntN(2))
				case x == 5:
					d.DestinationTo(rc.Range(1, 3e6))
				case x == 6:
					d.Next(rc.Range(0.1, 5))
				default:
					d.SetDescription("x")
				}
				if i%4 == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}()
	}
	c.Await(done.ch, true, "waiting for packets")
	g.Close()
	c.Await(run, false, "waiting for Run after Close")
	wg.Wait()
	c.Check()
	shelf.check(c, "isolation")
	c.Count("packet_entries_judged", entries)
	c.Count("states_judged_while_running", read)
	c.NonTrivial("gen n=%d packets=%d read=%d quiet=%v", n, packets, read, quiet)
	c.Sample("generator with %d trackers, %d packets, %d entries, %d states read meanwhile", n, packets, entries, read)
}

// selfConsistent: the parts of one state belong to one step.
func selfConsistent(x *pb.Device, routes []*mRoute) string {
	if x.Distance.GetCurrentDistance() == 0 && x.Location.GetLat() == 0 {
		return "" // never stepped
	}
	ri, ti, si := int(x.Navigator.CurrentRouteIndex), int(x.Navigator.CurrentTrackIndex), int(x.Navigator.CurrentSegmentIndex)
	if ri < 0 || ri >= len(routes) || ti < 0 || ti >= len(routes[ri].tracks) || si < 0 || si >= len(routes[ri].tracks[ti].segs) {
		return fmt.Sprintf("indices %d/%d/%d do not exist", ri, ti, si)
	}
	t := routes[ri].tracks[ti]
	s := &t.segs[si]
	if x.Navigator.CurrentRouteId != routes[ri].id || x.Navigator.CurrentTrackId != t.id {
		return "identifiers and indices of route and track do not belong together"
	}
	if !near(x.Distance.SegmentDistance, s.L, 1e-6, 1e-9) || !near(x.Distance.TrackDistance, t.L(), 1e-6, 1e-9) || !near(x.Distance.RouteDistance, routes[ri].L(), 1e-6, 1e-9) {
		return "lengths do not belong to the current segment, track and route"
	}
	csd := x.Distance.CurrentSegmentDistance
	if csd > 0 {
		p := pt{Lat: x.Location.Lat, Lon: x.Location.Lon}
		ok := sphDist(sphAlong(s.A, s.B, csd), p) < 2e-3
		if !ok && si == 0 && sphDist(sphAlong(s.A, s.B, 1), p) < 2e-3 {
			ok = true
		}
		if !ok {
			return "the position is not where segment and odometer say"
		}
		if s.L > 0.01 && angDiff(sphBearing(s.A, s.B), x.Location.Bearing) > 1e-3 {
			return "the bearing is not the segment's"
		}
	}
	for i := 1; i < len(x.Sensors); i++ {
		if x.Sensors[i].ValX != x.Sensors[0].ValX {
			return "sensors of one shape are at different steps"
		}
	}
	if x.IsOffline != (x.OfflineDuration > 0) {
		return "offline status and remaining offline steps do not agree"
	}
	return ""
}

// shelf keeps packets as they were delivered, to see that they never change.
type shelf struct {
	mu   sync.Mutex
	kept [][]byte
	sums []uint64
}

func newShelf() *shelf { return &shelf{} }

func (s *shelf) put(b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.kept) < 200 {
		s.kept = append(s.kept, b)
		s.sums = append(s.sums, hash(string(b)))
	}
}

func (s *shelf) check(c *C, kind string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, b := range s.kept {
		if hash(string(b)) != s.sums[i] {
			c.Fail(kind, "packet %d of %d, kept since it was delivered, has changed", i+1, len(s.kept))
		}
	}
	c.Count("packets_kept", len(s.kept))
}
