package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---------------------------------------------------------------- C03

// storm is a set of generators and trackers that many threads use at once.
type storm struct {
	gens     []*gpsgen.Generator
	devs     []*gpsgen.Device
	ids      []string
	routeIDs [][]string
	trackIDs [][]string
	blobs    [][]byte // encoded trackers
	used     [64]atomic.Int64
	deny     bool // no Close by the operations
	noCB     bool
	seq      atomic.Uint64
	stop     atomic.Bool
}

type stormOp struct {
	name string
	fn   func(s *storm, c *C)
}

func (s *storm) dev(c *C) (*gpsgen.Device, int) {
	i := c.IntN(len(s.devs))
	return s.devs[i], i
}

func (s *storm) gen(c *C) *gpsgen.Generator { return s.gens[c.IntN(len(s.gens))] }

func (s *storm) rid(c *C, i int) string { return s.routeIDs[i][c.IntN(len(s.routeIDs[i]))] }
func (s *storm) tid(c *C, i int) string { return s.trackIDs[i][c.IntN(len(s.trackIDs[i]))] }

var stormOps []stormOp

func init() { stormOps = stormTable }

var stormTable = []stormOp{
	{"next", func(s *storm, c *C) { d, _ := s.dev(c); d.Next(c.tick()) }},
	{"next", func(s *storm, c *C) { d, _ := s.dev(c); d.Next(c.tick()) }},
	{"state", func(s *storm, c *C) { d, _ := s.dev(c); d.State() }},
	{"update", func(s *storm, c *C) { d, _ := s.dev(c); d.Update() }},
	{"getters", func(s *storm, c *C) {
		d, _ := s.dev(c)
		d.ID()
		d.Model()
		d.UserID()
		d.Color()
		d.Descr()
		d.Status()
		d.Duration()
		d.Version()
		d.NumRoutes()
		d.NumSensors()
	}},
	{"place", func(s *storm, c *C) {
		d, _ := s.dev(c)
		d.Location()
		d.CurrentBearing()
		d.Distance()
		d.CurrentDistance()
		d.RouteDistance()
		d.CurrentRouteDistance()
		d.TrackDistance()
		d.CurrentTrackDistance()
		d.SegmentDistance()
		d.CurrentSegmentDistance()
		d.RouteIndex()
		d.TrackIndex()
		d.SegmentIndex()
		d.IsOffline()
		d.IsFinish()
	}},
	{"elements", func(s *storm, c *C) {
		d, i := s.dev(c)
		d.CurrentRoute()
		d.CurrentTrack()
		d.CurrentSegment()
		d.RouteAt(c.Int(-1, 3))
		d.Routes()
		d.EachRoute(func(int, *navigator.Route) bool { return true })
		d.Sensors()
		d.SensorAt(c.Int(-1, 3))
		d.SensorByID(s.rid(c, i))
		d.EachSensor(func(int, *gpsgen.Sensor) bool { return true })
	}},
	{"labels", func(s *storm, c *C) {
		d, _ := s.dev(c)
		switch c.IntN(4) {
		case 0:
			d.SetModel("model-" + c.text(0, 5))
		case 1:
			d.SetUserID(c.text(0, 9))
		case 2:
			d.SetColor(c.color())
		default:
			t := c.text(0, 9)
			if c.Chance(0.05) {
				t = "\xff\xfe"
			}
			d.SetDescription(t)
		}
	}},
	{"add-sensor", func(s *storm, c *C) {
		d, _ := s.dev(c)
		x, err := gpsgen.NewSensor("sensor", 0, c.Range(0, 9), c.Int(4, 16), 0)
		if err == nil && d.NumSensors() < 8 {
			d.AddSensor(x)
			if c.Chance(0.5) {
				d.RemoveSensor(x.ID())
			}
		}
	}},
	{"reset-sensors", func(s *storm, c *C) { d, _ := s.dev(c); d.ResetSensors() }},
	{"add-route", func(s *storm, c *C) {
		d, _ := s.dev(c)
		if d.NumRoutes() > 5 {
			return
		}
		r := c.newRoute(2, 3000)
		if len(r.tracks) == 0 {
			return
		}
		rid, tid := r.id, r.tracks[0].id
		d.AddRoute(r.r)
		if c.Chance(0.5) {
			d.RemoveTrack(rid, tid)
		}
		if c.Chance(0.5) {
			d.RemoveRoute(rid)
		}
	}},
	{"reset-routes", func(s *storm, c *C) {
		if c.Chance(0.1) {
			d, _ := s.dev(c)
			d.ResetRoutes()
		}
	}},
	{"move", func(s *storm, c *C) {
		d, i := s.dev(c)
		switch c.IntN(9) {
		case 0:
			d.MoveToSegment(c.Int(-1, 3), c.Int(-1, 3), c.Int(-1, 4))
		case 1:
			d.MoveToTrack(c.Int(-1, 3), c.Int(-1, 3))
		case 2:
			d.MoveToRoute(c.Int(-1, 3))
		case 3:
			d.MoveToTrackByID(s.rid(c, i), s.tid(c, i))
		case 4:
			d.MoveToRouteByID(s.rid(c, i))
		case 5:
			d.ToNextRoute()
		case 6:
			d.ToPrevRoute()
		case 7:
			d.ToOffline()
		default:
			d.DestinationTo(c.Range(0, 1e4))
		}
	}},
	{"reset-navigator", func(s *storm, c *C) { d, _ := s.dev(c); d.ResetNavigator() }},
	{"snapshot", func(s *storm, c *C) { d, _ := s.dev(c); d.Snapshot() }},
	{"encode", func(s *storm, c *C) {
		d, _ := s.dev(c)
		b, err := gpsgen.EncodeTracker(d)
		if err == nil && c.Chance(0.3) {
			gpsgen.DecodeTracker(b)
		}
	}},
	{"restore", func(s *storm, c *C) {
		// only a tracker of the reserve, which is never attached
		i := c.IntN(len(s.blobs))
		s.devs[i].UnmarshalBinary(s.blobs[c.IntN(len(s.blobs))])
	}},
	{"attach", func(s *storm, c *C) {
		i := c.IntN(len(s.devs))
		if i >= len(s.blobs) {
			s.gen(c).Attach(s.devs[i])
		}
	}},
	{"detach", func(s *storm, c *C) { s.gen(c).Detach(s.ids[c.IntN(len(s.ids))]) }},
	{"registry", func(s *storm, c *C) {
		g := s.gen(c)
		id := s.ids[c.IntN(len(s.ids))]
		g.HasTracker(id)
		if d, ok := g.Lookup(id); ok {
			d.State()
		}
		g.NumDevices()
	}},
	{"each", func(s *storm, c *C) {
		s.gen(c).Each(func(_ int, d *gpsgen.Device) bool {
			d.ID()
			return true
		})
	}},
	{"handlers", func(s *storm, c *C) {
		if s.noCB {
			return
		}
		s.setHandler(s.gen(c), c, c.IntN(3))
	}},
	{"create", func(s *storm, c *C) {
		switch c.IntN(12) {
		case 0:
			gpsgen.NewTracker()
		case 1:
			gpsgen.NewKidsTracker()
		case 2:
			gpsgen.NewAnimalTracker()
		case 3:
			gpsgen.NewBicycleTracker()
		case 4:
			gpsgen.NewDroneTracker()
		case 5:
			gpsgen.RandomRoute(c.Range(-100, 100), c.Range(-60, 60), c.Int(1, 3), c.Int(1, 6))
		case 6:
			gpsgen.RandomRouteForParis()
		case 7:
			random.LatLonByCountry("fr")
		case 8:
			random.LatLon()
		case 9:
			random.String(8)
		case 10:
			g := gpsgen.New(nil)
			g.Close()
		default:
			gpsgen.NewDevice(nil)
		}
	}},
	{"codecs", func(s *storm, c *C) {
		// things of this thread alone: whatever they share with those of others must be safe
		n := c.Int(1, 2)
		routes := make([]*navigator.Route, 0, n)
		for i := 0; i < n; i++ {
			r := c.newRoute(2, 3000)
			for k := c.Int(0, 3); k > 0; k-- {
				r.r.Props().Set(fmt.Sprintf("k%d", k), c.IntN(100))
			}
			for j := 0; j < r.r.NumTracks(); j++ {
				r.r.TrackAt(j).Props().Set("t", j)
			}
			routes = append(routes, r.r)
		}
		switch c.IntN(5) {
		case 0:
			if b, err := gpsgen.EncodeRoutes(routes); err == nil {
				gpsgen.DecodeRoutes(b)
			}
		case 1:
			if b, err := gpsgen.EncodeGeoJSONRoutes(routes); err == nil {
				gpsgen.DecodeGeoJSONRoutes(b)
			}
		case 2:
			if b, err := gpsgen.EncodeGPXRoutes(routes); err == nil {
				gpsgen.DecodeGPXRoutes(b)
			}
		case 3:
			if x, err := gpsgen.NewSensor("sensor", 0, 5, c.Int(4, 16), types.WithSensorEndMode); err == nil {
				x.Next(c.Float64())
				x.Shuffle()
				if b, err := gpsgen.EncodeSensors([]*gpsgen.Sensor{x}); err == nil {
					gpsgen.DecodeSensors(b)
				}
			}
		default:
			x, err := navigator.New()
			if err != nil {
				return
			}
			x.AddRoute(routes...)
			for k := c.Int(1, 9); k > 0; k-- {
				x.NextLocation(1, c.Range(0, 200))
				x.NextElevation(c.Float64())
			}
			x.DestinationTo(c.Range(0, 3000))
			x.Update(new(pb.Device))
			y := new(navigator.Navigator)
			y.FromSnapshot(x.Snapshot())
			y.NextLocation(1, 5)
		}
	}},
	{"tables", func(s *storm, c *C) {
		code := pick(c, "de", "FR", "us", "RU", "xx", "nz")
		switch c.IntN(5) {
		case 0:
			random.LatLonByCountry(code)
		case 1:
			random.BoundingBox(code)
		case 2:
			random.CountryName(code)
		case 3:
			random.EachCountry(func(string, string) {})
		default:
			random.Polygon(c.Int(1, 20), c.Range(0, 10))
			types.RandomModel()
		}
	}},
	{"close", func(s *storm, c *C) {
		if !s.deny && c.Chance(0.01) {
			s.gen(c).Close()
		}
	}},
}

// setHandler installs a fresh handler that itself uses the generators and trackers.
func (s *storm) setHandler(g *gpsgen.Generator, c *C, which int) {
	inside := func() {
		if s.stop.Load() {
			return
		}
		rc := newC(c.P, c.sh, c.Seed^0xABCD, c.Tier, int(s.seq.Add(1))<<20|c.Idx)
		for k := rc.IntN(4); k > 0; k-- {
			s.op(rc)
		}
	}
	switch which {
	case 0:
		if c.Chance(0.1) {
			g.OnPacket(nil)
			return
		}
		g.OnPacket(func(b []byte) {
			c.Count("packets", 1)
			gpsgen.PacketFromBytes(b)
			inside()
		})
	case 1:
		g.OnError(func(error) { c.Count("errors", 1); inside() })
	default:
		g.OnNext(func() { c.Count("nexts", 1); inside() })
	}
}

func (s *storm) op(c *C) {
	i := c.IntN(len(stormOps))
	stormOps[i].fn(s, c)
	s.used[i].Add(1)
}

func runC03(c *C) {
	s := &storm{deny: c.Chance(0.7)}
	for k := c.Int(1, 3); k > 0; k-- {
		s.gens = append(s.gens, c.generator(pick(c, 1, 2, 4, 9), 1024, pick(c, 200*time.Microsecond, time.Millisecond)))
	}
	n := c.Int(4, 24)
	if c.Chance(0.1) {
		n = c.Int(1030, 1100)
	}
	reserve := c.Int(1, 3)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("d%d", i)
		var d *gpsgen.Device
		var routes []*mRoute
		if i < 24 {
			d, routes = c.busyTracker(id, c.Chance(0.3))
		} else {
			d = c.tracker(id, false)
		}
		s.devs, s.ids = append(s.devs, d), append(s.ids, id)
		rids, tids := []string{"none"}, []string{"none"}
		for _, r := range routes {
			rids = append(rids, r.id)
			for _, t := range r.tracks {
				tids = append(tids, t.id)
			}
		}
		s.routeIDs, s.trackIDs = append(s.routeIDs, rids), append(s.trackIDs, tids)
		if i < reserve {
			b, err := d.MarshalBinary()
			if err != nil {
				c.Fail("construct", "MarshalBinary = %v", err)
			}
			s.blobs = append(s.blobs, b)
		} else {
			c.attach(s.gens[i%len(s.gens)], d)
		}
	}
	for _, g := range s.gens {
		for k := 0; k < 3; k++ {
			if c.Chance(0.8) {
				s.setHandler(g, c, k)
			}
		}
	}
	var runs []chan struct{}
	for _, g := range s.gens {
		runs = append(runs, c.start(g))
	}
	threads := c.Int(2, 6)
	per := c.Int(100, 400)
	if n > 100 {
		per = 60
	}
	var wg sync.WaitGroup
	for k := 0; k < threads; k++ {
		rc := newC(c.P, c.sh, c.Uint64(), c.Tier, c.Idx+1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				s.op(rc)
				if i%8 == 0 {
					time.Sleep(time.Duration(rc.IntN(300)) * time.Microsecond)
				}
			}
		}()
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	c.Await(all, true, "waiting for concurrent operations to return")
	s.stop.Store(true)
	for i, g := range s.gens {
		g.Close()
		c.Await(runs[i], false, "waiting for Run after Close")
	}
	kinds, total := 0, 0
	for i := range stormOps {
		k := int(s.used[i].Load())
		total += k
		if k > 0 {
			kinds++
		}
		c.Count("op_"+stormOps[i].name, k)
	}
	c.Count("operations", total)
	c.NonTrivial("g=%d n=%d t=%d ops=%d kinds=%d", len(s.gens), n, threads, total, kinds)
	c.Sample("%d generators, %d trackers, %d threads: %d operations of %d kinds", len(s.gens), n, threads, total, kinds)
}

// ---------------------------------------------------------------- C04

func runC04(c *C) {
	n := pick(c, 0, 1, 10, 100, 1024, 1025, 2100)
	workers := pick(c, 1, 2, 3, 4, 8, 16, 1024)
	interval := pick(c, 100*time.Microsecond, 500*time.Microsecond, 2*time.Millisecond)
	where := c.IntN(10)
	if where <= 2 && c.Chance(0.5) {
		interval = time.Hour // never ticks
	}
	if n == 0 && where >= 5 {
		n = 1
	}
	g := c.generator(workers, 1024, interval)
	bad := where == 6
	for i := 0; i < n; i++ {
		d := c.tracker(fmt.Sprintf("t%d", i), i < 3)
		if bad && (i == 0 || c.Chance(0.3)) {
			d.SetDescription("\xff")
		}
		c.attach(g, d)
	}
	var (
		ended  atomic.Bool
		active atomic.Int64
		calls  atomic.Int64
		kPack  atomic.Int64
		kErr   atomic.Int64
		kNext  atomic.Int64
	)
	at := int64(c.Int(1, 7))
	slow := time.Duration(0)
	if c.Chance(0.4) {
		slow = time.Duration(c.Int(50, 3000)) * time.Microsecond
	}
	closed := newSignal()
	closing := func() {
		t := make(chan struct{})
		go func() {
			g.Close()
			close(t)
		}()
		c.Await(t, true, "waiting for Close to return")
		closed.fire()
	}
	inCallback := func() {
		g.Close()
		if c.Idx%3 == 0 {
			g.Close()
		}
		closed.fire()
	}
	enter := func() func() {
		active.Add(1)
		calls.Add(1)
		if ended.Load() {
			c.Async("silence", "a callback was invoked after Run had returned")
		}
		return func() {
			if slow > 0 {
				time.Sleep(slow)
			}
			if ended.Load() {
				c.Async("silence", "Run returned while a callback was still running")
			}
			active.Add(-1)
		}
	}
	g.OnPacket(func([]byte) {
		defer enter()()
		if kPack.Add(1) == at && where == 5 {
			inCallback()
		}
	})
	g.OnError(func(error) {
		defer enter()()
		if kErr.Add(1) == at && where == 6 {
			inCallback()
		}
	})
	g.OnNext(func() {
		defer enter()()
		if kNext.Add(1) == at && where == 7 {
			inCallback()
		}
	})
	names := []string{"before Run", "while Run starts", "right after Run started", "after a random time", "concurrently from several threads", "in a packet callback", "in an error callback", "in a next callback", "while callbacks run", "inside an enumeration of the trackers"}
	var run chan struct{}
	switch where {
	case 0:
		closing()
		run = c.start(g)
	case 1:
		go func() { closing() }()
		run = c.start(g)
	case 2:
		run = c.start(g)
		closing()
	case 3:
		run = c.start(g)
		time.Sleep(time.Duration(c.Int(0, 6000)) * time.Microsecond)
		closing()
	case 4:
		run = c.start(g)
		time.Sleep(time.Duration(c.Int(0, 3000)) * time.Microsecond)
		for k := 0; k < 4; k++ {
			go g.Close()
		}
		closing()
	case 8:
		run = c.start(g)
		for k := 0; calls.Load() < at && k < 20000; k++ {
			time.Sleep(50 * time.Microsecond)
		}
		closing()
	case 9:
		run = c.start(g)
		time.Sleep(time.Duration(c.Int(0, 3000)) * time.Microsecond)
		go g.Each(func(i int, _ *gpsgen.Device) bool {
			if i == 0 {
				inCallback()
			}
			return c.Idx%2 == 0
		})
		c.Await(closed.ch, true, "waiting for Close inside Each")
	default:
		run = c.start(g)
		c.Await(closed.ch, true, "waiting for the callback that closes the generator")
	}
	c.Await(run, false, "waiting for Run after Close "+names[where])
	ended.Store(true)
	if k := active.Load(); k != 0 {
		c.Fail("silence", "Run returned while %d callbacks were still running (closed %s)", k, names[where])
	}
	seen := calls.Load()
	g.Close() // again, after the end
	// goroutines end right after Run returns; those that stay have been left behind
	var left []gor
	for k := 0; k < 60; k++ {
		left = generatorGoroutines()
		if len(left) == 0 {
			break
		}
		time.Sleep(time.Duration(1+k*2) * time.Millisecond)
	}
	if len(left) > 0 {
		c.Fail("leftover", "%d goroutines of the generator survive Run (closed %s, %d trackers, %d workers):\n%s", len(left), names[where], n, workers, clip(left[0].text, 1500))
	}
	if c.Chance(0.3) {
		time.Sleep(3 * interval % (10 * time.Millisecond))
	}
	if k := calls.Load(); k != seen {
		c.Fail("silence", "%d callbacks were invoked after Run had returned (closed %s)", k-seen, names[where])
	}
	c.Check()
	c.Count("closed "+names[where], 1)
	c.Count("callbacks", int(seen))
	c.NonTrivial("%d n=%d w=%d slow=%v calls=%d", where, n, workers, slow > 0, seen)
	c.Sample("closed %s, %d trackers, %d workers, %d callbacks before the end, slow callbacks %v", names[where], n, workers, seen, slow)
}

// ---------------------------------------------------------------- C05

type regIn struct {
	op   byte // a d l h e n s
	g, t int
}

type regOut struct {
	ok   bool // no error, found, running
	n    int
	mask uint32
	dup  bool
}

// regState: owner+1 of each tracker, 4 bits each.
func regStep(state, input, output any) (bool, any) {
	s := state.(uint32)
	in, out := input.(regIn), output.(regOut)
	owner := func(t int) int { return int(s>>(4*t))&15 - 1 }
	set := func(t, g int) uint32 { return s&^(15<<(4*t)) | uint32(g+1)<<(4*t) }
	mask := uint32(0)
	cnt := 0
	for t := 0; t < 8; t++ {
		if owner(t) == in.g {
			mask |= 1 << t
			cnt++
		}
	}
	switch in.op {
	case 'a':
		if owner(in.t) >= 0 {
			return !out.ok, s
		}
		return out.ok, set(in.t, in.g)
	case 'd':
		if owner(in.t) == in.g {
			return out.ok, set(in.t, -1)
		}
		return out.ok, s
	case 'l', 'h':
		return out.ok == (owner(in.t) == in.g), s
	case 'e':
		return out.mask == mask && !out.dup, s
	case 'n':
		return out.n == cnt, s
	case 's':
		return out.ok == (owner(in.t) >= 0), s
	}
	return false, s
}

var regModel = porcupine.Model{
	Init: func() any { return uint32(0) },
	Step: regStep,
	DescribeOperation: func(in, out any) string {
		i, o := in.(regIn), out.(regOut)
		return fmt.Sprintf("%c(g%d,t%d) -> ok=%v n=%d mask=%b dup=%v", i.op, i.g, i.t, o.ok, o.n, o.mask, o.dup)
	},
}

// renamed: trackers that get another identifier by being restored, attached or not, are
// found under the one they have.
func (c *C) renamed(gens []*gpsgen.Generator, devs []*gpsgen.Device) {
	for k := c.Int(0, 3); k > 0; k-- {
		d := devs[c.IntN(len(devs))]
		var home *gpsgen.Generator
		var before []*gpsgen.Device
		for _, g := range gens {
			if x, ok := g.Lookup(d.ID()); ok && x == d {
				home = g
			}
		}
		if home != nil {
			home.Each(func(_ int, x *gpsgen.Device) bool { before = append(before, x); return true })
		}
		was := d.ID()
		id := fmt.Sprintf("%s/%d", was, k)
		snap := d.Snapshot()
		snap.Id = id
		d.FromSnapshot(snap)
		if d.ID() != id {
			c.Fail("registry", "restored from the state of %q the tracker is %q", id, d.ID())
		}
		for _, g := range gens {
			x, ok := g.Lookup(id)
			if has := g.HasTracker(id); ok != (g == home) || has != ok || ok && x != d {
				c.Fail("registry", "a tracker that has become %q (before: %q, attached here: %v): Lookup finds it: %v, HasTracker: %v", id, was, g == home, ok, has)
			}
			if _, ok := g.Lookup(was); ok || g.HasTracker(was) {
				c.Fail("registry", "a tracker that has become %q is still found as %q", id, was)
			}
			if err := g.Detach(was); err != nil {
				c.Fail("registry", "Detach of the unknown %q = %v", was, err)
			}
		}
		if home != nil {
			i := 0
			home.Each(func(_ int, x *gpsgen.Device) bool {
				if i >= len(before) || before[i] != x {
					c.Fail("registry", "giving a tracker another identifier changed the enumeration at %d", i)
				}
				i++
				return true
			})
			if i != len(before) || home.NumDevices() != i || d.Status() != gpsgen.Running {
				c.Fail("registry", "giving a tracker another identifier changed the registry: %d trackers became %d (counted %d), status %d", len(before), i, home.NumDevices(), d.Status())
			}
			if c.Chance(0.5) {
				if err := home.Detach(id); err != nil || home.HasTracker(id) || home.NumDevices() != i-1 || d.Status() != gpsgen.Stopped {
					c.Fail("registry", "Detach of a renamed tracker = %v, found afterwards: %v, %d of %d left, status %d", err, home.HasTracker(id), home.NumDevices(), i, d.Status())
				}
				if g := gens[c.IntN(len(gens))]; c.Chance(0.7) {
					if err := g.Attach(d); err != nil || !g.HasTracker(id) || g.HasTracker(was) || d.Status() != gpsgen.Running {
						c.Fail("registry", "Attach of a renamed tracker = %v, found: %v, as before: %v", err, g.HasTracker(id), g.HasTracker(was))
					}
				}
			}
			c.Count("renamed_attached", 1)
		}
		c.Count("renamed", 1)
	}
}

// twins: trackers that are two objects with the same identifier are two trackers.
func (c *C) twins(gens []*gpsgen.Generator) {
	id := pick(c, "twin", "twin-"+c.text(1, 6), "t0")
	n := c.Int(2, 4)
	var devs []*gpsgen.Device
	home := map[*gpsgen.Device]*gpsgen.Generator{}
	for i := 0; i < n; i++ {
		devs = append(devs, c.tracker(id, c.Chance(0.4)))
	}
	base := map[*gpsgen.Generator]int{}
	for _, g := range gens {
		if g.HasTracker(id) {
			return
		}
		base[g] = g.NumDevices()
	}
	steps := ""
	check := func() {
		at := map[*gpsgen.Device]int{}
		for gi, g := range gens {
			total, want := 0, base[g]
			found := 0
			g.Each(func(_ int, d *gpsgen.Device) bool {
				total++
				if d.ID() == id {
					found++
					if home[d] != g {
						c.Fail("registry", "after %s a twin is enumerated by generator %d, where it is not attached", steps, gi)
					}
					at[d]++
				}
				return true
			})
			mine := 0
			for _, h := range home {
				if h == g {
					mine++
				}
			}
			want += mine
			if total != want || g.NumDevices() != want || found != mine {
				c.Fail("registry", "after %s of trackers with the same identifier generator %d counts %d and enumerates %d (%d of them twins), expected %d (%d)", steps, gi, g.NumDevices(), total, found, want, mine)
			}
			d, ok := g.Lookup(id)
			if ok != (mine > 0) || g.HasTracker(id) != ok || ok && home[d] != g {
				c.Fail("registry", "after %s of trackers with the same identifier %d are attached to generator %d, found: %v", steps, mine, gi, ok)
			}
		}
		for i, d := range devs {
			if at[d] > 1 || (d.Status() == gpsgen.Running) != (at[d] == 1) {
				c.Fail("registry", "after %s of trackers with the same identifier tracker %d is enumerated %d times and has the status %d", steps, i, at[d], d.Status())
			}
		}
	}
	for k := c.Int(4, 12); k > 0; k-- {
		gi := c.IntN(len(gens))
		g := gens[gi]
		if c.Chance(0.6) {
			di := c.IntN(n)
			d := devs[di]
			steps += fmt.Sprintf("a%d.%d ", gi, di)
			err := g.Attach(d)
			if (err == nil) != (home[d] == nil) {
				c.Fail("registry", "after %s Attach of a tracker whose twin may be attached, itself attached: %v, = %v", steps, home[d] != nil, err)
			}
			if err == nil {
				home[d] = g
			}
		} else {
			steps += fmt.Sprintf("d%d ", gi)
			if err := g.Detach(id); err != nil {
				c.Fail("registry", "after %s Detach = %v", steps, err)
			}
			left := map[*gpsgen.Device]bool{}
			g.Each(func(_ int, d *gpsgen.Device) bool { left[d] = true; return true })
			gone := 0
			had := 0
			for d, h := range home {
				if h != g {
					continue
				}
				had++
				if !left[d] {
					gone++
					delete(home, d)
				}
			}
			if gone != min(had, 1) {
				c.Fail("registry", "after %s one Detach(%q) took %d of %d trackers with that identifier out", steps, id, gone, had)
			}
		}
		check()
	}
	for _, g := range gens {
		for k := 0; g.HasTracker(id); k++ {
			g.Detach(id)
			if k > n {
				c.Fail("registry", "%d calls of Detach leave a tracker attached that was attached once", k)
			}
		}
	}
	for i, d := range devs {
		if d.Status() != gpsgen.Stopped {
			c.Fail("registry", "twin %d has been detached and has the status %d", i, d.Status())
		}
	}
	c.Count("twins", n)
}

func runC05(c *C) {
	ng, nt := c.Int(1, 3), c.Int(1, 5)
	var gens []*gpsgen.Generator
	for i := 0; i < ng; i++ {
		gens = append(gens, c.generator(pick(c, 1, 3), 1024, pick(c, 100*time.Microsecond, 500*time.Microsecond)))
	}
	var devs []*gpsgen.Device
	idx := map[*gpsgen.Device]int{}
	// identifiers that are easily taken for one another
	names := []string{"t0", "T0", "t", "t00", "0t", "т0", "t0 ", "tO"}
	if c.Chance(0.3) {
		id := strings.ToLower(c.text(1, 8)) + "-a"
		names = []string{id, strings.ToUpper(id), id + "a", id + " ", "-" + id}
	}
	c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < nt; i++ {
		d := c.tracker(names[i], c.Chance(0.5))
		idx[d] = i
		devs = append(devs, d)
	}
	do := func(in regIn, nest func()) regOut {
		g := gens[in.g]
		var o regOut
		id := names[in.t]
		switch in.op {
		case 'a':
			o.ok = g.Attach(devs[in.t]) == nil
		case 'd':
			o.ok = g.Detach(id) == nil
		case 'l':
			d, ok := g.Lookup(id)
			if ok && d != devs[in.t] {
				c.Async("registry", "Lookup(%s) returns another tracker", id)
			}
			if !ok && d != nil {
				c.Async("registry", "Lookup(%s) returns a tracker and false", id)
			}
			o.ok = ok
		case 'h':
			o.ok = g.HasTracker(id)
		case 'e':
			next := 0
			g.Each(func(i int, d *gpsgen.Device) bool {
				t, ok := idx[d]
				if !ok || i != next {
					c.Async("registry", "Each reports position %d as %d, known tracker: %v", next, i, ok)
				}
				next++
				if o.mask&(1<<t) != 0 {
					o.dup = true
				}
				o.mask |= 1 << t
				if nest != nil {
					nest()
					nest = nil
				}
				return true
			})
		case 'n':
			o.n = g.NumDevices()
		case 's':
			st := devs[in.t].Status()
			o.ok = st == gpsgen.Running
			if st != gpsgen.Running && st != gpsgen.Stopped {
				c.Async("registry", "status %d", st)
			}
		}
		return o
	}
	running := c.Chance(0.6)
	var runs []chan struct{}
	var inRounds, nested atomic.Int64
	if running {
		for _, g := range gens {
			g.OnPacket(func([]byte) { inRounds.Add(1) })
			runs = append(runs, c.start(g))
		}
	}
	threads := c.Int(2, 6)
	per := c.Int(4, 14)
	if c.Chance(0.1) {
		threads = 1
		per = 60
	}
	var mu sync.Mutex
	var hist []porcupine.Operation
	t0 := time.Now()
	var wg sync.WaitGroup
	gate := make(chan struct{})
	mixes := []string{"adlhens", "aadd", "aadds", "aadden", "adlh"}
	mix := mixes[c.IntN(len(mixes))]
	for k := 0; k < threads; k++ {
		rc := newC(c.P, c.sh, c.Uint64(), c.Tier, c.Idx+1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			var local []porcupine.Operation
			for i := 0; i < per; i++ {
				in := regIn{op: mix[rc.IntN(len(mix))], g: rc.IntN(ng), t: rc.IntN(nt)}
				var nest func()
				if in.op == 'e' && rc.Chance(0.4) { // the function given to Each uses a registry
					nest = func() {
						for j := rc.Int(1, 2); j > 0; j-- {
							x := regIn{op: mix[rc.IntN(len(mix))], g: rc.IntN(ng), t: rc.IntN(nt)}
							if rc.Chance(0.6) {
								x.g = in.g
							}
							a := time.Since(t0).Nanoseconds()
							out := do(x, nil)
							local = append(local, porcupine.Operation{ClientId: 100 + k, Input: x, Output: out, Call: a, Return: time.Since(t0).Nanoseconds()})
							nested.Add(1)
						}
					}
				}
				a := time.Since(t0).Nanoseconds()
				out := do(in, nest)
				b := time.Since(t0).Nanoseconds()
				local = append(local, porcupine.Operation{ClientId: k, Input: in, Output: out, Call: a, Return: b})
				if rc.Chance(0.1) {
					time.Sleep(time.Duration(rc.IntN(200)) * time.Microsecond)
				}
			}
			mu.Lock()
			hist = append(hist, local...)
			mu.Unlock()
		}()
	}
	close(gate)
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	c.Await(all, true, "waiting for registry operations")
	// what is left when all is quiet
	quiet := []regIn{}
	for g := 0; g < ng; g++ {
		quiet = append(quiet, regIn{op: 'e', g: g}, regIn{op: 'n', g: g})
		for t := 0; t < nt; t++ {
			quiet = append(quiet, regIn{op: 'l', g: g, t: t}, regIn{op: 'h', g: g, t: t}, regIn{op: 's', g: g, t: t})
		}
	}
	for _, in := range quiet {
		a := time.Since(t0).Nanoseconds()
		out := do(in, nil)
		hist = append(hist, porcupine.Operation{ClientId: 0, Input: in, Output: out, Call: a, Return: time.Since(t0).Nanoseconds()})
	}
	for _, g := range gens {
		// nothing to attach, detach or find
		before := g.NumDevices()
		if err := g.Attach(nil); err != nil || g.Detach("") != nil || g.Detach("unknown") != nil || g.HasTracker("unknown") || g.HasTracker("") {
			c.Fail("registry", "attaching nothing or detaching an unknown tracker is an error, or an unknown tracker exists")
		}
		if near := c.nearMiss(names[0]); !slices.Contains(names, near) {
			if d, ok := g.Lookup(near); ok || d != nil || g.HasTracker(near) || g.Detach(near) != nil {
				c.Fail("registry", "the unknown tracker %q is found", near)
			}
		}
		if d, ok := g.Lookup(""); ok || d != nil {
			c.Fail("registry", "Lookup of an empty identifier finds a tracker")
		}
		if g.NumDevices() != before {
			c.Fail("registry", "attaching nothing or detaching an unknown tracker changed the registry")
		}
	}
	c.renamed(gens, devs)
	if c.Chance(0.5) {
		c.twins(gens)
	}
	for i, g := range gens {
		if running {
			g.Close()
			c.Await(runs[i], false, "waiting for Run after Close")
		}
	}
	c.Check()
	switch porcupine.CheckOperationsTimeout(regModel, hist, 20*time.Second) {
	case porcupine.Illegal:
		var b []string
		for _, o := range hist {
			b = append(b, fmt.Sprintf("[%d,%d] thread %d: %s", o.Call, o.Return, o.ClientId, regModel.DescribeOperation(o.Input, o.Output)))
		}
		for _, l := range b {
			c.Logf("%s", l)
		}
		c.Fail("registry", "the history of %d operations on %d generators and %d trackers (running: %v) fits no order of one atomic registry; first operations: %s", len(hist), ng, nt, running, clip(fmt.Sprint(b), 1500))
	case porcupine.Unknown:
		c.Count("undecided_histories", 1)
		return
	}
	c.Count("used_inside_each", int(nested.Load()))
	overlaps := 0
	for i := range hist {
		for j := range hist {
			if hist[i].ClientId != hist[j].ClientId && hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
				overlaps++
			}
		}
	}
	okA, badA := 0, 0
	sig := ""
	for _, o := range hist {
		i, u := o.Input.(regIn), o.Output.(regOut)
		if i.op == 'a' {
			if u.ok {
				okA++
			} else {
				badA++
			}
		}
		sig += fmt.Sprintf("%c%d%d%v", i.op, i.g, i.t, u.ok)
	}
	c.Count("registry_operations", len(hist))
	c.Count("overlapping_pairs", overlaps/2)
	c.Count("attached", okA)
	c.Count("attach_refused", badA)
	c.Count("packets_meanwhile", int(inRounds.Load()))
	c.NonTrivial("%s", sig)
	c.Sample("%d operations by %d threads on %d generators and %d trackers, running %v: linearizable, %d overlapping pairs", len(hist), threads, ng, nt, running, overlaps/2)
}
