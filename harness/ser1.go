package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
)

// ---------------------------------------------------------------- property bags

// jsonValue draws a property value that JSON can hold.
func (c *C) jsonValue(depth int) any {
	n := 9
	if depth <= 0 {
		n = 7
	}
	switch c.IntN(n) {
	case 0:
		return c.Chance(0.5)
	case 1:
		return pick(c, 0.0, -1.5, 1e-9, 1e21, -1e300, 5e-324, math.MaxFloat64, c.Range(-1e6, 1e6))
	case 2:
		return pick(c, 0, 1, -7, 1<<31, -(1 << 40), c.IntN(1000))
	case 3:
		return pick(c, "", " ", "true", "12", "<&>\"'", "a\u2028b\u0001\n\t", "\\u0041", c.text(0, 20))
	case 4:
		return int64(c.IntN(1 << 30))
	case 5:
		return nil
	case 6:
		return c.text(1, 8)
	case 7:
		l := []any{}
		for k := c.IntN(4); k > 0; k-- {
			l = append(l, c.jsonValue(depth-1))
		}
		return l
	default:
		m := map[string]any{}
		for k := c.IntN(4); k > 0; k-- {
			m[c.text(0, 5)] = c.jsonValue(depth - 1)
		}
		return m
	}
}

// decimals turns every number of a value into a float64, as JSON does.
func decimals(v any) any {
	switch x := v.(type) {
	case int:
		return float64(x)
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	case float32:
		return float64(x)
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = decimals(x[i])
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = decimals(e)
		}
		return m
	}
	return v
}

func sameProps(a, b properties.Properties) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) == len(b)
	}
	return reflect.DeepEqual(decimals(map[string]any(a)), decimals(map[string]any(b)))
}

func (c *C) fillProps(p properties.Properties) {
	for k := c.IntN(5); k > 0; k-- {
		p.Set(pick(c, c.text(1, 10), "name", "id", "", "key with space", fmt.Sprintf("k%d", k)), c.jsonValue(2))
	}
}

// dress gives a route and its tracks names, colours and properties.
func (c *C) dress(r *navigator.Route) {
	if c.Chance(0.6) {
		if err := r.ChangeName(c.name()); err != nil {
			c.Fail("construct", "ChangeName = %v", err)
		}
	}
	if c.Chance(0.4) {
		r.ChangeColor(c.color())
	}
	if c.Chance(0.5) {
		c.fillProps(r.Props())
	}
	r.EachTrack(func(_ int, t *navigator.Track) bool {
		if c.Chance(0.5) {
			if err := t.ChangeName(c.name()); err != nil {
				c.Fail("construct", "ChangeName = %v", err)
			}
		}
		if c.Chance(0.4) {
			t.ChangeColor(c.color().Hex())
		}
		if c.Chance(0.5) {
			c.fillProps(t.Props())
		}
		return true
	})
}

// aRoute makes a dressed route, with identifiers of its own or given ones.
func (c *C) aRoute(maxTracks int, maxSeg float64) *navigator.Route {
	var r *navigator.Route
	if c.Chance(0.2) {
		r = navigator.RestoreRoute(c.anyID(), c.hexColor(), nil)
	} else {
		r = navigator.NewRoute()
	}
	n := c.Int(1, maxTracks)
	if c.Chance(0.06) {
		n = 0
	}
	for ; n > 0; n-- {
		var t *navigator.Track
		var err error
		pts := c.points(maxSeg)
		if c.Chance(0.006) {
			pts = c.longPoints()
		}
		if c.Chance(0.2) {
			t, err = navigator.RestoreTrack(c.anyID(), c.hexColor(), pts)
		} else {
			t, err = navigator.NewTrack(pts)
		}
		if err != nil {
			c.Fail("construct", "a track of %d points: %v", len(pts), err)
		}
		r.AddTrack(t)
	}
	c.dress(r)
	return r
}

// ---------------------------------------------------------------- comparison

func feq(a, b float64) bool { return a == b || (a != a && b != b) }

// cmpRoute compares everything a route shows.
func (c *C) cmpRoute(what string, a, b *navigator.Route) {
	if b == nil || a == nil {
		if a != b {
			c.Fail("route", "%s: one of the routes is missing", what)
		}
		return
	}
	ne := func(f string, x, y any) {
		c.Fail("route", "%s: %s is %v, it was %v", what, f, y, x)
	}
	switch {
	case a.ID() != b.ID():
		ne("the route identifier", a.ID(), b.ID())
	case a.Color() != b.Color():
		ne("the route colour", a.Color(), b.Color())
	case a.Name() != b.Name():
		ne("the route name", a.Name(), b.Name())
	case !feq(a.Distance(), b.Distance()):
		ne("the route length", a.Distance(), b.Distance())
	case !sameProps(a.Props(), b.Props()):
		ne("the route's property bag", a.Props(), b.Props())
	case a.NumTracks() != b.NumTracks():
		ne("the number of tracks", a.NumTracks(), b.NumTracks())
	}
	for i := 0; i < a.NumTracks(); i++ {
		c.cmpTrack(fmt.Sprintf("%s, track %d", what, i), a.TrackAt(i), b.TrackAt(i))
	}
}

func (c *C) cmpTrack(what string, a, b *navigator.Track) {
	ne := func(f string, x, y any) {
		c.Fail("track", "%s: %s is %v, it was %v", what, f, y, x)
	}
	switch {
	case a.ID() != b.ID():
		ne("the track identifier", a.ID(), b.ID())
	case a.Color() != b.Color():
		ne("the track colour", a.Color(), b.Color())
	case a.Name() != b.Name():
		ne("the track name", a.Name(), b.Name())
	case !feq(a.Distance(), b.Distance()):
		ne("the track length", a.Distance(), b.Distance())
	case a.IsClosed() != b.IsClosed():
		ne("the closed flag", a.IsClosed(), b.IsClosed())
	case !sameProps(a.Props(), b.Props()):
		ne("the track's property bag", a.Props(), b.Props())
	case a.NumSegments() != b.NumSegments():
		ne("the number of segments", a.NumSegments(), b.NumSegments())
	}
	for i := 0; i < a.NumSegments(); i++ {
		x, y := a.SegmentAt(i), b.SegmentAt(i)
		c.cmpSegment(fmt.Sprintf("%s, segment %d", what, i), x, y)
	}
}

func (c *C) cmpSegment(what string, x, y navigator.Segment) {
	same := func(p, q pt) bool { return feq(p.Lat, q.Lat) && feq(p.Lon, q.Lon) }
	if !same(x.PointA(), y.PointA()) || !same(x.PointB(), y.PointB()) || !feq(x.Distance(), y.Distance()) || !feq(x.Bearing(), y.Bearing()) ||
		x.Index() != y.Index() || x.IsEmpty() != y.IsEmpty() {
		c.Fail("segment", "%s: %v-%v %v m %v° #%d, it was %v-%v %v m %v° #%d", what,
			y.PointA(), y.PointB(), y.Distance(), y.Bearing(), y.Index(),
			x.PointA(), x.PointB(), x.Distance(), x.Bearing(), x.Index())
	}
	if d := x.Distance() / 3; !same(x.DestinationTo(d), y.DestinationTo(d)) {
		c.Fail("segment", "%s: the point after %v m is %v, it was %v", what, d, y.DestinationTo(d), x.DestinationTo(d))
	}
}

// cmpSensor compares everything a sensor shows, including its generated curve.
func (c *C) cmpSensor(what string, a, b *types.Sensor) {
	if a.ID() != b.ID() || a.Name() != b.Name() || !feq(a.Min(), b.Min()) || !feq(a.Max(), b.Max()) ||
		!feq(a.ValueX(), b.ValueX()) || !feq(a.ValueY(), b.ValueY()) {
		c.Fail("sensor", "%s: %v %q %v..%v (%v,%v), it was %v %q %v..%v (%v,%v)", what,
			b.ID(), b.Name(), b.Min(), b.Max(), b.ValueX(), b.ValueY(),
			a.ID(), a.Name(), a.Min(), a.Max(), a.ValueX(), a.ValueY())
	}
	if d := diffMsg(a.Snapshot(), b.Snapshot()); d != "" {
		c.Fail("sensor", "%s: %s", what, d)
	}
}

// plain drops what does not distinguish two snapshots: the difference between no properties
// and an empty bag, which merely reading a bag makes.
func plain(s *pb.Snapshot) *pb.Snapshot {
	s = proto.Clone(s).(*pb.Snapshot)
	for _, r := range s.GetNavigator().GetRoutes() {
		if p := string(r.Props); p == "{}" || p == "null" {
			r.Props = nil
		}
		for _, t := range r.GetTracks() {
			if p := string(t.Props); p == "{}" || p == "null" {
				t.Props = nil
			}
		}
	}
	return s
}

// cmpDevice compares everything two trackers show; both have been refreshed.
func (c *C) cmpDevice(when string, a, b *gpsgen.Device) {
	if d := diffMsg(a.State(), b.State()); d != "" {
		c.Fail("state", "%s: published states differ in %s (original / copy)", when, d)
	}
	if d := diffMsg(plain(a.Snapshot()), plain(b.Snapshot())); d != "" {
		c.Fail("snapshot", "%s: encoded data differ in %s (original / copy)", when, d)
	}
	c.cmpGetters(when, a, b)
	if a.NumRoutes() != b.NumRoutes() || a.NumSensors() != b.NumSensors() {
		c.Fail("getter", "%s: %d routes and %d sensors, original %d and %d", when, b.NumRoutes(), b.NumSensors(), a.NumRoutes(), a.NumSensors())
	}
	for i := 0; i < a.NumRoutes(); i++ {
		c.cmpRoute(fmt.Sprintf("%s: route %d", when, i), a.RouteAt(i), b.RouteAt(i))
	}
	for i := 0; i < a.NumSensors(); i++ {
		c.cmpSensor(fmt.Sprintf("%s: sensor %d", when, i), a.SensorAt(i), b.SensorAt(i))
	}
	c.Count("tracker_comparisons", 1)
}

func (c *C) cmpGetters(when string, a, b *gpsgen.Device) {
	ne := func(f string, x, y any) {
		c.Fail("getter", "%s: %s is %v, original %v", when, f, y, x)
	}
	fl := func(f string, x, y float64) {
		if !feq(x, y) {
			ne(f, x, y)
		}
	}
	fl("Distance", a.Distance(), b.Distance())
	fl("CurrentDistance", a.CurrentDistance(), b.CurrentDistance())
	fl("RouteDistance", a.RouteDistance(), b.RouteDistance())
	fl("CurrentRouteDistance", a.CurrentRouteDistance(), b.CurrentRouteDistance())
	fl("TrackDistance", a.TrackDistance(), b.TrackDistance())
	fl("CurrentTrackDistance", a.CurrentTrackDistance(), b.CurrentTrackDistance())
	fl("SegmentDistance", a.SegmentDistance(), b.SegmentDistance())
	fl("CurrentSegmentDistance", a.CurrentSegmentDistance(), b.CurrentSegmentDistance())
	fl("CurrentBearing", a.CurrentBearing(), b.CurrentBearing())
	fl("Duration", a.Duration(), b.Duration())
	fl("latitude", a.Location().Lat, b.Location().Lat)
	fl("longitude", a.Location().Lon, b.Location().Lon)
	eq := func(f string, x, y any) {
		if x != y {
			ne(f, x, y)
		}
	}
	eq("ID", a.ID(), b.ID())
	eq("Model", a.Model(), b.Model())
	eq("UserID", a.UserID(), b.UserID())
	eq("Color", a.Color(), b.Color())
	eq("Descr", a.Descr(), b.Descr())
	eq("RouteIndex", a.RouteIndex(), b.RouteIndex())
	eq("TrackIndex", a.TrackIndex(), b.TrackIndex())
	eq("SegmentIndex", a.SegmentIndex(), b.SegmentIndex())
	eq("IsOffline", a.IsOffline(), b.IsOffline())
	eq("IsFinish", a.IsFinish(), b.IsFinish())
	eq("Version", a.Version(), b.Version())
	x, y := a.CurrentSegment(), b.CurrentSegment()
	c.cmpSegment(when+": the current segment", x, y)
	if (a.CurrentRoute() == nil) != (b.CurrentRoute() == nil) || (a.CurrentTrack() == nil) != (b.CurrentTrack() == nil) {
		ne("the current element", a.CurrentTrack(), b.CurrentTrack())
	}
	if a.CurrentRoute() != nil {
		eq("CurrentRoute", a.CurrentRoute().ID(), b.CurrentRoute().ID())
	}
	if a.CurrentTrack() != nil {
		eq("CurrentTrack", a.CurrentTrack().ID(), b.CurrentTrack().ID())
	}
}

// ---------------------------------------------------------------- lives

// life is a tracker with a past.
type life struct {
	c *C
	d *gpsgen.Device
	// the tracker makes no random choice when it steps: neither offline draws nor new curves
	det    bool
	detOff bool
	maxSeg float64
	pat    []byte
	// as configured: the elevation (nil: unknown) and the sensors by identifier
	elev    *rng
	sensors map[string]rng
}

func (c *C) newLife() *life {
	l := &life{c: c, maxSeg: pick(c, 30.0, 2000, 2e4, 5e6), sensors: map[string]rng{}}
	l.det = c.Chance(0.5)
	o := gpsgen.NewDeviceOptions()
	if c.Chance(0.5) {
		o.ID = c.text(1, 40)
	}
	if c.Chance(0.5) {
		o.UserID = c.text(0, 20)
		o.Descr = c.text(0, 60)
	}
	if c.Chance(0.5) {
		o.Model = c.text(3, 20)
	}
	if c.Chance(0.5) {
		o.Color = c.color().Hex()
	}
	o.Navigator.SkipOffline = c.Chance(0.3)
	v := c.Int(1, 5)
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = v, v
	l.detOff = true
	if !l.det && c.Chance(0.6) {
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = c.Int(0, 3), c.Int(5, 40)
		l.detOff = o.Navigator.SkipOffline
	}
	e := &o.Navigator.Elevation
	e.Min, e.Max = c.Range(0, 100), c.Range(101, 5000)
	e.Amplitude = c.amplitude()
	e.Mode = c.mode()
	o.Speed.Min, o.Speed.Max = c.Range(0, 5), c.LogRange(6, 900)
	o.Speed.Amplitude = c.amplitude()
	if c.Chance(0.7) {
		e.Amplitude, o.Speed.Amplitude = c.Int(4, 12), c.Int(4, 12)
	}
	if l.det {
		e.Max, o.Speed.Min = e.Min, o.Speed.Max
		if e.Min == 0 {
			e.Min, e.Max = 7, 7
		}
	}
	o.Battery.Min = c.Range(0, 60)
	o.Battery.Max = o.Battery.Min + c.Range(0, 40)
	o.Battery.ChargeTime = time.Duration(c.LogRange(10, 1e6) * float64(time.Second))
	er := newRng(e.Min, e.Max, e.Amplitude, e.Mode)
	l.elev = &er
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	if c.Chance(0.08) {
		l.elev = nil
		d = pick(c, gpsgen.NewTracker, gpsgen.NewKidsTracker, gpsgen.NewAnimalTracker, gpsgen.NewBicycleTracker, gpsgen.NewDroneTracker)()
		l.det, l.detOff = false, false
	}
	l.d = d
	for k := c.IntN(4); k > 0; k-- {
		l.addSensor()
	}
	for k := c.IntN(4); k > 0; k-- {
		d.AddRoute(c.aRoute(3, l.maxSeg))
	}
	return l
}

func (l *life) addSensor() {
	c := l.c
	min, max := c.bounds()
	if l.det {
		max = min
	}
	amp, mode := c.amplitude(), c.mode()
	s, err := gpsgen.NewSensor(c.text(1, 9), min, max, amp, mode)
	if err != nil {
		c.Fail("construct", "NewSensor = %v", err)
	}
	l.d.AddSensor(s)
	l.sensors[s.ID()] = newRng(min, max, amp, mode)
}

// tick draws a time step that suits where the tracker is.
func (l *life) tick() float64 {
	c, d := l.c, l.d
	v := d.State().GetSpeed()
	if v <= 0 {
		v = 1
	}
	left := d.SegmentDistance() - d.CurrentSegmentDistance()
	if !(left > 0.001) {
		left = 1
	}
	switch c.IntN(6) {
	case 0:
		return left / v * 1.0001
	case 1:
		return left / v * 0.9999
	case 2:
		return 1
	case 3:
		return left / v * c.LogRange(1, 20)
	case 4:
		return c.Range(0.001, 2)
	default:
		return left / v * c.Range(0.05, 0.9)
	}
}

// do performs one random operation of a life on the tracker (and the same on twin, if any).
// It reports what it did; random choices of the tracker itself are not part of it except offline draws.
func (l *life) do(twin *gpsgen.Device) string {
	c, d := l.c, l.d
	both := func(what string, f func(d *gpsgen.Device) bool) string {
		x := f(d)
		if twin != nil {
			if y := f(twin); x != y {
				c.Fail("operation", "%s gives %v on the original and %v on the copy", what, x, y)
			}
		}
		return what
	}
	ri, ti, si := 0, 0, 0
	if n := d.NumRoutes(); n > 0 {
		ri = c.IntN(n)
		if r := d.RouteAt(ri); r.NumTracks() > 0 {
			ti = c.IntN(r.NumTracks())
			si = c.IntN(r.TrackAt(ti).NumSegments())
		}
	}
	switch c.IntN(12) {
	case 0:
		return both("move to segment", func(d *gpsgen.Device) bool { return d.MoveToSegment(ri, ti, si) })
	case 1:
		return both("move to track", func(d *gpsgen.Device) bool { return d.MoveToTrack(ri, ti) })
	case 2:
		return both("Move to route", func(d *gpsgen.Device) bool { return d.MoveToRoute(ri) })
	case 3:
		m := d.Distance() * c.Range(0, 1.1)
		return both("jump", func(d *gpsgen.Device) bool { return d.DestinationTo(m) })
	case 4:
		return both("next route", func(d *gpsgen.Device) bool { return d.ToNextRoute() })
	case 5:
		return both("previous route", func(d *gpsgen.Device) bool { return d.ToPrevRoute() })
	case 6:
		if l.detOff {
			return both("offline", func(d *gpsgen.Device) bool { d.ToOffline(); return true })
		}
		return ""
	case 7:
		return both("Reset", func(d *gpsgen.Device) bool { d.ResetNavigator(); return true })
	case 8:
		if r := d.RouteAt(ri); r != nil && r.NumTracks() > 0 {
			rid, tid := r.ID(), r.TrackAt(ti).ID()
			return both("move by identifier", func(d *gpsgen.Device) bool { return d.MoveToTrackByID(rid, tid) })
		}
		return ""
	case 9:
		s := c.text(0, 20)
		return both("user identifier", func(d *gpsgen.Device) bool { d.SetUserID(s); d.SetDescription(s + "!"); return true })
	case 10:
		if r := d.RouteAt(ri); r != nil {
			s := c.name()
			return both("Name of a route", func(d *gpsgen.Device) bool { return d.RouteAt(ri).ChangeName(s) == nil })
		}
		return ""
	default:
		return both("update", func(d *gpsgen.Device) bool { d.Update(); return true })
	}
}

// age lives through n random operations.
func (l *life) age(n int) {
	c := l.c
	for ; n > 0; n-- {
		d := l.d
		switch c.IntN(14) {
		case 0:
			if d.NumRoutes() < 5 {
				d.AddRoute(c.aRoute(3, l.maxSeg))
				l.pat = append(l.pat, 'A')
			}
		case 1:
			if k := d.NumRoutes(); k > 0 && c.Chance(0.4) {
				d.RemoveRoute(d.RouteAt(c.IntN(k)).ID())
				l.pat = append(l.pat, 'R')
			}
		case 2:
			if d.NumSensors() < 6 && c.Chance(0.5) {
				l.addSensor()
			} else if k := d.NumSensors(); k > 0 {
				d.RemoveSensor(d.SensorAt(c.IntN(k)).ID())
			}
			l.pat = append(l.pat, 's')
		case 3:
			if c.Chance(0.1) {
				d.ResetRoutes()
				l.pat = append(l.pat, 'X')
			}
		case 4:
			if k := d.NumRoutes(); k > 0 {
				c.dress(d.RouteAt(c.IntN(k)))
				l.pat = append(l.pat, 'd')
			}
		case 5, 6:
			if s := l.do(nil); s != "" {
				l.pat = append(l.pat, s[0])
			}
		case 7:
			d.ToOffline()
			l.pat = append(l.pat, 'o')
		default:
			for k := c.Int(1, 8); k > 0; k-- {
				t := l.tick()
				d.Next(t)
				c.Logf("Next(%v)", t)
			}
			l.pat = append(l.pat, '.')
		}
	}
}

func (l *life) fingerprint() string {
	s := l.d.Snapshot()
	return fmt.Sprintf("%s r%d t%d s%d off%d n%d/%d", l.pat, s.GetNavigator().GetRouteIndex(), s.GetNavigator().GetTrackIndex(),
		s.GetNavigator().GetSegmentIndex(), s.GetNavigator().GetOfflineIndex(), len(s.GetNavigator().GetRoutes()), len(s.GetSensors()))
}

// together steps the tracker and its twin alike and compares them until the original makes
// a random choice.
func (l *life) together(when string, twin *gpsgen.Device, n int) (steps int, choice bool) {
	c := l.c
	var pre *pb.Snapshot
	for ; steps < n; steps++ {
		if c.Chance(0.15) {
			pre = nil
			if s := l.do(twin); s != "" {
				c.Logf("%s on both", s)
				c.Count("operations_alike", 1)
				l.d.Update()
				twin.Update()
				c.cmpDevice(fmt.Sprintf("%s: after %s and %d steps", when, s, steps), l.d, twin)
			}
		}
		t := l.tick()
		if pre == nil {
			pre = l.d.Snapshot()
		}
		okA := l.d.Next(t)
		post := l.d.Snapshot()
		okB := twin.Next(t)
		c.Logf("Next(%v) on both: %v %v", t, okA, okB)
		off0, off1 := pre.GetNavigator().GetOfflineIndex(), post.GetNavigator().GetOfflineIndex()
		waited := off0 > 0 && off1 == off0-1 && !pre.GetNavigator().GetSkipOffline()
		recharged := post.GetBattery().GetVal() < pre.GetBattery().GetVal()+t*0.5
		pre = post
		ended := !okA && !waited && l.d.NumRoutes() > 0
		if !l.detOff && (recharged || ended) || !l.det && ended && l.d.Duration() == 0 {
			return steps, true
		}
		if ended {
			c.Count("track_ends_alike", 1)
			if l.d.Duration() == 0 {
				c.Count("laps_alike", 1)
			}
		}
		if recharged && l.d.NumRoutes() > 0 {
			c.Count("recharges_alike", 1)
		}
		if okA != okB {
			c.Fail("future", "%s: step %d of %v s moves the original (%v) and the copy (%v) differently", when, steps, t, okA, okB)
		}
		if d := diffMsg(l.d.State(), twin.State()); d != "" {
			c.Fail("future", "%s: after %d more steps the published states differ in %s (original / copy)", when, steps+1, d)
		}
		if c.Chance(0.3) {
			if d := diffMsg(plain(post), plain(twin.Snapshot())); d != "" {
				c.Fail("future", "%s: after %d more steps the encoded data differ in %s (original / copy)", when, steps+1, d)
			}
		}
		c.cmpGetters(fmt.Sprintf("%s: after %d more steps", when, steps+1), l.d, twin)
		c.Count("steps_alike", 1)
	}
	return steps, false
}

// ---------------------------------------------------------------- S01

// encodeTracker encodes by one of the ways there are.
func (c *C) encodeTracker(d *gpsgen.Device) ([]byte, string) {
	var b []byte
	var err error
	how := pick(c, "EncodeTracker", "MarshalBinary", "Snapshot")
	switch how {
	case "EncodeTracker":
		b, err = gpsgen.EncodeTracker(d)
	case "MarshalBinary":
		b, err = d.MarshalBinary()
	default:
		b, err = proto.Marshal(d.Snapshot())
	}
	if err != nil {
		c.Fail("encode", "%s = %v", how, err)
	}
	return b, how
}

// decodeTracker decodes by one of the ways there are.
func (c *C) decodeTracker(b []byte) (*gpsgen.Device, string) {
	how := pick(c, "DecodeTracker", "UnmarshalBinary", "FromSnapshot")
	d := new(gpsgen.Device)
	var err error
	switch how {
	case "DecodeTracker":
		d, err = gpsgen.DecodeTracker(b)
	case "UnmarshalBinary":
		err = d.UnmarshalBinary(b)
	default:
		s := new(pb.Snapshot)
		err = proto.Unmarshal(b, s)
		if err == nil {
			d.FromSnapshot(s)
			scribble(s.ProtoReflect()) // the tracker must not live in it
		}
	}
	if err != nil {
		c.Fail("decode", "%s of %d bytes of a valid tracker = %v", how, len(b), err)
	}
	return d, how
}

// s01Navigator: a navigator on its own survives its snapshot, whenever it is taken.
func (c *C) s01Navigator() {
	k := c.Int(1, 5)
	opts := []navigator.Option{navigator.WithOffline(k, k)}
	if c.Chance(0.4) {
		opts = []navigator.Option{navigator.SkipOfflineMode()}
	}
	opts = append(opts, navigator.WithElevation(c.Range(0, 100), c.Range(100, 5000), c.Int(4, 16), c.mode()))
	a, err := navigator.New(opts...)
	if err != nil {
		c.Fail("construct", "navigator.New = %v", err)
	}
	maxSeg := pick(c, 30.0, 2000, 2e4)
	for k := c.Int(1, 3); k > 0; k-- {
		a.AddRoute(c.aRoute(2, maxSeg))
	}
	step := func() float64 {
		if c.Chance(0.5) {
			return c.LogRange(0.5, 2*maxSeg)
		}
		return c.Range(0, maxSeg)
	}
	both := func(b *navigator.Navigator) {
		t, v := c.Range(0.1, 2), step()
		x := a.NextLocation(t, v)
		c.Logf("NextLocation(%v, %v) = %v", t, v, x)
		if b != nil {
			if y := b.NextLocation(t, v); x != y {
				c.Fail("future", "NextLocation(%v, %v) is %v on the navigator, %v on its copy", t, v, x, y)
			}
		}
		if c.Chance(0.5) {
			t := c.Float64()
			a.NextElevation(t)
			if b != nil {
				b.NextElevation(t)
			}
		}
		if c.Chance(0.05) {
			j := c.Float64() * a.Distance()
			x := a.DestinationTo(j)
			c.Logf("DestinationTo(%v) = %v", j, x)
			if b != nil {
				if y := b.DestinationTo(j); x != y {
					c.Fail("future", "DestinationTo(%v) is %v on the navigator, %v on its copy", j, x, y)
				}
			}
		}
	}
	laps := 0
	for round := c.Int(1, 4); round > 0; round-- {
		pending := false
		for k := c.Int(0, 60); k > 0; k-- {
			both(nil)
			pending = a.NumRoutes() > 0 && a.RouteIndex() == 0 && a.TrackIndex() == 0 && a.SegmentIndex() == 0 &&
				a.CurrentDistance() > 0 && a.CurrentSegmentDistance() == 0 // a lap has just ended
			if pending && c.Chance(0.6) {
				break
			}
			if c.Chance(0.8) {
				a.IsFinish()
			}
		}
		b := new(navigator.Navigator)
		if c.Chance(0.5) {
			b, _ = navigator.New()
			b.AddRoute(c.aRoute(2, 100))
			b.NextLocation(1, 1)
			b.NextElevation(0.5)
		}
		snap := a.Snapshot()
		b.FromSnapshot(snap)
		if d := diffMsg(plainNav(snap), plainNav(b.Snapshot())); d != "" {
			c.Fail("snapshot", "a navigator restored from its snapshot differs in %s (original / copy)", d)
		}
		scribble(snap.ProtoReflect())
		if pending {
			c.Count("snapshots_at_a_finish", 1)
		}
		for k := c.Int(1, 40); k > 0; k-- {
			if c.Chance(0.7) {
				x, y := a.IsFinish(), b.IsFinish()
				if x != y {
					c.Fail("finish", "the navigator reports a finish: %v, its copy: %v", x, y)
				}
				if x {
					laps++
				}
			}
			sa, sb := new(pb.Device), new(pb.Device)
			a.Update(sa)
			b.Update(sb)
			if d := diffMsg(sa, sb); d != "" {
				c.Fail("future", "a navigator and its copy show different states, in %s (original / copy)", d)
			}
			if a.Sum() != b.Sum() || a.Location() != b.Location() || a.Elevation() != b.Elevation() || a.IsOffline() != b.IsOffline() ||
				a.OfflineDuration() != b.OfflineDuration() || a.NumRoutes() != b.NumRoutes() {
				c.Fail("future", "a navigator and its copy differ: %v %v %v %v, %v %v %v %v", a.Sum(), a.Location(), a.Elevation(), a.OfflineDuration(),
					b.Sum(), b.Location(), b.Elevation(), b.OfflineDuration())
			}
			both(b)
			c.Count("navigator_steps_alike", 1)
		}
		for i := 0; i < a.NumRoutes(); i++ {
			c.cmpRoute(fmt.Sprintf("route %d of a navigator", i), a.RouteAt(i), b.RouteAt(i))
		}
		if c.Chance(0.5) {
			a = b
		}
	}
	c.Count("navigator_finishes_alike", laps)
	c.NonTrivial("navigator %d routes, %d finishes", a.NumRoutes(), laps)
}

// plainNav is plain for a navigator alone.
func plainNav(n *pb.Snapshot_Navigator) *pb.Snapshot_Navigator {
	return plain(&pb.Snapshot{Navigator: n}).Navigator
}

// manyChanges gives a copy of the tracker whose routes and tracks have been changed very often.
func (c *C) manyChanges(d *gpsgen.Device) *gpsgen.Device {
	s := d.Snapshot()
	var want [3]int
	often := func(k int) int64 {
		v := c.Int(0, 1<<pick(c, 7, 8, 15, 16, 17, 31, 33, 40))
		want[k] += v
		return int64(v)
	}
	if s.Navigator != nil {
		s.Navigator.Version = often(0)
		for _, r := range s.Navigator.Routes {
			r.Version = often(1)
			for _, t := range r.Tracks {
				t.Version = often(2)
			}
		}
	}
	b, err := proto.Marshal(s)
	if err != nil {
		c.Fail("encode", "the snapshot of a tracker cannot be encoded: %v", err)
	}
	x, err := gpsgen.DecodeTracker(b)
	if err != nil {
		c.Fail("decode", "a tracker whose routes have been changed often cannot be decoded: %v", err)
	}
	if v := x.Version(); v != want {
		c.Fail("state", "a tracker of versions %v is %v when it is decoded", want, v)
	}
	if diff := diffMsg(plain(s), plain(x.Snapshot())); diff != "" {
		c.Fail("snapshot", "decoding a tracker whose routes have been changed often: the copy differs in %s (original / copy)", diff)
	}
	c.Count("often_changed", 1)
	return x
}

func runS01(c *C) {
	if c.Chance(0.15) {
		c.s01Navigator()
		return
	}
	l := c.newLife()
	l.age(c.Int(0, 25))
	d := l.d
	status := gpsgen.Stopped
	var g *gpsgen.Generator
	if c.Chance(0.25) {
		g = gpsgen.New(nil)
		if err := g.Attach(d); err != nil {
			c.Fail("construct", "Attach = %v", err)
		}
		status = gpsgen.Running
	}
	if c.Chance(0.1) {
		l.d = c.manyChanges(d)
		if g != nil {
			g.Detach(d.ID())
			g, status = nil, gpsgen.Stopped
		}
		d = l.d
	}
	before := plain(d.Snapshot())
	rounds := c.Int(1, 3)
	steps := 0
	fp := l.fingerprint()
	for k := 0; k < rounds; k++ {
		if c.Chance(0.3) {
			scribble(d.Snapshot().ProtoReflect()) // what is handed out is a copy
		}
		b, how := c.encodeTracker(d)
		keep := append([]byte(nil), b...)
		x, how2 := c.decodeTracker(b)
		for i := range b {
			b[i] = 0xAA // the tracker must not live in the encoded data
		}
		when := how + " and " + how2
		c.Logf("%s of %s", when, fp)
		if x.Status() != gpsgen.Stopped {
			c.Fail("status", "%s gives a tracker with status %v", when, x.Status())
		}
		if d.Status() != status {
			c.Fail("status", "%s changed the status of the original from %v to %v", how, status, d.Status())
		}
		if diff := diffMsg(before, plain(x.Snapshot())); diff != "" {
			c.Fail("snapshot", "%s: the copy differs from the original as it was in %s (original / copy)", when, diff)
		}
		if how == "EncodeTracker" && how2 == "DecodeTracker" {
			if diff := diffMsg(d.State(), x.State()); diff != "" {
				c.Fail("state", "%s: published states differ in %s (original / copy)", when, diff)
			}
		}
		d.Update()
		x.Update()
		c.cmpDevice(when, d, x)
		again, err := gpsgen.EncodeTracker(x)
		if err != nil {
			c.Fail("encode", "encoding the copy again = %v", err)
		}
		s1, s2 := new(pb.Snapshot), new(pb.Snapshot)
		if proto.Unmarshal(keep, s1) != nil || proto.Unmarshal(again, s2) != nil {
			c.Fail("encode", "%s: the encoded data are not a snapshot message", when)
		}
		if diff := diffMsg(plain(s1), plain(s2)); diff != "" {
			c.Fail("again", "%s: encoding the copy again gives other data, in %s (first / again)", when, diff)
		}
		n, choice := l.together(when, x, c.Int(0, 60))
		steps += n
		if choice {
			c.Count("random_choices_met", 1)
		} else if c.Chance(0.5) { // the copy lives on instead
			if g != nil {
				g.Detach(d.ID())
				g, status = nil, gpsgen.Stopped
			}
			l.d, d = x, x
		}
		l.age(c.Int(0, 5))
		d.Update()
		before = plain(d.Snapshot())
	}
	if c.Chance(0.4) {
		l.drawsAgain()
	}
	c.Count("round_trips", rounds)
	c.NonTrivial("%s", fp)
	c.Sample("life %s: %d round trips, %d steps alike", clip(fp, 80), rounds, steps)
}

// drawsAgain: the curves of a copy are drawn again as the original was configured.
func (l *life) drawsAgain() {
	c := l.c
	b, how := c.encodeTracker(l.d)
	x, how2 := c.decodeTracker(b)
	when := how + " and " + how2
	for i := 0; i < x.NumSensors(); i++ {
		s := x.SensorAt(i)
		if r, ok := l.sensors[s.ID()]; ok {
			c.redrawn(when+": a sensor", r, s.Shuffle, func(t float64) float64 { s.Next(t); return s.ValueY() })
		}
	}
	if l.elev != nil {
		n := new(navigator.Navigator)
		n.FromSnapshot(x.Snapshot().GetNavigator())
		c.redrawn(when+": the elevation", *l.elev, n.ShuffleElevation, func(t float64) float64 { n.NextElevation(t); return n.Elevation() })
	}
}

// redrawn: whenever it is drawn, a curve keeps its range and begins and ends as configured.
func (c *C) redrawn(what string, r rng, shuffle func(), at func(float64) float64) {
	const n = 6
	s, e := 0, 0
	for k := 0; k < n; k++ {
		shuffle()
		v, w, m := at(0), at(1), at(c.Float64())
		c.inRange(what, v, r)
		c.inRange(what, w, r)
		c.inRange(what, m, r)
		c.atEnds(what, 0, v, r)
		c.atEnds(what, 1, w, r)
		if v == r.min {
			s++
		}
		if w == r.min {
			e++
		}
	}
	if r.hi-r.lo > 1e-6*(1+math.Abs(r.hi)) {
		if s == n && !r.start {
			c.Fail("draws", "%s drawn %d times always starts at its minimum %v", what, n, r.min)
		}
		if e == n && !r.end {
			c.Fail("draws", "%s drawn %d times always ends at its minimum %v", what, n, r.min)
		}
	}
	c.Count("curves_redrawn", n)
}

// ---------------------------------------------------------------- S02

func runS02(c *C) {
	if c.Chance(0.5) {
		runS02Sensors(c)
		return
	}
	n := c.Int(1, 6)
	maxTracks := 4
	if c.Chance(0.05) {
		n, maxTracks = c.Int(10, 30), 12
	}
	var rs []*navigator.Route
	for k := 0; k < n; k++ {
		if k > 0 && c.Chance(0.05) {
			rs = append(rs, rs[c.IntN(k)]) // the same one twice
			continue
		}
		rs = append(rs, c.aRoute(maxTracks, pick(c, 50.0, 5e3, 1e7)))
	}
	var snaps []proto.Message
	for _, r := range rs {
		snaps = append(snaps, plainRoute(r))
	}
	b, err := gpsgen.EncodeRoutes(rs)
	if err != nil {
		c.Fail("encode", "EncodeRoutes of %d routes = %v", n, err)
	}
	raw := append([]byte(nil), b...)
	out, err := gpsgen.DecodeRoutes(b)
	if err != nil {
		c.Fail("decode", "DecodeRoutes = %v", err)
	}
	for i := range b {
		b[i] = 0x55
	}
	if len(out) != n {
		c.Fail("count", "%d routes encoded, %d decoded", n, len(out))
	}
	tracks := 0
	for i := range rs {
		c.cmpRoute(fmt.Sprintf("route %d of %d", i, n), rs[i], out[i])
		if d := diffMsg(snaps[i], plainRoute(out[i])); d != "" {
			c.Fail("route", "route %d of %d differs in %s (original / decoded)", i, n, d)
		}
		tracks += rs[i].NumTracks()
	}
	again, err := gpsgen.EncodeRoutes(out)
	if err != nil || len(again) != len(raw) && !bytes.Equal(again, raw) && !sameRoutesData(raw, again) {
		c.Fail("again", "encoding the decoded routes again gives other data (%v)", err)
	}
	// an object that was in use keeps nothing of what it was
	if c.Chance(0.4) {
		used := c.aRoute(maxTracks, pick(c, 50.0, 5e3, 1e7))
		k := c.IntN(n)
		if c.Chance(0.7) {
			used.ChangeName("name before")
		}
		if err := used.RouteFromSnapshot(rs[k].Snapshot()); err != nil {
			c.Fail("restore", "restoring a route into one that was in use = %v", err)
		}
		c.cmpRoute("a route restored into one that was in use", rs[k], used)
		if d := diffMsg(snaps[k], plainRoute(used)); d != "" {
			c.Fail("restore", "a route restored into one that was in use differs in %s (original / restored)", d)
		}
		if rs[k].NumTracks() > 0 {
			t := c.usedTrack()
			x := rs[k].TrackAt(c.IntN(rs[k].NumTracks()))
			navigator.TrackFromSnapshot(t, x.Snapshot())
			if a, b := plainRoute(navigator.RestoreRoute("r", "", nil).AddTrack(x)), plainRoute(navigator.RestoreRoute("r", "", nil).AddTrack(t)); diffMsg(a, b) != "" {
				c.Fail("restore", "a track restored into one that was in use differs in %s (original / restored)", diffMsg(a, b))
			}
		}
		c.Count("restored_in_place", 1)
	}
	// the decoded routes are driven like the originals
	if c.Chance(0.6) {
		a, b := c.driver(rs), c.driver(out)
		l := &life{c: c, d: a, det: true, detOff: true}
		c.cmpDrive(l, b, c.Int(10, 80))
	}
	// decoded objects are independent of one another and of the originals
	if out[0].NumTracks() > 0 {
		pre := plainRoute(rs[0])
		out[0].TrackAt(0).Props().Set("only here", 1.0)
		out[0].Props().Set("only here", 1.0)
		out[0].TrackAt(0).ChangeName("changed name")
		out[0].ChangeName("changed name")
		if d := diffMsg(pre, plainRoute(rs[0])); d != "" {
			c.Fail("independent", "changing a decoded route changed the original in %s", d)
		}
	}
	c.Count("routes", n)
	c.Count("tracks", tracks)
	c.NonTrivial("r%d t%d %d", n, tracks, len(raw))
	c.Sample("%d routes with %d tracks in %d bytes", n, tracks, len(raw))
}

func plainRoute(r *navigator.Route) proto.Message {
	s := plain(&pb.Snapshot{Navigator: &pb.Snapshot_Navigator{Routes: []*pb.Snapshot_Navigator_Route{r.Snapshot()}}})
	return s.Navigator.Routes[0]
}

func sameRoutesData(a, b []byte) bool {
	x, y := new(pb.Snapshot_Navigator_Routes), new(pb.Snapshot_Navigator_Routes)
	if proto.Unmarshal(a, x) != nil || proto.Unmarshal(b, y) != nil {
		return false
	}
	return diffMsg(plain(&pb.Snapshot{Navigator: &pb.Snapshot_Navigator{Routes: x.Routes}}),
		plain(&pb.Snapshot{Navigator: &pb.Snapshot_Navigator{Routes: y.Routes}})) == ""
}

// driver is a tracker without random choices on the given routes.
func (c *C) driver(rs []*navigator.Route) *gpsgen.Device {
	o := gpsgen.NewDeviceOptions()
	o.ID, o.Model, o.Color = "driver", "driver", "#102030"
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = 2, 2
	o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = 5, 5
	o.Speed.Min, o.Speed.Max = 10, 10
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	d.AddRoute(rs...)
	return d
}

// cmpDrive drives two trackers alike and compares what they publish; their curves may differ
// in what was drawn, not in what they produce.
func (c *C) cmpDrive(l *life, b *gpsgen.Device, n int) {
	for i := 0; i < n; i++ {
		t := l.tick()
		x, y := l.d.Next(t), b.Next(t)
		if x != y {
			c.Fail("drive", "step %d of %v s: the original tracker moves %v, the one on decoded routes %v", i, t, x, y)
		}
		if d := diffMsg(l.d.State(), b.State()); d != "" {
			c.Fail("drive", "after %d steps the tracker on decoded routes differs in %s (original / decoded)", i+1, d)
		}
		c.Count("steps_alike", 1)
	}
}

func runS02Sensors(c *C) {
	n := c.Int(1, 8)
	if c.Chance(0.05) {
		n = 60
	}
	var ss []*types.Sensor
	var rngs []rng
	for k := 0; k < n; k++ {
		min, max := c.bounds()
		amp, mode := c.amplitude(), c.mode()
		var s *types.Sensor
		var err error
		name := c.text(1, 30)
		if c.Chance(0.2) {
			name = pick(c, "x", strings.Repeat("n", 5000), "a\nb", " ")
		}
		if c.Chance(0.3) {
			s, err = types.RestoreSensor(pick(c, "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6BA7B810-9DAD-11D1-80B4-00C04FD430FF", "urn:uuid:6ba7b811-9dad-11d1-80b4-00c04fd430c8"), name, min, max, amp, mode)
		} else {
			s, err = types.NewSensor(name, min, max, amp, mode)
		}
		if err != nil {
			c.Fail("construct", "a sensor: %v", err)
		}
		for j := c.IntN(4); j > 0; j-- {
			s.Next(c.normT())
			if c.Chance(0.3) {
				s.Shuffle()
			}
		}
		ss = append(ss, s)
		rngs = append(rngs, newRng(min, max, amp, mode))
	}
	b, err := gpsgen.EncodeSensors(ss)
	if err != nil {
		c.Fail("encode", "EncodeSensors = %v", err)
	}
	raw := append([]byte(nil), b...)
	out, err := gpsgen.DecodeSensors(b)
	if err != nil {
		c.Fail("decode", "DecodeSensors = %v", err)
	}
	for i := range b {
		b[i] = 0x55
	}
	if len(out) != n {
		c.Fail("count", "%d sensors encoded, %d decoded", n, len(out))
	}
	if again, err := gpsgen.EncodeSensors(out); err != nil || !bytes.Equal(again, raw) {
		x, y := new(pb.Snapshot_Sensors), new(pb.Snapshot_Sensors)
		if err != nil || proto.Unmarshal(raw, x) != nil || proto.Unmarshal(again, y) != nil || diffMsg(x, y) != "" {
			c.Fail("again", "encoding the decoded sensors again gives other data (%v): %s", err, diffMsg(x, y))
		}
	}
	for i := range ss {
		what := fmt.Sprintf("sensor %d of %d", i, n)
		c.cmpSensor(what, ss[i], out[i])
		for j := 0; j < 12; j++ {
			t := c.normT()
			if c.Chance(0.5) { // each in its own order
				ss[i].Next(t)
				out[i].Next(t)
			} else {
				out[i].Next(t)
				ss[i].Next(t)
			}
			if !feq(ss[i].ValueX(), out[i].ValueX()) || !feq(ss[i].ValueY(), out[i].ValueY()) {
				c.Fail("value", "%s at time %v gives (%v,%v), the original (%v,%v)", what, t, out[i].ValueX(), out[i].ValueY(), ss[i].ValueX(), ss[i].ValueY())
			}
			c.Count("sensor_values", 1)
		}
		if c.Chance(0.3) {
			used, err := types.NewSensor("before", 1, 2, c.amplitude(), c.mode())
			if err != nil {
				c.Fail("construct", "NewSensor = %v", err)
			}
			used.Next(c.normT())
			used.FromSnapshot(ss[i].Snapshot())
			c.cmpSensor(what+", restored into one that was in use,", ss[i], used)
			if d := diffMsg(ss[i].Snapshot(), used.Snapshot()); d != "" {
				c.Fail("restore", "%s restored into one that was in use differs in %s (original / restored)", what, d)
			}
		}
		pre := out[i].Snapshot()
		ss[i].Shuffle()
		ss[i].Next(0.5)
		if d := diffMsg(pre, out[i].Snapshot()); d != "" {
			c.Fail("independent", "%s changed with the original in %s", what, d)
		}
		c.redrawn(what, rngs[i], out[i].Shuffle, func(t float64) float64 { out[i].Next(t); return out[i].ValueY() })
	}
	c.Count("sensors", n)
	c.NonTrivial("s%d %d", n, len(raw))
	c.Sample("%d sensors in %d bytes", n, len(raw))
}

// ---------------------------------------------------------------- S07

// badSnapshot spoils the encoding of a tracker.
func (c *C) badSnapshot(b []byte) ([]byte, string) {
	s := new(pb.Snapshot)
	if proto.Unmarshal(b, s) != nil {
		return nil, "nothing"
	}
	n := s.Navigator
	kind := c.IntN(12)
	what := ""
	switch kind {
	case 0:
		return nil, "no data"
	case 1:
		k := c.IntN(len(b))
		return b[:k], fmt.Sprintf("the first %d of %d bytes", k, len(b))
	case 2:
		x := append([]byte(nil), b...)
		for k := c.Int(1, 4); k > 0; k-- {
			x[c.IntN(len(x))] ^= byte(1 << c.IntN(8))
		}
		return x, "flipped bits"
	case 3:
		x := make([]byte, c.Int(1, 100))
		for i := range x {
			x[i] = byte(c.IntN(256))
		}
		return x, "random bytes"
	case 4:
		s.Navigator, what = nil, "no navigator"
	case 5:
		s.Speed, what = nil, "no speed"
	case 6:
		s.Battery, what = nil, "no battery"
	case 7:
		n.RouteIndex, what = pick[int64](c, -1, int64(len(n.Routes)), 1<<40), "route index off"
	case 8:
		n.TrackIndex, what = pick[int64](c, -1, 1<<33, 99), "track index off"
	case 9:
		n.SegmentIndex, what = pick[int64](c, -1, 1<<33, 99), "segment index off"
	case 10:
		if len(n.Routes) == 0 {
			return b, "valid data"
		}
		r := n.Routes[c.IntN(len(n.Routes))]
		if c.Chance(0.5) {
			r.Props, what = []byte("{\"a\":"), "broken route properties"
		} else {
			r.Name, what = pick(c, "x", strings.Repeat("n", 257)), "invalid route name"
		}
	default:
		if len(n.Routes) == 0 {
			return b, "valid data"
		}
		r := n.Routes[len(n.Routes)-1]
		if len(r.Tracks) == 0 {
			return b, "valid data"
		}
		t := r.Tracks[len(r.Tracks)-1]
		if c.Chance(0.5) {
			t.Props, what = []byte("[1"), "broken track properties"
		} else {
			t.Name, what = pick(c, "x", strings.Repeat("n", 257)), "invalid track name"
		}
	}
	out, err := proto.Marshal(s)
	if err != nil {
		return nil, "no data"
	}
	return out, what
}

// pending leaves time steps waiting to be carried over by asking the tracker to step while
// it is busy.
func (c *C) pending(d *gpsgen.Device) bool {
	if d.NumRoutes() == 0 {
		return false
	}
	d.EachRoute(func(int, *navigator.Route) bool {
		d.Next(c.Range(0.3, 5))
		return false
	})
	return true
}

// relabel changes the labels of a tracker, also to nothing.
func (c *C) relabel(d *gpsgen.Device) {
	if c.Chance(0.6) {
		d.SetDescription(pick(c, "", c.text(0, 40)))
	}
	if c.Chance(0.6) {
		d.SetUserID(pick(c, "", c.text(0, 20)))
	}
	if c.Chance(0.3) {
		d.SetModel(c.text(3, 20))
	}
	if c.Chance(0.3) {
		d.SetColor(c.color())
	}
}

// restoreSource makes data to restore a tracker from: those of another one, of its own past,
// or of one that shares identifiers with it.
func (c *C) restoreSource(used *life) (*life, []byte, string) {
	if c.Chance(0.35) {
		past := *used
		past.pat = append([]byte(nil), used.pat...)
		c.relabel(used.d)
		if c.Chance(0.7) {
			used.d.Update()
		}
		b, _ := c.encodeTracker(used.d)
		if c.Chance(0.5) {
			for k := c.Int(1, 8); k > 0; k-- { // simply some time later
				used.d.Next(used.tick())
			}
		} else {
			used.age(c.Int(0, 15))
		}
		if c.Chance(0.6) {
			c.relabel(used.d)
		}
		for _, s := range used.d.Sensors() {
			if c.Chance(0.3) {
				s.Shuffle()
			}
		}
		if c.Chance(0.3) {
			used.d.Update()
		}
		return &past, b, "own past"
	}
	other := c.newLife()
	other.age(c.Int(0, 15))
	c.relabel(other.d)
	other.d.Update()
	b, _ := c.encodeTracker(other.d)
	if c.Chance(0.5) {
		return other, b, "another"
	}
	s := new(pb.Snapshot)
	proto.Unmarshal(b, s)
	if c.Chance(0.7) {
		s.Id = used.d.ID()
	}
	for i, x := range s.Sensors {
		if o := used.d.SensorAt(i); o != nil && c.Chance(0.8) {
			x.Id = o.ID()
			if c.Chance(0.5) {
				x.Name = o.Name()
			}
		}
	}
	if n := s.GetNavigator(); n != nil {
		if c.Chance(0.5) {
			n.Version = int64(used.d.Version()[0])
		}
		for i, x := range n.Routes {
			o := used.d.RouteAt(i)
			if o == nil || c.Chance(0.2) {
				continue
			}
			x.Id = o.ID()
			for j, y := range x.Tracks {
				if t := o.TrackAt(j); t != nil && c.Chance(0.8) {
					y.Id = t.ID()
				}
			}
		}
	}
	b, _ = proto.Marshal(s)
	return other, b, "look-alike"
}

func runS07(c *C) {
	used := c.newLife()
	used.age(c.Int(0, 20))
	rounds := c.Int(1, 4)
	pat := ""
	for k := 0; k < rounds; k++ {
		other, b, source := c.restoreSource(used)
		d := used.d
		c.Count("restores_from_"+source, 1)
		if c.Chance(0.4) {
			// restoring fails, or the data turn out to be acceptable
			bad, what := c.badSnapshot(b)
			d.Update()
			d.Next(0.001) // published state and tracker are not in step
			busy := c.Chance(0.3) && c.pending(d)
			st, snap, status := d.State(), plain(d.Snapshot()), d.Status()
			err := d.UnmarshalBinary(bad)
			fresh := new(gpsgen.Device)
			err2 := fresh.UnmarshalBinary(bad)
			if (err == nil) != (err2 == nil) {
				c.Fail("outcome", "restoring from %s: %v in a used tracker, %v in a new one", what, err, err2)
			}
			if err == nil {
				c.Count("odd_data_accepted", 1)
				c.equalRestored("restored from "+what, fresh, d)
				used.det, used.detOff, used.d = false, false, d
				pat += "a"
				continue
			}
			c.Count("failed_restores", 1)
			c.Distinct("failures", what+err.Error())
			if x := diffMsg(st, d.State()); x != "" {
				c.Fail("unchanged", "a restore that failed (%s: %v) changed the published state in %s", what, err, x)
			}
			if x := diffMsg(snap, plain(d.Snapshot())); x != "" {
				c.Fail("unchanged", "a restore that failed (%s: %v) changed the tracker in %s", what, err, x)
			}
			if d.Status() != status {
				c.Fail("unchanged", "a restore that failed (%s: %v) changed the status to %v", what, err, d.Status())
			}
			if busy { // the waiting steps are still there
				pre := d.Duration()
				d.Next(0.5)
				if tk := d.State().GetTick(); tk < 0.5+0.29 {
					c.Fail("unchanged", "a restore that failed (%s: %v) dropped the steps waiting to be carried over: the next step took %v s (duration was %v)", what, err, tk, pre)
				}
				c.Count("waiting_steps_kept", 1)
			}
			pat += "f"
			continue
		}
		var held []*navigator.Route
		var heldSensors []*types.Sensor
		held, heldSensors = d.Routes(), d.Sensors()
		busy := c.Chance(0.4) && c.pending(d)
		fresh, _ := c.decodeTracker(b)
		if c.Chance(0.6) {
			if err := d.UnmarshalBinary(b); err != nil {
				c.Fail("decode", "UnmarshalBinary of a valid tracker = %v", err)
			}
		} else {
			s := new(pb.Snapshot)
			proto.Unmarshal(b, s)
			d.FromSnapshot(s)
		}
		if d.Status() != gpsgen.Stopped {
			c.Fail("status", "a restored tracker has status %v", d.Status())
		}
		if x := diffMsg(fresh.State(), d.State()); x != "" {
			c.Fail("state", "restored from %s: published states differ in %s (new tracker / used one)", source, x)
		}
		c.equalRestored("restored from "+source, fresh, d)
		for _, r := range held { // nothing of it is left
			r.ChangeName("former route")
			r.AddTrack(c.newTrack(100).t)
		}
		for _, s := range heldSensors {
			s.Next(0.7)
			s.Shuffle()
		}
		fresh.Update()
		d.Update()
		c.cmpDevice("restored, after changes of former parts", fresh, d)
		other.d = fresh
		n, _ := other.together("restored into a used tracker", d, c.Int(3, 40))
		if busy {
			c.Count("restores_with_waiting_steps", 1)
		}
		c.Count("restores", 1)
		c.Count("steps_after_restore", n)
		pat += "r" + source[:1] + other.fingerprint()
		used = other
		used.d = d
		used.age(c.Int(0, 5))
	}
	c.NonTrivial("%s", pat)
	c.Sample("%d restores into the same tracker: %s", rounds, clip(pat, 80))
}

// equalRestored compares a used tracker after a restore with a new one restored from the same data.
func (c *C) equalRestored(when string, fresh, d *gpsgen.Device) {
	fresh.Update()
	d.Update()
	c.cmpDevice(when, fresh, d)
}

// usedTrack is a track with a name, a colour and properties.
func (c *C) usedTrack() *navigator.Track {
	t, err := navigator.NewTrack([]geo.LatLonPoint{{Lat: 1, Lon: 1}, {Lat: 2, Lon: 2}, {Lat: 1, Lon: 1}})
	if err != nil {
		c.Fail("construct", "NewTrack = %v", err)
	}
	t.ChangeName("track before")
	t.Props().Set("before", "x")
	return t
}
