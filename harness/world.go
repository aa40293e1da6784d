package main

import (
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// navi is what a Navigator and a Device have in common.
type navi interface {
	Location() pt
	CurrentBearing() float64
	Distance() float64
	CurrentDistance() float64
	RouteDistance() float64
	CurrentRouteDistance() float64
	TrackDistance() float64
	CurrentTrackDistance() float64
	SegmentDistance() float64
	CurrentSegmentDistance() float64
	RouteIndex() int
	TrackIndex() int
	SegmentIndex() int
	IsOffline() bool
	NumRoutes() int
	RouteAt(int) *navigator.Route
	CurrentRoute() *navigator.Route
	CurrentTrack() *navigator.Track
	CurrentSegment() navigator.Segment
	Routes() []*navigator.Route
	EachRoute(func(int, *navigator.Route) bool)
	AddRoute(...*navigator.Route) error
	RemoveRoute(string) bool
	RemoveTrack(string, string) bool
	ResetRoutes() bool
	DestinationTo(float64) bool
	MoveToSegment(int, int, int) bool
	MoveToTrack(int, int) bool
	MoveToRoute(int) bool
	MoveToTrackByID(string, string) bool
	MoveToRouteByID(string) bool
	ToOffline()
}

// obs is one observation of a navigator.
type obs struct {
	ri, ti, si                int
	cd, crd, ctd, csd         float64
	dist, rdist, tdist, sdist float64
	p                         pt
	br                        float64
	off                       int
	isOff                     bool
	n                         int
	ver                       [3]int
	dur                       float64
	used, bmin, bmax, bct     float64 // battery
}

func (o obs) String() string {
	return fmt.Sprintf("{r%d t%d s%d cd=%.6f crd=%.6f ctd=%.6f csd=%.6f off=%d/%v at=(%.9f,%.9f) br=%.4f dur=%.3f}",
		o.ri, o.ti, o.si, o.cd, o.crd, o.ctd, o.csd, o.off, o.isOff, o.p.Lat, o.p.Lon, o.br, o.dur)
}

// world is a navigator or device under observation, with the monitor's picture of its path.
type world struct {
	c      *C
	nav    *navigator.Navigator
	dev    *gpsgen.Device
	n      navi
	routes []*mRoute
	skip   bool
	offMin int
	offMax int
	speed  float64 // constant speed of the device, 0: variable
	maxSeg float64
	// a lap ended and nobody has asked for its finish yet
	pending bool
}

func (w *world) observe() obs {
	n := w.n
	o := obs{
		ri: n.RouteIndex(), ti: n.TrackIndex(), si: n.SegmentIndex(),
		cd: n.CurrentDistance(), crd: n.CurrentRouteDistance(), ctd: n.CurrentTrackDistance(), csd: n.CurrentSegmentDistance(),
		dist: n.Distance(), rdist: n.RouteDistance(), tdist: n.TrackDistance(), sdist: n.SegmentDistance(),
		p: n.Location(), br: n.CurrentBearing(), isOff: n.IsOffline(), n: n.NumRoutes(),
	}
	if w.nav != nil {
		o.off = w.nav.OfflineDuration()
		o.ver = w.nav.Sum()
	} else {
		s := w.dev.Snapshot()
		o.off = int(s.Navigator.GetOfflineIndex())
		o.ver = w.dev.Version()
		o.dur = w.dev.Duration()
		b := s.GetBattery()
		o.used, o.bmin, o.bmax = b.GetVal(), b.GetMin(), b.GetMax()
		o.bct = time.Duration(b.GetChargeTime()).Seconds()
	}
	return o
}

type worldOpt struct {
	device    bool
	battery   bool // let the battery run out now and then
	varSpeed  bool
	noOffline bool
	maxRoutes int
	maxTracks int
	maxSeg    float64
	nonEmpty  bool // at least one track with a length
}

func (c *C) offlineRange() (int, int) {
	switch c.IntN(6) {
	case 0:
		return 1, 1
	case 1:
		return 0, 1
	case 2:
		return 0, 3
	case 3:
		v := c.Int(1, 30)
		return v, v
	case 4:
		return 3599, 3600
	default:
		a := c.Int(0, 20)
		return a, a + c.Int(1, 20)
	}
}

func (c *C) newWorld(o worldOpt) *world {
	w := &world{c: c, maxSeg: o.maxSeg}
	if w.maxSeg == 0 {
		w.maxSeg = 5e6
		if c.Chance(0.7) {
			w.maxSeg = 2e4
		}
	}
	if o.maxRoutes == 0 {
		o.maxRoutes = 3
	}
	if o.maxTracks == 0 {
		o.maxTracks = 3
	}
	w.skip = o.noOffline || c.Chance(0.3)
	w.offMin, w.offMax = c.offlineRange()
	if w.offMax > 100 && c.Chance(0.9) {
		w.offMin, w.offMax = 1, 4
	}
	if o.device {
		op := gpsgen.NewDeviceOptions()
		op.Navigator.SkipOffline = w.skip
		op.Navigator.Offline.Min, op.Navigator.Offline.Max = w.offMin, w.offMax
		w.speed = c.LogRange(0.2, 900)
		op.Speed.Min, op.Speed.Max = w.speed, w.speed
		if o.varSpeed {
			op.Speed.Min, op.Speed.Max = w.speed*c.Range(0.1, 0.9), w.speed
			if c.Chance(0.1) {
				op.Speed.Min = 0
			}
			w.speed = 0
		}
		op.Speed.Amplitude = pick(c, 4, 5, 16, 64)
		op.Navigator.Elevation.Amplitude = pick(c, 4, 8, 17)
		op.Battery.ChargeTime = 3e4 * time.Hour
		if o.battery && c.Chance(0.5) {
			op.Battery.ChargeTime = time.Duration(c.LogRange(3, 3000) * float64(time.Second))
			op.Battery.Min = c.Range(0, 60)
			op.Battery.Max = op.Battery.Min + c.Range(0, 40)
		}
		d, err := gpsgen.NewDevice(op)
		if err != nil {
			c.Fail("construct", "NewDevice = %v", err)
		}
		w.dev, w.n = d, d
		for k := c.IntN(3); k > 0; k-- {
			s, err := gpsgen.NewSensor(fmt.Sprintf("s%d", k), 0, 10, pick(c, 4, 9), 0)
			if err == nil {
				d.AddSensor(s)
			}
		}
	} else {
		opts := []navigator.Option{navigator.WithOffline(w.offMin, w.offMax)}
		if w.skip {
			opts = append(opts, navigator.SkipOfflineMode())
		}
		n, err := navigator.New(opts...)
		if err != nil {
			c.Fail("construct", "navigator.New = %v", err)
		}
		w.nav, w.n = n, n
	}
	for {
		w.routes = nil
		for k := c.Int(1, o.maxRoutes); k > 0; k-- {
			w.routes = append(w.routes, c.newRoute(o.maxTracks, w.maxSeg))
		}
		if !o.nonEmpty || w.total() > 2 {
			break
		}
	}
	for _, r := range w.routes {
		if err := w.n.AddRoute(r.r); err != nil {
			c.Fail("construct", "AddRoute = %v", err)
		}
	}
	return w
}

func (w *world) total() float64 {
	s := 0.0
	for _, r := range w.routes {
		s += r.L()
	}
	return s
}

func (w *world) route(i int) *mRoute {
	if i < 0 || i >= len(w.routes) {
		return nil
	}
	return w.routes[i]
}

func (w *world) track(ri, ti int) *mTrack {
	r := w.route(ri)
	if r == nil || ti < 0 || ti >= len(r.tracks) {
		return nil
	}
	return r.tracks[ti]
}

func (w *world) seg(ri, ti, si int) *mSeg {
	t := w.track(ri, ti)
	if t == nil || si < 0 || si >= len(t.segs) {
		return nil
	}
	return &t.segs[si]
}

// outcome is one legitimate result of a step.
type outcome struct {
	moved      bool
	countdown  bool // an offline step
	ri, ti, si int
	csd        float64
	trackEnd   bool
	routeEnd   bool
	lap        bool
}

// expect gives the legitimate results of advancing by nd metres from o: one, or two when nd
// ends within rounding of the end of a segment.
func (w *world) expect(o obs, nd float64) []outcome {
	if len(w.routes) == 0 {
		return []outcome{{ri: o.ri, ti: o.ti, si: o.si, csd: o.csd}}
	}
	var outs []outcome
	t := w.track(o.ri, o.ti)
	csd := o.csd
	if t != nil {
		for si := o.si; si < len(t.segs); si++ {
			L := t.segs[si].RL
			if L > 0 {
				diff := csd + nd - L
				exact := csd == 0 // comparing nd with L involves no rounding
				fuzzy := !exact && math.Abs(diff) <= 1e-9*math.Max(1, L)
				if diff <= 0 || fuzzy {
					outs = append(outs, outcome{moved: true, ri: o.ri, ti: o.ti, si: si, csd: csd + nd})
					if !fuzzy {
						return outs
					}
				}
			}
			csd = 0
		}
	}
	r := w.routes[o.ri]
	e := outcome{trackEnd: true, ri: o.ri, ti: o.ti + 1}
	if e.ti >= len(r.tracks) {
		e.ti, e.routeEnd = 0, true
		e.ri++
		if e.ri >= len(w.routes) {
			e.ri, e.lap = 0, true
		}
	}
	return append(outs, e)
}

func match(outs []outcome, o obs, moved bool) *outcome {
	for i := range outs {
		e := &outs[i]
		if e.moved == moved && e.ri == o.ri && e.ti == o.ti && e.si == o.si {
			return e
		}
	}
	return nil
}

// stepSize draws a step in metres, relative to what is left on the segment.
func (w *world) stepSize(o obs) float64 {
	c := w.c
	s := w.seg(o.ri, o.ti, o.si)
	left := 10.0
	if s != nil && s.RL > 0 {
		left = math.Max(s.RL-o.csd, 1e-3)
	}
	switch c.IntN(9) {
	case 0:
		if s != nil && o.csd == 0 && s.RL > 0 {
			return s.RL // exactly to the end
		}
		return left * 0.5
	case 1:
		return left * (1 - 1e-4)
	case 2:
		return left * (1 + 1e-4)
	case 3: // into a following segment, if it fits
		if t := w.track(o.ri, o.ti); t != nil && o.si+1 < len(t.segs) {
			k := c.Int(o.si+1, len(t.segs)-1)
			if t.segs[k].RL > 0 {
				return t.segs[k].RL * c.Range(0.3, 1)
			}
		}
		return left * c.Range(0.3, 3)
	case 4:
		return left * c.Range(1.1, 20)
	case 5:
		return left * c.Range(0.01, 0.1)
	case 6:
		if c.Chance(0.1) {
			return 0
		}
		return left * 0.3
	default:
		return left * c.Range(0.1, 0.9)
	}
}
