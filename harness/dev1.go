package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---------------------------------------------------------------- D01

func (c *C) bounds() (float64, float64) {
	switch c.IntN(7) {
	case 0:
		v := pick(c, 0.0, 1, -5, 1e6, 0.1)
		return v, v
	case 1:
		return 0, c.LogRange(1e-6, 1e9)
	case 2:
		return -c.LogRange(1e-3, 1e6), c.LogRange(1e-3, 1e6)
	case 3:
		a := c.Range(-1e4, 1e4)
		return a, a + c.LogRange(1e-9, 1)
	case 4: // the wrong way round
		return c.Range(0, 50), c.Range(-50, 0)
	default:
		a := c.Range(-100, 100)
		return a, a + c.Range(0, 200)
	}
}

func (c *C) amplitude() int {
	return pick(c, 4, 5, 6, 8, 16, 17, 48, 64, 128, 511, 512, c.Int(4, 512))
}

func (c *C) mode() curve.CurveMode {
	return pick[curve.CurveMode](c, 0, curve.ModeDefault, curve.ModeMinStart, curve.ModeMinEnd, curve.ModeMinStart|curve.ModeMinEnd, curve.ModeDefault|curve.ModeMinStart)
}

// normT draws a normalised time.
func (c *C) normT() float64 {
	switch c.IntN(7) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return c.LogRange(1e-300, 1e-3)
	case 3:
		return 1 - c.LogRange(1e-16, 1e-3)
	case 4:
		return math.Nextafter(1, 0)
	default:
		return c.Float64()
	}
}

type rng struct {
	lo, hi, min, tol float64
	n                int // control points
	start, end       bool
}

func newRng(min, max float64, n int, m curve.CurveMode) rng {
	r := rng{lo: math.Min(min, max), hi: math.Max(min, max), min: min, n: n}
	r.tol = 1e-11*(math.Abs(min)+math.Abs(max)) + 1e-300
	r.start = m&curve.ModeMinStart != 0
	r.end = m&curve.ModeMinEnd != 0
	return r
}

func (c *C) inRange(what string, v float64, r rng) {
	if !finite(v) || v < r.lo-r.tol || v > r.hi+r.tol {
		c.Fail("range", "%s is %v, configured are %v to %v (%d control points)", what, v, r.lo, r.hi, r.n)
	}
}

func (c *C) atEnds(what string, t, v float64, r rng) {
	if r.start && t == 0 && !near(v, r.min, r.tol, 0) {
		c.Fail("start-at-minimum", "%s starts at %v, its minimum is %v (maximum %v, %d control points)", what, v, r.min, r.hi, r.n)
	}
	if r.end && t == 1 && !near(v, r.min, r.tol+1e-10*(r.hi-r.lo), 0) {
		c.Fail("end-at-minimum", "%s ends at %v, its minimum is %v (maximum %v, %d control points)", what, v, r.min, r.hi, r.n)
	}
}

func runD01(c *C) {
	if c.Chance(0.04) {
		runD01Draws(c)
		return
	}
	if c.Chance(0.5) {
		runD01Objects(c)
		return
	}
	runD01Device(c)
}

func runD01Objects(c *C) {
	min, max := c.bounds()
	amp, mode := c.amplitude(), c.mode()
	n := c.Int(10, 60)
	kind := c.IntN(5)
	var next, place func(t float64) float64
	var shuffle func()
	name := ""
	r := newRng(min, max, amp, mode)
	var raw *curve.Curve
	switch kind {
	case 0:
		if c.Chance(0.2) {
			amp = pick(c, 0, -3, 1, 2, 3)
		}
		g := curve.New(min, max, amp, mode)
		raw = g
		r.n = g.NumControlPoints()
		place = func(t float64) float64 { return g.Point(t).X }
		name, next, shuffle = "a curve value", func(t float64) float64 { return g.Point(t).Y }, g.Shuffle
		if g.Min() != min || g.Max() != max {
			c.Fail("range", "a curve created for %v..%v reports %v..%v", min, max, g.Min(), g.Max())
		}
	case 1:
		s, err := types.RestoreSensor("6ba7b810-9dad-11d1-80b4-00c04fd430c8", "s", min, max, amp, mode)
		if err != nil {
			c.Fail("construct", "RestoreSensor = %v", err)
		}
		place = func(t float64) float64 { return s.ValueX() }
		name, next, shuffle = "a restored sensor's value", func(t float64) float64 { s.Next(t); return s.ValueY() }, s.Shuffle
	case 2:
		if c.Chance(0.7) {
			min, max = c.Range(0, 400), c.Range(400, 1000)
		} else {
			min, max = 0, c.LogRange(1e-6, 1000)
		}
		if c.Chance(0.2) {
			min = max
		}
		s, err := types.NewSpeed(min, max, amp)
		if err != nil {
			c.Fail("construct", "NewSpeed(%v,%v) = %v", min, max, err)
		}
		r = newRng(min, max, amp, 0)
		name, next, shuffle = "a speed", func(t float64) float64 { s.Next(t); return s.Value() }, s.Shuffle
	case 3:
		min, max = c.Range(0, 100), c.Range(100, 50000)
		if c.Chance(0.2) {
			min = 0
		}
		if c.Chance(0.2) {
			max = min
		}
		if min == 0 && max == 0 {
			max = 100
		}
		nav, err := navigator.New(navigator.WithElevation(min, max, amp, mode))
		if err != nil {
			c.Fail("construct", "navigator.New = %v", err)
		}
		r = newRng(min, max, amp, mode)
		name, next, shuffle = "an elevation", func(t float64) float64 { nav.NextElevation(t); return nav.Elevation() }, nav.ShuffleElevation
	default:
		s, err := types.NewSensor("s", min, max, amp, mode)
		if err != nil {
			c.Fail("construct", "NewSensor = %v", err)
		}
		if c.Chance(0.3) { // also after a round trip
			q := new(types.Sensor)
			q.FromSnapshot(s.Snapshot())
			s = q
		}
		place = func(t float64) float64 { return s.ValueX() }
		name, next, shuffle = "a sensor value", func(t float64) float64 { s.Next(t); return s.ValueY() }, s.Shuffle
	}
	if raw != nil && r.n == 1 {
		r.end = false // the only point is the start
		r.start = mode&(curve.ModeMinStart|curve.ModeMinEnd) != 0
		r.start = false
	}
	seen := map[float64]bool{}
	shuffles := 0
	for i := 0; i < n; i++ {
		t := c.normT()
		v := next(t)
		c.inRange(name, v, r)
		c.atEnds(name, t, v, r)
		if place != nil {
			if x, want := place(t), t*float64(r.n-1); !near(x, want, 1e-7*float64(r.n), 0) {
				c.Fail("place", "%s with %d control points is at place %v at time %v, not at %v", name, r.n, x, t, want)
			}
		}
		seen[v] = true
		if c.Chance(0.2) {
			shuffle()
			shuffles++
			v = next(0)
			c.inRange(name, v, r)
			c.atEnds(name+" after a shuffle", 0, v, r)
			v = next(1)
			c.inRange(name, v, r)
			c.atEnds(name+" after a shuffle", 1, v, r)
		}
	}
	if r.hi-r.lo > 1e-6 && len(seen) < 2 && n > 15 && r.n >= 4 {
		c.Fail("range", "%s is the same at %d different times although it may vary from %v to %v", name, n, r.lo, r.hi)
	}
	c.Count("object_values", n+2*shuffles)
	c.Count("shuffles", shuffles)
	c.NonTrivial("%d %v %v %d %d", kind, min, max, amp, mode)
	c.Sample("%s in %v..%v, %d control points, mode %x: %d values, %d shuffles", name, min, max, r.n, mode, n, shuffles)
}

// runD01Draws judges where curves begin and end over many draws: pinned to the
// minimum exactly where a mode says so, anywhere in the range otherwise.
func runD01Draws(c *C) {
	const n = 64
	min, max := c.Range(0, 400), c.Range(401, 1000)
	amp, mode := c.Int(4, 24), c.mode()
	r := newRng(min, max, amp, mode)
	type object struct {
		at      func(float64) float64
		shuffle func()
	}
	var fresh func() object
	name := ""
	switch c.IntN(4) {
	case 0:
		name = "a curve"
		fresh = func() object {
			g := curve.New(min, max, amp, mode)
			return object{func(t float64) float64 { return g.Point(t).Y }, g.Shuffle}
		}
	case 1:
		name = "a sensor"
		fresh = func() object {
			s, err := types.NewSensor("s", min, max, amp, mode)
			if err != nil {
				c.Fail("construct", "NewSensor = %v", err)
			}
			return object{func(t float64) float64 { s.Next(t); return s.ValueY() }, s.Shuffle}
		}
	case 2:
		name = "a speed"
		r = newRng(min, max, amp, 0)
		fresh = func() object {
			s, err := types.NewSpeed(min, max, amp)
			if err != nil {
				c.Fail("construct", "NewSpeed = %v", err)
			}
			return object{func(t float64) float64 { s.Next(t); return s.Value() }, s.Shuffle}
		}
	default:
		name = "an elevation"
		fresh = func() object {
			n, err := navigator.New(navigator.WithElevation(min, max, amp, mode))
			if err != nil {
				c.Fail("construct", "navigator.New = %v", err)
			}
			return object{func(t float64) float64 { n.NextElevation(t); return n.Elevation() }, n.ShuffleElevation}
		}
	}
	shuffling := c.Chance(0.5)
	o := fresh()
	how := "made"
	if shuffling {
		how = "shuffled"
	}
	low, high := [2]int{}, [2]int{}
	mid := map[float64]bool{}
	for k := 0; k < n; k++ {
		if shuffling {
			o.shuffle()
		} else {
			o = fresh()
		}
		for e, t := range []float64{0, 1} {
			v := o.at(t)
			c.inRange(name, v, r)
			c.atEnds(name, t, v, r)
			if v < min+0.4*(max-min) {
				low[e]++
			}
			if v > min+0.6*(max-min) {
				high[e]++
			}
		}
		mid[o.at(0.5)] = true
	}
	for e, pinned := range []bool{r.start, r.end} {
		if !pinned && (low[e] == 0 || high[e] == 0) {
			c.Fail("draws", "%s in %v..%v %s %d times begins or ends %d times in the lower two fifths and %d times in the upper two fifths (end %d, mode %x)", name, min, max, how, n, low[e], high[e], e, mode)
		}
	}
	if len(mid) < n/2 {
		c.Fail("draws", "%s in %v..%v %s %d times passes only %d different middles", name, min, max, how, n, len(mid))
	}
	c.Count("draws", n)
	c.NonTrivial("draws %v %v %d %d", min, max, amp, mode)
	c.Sample("%s in %v..%v, %d control points, mode %x, %s %d times", name, min, max, amp, mode, how, n)
}

func runD01Device(c *C) {
	o := gpsgen.NewDeviceOptions()
	o.Speed.Min, o.Speed.Max = c.Range(0, 20), c.Range(20, 1000)
	if c.Chance(0.2) {
		o.Speed.Min = 0
	}
	if c.Chance(0.3) {
		o.Speed.Min = o.Speed.Max
	}
	o.Speed.Amplitude = c.amplitude()
	o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = c.Range(0, 100), c.Range(100, 50000)
	o.Navigator.Elevation.Amplitude = c.amplitude()
	o.Navigator.Elevation.Mode = c.mode()
	o.Navigator.SkipOffline = c.Chance(0.6)
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, 3
	o.Battery.ChargeTime = 1e5 * time.Hour
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	speed := newRng(o.Speed.Min, o.Speed.Max, o.Speed.Amplitude, 0)
	elev := newRng(o.Navigator.Elevation.Min, o.Navigator.Elevation.Max, o.Navigator.Elevation.Amplitude, o.Navigator.Elevation.Mode)
	var sr []rng
	for k := c.Int(0, 4); k > 0; k-- {
		min, max := c.bounds()
		amp, mode := c.amplitude(), c.mode()
		s, err := gpsgen.NewSensor("s", min, max, amp, mode)
		if err != nil {
			c.Fail("construct", "NewSensor = %v", err)
		}
		d.AddSensor(s)
		sr = append(sr, newRng(min, max, amp, mode))
	}
	total := 0.0
	for k := c.Int(1, 3); k > 0; k-- {
		r := c.newRoute(3, pick(c, 50.0, 2000, 1e6))
		d.AddRoute(r.r)
		total += r.L()
	}
	still := c.Chance(0.12) // routes without length
	if still {
		d.ResetRoutes()
		total = 0
		for k := c.Int(1, 2); k > 0; k-- {
			p := c.place()
			ps := []pt{p, p, p, p}
			t, err := navigator.NewTrack(ps[:c.Int(2, 4)])
			if err != nil {
				continue
			}
			r := navigator.NewRoute()
			r.AddTrack(t)
			d.AddRoute(r)
		}
		c.Count("trackers_without_length", 1)
	}
	avg := total / ((o.Speed.Min + o.Speed.Max) / 2)
	n := c.Int(20, 250)
	laps, moves, starts, ends := 0, 0, 0, 0
	lap := true // the next step is the first of a lap
	for i := 0; i < n; i++ {
		var tick float64
		switch c.IntN(9) {
		case 0:
			tick = c.LogRange(1e-6, 1e9)
		case 1:
			tick = avg / 4
		case 2, 3, 4:
			tick = c.Range(0.5, 3)
		case 5:
			tick = avg * c.LogRange(1e-4, 1e-1)
		default:
			tick = 1
		}
		tiny := lap && c.Chance(0.5)
		if tiny {
			tick = 1e-9 * math.Min(1, avg)
		}
		if !finite(tick) || tick <= 0 {
			tick = 1
		}
		if c.Chance(0.04) || still && c.Chance(0.4) {
			tick = 0
		}
		pre := d.Duration()
		ok := d.Next(tick)
		st := d.State()
		if d.NumRoutes() > 0 {
			c.inRange("the speed of a step", st.Speed, speed)
		}
		if st.Duration == 0 && pre > 0 {
			laps++
			lap = true
			continue
		}
		if ok {
			moves++
			c.inRange("the elevation", st.Location.Elevation, elev)
			for k, s := range st.Sensors {
				c.inRange("a sensor", s.ValY, sr[k])
				if !finite(s.ValX) {
					c.Fail("range", "a sensor position is %v", s.ValX)
				}
			}
			lateStart := func(what string, v float64, r rng) {
				if r.start && tiny && math.Abs(v-r.min) > 1e-3*(r.hi-r.lo)+r.tol {
					c.Fail("start-at-minimum", "%s is %v at the very beginning of a lap (%d laps before), its minimum is %v, its maximum %v", what, v, laps, r.min, r.hi)
				}
				if r.end && st.Duration > avg*1.000001 && avg > 0 && !near(v, r.min, r.tol+1e-9*(r.hi-r.lo), 0) {
					c.Fail("end-at-minimum", "%s is %v after %v s, a lap takes %v s (%d laps before); its minimum is %v, its maximum %v", what, v, st.Duration, avg, laps, r.min, r.hi)
				}
			}
			if tiny {
				starts++
			}
			if st.Duration > avg*1.000001 && avg > 0 {
				ends++
			}
			if avg > 1e-3 {
				lateStart("the elevation", st.Location.Elevation, elev)
				for k, s := range st.Sensors {
					lateStart("a sensor", s.ValY, sr[k])
				}
			}
			lap = false
		} else if lap && tiny {
			lap = d.Duration() < 1e-6*avg
		} else if d.Duration() > 0 {
			lap = false
		}
	}
	c.Count("device_steps", n)
	c.Count("device_steps_moved", moves)
	c.Count("laps", laps)
	c.Count("starts_judged", starts)
	c.Count("ends_judged", ends)
	c.NonTrivial("dev %v %v %d %d laps=%d moves=%d", o.Speed.Min, elev.hi, len(sr), o.Speed.Amplitude, laps, moves)
	c.Sample("tracker with %d sensors over %.0f m: %d steps, %d moved, %d laps", len(sr), total, n, moves, laps)
}

// ---------------------------------------------------------------- D02

// battModel is linear drain with a floor.
type battModel struct{ min, max, ct, used float64 }

func (b *battModel) value() float64 {
	if b.used == 0 {
		return b.max
	}
	v := b.max - b.used/b.ct*100
	if !(v > b.min) {
		return b.min
	}
	return v
}

func (c *C) battery() (min, max float64, ct time.Duration) {
	min = pick(c, 0, 0, c.Range(0, 50), 20)
	max = pick(c, 100, c.Range(min, 100), 100, 80)
	if c.Chance(0.08) {
		max = min
	}
	max = math.Max(min, max)
	ct = time.Duration(c.LogRange(1, 1e5) * 1e9)
	switch {
	case c.Chance(0.05):
		ct = 0
	case c.Chance(0.05):
		ct = time.Duration(c.Int(1, 1000))
	case c.Chance(0.05):
		ct = -time.Duration(c.Int(1, 1e9))
	}
	return
}

func runD02(c *C) {
	min, max, ct := c.battery()
	m := battModel{min: min, max: max, ct: ct.Seconds()}
	if ct < 0 {
		m.ct = 9 * 3600
	}
	tol := 1e-9 + 1e-9*max
	check := func(v float64, when string) {
		if !finite(v) || v < min-tol || v > max+tol {
			c.Fail("charge", "the charge is %v %s, the battery is configured for %v..%v in %v", v, when, min, max, ct)
		}
		if !near(v, m.value(), tol, 1e-9) {
			c.Fail("charge", "the charge is %v %s, expected %v: %v..%v in %v, %v s used", v, when, m.value(), min, max, ct, m.used)
		}
	}
	if c.Chance(0.3) { // the object alone
		b, err := types.NewBattery(min, max, ct)
		if err != nil {
			c.Fail("construct", "NewBattery(%v,%v,%v) = %v", min, max, ct, err)
		}
		check(b.Value(), "when fresh")
		lows := 0
		for i := 0; i < 60; i++ {
			t := c.tick() * pick(c, 1, 1, 100, m.ct/500)
			b.Next(t)
			m.used += t
			check(b.Value(), "after a step")
			gap := m.value() - m.min
			if gap > tol && b.IsLow() {
				c.Fail("charge", "a battery at %v is low, its minimum is %v", b.Value(), min)
			}
			if m.value() == m.min && m.used/m.ct*100 > (max-min)*1.000001+1e-6 && !b.IsLow() {
				c.Fail("charge", "a battery at its minimum %v is not low", min)
			}
			if c.Chance(0.2) && i > 3 {
				q := new(types.Battery)
				q.FromSnapshot(b.Snapshot())
				b = q
				check(b.Value(), "after a round trip")
			}
			if c.Chance(0.05) || b.IsLow() {
				b.Reset()
				m.used = 0
				lows++
				check(b.Value(), "after a reset")
			}
		}
		c.Count("object_steps", 60)
		c.Count("recharges", lows)
		c.NonTrivial("obj %v %v %v", min, max, ct)
		return
	}
	o := gpsgen.NewDeviceOptions()
	o.Battery.Min, o.Battery.Max, o.Battery.ChargeTime = min, max, ct
	o.Navigator.SkipOffline = c.Chance(0.4)
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = 4, 6
	o.Speed.Min, o.Speed.Max = 1, c.LogRange(1, 100)
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	for k := c.Int(1, 2); k > 0; k-- {
		r := c.newRoute(3, 3000)
		d.AddRoute(r.r)
	}
	if d.Distance() < 2 {
		return
	}
	charge := func() float64 { d.Update(); return d.State().Battery.Charge }
	check(charge(), "before the first step")
	n := c.Int(20, 200)
	recharges, offs, offlineDrain := 0, 0, 0
	waiting, carried := 0.0, 0 // time carried over into the next step
	for i := 0; i < n; i++ {
		switch c.IntN(20) {
		case 0:
			d.MoveToSegment(c.IntN(2), c.IntN(3), c.IntN(3))
		case 1:
			d.DestinationTo(c.Range(0, d.Distance()))
		case 2:
			d.ToOffline()
		case 3:
			d.ResetNavigator()
		case 4:
			d.AddRoute(c.newRoute(1, 500).r)
		case 5:
			b, err := gpsgen.EncodeTracker(d)
			if err != nil {
				c.Fail("encode", "EncodeTracker = %v", err)
			}
			if d, err = gpsgen.DecodeTracker(b); err != nil {
				c.Fail("encode", "DecodeTracker = %v", err)
			}
			waiting = 0
		case 6, 7: // a busy tracker
			d.EachRoute(func(int, *gpsgen.Route) bool {
				for k := c.Int(1, 3); k > 0; k-- {
					t := math.Round(c.tick()*pick(c, 1, 10, m.ct/200+1e-3)*1e9) / 1e9
					if t < 1e8 && !d.Next(t) {
						waiting += t
						carried++
					}
				}
				return false
			})
		default:
			t := c.tick() * pick(c, 1, 1, 10, m.ct/200+1e-3)
			wasOff := d.IsOffline()
			ok := d.Next(t)
			t += waiting
			waiting = 0
			m.used += t
			frac := max - m.used/m.ct*100 - min
			if ok {
				// a moved step publishes the charge
				v := d.State().Battery.Charge
				if !finite(v) || v < min-tol || v > max+tol {
					c.Fail("charge", "a moved step publishes a charge of %v, configured are %v..%v", v, min, max)
				}
			}
			if wasOff {
				offlineDrain++
			}
			v := charge()
			empty := !(frac > 1e-9*max+1e-9)
			full := near(v, max, tol, 0)
			if math.Abs(frac) <= 1e-7*max+1e-9 { // at the very edge both are right
				if full {
					m.used = 0
				}
				continue
			}
			if empty {
				recharges++
				m.used = 0
				if !near(v, max, tol, 0) {
					c.Fail("recharge", "a step of %v s emptied the battery (%v..%v in %v), but the charge is %v instead of the maximum", t, min, max, ct, v)
				}
				if !o.Navigator.SkipOffline {
					offs++
					if !d.IsOffline() {
						c.Fail("recharge", "a step emptied the battery, but the tracker did not go offline")
					}
				} else if d.IsOffline() {
					c.Fail("recharge", "a tracker that skips offline mode went offline when its battery was empty")
				}
			}
		}
		check(charge(), "after an operation or step")
		if st := d.State(); !near(float64(st.Battery.ChargeTime), m.ct, 1, 0) {
			c.Fail("charge", "the state reports a charge time of %d s, configured are %v", st.Battery.ChargeTime, m.ct)
		}
	}
	c.Count("device_steps", n)
	c.Count("recharges", recharges)
	c.Count("went_offline_when_empty", offs)
	c.Count("offline_steps_drained", offlineDrain)
	c.Count("steps_carried_over", carried)
	c.NonTrivial("dev %v %v %v recharges=%d", min, max, ct, recharges)
	c.Sample("tracker with a battery of %.1f..%.1f %% in %v: %d steps, %d recharges", min, max, ct, n, recharges)
}

// ---------------------------------------------------------------- D03

// checkMirror compares the published state with the tracker's own answers.
func (c *C) checkMirror(d *gpsgen.Device, when string) {
	st, sn := d.State(), d.Snapshot()
	bad := func(field string, got, want any) {
		c.Fail("mirror", "%s: the state says %s = %v, the tracker %v", when, field, got, want)
	}
	str := func(f, a, b string) {
		if a != b {
			bad(f, a, b)
		}
	}
	num := func(f string, a, b float64) {
		if !finite(a) || a != b {
			bad(f, a, b)
		}
	}
	in := func(f string, a int64, b int) {
		if a != int64(b) {
			bad(f, a, b)
		}
	}
	str("id", st.Id, d.ID())
	str("model", st.Model, d.Model())
	str("user", st.UserId, d.UserID())
	str("color", st.Color, d.Color())
	str("description", st.Description, d.Descr())
	num("duration", st.Duration, d.Duration())
	p := d.Location()
	num("lat", st.Location.Lat, p.Lat)
	num("lon", st.Location.Lon, p.Lon)
	num("bearing", st.Location.Bearing, d.CurrentBearing())
	num("elevation", st.Location.Elevation, sn.Navigator.Elevation.GetValY())
	num("speed", st.Speed, func() float64 {
		if sn.Speed.Min == sn.Speed.Max {
			return sn.Speed.Min
		}
		return sn.Speed.Val
	}())
	num("distance", st.Distance.Distance, d.Distance())
	num("current distance", st.Distance.CurrentDistance, d.CurrentDistance())
	num("route distance", st.Distance.RouteDistance, d.RouteDistance())
	num("current route distance", st.Distance.CurrentRouteDistance, d.CurrentRouteDistance())
	num("track distance", st.Distance.TrackDistance, d.TrackDistance())
	num("current track distance", st.Distance.CurrentTrackDistance, d.CurrentTrackDistance())
	num("segment distance", st.Distance.SegmentDistance, d.SegmentDistance())
	num("current segment distance", st.Distance.CurrentSegmentDistance, d.CurrentSegmentDistance())
	in("route index", st.Navigator.CurrentRouteIndex, d.RouteIndex())
	in("track index", st.Navigator.CurrentTrackIndex, d.TrackIndex())
	in("segment index", st.Navigator.CurrentSegmentIndex, d.SegmentIndex())
	rid, tid := "", ""
	if r := d.CurrentRoute(); r != nil {
		rid = r.ID()
	}
	if t := d.CurrentTrack(); t != nil {
		tid = t.ID()
	}
	str("route id", st.Navigator.CurrentRouteId, rid)
	str("track id", st.Navigator.CurrentTrackId, tid)
	if st.IsOffline != d.IsOffline() || st.IsOffline != (st.OfflineDuration > 0) {
		bad("offline", st.IsOffline, d.IsOffline())
	}
	in("offline duration", st.OfflineDuration, int(sn.Navigator.OfflineIndex))
	bm := battModel{sn.Battery.Min, sn.Battery.Max, time.Duration(sn.Battery.ChargeTime).Seconds(), sn.Battery.Val}
	if !near(st.Battery.Charge, bm.value(), 1e-9, 1e-9) {
		bad("charge", st.Battery.Charge, bm.value())
	}
	in("charge time", st.Battery.ChargeTime, int(time.Duration(sn.Battery.ChargeTime).Seconds()))
	ss := d.Sensors()
	if len(st.Sensors) != len(ss) {
		bad("number of sensors", len(st.Sensors), len(ss))
	}
	for i, s := range ss {
		x := st.Sensors[i]
		str("sensor id", x.Id, s.ID())
		str("sensor name", x.Name, s.Name())
		num("sensor x", x.ValX, s.ValueX())
		num("sensor y", x.ValY, s.ValueY())
	}
	rs := d.Routes()
	if len(st.Routes.Routes) != len(rs) {
		bad("number of routes", len(st.Routes.Routes), len(rs))
	}
	for i, r := range rs {
		x := st.Routes.Routes[i]
		str("route "+fmt.Sprint(i), x.RouteId, r.ID())
		str("route color", x.Color, r.Color())
		num("route length", x.Distance, r.Distance())
		c.propsMirror("route", x.Props, x.PropsCount, r.Props())
		if len(x.Tracks) != r.NumTracks() {
			bad("number of tracks", len(x.Tracks), r.NumTracks())
		}
		for j, y := range x.Tracks {
			t := r.TrackAt(j)
			str("track", y.TrackId, t.ID())
			str("track color", y.Color, t.Color())
			num("track length", y.Distance, t.Distance())
			in("track segments", y.NumSegments, t.NumSegments())
			c.propsMirror("track", y.Props, y.PropsCount, t.Props())
		}
	}
	if !finite(st.Tick, st.TimeEstimate) || st.TimeEstimate < 0 || st.Tick < 0 {
		bad("tick or time estimate", fmt.Sprint(st.Tick, " ", st.TimeEstimate), "a finite number")
	}
	if st.Units.GetDistance() == "" || st.Units.GetSpeed() == "" || st.Units.GetTime() == "" || st.Units.GetElevation() == "" {
		bad("units", st.Units, "all four")
	}
	c.allFinite(st, when)
}

func (c *C) propsMirror(what string, raw []byte, n int64, props map[string]any) {
	if n != int64(len(props)) {
		c.Fail("mirror", "the state counts %d properties of a %s, it has %d", n, what, len(props))
	}
	want := map[string]any{}
	b, _ := json.Marshal(props)
	json.Unmarshal(b, &want)
	got := map[string]any{}
	if len(raw) > 0 {
		if err := json.Unmarshal(raw, &got); err != nil {
			c.Fail("mirror", "the properties of a %s in the state are no JSON: %v", what, err)
		}
	}
	if fmt.Sprint(sortedMap(got)) != fmt.Sprint(sortedMap(want)) {
		c.Fail("mirror", "the state says the properties of a %s are %v, they are %v", what, got, want)
	}
}

func sortedMap(m map[string]any) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%q=%#v", k, v))
	}
	sort.Strings(out)
	return out
}

func (c *C) allFinite(st *pb.Device, when string) {
	l, s := st.Location, st.Distance
	if !finite(l.Lat, l.Lon, l.Elevation, l.Bearing, l.LatDms.GetSeconds(), l.LonDms.GetSeconds(), l.Utm.GetEasting(), l.Utm.GetNorthing(), l.Utm.GetCentralMeridian(),
		s.Distance, s.CurrentDistance, s.RouteDistance, s.CurrentRouteDistance, s.TrackDistance, s.CurrentTrackDistance, s.SegmentDistance, s.CurrentSegmentDistance,
		st.Speed, st.Duration, st.Tick, st.Battery.Charge, st.TimeEstimate) {
		c.Fail("mirror", "%s: the state contains a number that is not finite: %s", when, msgText(st))
	}
}

func runD03(c *C) {
	w := c.newWorld(worldOpt{device: true, varSpeed: c.Chance(0.6), battery: true, maxRoutes: 3, maxTracks: 3, maxSeg: pick(c, 100.0, 2000, 1e6)})
	d := w.dev
	if c.Chance(0.05) {
		// a tracker without speed or without length
		o := gpsgen.NewDeviceOptions()
		o.Speed.Min, o.Speed.Max = 0, c.Range(0, 1)
		if x, err := gpsgen.NewDevice(o); err == nil {
			for _, r := range w.routes {
				x.AddRoute(r.r)
			}
			d, w.dev, w.n = x, x, x
		}
	}
	n := c.Int(20, 160)
	mirrors := map[string]int{}
	pat := ""
	for i := 0; i < n; i++ {
		switch x := c.IntN(40); x {
		case 0:
			d.SetModel("model-" + c.text(1, 9))
			d.SetUserID(c.text(0, 12))
			d.SetDescription(c.text(0, 20))
			d.SetColor(c.color())
		case 1:
			s, err := gpsgen.NewSensor(c.text(1, 9), c.Range(-9, 9), c.Range(-9, 9), 4, 0)
			if err == nil {
				d.AddSensor(s)
			}
		case 2:
			if l := d.Sensors(); len(l) > 0 {
				d.RemoveSensor(l[c.IntN(len(l))].ID())
				if c.Chance(0.5) { // removed and replaced: the number is the same
					s, _ := gpsgen.NewSensor("other", 0, 1, 4, 0)
					d.AddSensor(s)
				}
			}
		case 3:
			if c.Chance(0.3) {
				d.ResetSensors()
			}
		case 4:
			if len(w.routes) > 0 && c.Chance(0.3) {
				r := w.routes[c.IntN(len(w.routes))]
				d.RemoveRoute(r.id)
				w.routes = nil
				pat += "r"
			}
		case 5:
			if c.Chance(0.1) {
				d.ResetRoutes()
				w.routes = nil
				pat += "R"
			}
		case 6:
			r := c.newRoute(3, 2000)
			if c.Chance(0.5) {
				r.r.Props().Set("a", c.text(0, 5)).Set("n", c.IntN(100))
			}
			d.AddRoute(r.r)
			w.routes = nil
			pat += "a"
		case 7, 8:
			// edit a route or track directly
			rs := d.Routes()
			if len(rs) == 0 {
				break
			}
			r := rs[c.IntN(len(rs))]
			switch c.IntN(5) {
			case 0:
				r.ChangeColor(c.color())
			case 1:
				if r.NumTracks() > 0 {
					r.TrackAt(c.IntN(r.NumTracks())).ChangeColor(c.color().Hex())
				}
			case 2:
				r.AddTrack(c.newTrack(2000).t)
				w.routes = nil
			case 3:
				r.Props().Set(c.text(1, 3), c.text(0, 5))
				d.Update()
			default:
				if r.NumTracks() > 0 {
					r.TrackAt(0).Props().Set("x", true)
					d.Update()
				}
			}
			pat += "e"
		case 9:
			d.MoveToSegment(c.IntN(3), c.IntN(3), c.IntN(5))
		case 10:
			d.DestinationTo(c.Range(0, d.Distance()+1))
		case 11:
			d.ToOffline()
		case 12:
			d.ResetNavigator()
		case 13:
			d.Update()
			c.checkMirror(d, "after a refresh")
			mirrors["refresh"]++
			pat += "u"
		case 14:
			b, err := gpsgen.EncodeTracker(d)
			if err != nil {
				c.Fail("encode", "EncodeTracker = %v", err)
			}
			c.checkMirror(d, "after encoding")
			x, err := gpsgen.DecodeTracker(b)
			if err != nil {
				c.Fail("encode", "DecodeTracker = %v", err)
			}
			c.checkMirror(x, "after decoding")
			mirrors["decoded"]++
			if c.Chance(0.3) {
				d, w.dev, w.n, w.routes = x, x, x, nil
				pat += "d"
			}
		default:
			tick := c.Range(0.2, 20)
			if len(w.routes) > 0 && w.speed > 0 && c.Chance(0.7) {
				tick = w.stepSize(w.observe()) / w.speed
			}
			pre := d.Duration()
			if d.Next(tick) {
				c.checkMirror(d, "after a moved step")
				mirrors["moved"]++
				pat += "m"
			} else if d.NumRoutes() > 0 && d.Duration() == 0 && pre+tick > 0 {
				c.checkMirror(d, "after the end of a lap")
				mirrors["lap"]++
				pat += "L"
			} else if st := d.State(); d.NumRoutes() > 0 && st.IsOffline != d.IsOffline() {
				c.Fail("mirror", "after a step that did not move the tracker the state says offline=%v, the tracker %v", st.IsOffline, d.IsOffline())
			}
			c.allFinite(d.State(), "after a step")
		}
	}
	for k, v := range mirrors {
		c.Count("mirrored_"+k, v)
	}
	c.NonTrivial("%s", pat)
	c.Sample("states compared after moved steps %d, laps %d, refreshes %d, decoding %d; operations %s", mirrors["moved"], mirrors["lap"], mirrors["refresh"], mirrors["decoded"], clip(pat, 60))
}
