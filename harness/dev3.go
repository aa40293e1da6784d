package main

import (
	"math"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---------------------------------------------------------------- D05

// around draws a finite value at, near or far from one of the limits.
func (c *C) around(lo, hi float64) float64 {
	switch c.IntN(9) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return math.Nextafter(lo, -1e9)
	case 3:
		return math.Nextafter(hi, 1e9)
	case 4:
		return pick(c, lo, hi) + pick(c, -1, 1.0)*c.LogRange(1e-9, 10)
	case 5:
		return pick(c, -1, 1.0) * c.LogRange(1, 1e12)
	default:
		return c.Range(lo, hi)
	}
}

// inside draws two values within the limits in order.
func (c *C) inside(lo, hi float64) (float64, float64) {
	a, b := c.Range(lo, hi), c.Range(lo, hi)
	switch c.IntN(6) {
	case 0:
		a, b = lo, hi
	case 1:
		b = a
	case 2:
		a = lo
	case 3:
		b = hi
	}
	return math.Min(a, b), math.Max(a, b)
}

func (c *C) anAmplitude() (int, bool) {
	n := c.Int(4, 512)
	switch c.IntN(8) {
	case 0:
		n = pick(c, 4, 512)
	case 1:
		n = pick(c, 3, 513, 0, -1, -4)
	case 2:
		n = c.Int(-100000, 100000)
	}
	return n, n >= 4 && n <= 512
}

// sized draws text of around lo..hi bytes.
func (c *C) sized(lo, hi int) (string, bool) {
	n := c.Int(lo, hi)
	switch c.IntN(6) {
	case 0:
		n = pick(c, lo, hi)
	case 1:
		n = pick(c, lo-1, hi+1, 1, 2)
	case 2:
		n = c.Int(0, 3*hi)
	}
	if n < 0 {
		n = 0
	}
	s := ""
	if c.Chance(0.2) {
		s = strings.Repeat("ж", n/2)
	} else {
		s = strings.Repeat("abc d-e", n/7+1)
	}
	for len(s) < n {
		s += "z"
	}
	s = s[:n]
	return s, n >= lo && n <= hi
}

// verdict judges a constructor: ok says whether the values are inside the limits.
func (c *C) verdict(what string, ok, made bool, err error, args ...any) bool {
	if ok && (err != nil || !made) {
		c.Fail("refused", "%s(%v) is valid but gave (object: %v, error: %v)", what, args, made, err)
	}
	if !ok && (err == nil || made) {
		c.Fail("accepted", "%s(%v) is outside the limits but gave (object: %v, error: %v)", what, args, made, err)
	}
	if ok {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	c.Distinct("judged", what+map[bool]string{true: " valid", false: " invalid"}[ok])
	return ok
}

func (c *C) reports(what string, got, want any) {
	if got != want {
		c.Fail("reports", "%s was configured as %v but reports %v", what, want, got)
	}
}

// speedOpts draws a speed range: its validity and what must be reported.
func (c *C) speedOpts() (min, max float64, ok bool) {
	if c.Chance(0.5) {
		min, max = c.inside(0, 1000)
	} else {
		min, max = c.around(0, 1000), c.around(0, 1000)
	}
	if max <= 0 { // no maximum: the speed is constant
		return min, max, min >= 0 && min <= 1000
	}
	return min, max, min >= 0 && max <= 1000 && min <= max
}

func (c *C) checkSpeedRange(min, max, gmin, gmax float64) {
	if min < max || min == max && max > 0 {
		c.reports("minimum speed", gmin, min)
		c.reports("maximum speed", gmax, max)
	} else if !(gmin >= 0 && gmin <= gmax && gmax <= 1000) || min > 0 && (gmin != min || gmax != min) {
		c.Fail("reports", "speed %v..%v became %v..%v", min, max, gmin, gmax)
	}
}

func runD05(c *C) {
	switch c.IntN(9) {
	case 0, 1, 2:
		c.d05Device()
	case 3:
		min, max, ok := c.speedOpts()
		amp, aok := c.anAmplitude()
		s, err := types.NewSpeed(min, max, amp)
		if c.verdict("NewSpeed", ok && aok, s != nil, err, min, max, amp) {
			c.checkSpeedRange(min, max, s.Min(), s.Max())
			c.reports("speed amplitude", len(s.Snapshot().Gen.Points), amp)
		}
		c.NonTrivial("speed %v %v %d", min, max, amp)
	case 4:
		min, max := c.around(0, 100), c.around(0, 100)
		if c.Chance(0.5) {
			min, max = c.inside(0, 100)
		}
		ct := time.Duration(c.LogRange(1, 1e6) * 1e9)
		want := ct
		if c.Chance(0.3) { // no charge time: the documented default
			ct, want = time.Duration(-c.LogRange(1e-9, 1e6)*1e9), 9*time.Hour
			if c.Chance(0.5) {
				ct = 0
			}
		}
		b, err := types.NewBattery(min, max, ct)
		if c.verdict("NewBattery", min >= 0 && max >= 0 && max <= 100, b != nil, err, min, max, ct) {
			c.reports("maximum charge", b.Max(), max)
			c.reports("minimum charge", b.Min(), math.Min(min, max))
			if ct == 0 && b.ChargeTime() == 0 {
				c.Finding("battery-charge-time-zero", "NewBattery with charge time 0 keeps 0 instead of the documented 9 hours")
			} else {
				c.reports("charge time", b.ChargeTime(), want)
			}
			c.reports("fresh charge", b.Value(), max)
		}
		c.NonTrivial("battery %v %v", min, max)
	case 5:
		c.d05Sensor()
	case 6:
		s, ok := c.sized(3, 64)
		m, err := types.NewModel(s)
		if c.verdict("NewModel", ok, m.String() != "", err, len(s)) {
			c.reports("model", m.String(), s)
			c.reports("model emptiness", m.IsEmpty(), false)
		} else if !m.IsEmpty() {
			c.Fail("accepted", "NewModel of %d bytes gave %q besides an error", len(s), m)
		}
		if r := types.RandomModel(); len(r.String()) < 3 || len(r.String()) > 64 || r.String() == types.RandomModel().String() {
			c.Fail("default", "random model %q", r.String())
		}
		s, ok = c.sized(3, 256)
		n, err := navigator.ParseName(s)
		if c.verdict("ParseName", ok, n.String() != "", err, len(s)) {
			c.reports("name", n.String(), s)
			c.reports("name emptiness", n.IsEmpty(), false)
		} else if !n.IsEmpty() {
			c.Fail("accepted", "ParseName of %d bytes gave %q besides an error", len(s), n)
		}
		c.NonTrivial("text %d %v", len(s), ok)
	case 7:
		c.d05Track()
	default:
		c.d05Navigator()
	}
}

func (c *C) d05Sensor() {
	amp, aok := c.anAmplitude()
	name := c.text(1, 30)
	if c.Chance(0.15) {
		name = ""
	}
	min, max := c.bounds()
	mode := c.mode()
	var s *types.Sensor
	var err error
	id, iok := "", true
	switch c.IntN(3) {
	case 0:
		s, err = types.NewSensor(name, min, max, amp, mode)
	case 1:
		s, err = gpsgen.NewSensor(name, min, max, amp, mode)
	default:
		u := uuid.NewString()
		id = u
		if c.Chance(0.3) {
			iok = false
			id = pick(c, "", "x", u[:35], u+"0", strings.Replace(u, "-", "_", 1), "g"+u[1:], c.text(36, 36))
		}
		s, err = types.RestoreSensor(id, name, min, max, amp, mode)
	}
	if c.verdict("NewSensor/RestoreSensor", aok && iok && name != "", s != nil, err, id, name, min, max, amp, mode) {
		c.reports("sensor name", s.Name(), name)
		c.reports("sensor minimum", s.Min(), min)
		c.reports("sensor maximum", s.Max(), max)
		sn := s.Snapshot()
		c.reports("sensor amplitude", len(sn.Gen.Points), amp)
		if mode > 0 {
			c.reports("sensor mode", sn.Gen.Mode, int64(mode))
		} else {
			c.reports("default sensor mode", sn.Gen.Mode, int64(curve.ModeDefault))
		}
		if id != "" {
			c.reports("sensor id", s.ID(), strings.ToLower(id))
		} else {
			t, _ := types.NewSensor(name, min, max, amp, mode)
			if _, err := uuid.Parse(s.ID()); err != nil || t.ID() == s.ID() {
				c.Fail("default", "sensor ids %q, %q", s.ID(), t.ID())
			}
		}
	}
	c.NonTrivial("sensor %v %v %d %v", min, max, amp, name == "")
}

func (c *C) d05Track() {
	var pts []pt
	for k := pick(c, 0, 1, 1, 2, 3, 9); k > 0; k-- {
		pts = append(pts, c.randCenter())
	}
	var t *navigator.Track
	var err error
	id, col := "", "#0a0b0c"
	restore := c.Chance(0.5)
	if restore {
		id = pick(c, "", "t", uuid.NewString(), c.text(1, 60))
		t, err = navigator.RestoreTrack(id, col, pts)
	} else {
		t, err = navigator.NewTrack(pts)
	}
	ok := len(pts) >= 2 && !(restore && id == "")
	if c.verdict("NewTrack/RestoreTrack", ok, t != nil, err, len(pts), id) {
		c.reports("number of segments", t.NumSegments(), len(pts)-1)
		for i := 0; i+1 < len(pts); i++ {
			s := t.SegmentAt(i)
			if s.PointA() != pts[i] || s.PointB() != pts[i+1] {
				c.Fail("reports", "segment %d of a track is %v-%v, given were %v-%v", i, s.PointA(), s.PointB(), pts[i], pts[i+1])
			}
		}
		if restore {
			c.reports("track id", t.ID(), id)
			c.reports("track color", t.Color(), col)
		} else {
			u, _ := navigator.NewTrack(pts)
			if t.ID() == "" || t.ID() == u.ID() {
				c.Fail("default", "track ids %q, %q", t.ID(), u.ID())
			}
			c.validHex(t.Color())
		}
		c.labels(t.Name, t.Color, t.ChangeName, func(s string, k colorful.Color, valid bool) error { return t.ChangeColor(s) }, func() any {
			return stateHash(t.Snapshot())
		}, true)
	}
	r, q := navigator.NewRoute(), navigator.NewRoute()
	if r.ID() == "" || r.ID() == q.ID() {
		c.Fail("default", "route ids %q, %q", r.ID(), q.ID())
	}
	c.validHex(r.Color())
	c.labels(r.Name, r.Color, r.ChangeName, func(s string, k colorful.Color, valid bool) error { return r.ChangeColor(k) }, func() any {
		return stateHash(r.Snapshot())
	}, false)
	c.NonTrivial("track %v %v", pts, id)
}

func (c *C) validHex(s string) {
	if k, err := colorful.Hex(s); err != nil || len(s) != 7 || k.Hex() != s {
		c.Fail("default", "%q is no color (%v)", s, err)
	}
}

// labels judges the name and color setters of a route or track.
func (c *C) labels(name func() navigator.Name, color func() string, setName func(string) error,
	setColor func(string, colorful.Color, bool) error, sum func() any, hexOnly bool) {
	for k := 0; k < 4; k++ {
		s, ok := c.sized(3, 256)
		pre := sum()
		err := setName(s)
		if c.setter("ChangeName", ok, err, pre, sum(), len(s)) {
			c.reports("name", name().String(), s)
		}
		col, kok := c.aColor()
		hex := col.Hex()
		if hexOnly && !kok {
			hex = pick(c, "", "#", "red", "0a0b0c", "#12", "#gg0000", "##0a0b0c", "1234567")
		}
		pre = sum()
		err = setColor(hex, col, kok)
		if c.setter("ChangeColor", kok, err, pre, sum(), hex, col) {
			c.reports("color", color(), hex)
		}
	}
}

// setter judges a setter: pre and post identify everything the object shows.
func (c *C) setter(what string, ok bool, err error, pre, post any, args ...any) bool {
	if ok && err != nil {
		c.Fail("refused", "%s(%v) is valid but gave %v", what, args, err)
	}
	if !ok && err == nil {
		c.Fail("accepted", "%s(%v) is outside the limits but was accepted", what, args)
	}
	if !ok && pre != post {
		c.Fail("changed", "%s(%v) was refused but changed the object", what, args)
	}
	c.Count(map[bool]string{true: "setter_accepted", false: "setter_refused"}[ok], 1)
	c.Distinct("judged", what+map[bool]string{true: " valid", false: " invalid"}[ok])
	return ok
}

func (c *C) aColor() (colorful.Color, bool) {
	k := c.color()
	if c.Chance(0.35) {
		bad := pick(c, -0.001, 1.001, -5, 255, 300.0, math.Nextafter(1, 2))
		switch c.IntN(3) {
		case 0:
			k.R = bad
		case 1:
			k.G = bad
		default:
			k.B = bad
		}
		return k, false
	}
	return k, true
}

// navLimits draws the navigator's options: whether they are valid and what must be reported.
type navLimits struct {
	emin, emax float64
	amp        int
	mode       types.SensorMode
	omin, omax int
	skip       bool
	ok         bool
}

func (c *C) navLimits() (n navLimits) {
	if c.Chance(0.6) {
		n.emin, n.emax = c.inside(0, 50000)
	} else {
		n.emin, n.emax = c.around(0, 50000), c.around(0, 50000)
	}
	n.amp, n.ok = c.anAmplitude()
	n.mode = c.mode()
	a, b := c.Int(0, 3600), c.Int(0, 3600)
	if a > b {
		a, b = b, a
	}
	switch c.IntN(7) {
	case 0:
		a, b = 0, 3600
	case 1:
		a = pick(c, -1, -1000)
	case 2:
		b = pick(c, 3601, 100000)
	case 3:
		a, b = 0, 0
	case 4:
		a, b = c.Int(1, 3600), c.Int(1, 3600)
	}
	n.omin, n.omax = a, b
	n.skip = c.Chance(0.3)
	n.ok = n.ok && n.emin >= 0 && n.emax <= 50000 && n.omin >= 0 && n.omax <= 3600
	if n.ok && (n.emax < 0 || n.omax < 0) {
		n.emax, n.omax = math.Abs(n.emax), c.Int(1, 3600) // a maximum below the lowest minimum: not documented
		n.ok = n.emax <= 50000
	}
	return
}

func (c *C) checkNav(n navLimits, s *pb.Snapshot_Navigator) {
	e := s.Elevation
	if n.emin <= n.emax && !(n.emin == 0 && n.emax == 0) {
		c.reports("minimum elevation", e.Min, n.emin)
		c.reports("maximum elevation", e.Max, n.emax)
	} else if !(e.Min >= 0 && e.Min <= e.Max && e.Max <= 50000) {
		c.Fail("reports", "elevation %v..%v became %v..%v", n.emin, n.emax, e.Min, e.Max)
	}
	c.reports("elevation amplitude", len(e.Gen.Points), n.amp)
	if n.mode > 0 {
		c.reports("elevation mode", e.Gen.Mode, int64(n.mode))
	}
	c.reports("skip offline", s.SkipOffline, n.skip)
	if n.skip {
		return
	}
	if n.omin <= n.omax && n.omax > 0 {
		c.reports("minimum offline", s.OfflineMin, int64(n.omin))
		c.reports("maximum offline", s.OfflineMax, int64(n.omax))
	} else if !(s.OfflineMin >= 0 && s.OfflineMin <= s.OfflineMax && s.OfflineMax <= 3600) {
		c.Fail("reports", "offline %d..%d became %d..%d", n.omin, n.omax, s.OfflineMin, s.OfflineMax)
	}
}

func (c *C) d05Navigator() {
	n := c.navLimits()
	opts := []navigator.Option{navigator.WithElevation(n.emin, n.emax, n.amp, n.mode), navigator.WithOffline(n.omin, n.omax)}
	if n.skip {
		opts = append(opts, navigator.SkipOfflineMode())
	}
	nav, err := navigator.New(opts...)
	if c.verdict("navigator.New", n.ok, nav != nil, err, n) {
		c.checkNav(n, nav.Snapshot())
		c.reports("routes of a fresh navigator", nav.NumRoutes(), 0)
	}
	c.NonTrivial("nav %v", n)
}

func (c *C) d05Device() {
	o := gpsgen.NewDeviceOptions()
	n := navLimits{emin: 10, emax: 300, amp: 8, omin: 2, omax: 60, ok: true}
	ok := true
	smin, smax := 1.0, 2.0
	// mostly one group at a time, so that a wrongly accepted value shows
	all := c.Chance(0.2)
	group := c.IntN(8)
	want := func(g int) bool { return all || group == g }
	if want(0) {
		n = c.navLimits()
		o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = n.emin, n.emax
		o.Navigator.Elevation.Amplitude, o.Navigator.Elevation.Mode = n.amp, n.mode
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = n.omin, n.omax
		o.Navigator.SkipOffline = n.skip
		ok = ok && n.ok
	}
	if want(1) {
		var sok bool
		smin, smax, sok = c.speedOpts()
		o.Speed.Min, o.Speed.Max = smin, smax
		ok = ok && sok
		amp, aok := c.anAmplitude()
		o.Speed.Amplitude = amp
		ok = ok && aok
	}
	if want(2) {
		o.Battery.Min, o.Battery.Max = c.around(0, 100), c.around(0, 100)
		if c.Chance(0.5) {
			o.Battery.Min, o.Battery.Max = c.inside(0, 100)
		}
		o.Battery.ChargeTime = time.Duration(c.LogRange(1, 1e6) * 1e9)
		ok = ok && o.Battery.Min >= 0 && o.Battery.Max >= 0 && o.Battery.Max <= 100
	}
	if want(3) && c.Chance(0.8) {
		s, mok := c.sized(3, 64)
		o.Model = s
		ok = ok && (mok || s == "")
	}
	if want(4) {
		if c.Chance(0.4) {
			o.Color = pick(c, "red", "#", "#12", "#gg0000", "0a0b0c", " #0a0b0c")
			ok = false
		} else {
			o.Color = c.color().Hex()
		}
	}
	if want(5) {
		o.ID = pick(c, "", uuid.NewString(), c.text(1, 50))
		o.UserID = c.text(0, 20)
		o.Descr = c.text(0, 50)
	}
	before := *o
	d, err := gpsgen.NewDevice(o)
	if before != *o {
		c.Fail("options", "NewDevice changed its options from %+v to %+v", before, *o)
	}
	c.NonTrivial("device %+v", before)
	if !c.verdict("NewDevice", ok, d != nil, err, before) {
		return
	}
	s, st := d.Snapshot(), d.State()
	c.checkNav(n, s.Navigator)
	c.checkSpeedRange(smin, smax, s.Speed.Min, s.Speed.Max)
	c.reports("speed amplitude", len(s.Speed.Gen.Points), o.Speed.Amplitude)
	c.reports("maximum charge", s.Battery.Max, o.Battery.Max)
	c.reports("minimum charge", s.Battery.Min, math.Min(o.Battery.Min, o.Battery.Max))
	c.reports("charge time", s.Battery.ChargeTime, int64(o.Battery.ChargeTime))
	c.reports("user id", d.UserID(), o.UserID)
	c.reports("description", d.Descr(), o.Descr)
	c.reports("status", d.Status(), gpsgen.Stopped)
	c.reports("routes", d.NumRoutes(), 0)
	c.reports("sensors", d.NumSensors(), 0)
	e, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("refused", "the same options are refused the second time: %v", err)
	}
	if o.ID != "" {
		c.reports("id", d.ID(), o.ID)
		c.reports("id", e.ID(), o.ID)
	} else if _, err := uuid.Parse(d.ID()); err != nil || d.ID() == e.ID() {
		c.Fail("default", "default ids %q, %q", d.ID(), e.ID())
	}
	if o.Model != "" {
		c.reports("model", d.Model(), o.Model)
	} else if l := len(d.Model()); l < 3 || l > 64 || d.Model() == e.Model() {
		c.Fail("default", "default models %q, %q", d.Model(), e.Model())
	}
	if o.Color != "" {
		c.reports("color", d.Color(), o.Color)
	} else {
		c.validHex(d.Color())
	}
	c.reports("id in the state", st.Id, d.ID())
	c.reports("model in the state", st.Model, d.Model())
	c.reports("color in the state", st.Color, d.Color())
	c.reports("user in the state", st.UserId, d.UserID())
	c.reports("description in the state", st.Description, d.Descr())
	// setters
	if c.Chance(0.5) {
		d.AddRoute(c.newRoute(2, 2000).r)
		d.Next(1)
	}
	sum := func() any {
		st, sn := visible(d)
		return [2]uint64{stateHash(st), stateHash(sn)}
	}
	for k := 0; k < 3; k++ {
		m, mok := c.sized(3, 64)
		pre := sum()
		err := d.SetModel(m)
		if c.setter("SetModel", mok, err, pre, sum(), len(m)) {
			c.reports("model", d.Model(), m)
			c.reports("model in the state", d.State().Model, m)
		}
		col, kok := c.aColor()
		pre = sum()
		err = d.SetColor(col)
		if c.setter("SetColor", kok, err, pre, sum(), col) {
			c.reports("color", d.Color(), col.Hex())
			c.reports("color in the state", d.State().Color, col.Hex())
		}
		u, de := c.text(0, 20), c.text(0, 20)
		if err := d.SetUserID(u); err != nil {
			c.Fail("refused", "SetUserID(%q) = %v", u, err)
		}
		d.SetDescription(de)
		c.reports("user id", d.UserID(), u)
		c.reports("description", d.Descr(), de)
	}
	if c.Chance(0.2) {
		c.presets()
	}
}

// presets judges the ready-made trackers.
func (c *C) presets() {
	ids := map[string]bool{}
	models := map[string]bool{}
	n := 0
	for _, x := range []struct {
		name string
		d    *gpsgen.Device
		o    *gpsgen.DeviceOptions
	}{
		{"NewTracker", gpsgen.NewTracker(), gpsgen.DefaultTrackerOptions()},
		{"NewTracker", gpsgen.NewTracker(), gpsgen.DefaultTrackerOptions()},
		{"NewKidsTracker", gpsgen.NewKidsTracker(), gpsgen.KidsTrackerOptions()},
		{"NewAnimalTracker", gpsgen.NewAnimalTracker(), gpsgen.DogTrackerOptions()},
		{"NewBicycleTracker", gpsgen.NewBicycleTracker(), gpsgen.BicycleTrackerOptions()},
		{"NewDroneTracker", gpsgen.NewDroneTracker(), gpsgen.DroneTrackerOptions()},
	} {
		if x.d == nil {
			c.Fail("default", "%s gives no tracker", x.name)
		}
		n++
		ids[x.d.ID()], models[x.d.Model()] = true, true
		s := x.d.Snapshot()
		o := x.o
		c.checkNav(navLimits{emin: o.Navigator.Elevation.Min, emax: o.Navigator.Elevation.Max, amp: o.Navigator.Elevation.Amplitude,
			mode: o.Navigator.Elevation.Mode, omin: o.Navigator.Offline.Min, omax: o.Navigator.Offline.Max, skip: o.Navigator.SkipOffline}, s.Navigator)
		c.checkSpeedRange(o.Speed.Min, o.Speed.Max, s.Speed.Min, s.Speed.Max)
		c.reports(x.name+" speed amplitude", len(s.Speed.Gen.Points), o.Speed.Amplitude)
		c.reports(x.name+" maximum charge", s.Battery.Max, o.Battery.Max)
		c.reports(x.name+" minimum charge", s.Battery.Min, o.Battery.Min)
		c.reports(x.name+" charge time", s.Battery.ChargeTime, int64(o.Battery.ChargeTime))
		c.reports(x.name+" description", x.d.Descr(), o.Descr)
		c.validHex(x.d.Color())
	}
	if d, err := gpsgen.NewDevice(nil); err != nil || d == nil {
		c.Fail("default", "NewDevice(nil) = %v", err)
	} else {
		n++
		ids[d.ID()], models[d.Model()] = true, true
	}
	if len(ids) != n || len(models) != n {
		c.Fail("default", "%d ready-made trackers have %d identifiers and %d models", n, len(ids), len(models))
	}
	c.Count("presets", n)
}
