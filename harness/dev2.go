package main

import (
	"fmt"
	"math"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
)

// ---------------------------------------------------------------- D04

// invUTM is an independent inverse of the transverse Mercator projection (Krüger's series
// on WGS 84); it shares no formula with the library's one.
func invUTM(e, n, cm float64, north bool) pt {
	const (
		a  = 6378137.0
		f  = 1 / 298.257223563
		k0 = 0.9996
	)
	m := f / (2 - f)
	m2, m3, m4 := m*m, m*m*m, m*m*m*m
	A := a / (1 + m) * (1 + m2/4 + m4/64)
	if !north {
		n -= 1e7
	}
	xi, et := n/(k0*A), (e-5e5)/(k0*A)
	b := [4]float64{m/2 - 2*m2/3 + 37*m3/96 - m4/360, m2/48 + m3/15 - 437*m4/1440, 17*m3/480 - 37*m4/840, 4397 * m4 / 161280}
	x, y := xi, et
	for j, v := range b {
		k := 2 * float64(j+1)
		x -= v * math.Sin(k*xi) * math.Cosh(k*et)
		y -= v * math.Cos(k*xi) * math.Sinh(k*et)
	}
	chi := math.Asin(math.Sin(x) / math.Cosh(y))
	d := [4]float64{2*m - 2*m2/3 - 2*m3 + 116*m4/45, 7*m2/3 - 8*m3/5 - 227*m4/45, 56*m3/15 - 136*m4/35, 4279 * m4 / 630}
	phi := chi
	for j, v := range d {
		phi += v * math.Sin(2*float64(j+1)*chi)
	}
	lon := cm + math.Atan2(math.Sinh(y), math.Cos(x))*180/math.Pi
	return pt{Lat: phi * 180 / math.Pi, Lon: wrapLon(lon)}
}

// utmZone is the zone a point belongs to, by the definition of the grid.
func utmZone(p pt) (zone int, letter string) {
	lon := p.Lon
	if lon >= 180 {
		lon -= 360
	}
	zone = int(math.Floor((lon+180)/6)) + 1
	switch {
	case p.Lat >= 56 && p.Lat < 64 && lon >= 3 && lon < 12:
		zone = 32
	case p.Lat >= 72 && p.Lat <= 84 && lon >= 0 && lon < 42:
		switch {
		case lon < 9:
			zone = 31
		case lon < 21:
			zone = 33
		case lon < 33:
			zone = 35
		default:
			zone = 37
		}
	}
	i := int(math.Floor((p.Lat + 80) / 8))
	if i < 0 {
		return zone, ""
	}
	if i > 19 {
		i = 19
	}
	return zone, "CDEFGHJKLMNPQRSTUVWX"[i : i+1]
}

// zones are the zones and bands that may be reported for p: more than one on an edge.
func zones(p pt) (map[int64]bool, map[string]bool) {
	const e = 1e-9
	out, let := map[int64]bool{}, map[string]bool{}
	for _, dla := range []float64{0, -e, e} {
		for _, dlo := range []float64{0, -e, e} {
			z, l := utmZone(pt{Lat: math.Max(-80, math.Min(84, p.Lat+dla)), Lon: wrapLon(p.Lon + dlo)})
			out[int64(z)], let[l] = true, true
		}
	}
	return out, let
}

func (c *C) checkDMS(what string, v float64, d *pb.Device_Location_DMS, pos, neg string, max int64) {
	if d == nil {
		c.Fail("dms", "no %s in degrees, minutes and seconds", what)
	}
	if d.Degrees < 0 || d.Degrees > max || d.Minutes < 0 || d.Minutes > 59 || !finite(d.Seconds) || d.Seconds < -1e-6 || d.Seconds > 60+1e-6 {
		c.Fail("dms", "%s %v is written as %d° %d' %v\"", what, v, d.Degrees, d.Minutes, d.Seconds)
	}
	got := float64(d.Degrees) + float64(d.Minutes)/60 + d.Seconds/3600
	switch d.Direction {
	case pos:
	case neg:
		got = -got
	default:
		c.Fail("dms", "%s %v has the direction %q", what, v, d.Direction)
	}
	if !near(got, v, 1e-9, 0) {
		c.Fail("dms", "%s %v is written as %d° %d' %v\" %s, which is %v", what, v, d.Degrees, d.Minutes, d.Seconds, d.Direction, got)
	}
}

// checkNotations judges the location of one published state.
func (c *C) checkNotations(l *pb.Device_Location) {
	p := pt{Lat: l.Lat, Lon: l.Lon}
	if !validCoord(p) {
		c.Fail("coordinate", "published position (%v,%v) is no coordinate", p.Lat, p.Lon)
	}
	c.checkDMS("latitude", p.Lat, l.LatDms, "N", "S", 90)
	c.checkDMS("longitude", p.Lon, l.LonDms, "E", "W", 180)
	c.Count("positions_dms", 1)
	if p.Lat < -80 || p.Lat > 84 {
		return
	}
	u := l.Utm
	zs, bands := zones(p)
	if u == nil || !zs[u.LongZone] || !bands[u.LatZone] {
		c.Fail("utm", "position (%.12f,%.12f) is put into UTM zone %d%s, it belongs to %v %v", p.Lat, p.Lon, u.GetLongZone(), u.GetLatZone(), zs, bands)
	}
	edge := math.Abs(p.Lat) < 1e-9
	if !(u.Hemisphere == "N" && (p.Lat > 0 || edge)) && !(u.Hemisphere == "S" && (p.Lat < 0 || edge)) {
		c.Fail("utm", "position (%v,%v) is put into hemisphere %q", p.Lat, p.Lon, u.Hemisphere)
	}
	if cm := float64(u.LongZone)*6 - 183; u.CentralMeridian != cm {
		c.Fail("utm", "zone %d is given the central meridian %v", u.LongZone, u.CentralMeridian)
	}
	srid := 32600 + u.LongZone
	if u.Hemisphere == "S" {
		srid += 100
	}
	if u.Srid != srid {
		c.Fail("utm", "zone %d%s is given the SRID %d, it is %d", u.LongZone, u.Hemisphere, u.Srid, srid)
	}
	q := invUTM(u.Easting, u.Northing, u.CentralMeridian, u.Hemisphere == "N")
	if !finite(u.Easting, u.Northing) || sphDist(p, q) > 0.05 {
		// the library's series loses some decimetres in the widened zones
		wide := math.Abs(wrapLon(p.Lon-u.CentralMeridian)) > 3.0001
		if !wide || !(sphDist(p, q) <= 2) {
			c.Fail("utm", "position (%.9f,%.9f) is given as %.3f E %.3f N in zone %d%s, which is (%.9f,%.9f), %.3f m away",
				p.Lat, p.Lon, u.Easting, u.Northing, u.LongZone, u.LatZone, q.Lat, q.Lon, sphDist(p, q))
		}
	}
	c.Count("positions_utm", 1)
	c.Distinct("utm_zones", fmt.Sprint(u.LongZone, u.LatZone))
	if len(zs) > 1 || len(bands) > 1 {
		c.Count("positions_on_a_zone_edge", 1)
	}
}

// hardPoint is a position at which some notation may go wrong.
func (c *C) hardPoint() pt {
	eps := pick(c, 0, 0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3)
	lat, lon := c.Range(-80, 84), c.Range(-180, 180)
	switch c.IntN(10) {
	case 0: // zone edges
		lon = float64(c.Int(-30, 30))*6 + eps
	case 1: // band edges
		lat = float64(c.Int(-10, 10))*8 + eps
	case 2: // Norway
		lat, lon = c.Range(54, 66), c.Range(-1, 14)
		if c.Chance(0.4) {
			lat = pick(c, 56.0, 64) + eps
		}
		if c.Chance(0.4) {
			lon = pick(c, 0, 3, 6, 12.0) + eps
		}
	case 3: // Svalbard
		lat, lon = c.Range(70, 84), c.Range(-2, 45)
		if c.Chance(0.3) {
			lat = 72 + eps
		}
		if c.Chance(0.5) {
			lon = pick(c, 0, 6, 9, 12, 18, 21, 30, 33, 36, 42.0) + eps
		}
	case 4: // around zero: no degrees, no minutes
		lat = pick(c, eps, c.Range(-1e-2, 1e-2), c.Range(-1, 1))
		lon = pick(c, eps, c.Range(-1e-2, 1e-2), c.Range(-1, 1))
	case 5: // whole degrees and minutes
		lat = float64(c.Int(-80, 83)) + float64(c.IntN(60))/60 + pick(c, 0, eps)
		lon = float64(c.Int(-180, 179)) + float64(c.IntN(60))/60 + pick(c, 0, eps)
	case 6: // whole seconds
		lat = float64(c.Int(-80*3600, 84*3600)) / 3600
		lon = float64(c.Int(-180*3600, 180*3600)) / 3600
	case 7:
		lon = pick(c, 180.0, -180, 179.9999999999, -179.9999999999)
	case 8: // outside the UTM latitudes
		lat = pick(c, c.Range(84, 90), c.Range(-90, -80), 90, -90)
	}
	return pt{Lat: math.Max(-90, math.Min(90, lat)), Lon: math.Max(-180, math.Min(180, lon))}
}

func runD04(c *C) {
	if c.Chance(0.25) { // positions reached by travelling
		w := c.newWorld(worldOpt{device: true, varSpeed: c.Chance(0.5), battery: true, maxRoutes: 2, maxTracks: 2, maxSeg: pick(c, 2000.0, 1e6, 5e6)})
		n := 0
		for i := c.Int(10, 60); i > 0; i-- {
			switch c.IntN(8) {
			case 0:
				w.dev.DestinationTo(c.Range(0, w.dev.Distance()))
				w.dev.Update()
			case 1:
				w.dev.MoveToSegment(c.IntN(2), c.IntN(2), c.IntN(4))
				w.dev.Update()
			default:
				tick := c.Range(0.2, 20)
				if w.speed > 0 {
					tick = w.stepSize(w.observe()) / w.speed
				}
				w.dev.Next(tick)
			}
			st := w.dev.State()
			if st.Location.Utm.GetLongZone() == 0 {
				continue // nothing has been published yet
			}
			c.checkNotations(st.Location)
			n++
		}
		c.Count("travelled_positions", n)
		c.NonTrivial("t%s", fpRoutes(w.routes))
		return
	}
	o := gpsgen.NewDeviceOptions()
	d, err := gpsgen.NewDevice(o)
	if err != nil {
		c.Fail("construct", "NewDevice = %v", err)
	}
	if c.Chance(0.02) { // no route at all
		d.Update()
		c.checkNotations(d.State().Location)
		return
	}
	pts := []pt{c.hardPoint()}
	for i := c.Int(3, 24); i > 0; i-- {
		pts = append(pts, c.hardPoint())
	}
	t, err := navigator.NewTrack(pts)
	if err != nil {
		c.Fail("construct", "NewTrack = %v", err)
	}
	if err := d.AddRoute(navigator.RouteFromTracks(t)); err != nil {
		c.Fail("construct", "AddRoute = %v", err)
	}
	for i := 1; i < len(pts)-1; i++ {
		if pts[i] == pts[i+1] {
			continue
		}
		if !d.MoveToSegment(0, 0, i) {
			c.Fail("move", "MoveToSegment(0,0,%d) was refused", i)
		}
		d.Update()
		st := d.State()
		if st.Location.Lat != pts[i].Lat || st.Location.Lon != pts[i].Lon {
			c.Fail("coordinate", "moved to (%v,%v), published is (%v,%v)", pts[i].Lat, pts[i].Lon, st.Location.Lat, st.Location.Lon)
		}
		c.checkNotations(st.Location)
		c.NonTrivial("%v", pts[i])
	}
	c.Count("exact_positions", len(pts)-2)
	c.Sample("moved to exact points such as (%v,%v)", pts[1].Lat, pts[1].Lon)
}
