package main

import (
	"bytes"
	"math"
	"reflect"
	"sort"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"github.com/mmadfox/go-gpsgen/random"
)

// ---------------------------------------------------------------- R01

// extent is the distance of a point from a place in degrees, as the library lays them out.
func extent(p, o pt) float64 { return math.Hypot(p.Lat-o.Lat, p.Lon-o.Lon) }

func trackPts(t *navigator.Track) []pt {
	n := t.NumSegments()
	if n == 0 {
		return nil
	}
	out := []pt{t.SegmentAt(0).PointA()}
	for i := 0; i < n; i++ {
		out = append(out, t.SegmentAt(i).PointB())
	}
	return out
}

// randomRoute judges one random route and returns the mean extent of its points.
// The library draws from its own source, so only what holds for every draw is judged per point;
// what holds for typical draws is judged over many tracks with odds of a false alarm far below 1e-12.
func (c *C) randomRoute(r *navigator.Route, o pt, n int, level float64) (mean float64) {
	if r == nil {
		c.Fail("nil", "no route")
	}
	if r.NumTracks() != n {
		c.Fail("tracks", "%d tracks wanted, route has %d", n, r.NumTracks())
	}
	if r.Name().IsEmpty() {
		c.Fail("name", "the route has no name")
	}
	if r.ID() == "" {
		c.Fail("id", "the route has no id")
	}
	c.validHex(r.Color())
	if n == 0 {
		return 0
	}
	ids := map[string]bool{}
	var pos vec
	total, lat, lon, k, around := 0.0, 0.0, 0.0, 0, 0
	ns, ew := 0.0, 0.0
	var first []pt
	for i := 0; i < n; i++ {
		t := r.TrackAt(i)
		if t == nil {
			c.Fail("nil", "track %d is nil", i)
		}
		if ids[t.ID()] || t.ID() == "" {
			c.Fail("id", "track id %q repeated or empty", t.ID())
		}
		ids[t.ID()] = true
		if t.Name().IsEmpty() {
			c.Fail("name", "track %d has no name", i)
		}
		c.validHex(t.Color())
		ps := trackPts(t)
		if len(ps) < 4 {
			c.Fail("points", "track %d has %d points", i, len(ps))
		}
		if !t.IsClosed() || ps[0] != ps[len(ps)-1] {
			c.Fail("closed", "track %d is not closed: %v ... %v (IsClosed %v)", i, ps[0], ps[len(ps)-1], t.IsClosed())
		}
		if i == 0 {
			first = ps
		} else if reflect.DeepEqual(first, ps) {
			c.Fail("same", "tracks 0 and %d are the same line", i)
		}
		sum := 0.0
		box := [4]float64{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
		for j, p := range ps {
			if !validCoord(p) {
				c.Fail("valid", "track %d point %d = %v around %v", i, j, p, o)
			}
			if e := extent(p, o); e > level*0.02+1e-9 {
				c.Fail("far", "track %d point %d = %v is %g degrees from %v at level %g", i, j, p, e, o, level)
			}
			if j > 0 {
				sum += sphDist(ps[j-1], p)
				total += extent(p, o)
				pos = pos.add(toVec(p))
				lat += p.Lat - o.Lat
				lon += p.Lon - o.Lon
				ns += math.Abs(p.Lat - o.Lat)
				ew += math.Abs(p.Lon - o.Lon)
				k++
			}
			box = [4]float64{math.Min(box[0], p.Lat), math.Min(box[1], p.Lon), math.Max(box[2], p.Lat), math.Max(box[3], p.Lon)}
		}
		if box[0] <= o.Lat && o.Lat <= box[2] && box[1] <= o.Lon && o.Lon <= box[3] {
			around++
		}
		if !near(t.Distance(), sum, 1e-2, 1e-7) || t.Distance() <= 0 {
			c.Fail("length", "track %d is %g m long, its line %g m", i, t.Distance(), sum)
		}
		c.Count("random_tracks", 1)
	}
	mean = total / float64(k)
	if n >= 10 {
		if off := math.Hypot(lat, lon) / float64(k); off > 0.6*mean {
			c.Fail("around", "%d tracks around %v: their points average %g degrees away from it, mean extent %g", n, o, off, mean)
		}
		if around*10 < n*7 {
			c.Fail("around", "only %d of %d tracks surround %v", around, n, o)
		}
		if mean < level*1e-4 || mean > level*2e-3 {
			c.Fail("extent", "mean extent %g degrees at level %g", mean, level)
		}
		if ns < ew/4 || ew < ns/4 {
			c.Fail("extent", "%d tracks of level %g extend %g degrees to the north and south and %g to the east and west on average", n, level, ns/float64(k), ew/float64(k))
		}
	}
	return mean
}

func runR01(c *C) {
	switch c.IntN(5) {
	case 0, 1: // routes around a place
		o := pt{Lat: c.Range(-70, 70), Lon: c.Range(-160, 160)}
		if c.Chance(0.2) {
			o = pick(c, pt{}, pt{Lat: 60, Lon: 0}, pt{Lat: 0, Lon: 60}, pt{Lat: -33, Lon: 151}, pt{Lat: -10, Lon: -100})
		}
		n := c.Int(0, 4)
		if c.Chance(0.02) { // as many as wanted
			n = pick(c, 10, 16, 33, 50, 65, 101, 130, 257)
			c.Count("routes_of_many_tracks", 1)
		}
		lv := pick(c, gpsgen.RouteLevelXS, gpsgen.RouteLevelS, gpsgen.RouteLevelM, gpsgen.RouteLevelL, gpsgen.RouteLevelXL, gpsgen.RouteLevelXXL)
		eff := lv
		switch c.IntN(6) {
		case 0:
			lv = c.Int(1, 600)
			eff = lv
		case 1:
			lv = pick(c, 0, -1, -1000, math.MinInt64)
			eff = 1
		case 2:
			lv = pick(c, 601, 700, 1000, 5000, math.MaxInt64)
			eff = 600
		}
		c.Logf("RandomRoute(%g, %g, %d, %d)", o.Lon, o.Lat, n, lv)
		r := gpsgen.RandomRoute(o.Lon, o.Lat, n, lv)
		c.randomRoute(r, o, n, float64(eff))
		r2 := gpsgen.RandomRoute(o.Lon, o.Lat, n, lv)
		if r.ID() == r2.ID() || r.Name().String() == r2.Name().String() {
			c.Fail("same", "two random routes share id or name: %q %q", r.Name(), r2.Name())
		}
		if n > 0 && c.Chance(0.2) {
			c.driveRoutes([]*navigator.Route{r})
		}
		c.Count("random_routes", 2)
		c.NonTrivial("route %d %d %d %d", n, lv, int(o.Lat/10), int(o.Lon/20))
	case 2: // a larger level makes larger routes
		o := pt{Lat: c.Range(-70, 70), Lon: c.Range(-160, 160)}
		a := c.Int(1, 300)
		b := c.Int(2*a, 600)
		n := 12
		x := c.randomRoute(gpsgen.RandomRoute(o.Lon, o.Lat, n, a), o, n, float64(a))
		y := c.randomRoute(gpsgen.RandomRoute(o.Lon, o.Lat, n, b), o, n, float64(b))
		if y <= x {
			c.Fail("level", "routes of level %d extend %g degrees, of level %d %g", a, x, b, y)
		}
		if c.Chance(0.04) {
			c.nearLevels()
		}
		c.Count("levels_compared", 1)
		c.NonTrivial("levels %d %d", a/20, b/20)
	case 3: // cities
		for _, v := range []struct {
			name string
			f    func() *navigator.Route
			at   pt
		}{
			{"New York", gpsgen.RandomRouteForNewYork, pt{Lat: 40.7128, Lon: -74.0060}},
			{"Moscow", gpsgen.RandomRouteForMoscow, pt{Lat: 55.7558, Lon: 37.6173}},
			{"Paris", gpsgen.RandomRouteForParis, pt{Lat: 48.8566, Lon: 2.3522}},
		} {
			var all []pt
			for k := 0; k < 8; k++ {
				r := v.f()
				n := r.NumTracks()
				if n == 0 {
					c.Fail("city", "the route for %s has no tracks", v.name)
				}
				c.randomRoute(r, v.at, n, gpsgen.RouteLevelXXL)
				r.EachTrack(func(_ int, t *navigator.Track) bool { all = append(all, trackPts(t)...); return true })
			}
			lat, lon := 0.0, 0.0
			for _, p := range all {
				lat += p.Lat / float64(len(all))
				lon += p.Lon / float64(len(all))
			}
			if d := sphDist(pt{Lat: lat, Lon: lon}, v.at); d > 25e3 {
				c.Fail("city", "8 routes for %s lie around lat %g lon %g, %.0f m from it", v.name, lat, lon, d)
			}
			c.Count("city_routes", 8)
		}
	case 4:
		c.countryCase()
	}
}

// nearLevels compares the mean extent of many routes of two levels that are close to each other.
func (c *C) nearLevels() {
	a := c.Int(1, 500)
	q := c.Range(1.15, 1.4)
	b := min(600, int(math.Ceil(float64(a)*q)))
	if c.Chance(0.3) {
		b = 600
		a = int(600 / q)
	}
	if b == a {
		b++
	}
	o := pt{Lat: c.Range(-60, 60), Lon: c.Range(-150, 150)}
	const n, k = 10, 150
	mean := func(l int) (m float64) {
		for i := 0; i < k; i++ {
			m += c.randomRoute(gpsgen.RandomRoute(o.Lon, o.Lat, n, l), o, n, float64(l)) / k
		}
		return m
	}
	x, y := mean(a), mean(b)
	if want := 1 + 0.3*(float64(b)/float64(a)-1); y < x*want {
		c.Fail("level", "%d tracks of level %d extend %g degrees on average, of level %d %g: expected %.3f times as much", n*k, a, x, b, y, want)
	}
	c.Count("near_levels_compared", 1)
}

func (c *C) spread(what string, ps []pt, b geo.BBox) {
	lo, hi := pt{Lat: 91, Lon: 181}, pt{Lat: -91, Lon: -181}
	for _, p := range ps {
		if !validCoord(p) || p.Lat < b.MinLat || p.Lat > b.MaxLat || p.Lon < b.MinLon || p.Lon > b.MaxLon {
			c.Fail("inside", "position %v of %s is outside %+v", p, what, b)
		}
		lo = pt{Lat: math.Min(lo.Lat, p.Lat), Lon: math.Min(lo.Lon, p.Lon)}
		hi = pt{Lat: math.Max(hi.Lat, p.Lat), Lon: math.Max(hi.Lon, p.Lon)}
	}
	// len(ps) = 100: the odds of leaving out a third are 1e-17
	h, w := b.MaxLat-b.MinLat, b.MaxLon-b.MinLon
	if lo.Lat > b.MinLat+h/3 || hi.Lat < b.MaxLat-h/3 || lo.Lon > b.MinLon+w/3 || hi.Lon < b.MaxLon-w/3 {
		c.Fail("spread", "100 positions of %s only reach from %v to %v in %+v", what, lo, hi, b)
	}
}

func (c *C) countryCase() {
	codes := make([]string, 0, len(countryTable))
	for k := range countryTable {
		codes = append(codes, k)
	}
	sort.Strings(codes)
	seen := map[string]string{}
	random.EachCountry(func(code, name string) {
		if _, dup := seen[code]; dup {
			c.Fail("countries", "country %s is listed twice", code)
		}
		seen[code] = name
	})
	for k, name := range seen {
		if n, err := random.CountryName(k); err != nil || n != name {
			c.Fail("countries", "CountryName(%q) = %q, %v; listed as %q", k, n, err, name)
		}
		if _, err := random.BoundingBox(k); err != nil {
			c.Fail("countries", "country %s is listed but has no box: %v", k, err)
		}
	}
	mix := func(s string) string {
		b := []byte(s)
		for i := range b {
			if c.Chance(0.5) {
				b[i] = byte(strings.ToLower(string(b[i]))[0])
			}
		}
		return string(b)
	}
	for k := 0; k < 12; k++ {
		code := codes[c.IntN(len(codes))]
		want := countryTable[code]
		m := mix(code)
		name, err := random.CountryName(m)
		if err != nil || !strings.Contains(name, want.name) || name != seen[code] {
			c.Fail("name", "CountryName(%q) = %q, %v; want one with %q, listed %q", m, name, err, want.name, seen[code])
		}
		b, err := random.BoundingBox(m)
		if err != nil {
			c.Fail("box", "BoundingBox(%q): %v", m, err)
		}
		if b.MinLat >= b.MaxLat || b.MinLon >= b.MaxLon || b.MinLat < -90 || b.MaxLat > 90 || b.MinLon < -180 || b.MaxLon > 180 {
			c.Fail("box", "BoundingBox(%q) = %+v", m, b)
		}
		if !b.In(want.at) {
			c.Fail("box", "BoundingBox(%q) = %+v does not hold %v in %s", m, b, want.at, want.name)
		}
		anti := pt{Lat: -want.at.Lat, Lon: wrapLon(want.at.Lon + 180)}
		if b.In(anti) {
			c.Fail("box", "BoundingBox(%q) = %+v holds %v on the other side of the globe", m, b, anti)
		}
		ps := make([]pt, 100)
		for i := range ps {
			if ps[i], err = random.LatLonByCountry(mix(code)); err != nil {
				c.Fail("position", "LatLonByCountry(%q): %v", m, err)
			}
		}
		c.spread(code, ps, b)
		c.Distinct("countries", code)
		c.Count("country_positions", 100)
	}
	ps := make([]pt, 100)
	for i := range ps {
		ps[i] = random.LatLon()
	}
	c.spread("the world", ps, geo.BBox{MinLat: -90, MinLon: -180, MaxLat: 90, MaxLon: 180})
	bad := []string{"", "X", "XX", "ZZ", "USA", "U", " US", "US ", "U\x00", "12", "é", "中", "Q1", strings.Repeat("U", 100)}
	for k := 0; k < 20; k++ {
		s := pick(c, bad...)
		if c.Chance(0.5) {
			s = string([]byte{byte(c.IntN(256)), byte(c.IntN(256))})
			if _, ok := countryTable[strings.ToUpper(s)]; ok {
				continue
			}
		}
		if n, err := random.CountryName(s); err == nil {
			c.Fail("unknown", "CountryName(%q) = %q", s, n)
		}
		if b, err := random.BoundingBox(s); err == nil {
			c.Fail("unknown", "BoundingBox(%q) = %+v", s, b)
		}
		if p, err := random.LatLonByCountry(s); err == nil {
			c.Fail("unknown", "LatLonByCountry(%q) = %v", s, p)
		}
		c.Count("unknown_codes", 1)
	}
	// strings and polygons
	l := c.Int(-2, 40)
	s := random.String(l)
	if len(s) != max(l, 0) {
		c.Fail("string", "String(%d) = %q", l, s)
	}
	if i := strings.IndexFunc(s, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
	}); i >= 0 {
		c.Fail("string", "String(%d) = %q", l, s)
	}
	if l >= 12 && s == random.String(l) {
		c.Fail("string", "String(%d) gives %q twice", l, s)
	}
	n := c.Int(1, 80)
	if c.Chance(0.25) {
		n = pick(c, 0, 0, -1, -c.Int(2, 100), math.MinInt)
	}
	p := random.Polygon(n, pick(c, c.Range(0, 1000), c.Range(-10, 2000), 0))
	if n <= 0 { // any number of points will do
		n = max(len(p)-1, 3)
	}
	if len(p) != n+1 || p[0] != p[n] {
		c.Fail("polygon", "Polygon of %d points has %d, from %v to %v", n, len(p), p[0], p[len(p)-1])
	}
	for _, q := range p {
		if !finite(q[0], q[1]) {
			c.Fail("polygon", "point %v", q)
		}
	}
	c.NonTrivial("countries %v %d %d", s, l, n)
}

// ---------------------------------------------------------------- R02

// place draws a coordinate, often an awkward one.
func (c *C) place() pt {
	p := pt{Lat: math.Asin(c.Range(-1, 1)) * 180 / math.Pi, Lon: c.Range(-180, 180)}
	switch c.IntN(8) {
	case 0:
		p.Lat = pick(c, 0.0, 90, -90, 89.999999, -89.999999, 45, 1e-9)
	case 1:
		p.Lon = pick(c, 0.0, 180, -180, 179.999999, -179.999999, 90, -90, -1e-9)
	case 2:
		p.Lat, p.Lon = math.Round(p.Lat), math.Round(p.Lon)
	}
	return p
}

// partner draws a second coordinate in some relation to the first.
func (c *C) partner(a pt) (pt, string) {
	switch c.IntN(8) {
	case 0:
		return a, "same"
	case 1:
		return sphDest(a, c.LogRange(1e-3, 10), c.Range(0, 360)), "tiny"
	case 2:
		return sphDest(a, c.LogRange(10, 1e5), c.Range(0, 360)), "near"
	case 3:
		return pt{Lat: -a.Lat, Lon: wrapLon(a.Lon + 180)}, "antipode"
	case 4:
		return sphDest(a, math.Pi*earthR-c.LogRange(0.1, 1e5), c.Range(0, 360)), "near antipode"
	case 5:
		return pt{Lat: c.Range(-90, 90), Lon: a.Lon}, "meridian"
	default:
		return c.place(), "any"
	}
}

const halfRound = math.Pi * earthR

// distTol is the accuracy of the haversine formula: it loses digits near the antipode.
func distTol(d float64) float64 {
	rest := math.Max(halfRound-d, 1)
	return math.Min(1e-6+1e-9*d+100/rest, 0.4) // 100 m2/rest: rounding 1e-16 R² over the remaining arc
}

// placeTol: asin loses digits near the poles.
func placeTol(p pt) float64 {
	rest := math.Max((90-math.Abs(p.Lat))*math.Pi/180*earthR, 0.02)
	return math.Min(1e-6+1e-8*math.Abs(p.Lat)+100/rest, 0.5) + 1e-6
}

func runR02(c *C) {
	for k := 0; k < 20; k++ {
		a := c.place()
		b, kind := c.partner(a)
		d := geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon)
		want := sphDist(a, b)
		c.Count("pairs_"+strings.ReplaceAll(kind, " ", "_"), 1)
		if !finite(d) || d < 0 || d > halfRound*(1+1e-12) {
			c.Fail("range", "distance %v - %v = %g", a, b, d)
		}
		if !near(d, want, distTol(want), 0) {
			c.Fail("distance", "distance %v - %v = %.9f, want %.9f", a, b, d, want)
		}
		if back := geo.Distance(b.Lat, b.Lon, a.Lat, a.Lon); !near(d, back, 1e-9, 1e-12) {
			c.Fail("symmetric", "distance %v - %v = %.12g, back %.12g", a, b, d, back)
		}
		if a == b && d != 0 {
			c.Fail("zero", "distance of %v from itself = %g", a, d)
		}
		if want > 1e-3 && d == 0 {
			c.Fail("zero", "distance %v - %v = 0, want %g", a, b, want)
		}
		m := c.place()
		if am, mb := geo.Distance(a.Lat, a.Lon, m.Lat, m.Lon), geo.Distance(m.Lat, m.Lon, b.Lat, b.Lon); d > am+mb+distTol(d)+distTol(am)+distTol(mb) {
			c.Fail("triangle", "%v - %v = %g m, over %v %g + %g", a, b, d, m, am, mb)
		}

		h := geo.Haversine(a.Lat, a.Lon, b.Lat, b.Lon)
		if x := geo.DistanceFromHaversine(h); x != d && !near(x, d, 1e-9, 1e-12) {
			c.Fail("haversine", "DistanceFromHaversine(%g) = %g, distance %g", h, x, d)
		}
		if want < halfRound-1e4 {
			if x := geo.DistanceFromHaversine(geo.DistanceToHaversine(d)); !near(x, d, 1e-3, 1e-9) {
				c.Fail("haversine", "%g m to haversine and back = %g m", d, x)
			}
		}

		br := geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon)
		if !finite(br) || br < 0 || br >= 360 {
			c.Fail("bearing", "bearing %v - %v = %g", a, b, br)
		}
		if math.Abs(a.Lat) < 89.9 && want > 0.01 && want < halfRound-10 {
			w := sphBearing(a, b)
			// an error of 1e-9 m sideways, plus the conditioning near antipode and the poles
			tol := 1e-6 + (1e-8/math.Min(want, halfRound-want)+1e-13/math.Cos(a.Lat*math.Pi/180))*180/math.Pi*10
			if angDiff(br, w) > tol {
				c.Fail("bearing", "bearing %v - %v = %.9f, want %.9f (tolerance %g)", a, b, br, w, tol)
			}
			c.Count("bearings", 1)
		}

		// there and further
		dist, dir := c.distance(want), c.Range(0, 360)
		if c.Chance(0.3) {
			dir = pick(c, 0.0, 90, 180, 270, 360, -90, 359.999999)
		}
		if c.Chance(0.1) { // straight to a pole
			if dir = 0; c.Chance(0.5) {
				dir = 180
			}
			dist = (90 - a.Lat) * math.Pi / 180 * earthR
			if dir == 180 {
				dist = (90 + a.Lat) * math.Pi / 180 * earthR
			}
			c.Count("journeys_to_poles", 1)
		}
		la, lo := geo.Destination(a.Lat, a.Lon, dist, dir)
		q := pt{Lat: la, Lon: lo}
		if !validCoord(q) {
			c.Fail("valid", "%g m from %v along %g = %v", dist, a, dir, q)
		}
		if math.Abs(a.Lat) < 89.999 {
			e := sphDest(a, dist, dir)
			if x := sphDist(q, e); x > placeTol(e) {
				c.Fail("destination", "%g m from %v along %g = %v, want %v (%g m off)", dist, a, dir, q, e, x)
			}
			c.Count("journeys", 1)
		}
		if x := geo.Distance(a.Lat, a.Lon, q.Lat, q.Lon); dist >= 0 && dist <= halfRound && !near(x, dist, distTol(dist)+placeTol(q), 0) {
			c.Fail("travelled", "%g m from %v along %g lead to %v, %g m away", dist, a, dir, q, x)
		}
		// to b
		if want < halfRound-10 && math.Abs(a.Lat) < 89.9 {
			la, lo = geo.Destination(a.Lat, a.Lon, d, br)
			q = pt{Lat: la, Lon: lo}
			if x := sphDist(q, b); !validCoord(q) || x > placeTol(b)+2*distTol(want) {
				c.Fail("arrive", "from %v along the bearing %g to %v for %g m: arrived at %v, %g m off", a, br, b, d, q, x)
			}
			c.Count("arrivals", 1)
		}
		if k == 0 {
			c.NonTrivial("%s %d %d %d", kind, int(a.Lat/15), int(a.Lon/30), int(math.Log10(want+1)))
		}
	}
	// boxes
	x, y := c.place(), c.place()
	b := geo.BBox{MinLat: math.Min(x.Lat, y.Lat), MaxLat: math.Max(x.Lat, y.Lat), MinLon: math.Min(x.Lon, y.Lon), MaxLon: math.Max(x.Lon, y.Lon)}
	for k := 0; k < 20; k++ {
		p := c.place()
		if c.Chance(0.5) {
			p.Lat = pick(c, b.MinLat, b.MaxLat, math.Nextafter(b.MinLat, -99), math.Nextafter(b.MaxLat, 99), c.Range(b.MinLat, b.MaxLat))
		}
		if c.Chance(0.5) {
			p.Lon = pick(c, b.MinLon, b.MaxLon, math.Nextafter(b.MinLon, -999), math.Nextafter(b.MaxLon, 999), c.Range(b.MinLon, b.MaxLon))
		}
		want := !(p.Lat < b.MinLat || p.Lat > b.MaxLat || p.Lon < b.MinLon || p.Lon > b.MaxLon)
		if b.In(p) != want {
			c.Fail("box", "%+v.In(%v) = %v", b, p, !want)
		}
		if want {
			c.Count("points_in_boxes", 1)
		} else {
			c.Count("points_outside_boxes", 1)
		}
	}
	if m := b.Center(); !b.In(m) || !near(m.Lat-b.MinLat, b.MaxLat-m.Lat, 1e-9, 0) || !near(m.Lon-b.MinLon, b.MaxLon-m.Lon, 1e-9, 0) {
		c.Fail("center", "%+v.Center() = %v", b, m)
	}
	// offsets
	n := c.IntN(6)
	offs := make([][2]float64, n)
	for i := range offs {
		offs[i] = [2]float64{c.Range(-1, 1), c.Range(-1, 1)}
	}
	keep := append([][2]float64(nil), offs...)
	got := geo.NormalizeCoordinates(x.Lat, x.Lon, offs)
	if len(got) != n || !reflect.DeepEqual(keep, offs) && n > 0 {
		c.Fail("offsets", "%d offsets give %d points (input changed: %v)", n, len(got), !reflect.DeepEqual(keep, offs))
	}
	for i, p := range got {
		if !near(p.Lat-x.Lat, offs[i][0], 1e-9, 0) || !near(p.Lon-x.Lon, offs[i][1], 1e-9, 0) {
			c.Fail("offsets", "offset %v from %v = %v", offs[i], x, p)
		}
	}
	m := c.LogRange(1, 1e10)
	if x := geo.NormalizeDistance(m); x < 0 || x >= 2*halfRound || math.Abs((m-x)/(2*halfRound)-math.Round((m-x)/(2*halfRound))) > 1e-6 {
		c.Fail("normalize", "NormalizeDistance(%g) = %g", m, x)
	}
}

func (c *C) distance(like float64) float64 {
	switch c.IntN(5) {
	case 0:
		return 0
	case 1:
		return like
	case 2:
		return c.Range(0, halfRound)
	default:
		return c.LogRange(1e-3, 1e6)
	}
}

// ---------------------------------------------------------------- R03

type bag struct {
	p properties.Properties
	m map[string]any
}

type opaque struct{ A, B int }

func (c *C) value() any {
	switch c.IntN(18) {
	case 0:
		return ""
	case 1:
		return c.text(0, 12)
	case 2:
		return c.Chance(0.5)
	case 3:
		return c.Int(-5, 5)
	case 4:
		return int(c.Uint64())
	case 5:
		return int32(c.Uint64())
	case 6:
		return pick(c, int32(math.MaxInt32), int32(math.MinInt32), int32(0))
	case 7:
		return pick(c, int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<33, int64(0))
	case 8:
		return c.Range(-1e9, 1e9)
	case 9:
		return pick(c, 0.0, 1.0, -1.0, math.Inf(1), math.MaxFloat64, 5.0)
	case 10:
		return float32(c.Float64())
	case 11:
		return pick[any](c, uint(7), uint8(7), uint64(7), int8(7), int16(7), complex(1, 2), 'x')
	case 12:
		return nil
	case 13:
		return []any{1, "a"}
	case 14:
		return map[string]any{"a": 1}
	case 15:
		return opaque{c.IntN(9), 2}
	case 16:
		return pick[any](c, "true", "1", "1.5", "false", "0", "yes", "no", "on", "off", "TRUE", "T", "t", "f", "y", "null", "nil", "-1", "+5", "1e3", "NaN", "Inf", "0x10", "007", " 1", "")
	default:
		return []byte(c.text(0, 4))
	}
}

// checkBag reads one key in all ways.
func (c *C) checkBag(what string, b bag, k string) {
	v, has := b.m[k]
	ws, okS := v.(string)
	wb, okB := v.(bool)
	wf, okF := v.(float64)
	wi, okI := 0, true
	switch x := v.(type) {
	case int:
		wi = x
	case int32:
		wi = int(x)
	case int64:
		wi = int(x)
	default:
		okI = false
	}
	if s, ok := b.p.String(k); ok != okS || s != ws {
		c.Fail("string", "%s: String(%q) = %q, %v with %#v stored", what, k, s, ok, v)
	}
	if s, ok := b.p.Bool(k); ok != okB || s != wb {
		c.Fail("bool", "%s: Bool(%q) = %v, %v with %#v stored", what, k, s, ok, v)
	}
	if s, ok := b.p.Float64(k); ok != okF || s != wf {
		c.Fail("float", "%s: Float64(%q) = %v, %v with %#v stored", what, k, s, ok, v)
	}
	if s, ok := b.p.Int(k); ok != okI || s != wi {
		c.Fail("int", "%s: Int(%q) = %v, %v with %#v stored", what, k, s, ok, v)
	}
	raw, ok := b.p[k]
	if ok != has || !reflect.DeepEqual(raw, v) {
		c.Fail("raw", "%s: %q holds %#v, %v, want %#v, %v", what, k, raw, ok, v, has)
	}
	c.Count("reads", 5)
}

func (c *C) sameBag(what string, b bag) {
	if len(b.p) != len(b.m) {
		c.Fail("size", "%s holds %d values, want %d: %v", what, len(b.p), len(b.m), b.p)
	}
	for k := range b.m {
		c.checkBag(what, b, k)
	}
}

func runR03(c *C) {
	// several bags: free ones, and those of routes and tracks
	type owner struct {
		name  string
		fetch func() properties.Properties
	}
	var owners []owner
	free := make([]properties.Properties, 3)
	for i := range free {
		if free[i] = properties.Make(); len(free[i]) != 0 || free[i] == nil {
			c.Fail("make", "Make() = %#v", free[i])
		}
		i := i
		owners = append(owners, owner{"bag", func() properties.Properties { return free[i] }})
	}
	nfree := len(free)
	var routes []*navigator.Route
	for i := 0; i < 2; i++ {
		r := navigator.NewRoute()
		if c.Chance(0.5) {
			r.AddTrack(c.newTrack(1e4).t)
			r.AddTrack(c.newTrack(1e4).t)
		} else {
			r = navigator.RouteFromTracks(c.newTrack(1e4).t, c.newTrack(1e4).t)
		}
		routes = append(routes, r)
		owners = append(owners, owner{"route bag", func() properties.Properties { return r.Props() }})
		for j := 0; j < 2; j++ {
			j := j
			owners = append(owners, owner{"track bag", func() properties.Properties { return r.TrackAt(j).Props() }})
		}
	}
	var d *gpsgen.Device
	if c.Chance(0.3) { // also when a tracker carries the routes and steps
		var err error
		if d, err = gpsgen.NewDevice(gpsgen.DefaultTrackerOptions()); err != nil {
			c.Fail("device", "%v", err)
		}
		if err := d.AddRoute(routes...); err != nil {
			c.Fail("device", "%v", err)
		}
	}
	model := make([]map[string]any, len(owners))
	for i := range model {
		model[i] = map[string]any{}
	}
	keys := []string{"", "a", "b", "name", "id", "color", "é", "a.b", "A", strings.Repeat("k", 50)}
	var sig bytes.Buffer
	at := func(i int) bag { return bag{owners[i].fetch(), model[i]} }
	for step := c.Int(5, 60); step > 0; step-- {
		i := c.IntN(len(owners))
		b := at(i)
		k := pick(c, keys...)
		switch op := c.IntN(12); op {
		case 0, 1, 2, 3, 4:
			v := c.value()
			c.Logf("%d.Set(%q, %#v)", i, k, v)
			r := b.p.Set(k, v)
			b.m[k] = v
			if c.Chance(0.3) { // chained
				k2, v2 := pick(c, keys...), c.value()
				c.Logf("  .Set(%q, %#v)", k2, v2)
				r.Set(k2, v2)
				b.m[k2] = v2
			}
			sig.WriteByte('s')
		case 5:
			c.Logf("%d.Remove(%q)", i, k)
			b.p.Remove(k)
			delete(b.m, k)
			sig.WriteByte('d')
		case 6, 7: // merge from another bag, or itself, or nothing
			j := c.IntN(len(owners))
			o := at(j)
			if c.Chance(0.1) {
				o = bag{nil, nil}
			}
			c.Logf("%d.Merge(%d)", i, j)
			b.p.Merge(o.p)
			for k, v := range o.m {
				b.m[k] = v
			}
			if o.p != nil {
				c.sameBag("the merged bag", o)
			}
			sig.WriteByte('m')
			c.Count("merges", 1)
		case 8:
			if i < nfree && c.Chance(0.5) {
				c.Logf("%d.Reset()", i)
				free[i].Reset()
				model[i] = map[string]any{}
				if free[i] == nil {
					c.Fail("reset", "a bag is nil after Reset")
				}
				sig.WriteByte('r')
				c.Count("resets", 1)
			}
		case 9:
			if d != nil {
				d.Next(c.Range(0.1, 100))
				if c.Chance(0.3) {
					d.Update()
				}
				sig.WriteByte('n')
			}
		case 10:
			if i >= nfree { // renames do not touch the bags
				routes[c.IntN(2)].ChangeName(c.name())
				routes[c.IntN(2)].TrackAt(c.IntN(2)).ChangeName(c.name())
			}
		case 11:
			var none properties.Properties
			c.checkBag("a nil bag", bag{none, nil}, k)
			none.Remove(k)
		}
		c.checkBag(owners[i].name, at(i), k)
		c.checkBag(owners[i].name, at(i), pick(c, keys...))
	}
	for i := range owners {
		c.sameBag(owners[i].name, at(i))
	}
	c.NonTrivial("%s %v", sig.String(), d != nil)
}
