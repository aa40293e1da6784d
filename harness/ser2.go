package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/google/uuid"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
)

// trackPoints are the points of a track in order.
func trackPoints(t *navigator.Track) []pt {
	var ps []pt
	for i := 0; i < t.NumSegments(); i++ {
		ps = append(ps, t.SegmentAt(i).PointA())
	}
	if n := t.NumSegments(); n > 0 {
		ps = append(ps, t.SegmentAt(n-1).PointB())
	}
	return ps
}

// listOfRoutes makes routes for a text format, some of them without tracks.
func (c *C) listOfRoutes(fix func(pt) pt, keys func() string, value func() any, reserved map[string]bool) []*navigator.Route {
	var rs []*navigator.Route
	n := c.Int(1, 5)
	if c.Chance(0.03) {
		n = c.Int(10, 25)
	}
	fill := func(p properties.Properties) {
		for k := c.IntN(5); k > 0; k-- {
			key := keys()
			if reserved == nil || !reserved[key] {
				p.Set(key, value())
			}
		}
	}
	maxSeg := pick(c, 20.0, 3000, 1e6)
	for k := 0; k < n; k++ {
		var r *navigator.Route
		if c.Chance(0.3) {
			r = navigator.RestoreRoute(c.anyID(), c.hexColor(), nil)
		} else {
			r = navigator.NewRoute()
		}
		for j := pick(c, 0, 1, 1, 1, 2, 3, 5); j > 0; j-- {
			pts := c.points(maxSeg)
			if c.Chance(0.08) { // same longitude or latitude at both ends, yet open
				q := sphDest(pts[0], 100, pick(c, 0.0, 90))
				if c.Chance(0.5) {
					q.Lon = pts[0].Lon
				} else {
					q.Lat = pts[0].Lat
				}
				pts = append(pts, q)
			}
			if fix != nil {
				for i := range pts {
					pts[i] = fix(pts[i])
				}
			}
			var t *navigator.Track
			var err error
			if c.Chance(0.3) {
				t, err = navigator.RestoreTrack(c.anyID(), c.hexColor(), pts)
			} else {
				t, err = navigator.NewTrack(pts)
			}
			if err != nil {
				c.Fail("construct", "a track of %d points: %v", len(pts), err)
			}
			if c.Chance(0.6) {
				t.ChangeName(c.name())
			}
			if c.Chance(0.6) {
				fill(t.Props())
			}
			r.AddTrack(t)
		}
		if c.Chance(0.6) {
			r.ChangeName(c.name())
		}
		if c.Chance(0.6) {
			fill(r.Props())
		}
		rs = append(rs, r)
	}
	return rs
}

func withTracks(rs []*navigator.Route) (out []*navigator.Route, tracks int) {
	for _, r := range rs {
		if r.NumTracks() > 0 {
			out = append(out, r)
			tracks += r.NumTracks()
		}
	}
	return
}

// setOwn sets properties under keys that a format uses for itself.
func (c *C) setOwn(p properties.Properties, keys map[string]bool, value func() any) {
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c.Chance(0.3) {
			p.Set(k, value())
		}
	}
}

func removeOwn(r *navigator.Route, keys map[string]bool, tracks bool) {
	if r == nil {
		return
	}
	for k := range keys {
		r.Props().Remove(k)
		for i := 0; tracks && i < r.NumTracks(); i++ {
			r.TrackAt(i).Props().Remove(k)
		}
	}
}

// ---------------------------------------------------------------- S03

var geoReserved = map[string]bool{"routeID": true, "color": true, "name": true, "numTracks": true, "tracksInfo": true, "distance": true, "units": true}

func obj(v any) map[string]any { m, _ := v.(map[string]any); return m }
func arr(v any) []any          { l, _ := v.([]any); return l }

// position reads a GeoJSON position.
func (c *C) position(v any) pt {
	l := arr(v)
	if len(l) < 2 {
		c.Fail("valid", "a GeoJSON position is %v", v)
	}
	x, ok1 := l[0].(float64)
	y, ok2 := l[1].(float64)
	if !ok1 || !ok2 {
		c.Fail("valid", "a GeoJSON position is %v", v)
	}
	return pt{Lon: x, Lat: y}
}

func (c *C) geometryOf(what string, g map[string]any, t *navigator.Track) {
	pts := trackPoints(t)
	line := arr(g["coordinates"])
	closed := len(pts) >= 3 && pts[0] == pts[len(pts)-1]
	if t.IsClosed() != closed {
		c.Fail("closed", "%s: a track from %v to %v over %d points says of being closed: %v", what, pts[0], pts[len(pts)-1], len(pts), t.IsClosed())
	}
	switch {
	case t.IsClosed() && g["type"] == "Polygon":
		if len(line) != 1 {
			c.Fail("valid", "%s: a polygon of %d rings for a closed track", what, len(line))
		}
		line = arr(line[0])
	case !t.IsClosed() && g["type"] == "LineString":
	default:
		c.Fail("valid", "%s: a track (closed: %v) is encoded as %v", what, t.IsClosed(), g["type"])
	}
	if len(line) != len(pts) {
		c.Fail("valid", "%s: %d positions for %d points", what, len(line), len(pts))
	}
	for i := range pts {
		if p := c.position(line[i]); p != pts[i] {
			c.Fail("valid", "%s: position %d is %v, the point is %v", what, i, p, pts[i])
		}
	}
}

// checkGeoJSON judges the encoding itself.
func (c *C) checkGeoJSON(b []byte, rs []*navigator.Route) {
	var doc any
	if err := json.Unmarshal(b, &doc); err != nil {
		c.Fail("valid", "the encoding is not JSON: %v", err)
	}
	d := obj(doc)
	fs, isList := d["features"].([]any)
	if d["type"] != "FeatureCollection" || !isList {
		c.Fail("valid", "the encoding is not a feature collection but %v with features %T", d["type"], d["features"])
	}
	if len(fs) != len(rs) {
		c.Fail("valid", "%d features for %d routes with tracks", len(fs), len(rs))
	}
	for i, r := range rs {
		f := obj(fs[i])
		what := fmt.Sprintf("feature %d of %d", i, len(rs))
		if f["type"] != "Feature" || obj(f["properties"]) == nil {
			c.Fail("valid", "%s: type %v, properties %T", what, f["type"], f["properties"])
		}
		g := obj(f["geometry"])
		if g["type"] == "GeometryCollection" {
			gs := arr(g["geometries"])
			if len(gs) != r.NumTracks() {
				c.Fail("valid", "%s: %d geometries for %d tracks", what, len(gs), r.NumTracks())
			}
			for j := range gs {
				c.geometryOf(fmt.Sprintf("%s, geometry %d", what, j), obj(gs[j]), r.TrackAt(j))
			}
		} else {
			if r.NumTracks() != 1 {
				c.Fail("valid", "%s: geometry %v for %d tracks", what, g["type"], r.NumTracks())
			}
			c.geometryOf(what, g, r.TrackAt(0))
		}
	}
}

func runS03(c *C) {
	rs := c.listOfRoutes(nil, func() string {
		return pick(c, c.text(1, 10), "id", "", "key with space", "Color", "name ", "trackID", "type", fmt.Sprintf("k%d", c.IntN(9)))
	}, func() any { return c.jsonValue(2) }, geoReserved)
	for _, r := range rs { // the format itself uses no keys of tracks' properties
		for i := 0; i < r.NumTracks(); i++ {
			if c.Chance(0.2) {
				r.TrackAt(i).Props().Set(pick(c, "color", "name", "trackID", "routeID", "distance"), c.jsonValue(1))
			}
		}
	}
	want, tracks := withTracks(rs)
	forget := func(*navigator.Route) {}
	if c.Chance(0.3) { // properties under the format's own keys are not kept, and do no harm
		for _, r := range rs {
			c.setOwn(r.Props(), geoReserved, func() any { return c.jsonValue(1) })
		}
		forget = func(r *navigator.Route) { removeOwn(r, geoReserved, false) }
	}
	b, err := gpsgen.EncodeGeoJSONRoutes(rs)
	if err != nil {
		c.Fail("encode", "EncodeGeoJSONRoutes of %d routes = %v", len(rs), err)
	}
	for _, r := range rs {
		forget(r)
	}
	c.Logf("%s", clip(string(b), 3000))
	c.checkGeoJSON(b, want)
	out, err := gpsgen.DecodeGeoJSONRoutes(b)
	if err != nil {
		c.Fail("decode", "DecodeGeoJSONRoutes = %v", err)
	}
	if len(out) != len(want) {
		c.Fail("count", "%d routes with tracks encoded, %d decoded", len(want), len(out))
	}
	closed, props := 0, 0
	for i := range want {
		forget(out[i])
		c.cmpRoute(fmt.Sprintf("route %d of %d", i, len(want)), want[i], out[i])
		props += len(want[i].Props())
		for j := 0; j < want[i].NumTracks(); j++ {
			t := want[i].TrackAt(j)
			props += len(t.Props())
			if t.IsClosed() {
				closed++
			}
		}
	}
	if c.Chance(0.3) && len(out) > 0 {
		l := &life{c: c, d: c.driver(want), det: true, detOff: true}
		c.cmpDrive(l, c.driver(out), c.Int(5, 40))
	}
	if c.Chance(0.3) { // once more
		b2, err := gpsgen.EncodeGeoJSONRoutes(out)
		if len(out) == 0 {
			return
		}
		if err != nil {
			c.Fail("again", "encoding the decoded routes = %v", err)
		}
		out2, err := gpsgen.DecodeGeoJSONRoutes(b2)
		if err != nil || len(out2) != len(want) {
			c.Fail("again", "decoding the second encoding: %d routes, %v", len(out2), err)
		}
		for i := range want {
			c.cmpRoute(fmt.Sprintf("second generation: route %d of %d", i, len(want)), want[i], out2[i])
		}
		c.Count("second_generations", 1)
	}
	c.Count("routes", len(want))
	c.Count("routes_without_tracks", len(rs)-len(want))
	c.Count("tracks", tracks)
	c.Count("closed_tracks", closed)
	c.Count("properties", props)
	c.NonTrivial("%d %d %d %d", len(rs), tracks, closed, len(b))
	c.Sample("%d routes with %d tracks (%d closed) and %d properties in %d bytes", len(rs), tracks, closed, props, len(b))
}

// ---------------------------------------------------------------- S04

var gpxReserved = map[string]bool{"id": true, "color": true, "distance": true, "tracksInfo": true, "numTracks": true, "name": true, "units": true}

// gpxSafe moves coordinates that the third-party writer is known to lose.
func gpxSafe(p pt) pt {
	f := func(v float64) float64 {
		s := strconv.FormatFloat(v, 'f', 10, 64)
		if i, ok := strings.CutSuffix(s, ".0000000000"); ok && strings.HasSuffix(i, "0") {
			if v > 0 {
				return v - 0.00012
			}
			return v + 0.00012
		}
		return v
	}
	return pt{Lat: f(p.Lat), Lon: f(p.Lon)}
}

func (c *C) gpxKey() string {
	return pick(c, "a", "Key", "k-1", "x.y", "_u", "длина", "title", "ID", "speed", "names", "Color", "unit", fmt.Sprintf("k%d", c.IntN(9)))
}

func (c *C) gpxValue() any {
	switch c.IntN(8) {
	case 0:
		return c.Chance(0.5)
	case 1:
		return pick(c, 0, 1, -1, 1<<40, -77, c.IntN(1e6))
	case 2:
		return int64(pick(c, math.MaxInt64, math.MinInt64, 12))
	case 3:
		return pick(c, 0.5, -1.25, 1e21, 1e-7, 5.0, math.MaxFloat64, c.Range(-1000, 1000), 0.1)
	case 4:
		return pick(c, "true", "false", "12", "-3.5", "1e3", "007", "T", "0", "1", "inf", "+5", "99999999999999999999", "0x1f", "1_0", ".5", "5.")
	case 5:
		return pick(c, "", " ", "a b", " lead", "trail ", "<tag attr=\"x\">", "a&b;", "'single' \"double\"", "line\nbreak", "tab\there", "]]>", "--", "True story", "12 km", "nano", "\r", "é")
	default:
		return c.text(0, 20)
	}
}

// readBack is what a value becomes when it is read from text.
func readBack(v any) any {
	s, ok := v.(string)
	if !ok {
		return v
	}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return i
	}
	if b, err := strconv.ParseBool(s); err == nil {
		return b
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return f
	}
	return s
}

func sameValue(a, b any) bool {
	i, ok1 := asInt(a)
	j, ok2 := asInt(b)
	if ok1 { // an integer stays one
		return ok2 && i == j
	}
	x, ok1 := decimals(a).(float64)
	y, ok2 := decimals(b).(float64)
	if ok1 || ok2 {
		return ok1 && ok2 && feq(x, y)
	}
	return a == b
}

func asInt(v any) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

func (c *C) gpxProps(what string, a, b properties.Properties) {
	if len(a) != len(b) {
		c.Fail("properties", "%s: %d properties %v, there were %d: %v", what, len(b), b, len(a), a)
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameValue(readBack(v), w) {
			c.Fail("properties", "%s: property %q is %#v (present: %v), it was %#v", what, k, w, ok, v)
		}
	}
}

func sameTo(a, b pt, eps float64) bool {
	return math.Abs(a.Lat-b.Lat) <= eps && math.Abs(a.Lon-b.Lon) <= eps
}

// checkGPX judges the document itself.
func (c *C) checkGPX(b []byte, rs []*navigator.Route) {
	dec := xml.NewDecoder(strings.NewReader(string(b)))
	var path []string
	var order []string
	roots, ri, ti, pi := 0, -1, -1, -1
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fail("valid", "the encoding is not well-formed XML: %v", err)
		}
		switch e := tok.(type) {
		case xml.StartElement:
			seen := map[string]bool{}
			for _, a := range e.Attr {
				k := a.Name.Space + " " + a.Name.Local
				if seen[k] {
					c.Fail("valid", "element %s has the attribute %s twice", e.Name.Local, a.Name.Local)
				}
				seen[k] = true
			}
			path = append(path, e.Name.Local)
			at := strings.Join(path, "/")
			if len(path) == 1 {
				roots++
				v := ""
				for _, a := range e.Attr {
					if a.Name.Local == "version" && a.Name.Space == "" {
						v = a.Value
					}
				}
				if e.Name.Local != "gpx" || v != "1.1" || e.Name.Space != "http://www.topografix.com/GPX/1/1" {
					c.Fail("valid", "the document element is %s %s version %q", e.Name.Space, e.Name.Local, v)
				}
			}
			if len(path) == 2 {
				order = append(order, e.Name.Local)
			}
			switch at {
			case "gpx/trk":
				ri++
				ti = -1
			case "gpx/trk/trkseg":
				ti++
				pi = -1
			case "gpx/trk/trkseg/trkpt":
				pi++
				var p pt
				ok := 0
				for _, a := range e.Attr {
					v, err := strconv.ParseFloat(a.Value, 64)
					if err != nil {
						continue
					}
					if a.Name.Local == "lat" {
						p.Lat = v
						ok++
					}
					if a.Name.Local == "lon" {
						p.Lon = v
						ok++
					}
				}
				if ri < len(rs) && ti < rs[ri].NumTracks() {
					ps := trackPoints(rs[ri].TrackAt(ti))
					if ok != 2 || pi >= len(ps) || !sameTo(p, ps[pi], 1e-9) {
						c.Fail("valid", "point %d of segment %d of track %d is %v (%v), the route has %d points there, %v", pi, ti, ri, p, e.Attr, len(ps), ps[min(pi, len(ps)-1)])
					}
				}
			}
		case xml.EndElement:
			at := strings.Join(path, "/")
			if at == "gpx/trk" && ri < len(rs) && ti+1 != rs[ri].NumTracks() {
				c.Fail("valid", "GPX track %d has %d segments, route %d has %d tracks", ri, ti+1, ri, rs[ri].NumTracks())
			}
			if at == "gpx/trk/trkseg" && ri < len(rs) && ti < rs[ri].NumTracks() && pi != rs[ri].TrackAt(ti).NumSegments() {
				c.Fail("valid", "segment %d of GPX track %d has %d points, the track has %d", ti, ri, pi+1, rs[ri].TrackAt(ti).NumSegments()+1)
			}
			path = path[:len(path)-1]
		}
	}
	if roots != 1 {
		c.Fail("valid", "%d document elements", roots)
	}
	if ri+1 != len(rs) {
		c.Fail("valid", "%d GPX tracks for %d routes with tracks", ri+1, len(rs))
	}
	last := 0
	for _, o := range order {
		k := map[string]int{"metadata": 1, "wpt": 2, "rte": 3, "trk": 4, "extensions": 5}[o]
		if k == 0 || k < last {
			c.Fail("valid", "the elements of the document are not in the order GPX 1.1 asks for: %v", order)
		}
		last = k
	}
}

func runS04(c *C) {
	if c.Idx%97 == 0 {
		c.gpxZeros()
	}
	rs := c.listOfRoutes(gpxSafe, c.gpxKey, c.gpxValue, gpxReserved)
	want, tracks := withTracks(rs)
	own := c.Chance(0.3) // properties under the format's own keys are not kept, and do no harm
	for _, r := range rs {
		if !own {
			break
		}
		c.setOwn(r.Props(), gpxReserved, c.gpxValue)
		for i := 0; i < r.NumTracks(); i++ {
			c.setOwn(r.TrackAt(i).Props(), gpxReserved, c.gpxValue)
		}
	}
	b, err := gpsgen.EncodeGPXRoutes(rs)
	for _, r := range rs {
		if own {
			removeOwn(r, gpxReserved, true)
		}
	}
	if len(want) == 0 {
		// nothing to keep: an error and an empty document are both an answer
		if err == nil {
			if out, err := gpsgen.DecodeGPXRoutes(b); err == nil && len(out) > 0 {
				c.Fail("count", "%d routes decoded where no route has a track", len(out))
			}
		}
		c.Count("lists_without_tracks", 1)
		return
	}
	if err != nil {
		c.Fail("encode", "EncodeGPXRoutes of %d routes = %v", len(rs), err)
	}
	c.Logf("%s", clip(string(b), 4000))
	c.checkGPX(b, want)
	compare := func(when string, out []*navigator.Route) {
		for _, r := range out {
			if own {
				removeOwn(r, gpxReserved, true)
			}
		}
		if len(out) != len(want) {
			c.Fail("count", "%s%d routes with tracks encoded, %d decoded", when, len(want), len(out))
		}
		for i, r := range want {
			what := fmt.Sprintf("%sroute %d of %d", when, i, len(want))
			q := out[i]
			if r.ID() != q.ID() || r.Name() != q.Name() || r.Color() != q.Color() || r.NumTracks() != q.NumTracks() {
				c.Fail("route", "%s: %q %q %s with %d tracks, it was %q %q %s with %d", what,
					q.ID(), q.Name(), q.Color(), q.NumTracks(), r.ID(), r.Name(), r.Color(), r.NumTracks())
			}
			c.gpxProps(what, r.Props(), q.Props())
			for j := 0; j < r.NumTracks(); j++ {
				s, t := r.TrackAt(j), q.TrackAt(j)
				what := fmt.Sprintf("%s, track %d", what, j)
				if s.ID() != t.ID() || s.Name() != t.Name() || s.Color() != t.Color() || s.NumSegments() != t.NumSegments() {
					c.Fail("track", "%s: %q %q %s with %d segments, it was %q %q %s with %d", what,
						t.ID(), t.Name(), t.Color(), t.NumSegments(), s.ID(), s.Name(), s.Color(), s.NumSegments())
				}
				c.gpxProps(what, s.Props(), t.Props())
				x, y := trackPoints(s), trackPoints(t)
				for k := range x {
					if !sameTo(x[k], y[k], 1e-9) {
						c.Fail("points", "%s: point %d is %v, it was %v", what, k, y[k], x[k])
					}
				}
				if s.IsClosed() && !t.IsClosed() {
					c.Fail("points", "%s: it was closed and is open", what)
				}
				c.Count("points", len(x))
				c.Count("properties", len(s.Props()))
			}
			c.Count("properties", len(r.Props()))
		}
	}
	out, err := gpsgen.DecodeGPXRoutes(b)
	if err != nil {
		c.Fail("decode", "DecodeGPXRoutes = %v", err)
	}
	compare("", out)
	if c.Chance(0.3) {
		for _, r := range out {
			for j := 0; j < r.NumTracks(); j++ {
				for _, p := range trackPoints(r.TrackAt(j)) {
					if gpxSafe(p) != p { // rounding to ten decimals made one of the coordinates known to be lost
						return
					}
				}
			}
		}
		b2, err := gpsgen.EncodeGPXRoutes(out)
		if err != nil {
			c.Fail("again", "encoding the decoded routes = %v", err)
		}
		out2, err := gpsgen.DecodeGPXRoutes(b2)
		if err != nil {
			c.Fail("again", "decoding the second encoding = %v", err)
		}
		compare("second generation: ", out2)
		c.Count("second_generations", 1)
	}
	c.Count("routes", len(want))
	c.Count("routes_without_tracks", len(rs)-len(want))
	c.Count("tracks", tracks)
	c.NonTrivial("%d %d %d", len(rs), tracks, len(b))
	c.Sample("%d routes with %d tracks in %d bytes", len(rs), tracks, len(b))
}

// gpxZeros shows the coordinates that GPX is known to lose.
func (c *C) gpxZeros() {
	for _, p := range []pt{{Lat: 10, Lon: 20.5}, {Lat: 12.5, Lon: -120}, {Lat: 0, Lon: 13.25}, {Lat: 48.5, Lon: 0}} {
		q := pt{Lat: p.Lat + 0.125, Lon: p.Lon + 0.125}
		t, err := navigator.NewTrack([]pt{p, q})
		if err != nil {
			c.Fail("construct", "NewTrack = %v", err)
		}
		b, err := gpsgen.EncodeGPXRoutes([]*navigator.Route{navigator.RouteFromTracks(t)})
		if err != nil {
			c.Fail("encode", "EncodeGPXRoutes = %v", err)
		}
		out, err := gpsgen.DecodeGPXRoutes(b)
		if err != nil {
			c.Finding("gpx-coordinate-zeros", "a route starting at %v is encoded to GPX that does not decode: %v", p, err)
			continue
		}
		if len(out) != 1 || out[0].NumTracks() != 1 || out[0].TrackAt(0).NumSegments() != 1 {
			c.Fail("count", "one route with one track of two points comes back as %d routes", len(out))
		}
		s := out[0].TrackAt(0).SegmentAt(0)
		if !sameTo(s.PointB(), q, 1e-9) {
			c.Fail("points", "point %v comes back as %v", q, s.PointB())
		}
		if sameTo(s.PointA(), p, 1e-9) {
			continue
		}
		trimmed := func(v float64) float64 { // what the writer is known to make of it
			x, _ := strconv.ParseFloat(strings.TrimRight(strings.TrimRight(strconv.FormatFloat(v, 'f', 10, 64), "0."), "0"), 64)
			return x
		}
		if a := s.PointA(); !feq(a.Lat, trimmed(p.Lat)) && !feq(a.Lat, p.Lat) || !feq(a.Lon, trimmed(p.Lon)) && !feq(a.Lon, p.Lon) {
			c.Fail("points", "point %v comes back as %v", p, a)
		}
		c.Finding("gpx-coordinate-zeros", "point %v comes back as %v", p, s.PointA())
	}
}

// ---------------------------------------------------------------- S06

func (c *C) foreignPoints() []pt {
	n := c.Int(2, 9)
	out := make([]pt, 0, n)
	p := pt{Lat: c.Range(-85, 85), Lon: c.Range(-179, 179)}
	for len(out) < n {
		switch c.IntN(6) {
		case 0:
			p = pt{Lat: c.Range(-90, 90), Lon: c.Range(-180, 180)}
		case 1:
			p = pt{Lat: pick(c, 0.0, 10, -20, 90, -90, 45.5), Lon: pick(c, 0.0, 180, -180, 100, -7.25)}
		case 2: // the same again
		default:
			p = pt{Lat: clampTo(p.Lat+c.Range(-0.5, 0.5), 90), Lon: clampTo(p.Lon+c.Range(-0.5, 0.5), 180)}
		}
		out = append(out, p)
	}
	return out
}

func clampTo(v, lim float64) float64 { return math.Max(-lim, math.Min(lim, v)) }

// num writes a number in one of the ways JSON allows.
func (c *C) num(v float64) string {
	switch c.IntN(3) {
	case 0:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(v, 'f', -1, 64)
	default:
		b, _ := json.Marshal(v)
		return string(b)
	}
}

func (c *C) ws() string { return pick(c, "", "", "", " ", "\n", "\t ") }

func (c *C) jsonLine(ps []pt) string {
	var l []string
	alt := c.Chance(0.2)
	for _, p := range ps {
		s := "[" + c.ws() + c.num(p.Lon) + c.ws() + "," + c.num(p.Lat)
		if alt {
			s += "," + c.num(c.Range(0, 3000))
		}
		l = append(l, s+"]")
	}
	return "[" + strings.Join(l, ","+c.ws()) + "]"
}

// jsonGeometry writes a geometry and returns the lines it should become; ok is false when
// importing it must fail.
func (c *C) jsonGeometry(bad bool, nest bool) (s string, lines [][]pt, ok bool) {
	ok = true
	short := func() []pt {
		if bad && c.Chance(0.7) {
			ok = false
			return c.foreignPoints()[:c.IntN(2)]
		}
		return c.foreignPoints()
	}
	ring := func() []pt {
		ps := short()
		if len(ps) >= 2 && c.Chance(0.9) {
			ps = append(ps, ps[0])
		}
		return ps
	}
	member := func(typ, coords string) string {
		m := []string{`"type":` + c.ws() + `"` + typ + `"`, `"coordinates":` + c.ws() + coords}
		if c.Chance(0.3) {
			m[0], m[1] = m[1], m[0]
		}
		if c.Chance(0.1) {
			m = append(m, `"bbox":[-180,-90,180,90]`)
		}
		return "{" + strings.Join(m, ",") + "}"
	}
	poly := func() string {
		r := ring()
		lines = append(lines, r)
		t := "[" + c.jsonLine(r)
		for k := c.IntN(3); k > 0; k-- { // holes
			t += "," + c.jsonLine(append(c.foreignPoints(), pt{}))
		}
		return t + "]"
	}
	n := 6
	if bad {
		n = 8
	}
	k := c.IntN(n)
	if !nest && k == 5 {
		k = 0
	}
	switch k {
	case 0:
		ps := short()
		return member("LineString", c.jsonLine(ps)), [][]pt{ps}, ok
	case 1:
		var l []string
		for k := c.Int(1, 4); k > 0; k-- {
			ps := short()
			lines = append(lines, ps)
			l = append(l, c.jsonLine(ps))
		}
		return member("MultiLineString", "["+strings.Join(l, ",")+"]"), lines, ok
	case 2:
		if nest && c.Chance(0.03) {
			c.empty = true
			return member("Polygon", "[]"), nil, ok
		}
		s = poly()
		return member("Polygon", s), lines, ok
	case 3:
		var l []string
		for k := c.Int(1, 4); k > 0; k-- {
			if c.Chance(0.1) {
				l = append(l, "[]") // no ring
				c.empty = true
			}
			l = append(l, poly())
		}
		return member("MultiPolygon", "["+strings.Join(l, ",")+"]"), lines, ok
	case 4:
		ps := short()
		return member("MultiPoint", c.jsonLine(ps)), [][]pt{ps}, ok
	case 5:
		var l []string
		for k := c.Int(1, 4); k > 0; k-- {
			t, ls, o := c.jsonGeometry(bad && c.Chance(0.5), false)
			ok = ok && o
			lines = append(lines, ls...)
			l = append(l, t)
		}
		return `{"type":"GeometryCollection","geometries":[` + strings.Join(l, ",") + "]}", lines, ok
	case 6:
		return member("Point", "["+c.num(1)+","+c.num(2)+"]"), nil, false
	default:
		return "null", nil, false
	}
}

type foreign struct {
	props map[string]any
	lines [][]pt
	kind  string
}

// is reports whether the route has the lines of f.
func (f foreign) is(r *navigator.Route) bool {
	if r.NumTracks() != len(f.lines) {
		return false
	}
	for i, l := range f.lines {
		ps := trackPoints(r.TrackAt(i))
		if len(ps) != len(l) {
			return false
		}
		for k := range l {
			if ps[k] != l[k] {
				return false
			}
		}
	}
	return true
}

func (c *C) checkForeign(fs []foreign, rs []*navigator.Route) {
	if len(rs) != len(fs) {
		c.Fail("import", "%d routes imported, the file has %d", len(rs), len(fs))
	}
	ids := map[string]string{}
	fresh := func(what, id string) {
		if _, err := uuid.Parse(id); err != nil || ids[id] != "" {
			c.Fail("identifier", "%s has the identifier %q (%v), also used by %s", what, id, err, ids[id])
		}
		ids[id] = what
	}
	for i, f := range fs {
		r := rs[i]
		what := fmt.Sprintf("imported route %d of %d (%s)", i, len(fs), f.kind)
		fresh(what, r.ID())
		c.validHex(r.Color())
		if f.props != nil || len(r.Props()) > 0 {
			if !sameProps(f.props, r.Props()) {
				c.Fail("properties", "%s has the properties %v, the file %v", what, r.Props(), f.props)
			}
		}
		if r.NumTracks() != len(f.lines) {
			c.Fail("import", "%s has %d tracks, the file %d", what, r.NumTracks(), len(f.lines))
		}
		sum := 0.0
		for j, l := range f.lines {
			t := r.TrackAt(j)
			what := fmt.Sprintf("%s, track %d", what, j)
			fresh(what, t.ID())
			c.validHex(t.Color())
			ps := trackPoints(t)
			if len(ps) != len(l) {
				c.Fail("points", "%s has %d points, the file %d", what, len(ps), len(l))
			}
			for k := range l {
				if ps[k] != l[k] {
					c.Fail("points", "%s: point %d is %v, in the file (lat %v, lon %v)", what, k, ps[k], l[k].Lat, l[k].Lon)
				}
			}
			sum += t.Distance()
			c.Count("points", len(l))
		}
		if !near(r.Distance(), sum, 1e-6, 1e-9) {
			c.Fail("import", "%s has length %v, its tracks %v", what, r.Distance(), sum)
		}
		c.Count("tracks", len(f.lines))
	}
	c.Count("routes", len(fs))
}

func runS06(c *C) {
	if c.Chance(0.45) {
		runS06GPX(c)
		return
	}
	n := c.Int(1, 5)
	bad := c.Chance(0.25)
	var fs []foreign
	var out []string
	all := true
	for k := 0; k < n; k++ {
		g, lines, ok := c.jsonGeometry(bad, true)
		all = all && ok
		f := foreign{lines: lines, kind: clip(g, 40)}
		m := []string{`"type":"Feature"`, `"geometry":` + g}
		switch c.IntN(4) {
		case 0:
			m = append(m, `"properties":null`)
		case 1: // none at all
		default:
			f.props = map[string]any{}
			for j := c.IntN(5); j > 0; j-- {
				f.props[pick(c, "name", "stroke", "title", c.text(1, 9), "distance", "units", "id", "tracksInfo", "numTracks")] = c.jsonValue(2)
			}
			if c.Chance(0.2) {
				f.props[pick(c, "color", "routeID")] = pick(c, "#ff0000", "red", c.text(0, 5))
			}
			b, err := json.Marshal(f.props)
			if err != nil {
				return
			}
			m = append(m, `"properties":`+string(b))
		}
		if c.Chance(0.3) {
			m = append(m, `"id":`+pick(c, `"f1"`, "17"))
		}
		if c.Chance(0.1) {
			m = append(m, `"extra":{"a":[1,2,null]}`)
		}
		c.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
		fs = append(fs, f)
		out = append(out, "{"+strings.Join(m, ","+c.ws())+"}")
	}
	m := []string{`"type":"FeatureCollection"`, `"features":[` + strings.Join(out, ",") + "]"}
	if c.Chance(0.3) {
		m = append(m, pick(c, `"name":"tracks"`, `"crs":{"type":"name","properties":{"name":"urn:ogc:def:crs:OGC:1.3:CRS84"}}`, `"bbox":[-180,-90,180,90]`))
	}
	if c.Chance(0.3) {
		m[0], m[1] = m[1], m[0]
	}
	text := c.ws() + "{" + strings.Join(m, ","+c.ws()) + "}" + c.ws()
	c.Logf("%s", clip(text, 4000))
	rs, err := gpsgen.DecodeGeoJSONRoutes([]byte(text))
	if !all {
		if err == nil {
			c.Fail("refuse", "a file with a line of fewer than two points or an unsupported geometry is imported: %s", clip(text, 600))
		}
		c.Count("geojson_refused", 1)
		return
	}
	if err != nil && c.empty {
		c.Count("geojson_empty_polygon_refused", 1)
		return
	}
	if err != nil {
		c.Fail("import", "DecodeGeoJSONRoutes = %v: %s", err, clip(text, 600))
	}
	c.checkForeign(fs, rs)
	c.Count("geojson_files", 1)
	c.NonTrivial("geojson %d %s", n, clip(regexp.MustCompile(`[^A-Za-z]`).ReplaceAllString(text, ""), 300))
	c.Sample("GeoJSON of %d features, %d bytes", n, len(text))
}

func (c *C) gpxNum(v float64) string {
	if c.Chance(0.2) {
		return strconv.FormatFloat(v, 'e', -1, 64)
	}
	return strconv.FormatFloat(v, 'f', -1, 64)
}

func (c *C) gpxPts(tag string, ps []pt) string {
	var b strings.Builder
	q := pick(c, `"`, `'`)
	for _, p := range ps {
		la, lo := "lat="+q+c.gpxNum(p.Lat)+q, "lon="+q+c.gpxNum(p.Lon)+q
		if c.Chance(0.3) {
			la, lo = lo, la
		}
		b.WriteString("<" + tag + " " + la + " " + lo + ">")
		if c.Chance(0.3) {
			b.WriteString("<ele>" + c.num(c.Range(0, 2000)) + "</ele>")
		}
		if c.Chance(0.2) {
			b.WriteString("<time>2023-05-01T10:00:00Z</time>")
		}
		if c.Chance(0.1) {
			b.WriteString("<name>point &amp; more</name>")
		}
		b.WriteString("</" + tag + ">" + c.ws())
	}
	return b.String()
}

func runS06GPX(c *C) {
	bad := c.Chance(0.25)
	all := true
	var b strings.Builder
	if c.Chance(0.8) {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	b.WriteString(pick(c,
		`<gpx version="1.1" creator="someone" xmlns="http://www.topografix.com/GPX/1/1">`,
		`<gpx xmlns="http://www.topografix.com/GPX/1/1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" creator="x" version="1.1" xsi:schemaLocation="http://www.topografix.com/GPX/1/1 http://www.topografix.com/GPX/1/1/gpx.xsd">`,
		`<gpx version="1.1">`))
	if c.Chance(0.4) {
		b.WriteString(`<metadata><name>a file</name><author><name>me</name></author></metadata>`)
	}
	line := func(tag string) (string, []pt) {
		ps := c.foreignPoints()
		if bad && c.Chance(0.5) {
			ps = ps[:c.IntN(2)]
			all = false
		}
		return c.gpxPts(tag, ps), ps
	}
	var routes, tracks []foreign
	nr, nt, nw := 0, 0, 0
	for nr+nt+nw == 0 {
		nr, nt, nw = max(0, c.Int(-2, 3)), max(0, c.Int(-1, 4)), pick(c, 0, 0, 1)
	}
	var way []pt
	if nw > 0 {
		way = c.foreignPoints()
		if bad && nr+nt == 0 && c.Chance(0.7) {
			way, all = way[:1], false
		} else if nr+nt > 0 && c.Chance(0.3) {
			way = way[:1] // way points beside other things are not imported
		}
		b.WriteString(c.gpxPts("wpt", way))
	}
	for k := 0; k < nr; k++ {
		t, ps := line("rtept")
		b.WriteString("<rte>" + pick(c, "", "<name>r</name>", "<desc>d</desc>") + t + "</rte>")
		routes = append(routes, foreign{lines: [][]pt{ps}, kind: "rte"})
	}
	for k := 0; k < nt; k++ {
		b.WriteString("<trk>" + pick(c, "", "<name>t</name>", "<type>walk</type>"))
		f := foreign{kind: "trk"}
		for j := c.Int(1, 4); j > 0; j-- {
			t, ps := line("trkpt")
			b.WriteString("<trkseg>" + t + "</trkseg>" + c.ws())
			f.lines = append(f.lines, ps)
		}
		b.WriteString("</trk>")
		tracks = append(tracks, f)
	}
	if c.Chance(0.3) {
		b.WriteString(`<extensions><other a="1"><gpsgen/></other><x/></extensions>`)
	}
	b.WriteString("</gpx>")
	text := b.String()
	c.Logf("%s", clip(text, 4000))
	rs, err := gpsgen.DecodeGPXRoutes([]byte(text))
	if !all {
		if err == nil {
			c.Fail("refuse", "a file with a line of fewer than two points is imported: %s", clip(text, 600))
		}
		c.Count("gpx_refused", 1)
		return
	}
	if err != nil {
		c.Fail("import", "DecodeGPXRoutes = %v: %s", err, clip(text, 600))
	}
	fs := append(append([]foreign(nil), routes...), tracks...)
	if len(fs) == 0 {
		fs = []foreign{{lines: [][]pt{way}, kind: "wpt"}}
		c.Count("gpx_way_points", 1)
	}
	if len(routes) > 0 && len(tracks) > 0 && len(rs) == len(fs) && !fs[0].is(rs[0]) && tracks[0].is(rs[0]) {
		fs = append(append([]foreign(nil), tracks...), routes...) // either order of the two kinds
	}
	c.checkForeign(fs, rs)
	c.Count("gpx_files", 1)
	c.NonTrivial("gpx %d %d %d %d", nr, nt, nw, len(text))
	c.Sample("GPX of %d routes, %d tracks, %d way points, %d bytes", nr, nt, len(way), len(text))
}
