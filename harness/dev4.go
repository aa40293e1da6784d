package main

import (
	"fmt"
	"strings"

	"github.com/google/uuid"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
)

// ---------------------------------------------------------------- D06

// coll is the monitor's picture of an ordered set of elements with identifiers.
type coll[T comparable] struct {
	ids []string
	els []T
}

func (s *coll[T]) at(id string) int {
	for i := range s.ids {
		if s.ids[i] == id {
			return i
		}
	}
	return -1
}

func (s *coll[T]) add(id string, el T) bool {
	if s.at(id) >= 0 {
		return false
	}
	s.ids, s.els = append(s.ids, id), append(s.els, el)
	return true
}

func (s *coll[T]) remove(id string) bool {
	i := s.at(id)
	if i < 0 {
		return false
	}
	s.ids = append(append([]string(nil), s.ids[:i]...), s.ids[i+1:]...)
	s.els = append(append([]T(nil), s.els[:i]...), s.els[i+1:]...)
	return true
}

// view is one way to read a collection.
type view[T comparable] struct {
	what string
	n    int
	at   func(i int) T // zero value: nothing there
	list func() []T
	each func(func(int, T) bool)
	byID func(string) (T, bool)
}

// agree compares every way of reading a collection with the monitor's picture.
func agree[T comparable](c *C, v view[T], m *coll[T]) {
	var zero T
	if v.n != len(m.els) {
		c.Fail("set", "%s: %d elements, expected %d", v.what, v.n, len(m.els))
	}
	for i, el := range m.els {
		if v.at(i) != el {
			c.Fail("set", "%s: the element at index %d of %d is not the expected %s", v.what, i, len(m.els), m.ids[i])
		}
		if v.byID != nil {
			if got, ok := v.byID(m.ids[i]); !ok || got != el {
				c.Fail("set", "%s: the element %s is not found by its identifier (%v)", v.what, m.ids[i], ok)
			}
		}
	}
	for _, i := range []int{-1, len(m.els), len(m.els) + 3, -100} {
		if v.at(i) != zero {
			c.Fail("set", "%s: there is an element at index %d of %d", v.what, i, len(m.els))
		}
	}
	if v.byID != nil {
		ids := []string{"", "no such", uuid.NewString(), strings.Repeat("x", 37)}
		for _, id := range m.ids {
			if near := c.nearMiss(id); m.at(near) < 0 {
				ids = append(ids, near)
			}
		}
		for _, id := range ids {
			if got, ok := v.byID(id); ok || got != zero {
				c.Fail("set", "%s: the unknown identifier %q is found", v.what, id)
			}
		}
	}
	if v.list != nil {
		l := v.list()
		if len(l) != len(m.els) {
			c.Fail("set", "%s: the list has %d elements, expected %d", v.what, len(l), len(m.els))
		}
		for i := range l {
			if l[i] != m.els[i] {
				c.Fail("set", "%s: element %d of the list is not the expected %s", v.what, i, m.ids[i])
			}
			l[i] = zero // a copy: this must not be seen
		}
		l = append(l[:0], make([]T, len(l)+1)...)
		for i, el := range m.els {
			if v.at(i) != el {
				c.Fail("copy", "%s: overwriting the returned list changed the collection at index %d", v.what, i)
			}
		}
	}
	if v.each != nil {
		k := 0
		v.each(func(i int, el T) bool {
			if i != k || k >= len(m.els) || el != m.els[k] {
				c.Fail("set", "%s: enumeration gives index %d at place %d of %d, or not the expected element", v.what, i, k, len(m.els))
			}
			k++
			return true
		})
		if k != len(m.els) {
			c.Fail("set", "%s: enumeration gives %d elements of %d", v.what, k, len(m.els))
		}
		if len(m.els) > 0 {
			stop, k := c.IntN(len(m.els)), 0
			v.each(func(i int, el T) bool { k++; return i < stop })
			if k != stop+1 {
				c.Fail("set", "%s: an enumeration stopped at index %d gave %d elements", v.what, stop, k)
			}
		}
	}
	c.Count("views_compared", 1)
}

func (c *C) shortID() string {
	switch c.IntN(4) {
	case 0:
		return pick(c, "a", "b", "route-1", "ж", "A")
	case 1:
		return strings.Repeat("z", pick(c, 36, 35)) // the longest
	default:
		return uuid.NewString()
	}
}

type d06 struct {
	c       *C
	dev     *gpsgen.Device
	nav     *navigator.Navigator
	n       navi
	routes  coll[*navigator.Route]
	sensors coll[*types.Sensor]
	tracks  map[*navigator.Route]*coll[*navigator.Track]
	pool    []*navigator.Route
	spool   []*types.Sensor
	pat     []byte
}

func (d *d06) newTrack(tr *coll[*navigator.Track]) *navigator.Track {
	c := d.c
	for {
		var t *navigator.Track
		var err error
		if c.Chance(0.5) {
			t, err = navigator.NewTrack(c.points(2000))
		} else {
			id := c.shortID()
			if len(tr.ids) > 0 && c.Chance(0.3) {
				if near := c.nearMiss(tr.ids[c.IntN(len(tr.ids))]); len(near) > 0 && len(near) <= 36 {
					id = near
				}
			}
			t, err = navigator.RestoreTrack(id, "#ffffff", c.points(2000))
		}
		if err != nil {
			c.Fail("construct", "a track: %v", err)
		}
		if tr.at(t.ID()) < 0 { // identifiers of tracks of one route are unique here
			return t
		}
	}
}

func (d *d06) newRoute() *navigator.Route {
	c := d.c
	var r *navigator.Route
	id := ""
	switch c.IntN(4) {
	case 0:
		id = c.shortID()
	case 1:
		if len(d.pool) > 0 { // another route with an identifier already used
			id = d.pool[c.IntN(len(d.pool))].ID()
			if c.Chance(0.4) { // nearly so
				if near := c.nearMiss(id); len(near) <= 36 {
					id = near
				}
			}
		}
	}
	if id == "" {
		r = navigator.NewRoute()
	} else {
		r = navigator.RestoreRoute(id, "#112233", nil)
	}
	tr := &coll[*navigator.Track]{}
	for k := c.IntN(4); k > 0; k-- {
		t := d.newTrack(tr)
		r.AddTrack(t)
		tr.add(t.ID(), t)
	}
	d.tracks[r] = tr
	d.pool = append(d.pool, r)
	return r
}

func (d *d06) newSensor() *types.Sensor {
	c := d.c
	var s *types.Sensor
	var err error
	if c.Chance(0.3) && len(d.spool) > 0 {
		s, err = types.RestoreSensor(d.spool[c.IntN(len(d.spool))].ID(), "again", 0, 1, 4, 0)
	} else {
		s, err = types.NewSensor(c.text(1, 5), 0, 1, 4, 0)
	}
	if err != nil {
		c.Fail("construct", "a sensor: %v", err)
	}
	d.spool = append(d.spool, s)
	return s
}

func (d *d06) compare() {
	c := d.c
	agree(c, view[*navigator.Route]{
		what: "routes", n: d.n.NumRoutes(), at: d.n.RouteAt, list: d.n.Routes, each: d.n.EachRoute,
		byID: func() func(string) (*navigator.Route, bool) {
			if d.nav == nil {
				return nil
			}
			return func(id string) (*navigator.Route, bool) { r, err := d.nav.RouteByID(id); return r, err == nil }
		}(),
	}, &d.routes)
	for _, r := range d.routes.els {
		agree(c, view[*navigator.Track]{
			what: "tracks of a route", n: r.NumTracks(), at: r.TrackAt, each: r.EachTrack,
			byID: func(id string) (*navigator.Track, bool) { t, err := r.TrackByID(id); return t, err == nil },
		}, d.tracks[r])
	}
	if d.dev == nil {
		return
	}
	agree(c, view[*types.Sensor]{
		what: "sensors", n: d.dev.NumSensors(), at: d.dev.SensorAt, list: d.dev.Sensors, each: d.dev.EachSensor, byID: d.dev.SensorByID,
	}, &d.sensors)
	st := d.dev.State()
	if len(st.Sensors) != len(d.sensors.ids) {
		c.Fail("set", "the state lists %d sensors of %d", len(st.Sensors), len(d.sensors.ids))
	}
	for i, s := range st.Sensors {
		if s.Id != d.sensors.ids[i] {
			c.Fail("set", "the state lists sensor %s at place %d, expected %s", s.Id, i, d.sensors.ids[i])
		}
	}
}

// someID is the identifier of a present, former or unknown element.
func someID[T comparable](c *C, m *coll[T], former func() string) string {
	switch {
	case len(m.ids) > 0 && c.Chance(0.6):
		return m.ids[c.IntN(len(m.ids))]
	case c.Chance(0.6):
		return former()
	case len(m.ids) > 0 && c.Chance(0.5):
		return c.nearMiss(m.ids[c.IntN(len(m.ids))])
	default:
		return pick(c, "", "unknown", uuid.NewString(), strings.Repeat("y", 37))
	}
}

func runD06(c *C) {
	d := &d06{c: c, tracks: map[*navigator.Route]*coll[*navigator.Track]{}}
	w := c.newWorld(worldOpt{device: c.Chance(0.7)})
	d.dev, d.nav, d.n = w.dev, w.nav, w.n
	d.n.ResetRoutes()
	if d.dev != nil {
		d.dev.ResetSensors()
	}
	formerRoute := func() string {
		if len(d.pool) == 0 {
			return "none"
		}
		return d.pool[c.IntN(len(d.pool))].ID()
	}
	n := c.Int(15, 60)
	for i := 0; i < n; i++ {
		op := c.IntN(15)
		pre := w.observe()
		same := "" // what was refused
		switch op {
		case 0, 1, 2: // add routes: new, present, missing, several at once
			var rs []*navigator.Route
			for k := c.Int(0, 3); k >= 0; k-- {
				switch c.IntN(5) {
				case 0:
					rs = append(rs, nil)
				case 1:
					if len(d.pool) > 0 {
						rs = append(rs, d.pool[c.IntN(len(d.pool))])
					}
				default:
					rs = append(rs, d.newRoute())
				}
			}
			ver := w.observe().ver
			err := d.n.AddRoute(rs...)
			if len(rs) == 0 {
				if err == nil {
					c.Fail("set", "adding no route at all was accepted")
				}
				same = "adding no route"
				break
			}
			if err != nil {
				c.Fail("set", "AddRoute of %d routes = %v", len(rs), err)
			}
			added := 0
			for _, r := range rs {
				if r != nil && d.routes.add(r.ID(), r) {
					added++
				}
			}
			if added == 0 {
				c.Count("adds_without_effect", 1)
				same = "adding routes that are all present or missing"
				if v := w.observe().ver; v != ver {
					c.Fail("set", "adding routes that are all present or missing changed the version from %v to %v", ver, v)
				}
			}
		case 3:
			id := someID(c, &d.routes, formerRoute)
			if got, want := d.n.RemoveRoute(id), d.routes.remove(id); got != want {
				c.Fail("set", "RemoveRoute(%q) = %v, expected %v", id, got, want)
			} else if !got {
				same = "the removal of an unknown route"
			}
		case 4:
			if c.Chance(0.15) {
				if got, want := d.n.ResetRoutes(), len(d.routes.ids) > 0; got != want {
					c.Fail("set", "ResetRoutes of %d routes = %v", len(d.routes.ids), got)
				}
				d.routes = coll[*navigator.Route]{}
			}
		case 5, 6: // tracks of a route, on the route
			if len(d.routes.els) == 0 {
				break
			}
			r := d.routes.els[c.IntN(len(d.routes.els))]
			tr := d.tracks[r]
			switch c.IntN(4) {
			case 0, 1:
				t := d.newTrack(tr)
				if r.AddTrack(t) != r {
					c.Fail("set", "AddTrack returns another route")
				}
				tr.add(t.ID(), t)
			case 2:
				r.AddTrack(nil)
			default:
				id := someID(c, tr, func() string { return "former" })
				if got, want := r.RemoveTrack(id), tr.remove(id); got != want {
					c.Fail("set", "Route.RemoveTrack(%q) = %v, expected %v", id, got, want)
				}
				d.n.MoveToRoute(0)
				if d.dev != nil {
					d.dev.ResetNavigator() // the tracker must not stay on a track removed behind its back
				} else {
					d.nav.Reset()
				}
			}
		case 7: // tracks through the tracker
			if len(d.routes.els) == 0 {
				break
			}
			k := c.IntN(len(d.routes.els))
			r := d.routes.els[k]
			rid := d.routes.ids[k]
			if c.Chance(0.2) {
				rid = pick(c, "", "unknown", strings.Repeat("y", 37))
			}
			id := someID(c, d.tracks[r], func() string { return "former" })
			want := rid == r.ID() && d.tracks[r].remove(id)
			if got := d.n.RemoveTrack(rid, id); got != want {
				c.Fail("set", "RemoveTrack(%q,%q) = %v, expected %v", rid, id, got, want)
			} else if !got {
				same = "the removal of an unknown track"
			}
		case 8, 9:
			if d.dev == nil {
				break
			}
			var ss []*types.Sensor
			for k := c.Int(0, 3); k > 0; k-- {
				switch c.IntN(5) {
				case 0:
					ss = append(ss, nil)
				case 1:
					if len(d.spool) > 0 {
						ss = append(ss, d.spool[c.IntN(len(d.spool))])
					}
				default:
					ss = append(ss, d.newSensor())
				}
			}
			d.dev.AddSensor(ss...)
			same = "adding sensors"
			for _, s := range ss {
				if s != nil && !d.sensors.add(s.ID(), s) {
					c.Count("adds_without_effect", 1)
				}
			}
		case 10:
			if d.dev == nil {
				break
			}
			id := someID(c, &d.sensors, func() string {
				if len(d.spool) == 0 {
					return "none"
				}
				return d.spool[c.IntN(len(d.spool))].ID()
			})
			if got, want := d.dev.RemoveSensor(id), d.sensors.remove(id); got != want {
				c.Fail("set", "RemoveSensor(%q) = %v, expected %v", id, got, want)
			}
			same = "removing a sensor"
		case 11:
			if d.dev != nil && c.Chance(0.1) {
				d.dev.ResetSensors()
				d.sensors = coll[*types.Sensor]{}
			}
		case 12: // lists taken earlier stay what they were
			l := d.n.Routes()
			keep := append([]*navigator.Route(nil), l...)
			var sl, skeep []*types.Sensor
			if d.dev != nil {
				sl = d.dev.Sensors()
				skeep = append(skeep, sl...)
			}
			if len(d.routes.ids) > 0 {
				id := d.routes.ids[0]
				d.n.RemoveRoute(id)
				d.routes.remove(id)
			}
			r := d.newRoute()
			d.n.AddRoute(r)
			d.routes.add(r.ID(), r)
			if d.dev != nil && len(d.sensors.ids) > 0 {
				id := d.sensors.ids[0]
				d.dev.RemoveSensor(id)
				d.sensors.remove(id)
			}
			for i := range l {
				if l[i] != keep[i] {
					c.Fail("copy", "a list of routes taken earlier changed at index %d of %d when a route was removed", i, len(l))
				}
			}
			for i := range sl {
				if sl[i] != skeep[i] {
					c.Fail("copy", "a list of sensors taken earlier changed at index %d of %d when a sensor was removed", i, len(sl))
				}
			}
			c.Count("lists_kept", 1)
		default:
			w.advance(c.Range(0.1, 100))
		}
		if same != "" {
			if o := w.observe(); o != pre {
				c.Fail("moved", "%s changed the tracker from %v to %v", same, pre, o)
			}
			if pre.cd > 0 {
				c.Count("refused_under_way", 1)
			}
		}
		d.pat = append(d.pat, 'a'+byte(op))
		d.compare()
	}
	c.Count("operations", n)
	c.NonTrivial("%s", d.pat)
	c.Sample("%d operations (%s), at the end %d routes and %d sensors", n, d.pat, len(d.routes.ids), len(d.sensors.ids))
}

// advance steps the navigator or device without judging it.
func (w *world) advance(m float64) {
	if w.nav != nil {
		w.nav.NextLocation(1, m)
	} else {
		w.dev.Next(m / 10)
	}
}

// ---------------------------------------------------------------- D07

func (c *C) checkRoutesMirror(d *gpsgen.Device, when string) {
	st := d.State()
	rs := d.Routes()
	bad := func(what string, got, want any) {
		c.Fail("stale", "%s: the state says %s = %v, the tracker holds %v", when, what, got, want)
	}
	if len(st.Routes.Routes) != len(rs) {
		bad("number of routes", len(st.Routes.Routes), len(rs))
	}
	for i, r := range rs {
		x := st.Routes.Routes[i]
		if x.RouteId != r.ID() || x.Color != r.Color() || x.Distance != r.Distance() || len(x.Tracks) != r.NumTracks() {
			bad(fmt.Sprintf("route %d", i), fmt.Sprint(x.RouteId, x.Color, x.Distance, len(x.Tracks)), fmt.Sprint(r.ID(), r.Color(), r.Distance(), r.NumTracks()))
		}
		for j, y := range x.Tracks {
			t := r.TrackAt(j)
			if y.TrackId != t.ID() || y.Color != t.Color() || y.Distance != t.Distance() || y.NumSegments != int64(t.NumSegments()) {
				bad(fmt.Sprintf("track %d of route %d", j, i), fmt.Sprint(y.TrackId, y.Color, y.Distance, y.NumSegments),
					fmt.Sprint(t.ID(), t.Color(), t.Distance(), t.NumSegments()))
			}
		}
	}
}

func runD07(c *C) {
	w := c.newWorld(worldOpt{device: c.Chance(0.8), battery: true, varSpeed: c.Chance(0.5), maxSeg: pick(c, 100.0, 5000)})
	n, d := w.n, w.dev
	ver := func() [3]int {
		if d != nil {
			return d.Version()
		}
		return w.nav.Sum()
	}
	seen := map[[3]int]string{ver(): "the start"}
	pat := ""
	changed := func(what string, pre [3]int) {
		v := ver()
		if v == pre {
			c.Fail("version", "the version is still %v after %s", v, what)
		}
		pat += what[:1]
		c.Count("changes", 1)
		seen[v] = what
	}
	same := func(what string, pre [3]int) {
		if v := ver(); v != pre {
			c.Fail("version", "%s changed the version from %v to %v", what, pre, v)
		}
	}
	some := func() *navigator.Route {
		l := n.Routes()
		if len(l) == 0 {
			return nil
		}
		return l[c.IntN(len(l))]
	}
	someTrack := func() (*navigator.Route, *navigator.Track) {
		r := some()
		if r == nil || r.NumTracks() == 0 {
			return r, nil
		}
		return r, r.TrackAt(c.IntN(r.NumTracks()))
	}
	reset := func() {
		if d != nil {
			d.ResetNavigator()
		} else {
			w.nav.Reset()
		}
	}
	edits := 0
	many := 0
	if c.Chance(0.02) {
		many = 1
	}
	for i := c.Int(20, 100); i > 0; i-- {
		pre := ver()
		if many == 1 && c.Chance(0.1) {
			// however many changes there are between two looks, the version tells
			many = 2
			r, t := someTrack()
			k := pick(c, 2, 10, 100, 128, 256, 512, 1000, 1024, 4096, 32768, 65536)
			if r != nil {
				for j := 0; j < k; j++ {
					if r.ChangeName(pick(c, "one name", "other name")) != nil {
						c.Fail("version", "ChangeName fails")
					}
				}
				changed(fmt.Sprintf("%d changes of the name of a route", k), pre)
				pre = ver()
			}
			if t != nil {
				for j := 0; j < k; j++ {
					if t.ChangeName(pick(c, "one name", "other name")) != nil {
						c.Fail("version", "ChangeName fails")
					}
				}
				changed(fmt.Sprintf("%d changes of the name of a track", k), pre)
				pre = ver()
			}
			if r != nil {
				for j := 0; j < k; j++ {
					if j%2 == 0 {
						n.RemoveRoute(r.ID())
					} else {
						n.AddRoute(r)
					}
				}
				changed(fmt.Sprintf("%d removals and additions of a route", k), pre)
				pre = ver()
			}
			c.Count("long_series_of_changes", 1)
		}
		direct := "" // an edit behind the tracker's back
		switch c.IntN(16) {
		case 0:
			n.AddRoute(c.newRoute(3, 3000).r)
			changed("adding a route", pre)
			if d != nil {
				c.checkRoutesMirror(d, "after adding a route")
			}
		case 1:
			if r := some(); r != nil && c.Chance(0.5) {
				n.RemoveRoute(r.ID())
				changed("removing a route", pre)
				if d != nil {
					c.checkRoutesMirror(d, "after removing a route")
				}
				if c.Chance(0.5) { // the same one again, or another one
					pre = ver()
					if c.Chance(0.5) {
						r = c.newRoute(3, 3000).r
					}
					n.AddRoute(r)
					changed("adding a route instead", pre)
				}
			}
		case 2:
			if r, t := someTrack(); t != nil {
				n.RemoveTrack(r.ID(), t.ID())
				changed("Removing a track through the tracker", pre)
				if d != nil {
					c.checkRoutesMirror(d, "after removing a track")
				}
			}
		case 3:
			if c.Chance(0.1) && n.NumRoutes() > 0 {
				n.ResetRoutes()
				changed("xresetting the routes", pre)
				if d != nil {
					c.checkRoutesMirror(d, "after resetting the routes")
				}
			}
		case 4:
			if r := some(); r != nil {
				r.AddTrack(c.newTrack(3000).t)
				direct = "track added to a route"
			}
		case 5:
			if r, t := someTrack(); t != nil {
				cur := n.CurrentRoute() == r
				r.RemoveTrack(t.ID())
				changed("direct removal of a track from a route", pre)
				if cur { // keep it off a track that is gone
					reset()
				}
				if d != nil {
					d.Next(0.5)
					c.checkRoutesMirror(d, "after removing a track from a route and a step")
				}
				pre = ver()
			}
		case 6:
			if r := some(); r != nil {
				if r.ChangeName(c.name()) == nil {
					direct = "name of a route"
				}
			}
		case 7:
			if r := some(); r != nil {
				col := c.color()
				if col.Hex() != r.Color() && r.ChangeColor(col) == nil {
					direct = "color of a route"
				}
			}
		case 8:
			if _, t := someTrack(); t != nil {
				if t.ChangeName(c.name()) == nil {
					direct = "Name of a track"
				}
			}
		case 9:
			if _, t := someTrack(); t != nil {
				col := c.color().Hex()
				if col != t.Color() && t.ChangeColor(col) == nil {
					direct = "Color of a track"
				}
			}
		case 10: // reading
			n.Routes()
			n.Location()
			n.CurrentRoute()
			n.CurrentTrack()
			n.CurrentSegment()
			n.EachRoute(func(_ int, r *navigator.Route) bool {
				r.Name()
				r.Distance()
				r.Props()
				r.Snapshot()
				r.EachTrack(func(_ int, t *navigator.Track) bool { t.Props(); t.Snapshot(); return true })
				return true
			})
			w.observe()
			if d != nil {
				d.State()
				d.Snapshot()
				d.Sensors()
				if _, err := gpsgen.EncodeTracker(d); err != nil {
					c.Fail("encode", "EncodeTracker = %v", err)
				}
			} else {
				w.nav.Snapshot()
			}
			gpsgen.EncodeRoutes(n.Routes())
			gpsgen.EncodeGeoJSONRoutes(n.Routes())
			gpsgen.EncodeGPXRoutes(n.Routes())
			same("reading the state", pre)
			c.Count("reads", 1)
		case 11: // a decoded tracker goes on from the same version
			if d == nil {
				break
			}
			b, err := gpsgen.EncodeTracker(d)
			if err != nil {
				c.Fail("encode", "EncodeTracker = %v", err)
			}
			x, err := gpsgen.DecodeTracker(b)
			if err != nil {
				c.Fail("encode", "DecodeTracker = %v", err)
			}
			d, n, w.dev, w.n = x, x, x, x
			pre = ver()
			pat += "d"
		default:
			for k := c.Int(1, 4); k > 0; k-- {
				w.advance(c.LogRange(0.1, 3000))
			}
			same("stepping", pre)
			c.Count("steps", 1)
		}
		if direct != "" {
			changed(direct, pre)
			edits++
			if d != nil {
				// whatever the next step does, the state it publishes lists the change
				pre = ver()
				moved := d.Next(c.LogRange(0.1, 1000))
				c.checkRoutesMirror(d, fmt.Sprintf("after an edit (%s) and a step (moved: %v)", direct, moved))
				same("stepping", pre)
				c.Count(map[bool]string{true: "published_by_moved_step", false: "published_by_other_step"}[moved], 1)
			}
		}
	}
	c.Count("direct_edits", edits)
	c.Count("distinct_versions", len(seen))
	c.NonTrivial("%s", pat)
	c.Sample("changes %s: %d different versions", clip(pat, 60), len(seen))
}
