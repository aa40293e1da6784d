package main

import (
	"fmt"
	"math"

	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
)

// Aspects of a step, each decided by one property.
type aspect uint

const (
	aPos  aspect = 1 << iota // N01
	aOdo                     // N02
	aSeq                     // N03
	aOff                     // N07
	aLap                     // N08
	aMove                    // N06
	aEdit                    // N04
)

// ---------------------------------------------------------------- N01: place

// checkPlace: indices exist and belong together; the odometer fits the segment.
func (w *world) checkPlace(o obs) {
	c := w.c
	n := w.n
	if len(w.routes) == 0 {
		if n.CurrentRoute() != nil || n.CurrentTrack() != nil || !n.CurrentSegment().IsEmpty() {
			c.Fail("place", "a tracker without routes reports a current element: %v", o)
		}
		return
	}
	r := w.route(o.ri)
	if r == nil {
		c.Fail("place", "route index %d of %d does not exist: %v", o.ri, len(w.routes), o)
	}
	if n.CurrentRoute() != r.r {
		c.Fail("place", "current route is not the route at the reported index: %v", o)
	}
	if len(r.tracks) == 0 {
		if o.ti != 0 || o.si != 0 || n.CurrentTrack() != nil {
			c.Fail("place", "position inside a route without tracks: %v", o)
		}
		return
	}
	t := w.track(o.ri, o.ti)
	if t == nil || n.CurrentTrack() != t.t {
		c.Fail("place", "current track is not the track at the reported index: %v", o)
	}
	s := w.seg(o.ri, o.ti, o.si)
	if s == nil {
		c.Fail("place", "segment index does not exist: %v", o)
	}
	cur := n.CurrentSegment()
	if s.RL > 0 && (cur.PointA() != s.A || cur.PointB() != s.B || cur.Index() != o.si) {
		c.Fail("place", "current segment %v-%v is not the segment at the reported index %v-%v: %v", cur.PointA(), cur.PointB(), s.A, s.B, o)
	}
	if s.RL == 0 && !cur.IsEmpty() {
		c.Fail("place", "current segment has length %v, expected a segment without length: %v", cur.Distance(), o)
	}
	if !finite(o.csd, o.ctd, o.crd, o.cd) || o.csd < 0 || o.csd > s.L+1e-6+1e-9*s.L {
		c.Fail("place", "segment odometer %v outside the segment of %v m: %v", o.csd, s.L, o)
	}
	if !near(o.sdist, s.L, 1e-6, 1e-9) {
		c.Fail("place", "reported segment length %v, great circle %v: %v", o.sdist, s.L, o)
	}
}

// checkOnSegment: the position lies on the current segment at the odometer.
func (w *world) checkOnSegment(pre, o obs) {
	c := w.c
	s := w.seg(o.ri, o.ti, o.si)
	if s == nil || s.RL == 0 {
		c.Fail("on-segment", "a moved tracker is on an element without length: %v -> %v", pre, o)
	}
	start := pre.ri == o.ri && pre.ti == o.ti && pre.si == 0 && pre.csd == 0
	want := []float64{o.csd}
	if start && o.si == 0 {
		want = []float64{math.Min(1, s.L)}
		c.Count("first_steps_of_a_track", 1)
	} else if start {
		lead := true // only repeated points so far
		for k := 0; k < o.si; k++ {
			lead = lead && w.seg(o.ri, o.ti, k).RL == 0
		}
		if lead {
			want = append(want, math.Min(1, s.L))
		}
	}
	var off float64
	ok := false
	for _, d := range want {
		q := sphAlong(s.A, s.B, d)
		if off = sphDist(q, o.p); finite(off) && off <= 2e-3 {
			ok = true
		}
	}
	if !ok || !validCoord(o.p) {
		c.Fail("on-segment", "reported position (%.9f,%.9f) is %.4f m away from the point %v m along the current segment (%v)-(%v) of %.3f m: %v -> %v",
			o.p.Lat, o.p.Lon, off, want, s.A, s.B, s.L, pre, o)
	}
	w.checkBearing(o, s)
}

func (w *world) checkBearing(o obs, s *mSeg) {
	if s.L < 0.01 {
		return
	}
	br := sphBearing(s.A, s.B)
	tol := 1e-5 + 1e-5/s.L
	if !finite(o.br) || angDiff(br, o.br) > tol || o.br < 0 || o.br > 360 {
		w.c.Fail("bearing", "reported bearing %v, segment (%v)-(%v) starts at bearing %v: %v", o.br, s.A, s.B, br, o)
	}
}

// checkStatePlace compares the published state's idea of the place with the model.
func (w *world) checkStatePlace(o obs, st *pb.Device) {
	c := w.c
	nv, di, lo := st.GetNavigator(), st.GetDistance(), st.GetLocation()
	if int(nv.GetCurrentRouteIndex()) != o.ri || int(nv.GetCurrentTrackIndex()) != o.ti || int(nv.GetCurrentSegmentIndex()) != o.si {
		c.Fail("state-place", "published indices r%d t%d s%d, tracker %v", nv.GetCurrentRouteIndex(), nv.GetCurrentTrackIndex(), nv.GetCurrentSegmentIndex(), o)
	}
	if nv.GetCurrentRouteId() != w.routes[o.ri].id || nv.GetCurrentTrackId() != w.track(o.ri, o.ti).id {
		c.Fail("state-place", "published identifiers do not belong to the published indices: %v", o)
	}
	if lo.GetLat() != o.p.Lat || lo.GetLon() != o.p.Lon || lo.GetBearing() != o.br || di.GetCurrentSegmentDistance() != o.csd {
		c.Fail("state-place", "published place (%v,%v) bearing %v at %v m, tracker %v", lo.GetLat(), lo.GetLon(), lo.GetBearing(), di.GetCurrentSegmentDistance(), o)
	}
}

// ---------------------------------------------------------------- N02: odometers

func (w *world) checkOdo(pre, o obs, moved, counted bool, nd float64, outs []outcome, st *pb.Device) {
	c := w.c
	eq := func(name string, got, want float64) {
		if !near(got, want, 1e-7, 1e-9) {
			c.Fail("odometer", "%s odometer is %.9f, expected %.9f after a step of %.9f m (moved=%v): %v -> %v", name, got, want, nd, moved, pre, o)
		}
	}
	cd0 := pre.cd
	if moved {
		eq("total", o.cd, cd0+nd)
		if o.ri != pre.ri || o.ti != pre.ti {
			c.Fail("odometer", "a moving step changed track: %v -> %v", pre, o)
		}
		eq("route", o.crd, pre.crd+nd)
		eq("track", o.ctd, pre.ctd+nd)
		if o.si == pre.si {
			eq("segment", o.csd, pre.csd+nd)
		} else {
			eq("segment", o.csd, nd)
		}
	} else if counted || len(w.routes) == 0 {
		if o.cd != pre.cd || o.crd != pre.crd || o.ctd != pre.ctd || o.csd != pre.csd {
			c.Fail("odometer", "a step that only waits changed an odometer: %v -> %v", pre, o)
		}
	} else {
		e := outs[len(outs)-1] // the end of the track
		lap := e.lap
		if o.ri == e.ri && o.ti == e.ti {
			if lap {
				if !(o.cd == 0 || o.cd == 0.1) {
					c.Fail("odometer", "total odometer %v after the end of a lap: %v -> %v", o.cd, pre, o)
				}
			} else if o.cd != pre.cd {
				c.Fail("odometer", "a step that did not move changed the total odometer: %v -> %v", pre, o)
			}
			if o.csd != 0 || o.ctd != 0 {
				c.Fail("odometer", "track or segment odometer does not restart at the end of the track: %v -> %v", pre, o)
			}
			want := pre.crd
			if e.routeEnd {
				want = 0
			}
			if o.crd != want {
				c.Fail("odometer", "route odometer %v after the end of a track, expected %v: %v -> %v", o.crd, want, pre, o)
			}
		} else if o.cd != pre.cd {
			c.Fail("odometer", "a step that did not move changed the total odometer: %v -> %v", pre, o)
		}
	}
	if st != nil && moved {
		di := st.GetDistance()
		if di.GetCurrentDistance() != o.cd || di.GetCurrentRouteDistance() != o.crd ||
			di.GetCurrentTrackDistance() != o.ctd || di.GetCurrentSegmentDistance() != o.csd {
			c.Fail("odometer", "published odometers %v differ from the tracker's %v", di, o)
		}
	}
}

// ---------------------------------------------------------------- a step

// step advances the navigator or device and judges the aspects of mask.
func (w *world) step(mask aspect) {
	c := w.c
	pre := w.observe()
	var (
		moved  bool
		nd     float64
		st     *pb.Device
		finish bool
		tick   float64
		// nobody asked for the finish after this step
		unasked bool
	)
	want := w.stepSize(pre)
	lowBattery, maybeLow := false, false
	if w.nav != nil {
		speed := pick(c, 1.0, want, 0.5, 3.7)
		tick = 1
		if speed > 0 {
			tick = want / speed
		}
		if speed == 1 {
			tick = want
		}
		nd = tick * speed
		moved = w.nav.NextLocation(tick, speed)
		if mask&aLap == 0 || c.Chance(0.9) {
			finish = w.nav.IsFinish()
		} else {
			finish = false
			unasked = true
		}
	} else {
		tick = 1.0
		if c.Chance(0.8) {
			v := w.speed
			if v == 0 {
				v = math.Max(w.dev.State().GetSpeed(), 0.5)
			}
			tick = want / v
			if w.speed != 0 && want == 0 {
				tick = 0
			}
		}
		rest := tick
		if pre.n > 0 && tick < 1e6 && c.Chance(0.2) {
			// part of the time arrives while the tracker is busy and is carried over
			busy := math.Floor(tick*c.Float64()*512) / 512
			if rest = tick - busy; rest < 0 {
				rest = 0
			}
			w.dev.EachRoute(func(int, *navigator.Route) bool { w.dev.Next(busy); return false })
			tick = busy + rest
			c.Count("steps_carried_over", 1)
		}
		moved = w.dev.Next(rest)
		st = w.dev.State()
		v := st.GetSpeed()
		if w.speed != 0 && v != w.speed && pre.n > 0 {
			if mask&aOdo != 0 {
				c.Fail("odometer", "constant speed %v reported as %v", w.speed, v)
			}
		}
		nd = tick * v
		if pre.n > 0 {
			used := pre.used + tick
			val := pre.bmax
			if used != 0 {
				val = pre.bmax - used/pre.bct*100
			}
			lowBattery = val <= pre.bmin
			maybeLow = math.Abs(val-pre.bmin) < 1e-6
		}
	}
	o := w.observe()
	c.Logf("step nd=%.9f moved=%v: %v", nd, moved, o)
	c.Count("steps", 1)

	// offline or not
	off := pre.off
	counted := !w.skip && off > 0 && pre.n > 0
	if lowBattery && !maybeLow && !w.skip {
		c.Count("batteries_run_out", 1)
		counted = o.off+1 >= 1 && !moved && samePlace(pre, o) && o.off >= 0
		// drawn anew, then counted down by this very step, unless zero was drawn
		if mask&aOff != 0 {
			drawn := o.off + 1
			if moved || !samePlace(pre, o) {
				drawn = 0
				if o.off > 0 && moved {
					c.Fail("offline", "a tracker whose battery ran out moved although it is offline: %v -> %v", pre, o)
				}
			}
			if !moved && samePlace(pre, o) && (drawn < w.offMin || drawn > w.offMax) {
				c.Fail("offline", "battery ran out and %d offline steps were drawn, configured range %d..%d: %v -> %v", drawn, w.offMin, w.offMax, pre, o)
			}
			if drawn == 0 && w.offMin > 0 {
				c.Fail("offline", "battery ran out but the tracker did not go offline (range %d..%d): %v -> %v", w.offMin, w.offMax, pre, o)
			}
		}
		if mask&(aSeq|aOdo|aLap) != 0 {
			if !samePlace(pre, o) && o.off > 0 && !moved {
				return // went offline again at the end of the track in the same step
			}
			if mask == aLap && counted && w.offMin == 0 {
				return // drew no offline steps and ended a lap in place, or waits
			}
		}
	}
	if maybeLow {
		return
	}

	var outs []outcome
	if counted {
		outs = []outcome{{countdown: true, ri: pre.ri, ti: pre.ti, si: pre.si, csd: pre.csd}}
	} else {
		outs = w.expect(pre, nd)
	}
	e := match(outs, o, moved)
	if mask&aSeq != 0 {
		if e == nil {
			c.Fail("sequence", "step of %.9f m went to r%d t%d s%d (moved=%v), expected %s: %v -> %v", nd, o.ri, o.ti, o.si, moved, descr(outs), pre, o)
		}
		if e.trackEnd && o.csd != 0 {
			c.Fail("sequence", "a track was entered %v m behind its start: %v -> %v", o.csd, pre, o)
		}
		if !e.moved && !e.trackEnd && !samePlace(pre, o) && pre.n > 0 {
			c.Fail("sequence", "a waiting step changed the place: %v -> %v", pre, o)
		}
	}
	if e != nil {
		switch {
		case e.lap:
			c.Count("lap_ends", 1)
		case e.routeEnd:
			c.Count("route_ends", 1)
		case e.trackEnd:
			c.Count("track_ends", 1)
		case e.countdown:
			c.Count("offline_steps", 1)
		case e.moved && e.si > pre.si+1:
			c.Count("steps_over_segments", 1)
		case e.moved && e.si > pre.si:
			c.Count("segment_changes", 1)
		case e.moved:
			c.Count("steps_within_segment", 1)
		}
	}
	if mask&aPos != 0 {
		w.checkPlace(o)
		if moved {
			w.checkOnSegment(pre, o)
			if st != nil {
				w.checkStatePlace(o, st)
			}
		}
	}
	if mask&aOdo != 0 {
		w.checkOdo(pre, o, moved, counted, nd, outs, st)
	}
	if mask&aOff != 0 {
		w.checkOffline(pre, o, moved, counted, lowBattery, e, st)
	}
	if unasked {
		w.pending = w.pending || e == nil || e.lap
	} else if w.pending && w.nav != nil {
		// a finish nobody asked for in time may be reported now or later
		w.pending = !finish && e != nil && !e.lap
		if e == nil || !e.lap {
			return
		}
	}
	if mask&aLap != 0 && !unasked {
		w.checkLap(pre, o, moved, finish, e, tick, st)
	}
}

func samePlace(a, b obs) bool {
	return a.ri == b.ri && a.ti == b.ti && a.si == b.si && a.csd == b.csd && a.ctd == b.ctd && a.crd == b.crd && a.cd == b.cd && a.p == b.p
}

func descr(outs []outcome) string {
	s := ""
	for i, e := range outs {
		if i > 0 {
			s += " or "
		}
		s += fmt.Sprintf("r%d t%d s%d (moved=%v)", e.ri, e.ti, e.si, e.moved)
	}
	return s
}

// ---------------------------------------------------------------- N07: offline

func (w *world) inRange(n int) bool { return n >= w.offMin && n <= w.offMax }

func (w *world) checkOffline(pre, o obs, moved, counted, low bool, e *outcome, st *pb.Device) {
	c := w.c
	if o.isOff != (o.off > 0) {
		c.Fail("offline", "IsOffline is %v with %d offline steps left: %v", o.isOff, o.off, o)
	}
	if w.skip {
		if o.off != 0 || o.isOff {
			c.Fail("offline", "a tracker that skips offline mode is offline: %v", o)
		}
		if st != nil && (st.GetIsOffline() || st.GetOfflineDuration() != 0) {
			c.Fail("offline", "a tracker that skips offline mode is published as offline")
		}
		return
	}
	if st != nil && pre.n > 0 && (st.GetIsOffline() != o.isOff || int(st.GetOfflineDuration()) != o.off) {
		c.Fail("offline", "published offline status %v/%d differs from the tracker's %v/%d", st.GetIsOffline(), st.GetOfflineDuration(), o.isOff, o.off)
	}
	switch {
	case low:
	case counted:
		if moved {
			c.Fail("offline", "an offline tracker moved: %v -> %v", pre, o)
		}
		if o.off != pre.off-1 {
			c.Fail("offline", "an offline step changed the remaining steps from %d to %d", pre.off, o.off)
		}
		if !samePlace(pre, o) {
			c.Fail("offline", "an offline step changed place or odometers: %v -> %v", pre, o)
		}
	case moved:
		if o.off != 0 {
			c.Fail("offline", "a moving tracker went offline: %v -> %v", pre, o)
		}
	case pre.n == 0:
		if o.off != pre.off {
			c.Fail("offline", "a step without routes changed the offline status: %v -> %v", pre, o)
		}
	case e != nil && e.trackEnd:
		if !w.inRange(o.off) {
			c.Fail("offline", "%d offline steps at the end of a track, configured range %d..%d: %v -> %v", o.off, w.offMin, w.offMax, pre, o)
		}
		c.Count("offline_periods", 1)
		c.Distinct("offline_lengths", fmt.Sprint(o.off))
	default:
		if o.off != 0 && samePlace(pre, o) {
			c.Fail("offline", "the tracker went offline in the middle of a track: %v -> %v", pre, o)
		}
	}
}

// ---------------------------------------------------------------- N08: laps

func (w *world) checkLap(pre, o obs, moved, finish bool, e *outcome, tick float64, st *pb.Device) {
	c := w.c
	lap := e != nil && e.lap && !moved
	if e == nil {
		// an unexpected transition: the finish must still coincide with the return to the start
		lap = !moved && o.ri == 0 && o.ti == 0 && o.si == 0 && (pre.ri != 0 || pre.ti != 0 || pre.si != 0)
	}
	if w.nav != nil {
		if finish != lap {
			c.Fail("lap", "finish reported %v, lap ended %v: %v -> %v", finish, lap, pre, o)
		}
		if finish {
			again := w.nav.IsFinish()
			if again {
				c.Fail("lap", "the same finish is reported twice: %v", o)
			}
		}
	} else if pre.n > 0 {
		restarted := o.dur == 0 && (tick > 0 || lap)
		if lap != restarted {
			c.Fail("lap", "lap ended %v, lap duration went from %v to %v with a step of %v s: %v -> %v", lap, pre.dur, o.dur, tick, pre, o)
		}
		if !lap && !near(o.dur, pre.dur+tick, 1e-9, 1e-12) {
			c.Fail("lap", "lap duration went from %v to %v with a step of %v s", pre.dur, o.dur, tick)
		}
		if w.dev.IsFinish() {
			c.Fail("lap", "the tracker reports a finish it has already handled: %v", o)
		}
	}
	if lap {
		if o.ri != 0 || o.ti != 0 || o.si != 0 || o.cd != 0 || o.crd != 0 || o.ctd != 0 || o.csd != 0 {
			c.Fail("lap", "after the end of the lap the tracker is not back at the beginning: %v -> %v", pre, o)
		}
		if st != nil {
			di, nv := st.GetDistance(), st.GetNavigator()
			if st.GetDuration() != 0 || di.GetCurrentDistance() != 0 || di.GetCurrentRouteDistance() != 0 ||
				di.GetCurrentTrackDistance() != 0 || di.GetCurrentSegmentDistance() != 0 ||
				nv.GetCurrentRouteIndex() != 0 || nv.GetCurrentTrackIndex() != 0 || nv.GetCurrentSegmentIndex() != 0 {
				c.Fail("lap", "the state published at the end of the lap is not that of a fresh lap: %v %v", di, nv)
			}
		}
	}
}

// ---------------------------------------------------------------- N06: explicit moves

type moveReq struct {
	what       string
	ok         bool
	ri, ti, si int
}

// target decides what a request for an element has to do.
func (w *world) target(o obs, ri, ti, si int) bool {
	if w.seg(ri, ti, si) == nil {
		return false
	}
	return !(ri == o.ri && ti == o.ti && si == o.si)
}

func (w *world) move(mask aspect) {
	c := w.c
	pre := w.observe()
	idx := func(n int) int {
		switch c.IntN(8) {
		case 0:
			return -1
		case 1:
			return n
		case 2:
			return n + c.Int(1, 100)
		case 3:
			return pick(c, math.MinInt, math.MaxInt, -7)
		default:
			if n <= 0 {
				return 0
			}
			return c.IntN(n)
		}
	}
	ri := idx(len(w.routes))
	var nt, ns int
	if r := w.route(ri); r != nil {
		nt = len(r.tracks)
	}
	ti := idx(nt)
	if t := w.track(ri, ti); t != nil {
		ns = len(t.segs)
	}
	si := idx(ns)
	if c.Chance(0.15) { // vary one level of the current element only
		ri, ti, si = pre.ri, pre.ti, pre.si
		switch c.IntN(3) {
		case 0:
			si = idx(len(segsOf(w.track(ri, ti))))
		case 1:
			if r := w.route(ri); r != nil {
				ti = idx(len(r.tracks))
			}
		}
	}
	rid, tid := c.someID(w, ri, ti)
	var got bool
	req := moveReq{ri: ri, ti: ti, si: si}
	find := func(id string) int {
		for i, r := range w.routes {
			if r.id == id && id != "" {
				return i
			}
		}
		return -1
	}
	switch c.IntN(8) {
	case 0:
		req.what = fmt.Sprintf("MoveToRoute(%d)", ri)
		req.ti, req.si = 0, 0
		got = w.n.MoveToRoute(ri)
	case 1:
		req.what = fmt.Sprintf("MoveToTrack(%d,%d)", ri, ti)
		req.si = 0
		got = w.n.MoveToTrack(ri, ti)
	case 2:
		req.what = fmt.Sprintf("MoveToRouteByID(%q)", rid)
		req.ri, req.ti, req.si = find(rid), 0, 0
		got = w.n.MoveToRouteByID(rid)
	case 3:
		req.what = fmt.Sprintf("MoveToTrackByID(%q,%q)", rid, tid)
		req.ri, req.ti, req.si = find(rid), -1, 0
		if r := w.route(req.ri); r != nil {
			for i, t := range r.tracks {
				if t.id == tid {
					req.ti = i
					break
				}
			}
		}
		got = w.n.MoveToTrackByID(rid, tid)
	case 4:
		req.what = "next route"
		req.ri, req.ti, req.si = pre.ri+1, 0, 0
		if w.nav != nil {
			got = w.nav.NextRoute()
		} else {
			got = w.dev.ToNextRoute()
		}
	case 5:
		req.what = "previous route"
		req.ri, req.ti, req.si = pre.ri-1, 0, 0
		if w.nav != nil {
			got = w.nav.PrevRoute()
		} else {
			got = w.dev.ToPrevRoute()
		}
	default:
		req.what = fmt.Sprintf("MoveToSegment(%d,%d,%d)", ri, ti, si)
		got = w.n.MoveToSegment(ri, ti, si)
	}
	req.ok = w.target(pre, req.ri, req.ti, req.si)
	o := w.observe()
	c.Logf("%s = %v: %v", req.what, got, o)
	c.Count("moves", 1)
	if mask&aMove == 0 {
		return
	}
	if got != req.ok {
		c.Fail("move", "%s returned %v, the target (r%d t%d s%d) %s: %v -> %v", req.what, got, req.ri, req.ti, req.si,
			map[bool]string{true: "exists and differs from the current element", false: "does not exist or is the current element"}[req.ok], pre, o)
	}
	if !got {
		c.Count("moves_refused", 1)
		if !samePlace(pre, o) || pre.off != o.off || pre.br != o.br || pre.isOff != o.isOff {
			c.Fail("move", "%s was refused but changed the tracker: %v -> %v", req.what, pre, o)
		}
		return
	}
	c.Count("moves_done", 1)
	s := w.seg(req.ri, req.ti, req.si)
	if o.ri != req.ri || o.ti != req.ti || o.si != req.si {
		c.Fail("move", "%s went to %v", req.what, o)
	}
	if o.p != s.A {
		c.Fail("move", "%s placed the tracker at %v, the segment starts at %v: %v", req.what, o.p, s.A, o)
	}
	if o.off != 0 || o.isOff {
		c.Fail("move", "%s left the tracker offline: %v", req.what, o)
	}
	csd, ctd, crd := pre.csd, pre.ctd, pre.crd
	kind := "segment"
	switch {
	case req.ri != pre.ri:
		csd, ctd, crd, kind = 0, 0, 0, "route"
	case req.ti != pre.ti:
		csd, ctd, kind = 0, 0, "track"
	case req.si != pre.si:
		csd = 0
	}
	c.Distinct("move_kinds", kind+req.what[:6])
	if o.csd != csd || o.ctd != ctd || o.crd != crd || o.cd != pre.cd {
		c.Fail("move", "%s (another %s) left the odometers at %v, before %v", req.what, kind, o, pre)
	}
	if s.RL > 0 {
		w.checkBearing(o, s)
	}
	w.checkPlace(o)
}

func segsOf(t *mTrack) []mSeg {
	if t == nil {
		return nil
	}
	return t.segs
}

// someID draws identifiers: of the given element, of another one, unknown, empty, too long.
func (c *C) someID(w *world, ri, ti int) (string, string) {
	rid, tid := "", ""
	if r := w.route(ri); r != nil {
		rid = r.id
		if t := w.track(ri, ti); t != nil {
			tid = t.id
		}
	}
	bad := func(s string) string {
		switch c.IntN(12) {
		case 0:
			return ""
		case 1:
			return "no-such-element"
		case 2:
			return s + "0123456789012345678901234567890123456789"
		case 3:
			if len(w.routes) > 0 {
				r := w.routes[c.IntN(len(w.routes))]
				if len(r.tracks) > 0 && c.Chance(0.5) {
					return r.tracks[c.IntN(len(r.tracks))].id
				}
				return r.id
			}
		}
		return s
	}
	return bad(rid), bad(tid)
}

// ---------------------------------------------------------------- N05: jumps

func (w *world) jump(judge bool) {
	c := w.c
	pre := w.observe()
	total := w.total()
	var m float64
	switch c.IntN(10) {
	case 0:
		m = pick(c, 0, 0.5, 0.999999, -1, -1e9, math.NaN(), math.Inf(-1))
	case 1:
		m = pick(c, 1.0, total, total+1, total*2, 1e12, math.Inf(1), math.Nextafter(total, math.Inf(1)))
	case 2, 3: // at and around an element boundary
		if len(w.routes) > 0 {
			stop := c.IntN(len(w.routes))
			for i := 0; i < stop; i++ {
				m += w.routes[i].L()
			}
			r := w.routes[stop]
			if len(r.tracks) > 0 {
				k := c.IntN(len(r.tracks) + 1)
				for i := 0; i < k; i++ {
					m += r.tracks[i].L()
				}
				if k < len(r.tracks) && c.Chance(0.5) {
					for i := 0; i < c.Int(0, len(r.tracks[k].segs)); i++ {
						m += r.tracks[k].segs[min(i, len(r.tracks[k].segs)-1)].RL
					}
				}
			}
			m += pick(c, 0, 0, 1e-3, -1e-3, 0.5)
		}
	default:
		m = c.Range(0, total*1.02)
	}
	got := w.n.DestinationTo(m)
	o := w.observe()
	c.Logf("DestinationTo(%v) = %v (total %v): %v", m, got, total, o)
	c.Count("jumps", 1)
	if !judge {
		return
	}
	d := m
	if d > total {
		d = total
	}
	want := d >= 1 && len(w.routes) > 0
	if math.Abs(d-1) < 1e-9*math.Max(1, total) && m != 1 {
		want = got // a total within rounding of one metre
	}
	if got != want {
		c.Fail("jump", "jump to %v m of %v m returned %v: %v", m, total, got, pre)
	}
	if !got {
		c.Count("jumps_refused", 1)
		if !samePlace(pre, o) || pre.off != o.off || pre.br != o.br {
			c.Fail("jump", "a refused jump to %v m changed the tracker: %v -> %v", m, pre, o)
		}
		return
	}
	s := w.seg(o.ri, o.ti, o.si)
	if s == nil || s.RL == 0 {
		c.Fail("jump", "jump to %v m led to an element without length: %v", m, o)
	}
	tol := 1e-6 + 1e-9*total
	before := 0.0
	for i := 0; i < o.ri; i++ {
		before += w.routes[i].L()
	}
	inRoute := 0.0
	for i := 0; i < o.ti; i++ {
		inRoute += w.routes[o.ri].tracks[i].L()
	}
	inTrack := 0.0
	for i := 0; i < o.si; i++ {
		inTrack += w.track(o.ri, o.ti).segs[i].RL
	}
	bad := func(what string, got, want float64) {
		if !near(got, want, tol, 0) {
			c.Fail("jump", "jump to %v m (of %v): %s is %.9f, expected %.9f: %v", m, total, what, got, want, o)
		}
	}
	bad("total odometer", o.cd, d)
	bad("distance of the reached place from the beginning", before+inRoute+inTrack+o.csd, d)
	bad("route odometer", o.crd, inRoute+inTrack+o.csd)
	bad("track odometer", o.ctd, inTrack+o.csd)
	if o.csd < -tol || o.csd > s.L+tol {
		c.Fail("jump", "jump to %v m: segment odometer %v outside the segment of %v m: %v", m, o.csd, s.L, o)
	}
	q := sphAlong(s.A, s.B, o.csd)
	if x := sphDist(q, o.p); !finite(x) || x > 2e-3 {
		c.Fail("jump", "jump to %v m: position (%v,%v) is %v m away from the point %v m into the segment: %v", m, o.p.Lat, o.p.Lon, x, o.csd, o)
	}
	if o.off != pre.off {
		c.Fail("jump", "a jump changed the offline status: %v -> %v", pre, o)
	}
	w.checkBearing(o, s)
	c.Distinct("jump_places", fmt.Sprintf("%s/%d/%d/%d", fpRoutes(w.routes), o.ri, o.ti, o.si))
}

// ---------------------------------------------------------------- edits

// edit changes the routes or tracks through the tracker, and the monitor's picture with it.
func (w *world) edit(mask aspect) {
	c := w.c
	pre := w.observe()
	what := ""
	changed := false
	switch k := c.IntN(6); {
	case k <= 1 && len(w.routes) < 6:
		r := c.newRoute(3, w.maxSeg)
		rs := []*navigator.Route{r.r}
		add := []*mRoute{r}
		if c.Chance(0.3) {
			r2 := c.newRoute(2, w.maxSeg)
			rs, add = append(rs, r2.r, nil), append(add, r2)
		}
		if c.Chance(0.2) && len(w.routes) > 0 {
			rs = append(rs, w.routes[0].r)
		}
		what = fmt.Sprintf("AddRoute of %d", len(add))
		if err := w.n.AddRoute(rs...); err != nil {
			c.Fail("edit", "AddRoute = %v", err)
		}
		w.routes = append(w.routes, add...)
		changed = true
	case k == 2:
		i := 0
		if len(w.routes) > 0 {
			i = c.IntN(len(w.routes))
		}
		id, _ := c.someID(w, i, 0)
		what = "RemoveRoute " + id
		got := w.n.RemoveRoute(id)
		want := false
		for i, r := range w.routes {
			if r.id == id && id != "" {
				w.routes = append(append([]*mRoute(nil), w.routes[:i]...), w.routes[i+1:]...)
				want = true
				break
			}
		}
		if got != want && mask&aEdit != 0 {
			c.Fail("edit", "%s returned %v", what, got)
		}
		changed = want
	case k == 3 && c.Chance(0.3):
		what = "ResetRoutes"
		got := w.n.ResetRoutes()
		if got != (len(w.routes) > 0) && mask&aEdit != 0 {
			c.Fail("edit", "ResetRoutes returned %v with %d routes", got, len(w.routes))
		}
		changed = len(w.routes) > 0
		w.routes = nil
	case k == 5 && c.Chance(0.3):
		what = "Reset"
		if w.nav != nil {
			w.nav.Reset()
		} else {
			w.dev.ResetNavigator()
		}
		changed = true
	default:
		ri, ti := 0, 0
		if len(w.routes) > 0 {
			ri = c.IntN(len(w.routes))
			if n := len(w.routes[ri].tracks); n > 0 {
				ti = c.IntN(n)
			}
		}
		rid, tid := c.someID(w, ri, ti)
		what = "RemoveTrack " + rid + " " + tid
		got := w.n.RemoveTrack(rid, tid)
		want := false
		for _, r := range w.routes {
			if r.id != rid || rid == "" {
				continue
			}
			for i, t := range r.tracks {
				if t.id == tid && tid != "" {
					r.tracks = append(append([]*mTrack(nil), r.tracks[:i]...), r.tracks[i+1:]...)
					want = true
					break
				}
			}
			break
		}
		if got != want && mask&aEdit != 0 {
			c.Fail("edit", "%s returned %v", what, got)
		}
		changed = want
	}
	o := w.observe()
	c.Logf("%s: %v", what, o)
	c.Count("edits", 1)
	if mask&aEdit == 0 {
		return
	}
	if changed {
		c.Count("edits_effective", 1)
		if o.ri != 0 || o.ti != 0 || o.si != 0 || o.cd != 0 || o.crd != 0 || o.ctd != 0 || o.csd != 0 {
			c.Fail("edit", "%s did not put the tracker back to the start: %v -> %v", what, pre, o)
		}
	} else if !samePlace(pre, o) || o.off != pre.off {
		c.Fail("edit", "%s changed nothing but the place of the tracker: %v -> %v", what, pre, o)
	}
	w.checkSums()
	w.checkPlace(o)
}

// checkSums: every length is the sum of the lengths below it.
func (w *world) checkSums() {
	c := w.c
	total := 0.0
	if w.n.NumRoutes() != len(w.routes) {
		c.Fail("sums", "%d routes, expected %d", w.n.NumRoutes(), len(w.routes))
	}
	for i, r := range w.routes {
		if w.n.RouteAt(i) != r.r {
			c.Fail("sums", "route %d is not the expected one", i)
		}
		checkRouteSums(c, r)
		for _, t := range r.tracks {
			for _, s := range t.segs {
				total += s.L
			}
		}
	}
	if !near(w.n.Distance(), total, 1e-6, 1e-9) {
		c.Fail("sums", "total distance %.9f, the routes add up to %.9f", w.n.Distance(), total)
	}
	o := w.observe()
	if r := w.route(o.ri); r != nil {
		if o.rdist != r.r.Distance() {
			c.Fail("sums", "distance of the current route %v, route %v", o.rdist, r.r.Distance())
		}
		if t := w.track(o.ri, o.ti); t != nil && o.tdist != t.t.Distance() {
			c.Fail("sums", "distance of the current track %v, track %v", o.tdist, t.t.Distance())
		}
	}
	if w.dev != nil {
		w.dev.Update()
		st := w.dev.State()
		if !near(st.GetDistance().GetDistance(), total, 1e-6, 1e-9) {
			c.Fail("sums", "published total distance %v, the routes add up to %v", st.GetDistance().GetDistance(), total)
		}
		for i, r := range st.GetRoutes().GetRoutes() {
			if i < len(w.routes) && r.GetDistance() != w.routes[i].r.Distance() {
				c.Fail("sums", "published distance %v of route %d, route has %v", r.GetDistance(), i, w.routes[i].r.Distance())
			}
		}
	}
	c.Count("sum_checks", 1)
}

func checkRouteSums(c *C, r *mRoute) {
	rl := 0.0
	if r.r.NumTracks() != len(r.tracks) {
		c.Fail("sums", "route has %d tracks, expected %d", r.r.NumTracks(), len(r.tracks))
	}
	for j, t := range r.tracks {
		if r.r.TrackAt(j) != t.t {
			c.Fail("sums", "track %d is not the expected one", j)
		}
		tl := 0.0
		if t.t.NumSegments() != len(t.segs) {
			c.Fail("sums", "track has %d segments, expected %d", t.t.NumSegments(), len(t.segs))
		}
		for k := range t.segs {
			s := &t.segs[k]
			g := t.t.SegmentAt(k)
			if g.PointA() != s.A || g.PointB() != s.B {
				c.Fail("sums", "segment %d joins other points", k)
			}
			if !near(g.Distance(), s.L, 1e-6, 1e-9) {
				c.Fail("sums", "segment (%v)-(%v) has length %.9f, great circle %.9f", s.A, s.B, g.Distance(), s.L)
			}
			tl += s.L
		}
		if !near(t.t.Distance(), tl, 1e-6, 1e-9) {
			c.Fail("sums", "track of %d segments has length %.9f, its segments add up to %.9f", len(t.segs), t.t.Distance(), tl)
		}
		rl += tl
	}
	if !near(r.r.Distance(), rl, 1e-6, 1e-9) {
		c.Fail("sums", "route of %d tracks has length %.9f, its tracks add up to %.9f", len(r.tracks), r.r.Distance(), rl)
	}
}

// goOffline requests an offline period.
func (w *world) goOffline(mask aspect) {
	c := w.c
	pre := w.observe()
	w.n.ToOffline()
	o := w.observe()
	c.Logf("ToOffline: %v", o)
	c.Count("offline_requests", 1)
	if mask&aOff == 0 {
		return
	}
	if !samePlace(pre, o) {
		c.Fail("offline", "going offline changed the place: %v -> %v", pre, o)
	}
	if w.skip {
		if o.off != 0 || o.isOff {
			c.Fail("offline", "a tracker that skips offline mode went offline: %v", o)
		}
		return
	}
	if !w.inRange(o.off) {
		c.Fail("offline", "%d offline steps on request, configured range %d..%d", o.off, w.offMin, w.offMax)
	}
	if o.isOff != (o.off > 0) {
		c.Fail("offline", "IsOffline is %v with %d steps left", o.isOff, o.off)
	}
	c.Distinct("offline_lengths", fmt.Sprint(o.off))
}
