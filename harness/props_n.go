package main

import "math"

const walkRule = "case = a navigator or tracker over 1-3 (or edited) random routes (any hemisphere, antimeridian, equator, repeated points, closed, 5 cm to 5000 km segments, empty routes), driven 40-400 operations: steps sized relative to the rest of the segment, with moves, jumps, edits and offline requests mixed in; the oracle predicts every transition from the observed pre-state. Non-trivial: distinct (route shape, kinds of transitions seen) with at least one moved step"

type mix struct {
	moves, jumps, edits, offs float64
	maxSteps                  int
}

func (w *world) walk(mask aspect, m mix) {
	c := w.c
	n := c.Int(40, m.maxSteps)
	big := 0
	for i := 0; i < n; i++ {
		// do not sit out very long offline periods
		if !w.skip && i%16 == 15 {
			if o := w.observe(); o.off > 200 {
				big++
				if big > 2 {
					break
				}
				if w.dev != nil {
					w.n.MoveToSegment(0, 0, 0)
				}
			}
		}
		x := c.Float64()
		if mask&aOff != 0 && x < m.moves+m.jumps+m.edits {
			// nobody asks for an offline period here: there is none, or the running one is not prolonged
			pre := w.observe()
			unasked := func(what string) {
				if o := w.observe(); o.off > pre.off {
					c.Fail("offline", "%s left %d offline steps where %d were left before: %v -> %v", what, o.off, pre.off, pre, o)
				}
				if pre.off > 0 {
					c.Count("changes_while_offline", 1)
				}
			}
			switch {
			case x < m.moves:
				w.move(mask)
				unasked("a move")
			case x < m.moves+m.jumps:
				w.jump(false)
				unasked("a jump")
			default:
				w.edit(mask)
				unasked("an edit of the routes")
			}
			continue
		}
		switch {
		case x < m.moves:
			w.move(mask)
		case x < m.moves+m.jumps:
			w.jump(false)
		case x < m.moves+m.jumps+m.edits:
			w.edit(mask)
		case x < m.moves+m.jumps+m.edits+m.offs:
			w.goOffline(mask)
		default:
			w.step(mask)
		}
	}
	c.NonTrivial("%s skip=%v dev=%v", fpRoutes(w.routes), w.skip, w.dev != nil)
	c.Sample("%s over %s, skip=%v offline=%d..%d, %d operations, last %v", map[bool]string{true: "tracker", false: "navigator"}[w.dev != nil],
		fpRoutes(w.routes), w.skip, w.offMin, w.offMax, n, w.observe())
}

func (c *C) walkWorld(battery bool) *world {
	o := worldOpt{device: c.Chance(0.5), varSpeed: c.Chance(0.4), battery: battery, maxRoutes: pick(c, 1, 2, 3, 4), maxTracks: pick(c, 1, 2, 3)}
	return c.newWorld(o)
}

func init() {
	must := []string{"steps", "steps_within_segment", "segment_changes", "track_ends", "route_ends", "lap_ends"}
	register(&Prop{ID: "N01", Quick: 30000, Thorough: 2000000, Rule: walkRule, MustSee: append(must, "first_steps_of_a_track"),
		Run: func(c *C) {
			w := c.walkWorld(false)
			w.walk(aPos, mix{moves: 0.03, jumps: 0.03, edits: 0.01, offs: 0.01, maxSteps: 250})
		}})
	register(&Prop{ID: "N02", Quick: 30000, Thorough: 2000000, Rule: walkRule, MustSee: append(must, "offline_steps"),
		Run: func(c *C) {
			w := c.walkWorld(c.Chance(0.3))
			w.walk(aOdo, mix{moves: 0.03, jumps: 0.03, edits: 0.01, offs: 0.02, maxSteps: 250})
		}})
	register(&Prop{ID: "N03", Quick: 30000, Thorough: 2000000, Rule: walkRule, MustSee: append(must, "steps_over_segments"),
		Run: func(c *C) {
			w := c.walkWorld(c.Chance(0.2))
			w.walk(aSeq, mix{moves: 0.02, jumps: 0.02, edits: 0.01, offs: 0.01, maxSteps: 300})
		}})
	register(&Prop{ID: "N04", Quick: 30000, Thorough: 2000000, Rule: "case = an edit history: routes and tracks added, removed and reset through a tracker or directly on routes before and after attaching, mixed with steps, moves and jumps; after every edit all lengths are recomputed by the great-circle oracle. Non-trivial: distinct shapes of the final path", MustSee: []string{"edits_effective", "sum_checks", "direct_edits"},
		Run: runN04})
	register(&Prop{ID: "N05", Quick: 30000, Thorough: 2000000, Rule: "case = a path of 1-4 routes and 25 jumps (random, at element boundaries, below one metre, beyond the total, non-finite), each followed by up to six steps judged by the step oracle. Non-trivial: distinct (path shape, element reached)", MustSee: []string{"jumps", "jumps_refused", "steps"},
		Run: func(c *C) {
			w := c.newWorld(worldOpt{device: c.Chance(0.4), maxRoutes: pick(c, 1, 2, 4), maxTracks: pick(c, 1, 2, 4), noOffline: c.Chance(0.7)})
			for i := 0; i < 25; i++ {
				w.jump(true)
				for k := c.IntN(7); k > 0; k-- {
					w.step(aPos | aOdo | aSeq)
				}
				if c.Chance(0.05) {
					w.edit(0)
				}
				if c.Chance(0.04) {
					w.growDirectly()
				}
			}
			c.NonTrivial("%s", fpRoutes(w.routes))
			c.Sample("path %s of %.1f m, last %v", fpRoutes(w.routes), w.total(), w.observe())
		}})
	register(&Prop{ID: "N06", Quick: 30000, Thorough: 2000000, Rule: walkRule + "; here four of ten operations are explicit moves to valid, current, unknown, negative, out-of-range and empty targets", MustSee: []string{"moves_done", "moves_refused"},
		Run: func(c *C) {
			w := c.walkWorld(false)
			w.walk(aMove, mix{moves: 0.4, jumps: 0.05, edits: 0.02, offs: 0.08, maxSteps: 150})
		}})
	register(&Prop{ID: "N07", Quick: 30000, Thorough: 2000000, Rule: walkRule + "; here with offline requests, batteries that run out and offline ranges from 0..1 to 3599..3600", MustSee: append(must, "offline_steps", "offline_periods", "offline_requests", "batteries_run_out", "changes_while_offline"),
		Run: func(c *C) {
			if c.Chance(0.1) {
				runOfflineSpread(c)
				return
			}
			w := c.walkWorld(true)
			w.walk(aOff, mix{moves: 0.03, jumps: 0.02, edits: 0.01, offs: 0.04, maxSteps: 300})
		}})
	register(&Prop{ID: "N08", Quick: 30000, Thorough: 2000000, Rule: walkRule + "; here over several laps, the finish being asked for after steps and at other times", MustSee: append(must, "laps_asked_elsewhere"),
		Run: func(c *C) {
			w := c.newWorld(worldOpt{device: c.Chance(0.5), varSpeed: c.Chance(0.4), battery: c.Chance(0.2), maxRoutes: pick(c, 1, 1, 2, 3), maxTracks: pick(c, 1, 1, 2)})
			n := c.Int(40, 300)
			for i := 0; i < n; i++ {
				switch x := c.Float64(); {
				case x < 0.03:
					w.move(0)
					w.noFinish("a move")
				case x < 0.05:
					w.jump(false)
					w.noFinish("a jump")
				case x < 0.06:
					w.edit(0)
					w.noFinish("an edit")
				case x < 0.08:
					w.goOffline(0)
				case x < 0.1 && w.nav != nil && w.total() > 10:
					// a place 0.1 m into the path is no finish
					w.nav.Reset()
					w.nav.NextLocation(0.1, 1)
					w.noFinish("a step of 0.1 m")
				case x < 0.14:
					w.resetLap()
				default:
					w.step(aLap)
				}
			}
			c.NonTrivial("%s skip=%v dev=%v", fpRoutes(w.routes), w.skip, w.dev != nil)
			c.Sample("laps over %s, last %v", fpRoutes(w.routes), w.observe())
		}})
}

// growDirectly adds a track to a route the tracker already holds, behind the tracker's back.
func (w *world) growDirectly() {
	c := w.c
	if len(w.routes) == 0 {
		return
	}
	r := w.routes[c.IntN(len(w.routes))]
	if len(r.tracks) == 0 || r.L() == 0 {
		return
	}
	t := c.newTrack(w.maxSeg)
	r.r.AddTrack(t.t)
	r.tracks = append(r.tracks, t)
	c.Count("direct_edits", 1)
}

// resetLap: a reset returns the tracker to the beginning, and is no finish.
func (w *world) resetLap() {
	c := w.c
	pre := w.observe()
	if w.nav != nil {
		w.nav.Reset()
	} else {
		w.dev.ResetNavigator()
	}
	o := w.observe()
	c.Logf("reset: %v", o)
	c.Count("resets", 1)
	if o.ri != 0 || o.ti != 0 || o.si != 0 || o.cd != 0 || o.crd != 0 || o.ctd != 0 || o.csd != 0 {
		c.Fail("lap", "after a reset the tracker is not at the beginning of a lap: %v -> %v", pre, o)
	}
	w.pending = false
	w.noFinish("a reset")
}

// noFinish: nothing but the end of a lap is a finish.
func (w *world) noFinish(after string) {
	w.c.Count("laps_asked_elsewhere", 1)
	var f bool
	if w.nav != nil {
		f = w.nav.IsFinish()
	} else {
		f = w.dev.IsFinish()
	}
	if w.pending {
		w.pending = !f
		return
	}
	if f {
		w.c.Fail("lap", "finish reported after %s: %v", after, w.observe())
	}
}

// runOfflineSpread: requests draw from the whole configured range.
func runOfflineSpread(c *C) {
	w := c.newWorld(worldOpt{device: c.Chance(0.5)})
	if w.skip || w.offMax-w.offMin < 4 {
		return
	}
	seen := map[int]bool{}
	for i := 0; i < 300; i++ {
		w.goOffline(aOff)
		seen[w.observe().off] = true
	}
	if len(seen) < 2 {
		c.Fail("offline", "300 requests all drew the same number of offline steps from %d..%d", w.offMin, w.offMax)
	}
	c.NonTrivial("spread %d-%d", w.offMin, w.offMax)
}

func runN04(c *C) {
	w := c.newWorld(worldOpt{device: c.Chance(0.5), maxRoutes: pick(c, 1, 2, 3), maxTracks: pick(c, 1, 2, 3)})
	w.checkSums()
	n := c.Int(20, 60)
	for i := 0; i < n; i++ {
		switch x := c.Float64(); {
		case x < 0.5:
			w.edit(aEdit)
		case x < 0.7 && len(w.routes) > 0:
			// edit a route that the tracker already holds
			r := w.routes[c.IntN(len(w.routes))]
			if c.Chance(0.6) || len(r.tracks) == 0 {
				t := c.newTrack(w.maxSeg)
				r.r.AddTrack(t.t)
				r.tracks = append(r.tracks, t)
			} else {
				i := c.IntN(len(r.tracks))
				if !r.r.RemoveTrack(r.tracks[i].id) {
					c.Fail("sums", "RemoveTrack of an existing track returned false")
				}
				r.tracks = append(append([]*mTrack(nil), r.tracks[:i]...), r.tracks[i+1:]...)
			}
			c.Count("direct_edits", 1)
			w.checkSums()
			// put the tracker back on an existing element
			if w.nav != nil {
				w.nav.Reset()
			} else {
				w.dev.ResetNavigator()
			}
		case x < 0.9:
			w.step(0)
			w.checkSums()
		default:
			w.jump(false)
			w.checkSums()
		}
	}
	// a route assembled from tracks on its own
	r := c.newRoute(4, w.maxSeg)
	checkRouteSums(c, r)
	if math.IsNaN(r.r.Distance()) {
		c.Fail("sums", "route length is not a number")
	}
	c.NonTrivial("%s", fpRoutes(w.routes))
	c.Sample("path after %d operations: %s = %.3f m", n, fpRoutes(w.routes), w.n.Distance())
}
