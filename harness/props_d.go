package main

func init() {
	register(&Prop{ID: "D01", Quick: 30000, Thorough: 1500000, Run: runD01,
		Rule:    "case = a curve, sensor, restored sensor, speed or elevation object (bounds 1e-9..1e9 wide, equal, negative, reversed; 1..512 control points; all modes) asked at normalised times incl. 0, 1 and their neighbours and shuffled; or a tracker with random sensors stepped by 1e-9..1e9 s over laps. Every value is compared with its bounds and the minimum at start/end. Non-trivial: distinct configurations",
		MustSee: []string{"object_values", "shuffles", "device_steps_moved", "laps", "starts_judged", "ends_judged"}})
	register(&Prop{ID: "D02", Quick: 30000, Thorough: 1500000, Run: runD02,
		Rule:    "case = a battery object or a tracker with a random battery (also min=max, charge time 0 and negative), stepped, moved, reset, edited and encoded; the charge is compared with an own linear model after every operation. Non-trivial: distinct (min, max, charge time, recharges)",
		MustSee: []string{"object_steps", "device_steps", "recharges", "went_offline_when_empty", "offline_steps_drained"}})
	register(&Prop{ID: "D03", Quick: 24000, Thorough: 1000000, Run: runD03,
		Rule:    "case = a tracker driven by steps, laps, moves, refreshes, label, sensor and route edits (through it and on the routes it holds), encoding and decoding; after every moved step, lap end, refresh and decoding each field of the state is compared with the tracker's getters, routes and sensors. Non-trivial: distinct operation sequences",
		MustSee: []string{"mirrored_moved", "mirrored_lap", "mirrored_refresh", "mirrored_decoded"}})
}

func init() {
	register(&Prop{ID: "D04", Quick: 200000, Thorough: 8000000, Run: runD04,
		Rule:    "case = a tracker moved to 2..23 exact points (zone, band, hemisphere, Norway/Svalbard, minute and second edges, antimeridian, poles) or driven along random routes; every published position is converted back from its DMS and UTM forms by an independent projection. Non-trivial: distinct points and routes",
		MustSee: []string{"positions_dms", "positions_utm", "positions_on_a_zone_edge", "exact_positions", "travelled_positions"}})
}

func init() {
	register(&Prop{ID: "D05", Quick: 150000, Thorough: 6000000, Run: runD05,
		Rule:    "case = one constructor (tracker, speed, battery, sensor, restored sensor, model, name, track, restored track, navigator) with values at, next to and far from every limit, and the setters of what it returns; judged by a table of limits. Non-trivial: distinct values",
		MustSee: []string{"accepted", "refused", "setter_accepted", "setter_refused", "presets"}})
}

func init() {
	register(&Prop{ID: "D06", Quick: 60000, Thorough: 2500000, Run: runD06,
		Rule:    "case = a tracker or navigator and 15..60 operations adding (new, present, missing, several at once, another object with a used identifier), removing and resetting routes, tracks and sensors, with steps in between; after each operation every way of reading each collection is compared with an ordered-set model. Non-trivial: distinct operation sequences",
		MustSee: []string{"operations", "views_compared", "adds_without_effect", "lists_kept"}})
	register(&Prop{ID: "D07", Quick: 30000, Thorough: 1200000, Run: runD07,
		Rule:    "case = a tracker or navigator and 20..100 operations: edits through it and on the routes and tracks it holds, steps (moved or not), reads of all kinds, encoding and decoding; the version is compared around each of them and the state after the next step with the routes held. Non-trivial: distinct sequences of changes",
		MustSee: []string{"changes", "reads", "steps", "direct_edits", "published_by_moved_step", "published_by_other_step"}})
}
