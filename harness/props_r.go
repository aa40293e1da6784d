package main

func init() {
	register(&Prop{ID: "R01", Quick: 40000, Thorough: 1500000, Run: runR01,
		Rule:    "random routes for places, counts and levels, the city routes, and all countries (against an own gazetteer of names and places); per point what every draw must satisfy, over many tracks what typical draws must; non-trivial: distinct kind, count, level and place",
		MustSee: []string{"random_routes", "random_tracks", "levels_compared", "city_routes", "country_positions", "unknown_codes"},
	})
	register(&Prop{ID: "R02", Quick: 300000, Thorough: 20000000, Run: runR02,
		Rule:    "20 coordinate pairs per case (any, same, tiny, near, antipodal, along meridians, poles, antimeridian) and journeys between and beyond them, judged by 3D vector geometry; non-trivial: distinct relation, place and distance class of the first pair",
		MustSee: []string{"pairs_same", "pairs_tiny", "pairs_antipode", "pairs_near_antipode", "pairs_any", "bearings", "journeys", "journeys_to_poles", "arrivals", "points_in_boxes", "points_outside_boxes"},
	})
	register(&Prop{ID: "R03", Quick: 200000, Thorough: 6000000, Run: runR03,
		Rule:    "random histories of set, merge, remove, reset and typed reads over nine bags (three free, six of routes and tracks, part of them in a stepping tracker) against Go maps; non-trivial: distinct history of operations",
		MustSee: []string{"reads", "merges", "resets"},
	})
}
