package main

func init() {
	register(&Prop{ID: "S01", Quick: 4000, Thorough: 60000, Run: runS01,
		Rule:    "a tracker with random settings, labels, routes and sensors lives through random steps, moves, edits and offline periods, is encoded and decoded, compared in every getter, state and snapshot field, and stepped in parallel with its copy; non-trivial: distinct life and place at the time of encoding",
		MustSee: []string{"round_trips", "steps_alike", "operations_alike", "track_ends_alike", "laps_alike", "recharges_alike", "random_choices_met"},
	})
	register(&Prop{ID: "S02", Quick: 20000, Thorough: 300000, Run: runS02,
		Rule:    "random lists of routes or sensors are encoded and decoded and compared element by element, the decoded ones are driven or sampled next to the originals; non-trivial: distinct list shape and size",
		MustSee: []string{"routes", "tracks", "sensors", "sensor_values", "steps_alike"},
	})
	register(&Prop{ID: "S07", Quick: 4000, Thorough: 60000, Run: runS07,
		Rule:    "a used tracker (with waiting time steps in part of the cases) is restored repeatedly from encodings of other lives and from spoiled ones; compared with a new tracker restored from the same data, or with itself before; non-trivial: distinct sequence of restores",
		MustSee: []string{"restores", "failed_restores", "steps_after_restore", "restores_with_waiting_steps", "waiting_steps_kept", "steps_alike"},
	})
	register(&Prop{ID: "S03", Quick: 40000, Thorough: 800000, Run: runS03,
		Rule:    "random lists of routes (open, closed, several tracks, without tracks, with names, colours and properties) are encoded, the GeoJSON is parsed and judged on its own, decoded and compared exactly, partly over two generations; non-trivial: distinct list shape and size",
		MustSee: []string{"routes", "tracks", "closed_tracks", "properties", "routes_without_tracks", "second_generations", "steps_alike"},
	})
	register(&Prop{ID: "S04", Quick: 40000, Thorough: 800000, Run: runS04,
		Rule:    "random lists of routes are encoded, the GPX is parsed and judged on its own, decoded and compared, partly over two generations; coordinates of the listed finding are kept out and shown separately; non-trivial: distinct list shape and size",
		MustSee: []string{"routes", "tracks", "points", "properties", "routes_without_tracks", "second_generations"},
	})
	register(&Prop{ID: "S06", Quick: 60000, Thorough: 1000000, Run: runS06,
		Rule:    "GeoJSON and GPX documents written by a generator of its own (all geometries, nesting, notations, member orders, extra members) are imported and compared with the generator's picture; spoiled ones must be refused; non-trivial: distinct document structure",
		MustSee: []string{"geojson_files", "gpx_files", "geojson_refused", "gpx_refused", "gpx_way_points", "routes", "tracks", "points"},
	})
	register(&Prop{ID: "S05", Quick: 30000, Thorough: 600000, Run: runS05,
		Rule:    "valid encodings of every format are spoiled by structure (message fields, JSON tree, XML tags), by bytes or replaced by noise and fed to the decoders; what is accepted is inspected, stepped, moved, edited, attached and encoded again under panic and endless-loop monitors; non-trivial: distinct sequence of format, corruption and outcome",
		MustSee: []string{"accepted_tracker", "accepted_sensors", "accepted_routes", "accepted_packet", "accepted_geojson", "accepted_gpx", "steps", "encoded_again", "inspections"},
	})
}
