package main

func init() {
	register(&Prop{ID: "C01", Quick: 1200, Thorough: 40000, Conc: true, Run: runC01,
		Rule:    "case = a running generator with a fleet around multiples of packet size, worker count and worker slice, 1..2000 workers, slow callbacks; every packet is decoded and the stream of reported trackers cut into rounds. Non-trivial: distinct (fleet, packet size, workers) with at least one complete round",
		MustSee: []string{"packets", "rounds", "rounds_of_several_packets", "rounds_of_full_packets", "empty_fleets"}})
	register(&Prop{ID: "C02", Quick: 700, Thorough: 40000, Conc: true, Race: true, Run: runC02,
		Rule:    "case = one of: (a) a thread that changes a tracker and notes every state, with readers whose states must be one of the noted ones of the right moment; (b) states and snapshots handed out, overwritten field by field and re-hashed after further changes; (c) packets of a running generator and states read meanwhile, judged for self-consistency and, when only the generator steps, for being the one state of that duration. All under the race detector. Non-trivial: distinct (operations, readers, states read, path shape)",
		MustSee: []string{"states_read", "states_read_during_a_change", "copies_changed", "copies_changed_while_running", "packet_entries_judged", "states_judged_while_running", "states_kept"}})
	register(&Prop{ID: "C03", Quick: 900, Thorough: 40000, Conc: true, Race: true, Run: runC03,
		Rule:    "case = 1-3 running generators and 4-1100 trackers used by 2-6 threads and by the callbacks themselves, each drawing 100-400 operations from a table that covers the public methods of generators and trackers, the constructors and the random sources, while callbacks are replaced; the race detector, crashes and blocked goroutines decide. Non-trivial: distinct (generators, trackers, threads, operations done)",
		MustSee: []string{"operations", "packets", "errors", "nexts", "op_attach", "op_detach", "op_handlers", "op_restore"}})
	register(&Prop{ID: "C04", Quick: 12000, Thorough: 300000, Conc: true, Run: runC04,
		Rule:    "case = a generator (0-2100 trackers, 1-1024 workers, fast, slow or never ticking) closed before, while and after Run starts, from inside the k-th packet, error or next callback, while callbacks run, after random times and from several threads; afterwards callbacks and goroutines are looked for. Non-trivial: distinct (place, fleet, workers, callbacks seen)",
		MustSee: []string{"callbacks", "closed before Run", "closed while Run starts", "closed in a packet callback", "closed in an error callback", "closed in a next callback", "closed while callbacks run", "closed after a random time", "closed concurrently from several threads"}})
	register(&Prop{ID: "C05", Quick: 60000, Thorough: 3000000, Conc: true, Run: runC05,
		Rule:    "case = a history of attach, detach, lookup, has, each, count and status calls by 1-6 threads on 1-3 generators sharing 1-5 trackers, running or not, ended by a full enumeration; the recorded call/return history is checked for linearizability against a sequential registry (porcupine). Non-trivial: distinct histories with their results",
		MustSee: []string{"registry_operations", "overlapping_pairs", "attached", "attach_refused", "packets_meanwhile"}})
	register(&Prop{ID: "C06", Quick: 800, Thorough: 24000, Conc: true, Run: runC06,
		Rule:    "case = a running generator whose fleet changes from inside packet callbacks and from outside; presence of every tracker in every round is compared with the rounds it was attached for. Non-trivial: distinct (fleet, numbers of changes, attach/detach rounds)",
		MustSee: []string{"rounds", "rounds_of_several_packets", "changes_inside_a_round", "changes_at_any_time"}})
	register(&Prop{ID: "C07", Quick: 1500, Thorough: 40000, Conc: true, Run: runC07,
		Rule:    "case = a running generator whose packets are learnt while all is well; then 1-3 times some trackers get text that is not UTF-8 (description, user, model, sensor name), deliveries and errors are counted over a window of rounds, and the cause is removed again; with and without error and packet handlers. Non-trivial: distinct (fleet, workers, packets per round, trackers made unencodable, handlers)",
		MustSee: []string{"errors_seen", "recoveries", "windows_with_error_count_judged", "cases_without_error_handler", "cases_with_several_packets"}})
	register(&Prop{ID: "C08", Quick: 3000, Thorough: 120000, Conc: true, Run: runC08,
		Rule:        "case = one of: steps of a tracker while its lock is held; threads stepping one tracker concurrently; a generator faster than a second with a tracker kept busy; (24 cases) a generator slower than a second with a callback that holds up a round, one that is faster with a round held up, or one that has had no trackers for a while. Non-trivial: distinct patterns of busy and free steps",
		MustSee:     []string{"contended_steps", "concurrent_steps", "generator_rounds", "wall_clock_runs", "idle_runs"},
		Assumptions: []string{"the wall clock part decides too little time only after three runs on a calm machine; too much time is decided at once"}})
	register(&Prop{ID: "C09", Quick: 2400, Thorough: 80000, Conc: true, Run: runC09,
		Rule:        "case = a running generator with a constant fleet (0-1500 trackers) whose handlers are held: the first packet of a round until the round before has been announced, the next handler while further rounds end, a packet into the next second; handlers are replaced and removed in the middle of a round; or a generator with options in and out of range; or one whose rounds take up to 0.65 of the interval, which must follow each other at the interval all the same. Non-trivial: distinct (fleet, workers, interval, actions)",
		MustSee:     []string{"rounds", "announcements", "announcements_without_trackers", "rounds_held", "rounds_while_busy", "handlers_replaced", "handlers_removed", "second_boundaries", "options_tried", "steady_runs"},
		Assumptions: []string{"that rounds come too late is decided only after three runs on a calm machine, as a machine may always be too slow; that they come too early is decided at once"}})
}
