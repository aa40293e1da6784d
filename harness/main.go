package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func pow(a, b float64) float64 { return math.Pow(a, b) }

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "gpsmon:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "gpsmon:", err)
		os.Exit(2)
	}
}

type finding struct {
	Status    string `json:"status"` // "open" or "fixed"
	Property  string `json:"property"`
	Signature string `json:"signature,omitempty"`
	What      string `json:"what"`
	Record    string `json:"record,omitempty"`
}

var known []finding

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "gpsmon: known findings:", err)
		os.Exit(2)
	}
	known = f.Findings
}

func isKnown(prop, sig string) bool {
	for _, k := range known {
		if k.Status == "open" && k.Property == prop && k.Signature == sig {
			return true
		}
	}
	return false
}

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		root    = flag.String("root", "/verif", "framework directory")
		shardF  = flag.String("shard", "", "i/n (internal)")
		out     = flag.String("out", "", "result file (internal)")
		only    = flag.Int("case", -1, "run this case only")
		repeat  = flag.Int("repeat", 1, "repetitions of -case")
		cases   = flag.Int("cases", 0, "override the number of cases")
		list    = flag.Bool("list", false, "list properties")
		isRace  = flag.Bool("israce", false, "list properties that need the race build")
		noEvid  = flag.Bool("noevidence", false, "do not write the evidence file")
		nShards = flag.Int("shards", 0, "override the number of shards")
	)
	flag.Parse()
	if *list {
		var ids []string
		for id, p := range props {
			if *isRace && !p.Race {
				continue
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "gpsmon: unknown property %q\n", *prop)
		os.Exit(2)
	}
	loadKnown(filepath.Join(*root, "known_findings.json"))
	total := p.Quick
	if *tier == "thorough" {
		total = p.Thorough
	}
	if *cases > 0 {
		total = *cases
	}
	if *shardF != "" {
		var i, n int
		fmt.Sscanf(*shardF, "%d/%d", &i, &n)
		runShard(p, *tier, *seed, i, n, total, *only, *repeat, *out)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *root, total, *only, *repeat, *nShards, !*noEvid))
}

type shardOut struct {
	res    Result
	ok     bool
	stderr string
	races  []string
	err    error
	// ended because another shard had found a violation
	stopped bool
}

const graceTime = 45 * time.Second

func supervise(p *Prop, tier string, seed uint64, root string, total, only, repeat, nsh int, evid bool) int {
	start := time.Now()
	n := p.Shards
	if n == 0 {
		n = runtime.NumCPU()
	}
	if nsh > 0 {
		n = nsh
	}
	if only >= 0 {
		n = 1
	}
	if n > total {
		n = total
	}
	tmp, err := os.MkdirTemp("", "gpsmon-*")
	if err != nil {
		fmt.Fprintln(os.Stderr, "gpsmon:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	outs := make([]shardOut, n)
	// once a shard has found a violation the others get some time to finish theirs
	stop, cancel := context.WithCancel(context.Background())
	defer cancel()
	var grace sync.Once
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &outs[i]
			file := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
			errFile := filepath.Join(tmp, fmt.Sprintf("e%d.txt", i))
			args := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-root", root,
				"-shard", fmt.Sprintf("%d/%d", i, n), "-out", file, "-cases", strconv.Itoa(total)}
			if only >= 0 {
				args = append(args, "-case", strconv.Itoa(only), "-repeat", strconv.Itoa(repeat))
			}
			cmd := exec.CommandContext(stop, self, args...)
			ef, _ := os.Create(errFile)
			cmd.Stderr, cmd.Stdout = ef, ef
			env := append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=3GiB",
				"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", i)))
			if !p.Conc {
				env = append(env, "GOMAXPROCS=2")
			}
			cmd.Env = env
			o.err = cmd.Run()
			ef.Close()
			b, _ := os.ReadFile(errFile)
			o.stderr = string(b)
			if b, err := os.ReadFile(file); err == nil {
				o.ok = json.Unmarshal(b, &o.res) == nil && o.res.Done
			}
			logs, _ := filepath.Glob(filepath.Join(tmp, fmt.Sprintf("race%d.*", i)))
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				for _, blk := range strings.Split(string(b), "==================") {
					if strings.Contains(blk, "WARNING: DATA RACE") {
						o.races = append(o.races, strings.TrimSpace(blk))
					}
				}
			}
			if len(o.res.Violations) > 0 {
				grace.Do(func() { time.AfterFunc(graceTime, cancel) })
			}
			o.stopped = o.err != nil && stop.Err() != nil
		}(i)
	}
	wg.Wait()

	var (
		merged   = Result{Counters: map[string]int64{}}
		distinct = map[string]map[uint64]struct{}{}
		viols    []*Violation
		knownHit []*Violation
		incon    []string
	)
	races := 0
	for i := range outs {
		o := &outs[i]
		merged.Cases += o.res.Cases
		for k, v := range o.res.Counters {
			merged.Counters[k] += v
		}
		for k, l := range o.res.Distinct {
			if distinct[k] == nil {
				distinct[k] = map[uint64]struct{}{}
			}
			for _, h := range l {
				distinct[k][h] = struct{}{}
			}
		}
		merged.Samples = append(merged.Samples, o.res.Samples...)
		viols = append(viols, o.res.Violations...)
		knownHit = append(knownHit, o.res.Known...)
		if o.res.Incon != "" {
			incon = append(incon, o.res.Incon)
		}
		if !o.stopped && (!o.ok || o.err != nil) {
			// the shard died: a crash of the library or an error of the harness
			msg := crashHead(o.stderr)
			if strings.Contains(o.stderr, libFrame) && (strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:")) &&
				!strings.Contains(o.stderr, "out of memory") {
				viols = append(viols, &Violation{Property: p.ID, Tier: tier, Seed: seed, Case: -1, Kind: "crash",
					Message: "the process crashed: " + msg, Sig: "crash", Stack: clip(o.stderr, 20000)})
			} else {
				incon = append(incon, fmt.Sprintf("shard %d failed: %v: %s", i, o.err, clip(o.stderr, 4000)))
			}
		}
		seen := map[string]bool{}
		for _, r := range o.races {
			races++
			key := raceKey(r)
			if seen[key] {
				continue
			}
			seen[key] = true
			if strings.Contains(r, libFrame) {
				viols = append(viols, &Violation{Property: p.ID, Tier: tier, Seed: seed, Case: -1, Kind: "data-race",
					Message: "data race: " + key, Sig: "race " + key, Stack: clip(r, 20000)})
			} else {
				incon = append(incon, "race report without library frames: "+clip(r, 3000))
			}
		}
	}
	if p.Race {
		merged.Counters["race_reports"] = int64(races)
	}
	for _, k := range p.MustSee {
		if only < 0 && merged.Counters[k] == 0 && len(viols) == 0 {
			incon = append(incon, "the run observed no event "+k)
		}
	}
	wall := time.Since(start).Seconds()

	if evid && only < 0 {
		dist := map[string]int{}
		for k, m := range distinct {
			if k != "nontrivial" {
				dist[k] = len(m)
			}
		}
		if len(merged.Samples) > 8 {
			merged.Samples = merged.Samples[:8]
		}
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations":         merged.Cases,
				"distinct_nontrivial": len(distinct["nontrivial"]),
				"rule":                p.Rule,
				"samples":             merged.Samples,
				"observed_events":     merged.Counters,
				"distinct_observed":   dist,
				"processes":           n,
			},
			"assumptions": append([]string{"verdicts hold for the executions observed, not for all"}, p.Assumptions...),
			"wall_s":      wall,
			"violations":  len(viols),
		}
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		writeJSON(filepath.Join(root, "evidence", p.ID+".json"), ev)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s\n", p.ID, tier, seed, merged.Cases, len(distinct["nontrivial"]), wall)
	var keys []string
	for k := range merged.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-42s %d\n", k, merged.Counters[k])
	}
	keys = keys[:0]
	for k := range distinct {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  distinct %-33s %d\n", k, len(distinct[k]))
	}
	said := map[string]bool{}
	for _, v := range knownHit {
		if !said[v.Sig] {
			said[v.Sig] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, v.Message)
		}
	}
	if len(viols) > 0 {
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		for k, v := range viols {
			if k == 3 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, tier, seed, k))
			writeJSON(path, v)
			fmt.Printf("%s: %s\n", v.Kind, clip(v.Message, 3000))
			if v.Stack != "" && v.Kind != "deadlock" {
				fmt.Println(clip(v.Stack, 2500))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if len(incon) > 0 {
		for _, s := range incon {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func crashHead(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return clip(s, 300)
}

// raceKey names a race by the innermost library functions of the two accesses.
func raceKey(blk string) string {
	var parts []string
	var cur string
	want := false
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, " by goroutine ") || strings.Contains(t, " by main goroutine") {
			want, cur = true, ""
			continue
		}
		if want && cur == "" && strings.Contains(t, libFrame) && !strings.HasPrefix(t, "/") {
			cur = t[:strings.IndexByte(t+"(", '(')]
			if k := strings.LastIndexByte(t, '('); k > 0 {
				cur = t[:k]
			}
			parts = append(parts, strings.TrimPrefix(cur, libFrame))
			want = false
		}
		if strings.HasPrefix(t, "Goroutine ") {
			break
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, " <-> ")
}
