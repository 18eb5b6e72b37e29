//go:build go1.21

// boltsim runs the real boltnd, instrumented, inside a deterministic
// simulator. See /verif/DESIGN.md.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"github.com/carlakc/boltnd/verifsim/simrt"
)

// Result is what one run gave.
type Result struct {
	Profile  string         `json:"profile"`
	Seed     uint64         `json:"seed"`
	LogH     uint64         `json:"log_h"`
	Inter    uint64         `json:"inter"`
	Events   int            `json:"events"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	SimNs    int64          `json:"sim_ns"`
	WallUs   int64          `json:"wall_us"`
	Faults   map[string]int `json:"faults,omitempty"`
	Hits     map[string]int `json:"hits,omitempty"`
	Viols    []Violation    `json:"viols,omitempty"`
	Fatal    string         `json:"fatal,omitempty"`

	decisions []simrt.Decision
	log       []string
	pairs     map[uint64]struct{}
	sites     []bool
}

// runPlan executes a plan once.
func runPlan(p *Plan, decisions []simrt.Decision, replay, keep bool) *Result {
	t0 := time.Now()
	w := newWorld(p, keep)
	r := simrt.NewRun(p.Sched, p.Strat, decisions, replay)
	w.r = r
	theWorld = w
	theRand.w = w
	theRand.out = 0
	r.OnIdle = w.onIdle
	if trace {
		r.Trace = func(s string) { w.log = append(w.log, "    "+s) }
	}
	r.Main(w.main)
	if r.Fatal == "" {
		w.afterRun(r)
	}
	theWorld, theRand.w = nil, nil
	res := &Result{Profile: p.Profile, Seed: p.Seed, LogH: w.logH, Inter: r.Hash(), Events: w.seq, Steps: r.Steps(), Switches: r.Switches,
		SimNs: r.NowNs(), Faults: w.faults, Viols: w.viols, Fatal: r.Fatal, Hits: w.hits(), decisions: r.Decisions(), log: w.log, pairs: r.Pairs(), sites: r.SitesSeen()}
	res.WallUs = time.Since(t0).Microseconds()
	return res
}

func (res *Result) viol(prop, kind string) *Violation {
	for i := range res.Viols {
		v := &res.Viols[i]
		if v.has(prop) && (kind == "" || v.Kind == kind) {
			return v
		}
	}
	return nil
}

// ReplayFile is a violation with everything needed to see it again.
type ReplayFile struct {
	Property  string           `json:"property"`
	Kind      string           `json:"kind"`
	Text      string           `json:"text"`
	Scenario  string           `json:"scenario"`
	Seed      uint64           `json:"seed"`
	Original  string           `json:"found_in"`
	Minimised string           `json:"minimised"`
	Plan      *Plan            `json:"plan"`
	Decisions []simrt.Decision `json:"decisions"`
	LogH      string           `json:"log_hash"`
	Events    []string         `json:"events"`
	Trace     string           `json:"how_to_replay"`
}

var trace bool

// planFor is the i-th plan of a check.
func planFor(prop string, seed uint64, i int) *Plan {
	names := propProfiles[prop]
	sc := scenariosFor(prop)
	if i < len(sc) {
		return sc[i]
	}
	i -= len(sc)
	h := simrt.NewRNG(seed*0x1000193 + uint64(i)*2654435761)
	h.U64()
	s := h.U64() >> 16
	return makePlan(names[i%len(names)], s)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: boltsim check|worker|replay|minimise|one|det ...")
		os.Exit(3)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "first run")
	n := fs.Int("n", 1, "number of runs")
	secs := fs.Float64("secs", 25, "seconds to search")
	out := fs.String("out", "", "evidence file")
	dir := fs.String("replays", "", "directory for replay files")
	known := fs.String("known", "", "known findings")
	profile := fs.String("profile", "", "profile")
	kind := fs.String("kind", "", "violation kind")
	file := fs.String("file", "", "file")
	max := fs.Int("max", 0, "most runs")
	build := fs.Float64("build", 0, "seconds the build took")
	verbose := fs.Bool("v", false, "print events")
	fs.BoolVar(&trace, "trace", false, "print switches")
	fs.Parse(os.Args[2:])
	seedOf = *seed
	switch os.Args[1] {
	case "worker":
		worker(*prop, *seed, *from, *n)
	case "check":
		os.Exit(check(&checkCfg{prop: *prop, tier: *tier, seed: *seed, secs: *secs, out: *out, dir: *dir, known: *known, max: *max, build: *build}))
	case "minimise":
		minimise(*file, *prop, *kind, *seed, *from, *secs)
	case "replay":
		os.Exit(replayFile(fs.Arg(0), *verbose))
	case "one":
		for i := 0; i < *n; i++ {
			var p *Plan
			if *profile != "" {
				p = makePlan(*profile, *seed+uint64(i))
			} else {
				p = planFor(*prop, *seed, *from+i)
			}
			res := runPlan(p, nil, false, *verbose)
			printRun(p, res, *verbose)
		}
	case "survey":
		survey(*profile, *seed, *n)
	case "det":
		det(*prop, *seed, *n)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
}

func printRun(p *Plan, res *Result, verbose bool) {
	if verbose {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		for _, l := range res.log {
			fmt.Println(l)
		}
	}
	fmt.Printf("%s seed %d: %d events, %d steps, %d switches, %.1f s simulated, %d us, log %x\n", p.Profile, p.Seed, res.Events, res.Steps, res.Switches, float64(res.SimNs)/1e9, res.WallUs, res.LogH)
	for _, v := range res.Viols {
		fmt.Printf("  %v %s at %v: %s\n", v.Props, v.Kind, time.Duration(v.AtNs), v.Text)
	}
	if res.Fatal != "" {
		fmt.Println("  FATAL", res.Fatal)
	}
}

// survey prints the kinds of violations found by a profile, for development.
func survey(profile string, seed uint64, n int) {
	if f := os.Getenv("BOLTSIM_CPUPROFILE"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	type k struct {
		n     int
		seed  uint64
		props []string
		text  string
	}
	m := map[string]*k{}
	faults := map[string]int{}
	var wall, sim int64
	for i := 0; i < n; i++ {
		p := makePlan(profile, seed+uint64(i))
		res := runPlan(p, nil, false, false)
		wall += res.WallUs
		sim += res.SimNs
		for f, c := range res.Faults {
			faults[f] += c
		}
		if res.Fatal != "" {
			fmt.Println("FATAL", p.Seed, res.Fatal)
		}
		for _, v := range res.Viols {
			if m[v.Kind] == nil {
				m[v.Kind] = &k{seed: p.Seed, props: v.Props, text: v.Text}
			}
			m[v.Kind].n++
		}
	}
	fmt.Printf("== %s: %d runs, %.1f ms each, %.1f s simulated each\n", profile, n, float64(wall)/float64(n)/1000, float64(sim)/float64(n)/1e9)
	var ks []string
	for x := range m {
		ks = append(ks, x)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]].n > m[ks[j]].n })
	for _, x := range ks {
		t := m[x].text
		if len(t) > 400 {
			t = t[:400]
		}
		fmt.Printf("%5d %-24s %v seed %d: %s\n", m[x].n, x, m[x].props, m[x].seed, t)
	}
	if trace {
		fmt.Println(faults)
	}
}

// det runs every seed twice and compares.
func det(prop string, seed uint64, n int) {
	for i := 0; i < n; i++ {
		a := runPlan(planFor(prop, seed, i), nil, false, false)
		b := runPlan(planFor(prop, seed, i), nil, false, false)
		c := runPlan(planFor(prop, seed, i), a.decisions, true, false)
		if a.LogH != b.LogH || a.Inter != b.Inter || a.LogH != c.LogH {
			fmt.Printf("NOT DETERMINISTIC: %s run %d: %x %x %x / %x %x %x\n", prop, i, a.LogH, b.LogH, c.LogH, a.Inter, b.Inter, c.Inter)
		}
	}
}

type workerEnd struct {
	Pairs []uint64 `json:"pairs"`
	Sites []int    `json:"sites"`
	Twice int      `json:"twice"`
	Diff  int      `json:"diff"`
	MemMB int      `json:"mem_mb"`
}

// worker does some runs of a check and writes a line for each.
func worker(prop string, seed uint64, from, n int) {
	debug.SetGCPercent(200)
	o := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(o)
	pairs := map[uint64]struct{}{}
	sites := map[int]bool{}
	end := workerEnd{}
	for i := from; i < from+n; i++ {
		res := runPlan(planFor(prop, seed, i), nil, false, false)
		if i == from {
			// The same seed must give the same execution, also when the
			// recorded decisions drive it.
			a := runPlan(planFor(prop, seed, i), nil, false, false)
			b := runPlan(planFor(prop, seed, i), res.decisions, true, false)
			end.Twice++
			if res.Fatal == "" && (a.LogH != res.LogH || b.LogH != res.LogH || a.Inter != res.Inter) {
				end.Diff++
			}
		}
		for p := range res.pairs {
			pairs[p] = struct{}{}
		}
		for s, ok := range res.sites {
			if ok {
				sites[s] = true
			}
		}
		enc.Encode(res)
		o.Flush()
	}
	for p := range pairs {
		end.Pairs = append(end.Pairs, p)
	}
	for s := range sites {
		end.Sites = append(end.Sites, s)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	end.MemMB = int(m.Sys >> 20)
	enc.Encode(map[string]interface{}{"end": end})
	o.Flush()
}

func replayFile(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	res := runPlan(f.Plan, f.Decisions, true, true)
	if verbose {
		for _, l := range res.log {
			fmt.Println(l)
		}
	}
	if res.Fatal != "" {
		fmt.Println("FATAL", res.Fatal)
		return 3
	}
	v := res.viol(f.Property, f.Kind)
	if v == nil {
		fmt.Printf("not reproduced: %s of %s does not occur on this tree\n", f.Kind, f.Property)
		for _, v := range res.Viols {
			fmt.Printf("  instead %v %s: %s\n", v.Props, v.Kind, v.Text)
		}
		return 0
	}
	fmt.Printf("reproduced: property %s, %s at %v: %s\n", f.Property, v.Kind, time.Duration(v.AtNs), v.Text)
	if fmt.Sprintf("%x", res.LogH) == f.LogH {
		fmt.Println("the execution is the recorded one, event by event")
	} else {
		fmt.Println("the execution differs from the recorded one (the tree has changed)")
	}
	return 1
}

var _ = strings.TrimSpace
