//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/carlakc/boltnd/verifsim/simrt"
)

type checkCfg struct {
	prop, tier, out, dir, known string
	seed                        uint64
	secs, build                 float64
	max                         int
}

// Known is a recorded finding: a genuine defect that is not repaired. It is
// recognised by the directed scenario and the kind of violation.
type Known struct {
	Prop, Kind, Scenario, Text string
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var l []Known
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) < 4 || f[0] != "KNOWN-FINDING:" {
			continue
		}
		k := Known{Prop: strings.TrimPrefix(f[1], "property="), Kind: strings.TrimPrefix(f[2], "kind="), Scenario: strings.TrimPrefix(f[3], "scenario=")}
		k.Text = strings.Join(f[4:], " ")
		l = append(l, k)
	}
	return l
}

func knownAs(l []Known, prop, kind, scenario string) *Known {
	for i := range l {
		if l[i].Prop == prop && l[i].Kind == kind && l[i].Scenario == scenario && scenario != "" {
			return &l[i]
		}
	}
	return nil
}

type found struct {
	i   int
	res *Result
	v   Violation
}

type stats struct {
	runs, events        int
	steps, switches     uint64
	simNs, wallUs       int64
	faults, hits        map[string]int
	inter               map[uint64]bool
	logs                map[uint64]bool
	nontrivial          map[uint64]bool
	pairs               map[uint64]bool
	sites               map[int]bool
	profiles            map[string]int
	twice, diff         int
	memMB, lost         int
	samples             []map[string]interface{}
	sampled             map[string]bool
	firstSeed, lastSeed int
}

const chunkRuns = 24

// oneWorker runs a chunk and reports each result.
func oneWorker(cfg *checkCfg, from, n int, limit time.Duration, quit <-chan struct{}, f func(i int, r *Result), e func(*workerEnd)) (string, bool) {
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", "-prop", cfg.prop, "-seed", fmt.Sprint(cfg.seed), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
	var eb bytes.Buffer
	cmd.Stderr = &limited{w: &eb, left: 20000}
	po, err := cmd.StdoutPipe()
	if err != nil {
		return err.Error(), false
	}
	if err := cmd.Start(); err != nil {
		return err.Error(), false
	}
	lines := make(chan []byte)
	go func() {
		rd := bufio.NewReaderSize(po, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- l
		}
	}()
	i := from
	ok := false
	for {
		t := time.NewTimer(limit)
		select {
		case l, more := <-lines:
			t.Stop()
			if !more {
				err := cmd.Wait()
				if ok {
					return "", true
				}
				return fmt.Sprintf("worker ended in run %d: %v\n%s", i, err, eb.String()), false
			}
			var m struct {
				End *workerEnd `json:"end"`
			}
			if bytes.HasPrefix(l, []byte(`{"end"`)) && json.Unmarshal(l, &m) == nil && m.End != nil {
				ok = true
				e(m.End)
				continue
			}
			r := &Result{}
			if err := json.Unmarshal(l, r); err != nil {
				cmd.Process.Kill()
				return "bad output of worker: " + err.Error(), false
			}
			f(i, r)
			i++
		case <-quit:
			cmd.Process.Kill()
			go func() {
				for range lines {
				}
				cmd.Wait()
			}()
			return "", true
		case <-t.C:
			cmd.Process.Kill()
			go func() {
				for range lines {
				}
				cmd.Wait()
			}()
			return fmt.Sprintf("worker hangs in run %d", i), false
		}
	}
}

type limited struct {
	w    io.Writer
	left int
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if n > l.left {
		p = p[:l.left]
	}
	l.left -= len(p)
	l.w.Write(p)
	return n, nil
}

func check(cfg *checkCfg) int {
	t0 := time.Now()
	if propProfiles[cfg.prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", cfg.prop)
		return 3
	}
	known := loadKnown(cfg.known)
	st := &stats{faults: map[string]int{}, hits: map[string]int{}, inter: map[uint64]bool{}, logs: map[uint64]bool{}, nontrivial: map[uint64]bool{},
		pairs: map[uint64]bool{}, sites: map[int]bool{}, profiles: map[string]int{}, sampled: map[string]bool{}}
	var mu sync.Mutex
	var bad *found
	knownHit := map[string]*Known{}
	fatal := ""
	next := 0
	quit := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(quit) }) }
	deadline := t0.Add(time.Duration(cfg.secs * float64(time.Second)))
	hard := time.AfterFunc(time.Until(deadline)+3*time.Second, stop)
	defer hard.Stop()
	note := func(i int, r *Result) {
		mu.Lock()
		defer mu.Unlock()
		if r.Fatal != "" && fatal == "" {
			fatal = fmt.Sprintf("run %d (%s seed %d): %s", i, r.Profile, r.Seed, r.Fatal)
			stop()
			return
		}
		st.add(cfg.prop, i, r)
		for _, v := range r.Viols {
			if !v.has(cfg.prop) {
				continue
			}
			if k := knownAs(known, cfg.prop, v.Kind, scenarioOf(cfg.prop, i)); k != nil {
				knownHit[k.Kind+k.Scenario] = k
				continue
			}
			if bad == nil || i < bad.i && bad.i >= 0 {
				bad = &found{i, r, v}
			}
			stop()
		}
	}
	endf := func(e *workerEnd) {
		mu.Lock()
		defer mu.Unlock()
		for _, p := range e.Pairs {
			st.pairs[p] = true
		}
		for _, s := range e.Sites {
			st.sites[s] = true
		}
		st.twice += e.Twice
		st.diff += e.Diff
		if e.MemMB > st.memMB {
			st.memMB = e.MemMB
		}
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	var wg sync.WaitGroup
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if time.Now().After(deadline) || bad != nil || fatal != "" || cfg.max > 0 && next >= cfg.max {
					mu.Unlock()
					return
				}
				from := next
				next += chunkRuns
				mu.Unlock()
				at := from
				msg, ok := oneWorker(cfg, from, chunkRuns, 90*time.Second, quit, func(i int, r *Result) { at = i + 1; note(i, r) }, endf)
				if ok {
					continue
				}
				// The process died or hangs: again, this run alone.
				msg2, ok2 := oneWorker(cfg, at, 1, 90*time.Second, quit, note, func(*workerEnd) {})
				mu.Lock()
				if !ok2 && bad == nil {
					bad = &found{i: at, v: Violation{Props: []string{"*"}, Kind: "process-dies", Text: "the process dies or hangs: " + msg2}}
					stop()
				} else if ok2 && fatal == "" {
					// Not repeatable, so not a behaviour of a seed: an error of the harness.
					fmt.Fprintln(os.Stderr, "worker lost:", msg)
					st.lost++
					if st.lost > 3 {
						fatal = msg
						stop()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wall := time.Since(t0).Seconds()
	if fatal != "" {
		fmt.Fprintln(os.Stderr, "harness error:", fatal)
		return 3
	}
	if st.diff > 0 {
		fmt.Printf("warning: %d of %d seeds executed three times were not identical: the tree under test uses something the simulator does not control\n", st.diff, st.twice)
	}
	rc := 0
	viols := 0
	path := ""
	if bad != nil {
		viols = 1
		path = report(cfg, bad)
		rc = 1
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", k.Prop, k.Text, k.Kind)
	}
	if err := evidence(cfg, st, wall, viols, bad); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 3
	}
	fmt.Printf("%s: %d runs, %d distinct interleavings, %d non-trivial, %.0f s simulated in %.1f s\n", cfg.prop, st.runs, len(st.inter), len(st.nontrivial), float64(st.simNs)/1e9, wall)
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.prop, path)
	}
	return rc
}

func scenarioOf(prop string, i int) string {
	sc := scenariosFor(prop)
	if i < len(sc) {
		return sc[i].Scenario
	}
	return ""
}

func (st *stats) add(prop string, i int, r *Result) {
	st.runs++
	st.events += r.Events
	st.steps += r.Steps
	st.switches += r.Switches
	st.simNs += r.SimNs
	st.wallUs += r.WallUs
	for k, v := range r.Faults {
		st.faults[k] += v
	}
	for k, v := range r.Hits {
		st.hits[k] += v
	}
	st.inter[r.Inter] = true
	st.logs[r.LogH] = true
	st.profiles[r.Profile]++
	if r.Hits[prop] > 0 {
		st.nontrivial[r.Inter^r.LogH] = true
	}
	if !st.sampled[r.Profile] && r.Hits[prop] > 0 && len(st.samples) < 4 {
		st.sampled[r.Profile] = true
		p := planFor(prop, seedOf, i)
		steps := p.Steps
		if len(steps) > 12 {
			steps = steps[:12]
		}
		st.samples = append(st.samples, map[string]interface{}{"run": i, "profile": r.Profile, "plan_seed": r.Seed, "nodes": p.Nodes, "strategy": p.Strat,
			"steps_total": len(p.Steps), "first_steps": steps, "events": r.Events, "scheduler_switches": r.Switches, "simulated_s": float64(r.SimNs) / 1e9, "checked": r.Hits[prop]})
	}
}

var seedOf uint64

// report writes the replay file of a violation, minimised.
func report(cfg *checkCfg, b *found) string {
	os.MkdirAll(cfg.dir, 0o755)
	path := filepath.Join(cfg.dir, fmt.Sprintf("%s-%s-%d.json", cfg.prop, b.v.Kind, b.i))
	self, _ := os.Executable()
	p := planFor(cfg.prop, cfg.seed, b.i)
	f := &ReplayFile{Property: cfg.prop, Kind: b.v.Kind, Text: b.v.Text, Seed: cfg.seed, Plan: p, Scenario: p.Scenario,
		Original: fmt.Sprintf("check %s -seed %d, run %d: profile %s, plan seed %d", cfg.prop, cfg.seed, b.i, p.Profile, p.Seed)}
	fmt.Printf("violation of %s in run %d (%s, plan seed %d), %s at %v:\n  %s\n", cfg.prop, b.i, p.Profile, p.Seed, b.v.Kind, time.Duration(b.v.AtNs), b.v.Text)
	if b.v.Kind == "process-dies" {
		f.Minimised = "no: the simulator's process dies"
		writeJSON(path, f)
		return path
	}
	cmd := exec.Command(self, "minimise", "-file", path, "-prop", cfg.prop, "-kind", b.v.Kind, "-seed", fmt.Sprint(cfg.seed), "-from", fmt.Sprint(b.i), "-secs", "20")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=4000MiB")
	cmd.Stderr = os.Stderr
	done := make(chan error, 1)
	if err := cmd.Start(); err == nil {
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	if _, err := os.Stat(path); err != nil {
		writeJSON(path, f)
	}
	for k := 0; k < 2; k++ {
		out, err := exec.Command(self, "replay", path).CombinedOutput()
		ee, _ := err.(*exec.ExitError)
		if ee == nil || ee.ExitCode() != 1 || !bytes.Contains(out, []byte("event by event")) {
			fmt.Printf("warning: the replay file did not reproduce exactly: %v %s\n", err, out)
		} else if k == 1 {
			fmt.Print("replayed twice; ", string(out))
		}
	}
	return path
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

func clonePlan(p *Plan) *Plan {
	c := *p
	c.Steps = append([]*Step{}, p.Steps...)
	return &c
}

// minimise makes a violation's plan and schedule small.
func minimise(path, prop, kind string, seed uint64, i int, secs float64) {
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	p := planFor(prop, seed, i)
	orig := p
	runs := 0
	fails := func(p *Plan, d []simrt.Decision, replay bool) *Result {
		runs++
		r := runPlan(p, d, replay, false)
		if r.Fatal == "" && r.viol(prop, kind) != nil {
			return r
		}
		return nil
	}
	best := fails(p, nil, false)
	if best == nil {
		fmt.Fprintln(os.Stderr, "the violation does not repeat")
		return
	}
	nd := len(best.decisions)
	save := func(p *Plan, d []simrt.Decision) {
		r := runPlan(p, d, true, true)
		v := r.viol(prop, kind)
		if v == nil {
			return
		}
		ev := r.log
		if len(ev) > 400 {
			ev = append(append([]string{}, ev[:100]...), append([]string{"..."}, ev[len(ev)-300:]...)...)
		}
		writeJSON(path, &ReplayFile{Property: prop, Kind: kind, Text: v.Text, Seed: seed, Plan: p, Scenario: orig.Scenario, Decisions: d, LogH: fmt.Sprintf("%x", r.LogH),
			Original:  fmt.Sprintf("check %s -seed %d, run %d: profile %s, plan seed %d", prop, seed, i, orig.Profile, orig.Seed),
			Minimised: fmt.Sprintf("from %d steps and %d scheduling decisions to %d and %d in %d runs", len(orig.Steps), nd, len(p.Steps), len(d), runs),
			Events:    ev, Trace: "bash /verif/replay.sh <this file>"})
	}
	save(p, best.decisions)
	// A plain schedule, without link faults?
	try := func(c *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		if r := fails(c, nil, false); r != nil {
			p, best = c, r
			return true
		}
		return false
	}
	c := clonePlan(p)
	c.Strat = simrt.Strategy{Kind: "fifo"}
	try(c)
	c = clonePlan(p)
	c.Link = LinkFaults{}
	try(c)
	// Fewer steps.
	for n := (len(p.Steps) + 1) / 2; n >= 1; {
		progress := false
		for a := 0; a < len(p.Steps); {
			b := a + n
			if b > len(p.Steps) {
				b = len(p.Steps)
			}
			c := clonePlan(p)
			c.Steps = append(append([]*Step{}, p.Steps[:a]...), p.Steps[b:]...)
			if try(c) {
				progress = true
			} else {
				a = b
			}
		}
		if time.Now().After(end) {
			break
		}
		if n == 1 && !progress {
			break
		}
		if n > 1 {
			n = (n + 1) / 2
		}
	}
	// Smaller floods.
	for i, st := range p.Steps {
		if st.K != "flood" {
			continue
		}
		for n := st.Count / 2; n >= 1; n /= 2 {
			for p.Steps[i].Count > n {
				c := clonePlan(p)
				f := *p.Steps[i]
				f.Count -= n
				c.Steps[i] = &f
				if !try(c) {
					break
				}
			}
		}
	}
	c = clonePlan(p)
	c.Strat.Kind, c.Strat.Starve, c.Strat.TickNs, c.Strat.MapPerm = "fifo", 0, 0, false
	try(c)
	save(p, best.decisions)
	// Fewer decisions.
	d := best.decisions
	end = end.Add(time.Duration(secs * float64(time.Second) / 2))
	if r := fails(p, nil, true); r != nil {
		d = nil
	}
	for n := (len(d) + 1) / 2; n >= 1 && len(d) > 0; {
		progress := false
		for a := 0; a < len(d) && time.Now().Before(end); {
			b := a + n
			if b > len(d) {
				b = len(d)
			}
			c := append(append([]simrt.Decision{}, d[:a]...), d[b:]...)
			if fails(p, c, true) != nil {
				d, progress = c, true
			} else {
				a = b
			}
		}
		if time.Now().After(end) || n == 1 && !progress {
			break
		}
		if n > 1 {
			n = (n + 1) / 2
		}
	}
	save(p, d)
}

func evidence(cfg *checkCfg, st *stats, wall float64, viols int, b *found) error {
	if cfg.out == "" {
		return nil
	}
	files := map[string]int{}
	per := map[string]int{}
	for i, s := range simrt.Sites {
		if s == "" {
			continue
		}
		f := strings.SplitN(s, ":", 2)[0]
		per[f]++
		if st.sites[i] {
			files[f]++
		}
	}
	var cov []string
	for f, n := range per {
		cov = append(cov, fmt.Sprintf("%s %d/%d", f, files[f], n))
	}
	sort.Strings(cov)
	reached := 0
	for s := range st.sites {
		if s > 0 {
			reached++
		}
	}
	search := wall
	if search <= 0 {
		search = 0.001
	}
	e := map[string]interface{}{
		"property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration", "wall_s": wall + cfg.build, "violations": viols,
		"coverage": map[string]interface{}{
			"evaluations":         st.runs,
			"distinct_nontrivial": len(st.nontrivial),
			"rule": "A case is one simulated run: a plan (topology, requests, messages, faults) and a schedule, both derived from VERIF_SEED and the run number. " +
				"Two runs are distinct if they differ in the sequence of (task, resumption point) hand-overs or in the event log. A run is non-trivial for " + cfg.prop + " if " + hitRule[cfg.prop] + " at least once.",
			"samples":                                 st.samples,
			"runs_per_hour":                           int(float64(st.runs) / search * 3600),
			"seeds_per_run":                           1,
			"simulated_seconds":                       float64(st.simNs) / 1e9,
			"simulated_seconds_per_second":            float64(st.simNs) / 1e9 / search,
			"runs_by_profile":                         st.profiles,
			"faults_and_inputs_injected":              st.faults,
			"obligations_exercised":                   st.hits,
			"distinct_interleavings":                  len(st.inter),
			"distinct_histories":                      len(st.logs),
			"distinct_switch_pairs":                   len(st.pairs),
			"scheduler_switches":                      st.switches,
			"yield_points_passed":                     st.steps,
			"events_recorded":                         st.events,
			"yield_points_reached":                    fmt.Sprintf("%d of %d", reached, len(simrt.Sites)-1),
			"yield_points_by_file":                    cov,
			"seeds_executed_three_times_and_compared": st.twice,
			"of_these_not_identical":                  st.diff,
			"real_code":                               []string{"github.com/carlakc/boltnd (all packages, instrumented from /repo's working tree)", "lightning-onion (sphinx) with its replay log", "lnd tlv, record, lnwire, subscribe and queue packages that boltnd links", "btcec (its curve multiplications replaced by equal, faster ones)", "protobuf messages and the generated gRPC service handlers"},
			"stubbed":                                 []string{"lnd and lndclient's connection (simulated node: peers, graph, channels, routes, key operations, custom message stream)", "gRPC transport (handlers are called with simulated contexts and streams)", "goroutine scheduler, channels, mutexes, timers, contexts and clock (simulator)", "system randomness (seeded)"},
		},
		"assumptions": []string{
			"goroutines switch only at statement boundaries and at synchronisation operations of boltnd's own code and of the instrumented dependencies; memory is sequentially consistent",
			"the simulated lnd behaves like the one boltnd was written for, except for the injected faults",
			"the search samples schedules and faults; a clean batch is evidence, not proof",
		},
	}
	os.MkdirAll(filepath.Dir(cfg.out), 0o755)
	return writeJSON(cfg.out, e)
}
