//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/carlakc/boltnd/verifsim/simrt"
)

// LinkFaults are the probabilities of what happens to a message on the way.
type LinkFaults struct {
	Drop    float64 `json:"drop,omitempty"`
	Dup     float64 `json:"dup,omitempty"`
	Reorder float64 `json:"reorder,omitempty"`
	Corrupt float64 `json:"corrupt,omitempty"`
}

// Plan is everything that happens to the system in one run, except for the
// schedule.
type Plan struct {
	Profile          string         `json:"profile"`
	Seed             uint64         `json:"seed"`
	Sched            uint64         `json:"sched"` // seed of the schedule
	Scenario         string         `json:"scenario,omitempty"`
	KeySeed          uint64         `json:"key_seed"`
	Nodes            int            `json:"nodes"`
	Exts             int            `json:"exts"`
	Graph            []GraphNode    `json:"graph,omitempty"`
	Edges            []Edge         `json:"edges,omitempty"`
	LatUs            int            `json:"lat_us"`
	LinkUs           int            `json:"link_us"`
	Link             LinkFaults     `json:"link"`
	StopOnShutdownUs int64          `json:"stop_on_shutdown_us,omitempty"`
	Clean            bool           `json:"clean,omitempty"` // no faults at all: everything must arrive
	HealUs           int64          `json:"heal_us"`
	Strat            simrt.Strategy `json:"strategy"`
	Steps            []*Step        `json:"steps"`
}

// Pay is a payload to send: L bytes of type T.
type Pay struct {
	T uint64 `json:"t"`
	L int    `json:"l"`
}

// Step is one thing that happens from outside.
type Step struct {
	ID int    `json:"id"`
	At int64  `json:"at"` // microseconds
	K  string `json:"k"`
	N  int    `json:"n"`

	// boot, stop
	NoCB     bool  `json:"no_cb,omitempty"`
	Retries  int   `json:"retries,omitempty"`
	WaitUs   int64 `json:"wait_us,omitempty"`
	ConnFail int   `json:"conn_fail,omitempty"`
	ConnSlow int64 `json:"conn_slow,omitempty"`
	Count    int   `json:"count,omitempty"` // concurrent calls, copies
	DelayUs  int64 `json:"delay_us,omitempty"`

	// sub
	T       uint64 `json:"t,omitempty"`
	FailAt  int    `json:"fail_at,omitempty"`
	ReadUs  int64  `json:"read_us,omitempty"`
	StallAt int    `json:"stall_at,omitempty"`
	StallUs int64  `json:"stall_us,omitempty"`
	Forever bool   `json:"forever,omitempty"`

	// send, gen, inject, replay
	To       string `json:"to,omitempty"`
	Dst      int    `json:"dst,omitempty"`
	Ref      int    `json:"ref,omitempty"`
	Hops     []int  `json:"hops,omitempty"`
	Pays     []Pay  `json:"pays,omitempty"`
	Rep      string `json:"rep,omitempty"`
	RepRef   int    `json:"rep_ref,omitempty"`
	RepHops  []int  `json:"rep_hops,omitempty"`
	Direct   bool   `json:"direct,omitempty"`
	CancelUs int64  `json:"cancel_us,omitempty"`
	Feats    []int  `json:"feats,omitempty"`
	Str      string `json:"str,omitempty"`
	From     int    `json:"from,omitempty"`

	// faults
	Mode   string     `json:"mode,omitempty"`
	Method string     `json:"method,omitempty"`
	Dur    int64      `json:"dur,omitempty"`
	Cnt    int        `json:"cnt,omitempty"`
	Skip   int        `json:"skip,omitempty"`
	Code   int        `json:"code,omitempty"`
	Slow   int64      `json:"slow,omitempty"`
	Graph  *GraphNode `json:"graph,omitempty"`

	// On makes the step wait, from At, until something happens at its node
	// for the (Nth+1)th time.
	On  string `json:"on,omitempty"`
	Nth int    `json:"nth,omitempty"`
}

// ErrTag identifies a boot in the errors it meets.
func (s *Step) ErrTag() string { return fmt.Sprintf("E%d", s.ID*7919+13) }

// attempt is the longest time between two attempts to connect.
func (s *Step) attempt() time.Duration {
	return time.Duration(s.WaitUs+s.ConnSlow)*time.Microsecond + time.Second
}

// profile says what a kind of run is made of.
type profile struct {
	w        map[string]int // weights of steps
	n        [2]int         // number of steps
	durMs    [2]int
	nodes    [2]int
	clean    bool
	link     float64 // probability of link faults
	autoSubs float64 // probability that each node subscribes at the start
	graph    float64 // probability of an unusual graph entry
	dead     float64 // probability that a node is not booted at the start
	bootX    float64 // probability of an unusual boot
	slowRead float64
	failSend float64
	cancel   float64 // probability that an operation is cancelled
	direct   float64
	wide     float64 // probability that a node has many channels
	chain    float64 // probability of a long line of nodes
	long     float64 // probability that a run takes hours
	bulk     float64 // probability that there are many more steps
	burst    float64 // probability that a step happens together with the one before
	types    int
	zombie   float64 // probability that shutdown requests are not obeyed
	flood    float64 // probability of a long sequence of messages
	types2   float64 // probability of a great many payload types
}

var profiles = map[string]*profile{
	"clean": {w: map[string]int{"send": 12, "gen": 4, "sub": 1, "decode": 1, "inject": 1}, n: [2]int{6, 22}, durMs: [2]int{500, 6000},
		nodes: [2]int{2, 5}, clean: true, autoSubs: 1, slowRead: 0.2, direct: 0.2, burst: 0.4, types: 3, chain: 0.05},
	"msg": {w: map[string]int{"send": 8, "gen": 4, "sub": 2, "unsub": 1, "inject": 4, "replay": 3}, n: [2]int{8, 30}, durMs: [2]int{300, 8000},
		nodes: [2]int{2, 5}, link: 0.4, autoSubs: 0.9, slowRead: 0.3, direct: 0.15, burst: 0.5, types: 3, cancel: 0.05, long: 0.05, chain: 0.05, flood: 0.005},
	"order": {w: map[string]int{"inject": 14, "send": 1, "sub": 2, "unsub": 1, "replay": 1, "ecdhslow": 1, "stop": 1, "boot": 1}, n: [2]int{10, 30}, durMs: [2]int{50, 4000},
		nodes: [2]int{1, 2}, autoSubs: 1, slowRead: 0.7, burst: 0.7, types: 2, failSend: 0.05, bulk: 0.04, long: 0.03, flood: 0.01, types2: 0.01},
	"hostile": {w: map[string]int{"inject": 14, "replay": 5, "badsend": 2, "send": 2, "gen": 1, "sub": 1, "flap": 1}, n: [2]int{10, 35}, durMs: [2]int{200, 6000},
		nodes: [2]int{1, 3}, link: 0.2, autoSubs: 0.9, slowRead: 0.1, burst: 0.4, types: 3, failSend: 0.05, cancel: 0.05, long: 0.05, bulk: 0.04, flood: 0.015, types2: 0.01},
	"relay": {w: map[string]int{"sendfault": 2, "relay": 12, "replay": 4, "inject": 3, "fault": 2, "flap": 1, "sub": 1}, n: [2]int{8, 28}, durMs: [2]int{200, 5000},
		nodes: [2]int{1, 3}, link: 0.2, autoSubs: 0.6, burst: 0.5, types: 2, long: 0.05, bulk: 0.03, flood: 0.01},
	"replay": {w: map[string]int{"sendfault": 1, "inject": 6, "relay": 3, "replay": 12, "sub": 2, "unsub": 1, "crash": 1, "boot": 1, "send": 1}, n: [2]int{8, 28}, durMs: [2]int{300, 30000},
		nodes: [2]int{1, 3}, link: 0.3, autoSubs: 0.9, burst: 0.4, types: 2, long: 0.25, bulk: 0.04, flood: 0.015},
	"fault": {w: map[string]int{"sendfault": 2, "fault": 8, "send": 7, "gen": 3, "inject": 5, "relay": 3, "sub": 1, "unsub": 1, "flap": 2, "rand": 1, "pause": 1, "decode": 1}, n: [2]int{10, 34}, durMs: [2]int{1000, 40000},
		nodes: [2]int{1, 4}, link: 0.5, autoSubs: 0.8, slowRead: 0.1, burst: 0.4, types: 3, cancel: 0.1, direct: 0.2, failSend: 0.05, long: 0.04},
	"stall": {w: map[string]int{"bootfault": 1, "boot": 1, "stopstall": 2, "ecdh": 8, "inject": 7, "relay": 4, "send": 2, "gen": 1, "sub": 1, "stallother": 2}, n: [2]int{6, 24}, durMs: [2]int{1000, 60000},
		nodes: [2]int{1, 3}, autoSubs: 0.9, burst: 0.4, types: 2, bootX: 0.3, long: 0.04},
	"subs": {w: map[string]int{"sub": 12, "unsub": 8, "inject": 8, "badsub": 1, "stop": 1, "crash": 1, "boot": 1, "multi": 3}, n: [2]int{10, 36}, durMs: [2]int{50, 4000},
		nodes: [2]int{1, 2}, autoSubs: 0.5, slowRead: 0.3, failSend: 0.25, burst: 0.6, types: 2, cancel: 0.3, long: 0.03, bulk: 0.02, types2: 0.02},
	"life": {w: map[string]int{"stopstall": 2, "boot": 8, "stop": 7, "crash": 4, "send": 4, "gen": 3, "sub": 6, "unsub": 2, "inject": 4, "decode": 2, "pause": 1, "fault": 1, "extrastart": 2, "extrastop": 2, "bootfault": 2}, n: [2]int{8, 34}, durMs: [2]int{100, 20000},
		nodes: [2]int{1, 3}, autoSubs: 0.5, dead: 0.4, bootX: 0.6, slowRead: 0.1, burst: 0.5, types: 2, cancel: 0.25, failSend: 0.05, zombie: 0.3, long: 0.04, bulk: 0.02},
	"retry": {w: map[string]int{"boot": 6, "stop": 4, "crash": 1, "send": 2, "gen": 1, "sub": 3, "decode": 1, "extrastart": 2, "bootfault": 2}, n: [2]int{2, 12}, durMs: [2]int{1000, 60000},
		nodes: [2]int{1, 2}, dead: 1, bootX: 1, burst: 0.3, types: 2, cancel: 0.2, bulk: 0.02, long: 0.2},
	"direct": {w: map[string]int{"send": 12, "flap": 3, "graph": 3, "peerfault": 4, "sub": 1}, n: [2]int{6, 24}, durMs: [2]int{500, 20000},
		nodes: [2]int{1, 4}, autoSubs: 0.6, graph: 0.6, direct: 0.85, burst: 0.4, types: 2, cancel: 0.25, wide: 0.1},
	"route": {w: map[string]int{"gen": 12, "graph": 4, "flap": 2, "genfault": 3, "send": 4, "sub": 1}, n: [2]int{6, 26}, durMs: [2]int{300, 10000},
		nodes: [2]int{1, 3}, autoSubs: 0.7, graph: 0.6, burst: 0.4, types: 2, cancel: 0.08, wide: 0.3},
	"conc": {w: map[string]int{"sendfault": 1, "send": 10, "gen": 5, "decode": 8, "badsend": 3, "sub": 2, "unsub": 1, "inject": 3, "fault": 1, "flap": 1, "baddecode": 2}, n: [2]int{12, 40}, durMs: [2]int{20, 2000},
		nodes: [2]int{1, 3}, autoSubs: 0.8, graph: 0.2, burst: 0.8, types: 3, cancel: 0.15, direct: 0.3, bulk: 0.03, wide: 0.05, chain: 0.03},
	"stream": {w: map[string]int{"loss": 6, "sub": 4, "unsub": 3, "send": 3, "inject": 4, "stop": 2, "gen": 1, "boot": 3, "fault": 1, "openfault": 2, "decode": 1}, n: [2]int{5, 24}, durMs: [2]int{200, 12000},
		nodes: [2]int{1, 3}, autoSubs: 0.8, bootX: 0.4, slowRead: 0.1, burst: 0.4, types: 2, zombie: 0.6, cancel: 0.1, long: 0.03, bulk: 0.02, types2: 0.01},
	"keys": {w: map[string]int{"sendfault": 1, "send": 8, "same": 6, "gen": 6, "rand": 3, "crash": 1, "boot": 2, "sub": 1}, n: [2]int{8, 26}, durMs: [2]int{300, 8000},
		nodes: [2]int{2, 4}, autoSubs: 0.8, burst: 0.5, types: 2, direct: 0.2, long: 0.05, chain: 0.06},
	"mix": {w: map[string]int{"stopstall": 1, "send": 8, "gen": 3, "sub": 4, "unsub": 3, "inject": 6, "relay": 2, "replay": 3, "badsend": 1, "decode": 1, "fault": 4, "flap": 1, "rand": 1, "pause": 1,
		"boot": 2, "stop": 1, "crash": 1, "loss": 1, "graph": 1, "same": 1, "ecdh": 1, "multi": 1}, n: [2]int{15, 50}, durMs: [2]int{500, 30000},
		nodes: [2]int{2, 5}, link: 0.4, autoSubs: 0.7, graph: 0.2, dead: 0.1, bootX: 0.3, slowRead: 0.15, failSend: 0.1, burst: 0.5, types: 3, cancel: 0.1, direct: 0.2, zombie: 0.3, long: 0.05, wide: 0.05, types2: 0.01},
}

// propProfiles says which runs look for which property.
var propProfiles = map[string][]string{
	"C01": {"msg", "hostile", "order", "relay", "mix", "hostile", "order"},
	"C02": {"replay", "replay", "hostile", "msg", "relay", "mix"},
	"C03": {"clean", "clean", "clean", "msg"},
	"C04": {"relay", "relay", "hostile", "msg", "mix"},
	"C05": {"hostile", "fault", "mix", "subs", "stall", "relay"},
	"C06": {"subs", "subs", "life", "conc", "stream"},
	"C07": {"subs", "subs", "order", "life", "stream", "mix"},
	"C08": {"life", "life", "subs", "mix", "retry", "stream", "stall"},
	"C09": {"life", "life", "retry", "retry"},
	"C10": {"stream", "stream", "fault", "hostile", "life"},
	"C11": {"direct"},
	"C12": {"fault", "conc", "direct", "msg", "keys"},
	"C13": {"keys", "keys", "clean", "fault", "life"},
	"C14": {"route"},
	"C15": {"stall", "stall", "fault", "retry"},
	"C16": {"order", "order", "order", "msg", "subs", "replay"},
	"C17": {"conc", "conc", "mix", "fault"},
	"C18": {"retry", "retry", "retry", "life"},
	"C19": {"life", "life", "replay", "mix", "stream"},
	"C20": {"conc", "subs", "fault", "stall", "direct", "relay", "conc", "subs"},
}

type gen struct {
	p     *Plan
	pr    *profile
	r     *simrt.RNG
	id    int
	types []uint64
	chain bool
	dur   int64
	last  int64
	subs  []*Step
	gens  []*Step
	sends []*Step
	boots []*Step
}

func (g *gen) between(a, b int) int { return a + g.r.Intn(b-a+1) }

func (g *gen) add(k string, at int64, n int) *Step {
	g.id++
	s := &Step{ID: g.id, K: k, At: at, N: n}
	g.p.Steps = append(g.p.Steps, s)
	return s
}

func (g *gen) typ() uint64 { return g.types[g.r.Intn(len(g.types))] }

func (g *gen) lens() int {
	switch x := g.r.Float(); {
	case x < 0.12:
		return 0
	case x < 0.2:
		return 1 + g.r.Intn(3)
	case x < 0.93:
		return 12 + g.r.Intn(60)
	case x < 0.98:
		return 200 + g.r.Intn(300)
	}
	return 900 + g.r.Intn(600)
}

func (g *gen) pays() []Pay {
	var ps []Pay
	n := 1
	if g.r.Chance(0.3) {
		n = g.r.Intn(4)
	}
	used := map[uint64]bool{}
	for i := 0; i < n; i++ {
		t := g.typ()
		if g.r.Chance(0.1) {
			t = []uint64{64, 66, 65, 68, 253, 65536, 1 << 33, ^uint64(0)}[g.r.Intn(8)]
		}
		if used[t] {
			continue
		}
		used[t] = true
		ps = append(ps, Pay{t, g.lens()})
	}
	return ps
}

func (g *gen) any() int { return g.r.Intn(g.p.Nodes + g.p.Exts) }

func (g *gen) node() int { return g.r.Intn(g.p.Nodes) }

func (g *gen) hops(to, n int) []int {
	var h []int
	for i := 0; i < n-1; i++ {
		h = append(h, g.any())
	}
	return append(h, to)
}

// twins returns the two nodes whose keys differ in nothing but the sign; the
// second is 0 if there are none.
func (p *Plan) twins() (int, int) {
	all := uint64(p.Nodes + p.Exts)
	if all < 2 || p.KeySeed%12 != 0 {
		return 0, 0
	}
	b := 1 + int(p.KeySeed>>8%(all-1))
	return b - 1, b
}

// makePlan invents a run.
func makePlan(name string, seed uint64) *Plan {
	pr := profiles[name]
	if pr == nil {
		panic("unknown profile " + name)
	}
	r := simrt.NewRNG(seed*31 + uint64(len(name))*1000003 + uint64(name[0])<<40)
	p := &Plan{Profile: name, Seed: seed, Sched: seed, KeySeed: 1 + seed%3, Clean: pr.clean}
	if seed>>7%10 == 3 {
		p.KeySeed = 12 * (1 + seed>>11%512)
	}
	g := &gen{p: p, pr: pr, r: r}
	p.Nodes = g.between(pr.nodes[0], pr.nodes[1])
	p.Exts = g.between(1, 3)
	wide := -1
	if r.Chance(pr.wide) {
		p.Exts = g.between(6, 24)
		wide = r.Intn(p.Nodes)
	}
	chain := false
	if wide < 0 && r.Chance(pr.chain) {
		p.Exts = g.between(5, 28)
		chain = true
	}
	g.chain = chain
	all := p.Nodes + p.Exts
	p.LatUs = []int{100, 1000, 5000, 20000}[r.Intn(4)]
	p.LinkUs = []int{500, 5000, 50000}[r.Intn(3)]
	if r.Chance(pr.link) {
		p.Link = LinkFaults{Drop: 0.1 * r.Float(), Dup: 0.5 * r.Float(), Reorder: 0.4 * r.Float(), Corrupt: 0.15 * r.Float()}
		if r.Chance(0.5) {
			p.Link.Drop, p.Link.Corrupt = 0, 0
		}
	}
	p.StopOnShutdownUs = 1 + int64(r.Intn(2000000))
	if r.Chance(pr.zombie) {
		p.StopOnShutdownUs = 0
	}
	// A connected graph: a random tree (often a line), some extra edges.
	line := r.Chance(0.5)
	for i := 1; i < all; i++ {
		j := i - 1
		if !line || i >= p.Nodes {
			j = r.Intn(i)
		}
		if wide >= 0 && i >= p.Nodes {
			j = wide
		}
		if chain {
			j = i - 1
		}
		p.Edges = append(p.Edges, Edge{A: j, B: i, Peer: true, Chan: true, Active: true})
	}
	for i := 0; i < all; i++ {
		for j := i + 2; j < all; j++ {
			if !chain && r.Chance(0.12) && !hasEdge(p.Edges, i, j) {
				p.Edges = append(p.Edges, Edge{A: i, B: j, Peer: true, Chan: r.Chance(0.7), Active: true})
			}
		}
	}
	for i := range p.Edges {
		e := &p.Edges[i]
		if r.Chance(0.2) {
			e.Fee = []int64{1, 1000, 1000000, 100000000, 100000000000}[r.Intn(5)]
		}
		if r.Chance(0.15) {
			e.Failed = true
		}
		if r.Chance(0.15) {
			e.Max = []int64{20000000, 20000, 1000}[r.Intn(3)]
		}
		if r.Chance(0.15) {
			e.Cltv = []int{104, 400, 2000}[r.Intn(3)]
		}
	}
	if !pr.clean {
		for i := range p.Edges {
			e := &p.Edges[i]
			if r.Chance(0.05) {
				e.Active = false
			}
			if r.Chance(0.08) {
				e.Peer = false
			}
			if r.Chance(0.15) {
				e.Priv = true
			}
			if r.Chance(0.1) {
				e.LatUs = 1 + r.Intn(300000)
			}
			if r.Chance(0.1) {
				e.More = 1 + r.Intn(3)
			}
		}
	}
	for i := 0; i < all; i++ {
		if gn := g.graphNode(i); gn != nil {
			p.Graph = append(p.Graph, *gn)
		}
	}
	pool := []uint64{64, 66, 65, 67, 101, 68, 255, 70001, 1<<32 + 1}
	for i := 0; i < pr.types; i++ {
		k := r.Intn(len(pool))
		g.types = append(g.types, pool[k])
		pool = append(pool[:k], pool[k+1:]...)
	}
	if n := len(g.types); n > 1 && r.Chance(0.15) {
		// Types that agree in their low bits.
		g.types[n-1] = g.types[0]&0xffff + 1<<[]uint{8, 16, 32, 32, 63}[r.Intn(5)]
	}
	if r.Chance(pr.types2) {
		for i, n := 0, 10+r.Intn(140); i < n; i++ {
			g.types = append(g.types, uint64(1000+i))
		}
	}
	g.dur = int64(g.between(pr.durMs[0], pr.durMs[1])) * 1000
	if r.Chance(pr.long) {
		g.dur = int64(g.between(10, 3000)) * 60000000 // ten minutes to two days
		if r.Chance(0.3) {
			g.dur *= 30 // up to two months
		}
	}
	start := int64(0)
	for i := 0; i < p.Nodes; i++ {
		if r.Chance(pr.dead) {
			continue
		}
		g.boot(int64(r.Intn(20000)), i)
	}
	start = 150000
	if r.Chance(0.3) && !pr.clean {
		start = int64(r.Intn(60000)) // while starting
	}
	for i := 0; i < p.Nodes; i++ {
		for _, t := range g.types {
			if r.Chance(pr.autoSubs) {
				g.sub(start, i, t)
			}
		}
	}
	if pr.clean {
		start += 300000
	}
	n := g.between(pr.n[0], pr.n[1])
	if r.Chance(pr.bulk) {
		n *= 4 + r.Intn(8)
	}
	g.last = start
	kinds := make([]string, 0, len(pr.w))
	total := 0
	for k, w := range pr.w {
		kinds = append(kinds, k)
		total += w
	}
	sort.Strings(kinds)
	for i := 0; i < n; i++ {
		x := r.Intn(total)
		kind := ""
		for _, k := range kinds {
			if x < pr.w[k] {
				kind = k
				break
			}
			x -= pr.w[k]
		}
		at := g.last
		if !r.Chance(pr.burst) {
			at = start + int64(r.U64()%uint64(g.dur))
		} else if r.Chance(0.5) {
			at += int64(r.Intn(3000))
		}
		g.last = at
		g.step(kind, at)
	}
	if r.Chance(pr.flood) {
		g.flood(start)
	}
	if !pr.clean {
		for _, s := range p.Steps {
			if r.Chance(onChance[s.K]) {
				s.On = onEvents[r.Intn(len(onEvents))]
				s.Nth = r.Intn(3)
			}
		}
	}
	sort.SliceStable(p.Steps, func(i, j int) bool { return p.Steps[i].At < p.Steps[j].At })
	p.HealUs = start + g.dur + 500000
	p.Strat = makeStrategy(r)
	return p
}

// onChance is how often a step waits for an event instead of a time.
var onChance = map[string]float64{"unsub": 0.35, "stop": 0.3, "crash": 0.4, "loss": 0.3, "pause": 0.3, "extrastop": 0.2, "sub": 0.04, "send": 0.04, "gen": 0.04, "inject": 0.02}

var onEvents = []string{"handoff", "handoff", "end-DeriveSharedKey", "end-DeriveSharedKey", "stream-send", "stream-send", "received", "received", "end-SendCustomMessage",
	"end-QueryRoutes", "end-ListPeers", "end-GetNodeInfo", "end-ListChannels", "end-GetInfo", "end-SubscribeCustomMessages", "rpc-end", "sub-end", "started", "connect"}

func makeStrategy(r *simrt.RNG) simrt.Strategy {
	st := simrt.Strategy{Kind: "random", P: []float64{0.002, 0.01, 0.05, 0.2}[r.Intn(4)], MapPerm: r.Chance(0.5)}
	switch x := r.Float(); {
	case x < 0.08:
		st.Kind = "fifo"
	case x < 0.3:
		st.Kind = "prio"
	case x < 0.5:
		st.Kind, st.HotMod = "hot", uint64(10+r.Intn(60))
	}
	if r.Chance(0.3) {
		st.Starve = 0.2
	}
	st.TickNs = []int64{0, 0, 100, 1000}[r.Intn(4)]
	return st
}

func hasEdge(es []Edge, a, b int) bool {
	for _, e := range es {
		if e.A == a && e.B == b || e.A == b && e.B == a {
			return true
		}
	}
	return false
}

// graphNode invents an unusual graph entry, or none.
func (g *gen) graphNode(i int) *GraphNode {
	r := g.r
	if !r.Chance(g.pr.graph) {
		return nil
	}
	n := &GraphNode{Idx: i, Known: r.Chance(0.85), HasNode: r.Chance(0.85), Extra: r.Intn(4)}
	if r.Chance(0.3) {
		n.Extra = r.Intn(40)
	}
	for k := r.Intn(3); k > 0; k-- {
		n.Addrs = append(n.Addrs, fmt.Sprintf("10.%d.0.%d:9735", k, i+1))
	}
	for _, f := range []int{0, 4, 8, 9, 14, 15, 38, 39, 177, 256, 1000, 1025, 32768, 65534} {
		if r.Chance(0.6) {
			n.Feats = append(n.Feats, f)
		}
	}
	switch x := r.Float(); {
	case x < 0.2:
		n.UpUs = int64(r.Intn(900000))
	case x < 0.55:
		n.UpUs = int64(r.Intn(4000000))
	case x < 0.75:
		n.UpUs = int64(3000000 + r.Intn(6000000))
	case x < 0.85:
		n.NeverUp = true
	case x < 0.92:
		n.ConnErr = true
	}
	return n
}

func (g *gen) boot(at int64, n int) *Step {
	r := g.r
	s := g.add("boot", at, n)
	s.Retries, s.WaitUs = 4, 10000000
	if r.Chance(g.pr.bootX) {
		s.NoCB = r.Chance(0.15)
		s.Retries = []int{0, 1, 2, 4, 10}[r.Intn(5)]
		s.WaitUs = int64([]int{0, 1000, 20000, 500000, 2500000}[r.Intn(5)])
		if r.Chance(0.2) {
			s.Retries = r.Intn(40)
			s.WaitUs = int64(r.Intn(int(g.dur)/(s.Retries+1) + 1))
		}
		switch x := r.Float(); {
		case x < 0.35:
			s.ConnFail = r.Intn(s.Retries + 1)
		case x < 0.5:
			s.ConnFail = s.Retries + 1 + r.Intn(3)
		case x < 0.6:
			s.Retries, s.WaitUs = 250+r.Intn(6), int64(r.Intn(20000))
			s.ConnFail = []int{0, 1, 200, 254, 255, 256, 300}[r.Intn(7)]
		}
		s.Count = 1
		if r.Chance(0.25) {
			s.Count = 2 + r.Intn(2)
		}
		if r.Chance(0.2) {
			s.ConnSlow = int64(r.Intn(2000000))
			if r.Chance(0.2) {
				s.ConnSlow = int64(r.Intn(40000000))
			}
		}
		if r.Chance(0.25) {
			// RPCs may arrive, or Stop be called, before Start.
			s.DelayUs = int64(r.Intn(300000))
		}
		if r.Chance(0.04) {
			s.Count = -1 // never started
		}
	}
	g.boots = append(g.boots, s)
	return s
}

func (g *gen) sub(at int64, n int, t uint64) *Step {
	r := g.r
	s := g.add("sub", at, n)
	s.T = t
	if r.Chance(g.pr.slowRead) {
		switch r.Intn(3) {
		case 0:
			s.ReadUs = int64(r.Intn(200000))
		case 1:
			s.StallAt, s.StallUs = 1+r.Intn(4), int64(r.Intn(8000000))
		case 2:
			s.ReadUs, s.StallAt, s.StallUs = int64(r.Intn(5000)), 1+r.Intn(3), int64(r.Intn(20000000))
		}
	}
	if r.Chance(g.pr.failSend) {
		s.FailAt = 1 + r.Intn(3)
		s.Code = r.Intn(10)
		if r.Chance(0.3) {
			s.Mode = "toolarge"
		}
	}
	if r.Chance(g.pr.cancel) {
		s.CancelUs = int64(1 + r.Intn(int(g.dur)))
		if r.Chance(0.5) {
			s.CancelUs = int64(1 + r.Intn(30000))
		}
	}
	g.subs = append(g.subs, s)
	return s
}

func (g *gen) cancel(s *Step) {
	if g.r.Chance(g.pr.cancel) {
		s.CancelUs = int64(1 + g.r.Intn(200000))
		if g.r.Chance(0.4) {
			s.CancelUs = int64(1 + g.r.Intn(6000000))
		}
	}
}

func (g *gen) send(at int64) *Step {
	r, p := g.r, g.p
	s := g.add("send", at, g.node())
	s.Pays = g.pays()
	s.Direct = r.Chance(g.pr.direct)
	a, b := p.twins()
	switch x := r.Float(); {
	case b > 0 && x < 0.25:
		// One of the two nodes with nearly the same key.
		s.To, s.Dst = "node", a
		if r.Chance(0.5) {
			s.Dst = b
		}
		s.Direct = s.Direct || r.Chance(0.5)
	case g.chain && x < 0.5:
		s.To, s.Dst = "node", g.any()
	case x < 0.45:
		s.To, s.Dst = "node", g.node()
		if s.Dst == s.N && g.p.Nodes > 1 {
			s.Dst = (s.N + 1 + r.Intn(g.p.Nodes-1)) % g.p.Nodes
		}
	case x < 0.52 && !g.p.Clean:
		s.To, s.Dst = "node", g.any()
	case x < 0.75 && len(g.gens) > 0:
		s.To, s.Ref = "gen", g.gens[r.Intn(len(g.gens))].ID
	case x < 0.87:
		s.To = "reply"
	case x < 0.9 && !g.p.Clean:
		s.To, s.Dst = "junk", g.any()
		s.Count = 1 + r.Intn(3)
		if r.Chance(0.25) {
			s.Count = 24 + r.Intn(6)
		}
	default:
		s.To, s.Dst = "craft", g.node()
		n := 1 + r.Intn(3)
		if r.Chance(0.12) && !g.p.Clean {
			n = 8 + r.Intn(24)
		}
		s.Hops = g.hops(s.Dst, n)
	}
	switch x := r.Float(); {
	case x < 0.25 && len(g.gens) > 0:
		s.Rep, s.RepRef = "gen", g.gens[r.Intn(len(g.gens))].ID
	case x < 0.4:
		n := 1 + r.Intn(3)
		if r.Chance(0.1) {
			n = 4 + r.Intn(12)
		}
		s.Rep, s.RepHops = "craft", g.hops(s.N, n)
	case x < 0.43 && !g.p.Clean:
		s.Rep = "junk"
	case x < 0.45 && !g.p.Clean:
		s.Rep = "nohops"
	}
	g.cancel(s)
	g.sends = append(g.sends, s)
	return s
}

var exitRecipes = []string{"exit", "exit", "exit", "exit", "exit-multi", "exit-reply", "exit-reply", "exit-empty"}
var badRecipes = []string{"exit-order", "exit-dup", "exit-trunc", "exit-long", "exit-noncanon", "exit-badreply", "exit-badreply", "exit-even", "exit-junk",
	"other", "other", "junk", "junk", "flip", "flip", "cut", "cut", "extend", "wrongtype", "wrongtype", "lenhdr", "legacy", "version", "badpoint", "nothing", "huge",
	"exit-enc", "exit-none", "intro-other"}
var relayRecipes = []string{"relay", "relay", "relay", "relay", "relay-chain", "relay-chain", "relay-override", "relay-override", "relay-nonext", "relay-badenc",
	"relay-noenc", "relay-finals", "relay-finals", "relay-badnext", "relay-badoverride", "relay-junktlv", "relay-odd", "relay-even", "relay-reply", "relay-self", "relay-far", "relay-zero"}

func (g *gen) inject(at int64, recipes []string) *Step {
	r := g.r
	s := g.add("inject", at, g.node())
	s.Mode = recipes[r.Intn(len(recipes))]
	s.From = g.any()
	s.Dst = g.any()
	s.Pays = g.pays()
	if len(s.Pays) == 0 || s.Mode == "exit" {
		s.Pays = []Pay{{g.typ(), g.lens()}}
	}
	for i := range s.Pays {
		if s.Pays[i].L > 800 {
			s.Pays[i].L = 800
		}
	}
	switch s.Mode {
	case "exit-multi":
		s.Pays = nil
		for _, t := range g.types {
			if len(s.Pays) < 3 {
				s.Pays = append(s.Pays, Pay{t, g.lens() % 200})
			}
		}
		s.Pays = append(s.Pays, Pay{9999, 5})
	case "exit-empty":
		s.Pays = []Pay{{g.typ(), 0}}
	}
	s.Code = r.Intn(1000)
	return s
}

// flood adds a long sequence of messages, and copies of some of them later.
func (g *gen) flood(start int64) {
	r := g.r
	s := g.add("flood", start+int64(r.Intn(1000000)), g.node())
	s.Mode = []string{"exit", "exit", "exit", "exit-reply", "relays", "bad", "mixed", badRecipes[r.Intn(len(badRecipes))], relayRecipes[r.Intn(len(relayRecipes))]}[r.Intn(9)]
	s.Count = 100 + r.Intn(300)
	if r.Chance(0.35) {
		s.Count = 1010 + r.Intn(300)
		if r.Chance(0.3) {
			s.Count = 4100 + r.Intn(200)
		}
		if r.Chance(0.1) {
			s.Count = 10010 + r.Intn(300)
		}
	}
	s.Dur = int64([]int{0, 100, 2000, 20000, 100000}[r.Intn(5)])
	s.From, s.Dst = g.any(), g.any()
	s.Pays = []Pay{{g.typ(), 13}}
	end := s.At + int64(s.Count)*s.Dur
	for k := 3 + r.Intn(6); k > 0; k-- {
		c := g.add("replay", end+int64(r.Intn(60000000)), s.N)
		c.Ref, c.From, c.Count, c.Mode = r.Intn(60), g.any(), 1, []string{"exact", "trail"}[r.Intn(2)]
		c.Code = r.Intn(1000)
	}
	for k := 2 + r.Intn(3); k > 0; k-- {
		g.inject(end+int64(r.Intn(30000000)), exitRecipes).N = s.N
	}
	if e := end + 60000000 - start; e > g.dur {
		g.dur = e
	}
}

// step adds one random step of a kind.
func (g *gen) step(kind string, at int64) {
	r := g.r
	switch kind {
	case "boot":
		s := g.boot(at, g.node())
		_ = s
	case "extrastart", "extrastop":
		s := g.add(kind, at, g.node())
		s.Count = 1 + r.Intn(2)
	case "stopstall":
		// A stop while the node waits for lnd.
		f := g.fault(at, []string{"DeriveSharedKey", "DeriveSharedKey", "SendCustomMessage"}, []string{"stall", "stall", "late", "slow"})
		f.Skip, f.Dur, f.Slow = r.Intn(3), 20000000, int64(r.Intn(14000000))
		if f.Method != "DeriveSharedKey" {
			f.Skip = 0
			g.inject(at+1000, relayRecipes[:4]).N = f.N
		}
		g.inject(at+2000, []string{"exit", "relay"}).N = f.N
		d := int64(100000 + r.Intn(1000000))
		if r.Chance(0.6) {
			d = int64(r.Intn(14500000))
		}
		s := g.add("stop", at+d, f.N)
		s.Count = 1
		if r.Chance(0.4) {
			g.boot(at+d+int64(r.Intn(3000000)), f.N)
		}
	case "stop":
		s := g.add("stop", at, g.node())
		s.Count = 1
		if r.Chance(0.2) {
			s.Count = 2 + r.Intn(2)
		}
	case "crash":
		g.add("crash", at, g.node())
	case "pause":
		s := g.add("pause", at, g.node())
		s.Dur = int64(r.Intn(5000000))
		if r.Chance(0.2) {
			s.Dur *= 5
		}
	case "send":
		g.send(at)
	case "same":
		if len(g.sends) == 0 {
			g.send(at)
			return
		}
		o := g.sends[r.Intn(len(g.sends))]
		g.id++
		c := *o
		c.ID, c.At = g.id, at
		c.CancelUs = 0
		if c.RepRef == 0 && c.Ref == 0 && c.To != "reply" {
			c.Code = o.ID // the very same request
			if o.Code != 0 {
				c.Code = o.Code
			}
		}
		g.p.Steps = append(g.p.Steps, &c)
	case "badsend":
		s := g.add("badsend", at, g.node())
		s.Mode = []string{"both", "none", "badkey", "shortkey", "badblind", "badintro", "badhop", "nohops", "type", "type0", "badreply", "badreplyhop"}[r.Intn(12)]
		s.Dst = g.any()
		s.Direct = r.Chance(0.3)
		if r.Chance(0.5) {
			s.Pays = []Pay{{T: g.typ(), L: r.Intn(40)}}
		}
		if r.Chance(0.3) {
			s.Rep = "craft"
		}
		g.cancel(s)
	case "gen":
		s := g.add("gen", at, g.node())
		for k := r.Intn(5) - 1; k > 0; k-- {
			s.Feats = append(s.Feats, []int{8, 9, 14, 15, 4, 38, 39, 0, 176, 177, 256, 1000, 1025, 32768, 65534, 65535}[r.Intn(16)])
		}
		if r.Chance(0.06) {
			for k := r.Intn(8); k >= 0; k-- {
				s.Feats = append(s.Feats, []int{8, 9, 14, 15, 4, 38, 39, 0, 176, 177}[r.Intn(10)])
			}
		}
		if g.p.Clean {
			s.Feats = nil
		} else if r.Chance(0.05) {
			s.Feats = append(s.Feats, 65536+r.Intn(1000))
		}
		g.cancel(s)
		g.gens = append(g.gens, s)
	case "decode", "baddecode":
		s := g.add("decode", at, g.node())
		s.Str = makeOffer(g.r, kind == "baddecode" || r.Chance(0.2))
		if r.Chance(0.03) {
			s.Str = ""
		}
		g.cancel(s)
	case "sub":
		t := g.typ()
		g.sub(at, g.node(), t)
	case "badsub":
		s := g.add("sub", at, g.node())
		s.T = uint64(r.Intn(64))
	case "multi":
		// A race for one type.
		n, t := g.node(), g.typ()
		for k := 2 + r.Intn(2); k > 0; k-- {
			g.sub(at+int64(r.Intn(2000)), n, t)
		}
	case "unsub":
		if len(g.subs) > 0 {
			o := g.subs[r.Intn(len(g.subs))]
			s := g.add("unsub", at, o.N)
			s.Ref = o.ID
			if r.Chance(0.5) {
				// Subscribe again at once, racing with the end of the old one.
				g.sub(at+int64(r.Intn(500)), o.N, o.T)
			}
			if r.Chance(0.4) {
				i := g.inject(at, []string{"exit"})
				i.N, i.Pays = o.N, []Pay{{o.T, g.lens()}}
			}
		}
	case "inject":
		switch {
		case g.p.Clean || g.pr == profiles["order"] || g.pr == profiles["subs"]:
			g.inject(at, exitRecipes)
		case r.Chance(0.45):
			g.inject(at, badRecipes)
		case r.Chance(0.6):
			g.inject(at, exitRecipes)
		default:
			g.inject(at, relayRecipes)
		}
	case "relay":
		g.inject(at, relayRecipes)
	case "replay":
		s := g.add("replay", at, g.node())
		s.Ref = r.Intn(1000)
		s.From = g.any()
		s.Count = 1 + r.Intn(3)
		s.Mode = []string{"exact", "exact", "exact", "trail", "trail", "flip"}[r.Intn(6)]
		s.Dur = int64(r.Intn(3000))
		if r.Chance(0.3) {
			s.Dur = int64(r.Intn(3000000))
		}
		s.Code = r.Intn(1000)
	case "fault":
		g.fault(at, []string{"DeriveSharedKey", "SendCustomMessage", "SendCustomMessage", "QueryRoutes", "QueryRoutes", "ListPeers", "GetNodeInfo", "Connect", "ListChannels", "GetInfo"},
			[]string{"error", "error", "stall", "ambig", "late", "slow", "slow", "error"})
	case "ecdh":
		s := g.fault(at, []string{"DeriveSharedKey"}, []string{"stall", "stall", "late", "slow", "error"})
		s.Skip = r.Intn(3)
		if s.Mode == "slow" && r.Chance(0.6) {
			s.Slow = int64(r.Intn(14500000))
		}
	case "sendfault":
		s := g.fault(at, []string{"SendCustomMessage"}, []string{"error", "error", "ambig", "ambig", "late", "slow", "stall"})
		if r.Chance(0.5) {
			s.Code = r.Intn(2)
		}
		if r.Chance(0.5) {
			s.Cnt = 1
		}
		if r.Chance(0.5) {
			i := g.inject(at, relayRecipes[:8])
			i.N = s.N
		}
	case "ecdhslow":
		s := g.fault(at, []string{"DeriveSharedKey"}, []string{"slow"})
		s.Slow = int64(r.Intn(900000))
	case "stallother":
		g.fault(at, []string{"SendCustomMessage", "GetNodeInfo", "QueryRoutes", "ListChannels", "GetInfo"}, []string{"stall", "late"})
	case "peerfault":
		g.fault(at, []string{"ListPeers", "GetNodeInfo", "Connect", "SendCustomMessage"}, []string{"error", "slow", "stall", "ambig", "late"})
	case "genfault":
		g.fault(at, []string{"ListChannels", "GetNodeInfo"}, []string{"error", "slow", "stall", "late", "ambig"})
	case "bootfault":
		s := g.fault(at, []string{"GetInfo"}, []string{"error", "stall", "slow", "late"})
		s.Dur = int64(1000000 + r.Intn(10000000))
		if s.Mode == "stall" && r.Chance(0.4) {
			s.Cnt, s.Dur = 1000, 150000000
		}
	case "openfault":
		s := g.fault(at, []string{"SubscribeCustomMessages"}, []string{"error", "slow", "stall"})
		s.Dur = int64(500000 + r.Intn(8000000))
	case "loss":
		s := g.add("loss", at, g.node())
		s.Mode = []string{"err", "now", "close"}[r.Intn(3)]
		if r.Chance(0.7) {
			s.Code = r.Intn(36)
		}
	case "rand":
		s := g.add("rand", at, g.node())
		s.Dur = int64(1 + r.Intn(300000))
		if r.Chance(0.5) {
			s.Mode, s.Code = "nth", r.Intn(5)
		}
	case "flap":
		s := g.add("flap", at, g.node())
		s.Dst = g.any()
		s.Mode = []string{"down", "up"}[r.Intn(2)]
		s.Dur = int64(r.Intn(3000000))
	case "graph":
		i := g.any()
		old := g.pr
		cp := *old
		cp.graph = 1
		g.pr = &cp
		gn := g.graphNode(i)
		g.pr = old
		s := g.add("graph", at, i)
		s.Graph = gn
		if r.Chance(0.3) {
			s.Mode = "edge"
			s.Ref = r.Intn(100)
		}
	default:
		panic("unknown step " + kind)
	}
}

func (g *gen) fault(at int64, methods, modes []string) *Step {
	r := g.r
	s := g.add("fault", at, g.node())
	s.Method = methods[r.Intn(len(methods))]
	s.Mode = modes[r.Intn(len(modes))]
	if s.Method == "QueryRoutes" && r.Chance(0.5) {
		s.Mode = []string{"noroute", "empty", "nilpub", "badpub"}[r.Intn(4)]
	}
	s.Cnt = 1 + r.Intn(4)
	s.Dur = int64(1 + r.Intn(5000000))
	s.Slow = int64(r.Intn(3000000))
	s.Code = r.Intn(12)
	return s
}
