//go:build go1.21

package main

import "github.com/carlakc/boltnd/verifsim/simrt"

// scen builds a directed plan.
type scen struct {
	*gen
}

func newScen(name string, nodes, exts int, types ...uint64) *scen {
	p := &Plan{Profile: "directed", Scenario: name, KeySeed: 1, Nodes: nodes, Exts: exts, LatUs: 1000, LinkUs: 2000}
	p.StopOnShutdownUs = 1000
	for i := 1; i < nodes+exts; i++ {
		p.Edges = append(p.Edges, Edge{A: i - 1, B: i, Peer: true, Chan: true, Active: true})
	}
	p.Strat = simrt.Strategy{Kind: "fifo"}
	g := &gen{p: p, pr: &profile{}, r: simrt.NewRNG(uint64(len(name))), types: types, dur: 1000000}
	s := &scen{g}
	for i := 0; i < nodes; i++ {
		b := s.add("boot", int64(i*100), i)
		b.Retries, b.WaitUs = 1, 100000
	}
	return s
}

func (s *scen) exit(at int64, n int, t uint64, l int) *Step {
	st := s.add("inject", at, n)
	st.Mode, st.From, st.Dst = "exit", s.p.Nodes, n
	st.Pays = []Pay{{t, l}}
	return st
}

func (s *scen) done(heal int64) *Plan {
	s.p.HealUs = heal
	return s.p
}

// variants runs a plan under several schedules.
func variants(p *Plan, n int) []*Plan {
	var l []*Plan
	r := simrt.NewRNG(uint64(len(p.Scenario)) + 77)
	for i := 0; i < n; i++ {
		c := clonePlan(p)
		c.Sched = uint64(i + 1)
		if i > 0 {
			c.Strat = makeStrategy(r)
		}
		l = append(l, c)
	}
	return l
}

// neverReads: the client of one subscription stops reading for good; another
// subscription is cancelled.
func neverReads() *Plan {
	s := newScen("reader-never-reads", 1, 1, 64, 66)
	a := s.add("sub", 150000, 0)
	a.T, a.Forever, a.ReadUs = 64, true, 1
	b := s.add("sub", 150000, 0)
	b.T = 66
	for i := 0; i < 4; i++ {
		s.exit(500000+int64(i)*20000, 0, 64, 20)
	}
	u := s.add("unsub", 2000000, 0)
	u.Ref = b.ID
	return s.done(5000000)
}

// scenariosFor lists the directed runs of a check; they come first.
func scenariosFor(prop string) []*Plan {
	switch prop {
	case "C07":
		return variants(neverReads(), 2)
	}
	return nil
}
