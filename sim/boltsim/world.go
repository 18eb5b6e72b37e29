//go:build go1.21

package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"github.com/lightninglabs/lndclient"
	"hash/fnv"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/verifsim/simrt"
)

const (
	us = int64(time.Microsecond)
	ms = int64(time.Millisecond)
	s1 = int64(time.Second)
)

// Violation is a property broken in a run.
type Violation struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"` // stable name of the check that failed
	Text  string   `json:"text"`
	AtNs  int64    `json:"at_ns"`
}

func (v Violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p || x == "*" {
			return true
		}
	}
	return false
}

// Ident is a node identity: its key and its place in the graph.
type Ident struct {
	Idx  int
	Priv *btcec.PrivateKey
	Pub  [33]byte
}

// World is everything around the instances in one run.
type World struct {
	plan *Plan
	r    *simrt.Run
	seq  int
	ids  []*Ident
	byPK map[[33]byte]*Ident

	nodes   []*Node
	graph   []*GraphNode
	edges   []Edge
	graphV  int // bumped by every change of the graph or of channels
	insts   []*Inst
	byTag   map[int]*Inst
	ops     map[int]*Op
	opList  []*Op
	callNo  map[string]int
	rndNo   map[string]int
	rndFail map[string]bool // by instance tag: "fail everything"
	rndSkip map[int]int     // draws to go until one fails, per instance
	rndHit  map[int]bool    // operations that met a randomness failure

	triggers []*trigger
	trigSeen map[string]bool

	healed bool
	viols  []Violation
	seen   map[string]bool
	faults map[string]int
	log    []string
	logH   uint64
	keep   bool // keep the log text

	arrivals map[int][]*Arrival // by node
	sent     []*Emission        // every message lnd accepted, or may have
	gens     []*Op
	opaque   int // for unique numbers in the harness
	peelMemo map[string]*Peeled
	owed     int
	owner    map[string]int // blinded paths and the identity at their end
	decRef   map[string]*decodeRef
}

func identKey(seed uint64, i int) *btcec.PrivateKey {
	var b [24]byte
	copy(b[:8], "identity")
	binary.BigEndian.PutUint64(b[8:], seed)
	binary.BigEndian.PutUint64(b[16:], uint64(i))
	h := sha256.Sum256(b[:])
	k, _ := btcec.PrivKeyFromBytes(h[:])
	return k
}

func newWorld(p *Plan, keep bool) *World {
	w := &World{
		plan: p, byPK: map[[33]byte]*Ident{}, byTag: map[int]*Inst{}, ops: map[int]*Op{},
		callNo: map[string]int{}, rndNo: map[string]int{}, rndFail: map[string]bool{}, rndSkip: map[int]int{}, rndHit: map[int]bool{}, trigSeen: map[string]bool{},
		seen: map[string]bool{}, faults: map[string]int{}, keep: keep,
		owner: map[string]int{}, decRef: map[string]*decodeRef{},
		arrivals: map[int][]*Arrival{}, peelMemo: map[string]*Peeled{}, logH: 14695981039346656037,
	}
	for i := 0; i < p.Nodes+p.Exts; i++ {
		id := &Ident{Idx: i, Priv: identKey(p.KeySeed, i)}
		if a, b := p.twins(); b > 0 && i == b {
			k := *identKey(p.KeySeed, a)
			k.Key.Negate()
			id.Priv, _ = btcec.PrivKeyFromBytes(k.Serialize())
		}
		copy(id.Pub[:], id.Priv.PubKey().SerializeCompressed())
		w.ids = append(w.ids, id)
		w.byPK[id.Pub] = id
		g := &GraphNode{Idx: i, Known: true, HasNode: true, Extra: 1 + i%3,
			Addrs: []string{fmt.Sprintf("10.0.0.%d:9735", i+1)}, Feats: []int{8, 9, 14, 15}}
		w.graph = append(w.graph, g)
	}
	for _, g := range p.Graph {
		if g.Idx >= 0 && g.Idx < len(w.graph) {
			c := g
			w.graph[g.Idx] = &c
		}
	}
	w.decRef[probeOffer] = offerRef(probeOffer)
	for _, s := range p.Steps {
		if s.K == "decode" {
			w.decRef[s.Str] = offerRef(s.Str)
		}
	}
	w.edges = append([]Edge{}, p.Edges...)
	for i := 0; i < p.Nodes; i++ {
		n := &Node{w: w, Ident: w.ids[i], peers: map[[33]byte]int64{}, linkAt: map[[33]byte]int64{}}
		w.nodes = append(w.nodes, n)
	}
	for _, e := range w.edges {
		if e.Peer {
			w.setPeer(e.A, e.B, true)
		}
	}
	return w
}

// ev records an event and returns its number.
func (w *World) ev(f string, a ...interface{}) int {
	w.seq++
	line := fmt.Sprintf("%d t=%d ", w.seq, w.r.NowNs()) + fmt.Sprintf(f, a...)
	for i := 0; i < len(line); i++ {
		w.logH = (w.logH ^ uint64(line[i])) * 1099511628211
	}
	if w.keep {
		w.log = append(w.log, line)
	}
	return w.seq
}

func (w *World) fault(kind string) {
	w.faults[kind]++
}

// violate reports a broken property; each kind is kept once per run and key.
func (w *World) violate(kind, props, f string, a ...interface{}) {
	txt := fmt.Sprintf(f, a...)
	if w.seen[kind] {
		return
	}
	w.seen[kind] = true
	var now int64
	if w.r != nil {
		now = w.r.NowNs()
	}
	w.viols = append(w.viols, Violation{Props: strings.Fields(props), Kind: kind, Text: txt, AtNs: now})
	if w.keep {
		w.log = append(w.log, fmt.Sprintf("VIOLATION [%s] %s: %s", props, kind, txt))
	}
}

func (w *World) name(pk [33]byte) string {
	if id, ok := w.byPK[pk]; ok {
		if id.Idx < w.plan.Nodes {
			return fmt.Sprintf("n%d", id.Idx)
		}
		return fmt.Sprintf("x%d", id.Idx)
	}
	return hex.EncodeToString(pk[:4])
}

// rng is a generator tied to names, so that dropping a step of the plan does
// not change what the others do.
func (w *World) rng(parts ...interface{}) *simrt.RNG {
	h := fnv.New64a()
	fmt.Fprint(h, w.plan.Seed)
	for _, p := range parts {
		fmt.Fprint(h, "|", p)
	}
	return simrt.NewRNG(h.Sum64())
}

// keys derives private keys from names.
type keys struct {
	base string
	n    int
}

func (k *keys) next() *btcec.PrivateKey {
	k.n++
	h := sha256.Sum256([]byte(fmt.Sprintf("key %s %d", k.base, k.n)))
	p, _ := btcec.PrivKeyFromBytes(h[:])
	return p
}

func (w *World) keys(parts ...interface{}) *keys {
	return &keys{base: fmt.Sprint(w.plan.Seed, parts)}
}

// peel is the reference verdict on data for the holder of identity id.
func (w *World) peel(id *Ident, data []byte) *Peeled {
	k := string(id.Pub[:]) + string(data)
	if p, ok := w.peelMemo[k]; ok {
		return p
	}
	p := peel(id.Priv, data)
	w.peelMemo[k] = p
	return p
}

// ---- randomness ----

var errNoRandom = errors.New("simulated failure of the system's randomness")

// simRand replaces the system's source of randomness: every instance and
// operation has a stream of its own.
type simRand struct {
	w   *World
	out uint64
}

var theRand = &simRand{}

func (g *simRand) Read(p []byte) (int, error) {
	if len(p) == 1 {
		// crypto/internal/randutil.MaybeReadByte: must not shift the stream.
		p[0] = 0
		return 1, nil
	}
	w := g.w
	var base string
	if w == nil || simrt.R == nil {
		g.out++
		base = fmt.Sprintf("outside %d", g.out)
	} else {
		t := simrt.Cur()
		id := fmt.Sprintf("%d/%d", t.Tag, t.Op)
		fail := w.rndFail[fmt.Sprint(t.Tag)]
		if k, ok := w.rndSkip[t.Tag]; ok {
			// Only the draw after the next k fails.
			if k == 0 {
				delete(w.rndSkip, t.Tag)
				fail = true
			} else {
				w.rndSkip[t.Tag] = k - 1
			}
		}
		if fail {
			w.fault("randomness_error")
			w.rndHit[t.Op] = true
			w.ev("rand failure i%d op%d", t.Tag, t.Op)
			return 0, errNoRandom
		}
		w.rndNo[id]++
		base = fmt.Sprintf("%d %d %s %d", w.plan.Seed, w.plan.KeySeed, id, w.rndNo[id])
	}
	for i := 0; i < len(p); {
		h := sha256.Sum256([]byte(fmt.Sprintf("rand %s %d", base, i)))
		i += copy(p[i:], h[:])
	}
	return len(p), nil
}

func init() { rand.Reader = theRand }

// ---- topology ----

// Edge is a channel, a peer connection, or both, between two identities.
type Edge struct {
	A      int   `json:"a"`
	B      int   `json:"b"`
	Peer   bool  `json:"peer,omitempty"`
	Chan   bool  `json:"chan,omitempty"`
	Active bool  `json:"active,omitempty"`
	LatUs  int   `json:"lat,omitempty"`
	More   int   `json:"more,omitempty"`   // further channels between the two
	Priv   bool  `json:"priv,omitempty"`   // the channels are not announced
	Fee    int64 `json:"fee,omitempty"`    // msat, besides the usual 1001
	Max    int64 `json:"max,omitempty"`    // largest payment in msat
	Cltv   int   `json:"cltv,omitempty"`   // time lock, besides the usual 40
	Failed bool  `json:"failed,omitempty"` // payments over it have failed lately
}

// carries says whether lnd would route what req asks for over the edge, of
// which only the path's first costs nothing.
func (e *Edge) carries(req *lndclient.QueryRoutesRequest, first bool) bool {
	amt, fee := int64(req.AmtMsat), e.Fee+1001
	if first {
		fee = 0
	}
	return amt >= 1000 && (e.Max == 0 || amt <= e.Max) && uint64(fee) <= uint64(req.FeeLimitMsat) &&
		!(e.Failed && req.UseMissionControl) && (req.MaxCltv == nil || e.Cltv+40 <= int(*req.MaxCltv))
}

// GraphNode is what the public graph says about an identity.
type GraphNode struct {
	Idx     int      `json:"idx"`
	Known   bool     `json:"known"`
	HasNode bool     `json:"has_node"`
	Extra   int      `json:"extra"` // channels in the graph
	Addrs   []string `json:"addrs,omitempty"`
	Feats   []int    `json:"feats,omitempty"`
	UpUs    int64    `json:"up_us,omitempty"`   // how long a connection takes
	NeverUp bool     `json:"never,omitempty"`   // connecting never succeeds
	ConnErr bool     `json:"connerr,omitempty"` // lnd refuses to connect
}

// Node is an lnd node with the boltnd instances that ran next to it.
type Node struct {
	*Ident
	w      *World
	peers  map[[33]byte]int64 // connected peers and since when
	linkAt map[[33]byte]int64 // earliest delivery time, for FIFO links
	inst   *Inst              // the newest instance
	insts  []*Inst
	faults []*lndFault
	flaps  int
	backlg int
}

// Arrival is a custom message that reached a node's lnd.
type Arrival struct {
	Data []byte
	Type uint32
	From [33]byte
	At   int64
}

// Emission is a message handed to lnd by an instance.
type Emission struct {
	Seq    int
	AtNs   int64
	Node   int
	Inst   *Inst
	Op     int
	Peer   [33]byte
	Type   uint32
	Data   []byte
	Trans  bool // it took effect
	TrySeq int
	Done   bool
	Err    error // with Trans: it took effect although the call failed
	DoneS  int
}

func (w *World) setPeer(a, b int, up bool) {
	set := func(x, y int) {
		if x >= len(w.nodes) {
			return
		}
		n := w.nodes[x]
		if up {
			if _, ok := n.peers[w.ids[y].Pub]; !ok {
				var now int64
				if w.r != nil {
					now = w.r.NowNs()
				}
				n.peers[w.ids[y].Pub] = now
			}
		} else {
			if _, ok := n.peers[w.ids[y].Pub]; ok {
				delete(n.peers, w.ids[y].Pub)
				n.flaps++
			}
		}
	}
	set(a, b)
	set(b, a)
}

func (w *World) edge(a, b int) *Edge {
	for i := range w.edges {
		e := &w.edges[i]
		if e.A == a && e.B == b || e.A == b && e.B == a {
			return e
		}
	}
	return nil
}

// path is a shortest path over active channels, without the start.
func (w *World) path(from, to int, rng *simrt.RNG, use func(e *Edge, first bool) bool) []int {
	if from == to {
		return nil
	}
	prev := map[int]int{from: from}
	q := []int{from}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		var nb []int
		for _, e := range w.edges {
			if !e.Chan || !e.Active || !use(&e, x == from) {
				continue
			}
			if e.A == x {
				nb = append(nb, e.B)
			} else if e.B == x {
				nb = append(nb, e.A)
			}
		}
		sort.Ints(nb)
		for i := len(nb) - 1; i > 0; i-- {
			j := rng.Intn(i + 1)
			nb[i], nb[j] = nb[j], nb[i]
		}
		for _, y := range nb {
			if _, ok := prev[y]; !ok {
				prev[y] = x
				q = append(q, y)
			}
		}
	}
	if _, ok := prev[to]; !ok {
		return nil
	}
	var p []int
	for x := to; x != from; x = prev[x] {
		p = append([]int{x}, p...)
	}
	return p
}
