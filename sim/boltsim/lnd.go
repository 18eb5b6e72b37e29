//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/verifsim/lndhook"
	"github.com/carlakc/boltnd/verifsim/simrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"reflect"
	"unsafe"
)

// lndFault makes calls of one method misbehave for a while.
type lndFault struct {
	Method string
	Mode   string // error, stall, ambig, late, slow, noroute, empty, nilpub, badpub
	Cnt    int    // calls left
	Until  int64  // simulated time it ends
	Slow   int64
	Code   int
	Skip   int // calls to let through first
}

// Call is one call of an instance to its lnd.
type Call struct {
	ID      int
	Inst    *Inst
	Op      int
	Method  string
	Arg     [33]byte
	Seq     int
	StartNs int64
	Done    bool
	EndSeq  int
	EndNs   int64
	Err     error
	Fault   string
	CtxEnd  bool
	PeerSet map[[33]byte]bool // ListPeers result
	Hops    [][33]byte        // QueryRoutes result
	NoRoute bool
	Linked  bool // there were channels all the way
	Host    string
	Addrs   []string
	NilNode bool
}

// Conn is a connection of an instance to lnd.
type Conn struct {
	lndclient.LightningClient // calls not modelled end in a nil dereference
	w                         *World
	node                      *Node
	inst                      *Inst
	closed                    bool
	closedCh                  chan struct{}
	streams                   []*stream
	closeSeq                  int
	openSeq                   int
}

type stream struct {
	conn    *Conn
	ctx     context.Context
	queue   []*Arrival
	pending bool // offering a message that nobody has taken
	lost    string
	code    int
	shape   int
	done    bool
	cancels bool
}

type opKey struct{}

func opOf(ctx context.Context) int {
	if v, ok := ctx.Value(opKey{}).(int); ok {
		return v
	}
	return simrt.Cur().Op
}

func (n *Node) matchFault(method string) *lndFault {
	now := n.w.r.NowNs()
	for _, f := range n.faults {
		if f.Method != method || f.Cnt <= 0 || now > f.Until {
			continue
		}
		if f.Skip > 0 {
			f.Skip--
			continue
		}
		f.Cnt--
		return f
	}
	return nil
}

func (f *lndFault) err() error {
	switch f.Code % 12 {
	case 0:
		return status.Error(codes.Unavailable, "simulated: lnd unavailable")
	case 1:
		return status.Error(codes.Internal, "simulated: lnd internal error")
	case 2:
		return errors.New("simulated plain error")
	case 3:
		return status.Error(codes.DeadlineExceeded, "simulated: lnd deadline")
	case 4:
		return status.Error(codes.Unknown, "simulated: unknown")
	case 5:
		return status.Error(codes.NotFound, "simulated: not found")
	case 6:
		return status.Error(codes.InvalidArgument, "simulated: invalid argument")
	case 7:
		return status.Error(codes.Canceled, "simulated: canceled")
	case 8:
		return context.DeadlineExceeded
	case 9:
		return status.Error(codes.FailedPrecondition, "simulated: failed precondition")
	case 10:
		return io.EOF
	}
	return status.Error(codes.ResourceExhausted, "simulated: exhausted")
}

var errTimeout30 = status.Error(codes.DeadlineExceeded, "context deadline exceeded")
var errConnClosed = status.Error(codes.Canceled, "grpc: the client connection is closing")

// call performs one unary call: request latency, effect, response latency.
func (c *Conn) call(ctx context.Context, method string, arg [33]byte, effect func(*Call) error) (*Call, error) {
	defer simrt.Harness()()
	w := c.w
	op := opOf(ctx)
	cl := &Call{ID: len(c.inst.calls) + 1, Inst: c.inst, Op: op, Method: method, Arg: arg, StartNs: w.r.NowNs()}
	cl.Seq = w.ev("call i%d op%d %s %s", c.inst.Tag, op, method, w.name(arg))
	c.inst.calls = append(c.inst.calls, cl)
	c.inst.open[cl] = true
	key := fmt.Sprintf("%d/%d/%s", c.inst.Tag, op, method)
	w.callNo[key]++
	rng := w.rng("call", c.inst.Seen, op, method, w.callNo[key])
	f := c.node.matchFault(method)
	mode := ""
	if f != nil {
		mode = f.Mode
		cl.Fault = mode
		w.fault("lnd_" + mode)
	}
	lat := int64(w.plan.LatUs) * us
	req := time.Duration(rng.Dur(time.Duration(lat/4), time.Duration(lat)))
	resp := time.Duration(rng.Dur(0, time.Duration(lat/2)))
	if mode == "slow" {
		req += time.Duration(f.Slow)
	}
	end := func(err error) (*Call, error) {
		cl.Done, cl.Err, cl.EndNs = true, err, w.r.NowNs()
		delete(c.inst.open, cl)
		cl.EndSeq = w.ev("call-end i%d op%d %s %s: %v", c.inst.Tag, op, method, w.name(arg), err)
		if in := c.inst; method == "DeriveSharedKey" && cl.CtxEnd && cl.EndNs-cl.StartNs < 14900*ms && in.stopSeq == 0 && in.lostSeq == 0 && !in.paused && !in.dead() {
			w.violate("gave-up-early", "C15", "%s: a key operation is given up after only %v", in.name(), time.Duration(cl.EndNs-cl.StartNs))
		}
		if in := c.inst; method == "SendCustomMessage" && op == 0 && cl.CtxEnd && cl.EndNs-cl.StartNs < 9900*ms && in.stopSeq == 0 && in.lostSeq == 0 && !in.paused && !in.dead() {
			w.violate("forward-given-up", "C04 C15", "%s: lnd is slow to take a message to relay, which is given up after only %v", in.name(), time.Duration(cl.EndNs-cl.StartNs))
		}
		w.callEnded(cl)
		return cl, err
	}
	deadline := w.r.NowNs() + 30*s1
	if method == "DeriveSharedKey" || method == "GetInfo" {
		// These must be bounded by boltnd itself.
		deadline = w.r.NowNs() + 3600*s1
	}
	// wait returns an error if the call cannot go on.
	wait := func(d time.Duration, forever bool) error {
		left := time.Duration(deadline - w.r.NowNs())
		to := forever || left < d
		if to {
			d = left
		}
		t := simrt.NewTimer(d)
		defer t.Stop()
		k := simrt.Select(false, simrt.RecvCase(ctx.Done()), simrt.RecvCase((<-chan struct{})(c.closedCh)), simrt.RecvCase(t.C))
		switch {
		case k == 0:
			cl.CtxEnd = true
			return status.FromContextError(ctx.Err()).Err()
		case k == 1:
			return errConnClosed
		case to:
			return errTimeout30
		}
		return nil
	}
	if ctx.Err() != nil {
		cl.CtxEnd = true
		return end(status.FromContextError(ctx.Err()).Err())
	}
	if c.closed {
		return end(errConnClosed)
	}
	if mode == "error" && rng.Chance(0.4) {
		return end(f.err()) // gRPC knows without asking lnd
	}
	if err := wait(req, mode == "stall"); err != nil {
		return end(err)
	}
	if mode == "error" {
		return end(f.err())
	}
	cl.Fault = mode
	if err := effect(cl); err != nil {
		if e := wait(resp, false); e != nil {
			return end(e)
		}
		return end(err)
	}
	if err := wait(resp, mode == "late"); err != nil {
		return end(err)
	}
	if mode == "ambig" {
		return end(f.err())
	}
	return end(nil)
}

// ---- the interface of lndclient ----

func (c *Conn) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	info := &lndclient.Info{IdentityPubkey: c.node.Pub}
	_, err := c.call(ctx, "GetInfo", [33]byte{}, func(*Call) error { return nil })
	if err != nil {
		return nil, err
	}
	return info, nil
}

func (c *Conn) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	var out []lndclient.Peer
	_, err := c.call(ctx, "ListPeers", [33]byte{}, func(cl *Call) error {
		var ks [][33]byte
		for k := range c.node.peers {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return string(ks[i][:]) < string(ks[j][:]) })
		cl.PeerSet = map[[33]byte]bool{}
		for _, k := range ks {
			cl.PeerSet[k] = true
			out = append(out, lndclient.Peer{Pubkey: route.Vertex(k)})
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (c *Conn) Connect(ctx context.Context, peer route.Vertex, host string, permanent bool) error {
	_, err := c.call(ctx, "Connect", peer, func(cl *Call) error {
		cl.Host = host
		n := c.node
		if _, ok := n.peers[peer]; ok {
			return status.Error(codes.Unknown, "already connected to peer")
		}
		id, ok := c.w.byPK[peer]
		if !ok {
			return nil // lnd keeps trying in the background
		}
		g := c.w.graph[id.Idx]
		if g.ConnErr {
			c.w.fault("connect_refused")
			return status.Error(codes.Unknown, "simulated: connection refused")
		}
		if g.NeverUp {
			c.w.fault("connect_never_up")
			return nil
		}
		w := c.w
		w.r.AfterNs(time.Duration(g.UpUs)*time.Microsecond, func() {
			w.setPeer(n.Idx, id.Idx, true)
			w.ev("peer up n%d %s", n.Idx, w.name(id.Pub))
		})
		return nil
	})
	return err
}

func (c *Conn) GetNodeInfo(ctx context.Context, pk route.Vertex, includeChannels bool) (*lndclient.NodeInfo, error) {
	var out *lndclient.NodeInfo
	_, err := c.call(ctx, "GetNodeInfo", pk, func(cl *Call) error {
		g := c.w.graphOf(pk)
		if g == nil || !g.Known {
			return status.Error(codes.NotFound, "unable to find node")
		}
		out = &lndclient.NodeInfo{ChannelCount: c.w.chanCount(g)}
		if includeChannels {
			out.Channels = make([]lndclient.ChannelEdge, c.w.chanCount(g))
		}
		if g.HasNode {
			nd := &lndclient.Node{PubKey: pk, Addresses: append([]string(nil), g.Addrs...)}
			for _, f := range g.Feats {
				nd.Features = append(nd.Features, lnwire.FeatureBit(f))
			}
			out.Node = nd
			cl.Addrs = nd.Addresses
		} else {
			cl.NilNode = true
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (c *Conn) ListChannels(ctx context.Context, activeOnly, publicOnly bool) ([]lndclient.ChannelInfo, error) {
	var out []lndclient.ChannelInfo
	_, err := c.call(ctx, "ListChannels", [33]byte{}, func(cl *Call) error {
		for i, e := range c.w.edges {
			if !e.Chan || activeOnly && !e.Active || publicOnly && e.Priv {
				continue
			}
			o := -1
			if e.A == c.node.Idx {
				o = e.B
			} else if e.B == c.node.Idx {
				o = e.A
			}
			if o < 0 {
				continue
			}
			for k := 0; k <= e.More; k++ {
				out = append(out, lndclient.ChannelInfo{PubKeyBytes: c.w.ids[o].Pub, Active: e.Active, Private: e.Priv, ChannelID: uint64(i + 1 + k*1000)})
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (c *Conn) QueryRoutes(ctx context.Context, req lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {
	var out *lndclient.QueryRoutesResponse
	_, err := c.call(ctx, "QueryRoutes", req.PubKey, func(cl *Call) error {
		if cl.Fault == "noroute" {
			cl.NoRoute = true
			return lndclient.ErrNoRouteFound
		}
		out = &lndclient.QueryRoutesResponse{}
		if cl.Fault == "empty" {
			cl.NoRoute = true
			return nil
		}
		id, ok := c.w.byPK[req.PubKey]
		var p []int
		if ok {
			from := c.node.Idx
			if req.Source != nil {
				from = -1
				if id := c.w.byPK[*req.Source]; id != nil {
					from = id.Idx
				}
			}
			rng := func() *simrt.RNG {
				return c.w.rng("route", c.inst.Seen, cl.Op, c.w.callNo[fmt.Sprintf("%d/%d/QueryRoutes", c.inst.Tag, cl.Op)])
			}
			p = c.w.path(from, id.Idx, rng(), func(e *Edge, first bool) bool { return e.carries(&req, first) })
			if req.LastHop != nil && len(p) > 1 && c.w.ids[p[len(p)-2]].Pub != *req.LastHop {
				p = nil
			}
		}
		if len(p) == 0 {
			cl.NoRoute = true
			cl.Linked = c.w.channelsTo(c.node.Idx, cl.Op, id)
			return lndclient.ErrNoRouteFound
		}
		for i, h := range p {
			v := route.Vertex(c.w.ids[h].Pub)
			hop := &lndclient.Hop{PubKey: &v, ChannelID: uint64(i + 1)}
			if cl.Fault == "nilpub" && i == len(p)/2 {
				hop.PubKey = nil
			}
			if cl.Fault == "badpub" && i == len(p)/2 {
				bad := route.Vertex{5, 1, 2, 3}
				hop.PubKey = &bad
			}
			cl.Hops = append(cl.Hops, v)
			out.Hops = append(out.Hops, hop)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (c *Conn) SendCustomMessage(ctx context.Context, msg lndclient.CustomMessage) error {
	w := c.w
	em := &Emission{Node: c.node.Idx, Inst: c.inst, Op: opOf(ctx), Peer: msg.Peer, Type: msg.MsgType,
		Data: append([]byte(nil), msg.Data...), AtNs: w.r.NowNs()}
	em.TrySeq = w.seq
	c.inst.tries = append(c.inst.tries, em)
	cl0, err := c.call(ctx, "SendCustomMessage", msg.Peer, func(cl *Call) error {
		if _, ok := c.node.peers[msg.Peer]; !ok {
			return status.Error(codes.Unknown, "simulated: peer is not connected")
		}
		em.Trans = true
		w.transmit(c.node, em)
		return nil
	})
	em.Done, em.Err, em.DoneS = true, err, cl0.EndSeq
	return err
}

func (c *Conn) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	var st *stream
	var msgs chan lndclient.CustomMessage
	var errs chan error
	_, err := c.call(ctx, "SubscribeCustomMessages", [33]byte{}, func(cl *Call) error {
		st = &stream{conn: c, ctx: ctx}
		msgs = make(chan lndclient.CustomMessage)
		errs = make(chan error, 1)
		c.streams = append(c.streams, st)
		return nil
	})
	if err != nil {
		if st != nil {
			st.done = true
		}
		// A node that itself ended the context has not lost anything.
		if ctx.Err() == nil {
			c.inst.lose("open", err)
		} else if in := c.inst; in.stopSeq == 0 && !in.dead() {
			c.w.violate("stream-not-opened", "C03 C05 C10 C19", "%s: lnd's message stream is opened with a context that is done (%v) although the node was not asked to stop", in.name(), ctx.Err())
		}
		return nil, nil, err
	}
	simrt.GoNamed("pump", 0, 0, func() { st.pump(msgs, errs) })
	return msgs, errs, nil
}

// streamErrs are ways a stream fails.
var streamErrs = []error{nil,
	status.Error(codes.Unavailable, "simulated: transport is closing"),
	io.EOF, context.Canceled, context.DeadlineExceeded,
	status.Error(codes.Canceled, "simulated: context canceled"),
	status.Error(codes.DeadlineExceeded, "simulated: deadline exceeded"),
	status.Error(codes.Unknown, "simulated: unknown"),
	status.Error(codes.Internal, "simulated: internal"),
	status.Error(codes.ResourceExhausted, "simulated: too big"),
	errors.New("simulated: lnd shutting down"),
	errors.New("rpc is not active, waiting to start"),
}

// pump does what lndclient's receiving goroutine does.
func (st *stream) pump(msgs chan lndclient.CustomMessage, errs chan error) {
	c := st.conn
	w := c.w
	closeErrs, closeMsgs := true, true
	defer func() {
		st.done = true
		st.pending = false
		if closeErrs {
			simrt.Close((chan<- error)(errs))
		}
		if closeMsgs {
			simrt.Close((chan<- lndclient.CustomMessage)(msgs))
		}
	}()
	failRaw := func(err error) {
		simrt.Select(true, simrt.SendCase((chan<- error)(errs))(err))
	}
	fail := func(err error) { failRaw(fmt.Errorf("receive failed: %w", err)) }
	for {
		simrt.Block("lnd stream", func() bool {
			return len(st.queue) > 0 || st.lost != "" || c.closed || st.ctx.Err() != nil
		})
		switch {
		case c.closed:
			fail(errConnClosed)
			return
		case st.ctx.Err() != nil:
			fail(status.FromContextError(st.ctx.Err()).Err())
			return
		case st.lost == "close":
			// lndclient closes both; a consumer must not rely on more than one.
			switch st.shape {
			case 1:
				closeErrs = false
			case 2:
				closeMsgs = false
			}
			c.inst.lose("close", nil)
			return
		case st.lost != "" && (st.lost == "now" || len(st.queue) == 0):
			c.inst.lose("err", nil)
			err := error(status.Error(codes.Unavailable, "simulated: stream lost"))
			if e := streamErrs[st.code%len(streamErrs)]; e != nil {
				err = e
			}
			switch st.shape {
			case 1:
				failRaw(err)
			case 2:
				closeErrs, closeMsgs = false, false
				failRaw(err)
			default:
				fail(err)
			}
			return
		}
		a := st.queue[0]
		st.queue = st.queue[1:]
		st.pending = true
		msg := lndclient.CustomMessage{Peer: a.From, MsgType: a.Type, Data: append([]byte(nil), a.Data...)}
		k := simrt.Select(false,
			simrt.SendCaseHook((chan<- lndclient.CustomMessage)(msgs), msg, func() {
				st.pending = false
				c.inst.handoff(a)
			}),
			simrt.RecvCase(st.ctx.Done()))
		if k == 1 {
			w.ev("pump i%d ends: context", c.inst.Tag)
			return
		}
	}
}

// close is what GrpcLndServices.Close does.
func (c *Conn) close() {
	defer simrt.Harness()()
	if !c.closed {
		c.closed = true
		c.closeSeq = c.w.ev("conn closed i%d", c.inst.Tag)
		simrt.Close((chan<- struct{})(c.closedCh))
	}
	simrt.Block("lndclient goroutines", func() bool {
		for _, s := range c.streams {
			if !s.done {
				return false
			}
		}
		return true
	})
}

// signer performs key operations.
type signer struct {
	lndclient.SignerClient
	c *Conn
}

func (s *signer) DeriveSharedKey(ctx context.Context, pub *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {
	var arg [33]byte
	copy(arg[:], pub.SerializeCompressed())
	var out [32]byte
	_, err := s.c.call(ctx, "DeriveSharedKey", arg, func(cl *Call) error {
		k := s.c.node.Priv
		if loc != nil && (loc.Family != keychain.KeyFamilyNodeKey || loc.Index != 0) {
			k = identKey(^s.c.w.plan.KeySeed, int(loc.Family)<<8|int(loc.Index))
		}
		r := recECDH{}
		r.PrivKeyECDH.PrivKey = k
		var err error
		out, err = r.PrivKeyECDH.ECDH(pub)
		return err
	})
	if err != nil {
		return [32]byte{}, err
	}
	return out, nil
}

// connect is lndclient.NewLndServices.
func connect(cfg *lndclient.LndServicesConfig) (*lndclient.GrpcLndServices, error) {
	defer simrt.Harness()()
	t := simrt.Cur()
	w := theWorld
	in := w.byTag[t.Tag]
	if in == nil {
		panic("connection to lnd from outside an instance")
	}
	at := &Attempt{StartNs: w.r.NowNs(), Op: t.Op}
	in.attempts = append(in.attempts, at)
	k := len(in.attempts)
	at.Seq = w.ev("connect attempt %d i%d", k, in.Tag)
	rng := w.rng("connect", in.Seen, k)
	d := rng.Dur(time.Millisecond, 3*time.Millisecond)
	if in.boot.ConnSlow > 0 {
		d += time.Duration(in.boot.ConnSlow) * time.Microsecond
		w.fault("lnd_connect_slow")
	}
	simrt.Sleep(d)
	at.EndNs = w.r.NowNs()
	at.Done = true
	w.happened("connect", in.node.Idx)
	if k <= in.boot.ConnFail && !w.healed {
		at.Err = fmt.Errorf("simulated: attempt %d of i%d cannot reach lnd (%s)", k, in.Tag, in.boot.ErrTag())
		w.fault("lnd_connect_error")
		w.ev("connect failed i%d: %v", in.Tag, at.Err)
		return nil, at.Err
	}
	c := &Conn{w: w, node: in.node, inst: in, closedCh: make(chan struct{})}
	c.openSeq = w.ev("connected i%d", in.Tag)
	in.conns = append(in.conns, c)
	svc := &lndclient.GrpcLndServices{}
	svc.Client = c
	svc.Signer = &signer{c: c}
	svc.ChainParams = &chaincfg.RegressionNetParams
	svc.NodePubkey = in.node.Pub
	setCleanup(svc, c.close)
	return svc, nil
}

func setCleanup(svc *lndclient.GrpcLndServices, f func()) {
	v := reflect.ValueOf(svc).Elem().FieldByName("cleanup")
	*(*func())(unsafe.Pointer(v.UnsafeAddr())) = f
}

var theWorld *World

func init() { lndhook.Connect = connect }

// ---- the network between lnd nodes ----

func (w *World) graphOf(pk [33]byte) *GraphNode {
	id, ok := w.byPK[pk]
	if !ok {
		return nil
	}
	return w.graph[id.Idx]
}

// chanCount is the number of channels of a node in the public graph.
func (w *World) chanCount(g *GraphNode) int { return g.Extra }

func (w *World) transmit(n *Node, em *Emission) {
	w.sent = append(w.sent, em)
	em.Seq = w.ev("transmit n%d -> %s op%d type %d %d bytes", n.Idx, w.name(em.Peer), em.Op, em.Type, len(em.Data))
	id, ok := w.byPK[em.Peer]
	if !ok {
		return
	}
	e := w.edge(n.Idx, id.Idx)
	lat := int64(w.plan.LinkUs)
	if e != nil && e.LatUs > 0 {
		lat = int64(e.LatUs)
	}
	key := fmt.Sprintf("link %d %d", n.Idx, id.Idx)
	w.callNo[key]++
	rng := w.rng("link", n.Idx, id.Idx, em.Op, w.callNo[key])
	d := int64(rng.Dur(time.Duration(lat*us/2), time.Duration(lat*us)))
	at := w.r.NowNs() + d
	data := em.Data
	l := w.plan.Link
	if w.healed {
		l = LinkFaults{}
	}
	if rng.Chance(l.Drop) {
		w.fault("net_drop")
		w.ev("net drop")
		return
	}
	if rng.Chance(l.Corrupt) {
		w.fault("net_corrupt")
		data = append([]byte(nil), data...)
		k := rng.Intn(len(data))
		data[k] ^= byte(1 << rng.Intn(8))
	}
	if rng.Chance(l.Reorder) {
		w.fault("net_reorder")
		at += int64(rng.Dur(time.Millisecond, 200*time.Millisecond))
	} else {
		to := w.ids[id.Idx].Pub
		if at < n.linkAt[to] {
			at = n.linkAt[to]
		}
		n.linkAt[to] = at
	}
	a := &Arrival{Data: data, Type: em.Type, From: n.Pub}
	w.r.AfterNs(time.Duration(at-w.r.NowNs()), func() { w.arrive(id.Idx, a) })
	if rng.Chance(l.Dup) {
		w.fault("net_dup")
		b := &Arrival{Data: data, Type: em.Type, From: n.Pub}
		w.r.AfterNs(time.Duration(at-w.r.NowNs()+int64(rng.Dur(0, 500*time.Millisecond))), func() { w.arrive(id.Idx, b) })
	}
}

// arrive hands a message to a node's lnd.
func (w *World) arrive(idx int, a *Arrival) {
	a.At = w.r.NowNs()
	w.arrivals[idx] = append(w.arrivals[idx], a)
	w.ev("arrive %d from %s type %d %d bytes", idx, w.name(a.From), a.Type, len(a.Data))
	if idx >= len(w.nodes) {
		return
	}
	n := w.nodes[idx]
	for _, in := range n.insts {
		for _, c := range in.conns {
			for _, s := range c.streams {
				if !s.done && !c.closed && s.lost == "" && s.ctx.Err() == nil {
					s.queue = append(s.queue, a)
				}
			}
		}
	}
}

// channelsTo tells whether there are channels all the way to the destination of
// the call, whatever node lnd was asked for.
func (w *World) channelsTo(from, op int, asked *Ident) bool {
	to := asked
	if o := w.ops[op]; o != nil {
		if t, ok := o.target(); ok {
			to = w.byPK[t]
		}
	}
	return to != nil && len(w.path(from, to.Idx, simrt.NewRNG(1), func(e *Edge, first bool) bool { return true })) > 0
}
