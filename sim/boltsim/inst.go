//go:build go1.21

package main

import (
	"github.com/btcsuite/btclog"
	"io"

	"context"
	"errors"
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/verifsim/simrt"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// Attempt is one attempt to connect to lnd.
type Attempt struct {
	Op      int
	Seq     int
	StartNs int64
	EndNs   int64
	Done    bool
	Err     error
}

// Life is one call of Start or Stop.
type Life struct {
	Op      int
	CallSeq int
	CallNs  int64
	Done    bool
	RetSeq  int
	RetNs   int64
	Err     error
}

// Inst is one run of boltnd: from its creation to its stop or crash.
type Inst struct {
	w      *World
	node   *Node
	Tag    int
	Seen   int // number of the step that created it
	boot   *Step
	b      *boltnd.Boltnd
	srv    interface{}
	noCB   bool
	starts []*Life
	stops  []*Life

	attempts []*Attempt
	conns    []*Conn
	calls    []*Call
	open     map[*Call]bool

	readySeq int
	readyNs  int64
	stopSeq  int // first Stop called
	stopNs   int64
	downSeq  int // a Stop took effect and returned
	downNs   int64
	deadSeq  int // crashed
	lostSeq  int // lnd's stream was lost
	lostNs   int64
	lostHow  string
	shut     []int64 // shutdown callbacks
	shutSeq  int

	handoffs []*Handoff
	tries    []*Emission
	paused   bool // was suspended at some time
	lossAny  bool
	ops      []*Op
	idle     []int // event numbers at which it was idle
	created  int
	sending  int // stream sends in progress
	ended    bool
	stopped  bool // harness asked it to stop because it requested shutdown
}

// Handoff is a message taken from lnd by an instance.
type Handoff struct {
	N     int
	Seq   int
	AtNs  int64
	A     *Arrival
	P     *Peeled
	Opt   string // why it need not be processed: a fault hit it
	First bool   // the first copy of its onion
}

// Op is one RPC.
type Op struct {
	ID      int
	Step    *Step
	Inst    *Inst
	Kind    string
	CallSeq int
	CallNs  int64
	CanSeq  int // client cancelled
	CanNs   int64
	Done    bool
	RetSeq  int
	RetNs   int64
	Err     error
	Code    codes.Code
	Send    *SendSpec
	Sub     *SubRec
	GenSt   *genState
	Route   *RPath // generated
	Expect  interface{}
	GraphV0 int
	resp    proto.Message
	cancel  func()
	timeout bool
	preDown bool  // the instance was already gone when it was called
	peerAt  int64 // on return: since when the target is a peer, -1 if it is not
	flaps   int
	graphV1 int
}

// SubRec is what happened on a subscription's stream.
type SubRec struct {
	Type     uint64
	Recv     []*Recv
	Settled  int // event number of the first idle mark after the call
	FailSeq  int // a stream send failed
	FailErr  error
	Cause    int // earliest event that ends it
	sends    int
	inSend   int
	Overlaps bool
	Slow     bool
}

// Recv is one payload received on a stream.
type Recv struct {
	Seq   int
	AtNs  int64
	Value []byte
	Reply []byte
	RP    *RPath
}

func (in *Inst) name() string { return fmt.Sprintf("n%d/i%d", in.node.Idx, in.Tag) }

func (in *Inst) dead() bool { return in.deadSeq > 0 }

// running: Start has succeeded and nothing has ended it.
func (in *Inst) running() bool {
	return in.readySeq > 0 && in.stopSeq == 0 && in.deadSeq == 0 && in.lostSeq == 0
}

// lose notes that lnd's message stream is gone.
func (in *Inst) lose(how string, err error) {
	in.lossAny = true
	if in.lostSeq == 0 && in.stopSeq == 0 {
		in.lostSeq = in.w.ev("stream lost i%d (%s)", in.Tag, how)
		in.lostNs = in.w.r.NowNs()
		in.lostHow = how
	}
}

func (in *Inst) handoff(a *Arrival) {
	w := in.w
	h := &Handoff{N: len(in.handoffs), A: a, AtNs: w.r.NowNs()}
	h.Seq = w.ev("handoff i%d #%d type %d", in.Tag, h.N, a.Type)
	if a.Type != onionType {
		h.P = &Peeled{V: VDrop, Why: "not an onion message"}
	} else {
		h.P = w.peel(in.node.Ident, a.Data)
	}
	h.First = true
	if h.P.V != VDrop {
		for _, o := range in.handoffs {
			if o.P.V != VDrop && o.P.Key == h.P.Key {
				h.First = false
			}
		}
	}
	in.handoffs = append(in.handoffs, h)
	w.ev("  #%d: %s %s, first copy %v", h.N, h.P.V, h.P.Why, h.First)
	w.fault("messages_handed_over")
	w.happened("handoff", in.node.Idx)
}

const onionType = 513

// callEnded attributes failures of calls made by the event loop to messages.
func (w *World) callEnded(cl *Call) {
	in := cl.Inst
	w.happened("end-"+cl.Method, in.node.Idx)
	if cl.Err == nil {
		return
	}
	if cl.Method == "DeriveSharedKey" {
		for i := len(in.handoffs) - 1; i >= 0; i-- {
			h := in.handoffs[i]
			for _, a := range h.P.ECDH {
				if a == cl.Arg && h.Opt == "" {
					h.Opt = "key operation failed: " + cl.Err.Error()
				}
			}
		}
	}
}

// logger gives every instance a logger: none at all, or one that formats
// everything and throws it away. (boltnd's loggers belong to its packages, so
// the last instance created decides.)
func (w *World) logger(st *Step) func(string, boltnd.LogRegistration) {
	return func(sub string, register boltnd.LogRegistration) {
		l := btclog.Disabled
		if w.rng("log", st.ID).Chance(0.4) {
			l = logBackend.Logger(sub)
			l.SetLevel(btclog.LevelTrace)
		}
		register(l)
	}
}

var logBackend = btclog.NewBackend(io.Discard)

// newInst creates a boltnd and registers its RPC server.
func (w *World) newInst(n *Node, st *Step) *Inst {
	in := &Inst{w: w, node: n, Tag: 1000 + st.ID, Seen: st.ID, boot: st, open: map[*Call]bool{}, noCB: st.NoCB}
	w.insts = append(w.insts, in)
	w.byTag[in.Tag] = in
	n.insts = append(n.insts, in)
	n.inst = in
	in.created = w.ev("new instance %s", in.name())
	cfg := &lndclient.LndServicesConfig{Network: lndclient.NetworkRegtest, CheckVersion: boltnd.MinimumLNDVersion}
	opts := []boltnd.ConfigOption{
		boltnd.OptionLNDClient(cfg),
		func(c *boltnd.Config) error {
			c.LNDRetires = uint8(st.Retries)
			c.LNDWait = time.Duration(st.WaitUs) * time.Microsecond
			return nil
		},
		boltnd.OptionSetupLogger(w.logger(st)),
	}
	if !st.NoCB {
		opts = append(opts, boltnd.OptionRequestShutdown(func() {
			in.shut = append(in.shut, w.r.NowNs())
			in.shutSeq = w.ev("shutdown requested i%d", in.Tag)
			w.shutdownRequested(in)
		}))
	}
	done := false
	simrt.GoNamed("create", in.Tag, 0, func() {
		b, err := boltnd.NewBoltnd(opts...)
		if err != nil {
			panic(err)
		}
		g := grpc.NewServer()
		if err := b.RegisterGrpcSubserver(g); err != nil {
			panic(err)
		}
		in.b, in.srv = b, implOf(g)
		done = true
	})
	simrt.Block("create", func() bool { return done || in.dead() })
	return in
}

// implOf digs the service implementation out of a gRPC server.
func implOf(g *grpc.Server) interface{} {
	m := reflect.ValueOf(g).Elem().FieldByName("services")
	m = reflect.NewAt(m.Type(), unsafe.Pointer(m.UnsafeAddr())).Elem()
	v := m.MapIndex(reflect.ValueOf("offersrpc.Offers"))
	if !v.IsValid() {
		panic("offers service not registered")
	}
	f := v.Elem().FieldByName("serviceImpl")
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
}

// shutdownRequested lets the client obey the request, if the plan says so.
func (w *World) shutdownRequested(in *Inst) {
	if w.plan.StopOnShutdownUs <= 0 || in.stopped {
		return
	}
	in.stopped = true
	w.r.AfterNs(time.Duration(w.plan.StopOnShutdownUs)*time.Microsecond, func() {
		if !in.dead() && in.stopSeq == 0 {
			in.stop(900000 + in.Seen)
		}
	})
}

// await waits until the instance has been created.
func (in *Inst) await() {
	if in.b == nil {
		simrt.Block("created", func() bool { return in.b != nil })
	}
}

func (in *Inst) start(op int) *Life {
	w := in.w
	l := &Life{Op: op, CallNs: w.r.NowNs()}
	in.starts = append(in.starts, l)
	simrt.GoNamed(fmt.Sprintf("start-%d", op), in.Tag, 0, func() {
		in.await()
		l.CallSeq = w.ev("Start i%d", in.Tag)
		l.CallNs = w.r.NowNs()
		l.Err = in.b.Start()
		l.Done, l.RetNs = true, w.r.NowNs()
		l.RetSeq = w.ev("Start i%d returns %v", in.Tag, l.Err)
		w.happened("started", in.node.Idx)
		if l.Err == nil && in.readySeq == 0 {
			in.readySeq, in.readyNs = l.RetSeq, l.RetNs
		}
	})
	return l
}

func (in *Inst) stop(op int) *Life {
	w := in.w
	l := &Life{Op: op, CallNs: w.r.NowNs()}
	in.stops = append(in.stops, l)
	simrt.GoNamed(fmt.Sprintf("stop-%d", op), in.Tag, op, func() {
		in.await()
		l.CallSeq = w.ev("Stop i%d", in.Tag)
		l.CallNs = w.r.NowNs()
		if in.stopSeq == 0 {
			in.stopSeq, in.stopNs = l.CallSeq, l.CallNs
		}
		l.Err = in.b.Stop()
		l.Done, l.RetNs = true, w.r.NowNs()
		l.RetSeq = w.ev("Stop i%d returns %v", in.Tag, l.Err)
		if l.Err == nil && in.downSeq == 0 {
			in.downSeq, in.downNs = l.RetSeq, l.RetNs
			if !in.dead() {
				w.stopReturned(in)
			}
		}
	})
	return l
}

func (in *Inst) crash() {
	w := in.w
	in.deadSeq = w.ev("crash i%d", in.Tag)
	w.r.Kill(in.Tag)
	for _, c := range in.conns {
		if !c.closed {
			c.closed = true
			simrt.Close((chan<- struct{})(c.closedCh))
		}
		for _, s := range c.streams {
			s.cancels = true
		}
	}
	for cl := range in.open {
		delete(in.open, cl)
	}
	w.fault("crash")
}

// rpc runs one unary call as a gRPC server would.
func (w *World) rpc(op *Op, method string, req proto.Message, out proto.Message, after func()) {
	in := op.Inst
	base, cancel := simrt.WithCancel(context.WithValue(context.Background(), opKey{}, op.ID))
	op.cancel = func() { cancel() }
	wire, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	var h func(srv interface{}, ctx context.Context, dec func(interface{}) error, i grpc.UnaryServerInterceptor) (interface{}, error)
	for _, m := range offersrpc.Offers_ServiceDesc.Methods {
		if m.MethodName == method {
			h = m.Handler
		}
	}
	w.addOp(op)
	simrt.GoNamed(fmt.Sprintf("%s-%d", method, op.ID), in.Tag, op.ID, func() {
		in.await()
		op.CallSeq = w.ev("rpc %s op%d i%d", method, op.ID, in.Tag)
		op.CallNs = w.r.NowNs()
		var got proto.Message
		resp, err := h(in.srv, base, func(v interface{}) error {
			got = v.(proto.Message)
			return proto.Unmarshal(wire, got)
		}, nil)
		op.Done, op.RetNs, op.Err = true, w.r.NowNs(), err
		op.Code = status.Code(err)
		op.RetSeq = w.ev("rpc %s op%d returns %v %v", method, op.ID, op.Code, err)
		w.happened("rpc-end", in.node.Idx)
		if err == nil {
			b, e := proto.Marshal(resp.(proto.Message))
			if e == nil {
				e = proto.Unmarshal(b, out)
			}
			if e != nil {
				w.violate("response-unusable", "C17 C12", "op%d %s: response cannot be put on the wire: %v", op.ID, method, e)
			}
			op.resp = out
		}
		if got != nil && !proto.Equal(got, req) {
			w.violate("request-changed", "C17", "op%d %s: the request was changed during the call", op.ID, method)
		}
		cancel()
		if after != nil {
			after()
		}
	})
}

func (w *World) addOp(op *Op) {
	if op.Inst.downSeq > 0 {
		op.preDown = true
	}
	w.ops[op.ID] = op
	w.opList = append(w.opList, op)
	op.Inst.ops = append(op.Inst.ops, op)
}

func (w *World) cancelOp(op *Op, why string) {
	if op.Done || op.CanSeq > 0 {
		return
	}
	op.CanSeq = w.ev("cancel op%d (%s)", op.ID, why)
	op.CanNs = w.r.NowNs()
	w.fault("client_cancel")
	op.cancel()
}

var errStreamBroken = status.Error(codes.Unavailable, "simulated: transport is closing")

// sendErrs are what a failing send on a stream may return.
var sendErrs = []error{errStreamBroken, errStreamBroken, status.Error(codes.Canceled, "simulated: stream canceled"),
	status.Error(codes.DeadlineExceeded, "simulated: stream deadline"), status.Error(codes.Internal, "simulated: stream internal"),
	errors.New("simulated: plain stream error"), io.EOF, status.Error(codes.ResourceExhausted, "simulated: stream exhausted"), context.DeadlineExceeded, context.Canceled}

var errTooLarge = errors.New("simulated: message larger than max")

// subStream is the server's side of a subscription.
type subStream struct {
	w   *World
	op  *Op
	ctx context.Context
	req proto.Message
}

func (s *subStream) SetHeader(metadata.MD) error  { return nil }
func (s *subStream) SendHeader(metadata.MD) error { return nil }
func (s *subStream) SetTrailer(metadata.MD)       {}
func (s *subStream) Context() context.Context     { return s.ctx }

func (s *subStream) RecvMsg(m interface{}) error {
	b, _ := proto.Marshal(s.req)
	return proto.Unmarshal(b, m.(proto.Message))
}

func (s *subStream) SendMsg(m interface{}) error {
	defer simrt.Harness()()
	w, op, sub := s.w, s.op, s.op.Sub
	resp := m.(*offersrpc.SubscribeOnionPayloadResponse)
	b, err := proto.Marshal(resp)
	if err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	if op.Done {
		w.violate("send-after-return", "C07", "op%d: payload sent on the stream of a subscription that has returned", op.ID)
		return errStreamBroken
	}
	if sub.inSend > 0 {
		w.violate("concurrent-sends", "C07 C17", "op%d: two sends at a time on one stream, which gRPC forbids", op.ID)
	}
	got := &offersrpc.SubscribeOnionPayloadResponse{}
	if err := proto.Unmarshal(b, got); err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	sub.inSend++
	op.Inst.sending++
	defer func() { sub.inSend--; op.Inst.sending-- }()
	sub.sends++
	w.happened("stream-send", op.Inst.node.Idx)
	if st := op.Step; st.FailAt > 0 && (sub.sends == st.FailAt || sub.sends > st.FailAt && st.ID%2 == 0) {
		sub.FailErr = sendErrs[st.Code%len(sendErrs)]
		if st.Mode == "toolarge" {
			sub.FailErr = errTooLarge
		}
		if sub.FailSeq == 0 {
			sub.FailSeq = w.ev("stream send fails op%d", op.ID)
			w.fault("stream_send_error")
		}
		return sub.FailErr
	}
	if s.ctx.Err() != nil {
		return status.FromContextError(s.ctx.Err()).Err()
	}
	d := int64(op.Step.ReadUs) * us
	if op.Step.StallAt > 0 && sub.sends == op.Step.StallAt {
		d += op.Step.StallUs * us
		w.fault("reader_stall")
	}
	if w.healed && !op.Step.Forever {
		d = 0
	}
	if d > 0 {
		if op.Step.Forever {
			simrt.Select(false, simrt.RecvCase(s.ctx.Done()))
			return status.FromContextError(s.ctx.Err()).Err()
		}
		w.fault("slow_reader")
		t := simrt.NewTimer(time.Duration(d))
		k := simrt.Select(false, simrt.RecvCase(t.C), simrt.RecvCase(s.ctx.Done()))
		t.Stop()
		if k == 1 {
			return status.FromContextError(s.ctx.Err()).Err()
		}
	}
	r := &Recv{AtNs: w.r.NowNs(), Value: got.Value}
	if got.ReplyPath != nil {
		r.RP = fromRPC(got.ReplyPath)
		r.Reply = r.RP.Bytes()
	}
	r.Seq = w.ev("received op%d %d bytes %x reply %v", op.ID, len(r.Value), head(r.Value), r.RP != nil)
	sub.Recv = append(sub.Recv, r)
	w.happened("received", op.Inst.node.Idx)
	w.faults["payloads_received"]++
	return nil
}

func head(b []byte) []byte {
	if len(b) > 6 {
		return b[:6]
	}
	return b
}

func fromRPC(p *offersrpc.BlindedPath) *RPath {
	r := &RPath{Intro: p.IntroductionNode, Blinding: p.BlindingPoint}
	for _, h := range p.Hops {
		r.IDs = append(r.IDs, h.BlindedNodeId)
		r.Enc = append(r.Enc, h.EncryptedData)
	}
	return r
}

func toRPC(p *RPath) *offersrpc.BlindedPath {
	if p == nil {
		return nil
	}
	r := &offersrpc.BlindedPath{IntroductionNode: p.Intro, BlindingPoint: p.Blinding}
	for i := range p.IDs {
		r.Hops = append(r.Hops, &offersrpc.BlindedHop{BlindedNodeId: p.IDs[i], EncryptedData: p.Enc[i]})
	}
	return r
}

// subscribe opens a subscription.
func (w *World) subscribe(op *Op, typ uint64) {
	in := op.Inst
	op.Kind = "sub"
	op.Sub = &SubRec{Type: typ}
	ctx, cancel := simrt.WithCancel(context.WithValue(context.Background(), opKey{}, op.ID))
	op.cancel = func() { cancel() }
	s := &subStream{w: w, op: op, ctx: ctx, req: &offersrpc.SubscribeOnionPayloadRequest{TlvType: typ}}
	w.addOp(op)
	simrt.GoNamed(fmt.Sprintf("subscribe-%d", op.ID), in.Tag, op.ID, func() {
		in.await()
		op.CallSeq = w.ev("subscribe op%d i%d type %d", op.ID, in.Tag, typ)
		op.CallNs = w.r.NowNs()
		err := offersrpc.Offers_ServiceDesc.Streams[0].Handler(in.srv, s)
		op.Done, op.RetNs, op.Err = true, w.r.NowNs(), err
		op.Code = status.Code(err)
		op.RetSeq = w.ev("subscribe op%d returns %v %v", op.ID, op.Code, err)
		w.happened("sub-end", in.node.Idx)
		if op.Sub.inSend > 0 {
			w.violate("send-outlives-call", "C07", "op%d: the subscription returned with a send on its stream in progress", op.ID)
		}
		cancel()
	})
}
