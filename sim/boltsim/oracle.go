//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/verifsim/simrt"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

const inf = int(^uint(0) >> 1)

func before(a, b int) bool { return a > 0 && (b == 0 || a < b) }

// ---- obligations that hold whenever nothing can go on by itself ----

func (w *World) onIdle(next int64) {
	for _, in := range w.insts {
		if in.dead() || in.b == nil {
			continue
		}
		if w.r.Paused(in.Tag) {
			continue
		}
		w.idleInst(in)
	}
}

func (in *Inst) subOp(id int) bool {
	op := in.w.ops[id]
	return op != nil && op.Kind == "sub"
}

func (w *World) idleInst(in *Inst) {
	now := w.r.NowNs()
	openLoop, openAny := false, false
	for cl := range in.open {
		openAny = true
		if cl.Op == 0 || in.subOp(cl.Op) || cl.Op >= 700000 || w.isStop(in, cl.Op) {
			openLoop = true
		}
		if cl.Method == "DeriveSharedKey" && now-cl.StartNs > 16*s1 && !in.paused {
			w.violate("key-operation-not-given-up", "C15", "%s: a key operation that lnd does not answer is still waited for after %v", in.name(), time.Duration(now-cl.StartNs))
		}
		if cl.Method == "GetInfo" && now-cl.StartNs > 60*s1 && !in.paused {
			w.violate("startup-not-given-up", "C15", "%s: starting still waits for lnd after %v", in.name(), time.Duration(now-cl.StartNs))
		}
	}
	timerLoop := w.r.TimerPending(in.Tag, 5*time.Second, func(op int) bool { return op == 0 || in.subOp(op) || w.isStop(in, op) })
	still := !openLoop && !timerLoop // the instance itself has nothing to do
	quiet := still && in.sending == 0
	pending := false
	for _, c := range in.conns {
		for _, s := range c.streams {
			if s.pending && !s.done {
				pending = true
			}
		}
	}
	if quiet && pending && in.running() {
		p := "C05 C07 C16 C03 C15 C19 C06"
		w.violate("wedged", p, "%s: a message from lnd is never taken although nothing is in progress; %s", in.name(), w.where(in))
	}
	if quiet && !pending && in.running() {
		if n := len(in.idle); n == 0 || in.idle[n-1] != w.seq {
			in.idle = append(in.idle, w.seq)
		}
		for _, op := range in.ops {
			if op.Kind == "sub" && op.CallSeq > 0 && !op.Done && op.Sub.Settled == 0 {
				op.Sub.Settled = w.seq
			}
		}
	}
	for _, op := range in.ops {
		if op.CallSeq == 0 || op.Done {
			continue
		}
		if op.Kind == "sub" {
			c := op.cause()
			switch {
			case c != "" && quiet:
				p := "C07"
				if strings.Contains(c, "stop") {
					p += " C08"
				} else {
					p += " C05 C06"
				}
				if in.lostSeq > 0 {
					p += " C10"
				}
				w.violate("subscription-stuck", p, "%s: subscription op%d has not returned although it ended (%s); %s", in.name(), op.ID, c, w.where(in))
			case c != "" && still && in.foreverOther(op) && now-op.causeNs() > 60*s1:
				w.violate("unsubscribe-held-up", "C07", "%s: subscription op%d (type %d) has not returned %v after it ended (%s), because the client of another subscription does not read", in.name(), op.ID, op.Sub.Type, time.Duration(now-op.causeNs()), c)
			case c == "" && quiet && in.lostSeq > 0 && in.stopSeq == 0 && op.Sub.Settled == 0 && len(in.shut) > 0 && op.CallSeq > in.shutSeq:
				w.violate("subscription-stuck-after-loss", "C10 C05", "%s: subscription op%d made after lnd's stream was lost hangs", in.name(), op.ID)
			}
			continue
		}
		busy := w.r.TimerPending(in.Tag, time.Minute, func(o int) bool { return o == op.ID })
		for cl := range in.open {
			if cl.Op == op.ID {
				busy = true
			}
		}
		if busy {
			continue
		}
		what := ""
		p := ""
		switch {
		case op.CanSeq > 0:
			what, p = "its client cancelled it", "C09 C11 C12 C17"
			if in.stopSeq > 0 {
				p += " C08"
			}
		case in.stopSeq > 0:
			what, p = "the server was stopped", "C08"
			if in.downSeq == 0 {
				continue // Stop itself is judged
			}
		case in.readySeq > 0:
			what, p = "the server is ready", "C05 C09 C15 C17 C19"
			if in.lostSeq > 0 {
				p = "C05 C10"
			}
			if openAny {
				p += " C15"
			}
		}
		if what != "" {
			w.violate("rpc-stuck", p, "%s: %s op%d has not returned although %s and lnd owes it nothing; %s", in.name(), op.Kind, op.ID, what, w.where(in))
		}
	}
	startOpen := false
	for _, l := range in.starts {
		if !l.Done && l.CallSeq > 0 {
			startOpen = true
			if !openLoop && !w.r.TimerPending(in.Tag, 10*time.Minute+in.boot.attempt(), func(op int) bool { return op == 0 }) {
				w.violate("start-stuck", "C15 C18 C09", "%s: Start has not returned although nothing is in progress; %s", in.name(), w.where(in))
			}
			if n := len(in.attempts); n > 0 && in.attempts[n-1].Done && in.attempts[n-1].Err == nil && now-in.attempts[n-1].EndNs > 90*s1 && !in.paused {
				w.violate("startup-not-given-up", "C15", "%s: Start has not returned %v after it connected to lnd; %s", in.name(), time.Duration(now-in.attempts[n-1].EndNs), w.where(in))
			}
		}
	}
	for _, l := range in.stops {
		if !l.Done && l.CallSeq > 0 && still {
			p := "C08"
			if in.lostSeq > 0 {
				p += " C10"
			}
			w.violate("stop-stuck", p, "%s: Stop has not returned although nothing is in progress; %s", in.name(), w.where(in))
		}
		if !l.Done && l.CallSeq > 0 && now-l.CallNs > 90*s1 && !in.paused {
			w.violate("stop-unbounded", "C08", "%s: Stop has not returned after %v; %s", in.name(), time.Duration(now-l.CallNs), w.where(in))
		}
	}
	if in.lostSeq > 0 && len(in.shut) == 0 && !in.noCB && in.stopSeq == 0 && quiet {
		w.violate("no-shutdown-request", "C10", "%s: lnd's message stream was lost (%s) but shutdown was not requested", in.name(), in.lostHow)
	}
	if in.downSeq > 0 && !startOpen && !timerLoop {
		stops := false
		for _, l := range in.stops {
			if !l.Done {
				stops = true
			}
		}
		for _, t := range w.r.Live(in.Tag) {
			if t.Op != 0 && w.ops[t.Op] != nil && !w.ops[t.Op].Done || stops {
				continue
			}
			w.violate("leftover-goroutine", "C08", "%s: Stop has returned but a goroutine lives on: %s", in.name(), w.r.Describe(t))
		}
		for _, c := range in.conns {
			if !c.closed {
				w.violate("connection-left-open", "C08", "%s: Stop has returned but the connection to lnd is still open", in.name())
			}
		}
	}
}

// stopReturned looks at what a Stop that took effect has left behind.
func (w *World) stopReturned(in *Inst) {
	for cl := range in.open {
		if cl.Op == 0 {
			w.violate("call-outlives-stop", "C08", "%s: Stop has returned but a call of %s from the background is still in progress", in.name(), cl.Method)
			return
		}
	}
	for _, l := range in.stops {
		if !l.Done {
			return
		}
	}
	for _, l := range in.starts {
		if !l.Done && l.CallSeq > 0 {
			return
		}
	}
	for _, t := range w.r.Live(in.Tag) {
		if t.Op == 0 && t != simrt.Cur() && w.r.Waiting(t) {
			w.violate("leftover-goroutine", "C08", "%s: Stop has returned but a goroutine lives on: %s", in.name(), w.r.Describe(t))
			return
		}
	}
}

func (w *World) isStop(in *Inst, op int) bool {
	for _, l := range in.stops {
		if l.Op == op && op != 0 {
			return true
		}
	}
	return false
}

func (w *World) where(in *Inst) string {
	var l []string
	for i, t := range w.r.Live(in.Tag) {
		if i < 6 {
			l = append(l, w.r.Describe(t))
		}
	}
	return "tasks: " + strings.Join(l, "; ")
}

// foreverOther: another subscription's client will never read.
func (in *Inst) foreverOther(me *Op) bool {
	for _, op := range in.ops {
		if op != me && op.Kind == "sub" && op.Step.Forever && op.Sub.inSend > 0 {
			return true
		}
	}
	return false
}

// cause lists what should have ended a subscription by now.
func (op *Op) cause() string {
	var l []string
	if op.CanSeq > 0 {
		l = append(l, "cancel")
	}
	if op.Sub.FailSeq > 0 {
		l = append(l, "send failure")
	}
	if op.Inst.stopSeq > 0 {
		l = append(l, "stop")
	}
	return strings.Join(l, ", ")
}

func (op *Op) causeNs() int64 {
	t := int64(0)
	min := func(a int64) {
		if a > 0 && (t == 0 || a < t) {
			t = a
		}
	}
	min(op.CanNs)
	min(op.Inst.stopNs)
	return t
}

// causeSeq is the first event that ends, or may end, a subscription.
func (op *Op) causeSeq() int {
	c := inf
	min := func(a int) {
		if a > 0 && a < c {
			c = a
		}
	}
	min(op.CanSeq)
	min(op.Sub.FailSeq)
	min(op.Inst.stopSeq)
	min(op.Inst.deadSeq)
	min(op.Inst.lostSeq)
	return c
}

func (in *Inst) endSeq() int {
	c := inf
	for _, a := range []int{in.stopSeq, in.deadSeq, in.lostSeq} {
		if a > 0 && a < c {
			c = a
		}
	}
	return c
}

// idleBetween: the instance was idle at some time after a and before b.
func (in *Inst) idleBetween(a, b int) bool {
	// A mark is the number of the last event before the idle moment.
	i := sort.SearchInts(in.idle, a)
	return i < len(in.idle) && in.idle[i] < b
}

// ---- the history, at the end ----

func (w *World) final() {
	w.ev("final")
	for _, in := range w.insts {
		w.checkLife(in)
		w.checkLoss(in)
		w.checkConnect(in)
		w.checkSubs(in)
		w.checkForwards(in)
	}
	for _, op := range w.opList {
		switch op.Kind {
		case "send":
			w.checkSend(op)
		case "decode":
			w.checkDecode(op)
		}
		if op.Kind != "sub" {
			w.checkUnary(op)
		}
		if !op.Done && op.CallSeq > 0 && !op.Inst.dead() && !w.anyForever() {
			w.violate("never-returned", "C08 C07", "%s: %s op%d never returned, not even after Stop; %s", op.Inst.name(), op.Kind, op.ID, w.where(op.Inst))
		}
	}
	w.checkFresh()
	w.checkEndToEnd()
}

func (w *World) anyForever() bool {
	for _, op := range w.opList {
		if op.Step != nil && op.Step.Forever {
			return true
		}
	}
	return false
}

func (w *World) checkLife(in *Inst) {
	ok := 0
	for _, l := range in.starts {
		if l.Done && l.Err == nil {
			ok++
		}
	}
	if ok > 1 {
		w.violate("two-starts", "C09", "%s: %d calls of Start took effect", in.name(), ok)
	}
	okStop, done := 0, 0
	for _, l := range in.stops {
		if l.Done {
			done++
			if l.Err == nil {
				okStop++
			}
		} else if !in.dead() && l.CallSeq > 0 {
			w.violate("stop-never-returned", "C08", "%s: Stop never returned", in.name())
		}
	}
	if okStop > 1 {
		w.violate("two-stops", "C09", "%s: %d calls of Stop took effect", in.name(), okStop)
	}
	if done > 0 && done == len(in.stops) && okStop == 0 && !in.dead() {
		w.violate("stop-failed", "C08 C09", "%s: no call of Stop took effect: %s", in.name(), lifeStr(in.stops))
	}
	if in.dead() {
		return
	}
	if in.downSeq > 0 {
		for _, h := range in.handoffs {
			if h.Seq > in.downSeq {
				w.violate("message-after-stop", "C08 C19", "%s takes a message from lnd after Stop returned", in.name())
			}
		}
		for _, cl := range in.calls {
			if cl.Seq > in.downSeq && cl.Op == 0 {
				w.violate("call-after-stop", "C08 C19", "%s calls %s after Stop returned", in.name(), cl.Method)
			}
		}
		for _, l := range in.starts {
			if l.Done && l.Err == nil && l.CallSeq > in.downSeq {
				w.violate("start-after-stop", "C08 C09", "%s: Start took effect after Stop", in.name())
			}
		}
	}
}

func (w *World) checkLoss(in *Inst) {
	n := len(in.shut)
	switch {
	case n > 1:
		w.violate("shutdown-requested-twice", "C10", "%s requested shutdown %d times", in.name(), n)
	case n > 0 && !in.lossAny:
		w.violate("shutdown-without-loss", "C10 C05", "%s requested shutdown although lnd's stream was fine (at %v)", in.name(), time.Duration(in.shut[0]))
	}
	if in.lostSeq > 0 && n == 0 && !in.noCB && !in.dead() && in.idleAfterLoss() {
		w.violate("no-shutdown-request", "C10", "%s: lnd's message stream was lost (%s) but shutdown was never requested", in.name(), in.lostHow)
	}
}

// idleAfterLoss: the loss was long before the stop.
func (in *Inst) idleAfterLoss() bool {
	if in.stopSeq == 0 {
		return true
	}
	for _, op := range in.ops {
		if op.Step != nil && (op.Step.StallUs > 0 || op.Step.ReadUs > 0 || op.Step.Forever) {
			return false
		}
	}
	return in.stopNs-in.lostNs > 120*s1 && !in.paused
}

func (w *World) checkConnect(in *Inst) {
	if len(in.attempts) == 0 {
		return
	}
	r := in.boot.Retries
	wait := in.boot.WaitUs * us
	if len(in.attempts) > r+1 {
		w.violate("too-many-attempts", "C18 C09", "%s: %d attempts to connect to lnd with %d retries configured", in.name(), len(in.attempts), r)
	}
	var good *Attempt
	lateAttempts := 0
	for i, a := range in.attempts {
		if good != nil {
			w.violate("attempt-after-success", "C18 C09", "%s: attempt %d after a successful one", in.name(), i+1)
		}
		if a.Done && a.Err == nil {
			good = a
		}
		if i > 0 && !in.paused {
			gap := a.StartNs - in.attempts[i-1].EndNs
			if !in.attempts[i-1].Done || gap < wait || gap > wait+20*ms {
				w.violate("wrong-wait", "C18", "%s: %v between attempts %d and %d, configured %v", in.name(), time.Duration(gap), i, i+1, time.Duration(wait))
			}
		}
		// An attempt that Start had decided on just before the stop may
		// still begin; Start cannot go on trying.
		if in.downSeq > 0 && a.Seq > in.downSeq && !in.dead() && !in.paused && (a.StartNs-in.downNs > s1 || lateAttempts > 0) {
			w.violate("attempt-after-stop", "C08", "%s: attempt to connect after Stop returned", in.name())
		}
		if in.downSeq > 0 && a.Seq > in.downSeq {
			lateAttempts++
		}
	}
	if in.dead() {
		return
	}
	// Of several calls of Start the one that made the attempts is the one
	// that succeeded or else the one that returned last among those called
	// before the first attempt: the others are turned away at once.
	var first *Life
	for _, l := range in.starts {
		if l.Done && l.CallSeq > 0 && (l.Err == nil || l.CallSeq < in.attempts[0].Seq && (first == nil || first.Err != nil && l.RetSeq > first.RetSeq)) {
			first = l
		}
		if !l.Done && l.CallSeq > 0 {
			w.violate("start-never-returned", "C15 C18 C08 C09", "%s: Start never returned", in.name())
			return
		}
	}
	if first == nil {
		return
	}
	stopped := in.stopSeq > 0 && in.stopSeq < first.RetSeq
	if last := in.attempts[len(in.attempts)-1]; stopped && good == nil && last.Done && !in.paused {
		from := in.stopNs
		if last.EndNs > from {
			from = last.EndNs
		}
		if first.RetNs-from > s1 {
			w.violate("start-waits-on", "C08", "%s: Start returned only %v after Stop was called", in.name(), time.Duration(first.RetNs-from))
		}
	}
	infoErr := false
	for _, cl := range in.calls {
		if cl.Op == 0 && cl.Method == "GetInfo" && cl.Err != nil {
			// Giving up a call at once is not lnd's failing.
			hasty := cl.CtxEnd && cl.EndNs-cl.StartNs < 3*s1 && !in.paused
			infoErr = infoErr || !hasty
		}
	}
	switch {
	case first.Err == nil:
		if good == nil {
			w.violate("started-without-lnd", "C18 C09", "%s: Start succeeded although no attempt did", in.name())
		}
	case stopped:
	case good == nil:
		last := in.attempts[len(in.attempts)-1]
		if len(in.attempts) != r+1 {
			w.violate("too-few-attempts", "C18", "%s: Start gave up after %d attempts with %d retries configured: %v", in.name(), len(in.attempts), r, first.Err)
		} else if !strings.Contains(first.Err.Error(), last.Err.Error()) {
			w.violate("cause-lost", "C18", "%s: the error of Start, %q, does not carry the last cause, %q", in.name(), first.Err, last.Err)
		}
	case !infoErr:
		w.violate("start-failed", "C18 C09 C15 C19", "%s: Start failed although lnd could be reached and answered: %v", in.name(), first.Err)
	}
	if in.readySeq == 0 {
		for _, cl := range in.calls {
			if cl.Op != 0 {
				w.violate("served-though-not-started", "C18 C09", "%s: op%d calls %s although Start never succeeded", in.name(), cl.Op, cl.Method)
			}
		}
	}
	if in.paused || stopped {
		return
	}
	lim := int64(len(in.attempts))*(wait+in.boot.ConnSlow*us+10*ms) + 40*s1
	if d := first.RetNs - first.CallNs; d > lim {
		w.violate("start-slow", "C15", "%s: Start took %v", in.name(), time.Duration(d))
	}
}

// ---- subscriptions and deliveries ----

type cand struct {
	h   *Handoff
	opt bool
}

func same(r *Recv, v, reply []byte) bool {
	return bytes.Equal(r.Value, v) && bytes.Equal(r.Reply, reply) && (r.RP == nil) == (len(reply) == 0)
}

// matches says whether the receptions can be explained by the candidates in
// order; skip says which may be left out.
func matches(rs []*Recv, hs []cand, typ uint64, skip func(c cand) bool) bool {
	cur := make([]bool, len(rs)+1)
	cur[0] = true
	for _, c := range hs {
		nxt := make([]bool, len(rs)+1)
		v, reply := c.h.P.Payloads[typ], c.h.P.Reply
		for i := 0; i <= len(rs); i++ {
			if !cur[i] {
				continue
			}
			if skip(c) {
				nxt[i] = true
			}
			if i < len(rs) && rs[i].Seq > c.h.Seq && same(rs[i], v, reply) {
				nxt[i+1] = true
			}
		}
		cur = nxt
	}
	return cur[len(rs)]
}

func (h *Handoff) carries(typ uint64) bool {
	if h.P.V != VDeliver && h.P.V != VUnspec || !h.P.Exit {
		return false
	}
	_, ok := h.P.Payloads[typ]
	return ok
}

func (w *World) checkSubs(in *Inst) {
	byType := map[uint64][]*Op{}
	var types []uint64
	for _, op := range in.ops {
		if op.Kind != "sub" || op.CallSeq == 0 {
			continue
		}
		w.checkSubEnd(op)
		t := op.Sub.Type
		if byType[t] == nil {
			types = append(types, t)
		}
		byType[t] = append(byType[t], op)
	}
	for _, t := range types {
		subs := byType[t]
		w.checkExclusive(in, t, subs)
		// Whose copies were certainly or possibly the first.
		optKey := map[[32]byte]bool{}
		var hs []*Handoff
		for _, h := range in.handoffs {
			if h.P.V == VDrop {
				continue
			}
			if h.Opt != "" {
				optKey[h.P.Key] = true
			}
			if h.carries(t) {
				hs = append(hs, h)
			}
		}
		keys := map[string]map[[32]byte]bool{}
		ck := func(v, reply []byte) string { return string(v) + "|" + string(reply) }
		for _, h := range hs {
			k := ck(h.P.Payloads[t], h.P.Reply)
			if keys[k] == nil {
				keys[k] = map[[32]byte]bool{}
			}
			keys[k][h.P.Key] = true
		}
		count := map[string]int{}
		for _, op := range subs {
			for _, r := range op.Sub.Recv {
				count[ck(r.Value, r.Reply)]++
			}
		}
		for _, op := range subs {
			for _, r := range op.Sub.Recv {
				k := ck(r.Value, r.Reply)
				if t < 64 {
					w.violate("reserved-type-delivered", "C01 C06", "%s: op%d receives payloads of type %d", in.name(), op.ID, t)
				}
				known := false
				for _, h := range hs {
					if h.Seq < r.Seq && same(r, h.P.Payloads[t], h.P.Reply) {
						known = true
					}
				}
				if !known {
					w.violate("unknown-delivery", "C01 C04 C19 C03 C17", "%s: op%d (type %d) received %x (%d bytes, reply path %v), which no intact message taken from lnd in this run carried to this node like that; %s",
						in.name(), op.ID, t, head(r.Value), len(r.Value), r.RP != nil, w.explain(in, t, r))
				} else if count[k] > len(keys[k]) {
					w.violate("duplicate-delivery", "C02 C03 C16 C19", "%s: the payload %x of type %d was delivered %d times but carried by %d onions", in.name(), head(r.Value), t, count[k], len(keys[k]))
				}
			}
		}
		for _, op := range subs {
			sub := op.Sub
			end := op.causeSeq()
			if op.Done && op.RetSeq < end {
				end = op.RetSeq
			}
			var cs []cand
			for _, h := range hs {
				first := h.First || optKey[h.P.Key]
				must := h.P.V == VDeliver && h.First && h.Opt == "" && sub.Settled > 0 && h.Seq > sub.Settled && h.Seq < end && in.idleBetween(h.Seq, end)
				_ = first
				cs = append(cs, cand{h, !must})
			}
			if matches(sub.Recv, cs, t, func(c cand) bool { return c.opt }) {
				continue
			}
			any := func(cand) bool { return true }
			if matches(sub.Recv, cs, t, any) {
				var miss []string
				multi := false
				for _, c := range cs {
					if c.opt {
						continue
					}
					got := false
					for _, r := range sub.Recv {
						got = got || same(r, c.h.P.Payloads[t], c.h.P.Reply)
					}
					if !got {
						miss = append(miss, fmt.Sprintf("message #%d (%x, %d bytes)", c.h.N, head(c.h.P.Payloads[t]), len(c.h.P.Payloads[t])))
						multi = multi || len(c.h.P.Types) > 1
					}
				}
				p := "C16 C03 C05 C02 C07"
				if multi || true {
					p += " C01"
				}
				if len(subs) > 1 || len(in.ops) > 1 {
					p += " C06"
				}
				if in.hadOpt() || in.paused {
					p += " C15"
				}
				if len(in.node.insts) > 1 {
					p += " C19"
				}
				w.violate("missing-delivery", p, "%s: op%d (type %d) was not sent %s while subscribed", in.name(), op.ID, t, strings.Join(miss, ", "))
			} else if w.anyOrder(sub.Recv, cs, t) {
				w.violate("wrong-order", "C16", "%s: op%d (type %d) received payloads in another order than their messages arrived: %s", in.name(), op.ID, t, w.orderOf(sub.Recv, cs, t))
			} else {
				w.violate("delivery-mismatch", "C01 C02 C16", "%s: what op%d (type %d) received is not explained by the messages: %s", in.name(), op.ID, t, w.orderOf(sub.Recv, cs, t))
			}
		}
	}
}

func (in *Inst) hadOpt() bool {
	for _, h := range in.handoffs {
		if h.Opt != "" {
			return true
		}
	}
	return false
}

func (w *World) explain(in *Inst, t uint64, r *Recv) string {
	for _, h := range in.handoffs {
		for ty, v := range h.P.Payloads {
			if bytes.Equal(v, r.Value) {
				return fmt.Sprintf("message #%d carries it under type %d (%s)", h.N, ty, h.P.Why)
			}
		}
	}
	for _, o := range in.node.insts {
		if o == in {
			continue
		}
		for _, h := range o.handoffs {
			if v, ok := h.P.Payloads[t]; ok && bytes.Equal(v, r.Value) {
				return fmt.Sprintf("it was in a message to an earlier run, %s", o.name())
			}
		}
	}
	return "it was in no message"
}

func (w *World) anyOrder(rs []*Recv, cs []cand, t uint64) bool {
	used := make([]bool, len(cs))
	for _, r := range rs {
		ok := false
		for i, c := range cs {
			if !used[i] && same(r, c.h.P.Payloads[t], c.h.P.Reply) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (w *World) orderOf(rs []*Recv, cs []cand, t uint64) string {
	var l []string
	for _, r := range rs {
		n := "?"
		for _, c := range cs {
			if same(r, c.h.P.Payloads[t], c.h.P.Reply) {
				n = fmt.Sprint("#", c.h.N)
				break
			}
		}
		l = append(l, n)
	}
	return strings.Join(l, " ")
}

// sure is the time in which a subscription certainly is active.
func (op *Op) sure() (int, int) {
	a := op.Sub.Settled
	if len(op.Sub.Recv) > 0 && (a == 0 || op.Sub.Recv[0].Seq < a) {
		a = op.Sub.Recv[0].Seq
	}
	b := op.causeSeq()
	if op.Done && op.RetSeq < b {
		b = op.RetSeq
	}
	return a, b
}

func (w *World) checkExclusive(in *Inst, t uint64, subs []*Op) {
	for i, a := range subs {
		for _, b := range subs[i+1:] {
			a1, a2 := a.sure()
			b1, b2 := b.sure()
			if a1 > 0 && b1 > 0 && a1 < b2 && b1 < a2 {
				w.violate("two-subscriptions", "C06", "%s: op%d and op%d were both subscribed to type %d", in.name(), a.ID, b.ID, t)
			}
		}
	}
}

func (w *World) checkSubEnd(op *Op) {
	in, sub := op.Inst, op.Sub
	if !op.Done {
		return
	}
	can := before(op.CanSeq, op.RetSeq)
	fail := before(sub.FailSeq, op.RetSeq)
	stop := before(in.stopSeq, op.RetSeq)
	lost := before(in.lostSeq, op.RetSeq) || in.lossAny
	if sub.Type < 64 {
		if op.Code != codes.InvalidArgument && !can && !stop {
			w.violate("reserved-type", "C06", "%s: a subscription to the reserved type %d returns %v instead of InvalidArgument", in.name(), sub.Type, op.Err)
		}
		return
	}
	settled := sub.Settled > 0 && sub.Settled < op.causeSeq() || len(sub.Recv) > 0 && sub.Recv[0].Seq < op.causeSeq()
	bad := func(want string) {
		w.violate("subscription-code", "C07", "%s: op%d ended by %s returns %v (%v), expected %s", in.name(), op.ID, op.cause(), op.Code, op.Err, want)
	}
	n := 0
	for _, b := range []bool{can, fail, stop, lost} {
		if b {
			n++
		}
	}
	if op.Code == codes.OK {
		w.violate("subscription-code", "C07 C06", "%s: op%d returns OK", in.name(), op.ID)
		return
	}
	switch {
	case n == 0:
		if op.Code != codes.Unavailable {
			w.violate("subscription-ended", "C06 C07 C16", "%s: op%d (type %d) ended by itself: %v", in.name(), op.ID, sub.Type, op.Err)
			return
		}
		if sub.Settled > 0 || len(sub.Recv) > 0 {
			w.violate("subscription-ended", "C06 C07 C16", "%s: op%d (type %d) was active and then ended by itself: %v", in.name(), op.ID, sub.Type, op.Err)
			return
		}
		for _, o := range in.ops {
			if o == op || o.Kind != "sub" || o.Sub.Type != sub.Type || o.CallSeq == 0 || o.CallSeq > op.RetSeq {
				continue
			}
			if o.Done && o.RetSeq < op.CallSeq {
				continue
			}
			if o.Done && o.Code == codes.Unavailable && len(o.Sub.Recv) == 0 && o.Sub.Settled == 0 && o.CanSeq == 0 && o.Sub.FailSeq == 0 &&
				!before(in.stopSeq, o.RetSeq) && !before(in.lostSeq, o.RetSeq) {
				continue // was refused itself (and not registered and then turned away by a stop)
			}
			return
		}
		p := "C06 C07 C19 C05"
		if in.readySeq == 0 || in.readySeq > op.CallSeq {
			p += " C09"
		}
		w.violate("refused-though-free", p, "%s: subscription op%d to type %d is refused (%v) although no other is active", in.name(), op.ID, sub.Type, op.Err)
	case n > 1 || lost:
	case can:
		if op.Code != codes.Canceled && (settled || op.Code != codes.Unavailable) {
			bad("Canceled")
		}
	case fail:
		if op.Err != sub.FailErr && !errors.Is(op.Err, sub.FailErr) {
			bad(fmt.Sprintf("the send's own error (%v)", sub.FailErr))
		}
	case stop:
		if op.Code != codes.Aborted && (settled || op.Code != codes.Unavailable) {
			bad("Aborted")
		}
	}
}

// ---- forwarding ----

func (w *World) checkForwards(in *Inst) {
	done := map[[32]byte]int{}
	tries := map[*Handoff]int{}
	for _, em := range in.tries {
		if em.Op != 0 {
			continue
		}
		var best *Handoff
		for _, h := range in.handoffs {
			if h.Seq > em.TrySeq || h.P.V != VForward && h.P.V != VUnspec || h.P.Exit || len(h.P.Data) == 0 {
				continue
			}
			if h.P.Peer == em.Peer && em.Type == onionType && bytes.Equal(h.P.Data, em.Data) {
				if best == nil || tries[best] > 0 {
					best = h
				}
			}
		}
		if best == nil {
			w.violate("wrong-forward", "C04 C01 C02 C17", "%s hands lnd a message (type %d, %d bytes) for %s that no message it took is to be relayed as: %s", in.name(), em.Type, len(em.Data), w.name(em.Peer), w.nearForward(in, em))
			continue
		}
		tries[best]++
		if em.Trans {
			done[best.P.Key]++
			if done[best.P.Key] == 2 {
				w.violate("duplicate-forward", "C02 C04", "%s relays message #%d twice", in.name(), best.N)
			}
		}
	}
	for _, h := range in.handoffs {
		if h.P.V != VForward || !h.First || h.Opt != "" || tries[h] > 0 {
			continue
		}
		// Copies look the same.
		got := false
		for o, n := range tries {
			got = got || n > 0 && o.P.Key == h.P.Key
		}
		if got || !in.idleBetween(h.Seq, in.endSeq()) {
			continue
		}
		p := "C04 C03 C05 C02"
		if in.hadOpt() {
			p += " C15"
		}
		if len(in.node.insts) > 1 {
			p += " C19"
		}
		w.violate("not-forwarded", p, "%s does not relay message #%d to %s", in.name(), h.N, w.name(h.P.Peer))
	}
}

func (w *World) nearForward(in *Inst, em *Emission) string {
	for _, h := range in.handoffs {
		if h.Seq > em.TrySeq || len(h.P.Data) == 0 {
			continue
		}
		var d []string
		if h.P.Peer != em.Peer {
			d = append(d, "to "+w.name(h.P.Peer))
		}
		if !bytes.Equal(h.P.Data, em.Data) {
			if len(em.Data) == len(h.P.Data) && bytes.Equal(em.Data[33:], h.P.Data[33:]) {
				d = append(d, "with another blinding point")
			} else {
				continue
			}
		}
		return fmt.Sprintf("message #%d would go %s", h.N, strings.Join(d, " "))
	}
	for _, h := range in.handoffs {
		if h.Seq < em.TrySeq && h.P.V == VDrop && h.P.Peer == em.Peer {
			return fmt.Sprintf("message #%d: %s", h.N, h.P.Why)
		}
	}
	return "no similar message"
}

// ---- sends ----

func (op *Op) target() ([33]byte, bool) {
	var t [33]byte
	sp := op.Send
	switch {
	case sp == nil || sp.Bad:
		return t, false
	case sp.Dest != nil:
		return *sp.Dest, true
	case sp.Blind != nil:
		copy(t[:], sp.Blind.Intro)
		return t, true
	}
	return t, false
}

func (op *Op) calls(method string) []*Call {
	var l []*Call
	for _, c := range op.Inst.calls {
		if c.Op == op.ID && (method == "" || c.Method == method) {
			l = append(l, c)
		}
	}
	return l
}

func (op *Op) emissions() []*Emission {
	var l []*Emission
	for _, e := range op.Inst.tries {
		if e.Op == op.ID {
			l = append(l, e)
		}
	}
	return l
}

// failing is the first call that gave the operation a reason to fail.
func (op *Op) failing() *Call {
	for _, c := range op.calls("") {
		if !c.Done {
			return c
		}
		if c.Err != nil && !c.NoRoute && !op.gaveUp(c) {
			return c
		}
		if c.Fault == "nilpub" || c.Fault == "badpub" {
			return c
		}
	}
	return nil
}

// gaveUp: the node itself put an end to the call, at once and without a
// reason, so that it says nothing about lnd.
func (op *Op) gaveUp(c *Call) bool {
	in := op.Inst
	if !c.CtxEnd {
		return false
	}
	from := op.CallNs
	if in.readyNs > from {
		from = in.readyNs
	}
	for _, o := range in.calls {
		if o.Method == "SubscribeCustomMessages" && o.Done && o.Err != nil && o.EndSeq < c.EndSeq {
			return false // it is about to shut down
		}
	}
	return op.CanSeq == 0 && c.EndNs-from < 3*s1 &&
		!before(in.stopSeq, c.EndSeq) && !before(in.lostSeq, c.EndSeq) && !before(in.shutSeq, c.EndSeq) && !in.paused && !in.dead()
}

// undisturbed: the instance was up during the whole call.
func (op *Op) undisturbed() bool {
	in := op.Inst
	return op.Done && in.readySeq > 0 && !before(in.stopSeq, op.RetSeq) && op.CanSeq == 0 && !in.dead() && !op.preDown
}

// unwrap follows a message along the nodes and returns the identities it
// visits, or what is wrong with it.
func (w *World) unwrap(op *Op, em *Emission) ([]int, string) {
	sp := op.Send
	target, _ := op.target()
	hops := [][33]byte{target}
	if !sp.Direct {
		hops = nil
		for _, c := range op.calls("QueryRoutes") {
			if c.Done && c.Err == nil && c.Seq < em.TrySeq {
				hops = c.Hops
			}
		}
	}
	if len(hops) == 0 {
		return nil, "sent although there is no path"
	}
	if em.Type != onionType {
		return nil, fmt.Sprintf("sent as type %d", em.Type)
	}
	peer, data := em.Peer, em.Data
	var visits []int
	own := hops[:len(hops)-1]
	step := func(i int) (*Ident, *Peeled, string) {
		id := w.byPK[peer]
		if id == nil {
			return nil, nil, fmt.Sprintf("hop %d is unknown", i)
		}
		visits = append(visits, id.Idx)
		return id, w.peel(id, data), ""
	}
	for i, h := range own {
		if peer != h {
			return nil, fmt.Sprintf("hop %d is %s, the path says %s", i, w.name(peer), w.name(h))
		}
		_, p, e := step(i)
		if e != "" {
			return nil, e
		}
		if !p.Exit && (len(p.RawTypes) > 1 || len(p.RawTypes) == 1 && p.RawTypes[0] != 4) {
			return nil, fmt.Sprintf("LEAK hop %d sees records %v", i, p.RawTypes)
		}
		if p.V != VForward {
			return nil, fmt.Sprintf("hop %d (%s) cannot relay it: %s", i, w.name(peer), p.Why)
		}
		recs, _ := parseTLV(p.EncData)
		for _, r := range recs {
			if r.t != 4 && (r.t != 8 || i != len(own)-1 || sp.Blind == nil) {
				return nil, fmt.Sprintf("LEAK hop %d is told more than its next hop (record %d)", i, r.t)
			}
		}
		if bad := w.leaks(op, p.EncData, hops[i+2:], peer); bad != "" {
			return nil, fmt.Sprintf("LEAK hop %d can read %s", i, bad)
		}
		peer, data = p.Peer, p.Data
	}
	if peer != target {
		return nil, fmt.Sprintf("leads to %s instead of %s", w.name(peer), w.name(target))
	}
	if sp.Blind == nil {
		_, p, e := step(len(own))
		if e != "" {
			return nil, e
		}
		return visits, w.unwrapEnd(op, p)
	}
	if !bytes.Equal(data[:33], sp.Blind.Blinding) {
		return nil, "reaches the introduction node with another blinding point than the path's"
	}
	if sp.Owner < 0 {
		return append(visits, w.byPK[target].Idx), "" // leads nowhere we know
	}
	for i := range sp.Blind.IDs {
		id, p, e := step(len(own) + i)
		if e != "" {
			return nil, e
		}
		if i == len(sp.Blind.IDs)-1 {
			if id.Idx != sp.Owner {
				return nil, fmt.Sprintf("ends at %s, not at the owner of the path", w.name(id.Pub))
			}
			return visits, w.unwrapEnd(op, p)
		}
		if !p.Exit && (len(p.RawTypes) > 1 || len(p.RawTypes) == 1 && p.RawTypes[0] != 4) {
			return nil, fmt.Sprintf("LEAK blinded hop %d sees records %v", i, p.RawTypes)
		}
		if p.V != VForward {
			return nil, fmt.Sprintf("blinded hop %d (%s) cannot relay it: %s", i, w.name(peer), p.Why)
		}
		peer, data = p.Peer, p.Data
	}
	return nil, "the path has no hops"
}

func (w *World) unwrapEnd(op *Op, p *Peeled) string {
	sp := op.Send
	if p.V != VDeliver {
		return fmt.Sprintf("its destination cannot use it: %s", p.Why)
	}
	if len(p.Types) != len(sp.Want) {
		return fmt.Sprintf("carries payload types %v, %d were asked for", p.Types, len(sp.Want))
	}
	for t, v := range sp.Want {
		got, ok := p.Payloads[t]
		if !ok || !bytes.Equal(got, v) {
			return fmt.Sprintf("carries %x (%d bytes) as type %d instead of %x (%d bytes)", head(got), len(got), t, head(v), len(v))
		}
	}
	if !bytes.Equal(p.Reply, sp.Reply.Bytes()) {
		return "carries another reply path than the request's"
	}
	for _, t := range p.RawTypes {
		if t != 2 && t != 4 && t < 64 {
			return fmt.Sprintf("carries an unknown record %d", t)
		}
	}
	return ""
}

// leaks looks for secrets of a send in data.
func (w *World) leaks(op *Op, data []byte, later [][33]byte, not [33]byte) string {
	sp := op.Send
	for t, v := range sp.Want {
		if len(v) >= 16 && bytes.Contains(data, v) {
			return fmt.Sprintf("the payload of type %d", t)
		}
	}
	for _, h := range later {
		if h != not && bytes.Contains(data, h[:]) {
			return "the identity of a later hop"
		}
	}
	if sp.Reply != nil {
		for _, b := range append(append([][]byte{sp.Reply.Blinding}, sp.Reply.IDs...), sp.Reply.Enc...) {
			if len(b) >= 16 && bytes.Contains(data, b) && (sp.Blind == nil || !bytes.Equal(b, sp.Blind.Blinding)) {
				return "its reply path"
			}
		}
	}
	if sp.Blind != nil {
		for _, b := range append(append([][]byte{}, sp.Blind.IDs...), sp.Blind.Enc...) {
			if len(b) >= 16 && bytes.Contains(data, b) {
				return "the blinded route"
			}
		}
	}
	return ""
}

// fits says that the message surely fits into an onion, given the path lnd
// returned: at most 26 hops, and 40 of its 1300 bytes to spare.
func (op *Op) fits() bool {
	sp := op.Send
	target, ok := op.target()
	if !ok {
		return true
	}
	hops := [][33]byte{target}
	if !sp.Direct {
		hops = nil
		for _, c := range op.calls("QueryRoutes") {
			if c.Done && c.Err == nil {
				hops = c.Hops
			}
		}
	}
	n, total := 0, 0
	add := func(recs ...tlvRec) {
		l := len(encTLV(recs))
		total += len(putBigSize(nil, uint64(l))) + l + 32
		n++
	}
	for i := 0; i+1 < len(hops); i++ {
		e := 16 + 35 // the next node, encrypted
		if i+2 == len(hops) && sp.Blind != nil {
			e += 35 // and the blinding point of the path that follows
		}
		add(tlvRec{4, make([]byte, e)})
	}
	var last []tlvRec
	for t, v := range sp.Want {
		last = append(last, tlvRec{t, v})
	}
	if sp.Reply != nil {
		last = append(last, tlvRec{2, sp.Reply.Bytes()})
	}
	if sp.Blind == nil {
		add(append(last, tlvRec{4, make([]byte, 16)})...)
	} else {
		for i, e := range sp.Blind.Enc {
			recs := []tlvRec{{4, e}}
			if i == len(sp.Blind.Enc)-1 {
				recs = append(recs, last...)
			}
			add(recs...)
		}
	}
	return n <= 27 && total+40 <= 1300
}

func (w *World) checkSend(op *Op) {
	in, sp := op.Inst, op.Send
	ems := op.emissions()
	name := fmt.Sprintf("%s: send op%d", in.name(), op.ID)
	if sp.Bad {
		if len(op.calls("")) > 0 {
			w.violate("invalid-send-acted-on", "C12", "%s is invalid (%s) but calls %s", name, op.Step.Mode, op.calls("")[0].Method)
		}
		if op.undisturbed() && op.Code != codes.InvalidArgument {
			w.violate("invalid-send-code", "C12", "%s is invalid (%s) but returns %v: %v", name, op.Step.Mode, op.Code, op.Err)
		}
		if op.Done && op.Code == codes.OK {
			w.violate("invalid-send-code", "C12", "%s is invalid (%s) but returns OK", name, op.Step.Mode)
		}
		return
	}
	accepted, effects := 0, 0
	for _, e := range ems {
		if e.Done && e.Err == nil {
			accepted++
		}
		if e.Trans {
			effects++
		}
		if op.Done && e.TrySeq > op.RetSeq {
			w.violate("sent-after-return", "C12 C17 C08", "%s hands lnd a message after it has returned", name)
		}
		if sp.Blind != nil && len(sp.Blind.IDs) == 0 {
			continue
		}
		if _, bad := w.unwrap(op, e); bad != "" {
			p := "C12 C17 C03"
			if strings.HasPrefix(bad, "LEAK") {
				p = "C13 C12"
			}
			w.violate("wrong-message", p, "%s: the message handed to lnd is not what was asked for: %s", name, bad)
		}
	}
	if !op.Done {
		return
	}
	if op.Code == codes.OK && accepted != 1 || op.Code == codes.OK && effects > 1 {
		w.violate("ok-not-sent", "C12 C03 C11 C13", "%s returns OK but lnd accepted %d messages (took %d)", name, accepted, effects)
	}
	if op.Code != codes.OK && accepted > 0 {
		w.violate("error-but-sent", "C12 C11", "%s returns %v (%v) but lnd accepted %d messages", name, op.Code, op.Err, accepted)
	}
	if w.rndHit[op.ID] && (op.Code == codes.OK || len(ems) > 0) {
		w.violate("sent-without-randomness", "C13", "%s: randomness failed but it returned %v and tried %d messages", name, op.Code, len(ems))
	}
	fits := op.fits()
	if fits && op.Code == codes.InvalidArgument {
		w.violate("valid-send-refused", "C12 C17 C05", "%s is valid but refused: %v", name, op.Err)
	}
	// What lnd said about the path.
	noRoute, asked := false, false
	for _, c := range op.calls("QueryRoutes") {
		if sp.Direct {
			w.violate("direct-send-routed", "C11 C12", "%s asks for a route although a direct connection was requested", name)
		}
		if c.Done {
			asked = true
			noRoute = c.NoRoute && (c.Err == nil || c.Err == lndclient.ErrNoRouteFound)
			if noRoute && c.Linked {
				w.violate("route-missed", "C12 C03", "%s: there are channels all the way to the destination, but lnd was asked for a route in a way that finds none", name)
			}
		}
	}
	if op.undisturbed() && !sp.Direct && asked && !w.rndHit[op.ID] {
		if noRoute && op.Code != codes.NotFound {
			w.violate("no-path-code", "C12", "%s: there is no path but it returns %v: %v", name, op.Code, op.Err)
		}
	}
	if op.Code == codes.NotFound && (!noRoute || sp.Direct) && op.CanSeq == 0 {
		w.violate("not-found-code", "C12 C17", "%s returns NotFound (%v) although no path was missing", name, op.Err)
	}
	w.checkDirect(op, ems)
	if op.undisturbed() && op.Code != codes.OK && op.failing() == nil && !w.rndHit[op.ID] && !noRoute && fits && !sp.Direct {
		w.violate("spurious-failure", "C12 C03 C17 C19 C05 C15", "%s fails although lnd did everything asked of it: %v", name, op.Err)
	}
}

func (w *World) checkDirect(op *Op, ems []*Emission) {
	in, sp := op.Inst, op.Send
	name := fmt.Sprintf("%s: send op%d", in.name(), op.ID)
	target, _ := op.target()
	conns := op.calls("Connect")
	if !sp.Direct {
		if len(conns) > 0 {
			w.violate("unasked-connect", "C11", "%s did not ask for a direct connection but connects to %s", name, w.name(conns[0].Arg))
		}
		return
	}
	// seen is what the newest answer of ListPeers before an event said.
	seen := func(seq int) (bool, bool) {
		known, peer := false, false
		for _, c := range op.calls("ListPeers") {
			if c.Done && c.Err == nil && c.EndSeq <= seq {
				known, peer = true, c.PeerSet[target]
			}
		}
		return known, peer
	}
	if len(conns) > 1 {
		w.violate("connects-twice", "C11", "%s asks lnd %d times to connect", name, len(conns))
	}
	var c0 *Call
	for _, c := range conns {
		c0 = c
		if c.Arg != target {
			w.violate("connects-elsewhere", "C11", "%s connects to %s", name, w.name(c.Arg))
		}
		if k, p := seen(c.Seq); !k || p {
			w.violate("needless-connect", "C11", "%s connects to a node that is a peer, or without looking", name)
		}
		ok := false
		for _, g := range op.calls("GetNodeInfo") {
			if g.Done && g.Err == nil && g.EndSeq < c.Seq {
				for _, a := range g.Addrs {
					ok = ok || a == c.Host
				}
			}
		}
		if c.Host != "" && !ok {
			w.violate("unadvertised-address", "C11", "%s connects to %q, which the node does not advertise", name, c.Host)
		}
	}
	for _, e := range ems {
		if k, p := seen(e.TrySeq); !k || !p {
			w.violate("sent-before-connected", "C11", "%s hands over the message although lnd has not reported the node as a peer", name)
		}
	}
	if !op.undisturbed() || in.paused {
		return
	}
	slow := false
	for _, c := range op.calls("") {
		if c.Fault != "" {
			slow = true
		}
	}
	if w.rndHit[op.ID] || op.failing() != nil || !op.fits() {
		return
	}
	if op.Code != codes.OK {
		_, p := seen(op.RetSeq)
		noAddr := false
		for _, g := range op.calls("GetNodeInfo") {
			if g.Done && g.Err == nil && len(g.Addrs) == 0 {
				noAddr = true
			}
		}
		given := false
		for _, c := range op.calls("") {
			given = given || op.gaveUp(c)
		}
		switch {
		case given && !noAddr:
			w.violate("direct-given-up", "C11 C12 C15", "%s fails (%v) because it gave up a call at once, not because of lnd", name, op.Err)
		case p:
			w.violate("direct-failed", "C11 C12", "%s fails although the node is a peer: %v", name, op.Err)
		case noAddr:
		case c0 == nil:
			w.violate("no-connect", "C11 C12", "%s fails without trying to connect: %v", name, op.Err)
		case !slow && op.flaps == 0:
			wait := op.RetNs - c0.EndNs
			if op.peerAt >= 0 && op.peerAt-c0.EndNs <= 3500*ms {
				w.violate("gave-up-though-connected", "C11", "%s fails although the node became a peer %v after the connection was asked for: %v", name, time.Duration(op.peerAt-c0.EndNs), op.Err)
			} else if wait < 3*s1 || wait > 7500*ms {
				w.violate("wrong-connect-wait", "C11", "%s gives up %v after asking for the connection", name, time.Duration(wait))
			}
		case slow && op.RetNs-c0.EndNs > 40*s1:
			w.violate("wrong-connect-wait", "C11", "%s gives up %v after asking for the connection", name, time.Duration(op.RetNs-c0.EndNs))
		}
	}
}

// ---- other RPCs ----

func (w *World) checkUnary(op *Op) {
	in := op.Inst
	if !op.Done || in.dead() {
		return
	}
	name := fmt.Sprintf("%s: %s op%d", in.name(), op.Kind, op.ID)
	if op.CanSeq > 0 && op.CanSeq < op.RetSeq && !in.paused && !in.b0paused() {
		from := op.CanNs
		if op.CallNs > from {
			from = op.CallNs
		}
		if d := op.RetNs - from; d > 300*ms {
			w.violate("cancel-slow", "C11 C09 C12 C17", "%s returns %v after its client cancelled it", name, time.Duration(d))
		}
	}
	ready := in.readySeq > 0 && in.readySeq < op.RetSeq
	if !ready && op.CanSeq > 0 && op.CanSeq < op.RetSeq && !before(in.stopSeq, op.RetSeq) {
		starting := false
		for _, l := range in.starts {
			// A start about to succeed may have let it in.
			starting = starting || l.CallSeq > 0 && l.CallSeq < op.RetSeq && (!l.Done || l.RetSeq > op.RetSeq)
		}
		if op.Code != codes.Unavailable && !(starting && in.readySeq > 0 && in.readyNs-op.RetNs < ms) {
			w.violate("not-ready-code", "C09", "%s: cancelled before the server was ready, returns %v (%v)", name, op.Code, op.Err)
		}
	}
	if in.readySeq == 0 && op.Code == codes.OK {
		w.violate("served-though-not-started", "C09 C18", "%s returns OK although the server never became ready", name)
	}
	if !ready && op.CanSeq == 0 && !before(in.stopSeq, op.RetSeq) && op.Code == codes.Unavailable {
		w.violate("did-not-wait", "C09", "%s is refused before the server is ready instead of waiting: %v", name, op.Err)
	}
	for _, c := range op.calls("") {
		if c.EndSeq > op.RetSeq || !c.Done {
			w.violate("call-outlives-rpc", "C17 C12", "%s has returned while its call of %s goes on", name, c.Method)
		}
	}
}

// b0paused: some pause touched the instance.
func (in *Inst) b0paused() bool { return in.paused }

func (w *World) checkDecode(op *Op) {
	if !op.Done {
		return
	}
	name := fmt.Sprintf("%s: decode op%d", op.Inst.name(), op.ID)
	ref := w.decRef[op.Step.Str]
	if len(op.calls("")) > 0 {
		w.violate("decode-calls-lnd", "C17", "%s calls lnd", name)
	}
	if op.Code == codes.OK {
		resp, _ := op.resp.(*offersrpc.DecodeOfferResponse)
		if !ref.ok {
			w.violate("decode-result", "C17", "%s accepts an offer that is invalid on its own", name)
		} else if resp == nil || !proto.Equal(resp.Offer, ref.resp) {
			w.violate("decode-result", "C17", "%s returns %v, on its own it gives %v", name, resp, ref.resp)
		}
		return
	}
	if op.undisturbed() {
		if ref.ok {
			w.violate("decode-result", "C17 C09 C05 C19", "%s fails (%v), on its own it succeeds", name, op.Err)
		} else if op.Step.Str == "" && op.Code != codes.InvalidArgument {
			w.violate("decode-result", "C17", "%s of nothing returns %v", name, op.Code)
		}
	}
}

// checkGen judges a generated route when it is returned.
func (w *World) checkGen(op *Op) {
	in := op.Inst
	name := fmt.Sprintf("%s: route op%d", in.name(), op.ID)
	me := in.node
	if op.Code == codes.OK {
		resp, _ := op.resp.(*offersrpc.GenerateBlindedRouteResponse)
		if resp == nil || resp.Route == nil {
			w.violate("no-route-returned", "C14 C17", "%s returns OK without a route", name)
			return
		}
		op.Route = fromRPC(resp.Route)
		w.owner[string(op.Route.Bytes())] = me.Idx
		w.gens = append(w.gens, op)
	} else if op.resp != nil {
		w.violate("route-with-error", "C14", "%s returns both an error and a route", name)
	}
	if op.GenSt.Bad {
		if op.Route != nil || op.undisturbed() && op.Code != codes.InvalidArgument {
			w.violate("feature-overflow", "C14", "%s: a feature beyond 65535 gives %v", name, op.Code)
		}
		return
	}
	if w.rndHit[op.ID] && op.Route != nil {
		w.violate("route-without-randomness", "C13", "%s: randomness failed but a route was returned", name)
	}
	var fail *Call
	own := true
	found, missing := map[[33]byte]bool{}, map[[33]byte]bool{}
	for _, c := range op.calls("") {
		switch {
		case c.Done && c.Err == nil:
			found[c.Arg] = true
		case c.Done && c.Method == "GetNodeInfo" && status.Code(c.Err) == codes.NotFound:
			missing[c.Arg] = true
		default:
			fail = c
			own = own && op.gaveUp(c)
		}
	}
	if fail != nil && own && op.undisturbed() && op.Route == nil && !w.rndHit[op.ID] {
		w.violate("route-given-up", "C14 C05 C15 C17", "%s fails (%v) because it gave up %s at once, not because of lnd", name, op.Err, fail.Method)
	}
	if fail != nil && op.Route != nil {
		w.violate("route-despite-failure", "C14 C12", "%s returns a route although %s failed: %v", name, fail.Method, fail.Err)
	}
	if op.Route != nil {
		if bad := w.tryRoute(op); bad != "" {
			w.violate("unusable-route", "C14 C19 C13 C17", "%s: %s", name, bad)
		}
	}
	if w.graphV != op.GraphV0 || fail != nil || w.rndHit[op.ID] || !op.undisturbed() {
		return
	}
	best, most := map[string]bool{}, -1
	for _, e := range w.edges {
		o := -1
		if e.A == me.Idx {
			o = e.B
		} else if e.B == me.Idx {
			o = e.A
		}
		if o < 0 || !e.Chan || !e.Active {
			continue
		}
		g := w.graph[o]
		if pk := w.ids[o].Pub; missing[pk] {
			if found[pk] {
				return // lnd contradicts itself
			}
			continue
		}
		if !g.Known || !g.HasNode || g.Extra <= 0 || !featsOK(g.Feats, op.GenSt.Feats) {
			continue
		}
		if g.Extra > most {
			best, most = map[string]bool{}, g.Extra
		}
		if g.Extra == most {
			best[string(w.ids[o].Pub[:])] = true
		}
	}
	switch {
	case len(best) == 0 && op.Route != nil:
		w.violate("ineligible-peer", "C14", "%s starts at %s although no peer is eligible (features %v)", name, w.pkName(op.Route.Intro), op.GenSt.Feats)
	case len(best) > 0 && op.Route == nil:
		w.violate("route-refused", "C14 C17 C05 C15 C19", "%s fails although a peer is eligible: %v", name, op.Err)
	case len(best) > 0 && !best[string(op.Route.Intro)]:
		w.violate("wrong-introduction", "C14 C17", "%s starts at %s, which is not an eligible peer with the most channels (%d)", name, w.pkName(op.Route.Intro), most)
	}
}

func (w *World) pkName(b []byte) string {
	var k [33]byte
	copy(k[:], b)
	return w.name(k)
}

// tryRoute sends a message along a generated route in thought.
func (w *World) tryRoute(op *Op) string {
	r := op.Route
	me := op.Inst.node
	if len(r.IDs) == 0 || !pointOK(r.Intro) || !pointOK(r.Blinding) {
		return "the route is malformed"
	}
	for i := range r.IDs {
		if bytes.Equal(r.IDs[i], me.Pub[:]) || bytes.Contains(r.Enc[i], me.Pub[:]) {
			return "the route names this node in clear"
		}
		if bytes.Equal(r.IDs[i], r.Intro) {
			return "the first hop is not blinded"
		}
	}
	val := []byte("through the generated route")
	data, err := craftTo(w.keys("tryroute", op.ID), r, []tlvRec{{101, val}})
	if err != nil {
		return "no message can be built for the route: " + err.Error()
	}
	var peer [33]byte
	copy(peer[:], r.Intro)
	for i := range r.IDs {
		id := w.byPK[peer]
		if id == nil {
			return fmt.Sprintf("hop %d is unknown", i)
		}
		p := w.peel(id, data)
		if i == len(r.IDs)-1 {
			if p.V != VDeliver || !bytes.Equal(p.Payloads[101], val) {
				return fmt.Sprintf("a message sent along the route is of no use at its end (%s): %s", w.name(peer), p.Why)
			}
			if id.Idx != me.Idx {
				return fmt.Sprintf("the route leads to %s", w.name(peer))
			}
			return ""
		}
		if p.V != VForward {
			return fmt.Sprintf("hop %d (%s) cannot relay a message sent along the route: %s", i, w.name(peer), p.Why)
		}
		recs, _ := parseTLV(p.EncData)
		for _, x := range recs {
			if x.t != 4 {
				return fmt.Sprintf("hop %d is told more than its next hop (record %d)", i, x.t)
			}
		}
		peer, data = p.Peer, p.Data
	}
	return ""
}

// ---- across operations ----

func (w *World) checkFresh() {
	used := map[string]string{}
	use := func(k []byte, who string) {
		if o, ok := used[string(k)]; ok && o != who {
			w.violate("key-reused", "C13", "%s uses the same ephemeral key or blinding point (%x) as %s", who, k[:4], o)
		}
		used[string(k)] = who
	}
	for _, in := range w.insts {
		for _, em := range in.tries {
			op := w.ops[em.Op]
			if em.Op == 0 || op == nil || op.Send == nil || len(em.Data) < 69 {
				continue
			}
			who := fmt.Sprintf("%s send op%d", in.name(), op.ID)
			use(em.Data[36:69], who)
			own := op.Send.Blind == nil || !bytes.Equal(em.Data[:33], op.Send.Blind.Blinding)
			if own {
				use(em.Data[:33], who)
			}
			if bytes.Equal(em.Data[:33], em.Data[36:69]) {
				w.violate("key-reused", "C13", "%s uses one key both for its onion and for blinding", who)
			}
			var hops [][33]byte
			for _, c := range op.calls("QueryRoutes") {
				if c.Err == nil {
					hops = c.Hops
				}
			}
			if bad := w.leaks(op, em.Data, hops, [33]byte{}); bad != "" {
				w.violate("cleartext", "C13", "%s: what it hands to lnd shows %s in clear", who, bad)
			}
		}
	}
	for _, op := range w.gens {
		use(op.Route.Blinding, fmt.Sprintf("%s route op%d", op.Inst.name(), op.ID))
	}
}

// linked: node a has been connected to node b since then.
func (w *World) linked(a, b int, since int64) bool {
	at, ok := w.nodes[a].peers[w.ids[b].Pub]
	return ok && at <= since && a != b
}

// checkEndToEnd: messages sent while everything works arrive once.
func (w *World) checkEndToEnd() {
	slowAny := false
	for _, s := range w.plan.Steps {
		if s.K == "sub" && (s.ReadUs > 0 || s.StallUs > 0 || s.Forever) {
			slowAny = true
		}
	}
	for _, op := range w.opList {
		sp := op.Send
		if op.Kind != "send" || !op.Done || op.Code != codes.OK || sp.Bad || !sp.Unique {
			continue
		}
		if !w.plan.Clean && op.ID < 200000 {
			continue
		}
		if sp.Owner < 0 || sp.Owner >= len(w.nodes) {
			continue
		}
		var vis []int
		for _, e := range op.emissions() {
			if e.Trans {
				vis, _ = w.unwrap(op, e)
			}
		}
		if len(vis) == 0 {
			continue
		}
		up := true
		for i, v := range vis {
			// Nodes that are not connected cannot pass messages on.
			from := op.Inst.node.Idx
			if i > 0 {
				from = vis[i-1]
			}
			if v >= len(w.nodes) || from >= len(w.nodes) || !w.linked(from, v, op.CallNs) {
				up = false
			}
			if v >= len(w.nodes) || !w.nodes[v].runningFrom(op.CallSeq, op.RetNs+5*s1) {
				up = false
			}
		}
		if !up || vis[len(vis)-1] != sp.Owner {
			continue
		}
		for t, v := range sp.Want {
			n, late := 0, false
			active := false
			for _, in := range w.nodes[sp.Owner].insts {
				for _, o := range in.ops {
					if o.Kind != "sub" || o.Sub.Type != t {
						continue
					}
					c := o.causeSeq()
					if o.Sub.Settled > 0 && o.Sub.Settled < op.CallSeq && (c == inf || w.seqNs(o, c) > op.RetNs+5*s1) && o.Sub.FailSeq == 0 {
						active = true
					}
					for _, r := range o.Sub.Recv {
						if same(r, v, sp.Reply.Bytes()) {
							n++
							late = late || r.AtNs > op.RetNs+5*s1
						}
					}
				}
			}
			if active {
				w.owed++
			}
			if n > 1 {
				w.violate("received-twice", "C03 C02", "the payload of type %d of send op%d was received %d times", t, op.ID, n)
			}
			if active && n == 0 && (!slowAny || op.ID > 200000) {
				w.violate("not-received", "C03 C19 C05 C04 C16 C15", "the payload of type %d of send op%d (%s, via %v) never reached its subscriber although everything worked", t, op.ID, op.Inst.name(), vis)
			}
			if active && late && (!slowAny || op.ID > 200000) {
				w.violate("received-late", "C03", "the payload of type %d of send op%d took more than 5 s", t, op.ID)
			}
		}
	}
}

// seqNs is the time of the event that ended a subscription.
func (w *World) seqNs(o *Op, seq int) int64 {
	switch seq {
	case o.CanSeq:
		return o.CanNs
	case o.Inst.stopSeq:
		return o.Inst.stopNs
	case o.Inst.lostSeq:
		return o.Inst.lostNs
	}
	return 0
}

// runningFrom: one instance ran from an event on for some time.
func (n *Node) runningFrom(seq int, until int64) bool {
	for _, in := range n.insts {
		if in.readySeq == 0 || in.readySeq > seq || in.deadSeq > 0 || in.paused {
			continue
		}
		if in.stopSeq > 0 && in.stopNs < until || in.lostSeq > 0 && in.lostNs < until {
			continue
		}
		return true
	}
	return false
}

// afterRun adds what the scheduler itself noticed.
func (w *World) afterRun(r *simrt.Run) {
	for _, p := range r.Panics {
		if r.Fatal != "" {
			continue
		}
		first := p.Value
		w.violate("panic", "*", "the process dies: panic in %s (task %s, near %s): %s\n%s", w.instName(p.Tag), p.Task, p.Site, first, trimStack(p.Stack))
	}
	if r.StepCap {
		w.violate("no-progress", "*", "a task runs for ever without waiting: %s", r.HotTask)
	}
	if r.Deadlock {
		w.violate("deadlock", "*", "nothing can ever happen again")
	}
}

func (w *World) instName(tag int) string {
	if in := w.byTag[tag]; in != nil {
		return in.name()
	}
	return fmt.Sprintf("tag %d", tag)
}

func trimStack(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.HasPrefix(x, "github.com/carlakc/boltnd") || strings.HasPrefix(x, "github.com/lightning") {
			if !strings.Contains(x, "verifsim") && len(l) < 6 {
				l = append(l, "  "+x)
			}
		}
	}
	return strings.Join(l, "\n")
}

var _ = lndwire.FeatureBit(0)
