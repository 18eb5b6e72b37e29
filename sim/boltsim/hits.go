//go:build go1.21

package main

import (
	"strings"

	"google.golang.org/grpc/codes"
)

// hitRule says in words what hits counts.
var hitRule = map[string]string{
	"C01": "a payload was received on a stream or a message that must cause no delivery was taken from lnd",
	"C02": "a node took a second copy of an onion it had already taken",
	"C03": "a message sent while everything worked was owed to an active subscriber",
	"C04": "a node took an intact message that it is to relay, or that looks like one but must not be relayed",
	"C05": "a node took a hostile message, or a call to lnd or an RPC failed",
	"C06": "two subscriptions to one type overlapped in time",
	"C07": "a subscription ended while it was or might have been active",
	"C08": "a Stop took effect on an instance that had been started",
	"C09": "an RPC arrived before readiness, or Start or Stop was called more than once",
	"C10": "lnd's message stream was lost",
	"C11": "a direct send was made to a node that was not a peer",
	"C12": "a send returned",
	"C13": "two sends or generated routes could be compared",
	"C14": "a blinded route was asked for",
	"C15": "a key operation or start-up call was stalled",
	"C16": "a subscriber received two or more payloads",
	"C17": "two RPCs overlapped in time",
	"C18": "Start made an attempt that failed",
	"C19": "a node ran again after a stop or crash",
	"C20": "a call or message was over and the goroutines were counted",
}

// hits counts the situations a run reached that a property is about.
func (w *World) hits() map[string]int {
	h := map[string]int{}
	for _, in := range w.insts {
		for _, x := range in.handoffs {
			if x.P.V == VDrop {
				h["C01"]++
				h["C05"]++
				if strings.Contains(x.P.Why, "next") || strings.Contains(x.P.Why, "relay") || strings.Contains(x.P.Why, "encrypted") || strings.Contains(x.P.Why, "final") {
					h["C04"]++
				}
			}
			if x.P.V == VForward {
				h["C04"]++
			}
			if !x.First {
				h["C02"]++
			}
		}
		for _, c := range in.calls {
			if c.Err != nil {
				h["C05"]++
			}
			if (c.Method == "DeriveSharedKey" || c.Method == "GetInfo") && (c.Fault == "stall" || c.Fault == "late") {
				h["C15"]++
			}
		}
		fails := 0
		for _, a := range in.attempts {
			if a.Err != nil {
				fails++
			}
		}
		if fails > 0 {
			h["C18"]++
		}
		if len(in.starts) > 1 || len(in.stops) > 1 {
			h["C09"]++
		}
		if in.downSeq > 0 && in.readySeq > 0 {
			h["C08"]++
		}
		if in.lossAny {
			h["C10"]++
		}
		for i, op := range in.ops {
			if op.CallSeq == 0 {
				continue
			}
			if op.Done && in.readySeq > 0 && op.Kind != "decode" && !before(in.stopSeq, op.RetSeq) {
				h["C20"]++
			}
			if in.readySeq == 0 || op.CallSeq < in.readySeq {
				h["C09"]++
			}
			for _, o := range in.ops[:i] {
				if o.CallSeq == 0 || o.Done && o.RetSeq < op.CallSeq || op.Done && op.RetSeq < o.CallSeq {
					continue
				}
				if op.Kind != "sub" && o.Kind != "sub" {
					h["C17"]++
				}
				if op.Kind == "sub" && o.Kind == "sub" && op.Sub.Type == o.Sub.Type {
					h["C06"]++
				}
			}
			switch op.Kind {
			case "sub":
				h["C01"] += len(op.Sub.Recv)
				if len(op.Sub.Recv) > 1 {
					h["C16"]++
				}
				if op.Done && op.Code != codes.InvalidArgument && op.cause() != "" {
					h["C07"]++
				}
			case "send":
				if op.Done {
					h["C12"]++
				}
				if len(op.calls("GetNodeInfo")) > 0 && op.Send.Direct {
					h["C11"]++
				}
				if len(op.emissions()) > 0 {
					h["C13"]++
				}
			case "gen":
				h["C14"]++
				if op.Route != nil {
					h["C13"]++
				}
			}
		}
	}
	if h["C13"] == 1 {
		delete(h, "C13")
	}
	h["C03"] = w.owed
	for _, n := range w.nodes {
		r := 0
		for _, in := range n.insts {
			if in.readySeq > 0 {
				r++
			}
		}
		if r > 1 {
			h["C19"]++
		}
	}
	for k, v := range h {
		if v == 0 {
			delete(h, k)
		}
	}
	return h
}
