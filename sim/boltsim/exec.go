//go:build go1.21

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/verifsim/simrt"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// SendSpec is what a send asked for.
type SendSpec struct {
	Req    *offersrpc.SendOnionMessageRequest
	Want   map[uint64][]byte
	Reply  *RPath
	Dest   *[33]byte
	Blind  *RPath
	Owner  int // identity at the end of Blind, -1 unknown
	Direct bool
	Bad    bool // must be refused
	Unique bool // the payloads cannot be confused with others'
}

// genState is what GenerateBlindedRoute was asked, and on what graph.
type genState struct {
	Feats []int
	Bad   bool
}

// decodeRef is what DecodeOffer must answer.
type decodeRef struct {
	ok   bool
	resp *offersrpc.Offer
}

// ---- requests ----

func (w *World) payVal(id int, t uint64, l int) []byte {
	r := w.rng("pay", id, t)
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(r.U64())
	}
	if l >= 12 {
		binary.BigEndian.PutUint32(b, uint32(id))
	}
	return b
}

// craftPath blinds a path through identities.
func (w *World) craftPath(k *keys, hops []int, owner int) *RPath {
	var bh []*sphinx.BlindedPathHop
	for i, h := range hops {
		var pl []byte
		if i < len(hops)-1 {
			pl = encTLV([]tlvRec{{4, w.ids[hops[i+1]].Pub[:]}})
		}
		bh = append(bh, &sphinx.BlindedPathHop{NodePub: w.ids[h].Priv.PubKey(), Payload: pl})
	}
	bp, err := sphinx.BuildBlindedPath(k.next(), bh)
	if err != nil {
		panic(err)
	}
	p := &RPath{Intro: bp.IntroductionPoint.SerializeCompressed(), Blinding: bp.BlindingPoint.SerializeCompressed()}
	for i := range bp.BlindedHops {
		p.IDs = append(p.IDs, bp.BlindedHops[i].SerializeCompressed())
		p.Enc = append(p.Enc, bp.EncryptedData[i])
	}
	w.owner[string(p.Bytes())] = owner
	return p
}

// junkPath is well formed but leads nowhere.
func (w *World) junkPath(k *keys, intro, n int) *RPath {
	p := &RPath{Intro: w.ids[intro].Pub[:], Blinding: k.next().PubKey().SerializeCompressed()}
	for i := 0; i < n; i++ {
		p.IDs = append(p.IDs, k.next().PubKey().SerializeCompressed())
		l := 20 + i*7
		if n > 20 {
			l = 1 + i%4 // so that as many as there can be fit
		}
		p.Enc = append(p.Enc, w.payVal(k.n, 77, l+20)[:l])
	}
	return p
}

// lastReply is the newest reply path received at a node.
func (w *World) lastReply(n int) *RPath {
	var best *Recv
	for _, in := range w.nodes[n].insts {
		for _, op := range in.ops {
			if op.Sub == nil {
				continue
			}
			for _, r := range op.Sub.Recv {
				if r.RP != nil && (best == nil || r.Seq > best.Seq) {
					best = r
				}
			}
		}
	}
	if best == nil {
		return nil
	}
	return best.RP
}

func (w *World) genRoute(id int) *RPath {
	if op := w.ops[id]; op != nil && op.Route != nil {
		return op.Route
	}
	return nil
}

func cat(a ...[]byte) []byte { return bytes.Join(a, nil) }

// sendSpec resolves a send step, or returns nil if it makes no sense now.
func (w *World) sendSpec(s *Step) *SendSpec {
	id := s.ID
	if s.K == "send" && s.Code != 0 {
		id = s.Code // repeats another request
	}
	k := w.keys("send", id)
	sp := &SendSpec{Req: &offersrpc.SendOnionMessageRequest{}, Want: map[uint64][]byte{}, Owner: -1, Direct: s.Direct}
	sp.Req.DirectConnect = s.Direct
	sp.Unique = len(s.Pays) > 0
	for _, p := range s.Pays {
		v := w.payVal(id, p.T, p.L)
		sp.Want[p.T] = v
		if p.L < 12 {
			sp.Unique = false
		}
	}
	if s.Code != 0 {
		sp.Unique = false
	}
	if len(sp.Want) > 0 {
		sp.Req.FinalPayloads = map[uint64][]byte{}
		for t, v := range sp.Want {
			sp.Req.FinalPayloads[t] = append([]byte{}, v...)
		}
	}
	switch s.To {
	case "node":
		d := w.ids[s.Dst].Pub
		sp.Dest = &d
		sp.Owner = s.Dst
		sp.Req.Pubkey = append([]byte{}, d[:]...)
	case "gen":
		sp.Blind = w.genRoute(s.Ref)
	case "reply":
		sp.Blind = w.lastReply(s.N)
	case "craft":
		sp.Blind = w.craftPath(k, s.Hops, s.Dst)
	case "junk":
		sp.Blind = w.junkPath(k, s.Dst, s.Count)
	}
	if sp.Dest == nil {
		if sp.Blind == nil {
			return nil
		}
		if o, ok := w.owner[string(sp.Blind.Bytes())]; ok {
			sp.Owner = o
		}
		sp.Req.BlindedDestination = toRPC(sp.Blind)
	}
	switch s.Rep {
	case "gen":
		sp.Reply = w.genRoute(s.RepRef)
	case "craft":
		sp.Reply = w.craftPath(k, s.RepHops, s.N)
	case "junk":
		sp.Reply = w.junkPath(k, s.N, 1+s.ID%3)
	case "nohops":
		sp.Reply = w.junkPath(k, s.N, 0)
		sp.Bad = true
	}
	if sp.Reply != nil {
		sp.Req.ReplyPath = toRPC(sp.Reply)
	}
	return sp
}

func (w *World) badSpec(s *Step) *SendSpec {
	k := w.keys("badsend", s.ID)
	sp := &SendSpec{Req: &offersrpc.SendOnionMessageRequest{DirectConnect: s.Direct}, Bad: true, Owner: -1, Direct: s.Direct}
	pub := w.ids[s.Dst].Pub
	good := w.craftPath(k, []int{s.Dst}, s.Dst)
	bad := make([]byte, 33)
	bad[0] = 4
	sp.Req.Pubkey = pub[:]
	blind := func(f func(p *offersrpc.BlindedPath)) {
		sp.Req.Pubkey = nil
		sp.Req.BlindedDestination = toRPC(good)
		f(sp.Req.BlindedDestination)
	}
	switch s.Mode {
	case "both":
		sp.Req.BlindedDestination = toRPC(good)
	case "none":
		sp.Req.Pubkey = nil
	case "badkey":
		sp.Req.Pubkey = bad
	case "shortkey":
		sp.Req.Pubkey = pub[:20]
	case "badblind":
		blind(func(p *offersrpc.BlindedPath) { p.BlindingPoint = bad })
	case "badintro":
		blind(func(p *offersrpc.BlindedPath) { p.IntroductionNode = nil })
	case "badhop":
		blind(func(p *offersrpc.BlindedPath) { p.Hops[0].BlindedNodeId = bad })
	case "nohops":
		blind(func(p *offersrpc.BlindedPath) { p.Hops = nil })
	case "type":
		sp.Req.FinalPayloads = map[uint64][]byte{63: {1}, 101: {2}}
	case "type0":
		sp.Req.FinalPayloads = map[uint64][]byte{0: {1}}
	case "badreply":
		sp.Req.ReplyPath = toRPC(good)
		sp.Req.ReplyPath.BlindingPoint = bad[:5]
	case "badreplyhop":
		sp.Req.ReplyPath = toRPC(good)
		sp.Req.ReplyPath.Hops[0].BlindedNodeId = nil
	default:
		panic("unknown bad send " + s.Mode)
	}
	// Whether the rest of the request is in order does not matter.
	if sp.Req.FinalPayloads == nil && len(s.Pays) > 0 {
		sp.Req.FinalPayloads = map[uint64][]byte{}
		for _, p := range s.Pays {
			sp.Req.FinalPayloads[p.T] = w.payVal(s.ID, p.T, p.L)
		}
	}
	if sp.Req.ReplyPath == nil && s.Rep == "craft" {
		sp.Req.ReplyPath = toRPC(good)
	}
	return sp
}

const bech = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bech32Str(b []byte) string {
	var sb strings.Builder
	sb.WriteString("lno1")
	acc, n := 0, 0
	for _, x := range b {
		acc = acc<<8 | int(x)
		n += 8
		for n >= 5 {
			n -= 5
			sb.WriteByte(bech[acc>>uint(n)&31])
		}
		acc &= 1<<uint(n) - 1
	}
	if n > 0 {
		sb.WriteByte(bech[acc<<uint(5-n)&31])
	}
	return sb.String()
}

func tu64(v uint64) []byte {
	b := binary.BigEndian.AppendUint64(nil, v)
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// makeOffer invents an offer string.
func makeOffer(r *simrt.RNG, bad bool) string {
	k := identKey(77, r.Intn(5)).PubKey().SerializeCompressed()
	desc := make([]byte, 1+r.Intn(40))
	for i := range desc {
		desc[i] = byte('a' + r.Intn(26))
	}
	recs := []tlvRec{{10, desc}, {30, k[1:]}}
	if r.Chance(0.3) {
		fv := make([]byte, 1+r.Intn(4))
		for i := range fv {
			fv[i] = byte(r.U64())
		}
		fv[0] |= 1
		recs = append(recs, tlvRec{12, fv})
	}
	if r.Chance(0.15) {
		recs = append(recs, tlvRec{2, bytes.Repeat([]byte{byte(r.Intn(3))}, 32)})
	}
	if r.Chance(0.2) {
		// The same description, issuer and node as other offers.
		recs[0].v, recs[1].v = []byte("coffee"), identKey(77, 0).PubKey().SerializeCompressed()[1:]
	}
	if r.Chance(0.6) {
		recs = append(recs, tlvRec{8, tu64(1 + uint64(r.Intn(1<<30)))})
	}
	if r.Chance(0.5) {
		recs = append(recs, tlvRec{14, tu64(1600000000 + uint64(r.Intn(1<<28)))})
	}
	if r.Chance(0.5) {
		recs = append(recs, tlvRec{20, []byte(fmt.Sprintf("issuer %d", r.Intn(100000)))})
	}
	if r.Chance(0.5) {
		m := uint64(1 + r.Intn(100))
		recs = append(recs, tlvRec{22, tu64(m)}, tlvRec{24, tu64(m + uint64(r.Intn(100)))})
	}
	switch r.Intn(8) {
	case 0:
		// Nearly the same as other offers: only a field near the end or
		// near the beginning tells them apart.
		long := bytes.Repeat([]byte("the same words, again and again. "), 1+r.Intn(8))
		recs = []tlvRec{{10, long}, {30, identKey(77, 0).PubKey().SerializeCompressed()[1:]}}
		if r.Chance(0.5) {
			recs = append(recs, tlvRec{20, []byte(fmt.Sprintf("issuer %d", r.Intn(10)))})
		} else {
			recs = append(recs, tlvRec{8, tu64(1 + uint64(r.Intn(10)))})
		}
	}
	b := encTLV(recs)
	if r.Chance(0.25) {
		if sig := signOffer(b, recs[1].v); sig != nil {
			if r.Chance(0.1) {
				sig[r.Intn(64)] ^= 1
			}
			b = encTLV(append(recs, tlvRec{240, sig}))
		}
	}
	s := bech32Str(b)
	if r.Chance(0.2) {
		i := 5 + r.Intn(len(s)-6)
		s = s[:i] + "+\n " + s[i:]
	}
	if bad {
		switch r.Intn(5) {
		case 0:
			s = "lnx" + s[3:]
		case 1:
			i := 5 + r.Intn(len(s)-6)
			s = s[:i] + "b" + s[i+1:]
		case 2:
			s = s[:len(s)-1-r.Intn(len(s)/2)]
		case 3:
			s += "+"
		case 4:
			s = bech32Str(append(b, 240, 64))
		}
	}
	return s
}

// signOffer makes the signature of an offer of one of the issuers.
func signOffer(b, issuer []byte) []byte {
	o, err := lnwire.DecodeOffer(b)
	if err != nil {
		return nil
	}
	digest := chainhash.TaggedHash([]byte("lightningoffersignature"), o.MerkleRoot[:])
	for i := 0; i < 5; i++ {
		k := identKey(77, i)
		if bytes.Equal(k.PubKey().SerializeCompressed()[1:], issuer) {
			if sig, err := schnorr.Sign(k, digest[:]); err == nil {
				return sig.Serialize()
			}
		}
	}
	return nil
}

// offerRef computes the answer outside the simulation.
func offerRef(s string) *decodeRef {
	o, err := offers.DecodeOfferStr(s)
	if s == "" || err != nil {
		return &decodeRef{}
	}
	d := &decodeRef{ok: true, resp: &offersrpc.Offer{
		MinAmountMsat: uint64(o.MinimumAmount), Description: o.Description, Issuer: o.Issuer,
		MinQuantity: o.QuantityMin, MaxQuantity: o.QuantityMax}}
	if o.Features != nil {
		var buf bytes.Buffer
		if o.Features.Encode(&buf) == nil {
			d.resp.Features = buf.Bytes()
		}
	}
	if !o.Expiry.IsZero() {
		d.resp.ExpiryUnixSeconds = uint64(o.Expiry.Unix())
	}
	if o.NodeID != nil {
		d.resp.NodeId = fmt.Sprintf("%x", o.NodeID.SerializeCompressed()[1:])
	}
	if o.Signature != nil {
		d.resp.Signature = fmt.Sprintf("%x", o.Signature[:])
	}
	// The decoder itself may remember what it decoded before: its answer is
	// only used to tell which offers are valid.
	if a := offerAlone(s); a != nil {
		a.Features, a.ExpiryUnixSeconds = d.resp.Features, d.resp.ExpiryUnixSeconds
		d.resp = a
	}
	return d
}

// offerAlone reads an offer without boltnd's code; nil if it cannot.
func offerAlone(s string) *offersrpc.Offer {
	s = strings.ToLower(offerSplit.ReplaceAllString(s, ""))
	if !strings.HasPrefix(s, "lno1") {
		return nil
	}
	var b []byte
	acc, n := 0, 0
	for _, c := range s[4:] {
		i := strings.IndexRune(bech, c)
		if i < 0 {
			return nil
		}
		acc, n = acc<<5|i, n+5
		if n >= 8 {
			n -= 8
			b = append(b, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	recs, err := parseTLV(b)
	if err != nil {
		return nil
	}
	num := func(v []byte) (u uint64) {
		for _, x := range v {
			u = u<<8 | uint64(x)
		}
		return u
	}
	o := &offersrpc.Offer{}
	for _, r := range recs {
		switch r.t {
		case 8:
			o.MinAmountMsat = num(r.v)
		case 10:
			o.Description = string(r.v)
		case 20:
			o.Issuer = string(r.v)
		case 22:
			o.MinQuantity = num(r.v)
		case 24:
			o.MaxQuantity = num(r.v)
		case 30:
			o.NodeId = fmt.Sprintf("%x", r.v)
		case 240:
			o.Signature = fmt.Sprintf("%x", r.v)
		}
	}
	return o
}

var offerSplit = regexp.MustCompile(`\+\s*`)

// ---- hostile and ordinary messages from peers ----

// recipe builds the message of an inject step.
func (w *World) recipe(s *Step) (data []byte, typ uint32) {
	typ = onionType
	k := w.keys("inject", s.ID)
	r := w.rng("inject", s.ID)
	me := w.ids[s.N].Priv.PubKey()
	pub := func(i int) []byte { return w.ids[i].Pub[:] }
	hop := func(i int) hopSpec { return hopSpec{pub: w.ids[i].Priv.PubKey()} }
	var pays []tlvRec
	used := map[uint64]bool{}
	for _, p := range s.Pays {
		if !used[p.T] {
			pays = append(pays, tlvRec{p.T, w.payVal(s.ID, p.T, p.L)})
		}
		used[p.T] = true
	}
	must := func(d []byte, err error) []byte {
		if err != nil {
			return w.payVal(s.ID, 5, 40)
		}
		return d
	}
	end := func(extra ...tlvRec) hopSpec { return hopSpec{pub: me, extra: append(extra, pays...)} }
	next := s.Dst
	if next == s.N {
		next = (s.N + 1) % len(w.ids)
	}
	fin := hop(next)
	fin.extra = pays
	relay := func(rt ...tlvRec) hopSpec { h := hop(s.N); h.route = rt; return h }
	toNext := tlvRec{4, pub(next)}
	bad := append([]byte{2}, bytes.Repeat([]byte{0xff}, 32)...)
	exit := func() []byte { return must(craft(k, []hopSpec{end()})) }
	raw := func(b []byte) []byte {
		h := end()
		h.rawPay = b
		return must(craft(k, []hopSpec{h}))
	}
	switch s.Mode {
	case "exit", "exit-multi", "exit-empty":
		return exit(), typ
	case "exit-none":
		pays = nil
		return exit(), typ
	case "exit-reply":
		if s.Code%4 == 0 {
			// As many hops as fit.
			sum := 90
			for _, r := range pays {
				sum += len(r.v) + 12
			}
			n := (1200 - sum) / 46
			if s.Code%8 == 0 && n > 0 {
				n = 1 + s.Code/8%n
			}
			if n > 0 {
				p := w.junkPath(k, s.Code%len(w.ids), n)
				for i := range p.Enc {
					p.Enc[i] = p.Enc[i][:(i*s.Code)%10]
				}
				return must(craft(k, []hopSpec{end(tlvRec{2, p.Bytes()})})), typ
			}
		}
		p := w.craftPath(k, append([]int{s.Code % len(w.ids)}, s.N), s.N)
		return must(craft(k, []hopSpec{end(tlvRec{2, p.Bytes()})})), typ
	case "exit-enc":
		h := end()
		h.rawEnc = w.payVal(s.ID, 3, s.Code%80)
		return must(craft(k, []hopSpec{h})), typ
	case "exit-order":
		return raw(cat(enc1(101, []byte("abc")), enc1(65, []byte("later")), encTLV(pays))), typ
	case "exit-dup":
		return raw(cat(encTLV(pays), encTLV(pays[len(pays)-1:]))), typ
	case "exit-trunc":
		b := encTLV(append(pays, tlvRec{1 << 40, []byte("tail of the stream")}))
		return raw(b[:len(b)-1-s.Code%10]), typ
	case "exit-long":
		return raw(cat(encTLV(pays), []byte{0xfe, 0x7f, 0xff, 0xff, 0xff, 0xfe, 0xff, 0xff, 0xff, 0xff})), typ
	case "exit-noncanon":
		return raw(cat([]byte{0xfd, 0, 65, 3, 1, 2, 3}, encTLV([]tlvRec{{70001, []byte("zz")}}))), typ
	case "exit-badreply":
		p := w.craftPath(k, []int{next, s.N}, s.N).Bytes()
		idLen := 33 + 2 + int(binary.BigEndian.Uint16(p[67+33:]))
		switch s.Code % 16 {
		case 0:
			p = p[:len(p)-1-s.Code%30]
		case 1:
			p[66] = 0
			if s.Code/16%2 == 0 {
				p = p[:67] // and no hops
			}
		case 2:
			p[66] = 255
		case 3:
			p = p[:s.Code%67]
		case 4:
			copy(p[33:], bad)
		case 5:
			p = append(p, 1, 2, 3)
		case 6:
			copy(p, bad)
		case 7:
			copy(p[67:], bad)
		case 8:
			copy(p[67+idLen:], bad)
		case 9:
			p[67+33], p[67+34] = 0xff, 0xff
		case 10:
			p[[]int{0, 33, 67, 67 + idLen}[s.Code/15%4]] = byte(s.Code / 60 * 2)
		case 11:
			// What follows the path's hops could be the next record.
			p = append(p, encTLV([]tlvRec{{3, w.payVal(s.ID, 3, s.Code/15%20)}})...)
		case 12:
			p = append(p, encTLV([]tlvRec{{uint64(64 + s.Code/15%3), w.payVal(s.ID, 7, 9)}})...)
		case 13:
			// One hop more than announced.
			p[66]--
		case 14:
			// A path that ends where its record does only if the length of
			// the last hop's data is read as announced.
			p[67+idLen+34]++
		case 15:
			// The last hop ends with its id, or one byte later.
			p = p[:67+idLen+33+s.Code/16%2]
		}
		return must(craft(k, []hopSpec{end(tlvRec{2, p})})), typ
	case "exit-even":
		return must(craft(k, []hopSpec{end(tlvRec{uint64(6 + 2*(s.Code%20)), []byte{1}})})), typ
	case "exit-junk":
		b := make([]byte, 1+r.Intn(120))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return raw(b), typ
	case "other":
		return must(craft(k, []hopSpec{fin})), typ
	case "intro-other":
		// A relay for someone else that leads here.
		h := hop(next)
		h.route = []tlvRec{{4, pub(s.N)}}
		return must(craft(k, []hopSpec{h, end()})), typ
	case "junk":
		b := make([]byte, []int{0, 1, 33, 34, 35, 36, 100, 1366, 1401, 1402, 3000}[r.Intn(11)])
		for i := range b {
			b[i] = byte(r.U64())
		}
		if len(b) >= 35 && r.Chance(0.7) {
			copy(b, k.next().PubKey().SerializeCompressed())
			if r.Chance(0.5) {
				binary.BigEndian.PutUint16(b[33:], uint16(len(b)-35))
			}
		}
		return b, typ
	case "flip":
		b := exit()
		for n := 1 + s.Code%2; n > 0; n-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b, typ
	case "cut":
		b := exit()
		return b[:r.Intn(len(b))], typ
	case "extend":
		b := exit()
		return append(b, w.payVal(s.ID, 4, 1+s.Code%40)...), typ
	case "wrongtype":
		return exit(), []uint32{514, 512, 1, 32769, 513 + 65536}[s.Code%5]
	case "lenhdr":
		b := exit()
		binary.BigEndian.PutUint16(b[33:], []uint16{0, 1, 66, 1365, 1367, 65535}[s.Code%6])
		return b, typ
	case "legacy":
		return raw(append([]byte{0}, w.payVal(s.ID, 6, 31)...)), typ
	case "version":
		b := exit()
		b[35] = byte(1 + s.Code%255)
		return b, typ
	case "badpoint":
		b := exit()
		if s.Code%2 == 0 {
			copy(b, bad)
		} else {
			copy(b[36:], bad)
		}
		return b, typ
	case "nothing":
		return nil, typ
	case "huge":
		return append(exit(), make([]byte, 64000)...), typ
	case "relay":
		return must(craft(k, []hopSpec{relay(toNext), fin})), typ
	case "relay-far":
		// The next node is not connected, or not even known.
		h := relay(tlvRec{4, k.next().PubKey().SerializeCompressed()})
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-chain":
		last := (next + 1) % len(w.ids)
		h2 := hop(next)
		h2.route = []tlvRec{{4, pub(last)}}
		h3 := hop(last)
		h3.extra = pays
		return must(craft(k, []hopSpec{relay(toNext), h2, h3})), typ
	case "relay-override":
		return must(craft(k, []hopSpec{relay(toNext, tlvRec{8, k.next().PubKey().SerializeCompressed()}), fin})), typ
	case "relay-nonext":
		if s.Code%2 == 0 {
			return must(craft(k, []hopSpec{relay(), fin})), typ
		}
		return must(craft(k, []hopSpec{relay(tlvRec{8, k.next().PubKey().SerializeCompressed()}), fin})), typ
	case "relay-badenc":
		h := relay(toNext)
		h.rawEnc = w.payVal(s.ID, 7, 1+s.Code%90)
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-noenc":
		h := relay()
		h.noEnc = true
		h.extra = []tlvRec{{1, []byte("odd")}}
		if s.Code%3 == 0 {
			h.extra = []tlvRec{{4, nil}}
		}
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-finals":
		h := relay(toNext)
		h.extra = pays
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-badnext":
		v := bad
		if s.Code%3 == 0 {
			v = pub(next)[:32]
		}
		return must(craft(k, []hopSpec{relay(tlvRec{4, v}), fin})), typ
	case "relay-badoverride":
		return must(craft(k, []hopSpec{relay(toNext, tlvRec{8, bad}), fin})), typ
	case "relay-junktlv":
		h := relay()
		h.routeRW = cat(enc1(8, k.next().PubKey().SerializeCompressed()), enc1(4, pub(next)))
		if s.Code%2 == 0 {
			h.routeRW = w.payVal(s.ID, 8, 1+s.Code%50)
		}
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-odd":
		h := relay(toNext, tlvRec{uint64(1 + 2*(s.Code%30)), []byte("odd")})
		if s.Code%2 == 0 {
			h.extra = []tlvRec{{uint64(5 + 2*(s.Code%20)), []byte("odd too")}}
		}
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-even":
		return must(craft(k, []hopSpec{relay(toNext, tlvRec{uint64(10 + 2*(s.Code%20)), []byte("even")}), fin})), typ
	case "relay-reply":
		h := relay(toNext)
		h.extra = []tlvRec{{2, w.craftPath(k, []int{next}, next).Bytes()}}
		return must(craft(k, []hopSpec{h, fin})), typ
	case "relay-self":
		h := relay(tlvRec{4, pub(s.N)})
		if s.Code%2 == 0 {
			h = relay(tlvRec{4, pub(s.N)}, tlvRec{8, k.next().PubKey().SerializeCompressed()})
		}
		return must(craft(k, []hopSpec{h, end()})), typ
	case "relay-zero":
		h := relay(toNext)
		z := hop(next)
		return must(craft(k, []hopSpec{h, z})), typ
	}
	panic("unknown recipe " + s.Mode)
}

func enc1(t uint64, v []byte) []byte { return encTLV([]tlvRec{{t, v}}) }

// ---- executing steps ----

func (w *World) sleepUntil(ns int64) {
	if d := ns - w.r.NowNs(); d > 0 {
		simrt.Sleep(time.Duration(d))
	}
}

// live is the instance that would serve an RPC at a node.
func (w *World) live(n int) *Inst {
	if n < 0 || n >= len(w.nodes) {
		return nil
	}
	in := w.nodes[n].inst
	if in == nil || in.dead() {
		return nil
	}
	return in
}

func (w *World) cancelLater(op *Op, us1 int64) {
	if us1 <= 0 {
		return
	}
	simrt.GoNamed("cancel", 0, 0, func() {
		simrt.Sleep(time.Duration(us1) * time.Microsecond)
		w.cancelOp(op, "planned")
	})
}

func (in *Inst) startFailed() bool {
	if len(in.starts) == 0 {
		return false
	}
	for _, s := range in.starts {
		if !s.Done || s.Err == nil {
			return false
		}
	}
	return true
}

func (w *World) boot(s *Step) {
	n := w.nodes[s.N]
	if in := n.inst; in != nil && !in.dead() && in.downSeq == 0 {
		if !in.startFailed() || in.stopSeq > 0 {
			return
		}
		in.stop(700000 + s.ID)
		simrt.Sleep(time.Millisecond)
		if in.downSeq == 0 {
			return
		}
	}
	in := w.newInst(n, s)
	if in.dead() {
		return
	}
	cnt := s.Count
	if cnt == 0 {
		cnt = 1
	}
	w.fault("boot")
	for i := 0; i < cnt; i++ {
		if s.DelayUs > 0 {
			w.r.AfterNs(time.Duration(s.DelayUs)*time.Microsecond, func() {
				if !in.dead() {
					in.start(s.ID)
				}
			})
		} else {
			in.start(s.ID)
		}
	}
}

// trigger is a step that waits for something to happen at its node.
type trigger struct {
	on   string
	n    int
	left int
	step *Step
}

// happened lets the steps go that waited for this.
func (w *World) happened(what string, n int) {
	if !w.trigSeen[what] || w.healed {
		return
	}
	var keep []*trigger
	for _, t := range w.triggers {
		if t.on != what || t.n != n {
			keep = append(keep, t)
			continue
		}
		if t.left > 0 {
			t.left--
			keep = append(keep, t)
			continue
		}
		s := t.step
		w.fault("triggered_" + what)
		simrt.GoNamed("trigger", 0, 0, func() {
			if !w.healed {
				w.execStep(s, true)
			}
		})
	}
	w.triggers = keep
}

func (w *World) exec(s *Step) { w.execStep(s, false) }

func (w *World) execStep(s *Step, fired bool) {
	if s.N < 0 || s.N >= len(w.ids) || s.Dst >= len(w.ids) {
		return
	}
	if s.K != "graph" && s.N >= len(w.nodes) {
		return
	}
	if s.On != "" && !fired && !w.healed {
		w.triggers = append(w.triggers, &trigger{on: s.On, n: s.N, left: s.Nth, step: s})
		w.trigSeen[s.On] = true
		return
	}
	in := w.live(s.N)
	switch s.K {
	case "boot":
		w.boot(s)
	case "extrastart":
		if in != nil {
			for i := 0; i < s.Count; i++ {
				in.start(s.ID)
			}
		}
	case "stop", "extrastop":
		if in != nil && (s.K == "extrastop" || in.stopSeq == 0) {
			w.fault("stop")
			for i := 0; i < s.Count; i++ {
				in.stop(s.ID)
			}
		}
	case "crash":
		if in != nil {
			in.crash()
		}
	case "pause":
		if in != nil {
			w.fault("process_pause")
			w.ev("pause i%d %dus", in.Tag, s.Dur)
			in.paused = true
			w.r.StallTag(in.Tag, time.Duration(s.Dur)*time.Microsecond)
		}
	case "send", "badsend":
		if in == nil {
			return
		}
		var sp *SendSpec
		if s.K == "send" {
			sp = w.sendSpec(s)
		} else {
			sp = w.badSpec(s)
		}
		if sp != nil {
			w.send(s, in, sp)
		}
	case "gen":
		if in != nil {
			w.generate(s, in)
		}
	case "decode":
		if in != nil {
			op := &Op{ID: s.ID, Step: s, Inst: in, Kind: "decode"}
			if w.decRef[s.Str] == nil {
				return
			}
			w.rpc(op, "DecodeOffer", &offersrpc.DecodeOfferRequest{Offer: s.Str}, &offersrpc.DecodeOfferResponse{}, nil)
			w.cancelLater(op, s.CancelUs)
		}
	case "sub":
		if in != nil {
			op := &Op{ID: s.ID, Step: s, Inst: in}
			w.subscribe(op, s.T)
			w.cancelLater(op, s.CancelUs)
		}
	case "unsub":
		if op := w.ops[s.Ref]; op != nil && op.Kind == "sub" {
			w.cancelOp(op, "unsub")
		}
	case "inject":
		if s.From >= len(w.ids) {
			return
		}
		d, t := w.recipe(s)
		w.fault("inject_" + strings.SplitN(s.Mode, "-", 2)[0])
		w.arrive(s.N, &Arrival{Data: d, Type: t, From: w.ids[s.From].Pub})
	case "flood":
		w.flood(s)
	case "replay":
		w.replay(s)
	case "fault":
		n := w.nodes[s.N]
		n.faults = append(n.faults, &lndFault{Method: s.Method, Mode: s.Mode, Cnt: s.Cnt, Skip: s.Skip,
			Until: w.r.NowNs() + s.Dur*us, Slow: s.Slow * us, Code: s.Code})
		w.ev("fault n%d %s %s", s.N, s.Method, s.Mode)
	case "loss":
		if in != nil {
			for _, c := range in.conns {
				for _, st := range c.streams {
					if !st.done && st.lost == "" {
						st.lost, st.code, st.shape = s.Mode, s.Code/3, s.Code%3
						w.fault("stream_loss_" + s.Mode)
						w.ev("losing stream of i%d: %s", in.Tag, s.Mode)
					}
				}
			}
		}
	case "rand":
		if in != nil && s.Mode == "nth" {
			w.rndSkip[in.Tag] = s.Code
			w.ev("randomness of i%d fails once after %d draws", in.Tag, s.Code)
		} else if in != nil {
			key := fmt.Sprint(in.Tag)
			w.rndFail[key] = true
			w.ev("randomness of i%d fails", in.Tag)
			w.r.AfterNs(time.Duration(s.Dur)*time.Microsecond, func() { w.rndFail[key] = false })
		}
	case "flap":
		e := w.edge(s.N, s.Dst)
		if s.N == s.Dst {
			return
		}
		w.fault("peer_" + s.Mode)
		w.setPeer(s.N, s.Dst, s.Mode == "up")
		w.ev("peer %d-%d %s", s.N, s.Dst, s.Mode)
		if s.Mode == "down" && e != nil && e.Peer {
			w.r.AfterNs(time.Duration(s.Dur)*time.Microsecond, func() { w.setPeer(s.N, s.Dst, true) })
		}
	case "graph":
		w.graphV++
		w.fault("graph_change")
		w.ev("graph change %d %s", s.N, s.Mode)
		if s.Mode == "edge" && len(w.edges) > 0 {
			e := &w.edges[s.Ref%len(w.edges)]
			e.Active = !e.Active
		} else if s.Graph != nil {
			g := *s.Graph
			g.Idx = s.N
			w.graph[s.N] = &g
		}
	default:
		panic("unknown step " + s.K)
	}
}

// flood lets a great many messages arrive, one after the other.
func (w *World) flood(s *Step) {
	if s.From >= len(w.ids) {
		return
	}
	r := w.rng("flood", s.ID)
	for j := 0; j < s.Count; j++ {
		c := *s
		c.ID = s.ID*100000 + 1000000000 + j
		c.Code = r.Intn(1000)
		switch s.Mode {
		case "relays":
			c.Mode = relayRecipes[r.Intn(8)]
		case "bad":
			c.Mode = badRecipes[r.Intn(len(badRecipes))]
		case "mixed":
			c.Mode = [][]string{exitRecipes, badRecipes, relayRecipes}[r.Intn(3)][r.Intn(len(exitRecipes))]
		}
		if c.Mode == "exit-empty" || c.Mode == "exit-multi" {
			c.Mode = "exit"
		}
		w.r.AfterNs(time.Duration(int64(j)*s.Dur)*time.Microsecond, func() {
			d, t := w.recipe(&c)
			w.fault("flood")
			w.arrive(c.N, &Arrival{Data: d, Type: t, From: w.ids[c.From].Pub})
		})
	}
}

func (w *World) replay(s *Step) {
	as := w.arrivals[s.N]
	if len(as) == 0 || s.From >= len(w.ids) {
		return
	}
	a := as[s.Ref%len(as)]
	r := w.rng("replay", s.ID)
	for i := 0; i < s.Count; i++ {
		d := append([]byte{}, a.Data...)
		switch s.Mode {
		case "trail":
			d = append(d, w.payVal(s.ID+i, 9, 1+r.Intn(30))...)
		case "flip":
			if len(d) > 0 {
				d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
			}
		}
		from := a.From
		if (s.Code+i)%2 == 0 {
			from = w.ids[s.From].Pub
		}
		b := &Arrival{Data: d, Type: a.Type, From: from}
		w.fault("replay_" + s.Mode)
		w.r.AfterNs(time.Duration(int64(i)*s.Dur)*time.Microsecond, func() { w.arrive(s.N, b) })
	}
}

func (w *World) send(s *Step, in *Inst, sp *SendSpec) *Op {
	op := &Op{ID: s.ID, Step: s, Inst: in, Kind: "send", Send: sp}
	op.flaps = in.node.flaps
	w.rpc(op, "SendOnionMessage", sp.Req, &offersrpc.SendOnionMessageResponse{}, func() {
		op.peerAt = -1
		if t, ok := op.target(); ok {
			if at, ok := in.node.peers[t]; ok {
				op.peerAt = at
			}
		}
		op.flaps = in.node.flaps - op.flaps
	})
	w.cancelLater(op, s.CancelUs)
	return op
}

func (w *World) generate(s *Step, in *Inst) *Op {
	op := &Op{ID: s.ID, Step: s, Inst: in, Kind: "gen", GenSt: &genState{Feats: s.Feats}, GraphV0: w.graphV}
	req := &offersrpc.GenerateBlindedRouteRequest{}
	for _, f := range s.Feats {
		req.Features = append(req.Features, uint64(f))
		if f > 65535 {
			op.GenSt.Bad = true
		}
	}
	w.rpc(op, "GenerateBlindedRoute", req, &offersrpc.GenerateBlindedRouteResponse{}, func() {
		w.checkGen(op)
	})
	w.cancelLater(op, s.CancelUs)
	return op
}

func (w *World) sleepSteps(ns int64) { simrt.Sleep(time.Duration(ns)) }

// waitFor waits until f holds, looking every d, for at most max.
func (w *World) waitFor(max int64, f func() bool) bool {
	end := w.r.NowNs() + max
	step := 100 * time.Millisecond
	if max > 200*s1 {
		step = time.Duration(max / 2000)
	}
	for !f() {
		if w.r.NowNs() >= end {
			return false
		}
		simrt.Sleep(step)
	}
	return true
}

// main is the life of the world.
func (w *World) main() {
	p := w.plan
	steps := append([]*Step{}, p.Steps...)
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	for _, s := range steps {
		w.sleepUntil(s.At * us)
		w.exec(s)
	}
	w.sleepUntil(p.HealUs * us)
	w.heal()
	w.probe()
	w.shutdown()
}

// heal ends all faults and gets every node going.
func (w *World) heal() {
	w.ev("heal")
	w.healed = true
	w.triggers = nil
	w.graphV++
	for _, n := range w.nodes {
		n.faults = nil
	}
	w.rndFail = map[string]bool{}
	w.rndSkip = map[int]int{}
	for i := range w.edges {
		if e := &w.edges[i]; e.Peer {
			w.setPeer(e.A, e.B, true)
		}
	}
	for _, in := range w.insts {
		w.r.Resume(in.Tag)
	}
	w.sleepSteps(3 * s1)
	// Whoever lost its stream or was never started is stopped.
	for _, n := range w.nodes {
		in := n.inst
		if in != nil && !in.dead() && in.stopSeq == 0 && (in.lostSeq > 0 || len(in.starts) == 0 || in.startFailed()) {
			in.stop(800000 + n.Idx)
		}
	}
	settled := func(in *Inst) bool {
		if in == nil || in.dead() {
			return true
		}
		if in.stopSeq > 0 {
			return in.downSeq > 0
		}
		for _, s := range in.starts {
			if !s.Done {
				return false
			}
		}
		return true
	}
	// All attempts of a Start that is in progress may have to be made.
	lim := int64(90 * s1)
	for _, n := range w.nodes {
		if in := n.inst; in != nil {
			if d := 90*s1 + int64(in.boot.Retries+1)*int64(in.boot.attempt()); d > lim && !settled(in) {
				lim = d
			}
		}
	}
	w.waitFor(lim, func() bool {
		for _, n := range w.nodes {
			if !settled(n.inst) {
				return false
			}
		}
		return true
	})
	for _, n := range w.nodes {
		in := n.inst
		if in != nil && !in.dead() && in.stopSeq == 0 && (in.startFailed() || len(in.starts) == 0) {
			in.stop(810000 + n.Idx)
			w.sleepSteps(10 * ms)
		}
		if in == nil || in.dead() || in.stopSeq > 0 {
			s := &Step{ID: 100000 + n.Idx, K: "boot", N: n.Idx, Retries: 1, WaitUs: 100000}
			b := w.newInst(n, s)
			b.start(s.ID)
		}
	}
	w.sleepSteps(2 * s1)
	for _, n := range w.nodes {
		in := n.inst
		if !in.running() {
			if in.dead() || in.stopSeq > 0 || in.lostSeq > 0 {
				continue
			}
			w.violate("not-restored", "C19 C15 C18 C09", "%s is not running 2 s after everything works again (start: %s)", in.name(), lifeStr(in.starts))
		}
	}
	// Give calls in progress the time to end.
	w.waitFor(70*s1, func() bool {
		for _, op := range w.opList {
			if op.Kind != "sub" && !op.Done && !op.Inst.dead() && op.Inst.readySeq > 0 {
				return false
			}
		}
		for _, in := range w.insts {
			if in.running() && (len(in.open) > 0 || in.sending > 0) {
				return false
			}
		}
		return true
	})
	w.sleepSteps(s1)
}

// leftovers groups the goroutines that a running instance has although what
// they were for is over. One that is started once may be meant to stay.
func (w *World) leftovers(in *Inst) (n int, what string) {
	by := map[string]int{}
	for _, t := range w.r.Live(in.Tag) {
		op := w.ops[t.Op]
		if t.Born <= in.readyNs || t.Op != 0 && (op == nil || !op.Done) {
			continue
		}
		k := fmt.Sprintf("%v %s", t.Op != 0, t.Name)
		by[k]++
		if c := by[k]; c > n && (c > 1 || w.r.Spawned(in.Tag, t.Name) > 2) {
			n, what = c, w.r.Describe(t)
		}
	}
	return n, what
}

// leftBehind looks for goroutines that pile up. Every message has been handled
// and every call has returned.
func (w *World) leftBehind() {
	for _, n := range w.nodes {
		in := n.inst
		if in == nil || !in.running() {
			continue
		}
		if c, _ := w.leftovers(in); c == 0 {
			continue
		}
		// Whatever only waits for a while is fine.
		w.waitFor(180*s1, func() bool {
			c, _ := w.leftovers(in)
			return c == 0 || !in.running()
		})
		if c, what := w.leftovers(in); c > 0 && in.running() {
			w.violate("goroutines-pile-up", "C20", "%s: %d goroutines are left of calls and messages that are over, one is %s", in.name(), c, what)
		}
	}
}

func lifeStr(l []*Life) string {
	var s []string
	for _, x := range l {
		if !x.Done {
			s = append(s, "has not returned")
		} else {
			s = append(s, fmt.Sprintf("returned %v", x.Err))
		}
	}
	if len(s) == 0 {
		return "never called"
	}
	return strings.Join(s, ", ")
}

// probe checks that the system works: what was used before works again, and
// messages sent now arrive.
func (w *World) probe() {
	w.ev("probe")
	id := 200000
	step := func(k string, n int) *Step {
		id++
		return &Step{ID: id, K: k, N: n, At: w.r.NowNs() / us}
	}
	// Old subscriptions go, and their types are free.
	for _, n := range w.nodes {
		for _, op := range n.inst.ops {
			if op.Kind == "sub" {
				w.cancelOp(op, "probe")
			}
		}
	}
	w.sleepSteps(s1)
	w.leftBehind()
	types := map[int][]uint64{}
	for _, n := range w.nodes {
		if !n.inst.running() {
			continue
		}
		used := map[uint64]bool{1000001: true}
		for _, s := range w.plan.Steps {
			if s.K == "sub" && s.N == n.Idx && s.T >= 64 {
				used[s.T] = true
			}
		}
		for t := range used {
			types[n.Idx] = append(types[n.Idx], t)
		}
		sort.Slice(types[n.Idx], func(i, j int) bool { return types[n.Idx][i] < types[n.Idx][j] })
		for _, t := range types[n.Idx] {
			op := &Op{ID: id + 1, Step: step("sub", n.Idx), Inst: n.inst}
			w.subscribe(op, t)
		}
	}
	w.sleepSteps(300 * ms)
	// Messages from peers.
	for _, n := range w.nodes {
		s := step("inject", n.Idx)
		s.Mode, s.From = "exit", (n.Idx+1)%len(w.ids)
		s.Pays = nil
		for i, t := range types[n.Idx] {
			if i < 3 || t == 1000001 {
				s.Pays = append(s.Pays, Pay{t, 20 + i})
			}
		}
		d, _ := w.recipe(s)
		w.arrive(n.Idx, &Arrival{Data: d, Type: onionType, From: w.ids[s.From].Pub})
	}
	w.sleepSteps(500 * ms)
	// RPCs.
	gens := map[int]*Op{}
	var sends []*Op
	for _, n := range w.nodes {
		if !n.inst.running() {
			continue
		}
		gens[n.Idx] = w.generate(step("gen", n.Idx), n.inst)
		d := step("decode", n.Idx)
		d.Str = probeOffer
		op := &Op{ID: d.ID, Step: d, Inst: n.inst, Kind: "decode"}
		w.rpc(op, "DecodeOffer", &offersrpc.DecodeOfferRequest{Offer: d.Str}, &offersrpc.DecodeOfferResponse{}, nil)
	}
	w.sleepSteps(s1)
	for i, n := range w.nodes {
		if !n.inst.running() {
			continue
		}
		j := (i + 1 + int(w.plan.Seed%7)) % len(w.nodes)
		if j == i {
			continue
		}
		s := step("send", i)
		s.To, s.Dst = "node", j
		s.Pays = []Pay{{1000001, 24}, {first(types[j]), 16}}
		if s.Pays[1].T == 1000001 {
			s.Pays = s.Pays[:1]
		}
		if gens[i] != nil && gens[i].Route != nil {
			s.Rep, s.RepRef = "gen", gens[i].ID
		}
		if sp := w.sendSpec(s); sp != nil {
			sends = append(sends, w.send(s, n.inst, sp))
		}
		if g := gens[j]; g != nil && g.Route != nil {
			s := step("send", i)
			s.To, s.Ref = "gen", g.ID
			s.Pays = []Pay{{1000001, 24}}
			if sp := w.sendSpec(s); sp != nil {
				sends = append(sends, w.send(s, n.inst, sp))
			}
		}
		// A route from before the last restart.
		for _, o := range w.opList {
			if o.Kind == "gen" && o.Route != nil && o.Inst.node.Idx == j && o.Inst != w.nodes[j].inst {
				s := step("send", i)
				s.To, s.Ref = "gen", o.ID
				s.Pays = []Pay{{1000001, 25}}
				if sp := w.sendSpec(s); sp != nil {
					w.fault("send_to_route_from_before_restart")
					sends = append(sends, w.send(s, n.inst, sp))
				}
				break
			}
		}
	}
	w.sleepSteps(6 * s1)
	_ = sends
}

func first(l []uint64) uint64 {
	if len(l) == 0 {
		return 1000001
	}
	return l[0]
}

var probeOffer = makeOffer(simrt.NewRNG(4711), false)

// shutdown stops everything and looks for leftovers.
func (w *World) shutdown() {
	w.ev("shutdown")
	for _, in := range w.insts {
		if in.dead() || in.stopSeq > 0 {
			continue
		}
		in.stop(820000 + in.Seen)
	}
	w.waitFor(100*s1, func() bool {
		for _, in := range w.insts {
			if in.dead() {
				continue
			}
			for _, l := range append(append([]*Life{}, in.stops...), in.starts...) {
				if !l.Done {
					return false
				}
			}
			for _, op := range in.ops {
				if !op.Done {
					return false
				}
			}
		}
		return true
	})
	w.sleepSteps(40 * s1)
	w.final()
}

func featsOK(have []int, want []int) bool {
	v := lndwire.NewRawFeatureVector()
	for _, f := range have {
		v.Set(lndwire.FeatureBit(f))
	}
	for _, f := range want {
		if f%2 == 0 && !v.IsSet(lndwire.FeatureBit(f)) {
			return false
		}
	}
	return true
}
