//go:build go1.21

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

// The reference model of a node: what an onion message means to the holder of
// a key. It is written from the message format, not from boltnd's code; only
// the cryptography (package sphinx) is shared.

const onionBlobLen = 1366

// Verdict says what a node must do with a message.
type Verdict int

const (
	VDrop    Verdict = iota // neither deliver nor forward anything
	VDeliver                // deliver each payload to the subscriber of its type
	VForward                // forward one onion
	VUnspec                 // not specified: anything consistent with the content
)

// Peeled is the result of peeling one layer.
type Peeled struct {
	V        Verdict
	Why      string
	Key      [32]byte // identifies the onion packet
	Exit     bool
	Payloads map[uint64][]byte
	Types    []uint64 // ascending
	Reply    []byte   // canonical bytes of the reply path, nil if none
	Peer     [33]byte
	Data     []byte // the message to forward
	EncData  []byte // decrypted route data
	ECDH     [][33]byte
	RawTypes []uint64 // all types in the hop payload
}

// recECDH performs key operations and records their arguments.
type recECDH struct {
	sphinx.PrivKeyECDH
	args [][33]byte
}

func (r *recECDH) ECDH(p *btcec.PublicKey) ([32]byte, error) {
	var a [33]byte
	copy(a[:], p.SerializeCompressed())
	r.args = append(r.args, a)
	return r.PrivKeyECDH.ECDH(p)
}

type tlvRec struct {
	t uint64
	v []byte
}

var errTLV = errors.New("malformed tlv stream")

func readBigSize(b []byte) (uint64, []byte, error) {
	if len(b) == 0 {
		return 0, nil, errTLV
	}
	switch d := b[0]; {
	case d < 0xfd:
		return uint64(d), b[1:], nil
	case d == 0xfd:
		if len(b) < 3 {
			return 0, nil, errTLV
		}
		v := uint64(binary.BigEndian.Uint16(b[1:]))
		if v < 0xfd {
			return 0, nil, errTLV
		}
		return v, b[3:], nil
	case d == 0xfe:
		if len(b) < 5 {
			return 0, nil, errTLV
		}
		v := uint64(binary.BigEndian.Uint32(b[1:]))
		if v <= 0xffff {
			return 0, nil, errTLV
		}
		return v, b[5:], nil
	}
	if len(b) < 9 {
		return 0, nil, errTLV
	}
	v := binary.BigEndian.Uint64(b[1:])
	if v <= 0xffffffff {
		return 0, nil, errTLV
	}
	return v, b[9:], nil
}

func putBigSize(b []byte, v uint64) []byte {
	switch {
	case v < 0xfd:
		return append(b, byte(v))
	case v <= 0xffff:
		return append(b, 0xfd, byte(v>>8), byte(v))
	case v <= 0xffffffff:
		b = append(b, 0xfe)
		return binary.BigEndian.AppendUint32(b, uint32(v))
	}
	b = append(b, 0xff)
	return binary.BigEndian.AppendUint64(b, v)
}

func parseTLV(b []byte) ([]tlvRec, error) {
	var out []tlvRec
	for len(b) > 0 {
		t, r, err := readBigSize(b)
		if err != nil {
			return nil, err
		}
		if n := len(out); n > 0 && t <= out[n-1].t {
			return nil, errTLV
		}
		l, r, err := readBigSize(r)
		if err != nil {
			return nil, err
		}
		if l > uint64(len(r)) {
			return nil, errTLV
		}
		out = append(out, tlvRec{t, r[:l]})
		b = r[l:]
	}
	return out, nil
}

func encTLV(recs []tlvRec) []byte {
	rs := append([]tlvRec{}, recs...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].t < rs[j].t })
	var b []byte
	for _, r := range rs {
		b = putBigSize(b, r.t)
		b = putBigSize(b, uint64(len(r.v)))
		b = append(b, r.v...)
	}
	return b
}

func pointOK(b []byte) bool {
	if len(b) != 33 {
		return false
	}
	_, err := btcec.ParsePubKey(b)
	return err == nil
}

// RPath is a blinded path in plain bytes.
type RPath struct {
	Intro    []byte
	Blinding []byte
	IDs      [][]byte
	Enc      [][]byte
}

// Bytes is the wire form of a reply path.
func (p *RPath) Bytes() []byte {
	if p == nil {
		return nil
	}
	b := append([]byte{}, p.Intro...)
	b = append(b, p.Blinding...)
	b = append(b, byte(len(p.IDs)))
	for i := range p.IDs {
		b = append(b, p.IDs[i]...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(p.Enc[i])))
		b = append(b, p.Enc[i]...)
	}
	return b
}

// parseRPath returns the path and the number of bytes left over.
func parseRPath(b []byte) (*RPath, int, error) {
	bad := errors.New("malformed reply path")
	if len(b) < 67 || !pointOK(b[:33]) || !pointOK(b[33:66]) || b[66] == 0 {
		return nil, 0, bad
	}
	p := &RPath{Intro: b[:33], Blinding: b[33:66]}
	n := int(b[66])
	b = b[67:]
	for i := 0; i < n; i++ {
		if len(b) < 35 || !pointOK(b[:33]) {
			return nil, 0, bad
		}
		l := int(binary.BigEndian.Uint16(b[33:]))
		if len(b) < 35+l {
			return nil, 0, bad
		}
		p.IDs = append(p.IDs, b[:33])
		p.Enc = append(p.Enc, b[35:35+l])
		b = b[35+l:]
	}
	return p, len(b), nil
}

// peel says what the holder of priv must do with the message data.
func peel(priv *btcec.PrivateKey, data []byte) (p *Peeled) {
	p = &Peeled{V: VDrop}
	drop := func(why string) *Peeled { p.V, p.Why = VDrop, why; return p }
	if len(data) < 35 {
		return drop("too short")
	}
	blinding, err := btcec.ParsePubKey(data[:33])
	if err != nil {
		return drop("bad blinding point")
	}
	n := int(binary.BigEndian.Uint16(data[33:35]))
	if len(data) < 35+n {
		return drop("onion shorter than announced")
	}
	unspec := ""
	if len(data) > 35+n {
		unspec = "bytes after the onion"
	}
	blob := data[35 : 35+n]
	if n < onionBlobLen {
		return drop("short onion")
	}
	if n > onionBlobLen {
		unspec = "bytes after the onion, inside its length"
	}
	blob = blob[:onionBlobLen]
	h := sha256.New()
	h.Write(data[:33])
	h.Write(blob[1:34])
	copy(p.Key[:], h.Sum(nil))

	pkt := &sphinx.OnionPacket{}
	if err := pkt.Decode(bytes.NewReader(blob)); err != nil {
		return drop("onion does not decode: " + err.Error())
	}
	node := &recECDH{PrivKeyECDH: sphinx.PrivKeyECDH{PrivKey: priv}}
	rl := sphinx.NewMemoryReplayLog()
	router := sphinx.NewRouter(node, &chaincfg.RegressionNetParams, rl)
	_ = router.Start()
	res, err := router.ProcessOnionPacket(pkt, nil, 0, blinding)
	p.ECDH = node.args
	if err != nil {
		return drop("onion rejected: " + err.Error())
	}
	if res.Payload.Type != sphinx.PayloadTLV {
		unspec = "legacy payload"
	}
	recs, err := parseTLV(res.Payload.Payload)
	if err != nil {
		if unspec == "legacy payload" {
			p.V, p.Why = VDrop, "legacy payload that is no tlv stream"
			return p
		}
		return drop("payload is not a canonical tlv stream")
	}
	p.Exit = res.Action == sphinx.ExitNode
	p.Payloads = map[uint64][]byte{}
	var enc []byte
	hasReply := false
	for _, r := range recs {
		p.RawTypes = append(p.RawTypes, r.t)
		switch {
		case r.t == 2:
			hasReply = true
			rp, left, err := parseRPath(r.v)
			if err != nil || left > 0 {
				return drop("malformed reply path")
			}
			p.Reply = rp.Bytes()
		case r.t == 4:
			enc = r.v
		case r.t >= 64:
			p.Payloads[r.t] = r.v
			p.Types = append(p.Types, r.t)
		case r.t%2 == 0:
			unspec = "unknown even type"
		}
	}
	if p.Exit {
		p.V, p.Why = VDeliver, "for this node"
		if unspec != "" {
			p.V, p.Why = VUnspec, unspec
		}
		return p
	}
	if len(p.Types) > 0 {
		return drop("final payloads at an intermediate hop")
	}
	if hasReply {
		unspec = "reply path at an intermediate hop"
	}
	if len(enc) == 0 {
		return drop("no encrypted data")
	}
	plain, err := sphinx.DecryptBlindedData(node, blinding, enc)
	p.ECDH = node.args
	if err != nil {
		return drop("encrypted data does not decrypt")
	}
	p.EncData = plain
	ers, err := parseTLV(plain)
	if err != nil {
		return drop("route data is not a canonical tlv stream")
	}
	var next, override []byte
	for _, r := range ers {
		switch {
		case r.t == 4:
			if !pointOK(r.v) {
				return drop("bad next node")
			}
			next = r.v
		case r.t == 8:
			if !pointOK(r.v) {
				return drop("bad blinding override")
			}
			override = r.v
		case r.t%2 == 0:
			unspec = "unknown even type in route data"
		}
	}
	if next == nil {
		return drop("no next node")
	}
	nb, err := sphinx.NextEphemeral(node, blinding)
	p.ECDH = node.args
	if err != nil {
		return drop("no next blinding point")
	}
	out := nb.SerializeCompressed()
	if override != nil {
		out = override
	}
	copy(p.Peer[:], next)
	var buf bytes.Buffer
	if err := res.NextPacket.Encode(&buf); err != nil {
		return drop("next onion does not encode")
	}
	p.Data = wireMsg(out, buf.Bytes())
	p.V, p.Why = VForward, "to relay"
	if unspec != "" {
		p.V, p.Why = VUnspec, unspec
	}
	return p
}

func wireMsg(blinding, blob []byte) []byte {
	d := append([]byte{}, blinding...)
	d = binary.BigEndian.AppendUint16(d, uint16(len(blob)))
	return append(d, blob...)
}

// hopSpec describes one hop of a crafted onion message.
type hopSpec struct {
	pub     *btcec.PublicKey
	route   []tlvRec // route data to encrypt; nil slice: no records
	rawEnc  []byte   // used instead of encrypted route data, if non-nil
	noEnc   bool
	extra   []tlvRec // further records of the hop payload
	rawPay  []byte   // used instead of the whole payload, if non-nil
	routeRW []byte   // raw route data to encrypt, if non-nil
}

// craft builds an onion message along hops with keys derived from seed.
func craft(rng keySource, hops []hopSpec) ([]byte, error) {
	session, blindKey := rng.next(), rng.next()
	var bh []*sphinx.BlindedPathHop
	for _, h := range hops {
		pl := encTLV(h.route)
		if h.routeRW != nil {
			pl = h.routeRW
		}
		bh = append(bh, &sphinx.BlindedPathHop{NodePub: h.pub, Payload: pl})
	}
	bp, err := sphinx.BuildBlindedPath(blindKey, bh)
	if err != nil {
		return nil, err
	}
	var path sphinx.PaymentPath
	for i, h := range hops {
		recs := append([]tlvRec{}, h.extra...)
		if !h.noEnc {
			e := bp.EncryptedData[i]
			if h.rawEnc != nil {
				e = h.rawEnc
			}
			recs = append(recs, tlvRec{4, e})
		}
		pay := encTLV(recs)
		if h.rawPay != nil {
			pay = h.rawPay
		}
		if len(pay) == 0 {
			return nil, fmt.Errorf("empty payload")
		}
		path[i] = sphinx.OnionHop{NodePub: *bp.BlindedHops[i],
			HopPayload: sphinx.HopPayload{Type: sphinx.PayloadTLV, Payload: pay}}
	}
	pkt, err := sphinx.NewOnionPacket(&path, session, nil, sphinx.DeterministicPacketFiller)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := pkt.Encode(&buf); err != nil {
		return nil, err
	}
	return wireMsg(blindKey.PubKey().SerializeCompressed(), buf.Bytes()), nil
}

// craftTo builds an onion message along a given blinded path.
func craftTo(rng keySource, p *RPath, final []tlvRec) ([]byte, error) {
	var path sphinx.PaymentPath
	for i := range p.IDs {
		id, err := btcec.ParsePubKey(p.IDs[i])
		if err != nil {
			return nil, err
		}
		recs := []tlvRec{{4, p.Enc[i]}}
		if len(p.Enc[i]) == 0 {
			recs = nil
		}
		if i == len(p.IDs)-1 {
			recs = append(recs, final...)
		}
		pay := encTLV(recs)
		if len(pay) == 0 || i >= len(path) {
			return nil, fmt.Errorf("empty payload or too many hops")
		}
		path[i] = sphinx.OnionHop{NodePub: *id,
			HopPayload: sphinx.HopPayload{Type: sphinx.PayloadTLV, Payload: pay}}
	}
	pkt, err := sphinx.NewOnionPacket(&path, rng.next(), nil, sphinx.DeterministicPacketFiller)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := pkt.Encode(&buf); err != nil {
		return nil, err
	}
	return wireMsg(p.Blinding, buf.Bytes()), nil
}

type keySource interface{ next() *btcec.PrivateKey }

func (v Verdict) String() string {
	return [...]string{"drop", "deliver", "relay", "unspecified"}[v]
}
