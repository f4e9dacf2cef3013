// Package egts holds the harnesses for the protocol library.
package egts

import (
	"errors"

	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
)

// rawData is a body of arbitrary bytes.
type rawData struct{ b []byte }

func (r *rawData) Decode(c []byte) error {
	r.b = append([]byte(nil), c...)
	return nil
}
func (r *rawData) Encode() ([]byte, error) { return r.b, nil }
func (r *rawData) Length() uint16          { return uint16(len(r.b)) }

// badData cannot be encoded.
type badData struct{}

func (badData) Decode(c []byte) error   { return errors.New("bad") }
func (badData) Encode() ([]byte, error) { return nil, errors.New("bad") }
func (badData) Length() uint16          { return 0 }

// bodyBytes is a body of n bytes: all arbitrary, or (sym=k) k at either end and in the middle arbitrary
// and the others fixed; sym=-1 fixes all.
func bodyBytes(n int) []byte {
	k := rt.Param("sym", 0)
	if k == 0 || n <= 3*k {
		return rt.Bytes("body", n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + i>>8)
	}
	if k < 0 {
		return b
	}
	copy(b, rt.Bytes("body head", k))
	copy(b[n/2:], rt.Bytes("body mid", k))
	copy(b[n-k:], rt.Bytes("body tail", k))
	return b
}

func symHeader(route bool) (eg.Package, cm.Header) {
	p := eg.Package{
		ProtocolVersion:  rt.Byte("prv"),
		SecurityKeyID:    rt.Byte("skid"),
		Prefix:           rt.Bits("prf", 2),
		Route:            "0",
		EncryptionAlg:    rt.Bits("ena", 2),
		Compression:      rt.Bits("cmp", 1),
		Priority:         rt.Bits("pr", 2),
		HeaderEncoding:   rt.Byte("he"),
		PacketIdentifier: rt.U16("pid"),
		PacketType:       rt.Byte("pt"),
	}
	if route {
		p.Route = "1"
		p.PeerAddress = rt.U16("pra")
		p.RecipientAddress = rt.U16("rca")
		p.TimeToLive = rt.Byte("ttl")
	}
	h := cm.Header{PRV: p.ProtocolVersion, SKID: p.SecurityKeyID, HE: p.HeaderEncoding, PID: p.PacketIdentifier, PT: p.PacketType,
		PRA: p.PeerAddress, RCA: p.RecipientAddress, TTL: p.TimeToLive}
	h.Flags = cm.BitStr(p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority)
	return p, h
}

// VerifFrameEncode: the packet produced for any header field values and any body is the wire form,
// checksums included.
func VerifFrameEncode() {
	n := rt.Param("n", 4)
	route := rt.Param("route", 0) == 1
	p, h := symHeader(route)
	body := bodyBytes(n)
	if n > 0 || rt.Choose("nilbody", 2) == 0 {
		p.ServicesFrameData = &rawData{append([]byte(nil), body...)}
	}
	if rt.Choose("hl", 2) == 1 {
		p.HeaderLength = 11
		if route {
			p.HeaderLength = 16
		}
	}
	p.FrameDataLength = rt.U16("stale fdl")
	p.HeaderCheckSum = rt.Byte("stale hcs")
	b, err := p.Encode()
	rt.Assert(err == nil, "a representable packet is encoded")
	want := cm.Frame(h, route, body)
	rt.Cover("encoded")
	cm.EmitBytes("wire", b)
	rt.Assert(len(b) == len(want), "packet has the length its header declares")
	if len(b) != len(want) {
		return
	}
	hl := 11
	if route {
		hl = 16
	}
	rt.Assert(cm.Eq(b[:hl-1], want[:hl-1]), "header fields are at their place")
	rt.Assert(b[hl-1] == want[hl-1], "header checksum")
	if n > 0 {
		rt.Assert(cm.Eq(b[hl:hl+n], body), "body follows the header")
		rt.Assert(cm.Eq(b[hl+n:], want[hl+n:]), "body checksum")
	}
}

// VerifFrameDecodeHeader: a well formed packet of any header field values is decoded to those values.
func VerifFrameDecodeHeader() {
	route := rt.Param("route", 0) == 1
	_, h := symHeader(route)
	var body []byte
	// a response body or an application body of one empty record
	if rt.Choose("kind", 2) == 0 {
		h.PT = 0
		body = cm.New().U16(rt.U16("rpid")).U8(rt.Byte("prcode")).Bytes()
	} else {
		h.PT = 1
		if rt.Choose("empty", 2) == 0 {
			body = cm.Record(rt.U16("rn"), 0, nil, nil, nil, rt.Byte("sst"), rt.Byte("rst"))
		}
	}
	b := cm.Frame(h, route, body)
	p := eg.Package{}
	code, err := p.Decode(b)
	rt.Assert(err == nil, "a well formed packet is accepted")
	rt.Assert(code == 0, "a well formed packet has result code 0")
	if err != nil {
		return
	}
	rt.Cover("decoded")
	rt.Emit("hdr", uint64(p.ProtocolVersion), uint64(p.SecurityKeyID), uint64(p.HeaderLength), uint64(p.HeaderEncoding), uint64(p.FrameDataLength), uint64(p.PacketIdentifier), uint64(p.PacketType), uint64(p.PeerAddress), uint64(p.RecipientAddress), uint64(p.TimeToLive))
	rt.Assert(p.ProtocolVersion == h.PRV, "protocol version")
	rt.Assert(p.SecurityKeyID == h.SKID, "security key id")
	rt.Assert(p.HeaderEncoding == h.HE, "header encoding")
	rt.Assert(p.PacketIdentifier == h.PID, "packet id")
	rt.Assert(p.PacketType == h.PT, "packet type")
	rt.Assert(int(p.FrameDataLength) == len(body), "frame data length")
	rt.Assert(len(p.Prefix) == 2 && len(p.Route) == 1 && len(p.EncryptionAlg) == 2 && len(p.Compression) == 1 && len(p.Priority) == 2, "flag widths")
	rt.Assert(cm.BitStr(p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority) == h.Flags, "flags")
	if route {
		rt.Assert(p.Route == "1", "route flag")
		rt.Assert(p.HeaderLength == 16, "header length")
		rt.Assert(rt.And(p.PeerAddress == h.PRA, p.RecipientAddress == h.RCA, p.TimeToLive == h.TTL), "routing fields")
	} else {
		rt.Assert(p.Route == "0", "route flag")
		rt.Assert(p.HeaderLength == 11, "header length")
	}
	rt.Assert(p.HeaderCheckSum == b[int(p.HeaderLength)-1], "header checksum field")
	if len(body) > 0 {
		rt.Assert(p.ServicesFrameDataCheckSum == uint16(b[len(b)-2])|uint16(b[len(b)-1])<<8, "body checksum field")
	}
}

// VerifFrameRoundTrip: encoding then decoding gives back every header field.
func VerifFrameRoundTrip() {
	route := rt.Param("route", 0) == 1
	p, h := symHeader(route)
	p.PacketType = 0
	rpid, res := rt.U16("rpid"), rt.Byte("res")
	p.ServicesFrameData = &eg.PtResponse{ResponsePacketID: rpid, ProcessingResult: res}
	b, err := p.Encode()
	rt.Assert(err == nil, "a representable packet is encoded")
	if err != nil {
		return
	}
	q := eg.Package{}
	code, err := q.Decode(b)
	rt.Assert(err == nil && code == 0, "an encoded packet is decoded")
	if err != nil {
		return
	}
	rt.Cover("round trip")
	rt.Assert(rt.And(q.ProtocolVersion == p.ProtocolVersion, q.SecurityKeyID == p.SecurityKeyID, q.HeaderEncoding == p.HeaderEncoding,
		q.PacketIdentifier == p.PacketIdentifier, q.PacketType == p.PacketType), "fixed header fields survive")
	rt.Assert(cm.BitStr(q.Prefix, q.Route, q.EncryptionAlg, q.Compression, q.Priority) == h.Flags, "flags survive")
	rt.Assert(rt.And(q.PeerAddress == h.PRA, q.RecipientAddress == h.RCA, q.TimeToLive == h.TTL), "routing fields survive")
	r, ok := q.ServicesFrameData.(*eg.PtResponse)
	rt.Assert(ok, "body kind survives")
	if ok {
		rt.Assert(rt.And(r.ResponsePacketID == rpid, r.ProcessingResult == res), "response fields survive")
		rt.Assert(r.SDR == nil, "no records appear")
		rt.Emit("resp", uint64(r.ResponsePacketID), uint64(r.ProcessingResult))
	}
}

// VerifChecksumGate: whatever the bytes, a wrong header checksum is answered 137 and a wrong body
// checksum 138; nothing is accepted without both being right.
func VerifChecksumGate() {
	n := rt.Param("n", 6)
	route := rt.Param("route", 0) == 1
	hl := 11
	fl := byte(0)
	if route {
		hl, fl = 16, 0x20
	}
	b := append(rt.Bytes("b", hl), bodyBytes(n)...)
	if n > 0 {
		b = append(b, rt.Byte("c0"), rt.Byte("c1"))
	}
	b[2] = b[2]&^0x20 | fl
	b[3] = byte(hl)
	b[5], b[6] = byte(n), byte(n>>8)
	h8 := cm.CRC8(b[:hl-1]) == b[hl-1]
	b16 := true
	if n > 0 {
		c := cm.CRC16(b[hl : hl+n])
		b16 = rt.And(byte(c) == b[hl+n], byte(c>>8) == b[hl+n+1])
		// the body of an intact packet is another property's business
		if n > 3 {
			rt.Assume(rt.Or(!rt.And(h8, b16), b[9] > 1))
		}
	}
	p := eg.Package{}
	code, err := p.Decode(b)
	rt.Emit("code", uint64(code))
	rt.Assert((err == nil) == (code == 0), "an error is reported exactly when the code is not 0")
	rt.Assert(rt.Implies(!h8, code == 137), "a wrong header checksum gives code 137")
	rt.Assert(rt.Implies(rt.And(h8, !b16), code == 138), "a wrong body checksum gives code 138")
	rt.Assert(rt.Implies(rt.And(h8, b16), rt.And(code != 137, code != 138)), "right checksums are not called wrong")
	switch code {
	case 137:
		rt.Cover("header checksum wrong")
	case 138:
		rt.Cover("body checksum wrong")
	default:
		rt.Cover("checksums right")
	}
}

// VerifCorruption: damaging one byte of a valid packet in any way is detected.
func VerifCorruption() {
	n := rt.Param("n", 4)
	route := rt.Param("route", 0) == 1
	_, h := symHeader(route)
	h.PT = rt.Byte("pt2") & 1
	b := cm.Frame(h, route, rt.Bytes("body", n))
	pos := rt.Choose("pos", len(b))
	m := rt.Byte("mask")
	rt.Assume(m != 0)
	b[pos] = b[pos] ^ m
	p := eg.Package{}
	code, err := p.Decode(b)
	rt.Cover("damaged")
	rt.Emit("code", uint64(code))
	rt.Assert(err != nil, "a packet with one damaged byte is rejected")
	rt.Assert(code != 0, "a packet with one damaged byte has a non-zero code")
}

// VerifDecodeAny: no byte string makes the packet decoder panic.
func VerifDecodeAny() {
	n := rt.Param("n", 11)
	b := rt.Bytes("b", n)
	p := eg.Package{}
	code, err := p.Decode(b)
	rt.Assert((err == nil) == (code == 0), "an error is reported exactly when the code is not 0")
	rt.Emit("code", uint64(code))
	if err == nil {
		rt.Cover("accepted")
	} else {
		rt.Cover("rejected")
	}
}

// VerifDecodeHL: no header length or frame length lies the decoder into a panic or an acceptance.
func VerifDecodeHL() {
	n := rt.Param("n", 16)
	b := rt.Bytes("b", n)
	hl := 11
	route := b[2]&0x20 != 0
	if route {
		hl = 16
	}
	p := eg.Package{}
	rt.Assume(b[9] > 1)
	code, err := p.Decode(b)
	rt.Assert(err != nil, "an unknown packet type is rejected")
	rt.Assert(rt.Implies(n >= hl && b[3] != byte(hl), code == 131), "a wrong header length gives code 131")
	rt.Emit("code", uint64(code))
	rt.Cover("rejected")
	if code == 133 {
		rt.Cover("unknown type")
	}
}
