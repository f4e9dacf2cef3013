// Package common holds the reference encoders the harnesses compare against. They are written from
// the protocol documents (GOST R 54619-2011, order 285), not from the code under test.
package common

import (
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

// CRC8 is the header checksum: polynomial 0x31, start value 0xFF, most significant bit first.
func CRC8(d []byte) byte {
	r := byte(0xFF)
	for i := 0; i < len(d); i++ {
		r = r ^ d[i]
		for k := 0; k < 8; k++ {
			if r&0x80 != 0 {
				r = (r << 1) ^ 0x31
			} else {
				r = r << 1
			}
		}
	}
	return r
}

// CRC16 is the body checksum: CCITT polynomial 0x1021, start value 0xFFFF.
func CRC16(d []byte) uint16 {
	r := uint16(0xFFFF)
	for i := 0; i < len(d); i++ {
		r = r ^ uint16(d[i])<<8
		for k := 0; k < 8; k++ {
			if r&0x8000 != 0 {
				r = (r << 1) ^ 0x1021
			} else {
				r = r << 1
			}
		}
	}
	return r
}

// B builds byte strings.
type B struct{ b []byte }

func New() *B { return &B{} }

func (w *B) U8(v byte) *B { w.b = append(w.b, v); return w }
func (w *B) U16(v uint16) *B {
	w.b = append(w.b, byte(v), byte(v>>8))
	return w
}
func (w *B) U24(v uint32) *B {
	w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16))
	return w
}
func (w *B) U32(v uint32) *B {
	w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	return w
}
func (w *B) Raw(d []byte) *B { w.b = append(w.b, d...); return w }
func (w *B) Bytes() []byte   { return w.b }

// BitStr turns flag strings, most significant first, into a byte.
func BitStr(parts ...string) byte {
	v := byte(0)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			v = v<<1 | (p[i] - '0')
		}
	}
	return v
}

// Header describes a transport packet on the wire.
type Header struct {
	PRV, SKID, Flags, HE byte
	PID                  uint16
	PT                   byte
	PRA, RCA             uint16
	TTL                  byte
}

// Frame is the wire form of a packet; the routing part is present when bit 5 of Flags is set, which
// route says (it must be concrete).
func Frame(h Header, route bool, body []byte) []byte {
	hl := byte(11)
	if route {
		hl = 16
	}
	w := New().U8(h.PRV).U8(h.SKID).U8(h.Flags).U8(hl).U8(h.HE).U16(uint16(len(body))).U16(h.PID).U8(h.PT)
	if route {
		w.U16(h.PRA).U16(h.RCA).U8(h.TTL)
	}
	w.U8(CRC8(w.b))
	if len(body) > 0 {
		w.Raw(body)
		w.U16(CRC16(body))
	}
	return w.b
}

// Packet is Frame with an ordinary header.
func Packet(pid uint16, pt byte, body []byte) []byte {
	return Frame(Header{PRV: 1, PID: pid, PT: pt}, false, body)
}

// Sub is one subrecord.
func Sub(typ byte, data []byte) []byte {
	return New().U8(typ).U16(uint16(len(data))).Raw(data).Bytes()
}

// Record is one service data record with the given optional fields.
func Record(rn uint16, flags byte, oid, evid, tm []uint32, sst, rst byte, subs ...[]byte) []byte {
	n := 0
	for _, s := range subs {
		n += len(s)
	}
	w := New().U16(uint16(n)).U16(rn).U8(flags)
	if len(oid) > 0 {
		w.U32(oid[0])
	}
	if len(evid) > 0 {
		w.U32(evid[0])
	}
	if len(tm) > 0 {
		w.U32(tm[0])
	}
	w.U8(sst).U8(rst)
	for _, s := range subs {
		w.Raw(s)
	}
	return w.Bytes()
}

// Cat joins byte strings.
func Cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

// EmitBytes makes a byte string observable.
func EmitBytes(tag string, b []byte) {
	v := make([]uint64, 0, len(b))
	for _, x := range b {
		v = append(v, uint64(x))
	}
	rt.Emit(tag, v...)
}

// Eq compares byte strings whose lengths are concrete, without branching on content.
func Eq(a, b []byte) bool { return rt.EqBytes(a, b) }
