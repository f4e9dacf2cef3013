package egts

import (
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
)

// plain makes generated values concrete (and different each time) instead of arbitrary: 0 is arbitrary.
var plain uint32

func next() uint32 {
	plain = plain*1664525 + 1013904223 | 1
	return plain ^ plain>>15
}

func gU32(name string) uint32 {
	if plain == 0 {
		return rt.U32(name)
	}
	return next()
}

func gU16(name string) uint16 {
	if plain == 0 {
		return rt.U16(name)
	}
	return uint16(next())
}

func gByte(name string) byte {
	if plain == 0 {
		return rt.Byte(name)
	}
	return byte(next())
}

func gSpeed() uint16 {
	v := gU16("spd")
	if plain != 0 {
		return v % 1639
	}
	rt.Assume(v <= 1638)
	return v
}

func gBytes(name string, n int) []byte {
	if plain == 0 {
		return rt.Bytes(name, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next()) | 1
	}
	return b
}

func gString(name string, n int) string {
	if plain == 0 {
		return rt.String(name, n)
	}
	return string(gBytes(name, n))
}

func gBits(name string, n int) string {
	if plain == 0 {
		return rt.Bits(name, n)
	}
	s := ""
	for i := 0; i < n; i++ {
		if next()>>7&1 == 1 {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

// long is a subrecord with a long text.
func long(n int) sub {
	if n%2 == 0 {
		return mkDispatcherN(n)
	}
	e := &eg.SrAuthInfo{UserName: noNul(gString("unm", n/2)), UserPassword: noNul(gString("upsw", n-n/2))}
	w := cm.New().Raw([]byte(e.UserName)).U8(0).Raw([]byte(e.UserPassword)).U8(0).Bytes()
	return sub{7, e, w, func() eg.BinaryData { return &eg.SrAuthInfo{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrAuthInfo)
		return rt.And(rt.EqStr(d.UserName, e.UserName), rt.EqStr(d.UserPassword, e.UserPassword), rt.EqStr(d.ServerSequence, ""))
	}, n + 2}
}

// VerifBulk: many records of many, or long, subrecords: laid out, read back and relayed without loss. All but the
// packet header, and one record and one subrecord (the last, one in between or the first), are concrete.
func VerifBulk() {
	n, m, text := rt.Param("nrec", 1), rt.Param("nsub", 1), rt.Param("text", 0)
	places := rt.Param("places", 1)
	atR := []int{n - 1, n / 2, 0}[rt.Choose("record", places)]
	atS := m - 1
	if m > 1 {
		atS = []int{m - 1, m / 2, 0}[rt.Choose("subrecord", places)]
	}
	route := rt.Param("route", 0) == 1
	p, h := symHeader(route)
	var rs []rec
	var set eg.ServiceDataSet
	var wire []byte
	seed := uint32(1)
	for i := 0; i < n; i++ {
		plain = seed
		if i == atR {
			seed = plain
			plain = 0
		}
		mask := i % 8
		r := mkRec(mask&1, mask>>1&1, mask>>2, nil, true)
		r.wire = r.wire[:r.hdr]
		r.v.RecordDataSet = nil
		plain = seed
		for j := 0; j < m; j++ {
			if i == atR && j == atS {
				seed = plain
				plain = 0
			}
			k := (i + j) % nSmall
			var s sub
			if text > 0 && (i*m+j)%2 == 0 {
				// keep the symbolic one short
				t := text + (i+j)%3
				if plain == 0 {
					t = 2
				}
				s = long(t)
			} else {
				s = mkSmall(k)
			}
			if plain == 0 {
				plain = seed
			}
			r.subs = append(r.subs, s)
			r.wire = append(r.wire, cm.Sub(s.typ, s.wire)...)
			r.v.RecordDataSet = append(r.v.RecordDataSet, eg.RecordData{SubrecordData: s.v})
		}
		seed = plain
		rl := len(r.wire) - r.hdr
		r.wire[0], r.wire[1] = byte(rl), byte(rl>>8)
		rs = append(rs, r)
		set = append(set, r.v)
		wire = append(wire, r.wire...)
	}
	plain = 0
	rt.Cover("bulk")
	h.PT, p.PacketType = 1, 1
	p.ServicesFrameData = &set
	in := cm.Frame(h, route, wire)
	b, err := p.Encode()
	rt.Assert(err == nil, "representable records are encoded")
	rt.Assert(len(b) == len(in) && rt.EqBytes(b, in), "encoded bytes are the wire form")
	q := eg.Package{}
	code, err := q.Decode(in)
	rt.Assert(err == nil && code == 0, "well formed records are accepted")
	if err != nil {
		return
	}
	got := *q.ServicesFrameData.(*eg.ServiceDataSet)
	rt.Assert(len(got) == len(rs), "no record is lost or invented")
	if len(got) != len(rs) {
		return
	}
	for i := range rs {
		sameRec(&got[i], rs[i])
	}
	out, err := q.Encode()
	rt.Assert(err == nil && len(out) == len(in) && rt.EqBytes(out, in), "a decoded packet is encoded to the same bytes")
}

// kept is what must stay as it is while other work is done.
type kept struct {
	s sub
	b []byte
	d eg.BinaryData
}

// VerifApart: encoding and decoding share nothing: what one operation returned is not changed by another, the bytes
// given to a decoder are neither changed nor kept, and encoding is repeatable.
func VerifApart() {
	var ks []kept
	for _, s := range []sub{mk(rt.Param("kind", 0)), mkSmall(rt.Choose("other", nSmall))} {
		x := kept{s: s}
		var err error
		x.b, err = s.v.Encode()
		rt.Assert(err == nil, "representable values are encoded")
		if err != nil {
			return
		}
		in := append([]byte(nil), s.wire...)
		x.d = s.fresh()
		if x.d.Decode(in) != nil {
			rt.Assert(false, "a complete subrecord is accepted")
			return
		}
		rt.Assert(rt.EqBytes(in, s.wire), "decoding does not change the bytes it is given")
		for i := range in {
			in[i] = 0xA5
		}
		ks = append(ks, x)
	}
	rt.Cover("apart")
	for _, x := range ks {
		rt.Assert(rt.EqBytes(x.b, x.s.wire), "encoded bytes stay as they are")
		rt.Assert(x.s.same(x.d), "a decoded value stays as it is")
		again, err := x.s.v.Encode()
		rt.Assert(err == nil && rt.EqBytes(again, x.s.wire), "encoding is repeatable")
		again = append(again, 0x5A, 0x5A, 0x5A, 0x5A, 0x5A, 0x5A, 0x5A, 0x5A)
		for i := range again {
			again[i] = 0x5A
		}
		again, err = x.s.v.Encode()
		rt.Assert(err == nil && rt.EqBytes(again, x.s.wire), "encoding does not depend on what became of earlier results")
		rt.Assert(rt.EqBytes(x.b, x.s.wire), "encoded bytes stay as they are")
	}
}

// VerifApartPackets: the same for whole packets.
func VerifApartPackets() {
	type one struct {
		in, out []byte
		q       *eg.Package
		p       eg.Package
		rs      []rec
	}
	var all []*one
	for i := 0; i < 2; i++ {
		rs, set, wire := recSet(true)
		route := i == rt.Param("route", 0)
		p, h := symHeader(route)
		h.PT, p.PacketType = 1, 1
		p.ServicesFrameData = &set
		if rt.Param("resp", 0) == i {
			h.PT, p.PacketType = 0, 0
			p.ServicesFrameData = &eg.PtResponse{ResponsePacketID: 5, SDR: &set}
			wire = cm.Cat([]byte{5, 0, 0}, wire)
		}
		o := &one{in: cm.Frame(h, route, wire), p: p, rs: rs, q: &eg.Package{}}
		var err error
		o.out, err = o.p.Encode()
		rt.Assert(err == nil, "representable records are encoded")
		in := append([]byte(nil), o.in...)
		_, err = o.q.Decode(in)
		rt.Assert(err == nil, "a well formed packet is accepted")
		if err != nil {
			return
		}
		rt.Assert(rt.EqBytes(in, o.in), "decoding does not change the bytes it is given")
		for i := range in {
			in[i] = 0xA5
		}
		all = append(all, o)
	}
	// a damaged packet in between
	bad := append([]byte(nil), all[0].in...)
	bad[len(bad)-1] ^= 1
	(&eg.Package{}).Decode(bad)
	(&eg.Package{}).Decode(bad[:len(bad)-3])
	rt.Cover("apart")
	for _, o := range all {
		rt.Assert(rt.EqBytes(o.out, o.in), "encoded bytes stay as they are")
		set, ok := o.q.ServicesFrameData.(*eg.ServiceDataSet)
		if !ok {
			set = o.q.ServicesFrameData.(*eg.PtResponse).SDR.(*eg.ServiceDataSet)
		}
		rt.Assert(len(*set) == len(o.rs), "a decoded packet stays as it is")
		if len(*set) == len(o.rs) {
			for i := range o.rs {
				sameRec(&(*set)[i], o.rs[i])
			}
		}
		again, err := o.p.Encode()
		rt.Assert(err == nil && rt.EqBytes(again, o.in), "encoding is repeatable")
		again, err = o.q.Encode()
		rt.Assert(err == nil && rt.EqBytes(again, o.in), "a decoded packet is encoded to the same bytes")
		rt.Assert(rt.EqBytes(o.out, o.in), "encoded bytes stay as they are")
	}
}
