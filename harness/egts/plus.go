package egts

import (
	"errors"
	"math"
	"strconv"

	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/golang/protobuf/proto"
)

// ---- the vendor subrecord 15, which is a protobuf message

// plusReal has the protobuf library (in symbolic runs its model, below) do its work.
var plusReal bool

func libUnmarshal(b []byte, m proto.Message) error { return proto.Unmarshal(b, m) }
func libMarshal(m proto.Message) ([]byte, error)   { return proto.Marshal(m) }
func libMerge(b []byte, m proto.Message) error     { return proto.UnmarshalMerge(b, m) }
func libSize(m proto.Message) int                  { return proto.Size(m) }

// types of fields
const (
	pUint32 = iota
	pFixed32
	pSfixed32
	pSint32
	pBool
	pBytes
	pFloat
)

type plusField struct {
	name string
	num  int
	typ  int
}

type plusMsg struct {
	num    int
	fields []plusField
	add    func(*eg.StorageRecord) interface{}
	list   func(*eg.StorageRecord) []interface{}
	get    func(interface{}) []interface{}
}

func varint(w *cm.B, v uint64) {
	for v >= 0x80 {
		w.U8(byte(v) | 0x80)
		v >>= 7
	}
	w.U8(byte(v))
}

func fieldByName(m interface{}, name string) interface{} {
	for i := 0; i < rt.NumField(m); i++ {
		f, n, _, _ := rt.Field(m, i)
		if n == name {
			return f
		}
	}
	return nil
}

var plusFloats = []float32{0, 1.5, -0.25, math.MaxFloat32, 1e-40, float32(math.Inf(-1))}

// fill gives the field a value (an arbitrary one or a fixed one), writes its reference bytes and returns how
// to recognise the value.
func (f plusField) fill(m interface{}, w *cm.B, any bool, seed uint32) func(interface{}) bool {
	p := fieldByName(m, f.name)
	u := seed
	if any && f.typ < pBool {
		u = rt.U32("plus")
	}
	switch f.typ {
	case pUint32, pFixed32:
		pp, ok := p.(**uint32)
		rt.Assert(ok, f.name+" is a number")
		if !ok {
			return nil
		}
		v := u
		*pp = &v
		if f.typ == pUint32 {
			varint(w, uint64(f.num<<3))
			varint(w, uint64(u))
		} else {
			varint(w, uint64(f.num<<3|5))
			w.U32(u)
		}
		return func(x interface{}) bool { g, ok := x.(uint32); return ok && g == u }
	case pSfixed32, pSint32:
		pp, ok := p.(**int32)
		rt.Assert(ok, f.name+" is a signed number")
		if !ok {
			return nil
		}
		v := int32(u)
		*pp = &v
		if f.typ == pSint32 {
			varint(w, uint64(f.num<<3))
			varint(w, uint64(u<<1^uint32(int32(u)>>31)))
		} else {
			varint(w, uint64(f.num<<3|5))
			w.U32(u)
		}
		return func(x interface{}) bool { g, ok := x.(int32); return ok && g == int32(u) }
	case pBool:
		pp, ok := p.(**bool)
		rt.Assert(ok, f.name+" is a flag")
		if !ok {
			return nil
		}
		v := seed&1 == 1
		if any {
			v = rt.Choose("flag", 2) == 1
		}
		k := v
		*pp = &k
		varint(w, uint64(f.num<<3))
		w.U8(byte(rt.B2U(v)))
		return func(x interface{}) bool { g, ok := x.(bool); return ok && g == v }
	case pBytes:
		pp, ok := p.(*[]byte)
		rt.Assert(ok, f.name+" is a buffer")
		if !ok {
			return nil
		}
		b := []byte{byte(seed), 0}
		if any {
			b = rt.Bytes("buf", rt.Choose("len", rt.Param("buf", 3)+1))
		}
		*pp = append([]byte{}, b...)
		varint(w, uint64(f.num<<3|2))
		varint(w, uint64(len(b)))
		w.Raw(b)
		return func(x interface{}) bool { g, ok := x.([]byte); return ok && rt.EqBytes(g, b) }
	}
	pp, ok := p.(**float32)
	rt.Assert(ok, f.name+" is a real number")
	if !ok {
		return nil
	}
	v := plusFloats[1]
	if any {
		v = plusFloats[rt.Choose("float", len(plusFloats))]
	}
	k := v
	*pp = &k
	varint(w, uint64(f.num<<3|5))
	w.U32(math.Float32bits(v))
	return func(x interface{}) bool { g, ok := x.(float32); return ok && g == v }
}

func (f plusField) zero(x interface{}) bool {
	switch v := x.(type) {
	case uint32:
		return v == 0 && f.typ <= pFixed32
	case int32:
		return v == 0 && (f.typ == pSfixed32 || f.typ == pSint32)
	case bool:
		return !v && f.typ == pBool
	case float32:
		return v == 0 && f.typ == pFloat
	case []byte:
		return len(v) == 0 && f.typ == pBytes
	}
	return false
}

// isSet: whether the field has a value.
func (f plusField) isSet(m interface{}) bool {
	switch p := fieldByName(m, f.name).(type) {
	case **uint32:
		return *p != nil
	case **int32:
		return *p != nil
	case **bool:
		return *p != nil
	case **float32:
		return *p != nil
	case *[]byte:
		return *p != nil
	}
	return false
}

// a message of the record, filled, with its reference
type plusFilled struct {
	k    int
	eq   []func(interface{}) bool
	wire []byte
}

// mkPlus fills a message of kind k: the field focus is arbitrary, the others are there or not.
func mkPlus(r *eg.StorageRecord, k, focus int, others bool, seed uint32) plusFilled {
	pm := plusMsgs[k]
	m := pm.add(r)
	x := plusFilled{k: k, eq: make([]func(interface{}) bool, len(pm.fields))}
	ws := make([][]byte, 32)
	for i, f := range pm.fields {
		if i != focus && !others {
			continue
		}
		w := cm.New()
		x.eq[i] = f.fill(m, w, i == focus, seed+uint32(i)*300)
		ws[f.num] = w.Bytes()
	}
	// fields are written in the order of their numbers
	x.wire = cm.Cat(ws...)
	return x
}

func (x *plusFilled) check(m interface{}) {
	pm := plusMsgs[x.k]
	g := pm.get(m)
	for i, f := range pm.fields {
		if x.eq[i] == nil {
			rt.Assert(!f.isSet(m), f.name+" is not there")
			rt.Assert(f.zero(g[i]), f.name+" is zero when not there")
			continue
		}
		rt.Assert(f.isSet(m), f.name+" is there")
		rt.Assert(x.eq[i](g[i]), f.name+" has its value")
	}
}

// VerifPlus: every field of every message of the vendor subrecord is carried.
func VerifPlus() {
	plusReal = true
	r := &eg.StorageRecord{}
	k := rt.Param("kind", 0)
	n := len(plusMsgs)
	outer := k >= n
	aspect := 0
	if outer {
		aspect = 1 + rt.Choose("aspect", 3)
	}
	num := func(name string, v uint32) *uint32 {
		if aspect == 1 {
			v = rt.U32(name)
		}
		return &v
	}
	rn, ts, sf := *num("rn", 60027), *num("ts", 0xA1B2C3D4), *num("sf", 0x01020304)
	a, b, c := rn, ts, sf
	r.RecordNumber, r.TimeStamp, r.StatusFlags = &a, &b, &c
	w := cm.New()
	varint(w, 1<<3)
	varint(w, uint64(rn))
	w.U8(2<<3 | 5).U32(ts)
	var reasons []eg.StorageRecordReason
	if aspect == 2 {
		for i := rt.Choose("reasons", 3); i > 0; i-- {
			q := plusReasons[0]
			if i == 1 {
				q = plusReasons[rt.Choose("reason", len(plusReasons))]
			}
			reasons = append(reasons, q.c)
			varint(w, 3<<3)
			varint(w, uint64(q.v))
		}
		r.RecordReason = append(r.RecordReason, reasons...)
	}
	w.U8(4<<3 | 5).U32(sf)
	// one message to look at and a second of the same or of another kind
	at := k
	var xs []plusFilled
	if outer {
		at = 0
		if aspect == 3 {
			at = rt.Choose("at", n)
		}
		xs = append(xs, mkPlus(r, at, -1, false, 1))
	} else {
		others := rt.Choose("others", 2) == 1
		xs = append(xs, mkPlus(r, at, rt.Choose("focus", len(plusMsgs[k].fields)+1), others, 5))
	}
	second := at
	if rt.Choose("second", 2) == 1 {
		second = (at + 1) % n
	}
	xs = append(xs, mkPlus(r, second, -1, true, 70))
	ws := make([][]byte, 32)
	for _, x := range xs {
		v := cm.New()
		varint(v, uint64(plusMsgs[x.k].num<<3|2))
		varint(v, uint64(len(x.wire)))
		ws[plusMsgs[x.k].num] = append(ws[plusMsgs[x.k].num], v.Raw(x.wire).Bytes()...)
	}
	wire := append(w.Bytes(), cm.Cat(ws...)...)
	out, err := r.Encode()
	rt.Assert(err == nil, "a vendor record is encoded")
	if err != nil {
		return
	}
	rt.Assert(rt.EqBytes(out, wire), "a vendor record has the documented layout")
	rt.Assert(int(r.Length()) == len(wire), "the length of a vendor record")
	sub := cm.Sub(15, wire)
	set := eg.RecordDataSet{eg.RecordData{SubrecordType: 15, SubrecordLength: uint16(len(wire)), SubrecordData: r}}
	out, err = set.Encode()
	rt.Assert(err == nil && rt.EqBytes(out, sub), "a vendor record is a subrecord of type 15")

	var got eg.RecordDataSet
	err = got.Decode(append([]byte(nil), sub...))
	rt.Assert(err == nil && len(got) == 1, "a vendor record is decoded")
	if err != nil || len(got) != 1 {
		return
	}
	d, ok := got[0].SubrecordData.(*eg.StorageRecord)
	rt.Assert(ok, "a vendor record is decoded as such")
	if !ok {
		return
	}
	rt.Cover("carried")
	rt.Assert(d.RecordNumber != nil && d.TimeStamp != nil && d.StatusFlags != nil, "required fields are there")
	rt.Assert(rt.And(d.GetRecordNumber() == rn, d.GetTimeStamp() == ts, d.GetStatusFlags() == sf), "required fields have their values")
	rt.Assert(len(d.GetRecordReason()) == len(reasons), "reasons are there")
	if len(d.GetRecordReason()) == len(reasons) {
		for i, q := range reasons {
			rt.Assert(d.GetRecordReason()[i] == q, "a reason has its value")
		}
	}
	for i, pm := range plusMsgs {
		l := pm.list(d)
		want := 0
		for _, x := range xs {
			if x.k != i {
				continue
			}
			if want < len(l) {
				x.check(l[want])
			}
			want++
		}
		rt.Assert(len(l) == want, "no message is lost or invented")
	}
	rt.Assert(len(d.XXX_unrecognized) == 0, "everything is recognised")
	// a value that is used again holds the last record only
	used := &eg.StorageRecord{}
	mkPlus(used, at, -1, true, 9)
	used.XXX_unrecognized = []byte{1}
	rt.Assert(used.Decode(wire) == nil, "a vendor record is decoded into a used value")
	rt.Assert(len(plusMsgs[at].list(used)) == len(plusMsgs[at].list(d)) && len(used.XXX_unrecognized) == 0, "a used value keeps nothing of what it held")
}

// VerifPlusRequired: a record without a required field is neither encoded nor accepted.
func VerifPlusRequired() {
	plusReal = true
	v := [3]uint32{rt.U32("rn"), rt.U32("ts"), rt.U32("sf")}
	miss := rt.Choose("missing", 7)
	r := &eg.StorageRecord{}
	w := cm.New()
	if miss&1 != 0 {
		r.RecordNumber = &v[0]
		varint(w, 1<<3)
		varint(w, uint64(v[0]))
	}
	if miss&2 != 0 {
		r.TimeStamp = &v[1]
		w.U8(2<<3 | 5).U32(v[1])
	}
	if miss&4 != 0 {
		r.StatusFlags = &v[2]
		w.U8(4<<3 | 5).U32(v[2])
	}
	m := mkPlus(r, rt.Choose("kind", len(plusMsgs)), -1, true, 3)
	varint(w, uint64(plusMsgs[m.k].num<<3|2))
	varint(w, uint64(len(m.wire)))
	wire := w.Raw(m.wire).Bytes()
	rt.Cover("missing")
	_, err := r.Encode()
	rt.Assert(err != nil, "a record without a required field is not encoded")
	d := &eg.StorageRecord{}
	rt.Assert(d.Decode(wire) != nil, "a record without a required field is not accepted")
}

// VerifPlusCut: a vendor record that breaks off inside a field is not accepted; nor is one whose message is longer
// than what is there.
func VerifPlusCut() {
	plusReal = true
	w := cm.New().U8(1 << 3).U8(1).U8(2<<3 | 5).U32(rt.U32("ts")).U8(4<<3 | 5).U32(rt.U32("sf"))
	n := len(w.Bytes())
	k := rt.Choose("kind", len(plusMsgs))
	m := mkPlus(&eg.StorageRecord{}, k, -1, true, 200)
	varint(w, uint64(plusMsgs[k].num<<3|2))
	varint(w, uint64(len(m.wire)))
	wire := w.Raw(m.wire).Bytes()
	cut := n + 1 + rt.Choose("cut", len(wire)-n-1)
	d := &eg.StorageRecord{}
	rt.Cover("cut")
	rt.Assert(d.Decode(wire[:cut]) != nil, "a record cut inside a message is not accepted")
	var set eg.RecordDataSet
	rt.Assert(set.Decode(cm.Sub(15, wire[:cut])) != nil, "a subrecord with a record cut inside a message is not accepted")
}

// VerifPlusNames: reasons have the documented names, and no others.
func VerifPlusNames() {
	v := int32(rt.U32("reason"))
	s := eg.StorageRecordReason(v).String()
	rt.Cover("named")
	for _, q := range plusReasons {
		rt.Assert(int32(q.c) == q.v, "the reason's number")
		if v == q.v {
			rt.Assert(s == q.name, "the reason's name")
			p := eg.StorageRecordReason(v).Enum()
			rt.Assert(p != nil && *p == q.c, "a pointer to the reason")
			return
		}
	}
	if rt.Known(s) {
		rt.Assert(s == strconv.Itoa(int(v)), "an unknown reason is a number")
	}
}

// ---- a model of the protobuf library (symbolic runs only): it follows the message's own descriptor and struct tags

type plusDesc struct {
	num, label, typ int
	// field is the index of the struct's field
	field int
}

// the descriptors of the file's messages, packed and unpacked
var plusFile [][]byte
var plusParsed map[int][]plusDesc

type descriptor interface{ Descriptor() ([]byte, []int) }

func pbVarint(b []byte) (uint64, []byte, bool) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7F) << uint(7*i)
		if b[i] < 0x80 {
			return v, b[i+1:], true
		}
	}
	return 0, nil, false
}

// pbNext splits off a field: number, wire type, value or content.
func pbNext(b []byte) (num, wt int, v uint64, c, rest []byte, ok bool) {
	t, rest, ok := pbVarint(b)
	if !ok || t>>3 == 0 || t>>3 > 1<<29-1 {
		return 0, 0, 0, nil, nil, false
	}
	num, wt = int(t>>3), int(t&7)
	switch wt {
	case 0:
		v, rest, ok = pbVarint(rest)
		return num, wt, v, nil, rest, ok
	case 1, 5:
		n := 8
		if wt == 5 {
			n = 4
		}
		if len(rest) < n {
			return 0, 0, 0, nil, nil, false
		}
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(rest[i])
		}
		return num, wt, v, nil, rest[n:], true
	case 2:
		v, rest, ok = pbVarint(rest)
		if !ok || v > uint64(len(rest)) {
			return 0, 0, 0, nil, nil, false
		}
		return num, wt, 0, rest[:v], rest[v:], true
	}
	return 0, 0, 0, nil, nil, false
}

func descOf(m interface{}) []plusDesc {
	b, idx := m.(descriptor).Descriptor()
	bad := func() { panic("proto: bad descriptor") }
	if plusFile == nil {
		f := rt.Gunzip(b)
		for len(f) > 0 {
			num, _, _, c, rest, ok := pbNext(f)
			if !ok {
				bad()
			}
			f = rest
			if num == 4 {
				plusFile = append(plusFile, c)
			}
		}
		plusParsed = map[int][]plusDesc{}
	}
	if ds, ok := plusParsed[idx[0]]; ok {
		return ds
	}
	var ds []plusDesc
	for c := plusFile[idx[0]]; len(c) > 0; {
		num, _, _, fc, rest, ok := pbNext(c)
		if !ok {
			bad()
		}
		c = rest
		if num != 2 {
			continue
		}
		var d plusDesc
		for len(fc) > 0 {
			num, _, v, _, rest, ok := pbNext(fc)
			if !ok {
				bad()
			}
			fc = rest
			switch num {
			case 3:
				d.num = int(v)
			case 4:
				d.label = int(v)
			case 5:
				d.typ = int(v)
			}
		}
		d.field = fieldOf(m, d.num)
		// in the order of their numbers
		i := len(ds)
		ds = append(ds, d)
		for i > 0 && ds[i-1].num > d.num {
			ds[i] = ds[i-1]
			i--
		}
		ds[i] = d
	}
	plusParsed[idx[0]] = ds
	return ds
}

// tagNum is the field number of a struct tag, 0 without one.
func tagNum(tag string) int {
	const key = `protobuf:"`
	for i := 0; i+len(key) <= len(tag); i++ {
		if tag[i:i+len(key)] != key {
			continue
		}
		part, n := 0, 0
		for _, c := range []byte(tag[i+len(key):]) {
			switch {
			case c == '"':
				return n
			case c == ',':
				part++
				if part == 2 {
					return n
				}
			case part == 1 && c >= '0' && c <= '9':
				n = n*10 + int(c-'0')
			}
		}
	}
	return 0
}

func fieldOf(m interface{}, num int) int {
	for i := 0; i < rt.NumField(m); i++ {
		_, _, tag, _ := rt.Field(m, i)
		if tagNum(tag) == num {
			return i
		}
	}
	panic("proto: invalid message: no field " + strconv.Itoa(num))
}

var errRequired = errors.New("proto: required field not set")

func modelEncode(m interface{}) ([]byte, error) {
	w := cm.New()
	for _, d := range descOf(m) {
		f, _, _, _ := rt.Field(m, d.field)
		tag := func(wt int) { varint(w, uint64(d.num<<3|wt)) }
		switch p := f.(type) {
		case **uint32:
			if *p == nil {
				if d.label == 2 {
					return nil, errRequired
				}
				continue
			}
			switch d.typ {
			case 13:
				tag(0)
				varint(w, uint64(**p))
			case 7:
				tag(5)
				w.U32(**p)
			default:
				panic("proto: mismatching field")
			}
		case **int32:
			if *p == nil {
				if d.label == 2 {
					return nil, errRequired
				}
				continue
			}
			switch d.typ {
			case 5:
				tag(0)
				varint(w, uint64(int64(**p)))
			case 17:
				tag(0)
				varint(w, uint64(uint32(**p)<<1^uint32(**p>>31)))
			case 15:
				tag(5)
				w.U32(uint32(**p))
			default:
				panic("proto: mismatching field")
			}
		case **bool:
			if *p == nil {
				continue
			}
			if d.typ != 8 {
				panic("proto: mismatching field")
			}
			tag(0)
			w.U8(byte(rt.B2U(**p)))
		case **float32:
			if *p == nil {
				continue
			}
			if d.typ != 2 {
				panic("proto: mismatching field")
			}
			tag(5)
			w.U32(math.Float32bits(**p))
		case *[]byte:
			if *p == nil {
				continue
			}
			tag(2)
			varint(w, uint64(len(*p)))
			w.Raw(*p)
		case *[]eg.StorageRecordReason:
			for _, v := range *p {
				tag(0)
				varint(w, uint64(int64(v)))
			}
		default:
			l := rt.Deref(f)
			for i := 0; i < rt.Len(l); i++ {
				c, err := modelEncode(rt.Elem(l, i))
				if err != nil {
					return nil, err
				}
				tag(2)
				varint(w, uint64(len(c)))
				w.Raw(c)
			}
		}
	}
	if u, ok := fieldByName(m, "XXX_unrecognized").(*[]byte); ok {
		w.Raw(*u)
	}
	return w.Bytes(), nil
}

func modelDecode(b []byte, m interface{}) error {
	bad := errors.New("proto: cannot parse")
	ds := descOf(m)
	seen := 0
	for len(b) > 0 {
		num, wt, v, c, rest, ok := pbNext(b)
		if !ok {
			return bad
		}
		whole := b[:len(b)-len(rest)]
		b = rest
		known := false
		for _, d := range ds {
			if d.num != num {
				continue
			}
			f, _, _, _ := rt.Field(m, d.field)
			want := 0
			switch d.typ {
			case 7, 15, 2:
				want = 5
			case 11, 12:
				want = 2
			}
			if l, ok := f.(*[]eg.StorageRecordReason); ok && wt == 2 {
				for len(c) > 0 {
					if v, c, ok = pbVarint(c); !ok {
						return bad
					}
					*l = append(*l, eg.StorageRecordReason(v))
				}
				known = true
				continue
			}
			if wt != want {
				continue
			}
			known = true
			seen |= 1 << uint(num)
			switch p := f.(type) {
			case **uint32:
				x := uint32(v)
				*p = &x
			case **int32:
				x := int32(v)
				if d.typ == 17 {
					x = int32(uint32(v)>>1) ^ -int32(v&1)
				}
				*p = &x
			case **bool:
				x := v != 0
				*p = &x
			case **float32:
				x := math.Float32frombits(uint32(v))
				*p = &x
			case *[]byte:
				*p = append([]byte{}, c...)
			case *[]eg.StorageRecordReason:
				*p = append(*p, eg.StorageRecordReason(v))
			default:
				if err := modelDecode(c, rt.AppendNew(f)); err != nil {
					return err
				}
			}
		}
		if !known {
			if u, ok := fieldByName(m, "XXX_unrecognized").(*[]byte); ok {
				*u = append(*u, whole...)
			}
		}
	}
	for _, d := range ds {
		if d.label == 2 && seen&(1<<uint(d.num)) == 0 {
			return errRequired
		}
	}
	return nil
}

//verif:model github.com/ElectroUnion/egts-gate/internal/verifh/egts.libUnmarshal
func VerifLibUnmarshal(b []byte, m proto.Message) error {
	m.Reset()
	return modelDecode(b, m)
}

//verif:model github.com/ElectroUnion/egts-gate/internal/verifh/egts.libMerge
func VerifLibMerge(b []byte, m proto.Message) error { return modelDecode(b, m) }

//verif:model github.com/ElectroUnion/egts-gate/internal/verifh/egts.libMarshal
func VerifLibMarshal(m proto.Message) ([]byte, error) { return modelEncode(m) }

//verif:model github.com/ElectroUnion/egts-gate/internal/verifh/egts.libSize
func VerifLibSize(m proto.Message) int {
	b, _ := modelEncode(m)
	return len(b)
}
