package egts

import (
	"errors"

	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
	"github.com/golang/protobuf/proto"
)

// small subrecords: those with few paths
func mkSmall(k int) sub {
	switch k {
	case 0:
		return mkResponse()
	case 1:
		return mkAbsAn()
	case 2:
		return mkAbsCntr()
	case 3:
		return mkLiquid()
	case 4:
		return mkState()
	case 5:
		return mkResult()
	case 6:
		return mkDispatcherN(1)
	case 7:
		e := &eg.SrTermIdentity{TerminalIdentifier: gU32("tid"), MNE: "0", BSE: "0", NIDE: "0", SSRA: gBits("ssra", 1), LNGCE: "0", IMSIE: "0", IMEIE: "0", HDIDE: "0"}
		w := cm.New().U32(e.TerminalIdentifier).U8(cm.BitStr(e.MNE, e.BSE, e.NIDE, e.SSRA, e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE)).Bytes()
		return sub{1, e, w, func() eg.BinaryData { return &eg.SrTermIdentity{} }, func(x eg.BinaryData) bool {
			d, ok := x.(*eg.SrTermIdentity)
			return ok && rt.And(d.TerminalIdentifier == e.TerminalIdentifier, d.SSRA == e.SSRA)
		}, 5}
	case 8:
		e := &eg.SrAuthInfo{UserName: noNul(gString("unm", 1)), UserPassword: noNul(gString("upsw", 2))}
		w := cm.New().Raw([]byte(e.UserName)).U8(0).Raw([]byte(e.UserPassword)).U8(0).Bytes()
		return sub{7, e, w, func() eg.BinaryData { return &eg.SrAuthInfo{} }, func(x eg.BinaryData) bool {
			d := x.(*eg.SrAuthInfo)
			return rt.And(rt.EqStr(d.UserName, e.UserName), rt.EqStr(d.UserPassword, e.UserPassword), rt.EqStr(d.ServerSequence, ""))
		}, 5}
	case 9:
		e := &eg.SrExtPosData{NavigationSystemFieldExists: "1", SatellitesFieldExists: "1", PdopFieldExists: "0", HdopFieldExists: "0", VdopFieldExists: "0", Satellites: gByte("sat"), NavigationSystem: gU16("ns")}
		w := cm.New().U8(0x18).U8(e.Satellites).U16(e.NavigationSystem).Bytes()
		return sub{17, e, w, func() eg.BinaryData { return &eg.SrExtPosData{} }, func(x eg.BinaryData) bool {
			d := x.(*eg.SrExtPosData)
			return rt.And(d.Satellites == e.Satellites, d.NavigationSystem == e.NavigationSystem, d.NavigationSystemFieldExists == "1", d.SatellitesFieldExists == "1", d.VdopFieldExists == "0")
		}, 4}
	case 10:
		e := &eg.SrCountersData{CounterFieldExists1: "0", CounterFieldExists2: "1", CounterFieldExists3: "0", CounterFieldExists4: "0",
			CounterFieldExists5: "0", CounterFieldExists6: "0", CounterFieldExists7: "1", CounterFieldExists8: "0", Counter2: u24("c2"), Counter7: u24("c7")}
		w := cm.New().U8(0x42).U24(e.Counter2).U24(e.Counter7).Bytes()
		return sub{19, e, w, func() eg.BinaryData { return &eg.SrCountersData{} }, func(x eg.BinaryData) bool {
			d := x.(*eg.SrCountersData)
			return rt.And(d.Counter2 == e.Counter2, d.Counter7 == e.Counter7)
		}, 7}
	case 11:
		s := mkPosFixed()
		return s
	}
	e := &eg.SrAdSensorsData{
		DigitalInputsOctetExists1: "1", DigitalInputsOctetExists2: "0", DigitalInputsOctetExists3: "0", DigitalInputsOctetExists4: "0",
		DigitalInputsOctetExists5: "0", DigitalInputsOctetExists6: "0", DigitalInputsOctetExists7: "0", DigitalInputsOctetExists8: "0",
		AnalogSensorFieldExists1: "0", AnalogSensorFieldExists2: "0", AnalogSensorFieldExists3: "1", AnalogSensorFieldExists4: "0",
		AnalogSensorFieldExists5: "0", AnalogSensorFieldExists6: "0", AnalogSensorFieldExists7: "0", AnalogSensorFieldExists8: "0",
		DigitalOutputs: gByte("dout"), AdditionalDigitalInputsOctet1: gByte("adio"), AnalogSensor3: u24("ans")}
	w := cm.New().U8(1).U8(e.DigitalOutputs).U8(4).U8(e.AdditionalDigitalInputsOctet1).U24(e.AnalogSensor3).Bytes()
	return sub{18, e, w, func() eg.BinaryData { return &eg.SrAdSensorsData{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrAdSensorsData)
		return rt.And(d.DigitalOutputs == e.DigitalOutputs, d.AdditionalDigitalInputsOctet1 == e.AdditionalDigitalInputsOctet1, d.AnalogSensor3 == e.AnalogSensor3)
	}, 7}
}

const nSmall = 13

func mkDispatcherN(n int) sub {
	e := &eg.SrDispatcherIdentity{DispatcherType: gByte("dt"), DispatcherID: gU32("did"), Description: gString("dscr", n)}
	w := cm.New().U8(e.DispatcherType).U32(e.DispatcherID).Raw([]byte(e.Description))
	return sub{5, e, w.Bytes(), func() eg.BinaryData { return &eg.SrDispatcherIdentity{} }, func(x eg.BinaryData) bool {
		d := x.(*eg.SrDispatcherIdentity)
		return rt.And(d.DispatcherType == e.DispatcherType, d.DispatcherID == e.DispatcherID, rt.EqStr(d.Description, e.Description))
	}, 5}
}

type rec struct {
	v    eg.ServiceDataRecord
	wire []byte
	subs []sub
	// min bytes of the record that cannot be missing
	hdr int
}

// mkRec is a record with arbitrary header values and the given subrecord kinds; preset says which
// redundant fields (types, lengths) the caller fills in.
func mkRec(obf, evf, tmf int, kinds []int, preset bool) rec {
	r := eg.ServiceDataRecord{RecordNumber: gU16("rn"), SourceServiceOnDevice: gBits("ssod", 1), RecipientServiceOnDevice: gBits("rsod", 1), Group: gBits("grp", 1),
		RecordProcessingPriority: gBits("rpp", 2), TimeFieldExists: flag(tmf, 0), EventIDFieldExists: flag(evf, 0), ObjectIDFieldExists: flag(obf, 0),
		SourceServiceType: gByte("sst"), RecipientServiceType: gByte("rst")}
	fl := cm.BitStr(r.SourceServiceOnDevice, r.RecipientServiceOnDevice, r.Group, r.RecordProcessingPriority, r.TimeFieldExists, r.EventIDFieldExists, r.ObjectIDFieldExists)
	var oid, ev, tm []uint32
	hdr := 7
	if obf == 1 {
		r.ObjectIdentifier = gU32("oid")
		oid = []uint32{r.ObjectIdentifier}
		hdr += 4
	}
	if evf == 1 {
		r.EventIdentifier = gU32("evid")
		ev = []uint32{r.EventIdentifier}
		hdr += 4
	}
	if tmf == 1 {
		r.Time = gU32("tm")
		tm = []uint32{r.Time}
		hdr += 4
	}
	var subs []sub
	var ws [][]byte
	for _, k := range kinds {
		s := mkSmall(k)
		subs = append(subs, s)
		ws = append(ws, cm.Sub(s.typ, s.wire))
		d := eg.RecordData{SubrecordData: s.v}
		if preset {
			d.SubrecordType, d.SubrecordLength = s.typ, uint16(len(s.wire))
		}
		r.RecordDataSet = append(r.RecordDataSet, d)
	}
	w := cm.Record(r.RecordNumber, fl, oid, ev, tm, r.SourceServiceType, r.RecipientServiceType, ws...)
	return rec{r, w, subs, hdr}
}

func sameRec(d *eg.ServiceDataRecord, r rec) {
	rt.Assert(rt.And(d.RecordNumber == r.v.RecordNumber, d.SourceServiceType == r.v.SourceServiceType, d.RecipientServiceType == r.v.RecipientServiceType), "record number and services")
	rt.Assert(rt.And(d.SourceServiceOnDevice == r.v.SourceServiceOnDevice, d.RecipientServiceOnDevice == r.v.RecipientServiceOnDevice, d.Group == r.v.Group,
		d.RecordProcessingPriority == r.v.RecordProcessingPriority, d.TimeFieldExists == r.v.TimeFieldExists, d.EventIDFieldExists == r.v.EventIDFieldExists,
		d.ObjectIDFieldExists == r.v.ObjectIDFieldExists), "record flags")
	rt.Assert(rt.And(d.ObjectIdentifier == r.v.ObjectIdentifier, d.EventIdentifier == r.v.EventIdentifier, d.Time == r.v.Time), "optional record fields")
	rt.Assert(int(d.RecordLength) == len(r.wire)-r.hdr, "record length")
	rt.Emit("rec", uint64(d.RecordNumber), uint64(d.ObjectIdentifier), uint64(d.RecordLength), uint64(len(d.RecordDataSet)))
	rt.Assert(len(d.RecordDataSet) == len(r.subs), "no subrecord is lost or invented")
	if len(d.RecordDataSet) != len(r.subs) {
		return
	}
	for i, s := range r.subs {
		x := d.RecordDataSet[i]
		rt.Assert(x.SubrecordType == s.typ, "subrecord type")
		rt.Assert(int(x.SubrecordLength) == len(s.wire), "subrecord length")
		if x.SubrecordType == s.typ {
			rt.Assert(s.same(x.SubrecordData), "subrecord value")
		}
	}
}

// recSet is a set of nrec records over the configured subrecord kinds.
func recSet(preset bool) ([]rec, eg.ServiceDataSet, []byte) {
	nrec := rt.Param("nrec", 1)
	nsub := rt.Param("nsub", 1)
	kinds := rt.Param("kinds", nSmall)
	var rs []rec
	var set eg.ServiceDataSet
	var wire []byte
	for i := 0; i < nrec; i++ {
		m := rt.Param("mask", -1)
		if m < 0 {
			m = rt.Choose("mask", 8)
		}
		var ks []int
		for j := 0; j < nsub; j++ {
			ks = append(ks, rt.Choose("kind", kinds))
		}
		r := mkRec(m&1, m>>1&1, m>>2, ks, preset)
		rs = append(rs, r)
		set = append(set, r.v)
		wire = append(wire, r.wire...)
	}
	return rs, set, wire
}

// VerifRecEncode: records of any header values, optional fields and subrecords have the wire form, and
// the lengths written are those of the data.
func VerifRecEncode() {
	preset := rt.Choose("preset", 2) == 1
	_, set, wire := recSet(preset)
	b, err := set.Encode()
	rt.Assert(err == nil, "representable records are encoded")
	rt.Cover("encoded")
	rt.Assert(len(b) == len(wire), "encoded length")
	rt.Assert(cm.Eq(b, wire), "encoded bytes are the wire form")
	rt.Assert(int(set.Length()) == len(wire), "declared length")
	for i := range set {
		subs := set[i].RecordDataSet
		b, err := subs.Encode()
		rt.Assert(err == nil && int(subs.Length()) == len(b), "declared length of the subrecords")
	}
}

// VerifRecStale: stale lengths in the structures never reach the wire.
func VerifRecStale() {
	rs, set, wire := recSet(true)
	for i := range set {
		set[i].RecordLength = rt.U16("stale rl")
		for j := range set[i].RecordDataSet {
			set[i].RecordDataSet[j].SubrecordLength = rt.U16("stale srl")
		}
	}
	_ = rs
	b, err := set.Encode()
	rt.Assert(err == nil, "records are encoded")
	rt.Cover("encoded")
	rt.Assert(len(b) == len(wire) && cm.Eq(b, wire), "lengths on the wire are those of the data")
	rt.Assert(int(set.Length()) == len(wire), "the length of records is that of their data")
	for i := range set {
		rds := set[i].RecordDataSet
		d, err := rds.Encode()
		rt.Assert(err == nil && int(rds.Length()) == len(d), "the length of subrecords is that of their data")
	}
}

// VerifRecDecode: the wire form is decoded to exactly those records.
func VerifRecDecode() {
	rs, _, wire := recSet(true)
	var set eg.ServiceDataSet
	err := set.Decode(wire)
	rt.Assert(err == nil, "well formed records are accepted")
	if err != nil {
		return
	}
	rt.Cover("decoded")
	rt.Assert(len(set) == len(rs), "no record is lost or invented")
	if len(set) != len(rs) {
		return
	}
	for i := range rs {
		sameRec(&set[i], rs[i])
	}
}

// VerifRecRelay: a decoded packet is encoded to the same bytes.
func VerifRecRelay() {
	rs, _, wire := recSet(true)
	route := rt.Choose("route", 2) == 1
	_, h := symHeader(route)
	body := wire
	if rt.Choose("resp", 2) == 1 {
		h.PT = 0
		body = cm.Cat(cm.New().U16(rt.U16("rpid")).U8(rt.Byte("pr")).Bytes(), wire)
	} else {
		h.PT = 1
	}
	in := cm.Frame(h, route, body)
	p := eg.Package{}
	code, err := p.Decode(in)
	rt.Assert(err == nil && code == 0, "a well formed packet is accepted")
	if err != nil {
		return
	}
	if h.PT == 1 {
		set := p.ServicesFrameData.(*eg.ServiceDataSet)
		rt.Assert(len(*set) == len(rs), "no record is lost or invented")
	}
	out, err := p.Encode()
	rt.Assert(err == nil, "a decoded packet is encoded")
	rt.Cover("relayed")
	rt.Assert(len(out) == len(in), "same length")
	if len(out) != len(in) {
		return
	}
	hl := 11
	if route {
		hl = 16
	}
	rt.Assert(cm.Eq(out[:hl], in[:hl]), "same header")
	rt.Assert(cm.Eq(out[hl:], in[hl:]), "same body and checksum")
}

// VerifRelayState: the state subrecord has two numbers; it keeps the one it came with.
func VerifRelayState() {
	t := []byte{20, 21}[rt.Choose("srt", 2)]
	st := rt.Bytes("state", 5)
	rt.Assume(st[4] < 8)
	subs := [][]byte{cm.Sub(t, st), cm.Sub(9, []byte{rt.Byte("rcd")})}
	if rt.Choose("order", 2) == 1 {
		subs[0], subs[1] = subs[1], subs[0]
	}
	in := cm.Packet(rt.U16("pid"), 1, cm.Record(rt.U16("rn"), 0, nil, nil, nil, 2, 2, subs...))
	p := eg.Package{}
	code, err := p.Decode(in)
	rt.Assert(err == nil && code == 0, "a well formed packet is accepted")
	if err != nil {
		return
	}
	out, err := p.Encode()
	rt.Cover("relayed")
	rt.Assert(err == nil && len(out) == len(in), "a decoded packet is encoded")
	if len(out) == len(in) {
		rt.Assert(cm.Eq(out, in), "same bytes")
	}
}

// VerifRecTruncated: a record set cut anywhere but between records is rejected; a record whose body is
// wholly absent counts as a record boundary.
func VerifRecTruncated() {
	rs, _, wire := recSet(true)
	cut := rt.Choose("cut", len(wire))
	ok := cut == 0
	at := 0
	for _, r := range rs {
		if cut == at || cut == at+r.hdr {
			ok = true
		}
		at += len(r.wire)
	}
	if ok {
		return
	}
	rt.Cover("cut")
	var set eg.ServiceDataSet
	rt.Assert(set.Decode(append([]byte(nil), wire[:cut]...)) != nil, "a truncated record is rejected")
}

// VerifSubsTruncated: a subrecord list cut anywhere but between subrecords is rejected.
func VerifSubsTruncated() {
	rs, _, wire := recSet(true)
	r := rs[0]
	b := wire[r.hdr:len(r.wire)]
	cut := rt.Choose("cut", len(b))
	at := 0
	ok := cut == 0
	for _, s := range r.subs {
		if cut == at {
			ok = true
		}
		at += 3 + len(s.wire)
	}
	if ok {
		return
	}
	rt.Cover("cut")
	var set eg.RecordDataSet
	rt.Assert(set.Decode(append([]byte(nil), b[:cut]...)) != nil, "a truncated subrecord is rejected")
}

// VerifOverlong: a record or subrecord declaring more bytes than there are is rejected, whatever the
// declared length.
func VerifOverlong() {
	rs, _, wire := recSet(true)
	r := rs[0]
	b := append([]byte(nil), wire...)
	l := rt.U16("declared")
	if rt.Choose("which", 2) == 0 {
		rt.Assume(int(l) > len(wire)-r.hdr)
		b[0], b[1] = byte(l), byte(l>>8)
		rt.Cover("record")
	} else {
		rt.Assume(int(l) > len(r.wire)-r.hdr-3)
		b[r.hdr+1], b[r.hdr+2] = byte(l), byte(l>>8)
		rt.Cover("subrecord")
	}
	var set eg.ServiceDataSet
	rt.Assert(set.Decode(b) != nil, "a declared length beyond the data is rejected")
}

// VerifPacketTruncated: a packet cut anywhere is rejected with a non-zero code.
func VerifPacketTruncated() {
	_, _, wire := recSet(true)
	route := rt.Choose("route", 2) == 1
	_, h := symHeader(route)
	h.PT = byte(rt.Choose("pt", 2))
	b := cm.Frame(h, route, wire)
	cut := rt.Choose("cut", len(b))
	rt.Cover("cut")
	p := eg.Package{}
	code, err := p.Decode(append([]byte(nil), b[:cut]...))
	rt.Assert(err != nil, "a truncated packet is rejected")
	rt.Assert(code != 0, "a truncated packet has a non-zero code")
}

func known(t byte) bool {
	return rt.Or(t <= 1, t == 5, t == 7, t == 9, t == 15, t == 16, t == 17, t == 18, t == 19, t == 20, t == 21, t == 24, t == 25, t == 27)
}

// VerifUnknown: a subrecord of a type the library does not implement is an error, wherever it stands.
func VerifUnknown() {
	n := rt.Param("n", 3)
	t := rt.Byte("srt")
	// short ones, and some as long as known subrecords are
	size := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 21, 26}[rt.Choose("len", 11)]
	body := make([]byte, size)
	for i := size - n; i < size; i++ {
		if i >= 0 {
			body[i] = rt.Byte("b")
		}
	}
	if rt.Choose("accel", 2) == 1 {
		// type 20 is only implemented for the 5 byte state form
		rt.Assume(t == 20)
		rt.Cover("type 20")
	} else {
		rt.Assume(!known(t))
		rt.Cover("unknown")
	}
	if len(body) == 5 && t == 20 {
		return
	}
	s := mkSmall(rt.Choose("kind", 3))
	subs := [][]byte{cm.Sub(s.typ, s.wire), cm.Sub(t, body)}
	if rt.Choose("first", 2) == 1 {
		subs[0], subs[1] = subs[1], subs[0]
	}
	r := cm.Record(rt.U16("rn"), 0, nil, nil, nil, 2, 2, subs...)
	if rt.Choose("second", 2) == 1 {
		r = cm.Cat(cm.Record(rt.U16("rn"), 0, nil, nil, nil, 2, 2, cm.Sub(s.typ, s.wire)), r)
	}
	pt := byte(rt.Choose("pt", 2))
	if pt == 0 {
		r = cm.Cat([]byte{1, 0, 0}, r)
	}
	p := eg.Package{}
	code, err := p.Decode(cm.Packet(rt.U16("pid"), pt, r))
	rt.Assert(err != nil && code != 0, "an unknown subrecord type is rejected")
}

// VerifUnknownPacket: a packet type other than response and application data is code 133.
func VerifUnknownPacket() {
	n := rt.Param("n", 4)
	route := rt.Choose("route", 2) == 1
	_, h := symHeader(route)
	rt.Assume(h.PT > 1)
	b := cm.Frame(h, route, rt.Bytes("b", rt.Choose("len", n+1)))
	p := eg.Package{}
	code, err := p.Decode(b)
	rt.Cover("rejected")
	rt.Assert(err != nil, "an unknown packet type is rejected")
	rt.Assert(code == 133, "an unknown packet type has code 133")
}

// VerifUnmarshal and VerifMarshal stand in for the protobuf library: the vendor data is kept as it is,
// or refused.
//
//verif:redirect github.com/golang/protobuf/proto.Unmarshal
func VerifUnmarshal(b []byte, m proto.Message) error {
	if plusReal {
		return libUnmarshal(b, m)
	}
	if rt.Choose("protobuf", 2) == 1 {
		return errors.New("proto: cannot parse")
	}
	if s, ok := m.(*eg.StorageRecord); ok {
		s.XXX_unrecognized = append([]byte(nil), b...)
	}
	return nil
}

//verif:redirect github.com/golang/protobuf/proto.UnmarshalMerge
func VerifUnmarshalMerge(b []byte, m proto.Message) error {
	if plusReal {
		return libMerge(b, m)
	}
	return VerifUnmarshal(b, m)
}

//verif:redirect github.com/golang/protobuf/proto.Marshal
func VerifMarshal(m proto.Message) ([]byte, error) {
	if plusReal {
		return libMarshal(m)
	}
	if s, ok := m.(*eg.StorageRecord); ok && rt.Choose("protobuf", 2) == 0 {
		return append([]byte(nil), s.XXX_unrecognized...), nil
	}
	return nil, errors.New("proto: required field not set")
}

//verif:redirect github.com/golang/protobuf/proto.Size
func VerifSize(m proto.Message) int {
	if plusReal {
		return libSize(m)
	}
	b, _ := VerifMarshal(m)
	return len(b)
}

// VerifVendor: vendor (protobuf) subrecords are framed like any other, at any position.
func VerifVendor() {
	body := rt.Bytes("v", rt.Choose("len", rt.Param("n", 4)+1))
	s := mkSmall(rt.Choose("kind", 3))
	subs := [][]byte{cm.Sub(15, body), cm.Sub(s.typ, s.wire)}
	at := rt.Choose("at", 2)
	if at == 1 {
		subs[0], subs[1] = subs[1], subs[0]
	}
	wire := cm.Cat(subs...)
	var set eg.RecordDataSet
	if set.Decode(append([]byte(nil), wire...)) != nil {
		rt.Cover("refused")
		return
	}
	rt.Assert(len(set) == 2, "no subrecord is lost or invented")
	if len(set) != 2 {
		return
	}
	v, ok := set[at].SubrecordData.(*eg.StorageRecord)
	rt.Assert(ok && set[at].SubrecordType == 15, "vendor data is decoded as such")
	if ok {
		rt.Assert(rt.EqBytes(v.XXX_unrecognized, body), "vendor data reaches the protobuf decoder whole")
	}
	set[at].SubrecordType = byte(rt.Choose("given", 2) * 15)
	out, err := set.Encode()
	if err != nil {
		rt.Cover("not encoded")
		return
	}
	rt.Cover("relayed")
	rt.Assert(rt.EqBytes(out, wire), "vendor data is encoded in a subrecord of its length")
}

// VerifSetAny: no bytes make the record decoder panic.
func VerifSetAny() {
	b := rt.Bytes("b", rt.Param("n", 8))
	var set eg.ServiceDataSet
	err := set.Decode(b)
	rt.Emit("ok", rt.B2U(err == nil))
	if err == nil {
		rt.Cover("accepted")
	} else {
		rt.Cover("rejected")
	}
}

// VerifSubsAny: no bytes make the subrecord list decoder panic.
func VerifSubsAny() {
	b := rt.Bytes("b", rt.Param("n", 8))
	var set eg.RecordDataSet
	err := set.Decode(b)
	rt.Emit("ok", rt.B2U(err == nil))
	if err == nil {
		rt.Cover("accepted")
	} else {
		rt.Cover("rejected")
	}
}

func freshKind(k int) eg.BinaryData {
	switch k {
	case kPos:
		return &eg.SrPosData{}
	case kExtPos:
		return &eg.SrExtPosData{}
	case kAd:
		return &eg.SrAdSensorsData{}
	case kCounters:
		return &eg.SrCountersData{}
	case kAbsAn:
		return &eg.SrAbsAnSensData{}
	case kAbsCntr:
		return &eg.SrAbsCntrData{}
	case kLiquid:
		return &eg.SrLiquidLevelSensor{}
	case kTerm:
		return &eg.SrTermIdentity{}
	case kAuth:
		return &eg.SrAuthInfo{}
	case kDispatcher:
		return &eg.SrDispatcherIdentity{}
	case kState:
		return &eg.SrStateData{}
	case kResponse:
		return &eg.SrResponse{}
	case kResult:
		return &eg.SrResultCode{}
	}
	return &eg.PtResponse{}
}

// VerifSubAny: no bytes make a subrecord decoder panic, and what it accepts it can encode again, to
// bytes it accepts again.
func VerifSubAny() {
	kind := rt.Param("kind", 0)
	b := rt.Bytes("b", rt.Choose("len", rt.Param("n", 8)+1))
	d := freshKind(kind)
	err := d.Decode(b)
	rt.Emit("ok", rt.B2U(err == nil))
	if err != nil {
		rt.Cover("rejected")
		return
	}
	rt.Cover("accepted")
	if kind == kPos || kind > kResult {
		return
	}
	c, err := d.Encode()
	rt.Assert(err == nil, "what was accepted can be encoded")
	if err != nil {
		return
	}
	e := freshKind(kind)
	rt.Assert(e.Decode(c) == nil, "the encoding of what was accepted is accepted")
	c2, err := e.Encode()
	rt.Assert(err == nil && len(c2) == len(c) && cm.Eq(c, c2), "encoding is stable")
}

// VerifResponse: a response body carries the confirmed packet, the result and its records.
func VerifResponse() {
	rs, set, wire := recSet(true)
	rpid, pr := rt.U16("rpid"), rt.Byte("pr")
	want := cm.New().U16(rpid).U8(pr).Bytes()
	e := &eg.PtResponse{ResponsePacketID: rpid, ProcessingResult: pr}
	with := rt.Choose("records", 2) == 1
	if with {
		e.SDR = &set
		want = cm.Cat(want, wire)
	}
	b, err := e.Encode()
	rt.Assert(err == nil, "a representable response is encoded")
	rt.Assert(len(b) == len(want) && cm.Eq(b, want), "encoded bytes are the wire form")
	rt.Assert(int(e.Length()) == len(want), "declared length")
	d := &eg.PtResponse{}
	err = d.Decode(want)
	rt.Assert(err == nil, "a well formed response is accepted")
	if err != nil {
		return
	}
	rt.Assert(rt.And(d.ResponsePacketID == rpid, d.ProcessingResult == pr), "confirmed packet and result")
	if !with {
		rt.Cover("without records")
		rt.Assert(d.SDR == nil, "no records appear")
	} else {
		rt.Cover("with records")
		got, ok := d.SDR.(*eg.ServiceDataSet)
		rt.Assert(ok && len(*got) == len(rs), "no record is lost or invented")
		if ok && len(*got) == len(rs) {
			for i := range rs {
				sameRec(&(*got)[i], rs[i])
			}
		}
	}
	cut := rt.Choose("cut", 3)
	rt.Assert((&eg.PtResponse{}).Decode(append([]byte(nil), want[:cut]...)) != nil, "a truncated response is rejected")
}
