package server

import (
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

const epoch2010 = 1262304000

type loc struct {
	sec       uint32
	lat, lng  uint32
	south     bool
	west      bool
	speed     uint16
	altitude  bool
	speedTens uint16
}

type liq struct {
	num   uint8
	mod   uint16
	err   string
	unit  string
	value uint32
}

// want is what a packet must lead to.
type want struct {
	wire []byte
	pid  uint16
	// answer: a confirmation is due
	answer bool
	// code is the expected processing result; anyErr: any code but 0
	code   uint8
	anyErr bool
	rns    []uint16
	sst    []uint8
	// result: a result code packet is due
	result bool
	// the record to be stored
	stored bool
	oid    uint32
	imei   string
	packet uint32
	locs   []loc
	an     []storage.AnSensor
	liqs   []liq
	// only confirmations inside
	confirms int
	subs     int
}

// subrecord kinds of the generated telemetry
const (
	sPos = iota
	sExtPos
	sAbsAn
	sCntr
	sLiquid
	sAd
	sState
	sResp
	sAuth
	sTerm
	sCounters
	sDisp
	sResult
	sKinds
)

// plain makes generated content concrete (and different each time) instead of arbitrary: 0 is arbitrary.
var plain uint32

func u32(name string) uint32 {
	if plain == 0 {
		return rt.U32(name)
	}
	plain = plain*1664525 + 1013904223 | 1
	return plain ^ plain>>15
}

func u16(name string) uint16 {
	if plain == 0 {
		return rt.U16(name)
	}
	return uint16(u32(name))
}

func u8(name string) byte {
	if plain == 0 {
		return rt.Byte(name)
	}
	return byte(u32(name))
}

func bytesOf(name string, n int) []byte {
	if plain == 0 {
		return rt.Bytes(name, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = u8(name) | 1
	}
	return b
}

func bitsOf(name string, n int) string {
	if plain == 0 {
		return rt.Bits(name, n)
	}
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('0' + u8(name)&1))
	}
	return s
}

// addSub appends one subrecord of arbitrary content to the record and notes what it means.
func (w *want) addSub(kind int) []byte {
	w.subs++
	switch kind {
	case sPos:
		l := loc{sec: u32("ntm"), lat: u32("lat"), lng: u32("lng"), speedTens: u16("spd") & 0x3FFF}
		fl := u8("pflags") & 0x7F
		dirh := u16("dirh") & 0xC000
		b := cm.New().U32(l.sec).U32(l.lat).U32(l.lng)
		alte := rt.Param("alte", 0) == 1
		if alte {
			fl |= 0x80
		}
		l.south, l.west = fl&0x20 != 0, fl&0x40 != 0
		b.U8(fl).U16(l.speedTens | dirh).U8(u8("dir")).U24(u32("odm") & 0xFFFFFF).U8(u8("din")).U8(u8("src"))
		if alte {
			b.U24(u32("alt") & 0xFFFFFF)
		}
		w.locs = append(w.locs, l)
		w.stored = true
		return cm.Sub(16, b.Bytes())
	case sExtPos:
		return cm.Sub(17, cm.New().U8(0x1F).U16(u16("vdop")).U16(u16("hdop")).U16(u16("pdop")).U8(u8("sat")).U16(u16("ns")).Bytes())
	case sAbsAn:
		a := storage.AnSensor{SensorNumber: u8("asn"), Value: u32("asv") & 0xFFFFFF}
		w.an = append(w.an, a)
		return cm.Sub(24, cm.New().U8(a.SensorNumber).U24(a.Value).Bytes())
	case sCntr:
		// the record number travels in two counters
		n := u8("cntr")
		v := u32("cntv") & 0xFFFFFF
		which := 0
		if plain == 0 {
			which = rt.Choose("which counter", 3)
		} else {
			which = []int{0, 1, 2, 2, 2}[w.subs%5]
			n &= 63
		}
		switch which {
		case 0:
			n = 110
			w.packet = w.packet&0xFF000000 | v
		case 1:
			n = 111
			w.packet = w.packet&0x00FFFFFF | v<<24
		default:
			rt.Assume(rt.And(n != 110, n != 111))
		}
		return cm.Sub(25, cm.New().U8(n).U24(v).Bytes())
	case sLiquid:
		q := liq{num: u8("lln") & 7, mod: u16("llm"), value: u32("llv"), err: bitsOf("llerr", 1)}
		unit := w.subs % 4
		if plain == 0 {
			unit = rt.Choose("llunit", 4)
		}
		q.unit = []string{"00", "01", "10", "11"}[unit]
		w.liqs = append(w.liqs, q)
		return cm.Sub(27, cm.New().U8(cm.BitStr(q.err, q.unit)<<4|q.num).U16(q.mod).U32(q.value).Bytes())
	case sAd:
		m := byte(255)
		if plain != 0 {
			m = u8("ad")
		} else if k := rt.Choose("ad", 10); k < 8 {
			m = 1 << uint(k)
		} else if k == 8 {
			m = 0
		}
		b := cm.New().U8(0).U8(u8("dout")).U8(m)
		for k := 0; k < 8; k++ {
			if m>>uint(k)&1 == 1 {
				v := u32("ad value") & 0xFFFFFF
				b.U24(v)
				w.an = append(w.an, storage.AnSensor{SensorNumber: uint8(k + 1), Value: v})
			}
		}
		return cm.Sub(18, b.Bytes())
	case sState:
		return cm.Sub(21, bytesOf("state", 5))
	case sResp:
		w.confirms++
		return cm.Sub(0, cm.New().U16(u16("crn")).U8(u8("crs")).Bytes())
	case sAuth:
		w.result = true
		b := cm.New()
		for i := 0; i < 2+rt.Param("seq", 0); i++ {
			// a name and a password of any characters but the separator
			for _, ch := range bytesOf("cred", rt.Param("cred", 2)) {
				rt.Assume(ch != 0)
				b.U8(ch)
			}
			b.U8(0)
		}
		return cm.Sub(7, b.Bytes())
	case sTerm:
		w.result = true
		m := byte(2)
		if plain != 0 {
			m = u8("tflags") | 2
		} else if rt.Param("tflags", 0) == 1 {
			// one optional field, all, or none; tflags=2: every combination
			m = []byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 255}[rt.Choose("tflags", 10)]
		} else if rt.Param("tflags", 0) == 2 {
			m = byte(rt.Choose("tflags", 256))
		}
		b := cm.New().U32(u32("tid")).U8(m)
		for k, n := range []int{2, 15, 16, 3, 0, 3, 2, 15} {
			if m>>uint(k)&1 == 1 {
				v := bytesOf("tfield", n)
				if k == 1 {
					w.imei = string(v)
				}
				b.Raw(v)
			}
		}
		return cm.Sub(1, b.Bytes())
	case sCounters:
		return cm.Sub(19, cm.New().U8(3).U24(u32("c1")&0xFFFFFF).U24(u32("c2")&0xFFFFFF).Bytes())
	case sDisp:
		return cm.Sub(5, cm.New().U8(u8("dt")).U32(u32("did")).Raw([]byte("d")).Bytes())
	}
	return cm.Sub(9, []byte{u8("rcd")})
}

// addRecord appends a record; all records of a packet are of one object (VerifTwoObjects has two).
func (w *want) addRecord(oid uint32, opt int, kinds []int) []byte {
	rn := u16("rn")
	var o, e, t []uint32
	fl := u8("rfl") & 0xF8
	if opt&1 != 0 {
		o = []uint32{oid}
		w.oid = oid
		fl |= 1
	}
	if opt&2 != 0 {
		e = []uint32{u32("evid")}
		fl |= 2
	}
	if opt&4 != 0 {
		t = []uint32{u32("tm")}
		fl |= 4
	}
	sst := u8("sst")
	var subs [][]byte
	for _, k := range kinds {
		subs = append(subs, w.addSub(k))
	}
	w.rns = append(w.rns, rn)
	w.sst = append(w.sst, sst)
	return cm.Record(rn, fl, o, e, t, sst, u8("rst"), subs...)
}

// fixedOID, when not 0, is the object of generated telemetry.
var fixedOID uint32

func symPid() uint16 { return u16("pid") }

func frameHeader(pid uint16, pt byte, route bool) cm.Header {
	h := cm.Header{PRV: 1, SKID: u8("skid"), HE: u8("he"), PID: pid, PT: pt, Flags: u8("hfl") &^ 0x20}
	if route {
		h.Flags |= 0x20
		h.PRA, h.RCA, h.TTL = u16("pra"), u16("rca"), u8("ttl")
	}
	return h
}

// telemetry is a packet of nrec records of nsub subrecords, each of one of the given kinds.
func telemetry(nrec, nsub int, kinds []int, route bool) *want {
	w := &want{answer: true}
	w.pid = symPid()
	w.packet = uint32(w.pid)
	oid := u32("oid")
	if fixedOID != 0 {
		oid = fixedOID
	}
	var body []byte
	for i := 0; i < nrec; i++ {
		opt := rt.Param("opt", -1)
		if opt < 0 {
			opt = []int{0, 1, 7}[rt.Choose("opt", 3)]
		}
		var ks []int
		if i == 0 && rt.Param("lead", 0) == 1 {
			// a packet with telemetry for sure
			ks = append(ks, sPos)
		}
		if rt.Param("empty", 0) == 1 && rt.Choose("empty", 2) == 1 {
			// a record of nothing
			body = append(body, w.addRecord(oid, opt, ks)...)
			continue
		}
		for j := 0; j < nsub; j++ {
			ks = append(ks, kinds[rt.Choose("kind", len(kinds))])
		}
		body = append(body, w.addRecord(oid, opt, ks)...)
	}
	if w.confirms > 0 && w.confirms == w.subs {
		w.answer = false
	}
	w.wire = cm.Frame(frameHeader(w.pid, 1, route), route, body)
	return w
}

func kindList() []int {
	m := rt.Param("kinds", 1<<sPos)
	var ks []int
	for k := 0; k < sKinds; k++ {
		if m>>uint(k)&1 == 1 {
			ks = append(ks, k)
		}
	}
	return ks
}

// other packets
const (
	oResponse = iota
	oResponseRec
	oBadHeaderSum
	oBadBodySum
	oUnknownSub
	oUnknownType
	oNoBody
	oCutSub
	oBadHL
	oKinds
)

// special is a packet that carries no telemetry to store.
func special(kind int) *want {
	w := &want{pid: symPid(), answer: true}
	h := frameHeader(w.pid, 1, false)
	switch kind {
	case oResponse:
		w.answer = false
		h.PT = 0
		w.wire = cm.Frame(h, false, cm.New().U16(u16("rpid")).U8(u8("pr")).Bytes())
	case oResponseRec:
		w.answer = false
		h.PT = 0
		w.wire = cm.Frame(h, false, cm.New().U16(u16("rpid")).U8(u8("pr")).
			Raw(cm.Record(u16("rn"), 0, nil, nil, nil, 2, 2, cm.Sub(0, cm.New().U16(u16("crn")).U8(0).Bytes()))).Bytes())
	case oBadHeaderSum:
		w.code = 137
		w.wire = cm.Frame(h, false, cm.Record(u16("rn"), 0, nil, nil, nil, 2, 2, new(want).addSub(sPos)))
		x := rt.Byte("flip")
		rt.Assume(x != 0)
		w.wire[10] ^= x
	case oBadBodySum:
		w.code = 138
		w.wire = cm.Frame(h, false, cm.Record(u16("rn"), 0, nil, nil, nil, 2, 2, new(want).addSub(sPos)))
		x, y := rt.Byte("flip"), rt.Byte("flip")
		rt.Assume(rt.Or(x != 0, y != 0))
		w.wire[len(w.wire)-1] ^= x
		w.wire[len(w.wire)-2] ^= y
	case oUnknownSub:
		w.anyErr = true
		t := rt.Byte("srt")
		rt.Assume(t == 2 || t == 3 || t == 33 || t == 200)
		w.wire = cm.Frame(h, false, cm.Record(u16("rn"), 0, nil, nil, nil, 2, 2, new(want).addSub(sPos), cm.Sub(t, bytesOf("ub", 2))))
	case oUnknownType:
		w.code = 133
		h.PT = rt.Byte("pt")
		rt.Assume(h.PT > 2)
		w.wire = cm.Frame(h, false, bytesOf("ub", 3))
	case oNoBody:
		w.wire = cm.Frame(h, false, nil)
	case oCutSub:
		w.anyErr = true
		s := new(want).addSub(sPos)
		cut := 1
		if plain == 0 {
			cut = rt.Choose("cut", 3)
		}
		w.wire = cm.Frame(h, false, cm.Record(u16("rn"), 0, nil, nil, nil, 2, 2, s[:len(s)-1-cut]))
	case oBadHL:
		w.code = 131
		w.wire = cm.Frame(h, false, bytesOf("ub", 12))
		w.wire[3] = 12 // one byte longer than the layout allows: consumes one body byte
		w.wire = append(w.wire, 0)
		w.wire[10] = cm.CRC8(w.wire[:10])
	}
	return w
}

func near(a, b float64) bool {
	return rt.Or(a == b, rt.And(a-b < 1e-9, b-a < 1e-9))
}

// checkRecord compares a stored record with what the packet means.
func checkRecord(r *storage.NavRecord, w *want) {
	rt.Assert(r.ClientID == w.oid, "the client is the object identifier")
	rt.Assert(rt.EqStr(r.IMEI, w.imei), "the IMEI is the terminal's")
	rt.Assert(r.PacketID == w.packet, "the packet id is the packet's or the counters'")
	rt.Assert(len(r.LocStates) == len(w.locs) && int(r.LocStatesCount) == len(w.locs), "every position is delivered once")
	if len(r.LocStates) != len(w.locs) {
		return
	}
	rt.Assert(r.NavigationTimestamp == epoch2010+int64(w.locs[len(w.locs)-1].sec), "the navigation time is that of the last position")
	for i, l := range w.locs {
		g := r.LocStates[i]
		lat, lng := float64(l.lat)*90/0xFFFFFFFF, float64(l.lng)*180/0xFFFFFFFF
		rt.Assert(rt.Or(rt.And(!l.south, near(g.Latitude, lat)), rt.And(l.south, near(g.Latitude, -lat))), "latitude with its hemisphere")
		rt.Assert(rt.Or(rt.And(!l.west, near(g.Longitude, lng)), rt.And(l.west, near(g.Longitude, -lng))), "longitude with its hemisphere")
		rt.Assert(g.Speed == l.speedTens/10, "speed in km/h")
		rt.Assert(g.NavigationDt == time.Unix(epoch2010+int64(l.sec), 0).UTC().Format(time.RFC3339), "the time of each position")
		rt.Emit("loc", uint64(g.Speed), uint64(r.NavigationTimestamp))
	}
	rt.Assert(len(r.AnSensors) == len(w.an), "every analog sensor is delivered once")
	if len(r.AnSensors) == len(w.an) {
		for i, a := range w.an {
			rt.Assert(rt.And(r.AnSensors[i].SensorNumber == a.SensorNumber, r.AnSensors[i].Value == a.Value), "analog sensor number and value")
		}
	}
	rt.Assert(len(r.LiquidSensors) == len(w.liqs), "every liquid sensor is delivered once")
	if len(r.LiquidSensors) == len(w.liqs) {
		for i, q := range w.liqs {
			g := r.LiquidSensors[i]
			rt.Assert(rt.And(g.SensorNumber == q.num, g.ModuleNumber == q.mod, g.ErrorFlag == q.err, g.ValueUnit == q.unit), "liquid sensor identity")
			mm, l := uint32(0), float64(0)
			switch q.unit {
			case "00", "01":
				mm = q.value
			case "10":
				l = float64(q.value) / 10
			}
			rt.Assert(g.ValueMm == mm, "liquid level in its unit")
			rt.Assert(near(g.ValueL, l), "liquid volume in its unit")
		}
	}
}

// received reports whether the receipt time of a record is the time the packet came.
func received(w *world, r *storage.NavRecord) bool {
	if rt.Symbolic() {
		for _, t := range w.instants {
			if r.ReceivedDt == t.UTC().Format(time.RFC3339) {
				return true
			}
		}
		return false
	}
	t, err := time.Parse(time.RFC3339, r.ReceivedDt)
	_, off := t.Zone()
	return err == nil && off == 0 && !t.Before(w.start.Add(-2*time.Second)) && !t.After(time.Now().Add(2*time.Second))
}

func sameRecord(a, b *storage.NavRecord) bool {
	if len(a.LocStates) != len(b.LocStates) || len(a.AnSensors) != len(b.AnSensors) || len(a.LiquidSensors) != len(b.LiquidSensors) {
		return false
	}
	ok := rt.And(a.PacketID == b.PacketID, a.ClientID == b.ClientID, rt.EqStr(a.IMEI, b.IMEI), a.ReceivedDt == b.ReceivedDt,
		a.NavigationTimestamp == b.NavigationTimestamp, a.LocStatesCount == b.LocStatesCount, rt.EqStr(a.ServerID, b.ServerID))
	for i := range a.LocStates {
		x, y := a.LocStates[i], b.LocStates[i]
		ok = rt.And(ok, x.Latitude == y.Latitude, x.Longitude == y.Longitude, x.Speed == y.Speed, x.NavigationDt == y.NavigationDt)
	}
	for i := range a.AnSensors {
		ok = rt.And(ok, a.AnSensors[i].SensorNumber == b.AnSensors[i].SensorNumber, a.AnSensors[i].Value == b.AnSensors[i].Value)
	}
	for i := range a.LiquidSensors {
		x, y := a.LiquidSensors[i], b.LiquidSensors[i]
		ok = rt.And(ok, x.SensorNumber == y.SensorNumber, x.ModuleNumber == y.ModuleNumber, x.ErrorFlag == y.ErrorFlag,
			x.ValueUnit == y.ValueUnit, x.ValueMm == y.ValueMm, x.ValueL == y.ValueL)
	}
	return ok
}

func checkStored(w *world, ps []*want) {
	n := 0
	for _, p := range ps {
		if !p.stored || (!p.answer && p.confirms == p.subs) {
			continue
		}
		if n < len(w.rec.recs) {
			checkRecord(&w.rec.recs[n], p)
			rt.Assert(received(w, &w.rec.recs[n]), "the receipt time is that of the packet")
		}
		n++
	}
	rt.Assert(!w.rec.bad && len(w.rec.recs) == n, "every packet with positions is stored exactly once, and nothing else")
	for i := range w.rec.ptrs {
		if i < len(w.rec.recs) {
			rt.Assert(sameRecord(w.rec.ptrs[i], &w.rec.recs[i]), "a record given to the stores is not changed afterwards")
		}
	}
}

// frame is a parsed answer.
type frame struct {
	pid  uint16
	pt   byte
	body []byte
}

// parseFrames splits what the server wrote, checking framing and checksums.
func parseFrames(b []byte) []frame {
	var out []frame
	for len(b) > 0 {
		ok := len(b) >= 11
		if ok {
			ok = rt.Concrete(int(b[0])) == 1 && rt.Concrete(int(b[3])) == 11
		}
		rt.Assert(ok, "answers are packets")
		if !ok {
			return out
		}
		n := rt.Concrete(int(b[5]) | int(b[6])<<8)
		t := 11
		if n > 0 {
			t += n + 2
		}
		rt.Assert(len(b) >= t, "answers are whole packets")
		if len(b) < t {
			return out
		}
		rt.Assert(cm.CRC8(b[:10]) == b[10], "answers have the right header checksum")
		f := frame{uint16(b[7]) | uint16(b[8])<<8, byte(rt.Concrete(int(b[9]))), b[11 : 11+n]}
		if n > 0 {
			rt.Assert(cm.CRC16(f.body) == uint16(b[11+n])|uint16(b[12+n])<<8, "answers have the right body checksum")
		}
		out = append(out, f)
		b = b[t:]
	}
	return out
}

type subrec struct {
	typ  byte
	data []byte
}

// parseRecords lists the subrecords of a record set.
func parseRecords(b []byte) (subs []subrec, ssts []byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 7 {
			return subs, ssts, false
		}
		rl := rt.Concrete(int(b[0]) | int(b[1])<<8)
		fl := rt.Concrete(int(b[4]))
		p := 5
		for k := uint(0); k < 3; k++ {
			if fl>>k&1 == 1 {
				p += 4
			}
		}
		if len(b) < p+2+rl {
			return subs, ssts, false
		}
		ssts = append(ssts, b[p])
		s := b[p+2 : p+2+rl]
		for len(s) > 0 {
			if len(s) < 3 {
				return subs, ssts, false
			}
			n := rt.Concrete(int(s[1]) | int(s[2])<<8)
			if len(s) < 3+n {
				return subs, ssts, false
			}
			subs = append(subs, subrec{byte(rt.Concrete(int(s[0]))), s[3 : 3+n]})
			s = s[3+n:]
		}
		b = b[p+2+rl:]
	}
	return subs, ssts, true
}

// checkAnswers compares everything written on a connection with what its packets call for.
func checkAnswers(out []byte, ps []*want) {
	cm.EmitBytes("out", out)
	fs := parseFrames(out)
	k := 0
	for _, p := range ps {
		if !p.answer {
			continue
		}
		if k >= len(fs) {
			rt.Assert(false, "every packet that calls for a confirmation gets one")
			return
		}
		f := fs[k]
		k++
		rt.Assert(f.pt == 0, "a confirmation is a response packet")
		if f.pt != 0 || len(f.body) < 3 {
			return
		}
		rt.Assert(uint16(f.body[0])|uint16(f.body[1])<<8 == p.pid, "the confirmation names the packet it answers")
		if p.anyErr {
			rt.Assert(f.body[2] != 0, "an undecodable packet is confirmed with an error code")
		} else {
			rt.Assert(f.body[2] == p.code, "the confirmation carries the processing result")
		}
		subs, from, ok := parseRecords(f.body[3:])
		rt.Assert(ok, "the confirmation's records are well formed")
		rt.Assert(len(subs) == len(p.rns), "one confirmation for every record")
		if len(p.rns) == 1 {
			rt.Assert(len(from) == 1 && from[0] == p.sst[0], "the confirmation comes from the service addressed")
		}
		for i := range subs {
			if i >= len(p.rns) {
				break
			}
			rt.Assert(subs[i].typ == 0 && len(subs[i].data) == 3, "record confirmations are response subrecords")
			if len(subs[i].data) == 3 {
				rt.Assert(rt.And(uint16(subs[i].data[0])|uint16(subs[i].data[1])<<8 == p.rns[i], subs[i].data[2] == 0), "each record is confirmed by its number")
			}
		}
		if p.result {
			if k >= len(fs) {
				rt.Assert(false, "an authorisation is answered with a result code")
				return
			}
			f := fs[k]
			k++
			rt.Assert(f.pt == 1, "a result code travels in an application packet")
			subs, ssts, ok := parseRecords(f.body)
			rt.Assert(ok && len(subs) == 1 && subs[0].typ == 9 && len(subs[0].data) == 1 && subs[0].data[0] == 0, "the result code says success")
			rt.Assert(len(ssts) == 1 && ssts[0] == 1, "the result code comes from the authorisation service")
		}
	}
	rt.Assert(k == len(fs), "nothing else is answered")
}
