package server

import (
	"time"

	srv "github.com/ElectroUnion/egts-gate/cli/receiver/server"
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

// VerifTelemetry: what one packet of any content leads to, in the stores and on the connection.
func VerifTelemetry() {
	p := telemetry(rt.Param("nrec", 1), rt.Param("nsub", 1), kindList(), rt.Param("route", 0) == 1)
	w := newWorld(0)
	w.rec.fail = rt.Param("fail", 0) == 1
	c := w.add(p.wire)
	w.run()
	rt.WaitIdle()
	rt.Assert(c.closed, "the connection is closed when the peer closes it")
	if p.stored {
		rt.Cover("stored")
	} else {
		rt.Cover("not stored")
	}
	checkStored(w, []*want{p})
	checkAnswers(c.out, []*want{p})
	if p.stored && p.answer && len(w.events) > 0 {
		rt.Assert(w.events[0] == "save", "telemetry is offered to the stores before it is confirmed")
	}
	w.finish()
}

// anyPacket is a packet of one of the kinds the job allows.
func anyPacket() *want {
	m := rt.Param("special", 0)
	ks := kindList()
	var sp []int
	for k := 0; k < oKinds; k++ {
		if m>>uint(k)&1 == 1 {
			sp = append(sp, k)
		}
	}
	k := rt.Choose("packet", len(ks)+len(sp))
	if k < len(ks) {
		rt.Cover("telemetry")
		return telemetry(1, 1, ks[k:k+1], false)
	}
	rt.Cover("other")
	return special(sp[k-len(ks)])
}

// VerifSequence: packets of every kind follow one another on a connection; each leads to what it would lead to alone.
func VerifSequence() {
	w := newWorld(0)
	var ps []*want
	var segs [][]byte
	for i := 0; i < rt.Param("len", 2); i++ {
		p := anyPacket()
		ps = append(ps, p)
		segs = append(segs, p.wire)
	}
	c := w.add(segs...)
	w.run()
	rt.WaitIdle()
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	w.finish()
}

// VerifReceipt: the receipt time of a record is that of its packet, whatever came before on the connection and when.
func VerifReceipt() {
	gap := 4 * time.Second
	w := newWorld(0)
	c := w.add()
	c.idle = true
	w.run()
	var ps []*want
	stored := 0
	for i := 0; i < rt.Param("len", 2); i++ {
		if i > 0 {
			w.advance(gap)
		}
		p := anyPacket()
		ps = append(ps, p)
		from := time.Now()
		if rt.Choose("in parts", 2) == 1 {
			c.feed(p.wire[:10])
			c.feed(p.wire[10:])
		} else {
			c.feed(p.wire)
		}
		if p.stored {
			stored++
		}
		if !p.stored || len(w.rec.recs) != stored {
			continue
		}
		r := w.rec.recs[stored-1].ReceivedDt
		if rt.Symbolic() {
			rt.Assert(r == from.UTC().Format(time.RFC3339), "the receipt time is when the packet came")
		} else {
			t, err := time.Parse(time.RFC3339, r)
			rt.Assert(err == nil && t.After(from.Add(-1500*time.Millisecond)) && t.Before(from.Add(gap/2)), "the receipt time is when the packet came")
		}
		rt.Cover("received")
	}
	w.mu.Lock()
	c.idle = false
	w.mu.Unlock()
	rt.Wake()
	rt.WaitIdle()
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	w.finish()
}

// VerifTwoObjects: records of different objects in one packet.
func VerifTwoObjects() {
	w := newWorld(0)
	p := &want{answer: true, pid: symPid()}
	p.packet = uint32(p.pid)
	a, b := rt.U32("oid"), rt.U32("oid")
	rt.Assume(a != b)
	body := p.addRecord(a, 1, []int{sPos})
	body = append(body, p.addRecord(b, 1, []int{sPos})...)
	p.wire = cm.Frame(frameHeader(p.pid, 1, false), false, body)
	w.add(p.wire)
	w.run()
	rt.WaitIdle()
	rt.Cover("two objects")
	okA, okB := false, false
	for i := range w.rec.recs {
		r := &w.rec.recs[i]
		okA = rt.Or(okA, r.ClientID == a)
		okB = rt.Or(okB, r.ClientID == b)
		rt.Assert(len(r.LocStates) <= 1, "positions of different objects are stored under their own objects")
	}
	rt.Assert(rt.And(okA, okB), "positions of different objects are stored under their own objects")
	w.finish()
}

func concat(ps []*want) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, p.wire...)
	}
	return b
}

// cutUp divides a stream into what single reads return.
func cutUp(s []byte, mode int) [][]byte {
	switch mode {
	case 0: // all at once
		return [][]byte{s}
	case 1: // byte by byte
		var r [][]byte
		for i := range s {
			r = append(r, s[i:i+1])
		}
		return r
	case 2: // two pieces
		i := rt.Choose("cut", len(s)+1)
		return [][]byte{s[:i], s[i:]}
	case 3: // three pieces
		i := rt.Choose("cut", len(s)+1)
		j := i + rt.Choose("cut", len(s)-i+1)
		return [][]byte{s[:i], s[i:j], s[j:]}
	}
	// pieces of a fixed size
	var r [][]byte
	for len(s) > 0 {
		n := mode
		if n > len(s) {
			n = len(s)
		}
		r = append(r, s[:n])
		s = s[n:]
	}
	return r
}

// stream is a fixed mix of packets: with and without a routing header, without a body, damaged, telemetry.
func stream(mix int) []*want {
	switch mix {
	case 0:
		return []*want{telemetry(1, 1, []int{sPos}, true), special(oNoBody), telemetry(1, 1, []int{sPos}, false)}
	case 1:
		return []*want{special(oBadBodySum), special(oUnknownType), special(oResponse), telemetry(1, 1, []int{sPos}, false)}
	case 2:
		return []*want{special(oBadHeaderSum), special(oBadHL), telemetry(1, 1, []int{sAuth}, false), telemetry(1, 1, []int{sPos}, true)}
	}
	// the longest packet there is, then another
	p := special(oUnknownType)
	h := frameHeader(p.pid, 77, rt.Param("route", 0) == 1)
	p.wire = cm.Frame(h, rt.Param("route", 0) == 1, make([]byte, rt.Param("big", 65535)))
	return []*want{p, telemetry(1, 1, []int{sPos}, false)}
}

// VerifFraming: the packets found in a stream do not depend on how the stream is cut into reads.
func VerifFraming() {
	w := newWorld(0)
	ps := stream(rt.Param("mix", 0))
	c := w.add(cutUp(concat(ps), rt.Param("mode", 0))...)
	w.run()
	rt.WaitIdle()
	rt.Cover("stream")
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	rt.Assert(c.closed, "the connection is closed at the end of the stream")
	w.finish()
}

// VerifCutOff: a stream that ends inside a packet: the packets before count, the incomplete one does not.
func VerifCutOff() {
	w := newWorld(0)
	ps := []*want{telemetry(1, 1, []int{sPos}, false), telemetry(1, 1, []int{sPos}, rt.Param("route", 0) == 1)}
	s := concat(ps)
	at := len(ps[0].wire) + rt.Choose("at", len(ps[1].wire))
	c := w.add(s[:at])
	c.broken = rt.Choose("how", 2) == 1
	w.run()
	rt.WaitIdle()
	rt.Cover("cut off")
	checkStored(w, ps[:1])
	checkAnswers(c.out, ps[:1])
	rt.Assert(c.closed, "a connection that ends inside a packet is closed")
	alive(w)
	w.finish()
}

// alive checks that the server still serves a new connection.
func alive(w *world) {
	n := len(w.rec.recs)
	p := telemetry(1, 1, []int{sPos}, false)
	c := w.add(p.wire)
	rt.WaitIdle()
	rt.Assert(len(w.rec.recs) == n+1, "other connections are still served")
	if len(w.rec.recs) == n+1 {
		checkRecord(&w.rec.recs[n], p)
	}
	checkAnswers(c.out, []*want{p})
	rt.Assert(!w.runDone, "the server keeps accepting")
}

// VerifForeign: a peer that does not speak EGTS is disconnected; the server and its other connections go on.
func VerifForeign() {
	w := newWorld(0)
	mode := rt.Param("mode", 0)
	var ps []*want
	if rt.Param("after", 0) == 1 {
		ps = append(ps, telemetry(1, 1, []int{sPos}, false))
	}
	n := rt.Param("n", 10)
	b := rt.Bytes("junk", n)
	switch mode {
	case 0: // not the protocol's version
		rt.Assume(b[0] != 1)
	case 1: // a header length no packet can have
		rt.Assume(rt.And(b[0] == 1, b[3] < 11))
		if n > 10 {
			// what follows a header of unknown length is not a packet either
			rt.Assume(b[10] != 1)
		}
	}
	c := w.add(append(concat(ps), b...))
	c.idle = rt.Param("idle", 1) == 1
	w.run()
	rt.WaitIdle()
	rt.Cover("foreign")
	rt.Assert(c.closed, "a connection that does not speak EGTS is closed")
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	alive(w)
	w.finish()
}

// VerifDamaged: a packet the decoder refuses does not end the connection, nor the server.
func VerifDamaged() {
	w := newWorld(0)
	n := rt.Param("n", 5)
	p := &want{pid: symPid(), answer: true, anyErr: true}
	h := frameHeader(p.pid, byte(rt.Param("pt", 1)), rt.Param("route", 0) == 1)
	body := rt.Bytes("body", n)
	p.wire = cm.Frame(h, rt.Param("route", 0) == 1, body)
	afterAny(w, p)
}

// VerifOddHeader: a packet that states any header length, with any flags, does not end the connection,
// nor the server; its checksum is right wherever a decoder may look for it.
func VerifOddHeader() {
	w := newWorld(0)
	n := rt.Param("n", 7)
	lo, hi := rt.Param("lo", 11), rt.Param("hi", 255)
	hl := lo + rt.Choose("hl", hi-lo+1)
	p := &want{pid: symPid(), answer: true, anyErr: true}
	b := cm.New().U8(1).U8(0).U8(rt.Byte("hfl")).U8(byte(hl)).U8(0).U16(uint16(n)).U16(p.pid).U8(byte(rt.Param("pt", 1))).Bytes()
	for len(b) < hl {
		switch len(b) {
		case 10, 15, hl - 1:
			b = append(b, cm.CRC8(b))
		default:
			b = append(b, byte(len(b)))
		}
	}
	if n > 0 {
		body := make([]byte, n)
		for i := range body {
			body[i] = byte(3 * i)
		}
		crc := cm.CRC16(body)
		b = append(append(b, body...), byte(crc), byte(crc>>8))
	}
	p.wire = b
	rt.Cover("tried")
	afterAny(w, p)
}

// afterAny: after the packet p, whatever it is, the next one of the connection is served.
func afterAny(w *world, p *want) {
	q := telemetry(1, 1, []int{sPos}, false)
	c := w.add(p.wire, q.wire)
	w.run()
	rt.WaitIdle()
	rt.Assert(c.closed, "the connection is closed at the end of the stream")
	fs := parseFrames(c.out)
	k := len(w.rec.recs)
	rt.Assert(k >= 1, "a packet after an arbitrary one is stored")
	if k >= 1 {
		checkRecord(&w.rec.recs[k-1], q)
	}
	rt.Assert(len(fs) >= 1, "a packet after an arbitrary one is confirmed")
	if len(fs) >= 1 {
		f := fs[len(fs)-1]
		rt.Assert(f.pt == 0 && len(f.body) > 3, "a packet after an arbitrary one is confirmed")
		if len(f.body) > 3 {
			rt.Assert(rt.And(uint16(f.body[0])|uint16(f.body[1])<<8 == q.pid, f.body[2] == 0), "a packet after an arbitrary one is confirmed")
		}
	}
	if len(fs) == 2 {
		g := fs[0]
		if len(g.body) >= 3 {
			rt.Assert(uint16(g.body[0])|uint16(g.body[1])<<8 == p.pid, "the confirmation names the packet it answers")
			if rt.Concrete(int(rt.B2U(g.body[2] != 0))) == 1 {
				rt.Cover("refused")
			} else {
				rt.Cover("accepted")
			}
		}
	}
	w.finish()
}

// VerifAccept: transient accept errors and connections whose answers cannot be written do not end the service.
func VerifAccept() {
	w := newWorld(0)
	w.refuse = []int{0, 1, 2, rt.Param("refuse", 12)}[rt.Choose("refuse", 4)]
	p := telemetry(1, 1, []int{sPos}, false)
	q := telemetry(1, 1, []int{sPos}, false)
	c := w.add(p.wire, q.wire)
	c.deaf = rt.Choose("deaf", 2) == 1
	w.run()
	rt.WaitIdle()
	rt.Cover("accepted")
	rt.Assert(w.accepts == 1, "a connection is accepted after transient errors")
	checkStored(w, []*want{p, q})
	if !c.deaf {
		checkAnswers(c.out, []*want{p, q})
	}
	alive(w)
	w.finish()
}

// VerifStop: stopping the server ends its accept loop and its listener.
func VerifStop() {
	w := newWorld(0)
	c := w.add(telemetry(1, 1, []int{sPos}, false).wire)
	c.idle = true
	w.run()
	rt.WaitIdle()
	rt.Assert(!w.runDone && w.accepts == 1, "the server runs until it is stopped")
	rt.Assert(w.listenOn == "127.0.0.1:6000", "the server listens where it is told to")
	err := w.srv.Stop()
	rt.WaitIdle()
	rt.Cover("stopped")
	rt.Assert(err == nil, "the server can be stopped")
	if !w.runDone {
		// it may wait for the connections it has
		c.hangUp()
		rt.WaitIdle()
	}
	rt.Assert(w.closed && w.runDone, "a stopped server leaves its accept loop")
	n := w.accepts
	w.add(telemetry(1, 1, []int{sPos}, false).wire)
	rt.WaitIdle()
	rt.Assert(w.accepts == n, "a stopped server accepts nothing")
	w.finish()
}

// VerifNoStore: a server without stores closes connections instead of failing.
func VerifNoStore() {
	w := newWorld(0)
	cur = w
	c := w.add(telemetry(1, 1, []int{sPos}, false).wire)
	s := srv.New("127.0.0.1:6000", 0, nil)
	w.srv = &s
	go s.Run()
	rt.WaitIdle()
	rt.Cover("no store")
	rt.Assert(c.closed && len(c.out) == 0, "without stores nothing is confirmed")
	w.finish()
}

// VerifIdle: a peer that stays silent for conn_ttl is disconnected, at any point of the stream, and not earlier.
func VerifIdle() {
	ttl := time.Duration(rt.Param("ttl", 5)) * time.Second
	if rt.Param("sym", 0) == 1 {
		s := rt.U32("ttl")
		rt.Assume(rt.And(s >= 1, s < 1000000000))
		ttl = time.Duration(s) * time.Second
	}
	w := newWorld(ttl)
	// what came before the silence
	var before []*want
	var segs [][]byte
	for i := 0; i < rt.Param("before", 0); i++ {
		q := anyPacket()
		before = append(before, q)
		segs = append(segs, q.wire)
	}
	p := telemetry(1, 1, []int{sPos}, false)
	ats := len(p.wire) + 1
	if len(segs) > 0 {
		ats = 1
	}
	at := rt.Choose("at", ats)
	c := w.add(append(segs, p.wire[:at])...)
	c.idle = true
	w.run()
	rt.WaitIdle()
	rt.Cover("idle")
	if ttl > 0 {
		rt.Assert(!c.noDL && c.timedOut && c.closed, "a silent connection is closed")
		rt.Assert(!c.lateDL, "a silent connection is closed after conn_ttl, not later")
		rt.Assert(!c.earlyDL, "a connection is not closed before it was silent for conn_ttl")
	} else {
		rt.Assert(!c.closed && !c.timedOut, "without conn_ttl a silent connection stays open")
	}
	ps := append(before, p)
	if at < len(p.wire) {
		ps = before
	}
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	if ttl > 0 {
		alive(w)
	}
	w.finish()
}

// VerifSlow: a peer that sends something within every conn_ttl stays connected however long a packet takes.
func VerifSlow() {
	ttl := 2 * time.Second
	w := newWorld(ttl)
	fixedOID = 1
	p := telemetry(1, 1, []int{sPos}, false)
	n := rt.Param("pieces", 4)
	segs := [][]byte{p.wire[:4], p.wire[4:10]}
	rest := p.wire[10:]
	step := (len(rest) + n - 1) / n
	for k := 0; k < len(rest); k += step {
		e := k + step
		if e > len(rest) {
			e = len(rest)
		}
		segs = append(segs, rest[k:e])
	}
	c := w.add(segs...)
	w.gated = true
	w.run()
	// all that waits at a time happens at that time
	for k := 0; w.stepAll(); k++ {
		// the pauses differ
		if k < rt.Param("vary", 0) && rt.Choose("pause", 2) == 1 {
			w.advance(ttl * 2 / 5)
		} else {
			w.advance(ttl * 3 / 4)
		}
	}
	rt.Cover("slow")
	rt.Assert(!c.timedOut, "a connection that keeps sending is not closed")
	checkStored(w, []*want{p})
	checkAnswers(c.out, []*want{p})
	w.finish()
}

// VerifSlowStore: a store that takes longer than conn_ttl delays the answer, and changes nothing else.
func VerifSlowStore() {
	ttl := time.Duration(rt.Param("ttl", 1)) * time.Second
	w := newWorld(ttl)
	fixedOID = 1
	ps := []*want{telemetry(1, 1, []int{sPos}, false), telemetry(1, 1, []int{sPos, sAuth, sCntr}, false), telemetry(1, 1, []int{sPos}, false)}
	c := w.add(ps[0].wire, ps[1].wire, ps[2].wire)
	c.idle = rt.Choose("idle", 2) == 1
	w.gated = true
	w.run()
	for w.stepAllBut("save") {
	}
	w.advance(ttl * 3 / 2)
	for w.stepAll() {
	}
	rt.Cover("slow store")
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	rt.Assert(c.closed, "a slow store does not close the connection")
	w.finish()
}

// VerifWide: packets with many records and subrecords. Their content is concrete but for one record, the first,
// the last or one in between, and the packet identifier.
func VerifWide() {
	w := newWorld(0)
	p := &want{answer: true, pid: symPid()}
	p.packet = uint32(p.pid)
	n, m, ks := rt.Param("nrec", 1), rt.Param("nsub", 1), kindList()
	oid := uint32(70007)
	// symbolic content makes all checksums after it symbolic: fewer places are cheaper
	places := rt.Param("places", 1)
	atR := []int{n - 1, n / 2, 0}[rt.Choose("record", places)]
	atS := m - 1
	if m > 1 {
		atS = []int{m - 1, m / 2, 0}[rt.Choose("subrecord", places)]
	}
	plain = 1
	h := frameHeader(p.pid, 1, false)
	var body []byte
	for i := 0; i < n; i++ {
		if i == atR {
			body = append(body, p.addWide(oid, m, ks, i, atS)...)
		} else {
			body = append(body, p.addWide(oid, m, ks, i, -1)...)
		}
	}
	plain = 0
	if p.confirms > 0 && p.confirms == p.subs {
		p.answer = false
	}
	p.wire = cm.Frame(h, false, body)
	fixedOID = 3
	q := telemetry(1, 1, []int{sPos}, false)
	c := w.add(p.wire, q.wire)
	w.run()
	rt.WaitIdle()
	rt.Cover("wide")
	checkStored(w, []*want{p, q})
	checkAnswers(c.out, []*want{p, q})
	w.finish()
}

// addWide appends a record of m subrecords, all concrete but for its number and the subrecord at when at >= 0.
func (w *want) addWide(oid uint32, m int, kinds []int, i, at int) []byte {
	opt, rn := i%8|1, u16("rn")
	if i%8 == 6 {
		// a record that does not name its object
		opt = 6
	}
	if at >= 0 {
		rn = rt.U16("rn")
	}
	if i%16 == 11 && at < 0 {
		// a record of nothing
		m = 0
	}
	var subs [][]byte
	for j := 0; j < m; j++ {
		if j == at {
			old := plain
			plain = 0
			subs = append(subs, w.addSub(kinds[(i+j)%len(kinds)]))
			plain = old
		} else {
			subs = append(subs, w.addSub(kinds[(i+j)%len(kinds)]))
		}
	}
	if opt&1 == 1 {
		w.oid = oid
	}
	w.rns = append(w.rns, rn)
	w.sst = append(w.sst, 2)
	o := [][]uint32{nil, {oid}}[opt&1]
	e := [][]uint32{nil, {7}}[opt>>1&1]
	t := [][]uint32{nil, {9}}[opt>>2&1]
	return cm.Record(rn, byte(opt)|u8("rfl")&0xF8, o, e, t, 2, 2, subs...)
}

// VerifLong: many packets follow one another on one connection, each concrete but for its identifier and the one at
// an arbitrary place.
func VerifLong() {
	w := newWorld(0)
	n, ks := rt.Param("n", 12), kindList()
	oid := uint32(70007)
	at := []int{0, n / 2, n - 1}[rt.Choose("at", 3)]
	var ps []*want
	var segs [][]byte
	plain = 1
	for i := 0; i < n; i++ {
		p := &want{answer: true, pid: uint16(i) + 65530}
		if i == at {
			p.pid = symPid()
		}
		p.packet = uint32(p.pid)
		s := -1
		if i == at {
			s = 0
		}
		body := p.addWide(oid, 1, ks[i%len(ks):i%len(ks)+1], i, s)
		if p.confirms > 0 && p.confirms == p.subs {
			p.answer = false
		}
		p.wire = cm.Frame(frameHeader(p.pid, 1, i%3 == 2), i%3 == 2, body)
		ps = append(ps, p)
		segs = append(segs, p.wire)
		if x := rt.Param("special", 0); x != 0 && i%4 == 1 {
			for k := 0; k < oKinds; k++ {
				if x>>uint(k)&1 == 1 {
					q := special(k)
					ps = append(ps, q)
					segs = append(segs, q.wire)
				}
			}
		}
	}
	plain = 0
	if m := rt.Param("mode", -1); m >= 0 {
		segs = cutUp(concat(ps), m)
	}
	c := w.add(segs...)
	w.run()
	rt.WaitIdle()
	rt.Cover("long")
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	w.finish()
}

// VerifIsolation: two connections at once, every order of their operations.
func VerifIsolation() {
	w := newWorld(0)
	k := kindList()
	var ps []*want
	var cs []*conn
	for i := 0; i < rt.Param("conns", 2); i++ {
		fixedOID = uint32(i + 1)
		p := telemetry(1, 1, k, false)
		ps = append(ps, p)
		cs = append(cs, w.add(p.wire))
	}
	if rt.Param("differ", 1) == 1 {
		rt.Assume(ps[0].pid != ps[1].pid)
	}
	w.gated = true
	w.run()
	for w.step() {
	}
	rt.Cover("interleaved")
	n := 0
	for i, p := range ps {
		checkAnswers(cs[i].out, []*want{p})
		rt.Assert(cs[i].closed, "each connection is closed by its own peer's end")
		if p.stored {
			n++
		}
	}
	rt.Assert(len(w.rec.recs) == n, "each connection's telemetry is stored once")
	// the records are in the order of the saves; match them by client
	for i := range w.rec.recs {
		r := &w.rec.recs[i]
		if w.rec.who[i] < len(ps) {
			checkRecord(r, ps[w.rec.who[i]])
		}
	}
	w.finish()
}

// VerifReconnect: connections follow one another; each is served as if it were the first.
func VerifReconnect() {
	w := newWorld(0)
	var ps []*want
	w.run()
	for i := 0; i < rt.Param("conns", 2); i++ {
		p, q := anyPacket(), []*want(nil)
		q = append(q, p)
		if rt.Param("two", 0) == 1 {
			p = anyPacket()
			q = append(q, p)
		}
		c := w.add(concat(q))
		rt.WaitIdle()
		rt.Assert(c.closed, "each connection is closed by its own peer's end")
		checkAnswers(c.out, q)
		ps = append(ps, q...)
	}
	rt.Cover("again")
	checkStored(w, ps)
	w.finish()
}

// VerifStalled: a connection that stands still, in a read, a write or a store, does not hold up another.
func VerifStalled() {
	w := newWorld(0)
	fixedOID = 1
	p := telemetry(1, 1, []int{sPos}, false)
	c := w.add(p.wire)
	w.gated = true
	w.run()
	n := rt.Choose("stall", 5)
	for i := 0; i < n; i++ {
		if !w.step() {
			break
		}
	}
	rt.WaitIdle()
	fixedOID = 2
	q := telemetry(1, 1, []int{sPos}, false)
	rt.Assume(q.pid != p.pid)
	d := w.add(q.wire)
	for w.stepOf(d.id) {
	}
	rt.Cover("stalled")
	checkAnswers(d.out, []*want{q})
	rt.Assert(d.closed, "a connection is served while another stands still")
	rt.Assert(!c.closed || c.ended, "the stalled connection is not disturbed")
	w.finish()
}

// VerifCrowd: many connections stay open, idle, in the middle of a packet or broken off; a new one is served.
func VerifCrowd() {
	w := newWorld(0)
	n := rt.Param("n", 100)
	var cs []*conn
	var ps []*want
	plain = 1
	for i := 0; i < n; i++ {
		fixedOID = 1
		p := &want{answer: true, pid: uint16(i)}
		p.packet = uint32(p.pid)
		body := p.addWide(70007, 1, []int{sPos}, 1, -1)
		p.wire = cm.Frame(frameHeader(p.pid, 1, false), false, body)
		var c *conn
		switch i % 4 {
		case 0:
			c = w.add()
		case 1:
			c = w.add(p.wire[:5+i%20])
		case 2:
			c = w.add(p.wire)
			ps = append(ps, p)
		default:
			c = w.add(p.wire[:5+i%20])
			c.broken = true
		}
		c.idle = i%4 != 3
		cs = append(cs, c)
	}
	plain = 0
	fixedOID = 2
	q := telemetry(1, 1, []int{sPos}, false)
	d := w.add(q.wire)
	w.run()
	rt.WaitIdle()
	rt.Cover("crowd")
	checkAnswers(d.out, []*want{q})
	rt.Assert(d.closed, "a connection is served while many others are open")
	for i, c := range cs {
		if i%4 == 2 {
			checkAnswers(c.out, ps[i/4:i/4+1])
		}
		rt.Assert(c.closed == c.broken, "connections stay open until they end")
	}
	rt.Assert(len(w.rec.recs) == len(ps)+1, "each connection's telemetry is stored once")
	w.finish()
}

// VerifAuth: a peer that introduces itself gets a result code once, and what follows is telemetry as usual.
func VerifAuth() {
	w := newWorld(0)
	ps := []*want{telemetry(1, 1, []int{[]int{sAuth, sTerm}[rt.Choose("intro", 2)]}, false)}
	if rt.Param("with", 0) == 1 {
		// the identity and a position in one packet
		ps[0] = telemetry(1, 2, []int{sTerm, sPos}, false)
	}
	ps = append(ps, telemetry(1, 1, []int{sPos}, false))
	if rt.Param("again", 0) == 1 {
		ps = append(ps, telemetry(1, 1, []int{sAuth}, false))
	}
	var segs [][]byte
	for _, p := range ps {
		segs = append(segs, p.wire)
	}
	c := w.add(segs...)
	w.run()
	rt.WaitIdle()
	rt.Cover("introduced")
	checkStored(w, ps)
	checkAnswers(c.out, ps)
	w.finish()
}
