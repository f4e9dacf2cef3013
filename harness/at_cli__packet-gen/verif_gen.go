package main

import (
	"context"
	"errors"
	"io"
	vnet "net"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/internal/verifh/cliflags"
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	"github.com/ElectroUnion/egts-gate/internal/verifh/logcap"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

// verifPeer is the server the generator talks to. Natively it is a real one on the loopback.
type verifPeer struct {
	mu        sync.Mutex
	addrs     []string
	noResolve bool
	noDial    bool
	noWrite   bool
	// segs are sent once the packet has come
	segs [][]byte
	// silent: nothing more is sent after them, and the connection stays open
	silent bool
	sent   []byte
	early  bool
	dials  int
	dialAt time.Time
	rdl    time.Time
	hang   bool
	late   bool
	soon   bool
	wait   time.Duration
	closed bool

	conn   *vnet.TCPConn
	ln     vnet.Listener
	done   chan bool
	finish chan bool
}

var verifP *verifPeer

//verif:redirect net.ResolveTCPAddr
func VerifResolve(network, address string) (*vnet.TCPAddr, error) {
	verifP.addrs = append(verifP.addrs, address)
	if verifP.noResolve {
		return nil, errors.New("no such host")
	}
	return &vnet.TCPAddr{IP: vnet.IP{127, 0, 0, 1}, Port: 1}, nil
}

func (p *verifPeer) dial() (*vnet.TCPConn, error) {
	p.dials++
	p.dialAt = time.Now()
	if p.noDial {
		return nil, errors.New("connection refused")
	}
	if rt.Symbolic() {
		return &vnet.TCPConn{}, nil
	}
	l, err := vnet.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p.ln = l
	p.done, p.finish = make(chan bool), make(chan bool)
	go p.serve()
	c, err := vnet.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	p.conn = c.(*vnet.TCPConn)
	if p.noWrite {
		p.conn.Close()
	}
	return p.conn, nil
}

// serve is the native peer.
func (p *verifPeer) serve() {
	defer close(p.done)
	c, err := p.ln.Accept()
	if err != nil {
		return
	}
	defer c.Close()
	h := make([]byte, 10)
	n, err := io.ReadFull(c, h)
	p.mu.Lock()
	p.sent = append(p.sent, h[:n]...)
	p.mu.Unlock()
	if err == nil {
		b := make([]byte, int(h[3])-10+int(h[5])+int(h[6])<<8+2)
		n, err = io.ReadFull(c, b)
		p.mu.Lock()
		p.sent = append(p.sent, b[:n]...)
		p.mu.Unlock()
	}
	if err == nil {
		for _, s := range p.segs {
			c.Write(s)
			time.Sleep(3 * time.Millisecond)
		}
	}
	if p.silent {
		<-p.finish
	}
	// whatever else was sent
	c.(*vnet.TCPConn).CloseWrite()
	c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
	rest := make([]byte, 4096)
	n, _ = c.Read(rest)
	p.mu.Lock()
	p.sent = append(p.sent, rest[:n]...)
	p.mu.Unlock()
}

func (p *verifPeer) end() {
	if rt.Symbolic() || p.ln == nil {
		return
	}
	close(p.finish)
	p.ln.Close()
	<-p.done
	p.conn.Close()
}

//verif:redirect net.DialTCP
func VerifDialTCP(network string, laddr, raddr *vnet.TCPAddr) (*vnet.TCPConn, error) {
	return verifP.dial()
}

//verif:redirect net.Dial
func VerifDial(network, address string) (vnet.Conn, error) {
	verifP.addrs = append(verifP.addrs, address)
	if verifP.noResolve {
		return nil, errors.New("no such host")
	}
	c, err := verifP.dial()
	if err != nil {
		return nil, err
	}
	return c, nil
}

//verif:redirect net.DialTimeout
func VerifDialTimeout(network, address string, d time.Duration) (vnet.Conn, error) {
	return VerifDial(network, address)
}

//verif:redirect (*net.Dialer).Dial
func VerifDialerDial(d *vnet.Dialer, network, address string) (vnet.Conn, error) {
	return VerifDial(network, address)
}

//verif:redirect (*net.Dialer).DialContext
func VerifDialContext(d *vnet.Dialer, ctx context.Context, network, address string) (vnet.Conn, error) {
	return VerifDial(network, address)
}

// the receiver is of an unexported type, and left out
//
//verif:model (*net.conn).Write
func VerifWrite(b []byte) (int, error) {
	p := verifP
	if p.noWrite || p.closed {
		return 0, errors.New("broken pipe")
	}
	p.sent = append(p.sent, b...)
	return len(b), nil
}

//verif:model (*net.conn).Read
func VerifRead(b []byte) (int, error) {
	p := verifP
	if p.closed {
		return 0, vnet.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.sent) == 0 {
		p.early = true
	}
	if !p.rdl.IsZero() {
		left := p.rdl.Sub(p.dialAt)
		if left > p.wait {
			p.late = true
		}
		if left < p.wait {
			p.soon = true
		}
		if !time.Now().Before(p.rdl) {
			return 0, verifTimeout{}
		}
	}
	for len(p.segs) > 0 && len(p.segs[0]) == 0 {
		p.segs = p.segs[1:]
	}
	if len(p.segs) > 0 {
		n := copy(b, p.segs[0])
		p.segs[0] = p.segs[0][n:]
		return n, nil
	}
	if p.silent {
		if p.rdl.IsZero() {
			p.hang = true
		} else {
			rt.Advance(int64(p.rdl.Sub(time.Now())))
		}
		return 0, verifTimeout{}
	}
	return 0, io.EOF
}

type verifTimeout struct{}

func (verifTimeout) Error() string   { return "i/o timeout" }
func (verifTimeout) Timeout() bool   { return true }
func (verifTimeout) Temporary() bool { return true }

//verif:model (*net.conn).SetReadDeadline
func VerifSetReadDeadline(t time.Time) error {
	verifP.rdl = t
	return nil
}

//verif:model (*net.conn).SetDeadline
func VerifSetDeadline(t time.Time) error {
	verifP.rdl = t
	return nil
}

//verif:model (*net.conn).SetWriteDeadline
func VerifSetWriteDeadline(t time.Time) error { return nil }

//verif:model (*net.conn).Close
func VerifClose() error {
	verifP.closed = true
	return nil
}

type verifTime struct {
	text string
	// sec since 2010; ok: it can be sent
	sec uint32
	ok  bool
}

var verifTimes = []verifTime{{"2021-12-16T09:12:00Z", 377341920, true}, {"2021-12-16T12:12:00+03:00", 377341920, true}, {"2010-01-01T00:00:00Z", 0, true},
	{"2009-12-31T23:59:59Z", 0, false}, {"16.12.2021", 0, false}, {"", 0, false}, {"2146-02-07T06:28:15Z", 4294967295, true}, {"2146-02-07T06:28:16Z", 0, false}}

var verifCoords = []float64{0, 45, 60.344, -45.5, 89.999999, -0.000001, 90, -90, 90.5, -91, 120.25, -179.75, 180.001}

// verifSent checks the packet against what was asked for.
func verifSent(b []byte, pid, oid, liq int, sec uint32, lat, lon float64) {
	rt.Assert(len(b) > 13, "a packet is sent")
	if len(b) <= 13 {
		return
	}
	rt.Assert(b[0] == 1 && b[3] == 11, "the packet has the plain header")
	n := int(rt.Concrete(int(b[5]) | int(b[6])<<8))
	rt.Assert(len(b) == 13+n, "exactly one packet is sent")
	if len(b) != 13+n {
		return
	}
	rt.Assert(b[10] == cm.CRC8(b[:10]), "the header checksum is right")
	body := b[11 : 11+n]
	c := cm.CRC16(body)
	rt.Assert(rt.And(b[11+n] == byte(c), b[12+n] == byte(c>>8)), "the body checksum is right")
	rt.Assert(int(b[7])|int(b[8])<<8 == pid, "the packet identifier is the requested one")
	rt.Assert(b[9] == 1, "the packet carries application data")
	// record
	rl := rt.Concrete(int(body[0]) | int(body[1])<<8)
	fl := rt.Concrete(int(body[4]))
	i := 5
	rt.Assert(fl&1 == 1, "the record names the object")
	o := int(body[i]) | int(body[i+1])<<8 | int(body[i+2])<<16 | int(body[i+3])<<24
	rt.Assert(o == oid, "the object identifier is the requested one")
	i += 4
	if fl&2 != 0 {
		i += 4
	}
	if fl&4 != 0 {
		i += 4
	}
	rt.Assert(rt.And(body[i] == 2, body[i+1] == 2), "the record is for the telemetry service")
	i += 2
	rt.Assert(i+rl == len(body), "exactly one record is sent")
	pos, liquid := 0, 0
	for i+3 <= len(body) {
		t, l := rt.Concrete(int(body[i])), rt.Concrete(int(body[i+1])|int(body[i+2])<<8)
		if i+3+l > len(body) {
			rt.Assert(false, "subrecords fill the record")
			return
		}
		d := body[i+3 : i+3+l]
		switch t {
		case 16:
			pos++
			rt.Assert(l >= 21, "the position is complete")
			s := uint32(d[0]) | uint32(d[1])<<8 | uint32(d[2])<<16 | uint32(d[3])<<24
			rt.Assert(s == sec, "the time is the requested one")
			la := uint32(d[4]) | uint32(d[5])<<8 | uint32(d[6])<<16 | uint32(d[7])<<24
			lo := uint32(d[8]) | uint32(d[9])<<8 | uint32(d[10])<<16 | uint32(d[11])<<24
			rt.Emit("pos", uint64(s), uint64(la), uint64(lo), uint64(d[12]))
			rt.Assert(verifClose(la, lat/90), "the latitude is the requested one")
			rt.Assert(verifClose(lo, lon/180), "the longitude is the requested one")
			rt.Assert(d[12]&1 == 1, "the position is valid")
			rt.Assert((d[12]&0x20 != 0) == (lat < 0), "the hemisphere of the latitude is the requested one")
			rt.Assert((d[12]&0x40 != 0) == (lon < 0), "the hemisphere of the longitude is the requested one")
		case 27:
			liquid++
			rt.Assert(l == 7, "the liquid level is complete")
			v := int(d[3]) | int(d[4])<<8 | int(d[5])<<16 | int(d[6])<<24
			rt.Assert(v == liq, "the liquid level is the requested one")
			rt.Emit("liq", uint64(v))
			rt.Assert(d[0]&7 == 1, "the liquid level is of the first sensor")
		}
		i += 3 + l
	}
	rt.Assert(pos == 1 && liquid == 1, "one position and one liquid level are sent")
	for _, v := range b {
		rt.Emit("sent", uint64(v))
	}
}

func verifClose(code uint32, frac float64) bool {
	if frac < 0 {
		frac = -frac
	}
	d := float64(code) - frac*4294967295
	return d < 2 && d > -2
}

func verifArgs(pid, oid, liq int, ts string, lat, lon float64, timeout int, server string) []cliflags.Arg {
	a := []cliflags.Arg{{Name: "pid", Kind: 'i', I: pid}, {Name: "oid", Kind: 'i', I: oid}, {Name: "time", Kind: 's', S: ts}, {Name: "lat", Kind: 'f', F: lat},
		{Name: "lon", Kind: 'f', F: lon}, {Name: "liquid", Kind: 'i', I: liq}}
	if timeout >= 0 {
		a = append(a, cliflags.Arg{Name: "timeout", Kind: 'i', I: timeout})
	}
	if server != "" {
		a = append(a, cliflags.Arg{Name: "server", Kind: 's', S: server})
	}
	return a
}

func verifAck(pid, rpid uint16, pr byte, subs ...[]byte) []byte {
	return cm.Packet(pid, 0, cm.Cat(cm.New().U16(rpid).U8(pr).Bytes(), cm.Record(rt.U16("rn"), 0, nil, nil, nil, 2, 2, subs...)))
}

func verifRun(p *verifPeer, args []cliflags.Arg) int {
	verifP = p
	logcap.Reset()
	code := cliflags.Run(main, args...)
	p.end()
	rt.Emit("exit", uint64(code))
	return code
}

// VerifRequest: any request is either sent as it is or refused.
func VerifRequest() {
	pid, oid, liq := int(rt.U64("pid")), int(rt.U64("oid")), int(rt.U64("liquid"))
	ts := verifTimes[rt.Choose("time", len(verifTimes))]
	lat, lon := 45.0, 60.344
	if i := rt.Choose("coord", 2*len(verifCoords)+1); i < len(verifCoords) {
		lat = verifCoords[i]
	} else if i < 2*len(verifCoords) {
		lon = verifCoords[i-len(verifCoords)]
	}
	server := ""
	if rt.Choose("server", 2) == 1 {
		server = "h:" + rt.String("srv", 2)
	}
	p := &verifPeer{wait: 5 * time.Second}
	p.segs = [][]byte{verifAck(7, uint16(pid), 0, cm.Sub(0, cm.New().U16(1).U8(0).Bytes()))}
	code := verifRun(p, verifArgs(pid, oid, liq, ts.text, lat, lon, -1, server))
	good := rt.And(pid >= 1, pid <= 65535, oid >= 1, oid <= 4294967295, liq >= 0, liq <= 4294967295)
	fits := ts.ok && lat >= -90 && lat <= 90 && lon >= -180 && lon <= 180
	if !fits {
		rt.Assert(code != 0 && len(p.sent) == 0, "what cannot be sent is refused")
		rt.Cover("refused")
		return
	}
	rt.Assert(rt.Implies(rt.And(pid == 0), code != 0), "a packet identifier is required")
	if code != 0 {
		rt.Assert(!good, "a request that can be sent succeeds")
		rt.Cover("refused")
		return
	}
	rt.Assert(good, "what cannot be sent is refused")
	if server == "" {
		server = "localhost:5555"
	}
	rt.Assert(len(p.addrs) == 1 && rt.EqStr(p.addrs[0], server), "the packet goes to the requested server")
	rt.Assert(p.dials == 1 && !p.early, "the packet is sent once, before the answer is read")
	verifSent(p.sent, pid, oid, liq, ts.sec, lat, lon)
	rt.Cover("sent")
}

// VerifMissing: the required arguments are required.
func VerifMissing() {
	a := verifArgs(1, 2, 3, "2021-12-16T09:12:00Z", 1, 2, -1, "")
	k := rt.Choose("missing", 7)
	var b []cliflags.Arg
	for i, v := range a {
		if i != k {
			b = append(b, v)
		}
	}
	p := &verifPeer{wait: 5 * time.Second}
	p.segs = [][]byte{verifAck(7, 1, 0, cm.Sub(0, cm.New().U16(1).U8(0).Bytes()))}
	code := verifRun(p, b)
	if k < 3 {
		rt.Assert(code != 0 && len(p.sent) == 0, "pid, oid and time are required")
		rt.Cover("required")
		return
	}
	rt.Assert(code == 0, "the other arguments are optional")
	lat, lon, liq := 1.0, 2.0, 3
	switch k {
	case 3:
		lat = 0
	case 4:
		lon = 0
	case 5:
		liq = 0
	}
	verifSent(p.sent, 1, 2, liq, 377341920, lat, lon)
	rt.Cover("optional")
}

// VerifAnswer: success is reported exactly when the record was confirmed in time.
func VerifAnswer() {
	pid := rt.U16("pid")
	rt.Assume(pid != 0)
	timeout := []int{-1, 1, 3}[rt.Choose("timeout", 3)]
	p := &verifPeer{wait: 5 * time.Second}
	if timeout > 0 {
		p.wait = time.Duration(timeout) * time.Second
	}
	args := verifArgs(int(pid), 12, 0, "2021-12-16T09:12:00Z", 45, 60.344, timeout, "")
	// what is confirmed
	n := rt.Choose("confirmations", rt.Param("n", 2)+1)
	var subs [][]byte
	confirmed, rejected := false, false
	for i := 0; i < n; i++ {
		crn, st := rt.U16("crn"), rt.Byte("rst")
		subs = append(subs, cm.Sub(0, cm.New().U16(crn).U8(st).Bytes()))
		confirmed = rt.Or(confirmed, rt.And(crn == 1, st == 0))
		rejected = rt.Or(rejected, st != 0)
	}
	rpid, pr := rt.U16("rpid"), rt.Byte("pr")
	ack := verifAck(rt.U16("apid"), rpid, pr, subs...)
	should := rt.And(rpid == pid, pr == 0, confirmed, !rejected)
	shouldNot := rt.Or(rpid != pid, pr != 0, !confirmed, rejected)
	unanswered := false
	switch rt.Choose("peer", 12) {
	case 0:
		p.segs = [][]byte{ack}
	case 10:
		// a long one
		var more [][]byte
		rt.Assume(n == 1)
		for i, m := 0, []int{100, 700}[rt.Choose("more", 2)]; i < m; i++ {
			more = append(more, cm.Sub(0, cm.New().U16(uint16(i+2)).U8(0).Bytes()))
		}
		p.segs = [][]byte{verifAck(rt.U16("apid"), rpid, pr, append(more, subs...)...)}
	case 11:
		// one that was routed
		p.segs = [][]byte{cm.Frame(cm.Header{PRV: 1, Flags: 0x20, PID: rt.U16("apid"), PRA: rt.U16("pra"), RCA: rt.U16("rca"), TTL: rt.Byte("ttl")}, true,
			cm.Cat(cm.New().U16(rpid).U8(pr).Bytes(), cm.Record(rt.U16("rn"), 0, nil, nil, nil, 2, 2, subs...)))}
	case 1:
		// in two parts
		k := rt.Choose("cut", len(ack))
		p.segs = [][]byte{ack[:k], ack[k:]}
	case 2:
		// more follows
		p.segs = [][]byte{cm.Cat(ack, cm.Packet(9, 1, cm.Record(2, 0, nil, nil, nil, 1, 1, cm.Sub(9, []byte{0}))))}
	case 3:
		// the connection ends early
		k := rt.Choose("cut", len(ack))
		p.segs = [][]byte{ack[:k]}
		should, shouldNot = false, true
	case 4:
		// silence, within the ack or after it
		k := rt.Choose("cut", len(ack)+1)
		p.segs = [][]byte{ack[:k]}
		p.silent = true
		if timeout != 1 && k > 0 && k < len(ack) {
			rt.Assume(false)
		}
		if k < len(ack) {
			should, shouldNot, unanswered = false, true, true
		}
	case 5:
		// damaged
		k := 4 + rt.Choose("where", len(ack)-4)
		if k == 5 || k == 6 {
			rt.Assume(false)
		}
		d := rt.Byte("damage")
		rt.Assume(d != 0)
		b := append([]byte(nil), ack...)
		b[k] ^= d
		p.segs = [][]byte{b}
		should, shouldNot = false, true
	case 6:
		// not a confirmation
		p.segs = [][]byte{cm.Packet(9, 1, cm.Record(2, 0, nil, nil, nil, 2, 2, subs...))}
		should, shouldNot = false, true
	case 7:
		// a confirmation of no record
		p.segs = [][]byte{cm.Packet(9, 0, cm.New().U16(rpid).U8(pr).Bytes())}
		should, shouldNot = false, true
	case 8:
		switch rt.Choose("down", 3) {
		case 0:
			p.noResolve = true
		case 1:
			p.noDial = true
		case 2:
			p.noWrite = true
		}
		should, shouldNot = false, true
	case 9:
		// a packet without a body
		p.segs = [][]byte{cm.Packet(9, 0, nil)}
		should, shouldNot = false, true
	}
	start := time.Now()
	code := verifRun(p, args)
	took := time.Since(start)
	rt.Assert(rt.Implies(should, code == 0), "success is reported when the record was confirmed")
	rt.Assert(rt.Implies(shouldNot, code != 0), "failure is reported when the record was not confirmed")
	if rt.Symbolic() {
		rt.Assert(!p.hang && !p.late, "the answer is not awaited for longer than the timeout")
		rt.Assert(!p.soon, "the answer is awaited for the timeout")
	} else if unanswered {
		rt.Assert(took < p.wait+700*time.Millisecond, "the answer is not awaited for longer than the timeout")
		rt.Assert(took > p.wait-100*time.Millisecond, "the answer is awaited for the timeout")
	}
	if code == 0 {
		rt.Cover("confirmed")
	} else {
		rt.Cover("not confirmed")
	}
}
