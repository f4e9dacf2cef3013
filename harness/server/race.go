package server

import (
	"io"
	"net"
	"time"

	srv "github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	log "github.com/sirupsen/logrus"
)

// freeConn and freeLis synchronise nothing, as different sockets do not.
type freeConn struct {
	in     []byte
	piece  int
	out    [][]byte
	closed bool
}

func (c *freeConn) Read(p []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(c.in)
	if c.piece > 0 && n > c.piece {
		n = c.piece
	}
	n = copy(p, c.in[:n])
	rt.Writes(p[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *freeConn) Write(p []byte) (int, error) {
	rt.Reads(p)
	c.out = append(c.out, append([]byte(nil), p...))
	return len(p), nil
}

func (c *freeConn) Close() error {
	if !c.closed {
		c.closed = true
		rt.Busy(-1)
	}
	return nil
}

func (c *freeConn) LocalAddr() net.Addr                { return addr("127.0.0.1:6000") }
func (c *freeConn) RemoteAddr() net.Addr               { return addr("127.0.0.1:40000") }
func (c *freeConn) SetDeadline(t time.Time) error      { return nil }
func (c *freeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *freeConn) SetWriteDeadline(t time.Time) error { return nil }

type freeLis struct {
	conns []*freeConn
	next  int
}

func (l *freeLis) Accept() (net.Conn, error) {
	if l.next < len(l.conns) {
		l.next++
		return l.conns[l.next-1], nil
	}
	for {
		rt.Park()
	}
}

func (l *freeLis) Close() error   { return nil }
func (l *freeLis) Addr() net.Addr { return addr("127.0.0.1:6000") }

// freeStore is done with a record at once.
type freeStore struct{}

func (freeStore) Save(m interface{ ToBytes() ([]byte, error) }) error { return nil }

// VerifRace: the goroutines of different connections access nothing in common without synchronisation.
func VerifRace() {
	w := newWorld(0)
	cur = w
	l := &freeLis{}
	w.free = l
	ks := kindList()
	for i := 0; i < rt.Param("conns", 2); i++ {
		plain = uint32(i + 1)
		var ps []*want
		for k := range ks {
			p := &want{answer: true, pid: uint16(k)}
			if k == len(ks)/2 {
				p.pid = symPid()
			}
			body := p.addWide(uint32(i+1), 1, ks[k:k+1], k, -1)
			ps = append(ps, p)
			p.wire = cm.Frame(frameHeader(p.pid, 1, k%3 == 2), k%3 == 2, body)
		}
		for k := 0; k < oKinds; k++ {
			ps = append(ps, special(k))
		}
		plain = 0
		ps = append(ps, telemetry(1, 1, []int{sPos}, false))
		l.conns = append(l.conns, &freeConn{in: concat(ps), piece: rt.Param("piece", 0)})
	}
	repo := storage.NewRepository()
	repo.AddStore(freeStore{})
	repo.AddStore(freeStore{})
	s := srv.New("127.0.0.1:6000", time.Duration(rt.Param("ttl", 0))*time.Second, repo)
	// the logger's lock would order the connections
	log.SetLevel(log.PanicLevel)
	rt.Busy(len(l.conns))
	rt.Race(true)
	go s.Run()
	rt.WaitIdle()
	rt.Cover("race")
	for _, c := range l.conns {
		rt.Assert(c.closed, "each connection is closed by its own peer's end")
	}
}
