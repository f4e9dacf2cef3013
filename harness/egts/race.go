package egts

import (
	cm "github.com/ElectroUnion/egts-gate/internal/verifh/common"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	eg "github.com/ElectroUnion/egts-gate/libs/egts"
)

type racing struct {
	in   []byte
	p, q eg.Package
	subs []sub
	ok   bool
}

func (r *racing) run() {
	r.ok = true
	out, err := r.p.Encode()
	r.ok = r.ok && err == nil && len(out) == len(r.in)
	_, err = r.q.Decode(r.in)
	r.ok = r.ok && err == nil
	for i := range r.subs {
		s := r.subs[i]
		b, err := s.v.Encode()
		r.ok = r.ok && err == nil && len(b) == len(s.wire)
		r.ok = r.ok && s.fresh().Decode(b) == nil
	}
	bad := append([]byte(nil), r.in...)
	bad[len(bad)-1] ^= 1
	var p eg.Package
	_, err = p.Decode(bad)
	r.ok = r.ok && err != nil
	rt.Busy(-1)
}

// VerifRace: goroutines that encode and decode values of their own access nothing in common without synchronisation.
func VerifRace() {
	var all []*racing
	n := rt.Param("n", 2)
	for i := 0; i < n; i++ {
		plain = uint32(i + 1)
		if rt.Param("sym", 0) == 1 {
			plain = 0
		}
		r := &racing{}
		var ks []int
		for k := 0; k < nSmall; k++ {
			ks = append(ks, k)
			r.subs = append(r.subs, mkSmall(k))
		}
		one := mkRec(1, 1, 1, ks, true)
		set, wire := eg.ServiceDataSet{one.v}, one.wire
		route := i%2 == 1
		p, h := symHeader(route)
		h.PT, p.PacketType = 1, 1
		p.ServicesFrameData = &set
		if i == n-1 {
			h.PT, p.PacketType = 0, 0
			p.ServicesFrameData = &eg.PtResponse{ResponsePacketID: 5, SDR: &set}
			wire = cm.Cat([]byte{5, 0, 0}, wire)
		}
		r.in, r.p = cm.Frame(h, route, wire), p
		all = append(all, r)
	}
	rt.Busy(n)
	rt.Race(true)
	for _, r := range all {
		go r.run()
	}
	rt.WaitIdle()
	rt.Cover("race")
	for _, r := range all {
		rt.Assert(r.ok, "each goroutine's own values are encoded and decoded")
	}
}
