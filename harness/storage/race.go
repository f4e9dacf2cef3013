package storage

import (
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	sl "github.com/ElectroUnion/egts-gate/internal/verifh/storelib"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	log "github.com/sirupsen/logrus"
)

type free struct{}

func (free) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	rt.Reads(b)
	return err
}

// VerifRace: saving records of different connections at the same time accesses nothing in common without
// synchronisation, in the repository (kind 6), in printing (kind 7) and in each connector.
func VerifRace() {
	kind := rt.Param("kind", 0)
	sl.New()
	repo := storage.NewRepository()
	switch kind {
	case 6:
		repo.AddStore(free{})
		repo.AddStore(free{})
	case 7:
		repo.AddStore(storage.LogConnector{})
	default:
		st := newStore(kind)
		if err := st.Init(section(kind)); err != nil {
			rt.Assert(false, "a store that can be reached is opened")
			return
		}
		repo.AddStore(st)
	}
	log.SetLevel(log.PanicLevel)
	n := rt.Param("n", 2)
	var errs = make([]error, n)
	rt.Busy(n)
	rt.Race(true)
	for i := 0; i < n; i++ {
		i := i
		var m interface{ ToBytes() ([]byte, error) } = &msg{body: []byte{byte(i), 2, 3}}
		if rt.Param("nav", 0) == 1 {
			m = &storage.NavRecord{PacketID: uint32(i)}
		}
		go func() {
			errs[i] = repo.Save(m)
			errs[i] = repo.Save(m)
			rt.Busy(-1)
		}()
	}
	rt.WaitIdle()
	rt.Cover("race")
	for i := range errs {
		rt.Assert(errs[i] == nil, "each record is saved")
	}
}
