package storage

import (
	"errors"
	"math"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/internal/verifh/logcap"
	sl "github.com/ElectroUnion/egts-gate/internal/verifh/storelib"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

type stub struct {
	got  []interface{ ToBytes() ([]byte, error) }
	fail []bool
	err  error
	// order, when set, notes who was called
	order *[]*stub
}

func (s *stub) Save(m interface{ ToBytes() ([]byte, error) }) error {
	s.got = append(s.got, m)
	if s.order != nil {
		*s.order = append(*s.order, s)
	}
	k := len(s.got) - 1
	if k < len(s.fail) && s.fail[k] {
		return s.err
	}
	return nil
}

// VerifFanOut: every store of the repository gets every record once, failing ones notwithstanding.
func VerifFanOut() {
	n := rt.Choose("stores", rt.Param("n", 4)+1)
	k := rt.Param("saves", 2)
	repo := storage.NewRepository()
	other := storage.NewRepository()
	var stubs, order []*stub
	for i := 0; i < n; i++ {
		s := &stub{err: errors.New("store " + string([]byte{byte('0' + i)})), order: &order}
		for j := 0; j < k; j++ {
			s.fail = append(s.fail, rt.Bool("fails"))
		}
		stubs = append(stubs, s)
		repo.AddStore(s)
	}
	far := &stub{}
	other.AddStore(far)
	for j := 0; j < k; j++ {
		m := &msg{body: []byte{byte(j)}}
		err := repo.Save(m)
		var want error
		for i := n - 1; i >= 0; i-- {
			if stubs[i].fail[j] {
				want = stubs[i].err
			}
		}
		rt.Assert((err == nil) == (want == nil), "saving fails exactly when a store does")
		rt.Assert(err == want, "the first failure is reported")
		for i := 0; i < n; i++ {
			rt.Assert(len(stubs[i].got) == j+1 && stubs[i].got[j] == m, "every store gets the record, once")
			rt.Assert(len(order) == n*(j+1) && order[n*j+i] == stubs[i], "the stores are served in order")
		}
		rt.Emit("saved", rt.B2U(err != nil))
	}
	rt.Assert(len(far.got) == 0, "another repository's stores get nothing")
	rt.Cover("fan out")
}

func section(kind int) map[string]string {
	cfg := map[string]string{}
	for _, f := range fields[kind] {
		cfg[f.name] = f.def
	}
	return cfg
}

// VerifSelect: each section of the configuration opens the store of its name with its own parameters.
func VerifSelect() {
	w := sl.New()
	limit := rt.Param("max", 3)
	cfg := map[string]map[string]string{}
	var kinds []int
	failing := -1
	mask := rt.Choose("sections", 1<<sl.Kinds)
	for k := 0; k < sl.Kinds; k++ {
		if mask>>uint(k)&1 == 1 {
			kinds = append(kinds, k)
			cfg[sl.Names[k]] = section(k)
		}
	}
	if len(kinds) > limit {
		rt.Assume(false)
	}
	unknown := rt.Choose("unknown", 2) == 1
	if unknown {
		cfg["mysql"] = map[string]string{"host": "h"}
	}
	if len(kinds) > 0 {
		failing = rt.Choose("failing", len(kinds)+1) - 1
	}
	broken := rt.Choose("how", 2)
	if failing < 0 && broken == 1 {
		rt.Assume(false)
	}
	if failing >= 0 {
		k := kinds[failing]
		if broken == 0 {
			w.FailAt[k] = 1
			if k == sl.Redis {
				delete(cfg["redis"], "server")
			}
		} else {
			cfg[sl.Names[k]] = nil
		}
	}
	repo := storage.NewRepository()
	err := repo.LoadStorages(cfg)
	rt.Emit("load", rt.B2U(err != nil))
	switch {
	case len(cfg) == 0:
		rt.Assert(err == storage.InvalidStorage, "no section is an error of its own")
		rt.Cover("none")
		return
	case unknown && failing < 0:
		rt.Assert(err == storage.UnknownStorage, "an unknown store is an error of its own")
		rt.Cover("unknown")
		return
	case unknown || failing >= 0:
		rt.Assert(err != nil, "a store that cannot be opened is an error")
		rt.Cover("failing")
		return
	}
	rt.Assert(err == nil, "known stores that can be reached are loaded")
	rt.Assert(len(w.Links) == len(kinds), "each section opens one store")
	if err != nil || len(w.Links) != len(kinds) {
		return
	}
	for _, k := range kinds {
		ls := w.Of(k)
		rt.Assert(len(ls) == 1, "each section opens its store")
		if len(ls) == 1 {
			wellConnected(k, ls[0], section(k))
		}
	}
	m := &msg{body: rt.Bytes("body", 2)}
	rt.Assert(repo.Save(m) == nil, "the record is saved")
	rt.Assert(len(w.Puts) == len(kinds), "each store gets the record once")
	for i, p := range w.Puts {
		seen := 0
		for _, q := range w.Puts {
			if q.Link == p.Link {
				seen++
			}
		}
		rt.Assert(seen == 1, "each store gets the record once")
		published(w, i, p.Link.Kind, section(p.Link.Kind), m.body)
	}
	rt.Assert(w.Other == "", "the store libraries are used as intended")
	rt.Cover("loaded")
}

// VerifName: one section of any name.
func VerifName() {
	w := sl.New()
	n := []int{3, 4, 5, 8, 10, 15, 1, 2, 6}[rt.Choose("len", 9)]
	name := rt.String("name", n)
	// parameters that suit every store
	cfg := map[string]string{}
	for _, fs := range fields {
		for _, f := range fs {
			cfg[f.name] = f.def
		}
	}
	repo := storage.NewRepository()
	err := repo.LoadStorages(map[string]map[string]string{name: cfg})
	kind := -1
	for k, s := range sl.Names {
		if s == name {
			kind = k
		}
	}
	if kind < 0 {
		rt.Assert(err == storage.UnknownStorage, "any other name is unknown")
		rt.Assert(len(w.Links) == 0, "an unknown name opens nothing")
		rt.Cover("unknown")
		return
	}
	rt.Assert(err == nil && len(w.Links) == 1, "a known name opens one store")
	rt.Assert(len(w.Links) == 1 && w.Links[0].Kind == kind, "a known name opens its store")
	rt.Cover("known")
}

func finite(name string) float64 {
	f := rt.F64(name)
	rt.Assume(!math.IsNaN(f) && !math.IsInf(f, 0))
	return f
}

func text(name string, n int) string {
	s := rt.String(name, rt.Choose("len", n+1))
	for i := 0; i < len(s); i++ {
		rt.Assume(s[i] < 0x80)
	}
	return s
}

// degrees is any coordinate, or one with all its digits in use.
func degrees(name string) float64 {
	if rt.Choose("digits", 2) == 1 {
		return -55.55389399769574
	}
	return finite(name)
}

func arbitraryRecord() *storage.NavRecord {
	n := rt.Param("n", 1)
	r := &storage.NavRecord{ServerID: text("sid", 1), IMEI: text("imei", 2), ClientID: rt.U32("cid"), ReceivedDt: text("rdt", 1),
		PacketID: rt.U32("pid"), NavigationTimestamp: int64(rt.U64("nav")), LocStatesCount: int32(rt.U32("cnt"))}
	for i := rt.Choose("an", n+1); i > 0; i-- {
		r.AnSensors = append(r.AnSensors, storage.AnSensor{SensorNumber: rt.Byte("ann"), Value: rt.U32("anv")})
	}
	for i := rt.Choose("liq", n+1); i > 0; i-- {
		r.LiquidSensors = append(r.LiquidSensors, storage.LiquidSensor{SensorNumber: rt.Byte("ln"), ModuleNumber: rt.U16("lm"), ErrorFlag: text("le", 1),
			ValueUnit: "01", ValueMm: rt.U32("lmm"), ValueL: finite("ll")})
	}
	for i := rt.Choose("loc", n+1); i > 0; i-- {
		r.LocStates = append(r.LocStates, storage.LocState{Latitude: degrees("lat"), Longitude: degrees("lng"), Speed: rt.U16("spd"), NavigationDt: "2021-12-16T09:12:00Z"})
	}
	return r
}

// exported checks the document against the record.
func exported(b []byte, r *storage.NavRecord) {
	d, err := sl.Read(b)
	rt.Assert(err == nil, "the exported record is one JSON document")
	if err != nil {
		return
	}
	rt.Assert(d.Str("server_id", r.ServerID), "server_id")
	rt.Assert(d.Str("IMEI", r.IMEI), "IMEI")
	rt.Assert(d.Int("client_id", uint64(r.ClientID)), "client_id")
	rt.Assert(d.Str("received_dt", r.ReceivedDt), "received_dt")
	rt.Assert(d.Int("packet_id", uint64(r.PacketID)), "packet_id")
	rt.Assert(d.Int("navigation_unix_time", uint64(r.NavigationTimestamp)), "navigation_unix_time")
	rt.Assert(d.Int("loc_states_count", uint64(int64(r.LocStatesCount))), "loc_states_count")
	an, ok := d.List("an_sensors")
	rt.Assert(ok && len(an) == len(r.AnSensors), "an_sensors")
	for i, e := range an {
		if i < len(r.AnSensors) {
			s := r.AnSensors[i]
			rt.Assert(e.Int("sensor_number", uint64(s.SensorNumber)) && e.Int("value", uint64(s.Value)), "analog sensor")
		}
	}
	lq, ok := d.List("liquid_sensors")
	rt.Assert(ok && len(lq) == len(r.LiquidSensors), "liquid_sensors")
	for i, e := range lq {
		if i < len(r.LiquidSensors) {
			s := r.LiquidSensors[i]
			rt.Assert(e.Int("sensor_number", uint64(s.SensorNumber)) && e.Int("module_number", uint64(s.ModuleNumber)) && e.Str("error_flag", s.ErrorFlag), "liquid sensor identity")
			rt.Assert(e.Str("value_unit", s.ValueUnit) && e.Int("value_mm", uint64(s.ValueMm)) && e.Float("value_l", s.ValueL), "liquid sensor value")
		}
	}
	ls, ok := d.List("loc_states")
	rt.Assert(ok && len(ls) == len(r.LocStates), "loc_states")
	for i, e := range ls {
		if i < len(r.LocStates) {
			s := r.LocStates[i]
			rt.Assert(e.Float("lat", s.Latitude) && e.Float("lng", s.Longitude), "coordinates")
			rt.Assert(e.Int("speed", uint64(s.Speed)) && e.Str("navigation_dt", s.NavigationDt), "speed and time")
		}
	}
}

// VerifFanRun: one store fails for some time while records keep coming.
func VerifFanRun() {
	n, k := rt.Param("n", 3), rt.Param("saves", 12)
	repo := storage.NewRepository()
	bad := rt.Choose("failing store", n)
	from := rt.Choose("from", k)
	to := from + rt.Choose("for", k-from+1)
	var stubs []*stub
	for i := 0; i < n; i++ {
		s := &stub{err: errors.New("store failed")}
		for j := 0; j < k; j++ {
			s.fail = append(s.fail, i == bad && j >= from && j < to)
		}
		stubs = append(stubs, s)
		repo.AddStore(s)
	}
	for j := 0; j < k; j++ {
		m := &msg{body: []byte{byte(j)}}
		err := repo.Save(m)
		rt.Assert((err != nil) == (j >= from && j < to), "saving fails exactly when a store does")
		for i := 0; i < n; i++ {
			rt.Assert(len(stubs[i].got) == j+1 && stubs[i].got[j] == m, "every store gets the record, once")
		}
	}
	rt.Cover("fan run")
}

// VerifExport: the record's bytes are a JSON document of all its values, and making it changes nothing.
func VerifExport() {
	r := arbitraryRecord()
	c := cloneRec(r)
	b, err := r.ToBytes()
	rt.Assert(err == nil, "every record can be exported")
	if err == nil {
		exported(b, &c)
	}
	b2, err := r.ToBytes()
	rt.Assert(err == nil, "exporting again works")
	if err == nil {
		exported(b2, &c)
	}
	exported(b, &c)
	// a record that has changed since is exported as it is now
	r.ClientID, r.PacketID, r.NavigationTimestamp = rt.U32("cid"), rt.U32("pid"), int64(rt.U64("nav"))
	if len(r.LocStates) > 0 {
		r.LocStates[0].Speed = rt.U16("spd")
	}
	r.LocStates = append(r.LocStates, storage.LocState{Latitude: 1.5, Longitude: 2.5, Speed: rt.U16("spd"), NavigationDt: "2021-12-16T09:12:00Z"})
	r.LocStatesCount++
	r.AnSensors = nil
	d := cloneRec(r)
	b3, err := r.ToBytes()
	rt.Assert(err == nil, "exporting a changed record works")
	if err == nil {
		exported(b3, &d)
	}
	// the bytes made before are still what they were
	exported(b, &c)
	exported(b2, &c)
	rt.Cover("exported")
}

func cloneRec(n *storage.NavRecord) storage.NavRecord {
	c := *n
	c.AnSensors = append([]storage.AnSensor(nil), n.AnSensors...)
	c.LiquidSensors = append([]storage.LiquidSensor(nil), n.LiquidSensors...)
	c.LocStates = append([]storage.LocState(nil), n.LocStates...)
	return c
}

// VerifPrint: without a store, records are printed.
func VerifPrint() {
	logcap.Reset()
	c := storage.LogConnector{}
	rt.Assert(c.Init(nil) == nil, "printing needs no configuration")
	r := arbitraryRecord()
	k := cloneRec(r)
	rt.Assert(c.Save(r) == nil, "printing works")
	texts := logcap.Objects()
	for _, s := range texts {
		exported([]byte(s), &k)
	}
	rt.Assert(len(texts) == 1, "the record is printed once")
	rt.Assert(c.Close() == nil, "closing works")
	rt.Cover("printed")
}
