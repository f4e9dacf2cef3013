// Package storage holds the harnesses for the stores: connectors, fan-out, selection and export format.
package storage

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nats"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nsq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/postgresql"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/rabbitmq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/redis"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/tarantool_queue"
	sl "github.com/ElectroUnion/egts-gate/internal/verifh/storelib"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

func newStore(kind int) storage.Store {
	switch kind {
	case sl.Nats:
		return &nats.Connector{}
	case sl.Nsq:
		return &nsq.Connector{}
	case sl.Postgres:
		return &postgresql.Connector{}
	case sl.Rabbit:
		return &rabbitmq.Connector{}
	case sl.Redis:
		return &redis.Connector{}
	}
	return &tarantool_queue.Connector{}
}

// classes of parameter values
const (
	anyText = iota
	hostName
	portNumber
	tableName
	number
)

type field struct {
	name  string
	class int
	def   string
	// need: without it the store cannot be used
	need bool
}

var fields = [][]field{
	{{"servers", anyText, "nats://a:1,nats://b:2", false}, {"topic", anyText, "topic.t", false}, {"user", anyText, "u-user", false}, {"password", anyText, "p-password", false}},
	{{"server", anyText, "nsq:4150", false}, {"topic", anyText, "nsq.topic", false}},
	{{"host", hostName, "pghost", false}, {"port", portNumber, "5432", false}, {"user", anyText, "pguser", false}, {"password", anyText, "pgpass", false}, {"database", anyText, "pgdb", false}, {"table", tableName, "sch.points", false}, {"sslmode", hostName, "disable", false}},
	{{"host", hostName, "mqhost", false}, {"port", portNumber, "5672", false}, {"user", anyText, "mquser", false}, {"password", anyText, "mqpass", false}, {"exchange", anyText, "exch", false}, {"key", anyText, "routing", false}},
	{{"server", anyText, "redis:6379", true}, {"queue", anyText, "egts", true}, {"password", anyText, "redpass", false}, {"db", number, "3", false}},
	{{"host", hostName, "tthost", false}, {"port", portNumber, "3301", false}, {"user", anyText, "ttuser", false}, {"password", anyText, "ttpass", false}, {"max_recons", number, "5", true}, {"timeout", number, "7", true}, {"reconnect", number, "9", true}, {"queue", anyText, "tube", false}},
}

// value is any value of the class of n characters.
func value(class, n int) string {
	s := rt.String("val", n)
	for i := 0; i < n; i++ {
		c := s[i]
		switch class {
		case anyText:
			rt.Assume(rt.And(c >= 0x20, c < 0x7F))
		case hostName:
			rt.Assume(rt.Or(rt.And(c >= 'a', c <= 'z'), rt.And(c >= '0', c <= '9'), rt.And(rt.Or(c == '-', c == '.'), i > 0)))
		case portNumber:
			rt.Assume(rt.And(c >= '1', c <= '9'))
		case tableName:
			rt.Assume(rt.Or(rt.And(c >= 'a', c <= 'z'), c == '_', c == '.'))
		case number:
			// digits, and what is close to them
			rt.Assume(rt.And(c >= '+', c <= ':'))
		}
	}
	return s
}

// longValue is a long value of the class, one character of which is any of the class.
func longValue(class, n int) string {
	pat := "Long value; it's 100% a=b:c@d/e?f#g&h \\ +,\"[]{}<>|~^`!$()*-_."
	switch class {
	case hostName:
		pat = "long-host.name0123456789"
	case portNumber:
		pat = "1"
	case tableName:
		pat = "long_table.name"
	case number:
		pat, n = "123456789", 8
	}
	if class == portNumber {
		n = 4
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = pat[i%len(pat)]
	}
	at := []int{0, n / 2, n - 1}[rt.Choose("place", 3)]
	v := value(class, 1)
	return string(b[:at]) + v + string(b[at+1:])
}

// settings makes a section of the store: one of the parameters is arbitrary, or missing.
func settings(kind int) map[string]string {
	fs := fields[kind]
	which, n := rt.Choose("field", len(fs)+1), 1
	if rt.Param("long", 0) == 0 {
		n = rt.Choose("size", rt.Param("n", 2)+2) - 1
	} else if which == len(fs) {
		rt.Assume(false)
	}
	cfg := map[string]string{}
	for i, f := range fs {
		v := f.def
		if i == which {
			if n < 0 {
				continue
			}
			if n == 0 && f.class != anyText {
				rt.Assume(false)
			}
			if l := rt.Param("long", 0); l > 0 {
				v = longValue(f.class, l)
			} else {
				v = value(f.class, n)
			}
		}
		cfg[f.name] = v
	}
	if which == len(fs) && n > -1 {
		rt.Assume(false)
	}
	return cfg
}

// usable: the section holds everything the store needs.
func usable(kind int, cfg map[string]string) bool {
	for _, f := range fields[kind] {
		v, ok := cfg[f.name]
		if f.need && !ok {
			return false
		}
		if ok && f.class == number {
			if _, err := strconv.Atoi(v); err != nil {
				return false
			}
		}
	}
	return true
}

func num(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// wellConnected compares what was opened with the section.
func wellConnected(kind int, l *sl.Link, cfg map[string]string) {
	rt.Assert(l.Kind == kind, "the store opened is the one of the section")
	rt.Assert(!l.Bad, "the connector makes a valid connection string")
	switch kind {
	case sl.Nats:
		rt.Assert(rt.EqStr(l.Addr, cfg["servers"]), "nats is sought on the configured servers")
		_, u := cfg["user"]
		_, p := cfg["password"]
		if u && p {
			rt.Assert(rt.EqStr(l.User, cfg["user"]) && rt.EqStr(l.Pass, cfg["password"]), "nats gets the configured user and password")
		} else {
			rt.Assert(!l.Cred, "nats gets no credentials unless both are configured")
		}
	case sl.Nsq:
		rt.Assert(rt.EqStr(l.Addr, cfg["server"]), "nsq is sought on the configured server")
	case sl.Postgres:
		for _, k := range []string{"host", "port", "user", "password", "sslmode"} {
			rt.Assert(rt.EqStr(l.DSN[k], cfg[k]), "the postgresql connection string means the configured "+k)
		}
		rt.Assert(rt.EqStr(l.DSN["dbname"], cfg["database"]), "the postgresql connection string means the configured database")
	case sl.Rabbit:
		h := cfg["host"]
		if h == "" {
			h = "localhost"
		}
		rt.Assert(rt.EqStr(l.URI.Host, h), "the amqp URI means the configured host")
		p := num(cfg["port"])
		if _, ok := cfg["port"]; !ok {
			p = 5672
		}
		rt.Assert(l.URI.Port == p, "the amqp URI means the configured port")
		rt.Assert(rt.EqStr(l.URI.Username, cfg["user"]), "the amqp URI means the configured user")
		rt.Assert(rt.EqStr(l.URI.Password, cfg["password"]), "the amqp URI means the configured password")
		rt.Assert(rt.And(l.URI.Scheme == "amqp", l.URI.Vhost == "/"), "the amqp URI means the default virtual host")
	case sl.Redis:
		rt.Assert(rt.EqStr(l.Addr, cfg["server"]), "redis is sought on the configured server")
		rt.Assert(rt.EqStr(l.Pass, cfg["password"]) && l.User == "", "redis gets the configured password")
		rt.Assert(l.DB == num(cfg["db"]), "redis uses the configured database")
	case sl.Tarantool:
		rt.Assert(rt.EqStr(l.Addr, cfg["host"]+":"+cfg["port"]), "tarantool is sought at the configured address")
		rt.Assert(rt.EqStr(l.User, cfg["user"]) && rt.EqStr(l.Pass, cfg["password"]), "tarantool gets the configured user and password")
		rt.Assert(l.Timeout == time.Duration(num(cfg["timeout"]))*time.Second, "the tarantool timeout is in seconds as configured")
		rt.Assert(l.Reconnect == time.Duration(num(cfg["reconnect"]))*time.Second, "the tarantool reconnect interval is in seconds as configured")
		rt.Assert(l.Max == uint(num(cfg["max_recons"])), "the tarantool number of reconnects is as configured")
		rt.Assert(rt.EqStr(l.Queue, cfg["queue"]), "the tarantool queue is the configured one")
	}
}

// target is where the section wants records published.
func target(kind int, cfg map[string]string) (dest, key string) {
	switch kind {
	case sl.Nats, sl.Nsq:
		return cfg["topic"], ""
	case sl.Postgres:
		return cfg["table"], "point"
	case sl.Rabbit:
		return cfg["exchange"], cfg["key"]
	}
	return cfg["queue"], ""
}

// msg is anything that can be saved.
type msg struct {
	body  []byte
	fail  bool
	calls int
}

var errBody = errors.New("cannot be serialised")

func (m *msg) ToBytes() ([]byte, error) {
	m.calls++
	if m.fail {
		return nil, errBody
	}
	return m.body, nil
}

// published checks that put i is the body at the target of the section.
func published(w *sl.World, i, kind int, cfg map[string]string, body []byte) {
	dest, key := target(kind, cfg)
	p := w.Puts[i]
	rt.Assert(p.Link.Kind == kind, "records are published to the store of the section")
	rt.Assert(rt.EqStr(p.Dest, dest), "records are published to the configured destination")
	rt.Assert(rt.EqStr(p.Key, key), "records are published under the configured key")
	rt.Assert(rt.EqBytes(p.Body, body), "records are published as ToBytes gives them")
	for _, b := range p.Body {
		rt.Emit("body", uint64(b))
	}
	for j := 0; j < len(p.Dest); j++ {
		rt.Emit("dest", uint64(p.Dest[j]))
	}
}

// VerifConnect: opening, saving to and closing one store.
func VerifConnect() {
	kind := rt.Param("kind", 0)
	w := sl.New()
	st := newStore(kind)
	cfg := settings(kind)
	own := map[string]string{}
	for k, v := range cfg {
		own[k] = v
	}
	steps := []int{1, 1, 2, 2, 0, 1}
	w.FailAt[kind] = rt.Choose("fail", steps[kind]+1)
	err := st.Init(cfg)
	rt.Emit("init", rt.B2U(err != nil), uint64(len(w.Links)))
	if !usable(kind, own) {
		rt.Assert(err != nil, "a section that lacks what the store needs is refused")
		rt.Cover("refused")
		return
	}
	if w.FailAt[kind] != 0 {
		rt.Assert(err != nil, "a store that cannot be reached is reported")
		rt.Cover("unreachable")
		return
	}
	rt.Assert(err == nil, "a store that can be reached is opened")
	rt.Assert(w.Other == "", "the store library is used as intended")
	rt.Assert(len(w.Links) == 1, "one connection is opened")
	if err != nil || len(w.Links) != 1 {
		return
	}
	l := w.Links[0]
	rt.Assert(l.Up, "the store was reached")
	wellConnected(kind, l, own)
	n := rt.Param("saves", 2)
	for i := 0; i < n; i++ {
		m := &msg{body: rt.Bytes("body", rt.Choose("len", 2)*3)}
		before := len(w.Puts)
		tries := w.Tries
		what := rt.Choose("save", 4)
		m.fail, w.FailPut = what == 1, what == 2
		want := append([]byte(nil), m.body...)
		var err error
		if what == 3 {
			err = st.Save(nil)
		} else {
			err = st.Save(m)
		}
		w.FailPut = false
		rt.Assert((err == nil) == (what == 0), "saving fails exactly when serialising or publishing does")
		rt.Emit("save", rt.B2U(err != nil), uint64(len(w.Puts)), uint64(w.Tries))
		if what == 0 {
			rt.Assert(len(w.Puts) == before+1, "a record is published exactly once")
			if len(w.Puts) == before+1 {
				published(w, before, kind, own, want)
			}
			rt.Assert(rt.EqBytes(m.body, want), "the record's bytes are not changed")
			rt.Cover("saved")
		} else {
			rt.Assert(len(w.Puts) == before, "what failed was not published")
			if what != 2 {
				rt.Assert(w.Tries == tries, "nothing is published of a record without bytes")
			}
			rt.Cover("not saved")
		}
	}
	rt.Assert(w.Other == "", "the store library is used as intended")
	w.FailClose = rt.Choose("close fails", 2) == 1
	err = st.Close()
	if !w.FailClose {
		rt.Assert(l.Closed && err == nil, "closing closes the connection")
	} else if kind != sl.Nats && kind != sl.Nsq {
		rt.Assert(err != nil, "a failure to close is reported")
	}
	rt.Assert(len(w.Links) == 1, "one connection is opened")
}

// VerifConnRun: of many records of all lengths those are published that can be, each once, whatever run of
// failures there was before.
func VerifConnRun() {
	kind := rt.Param("kind", 0)
	w := sl.New()
	st := newStore(kind)
	cfg := map[string]string{}
	for _, f := range fields[kind] {
		cfg[f.name] = f.def
	}
	err := st.Init(cfg)
	rt.Assert(err == nil && len(w.Links) == 1, "a store that can be reached is opened")
	if err != nil || len(w.Links) != 1 {
		return
	}
	k := rt.Param("saves", 40)
	what := 1 + rt.Choose("failure", 2)
	from := []int{0, 1, 7, k / 2, k - 1}[rt.Choose("from", 5)]
	to := from + []int{0, 1, 2, 3, 5, 10, k}[rt.Choose("for", 7)]
	any := rt.Choose("any", 3) * (k - 1) / 2
	for i := 0; i < k; i++ {
		// all lengths up to 70, then some more
		n := i
		if i >= 70 {
			n = []int{100, 127, 128, 255, 256, 1000, 1023, 1024, 4096, 5000}[i%10]
		}
		m := &msg{body: make([]byte, n)}
		for j := range m.body {
			m.body[j] = byte(i + j*7)
		}
		if i == any {
			m.body = rt.Bytes("body", 5)
		}
		bad := i >= from && i < to
		m.fail, w.FailPut = bad && what == 1, bad && what == 2
		want := append([]byte(nil), m.body...)
		before := len(w.Puts)
		err := st.Save(m)
		rt.Assert((err != nil) == bad, "saving fails exactly when serialising or publishing does")
		if !bad {
			rt.Assert(len(w.Puts) == before+1, "a record is published exactly once")
			if len(w.Puts) == before+1 {
				published(w, before, kind, cfg, want)
			}
		} else {
			rt.Assert(len(w.Puts) == before, "what failed was not published")
		}
	}
	rt.Assert(len(w.Links) == 1 && w.Other == "", "one connection is opened")
	rt.Cover("run")
	rt.Assert(st.Close() == nil, "the store is closed")
	rt.Assert(w.Links[0].Closed, "closing closes the connection")
}

// VerifNoConfig: a missing section is refused by every connector.
func VerifNoConfig() {
	kind := rt.Choose("kind", sl.Kinds)
	w := sl.New()
	err := newStore(kind).Init(nil)
	rt.Assert(err != nil, "a missing section is refused")
	rt.Assert(len(w.Links) == 0, "nothing is opened without a section")
	rt.Cover("no section")
}

var _ = strings.Join
