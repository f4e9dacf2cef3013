// Package storelib models the client libraries of the stores: what the connectors open, publish and close
// is recorded, and any of it can be made to fail.
package storelib

import (
	"context"
	"database/sql"
	"errors"
	"net/url"
	"strings"
	"time"

	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	"github.com/go-redis/redis/v8"
	"github.com/lib/pq"
	natsLib "github.com/nats-io/nats.go"
	"github.com/nsqio/go-nsq"
	"github.com/streadway/amqp"
	"github.com/tarantool/go-tarantool"
	"github.com/tarantool/go-tarantool/queue"
)

// Kinds of stores.
const (
	Nats = iota
	Nsq
	Postgres
	Rabbit
	Redis
	Tarantool
	Kinds
)

// Names as they stand in the configuration.
var Names = []string{"nats", "nsq", "postgresql", "rabbitmq", "redis", "tarantool_queue"}

// Link is a connection opened to a store.
type Link struct {
	Kind int
	// Addr is the address in the library's own form
	Addr       string
	Cred       bool
	User, Pass string
	DB         int
	Timeout    time.Duration
	Reconnect  time.Duration
	Max        uint
	Queue      string
	DSN        map[string]string
	URI        amqp.URI
	Bad        bool
	// Up: the connection was used to find out whether the store is there
	Up       bool
	Closed   bool
	Channels int
	handle   interface{}
	channel  *amqp.Channel
}

// Put is one thing published.
type Put struct {
	Link *Link
	Dest string
	Key  string
	Body []byte
	Odd  bool
}

// World is all the stores there are.
type World struct {
	Links []*Link
	Puts  []Put
	// Tries counts the attempts to publish
	Tries int
	// FailAt: the step of connecting that fails (1: opening, 2: first use), by kind; 0 none
	FailAt [Kinds]int
	// FailPut makes publishing fail
	FailPut bool
	// FailClose makes closing fail
	FailClose bool
	// Other: something that is not foreseen was done
	Other string
}

// Cur is the world the stand-ins act on.
var Cur *World

var ErrDown = errors.New("store is down")

// New starts a fresh world.
func New() *World {
	Cur = &World{}
	return Cur
}

func (w *World) link(kind int, addr string) *Link {
	l := &Link{Kind: kind, Addr: addr}
	w.Links = append(w.Links, l)
	return l
}

// Of lists the links of a kind.
func (w *World) Of(kind int) []*Link {
	var r []*Link
	for _, l := range w.Links {
		if l.Kind == kind {
			r = append(r, l)
		}
	}
	return r
}

func (w *World) find(h interface{}) *Link {
	for _, l := range w.Links {
		if l.handle == h {
			return l
		}
	}
	w.Other = "use of a connection that was never opened"
	return &Link{}
}

func (w *World) put(l *Link, dest, key string, body []byte) error {
	w.Tries++
	rt.Reads(body)
	if l.Closed {
		w.Other = "publishing on a closed connection"
		return ErrDown
	}
	if w.FailPut {
		return ErrDown
	}
	w.Puts = append(w.Puts, Put{Link: l, Dest: dest, Key: key, Body: append([]byte(nil), body...)})
	return nil
}

func (w *World) close(l *Link) error {
	l.Closed = true
	if w.FailClose {
		return ErrDown
	}
	return nil
}

func bytesOf(v interface{}) ([]byte, bool) {
	switch b := v.(type) {
	case []byte:
		return b, true
	case string:
		return []byte(b), true
	}
	return nil, false
}

// ---- NATS

// VerifNatsOptConnect is the library's connecting with options.
//
//verif:redirect (github.com/nats-io/nats.go.Options).Connect
func VerifNatsOptConnect(o natsLib.Options) (*natsLib.Conn, error) {
	w := Cur
	addr := o.Url
	if len(o.Servers) > 0 {
		addr = strings.Join(o.Servers, ",")
	}
	l := w.link(Nats, addr)
	l.User, l.Pass = o.User, o.Password
	l.Cred = o.User != "" || o.Password != ""
	if w.FailAt[Nats] != 0 {
		return nil, ErrDown
	}
	l.Up = true
	c := &natsLib.Conn{}
	l.handle = c
	return c, nil
}

//verif:redirect github.com/nats-io/nats.go.Connect
func VerifNatsConnect(addr string, options ...natsLib.Option) (*natsLib.Conn, error) {
	o := natsLib.Options{Url: addr}
	for _, f := range options {
		if f != nil {
			if err := f(&o); err != nil {
				return nil, err
			}
		}
	}
	return VerifNatsOptConnect(o)
}

//verif:redirect (*github.com/nats-io/nats.go.Conn).Publish
func VerifNatsPublish(c *natsLib.Conn, subj string, data []byte) error {
	return Cur.put(Cur.find(c), subj, "", data)
}

//verif:redirect (*github.com/nats-io/nats.go.Conn).PublishMsg
func VerifNatsPublishMsg(c *natsLib.Conn, m *natsLib.Msg) error {
	return Cur.put(Cur.find(c), m.Subject, "", m.Data)
}

//verif:redirect (*github.com/nats-io/nats.go.Conn).Flush
func VerifNatsFlush(c *natsLib.Conn) error { return nil }

//verif:redirect (*github.com/nats-io/nats.go.Conn).Close
func VerifNatsClose(c *natsLib.Conn) { Cur.close(Cur.find(c)) }

//verif:redirect (*github.com/nats-io/nats.go.Conn).Drain
func VerifNatsDrain(c *natsLib.Conn) error { return Cur.close(Cur.find(c)) }

// ---- NSQ

//verif:redirect github.com/nsqio/go-nsq.NewConfig
func VerifNsqConfig() *nsq.Config { return &nsq.Config{} }

//verif:redirect github.com/nsqio/go-nsq.NewProducer
func VerifNsqProducer(addr string, config *nsq.Config) (*nsq.Producer, error) {
	w := Cur
	l := w.link(Nsq, addr)
	if w.FailAt[Nsq] != 0 {
		return nil, ErrDown
	}
	l.Up = true
	p := &nsq.Producer{}
	l.handle = p
	return p, nil
}

//verif:redirect (*github.com/nsqio/go-nsq.Producer).Publish
func VerifNsqPublish(p *nsq.Producer, topic string, body []byte) error {
	return Cur.put(Cur.find(p), topic, "", body)
}

//verif:redirect (*github.com/nsqio/go-nsq.Producer).Ping
func VerifNsqPing(p *nsq.Producer) error { return nil }

//verif:redirect (*github.com/nsqio/go-nsq.Producer).Stop
func VerifNsqStop(p *nsq.Producer) { Cur.close(Cur.find(p)) }

// ---- PostgreSQL

// ParseDSN reads a connection string as libpq and lib/pq do.
func ParseDSN(s string) (map[string]string, bool) {
	o := map[string]string{}
	if strings.HasPrefix(s, "postgres://") || strings.HasPrefix(s, "postgresql://") {
		var err error
		if s, err = pq.ParseURL(s); err != nil {
			return nil, false
		}
	}
	space := func(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }
	i := 0
	for {
		for i < len(s) && space(s[i]) {
			i++
		}
		if i == len(s) {
			return o, true
		}
		k := i
		for i < len(s) && !space(s[i]) && s[i] != '=' {
			i++
		}
		key := s[k:i]
		for i < len(s) && space(s[i]) {
			i++
		}
		if i == len(s) || s[i] != '=' {
			return nil, false
		}
		i++
		for i < len(s) && space(s[i]) {
			i++
		}
		var val []byte
		if i < len(s) && s[i] == '\'' {
			i++
			for {
				if i == len(s) {
					return nil, false
				}
				if s[i] == '\'' {
					i++
					break
				}
				if s[i] == '\\' {
					i++
					if i == len(s) {
						return nil, false
					}
				}
				val = append(val, s[i])
				i++
			}
		} else {
			for i < len(s) && !space(s[i]) {
				if s[i] == '\\' {
					i++
					if i == len(s) {
						return nil, false
					}
				}
				val = append(val, s[i])
				i++
			}
		}
		o[key] = string(val)
	}
}

//verif:redirect database/sql.Open
func VerifSQLOpen(driver, dsn string) (*sql.DB, error) {
	w := Cur
	l := w.link(Postgres, dsn)
	if w.FailAt[Postgres] == 1 {
		return nil, ErrDown
	}
	if driver != "postgres" {
		w.Other = "unknown driver"
	}
	var ok bool
	if l.DSN, ok = ParseDSN(dsn); !ok {
		l.Bad = true
		return nil, errors.New("pq: bad connection string")
	}
	db := &sql.DB{}
	l.handle = db
	return db, nil
}

func sqlUse(db *sql.DB) (*Link, error) {
	l := Cur.find(db)
	if Cur.FailAt[Postgres] == 2 {
		return l, ErrDown
	}
	l.Up = true
	return l, nil
}

//verif:redirect (*database/sql.DB).Ping
func VerifSQLPing(db *sql.DB) error {
	_, err := sqlUse(db)
	return err
}

//verif:redirect (*database/sql.DB).PingContext
func VerifSQLPingContext(db *sql.DB, ctx context.Context) error {
	_, err := sqlUse(db)
	return err
}

type result struct{}

func (result) LastInsertId() (int64, error) { return 0, errors.New("not supported") }
func (result) RowsAffected() (int64, error) { return 1, nil }

//verif:redirect (*database/sql.DB).Exec
func VerifSQLExec(db *sql.DB, query string, args ...interface{}) (sql.Result, error) {
	w := Cur
	l, err := sqlUse(db)
	if err != nil {
		return nil, err
	}
	table, ok := insertInto(query)
	if !ok || len(args) != 1 {
		w.Other = "unexpected statement"
		return nil, ErrDown
	}
	b, ok := bytesOf(args[0])
	if !ok {
		w.Other = "unexpected argument"
		return nil, ErrDown
	}
	if err = w.put(l, table, "point", b); err != nil {
		return nil, err
	}
	return result{}, nil
}

//verif:redirect (*database/sql.DB).ExecContext
func VerifSQLExecContext(db *sql.DB, ctx context.Context, query string, args ...interface{}) (sql.Result, error) {
	return VerifSQLExec(db, query, args...)
}

// insertInto reads INSERT INTO table (point) VALUES ($1) and returns the table as it is spelled there.
func insertInto(q string) (string, bool) {
	q = strings.TrimSuffix(strings.TrimSpace(q), ";")
	const head = "insert into "
	if len(q) < len(head) || strings.ToLower(q[:len(head)]) != head {
		return "", false
	}
	q = strings.TrimLeft(q[len(head):], " ")
	i := strings.IndexByte(q, '(')
	if i < 0 {
		return "", false
	}
	rest := strings.ToLower(strings.Replace(q[i:], " ", "", -1))
	return strings.TrimSpace(q[:i]), rest == "(point)values($1)"
}

//verif:redirect (*database/sql.DB).Close
func VerifSQLClose(db *sql.DB) error { return Cur.close(Cur.find(db)) }

// ---- RabbitMQ

//verif:redirect github.com/streadway/amqp.Dial
func VerifDial(uri string) (*amqp.Connection, error) {
	w := Cur
	l := w.link(Rabbit, uri)
	if w.FailAt[Rabbit] == 1 {
		return nil, ErrDown
	}
	var err error
	if l.URI, err = amqp.ParseURI(uri); err != nil {
		l.Bad = true
		return nil, err
	}
	c := &amqp.Connection{}
	l.handle = c
	return c, nil
}

//verif:redirect github.com/streadway/amqp.DialConfig
func VerifDialConfig(uri string, config amqp.Config) (*amqp.Connection, error) {
	c, err := VerifDial(uri)
	if err == nil {
		l := Cur.find(c)
		for _, a := range config.SASL {
			if p, ok := a.(*amqp.PlainAuth); ok {
				l.URI.Username, l.URI.Password = p.Username, p.Password
			}
		}
		if config.Vhost != "" {
			l.URI.Vhost = config.Vhost
		}
	}
	return c, err
}

//verif:redirect (*github.com/streadway/amqp.Connection).Channel
func VerifChannel(c *amqp.Connection) (*amqp.Channel, error) {
	l := Cur.find(c)
	if Cur.FailAt[Rabbit] == 2 {
		return nil, ErrDown
	}
	l.Up = true
	l.Channels++
	l.channel = &amqp.Channel{}
	return l.channel, nil
}

func (w *World) ofChannel(ch *amqp.Channel) *Link {
	for _, l := range w.Links {
		if l.Kind == Rabbit && l.channel == ch && ch != nil {
			return l
		}
	}
	w.Other = "use of a channel that was never opened"
	return &Link{}
}

//verif:redirect (*github.com/streadway/amqp.Channel).Publish
func VerifChPublish(ch *amqp.Channel, exchange, key string, mandatory, immediate bool, msg amqp.Publishing) error {
	if immediate {
		Cur.Other = "immediate delivery is not supported by brokers"
	}
	return Cur.put(Cur.ofChannel(ch), exchange, key, msg.Body)
}

//verif:redirect (*github.com/streadway/amqp.Channel).Close
func VerifChClose(ch *amqp.Channel) error {
	Cur.ofChannel(ch)
	if Cur.FailClose {
		return ErrDown
	}
	return nil
}

//verif:redirect (*github.com/streadway/amqp.Connection).Close
func VerifConnClose(c *amqp.Connection) error { return Cur.close(Cur.find(c)) }

// ---- Redis

//verif:redirect github.com/go-redis/redis/v8.NewClient
func VerifRedisClient(o *redis.Options) *redis.Client {
	w := Cur
	l := w.link(Redis, o.Addr)
	l.Pass, l.User, l.DB = o.Password, o.Username, o.DB
	l.Up = true
	return &redis.Client{}
}

func (w *World) redis() *Link {
	ls := w.Of(Redis)
	if len(ls) == 0 {
		w.Other = "use of a connection that was never opened"
		return &Link{}
	}
	return ls[len(ls)-1]
}

// the receiver is of an unexported type, and left out
//
//verif:redirect (github.com/go-redis/redis/v8.cmdable).Publish
func VerifRedisPublish(ctx context.Context, channel string, message interface{}) *redis.IntCmd {
	b, ok := bytesOf(message)
	if !ok {
		Cur.Other = "unexpected argument"
	}
	return redis.NewIntResult(0, Cur.put(Cur.redis(), channel, "", b))
}

//verif:redirect (*github.com/go-redis/redis/v8.baseClient).Close
func VerifRedisClose() error { return Cur.close(Cur.redis()) }

// ---- Tarantool

//verif:redirect github.com/tarantool/go-tarantool.Connect
func VerifTarantool(addr string, o tarantool.Opts) (*tarantool.Connection, error) {
	w := Cur
	l := w.link(Tarantool, addr)
	l.User, l.Pass, l.Timeout, l.Reconnect, l.Max = o.User, o.Pass, o.Timeout, o.Reconnect, o.MaxReconnects
	if w.FailAt[Tarantool] != 0 {
		return nil, ErrDown
	}
	l.Up = true
	c := &tarantool.Connection{}
	l.handle = c
	return c, nil
}

type tube struct {
	queue.Queue
	l *Link
}

func (t *tube) Put(data interface{}) (*queue.Task, error) {
	b, ok := bytesOf(data)
	if !ok {
		Cur.Other = "unexpected argument"
	}
	return nil, Cur.put(t.l, t.l.Queue, "", b)
}

func (t *tube) PutWithOpts(data interface{}, o queue.Opts) (*queue.Task, error) { return t.Put(data) }

//verif:redirect github.com/tarantool/go-tarantool/queue.New
func VerifQueue(conn tarantool.Connector, name string) queue.Queue {
	l := &Link{}
	if c, ok := conn.(*tarantool.Connection); ok {
		l = Cur.find(c)
	}
	l.Queue = name
	return &tube{l: l}
}

//verif:redirect (*github.com/tarantool/go-tarantool.Connection).Close
func VerifTarantoolClose(c *tarantool.Connection) error { return Cur.close(Cur.find(c)) }

var _ = rt.Symbolic
var _ = url.Parse
