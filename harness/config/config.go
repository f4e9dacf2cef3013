// Package config holds the harnesses for the configuration.
package config

import (
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	yf "github.com/ElectroUnion/egts-gate/internal/verifh/yamlfile"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	log "github.com/sirupsen/logrus"
)

func plain(name string, n int) string {
	s := rt.String(name, n)
	for i := 0; i < n; i++ {
		rt.Assume(rt.And(s[i] >= 0x20, s[i] < 0x7F))
	}
	return s
}

func level(s string) log.Level {
	switch s {
	case "DEBUG":
		return log.DebugLevel
	case "WARN":
		return log.WarnLevel
	case "ERROR":
		return log.ErrorLevel
	}
	return log.InfoLevel
}

// listens reports whether addr is host:port; a host with colons may be bracketed.
func listens(addr, host, port string) bool {
	if rt.EqStr(addr, host+":"+port) {
		return true
	}
	for i := 0; i < len(host); i++ {
		if host[i] == ':' || host[i] == '%' {
			return rt.EqStr(addr, "["+host+"]:"+port)
		}
	}
	return false
}

// VerifGetters: what the settings mean.
func VerifGetters() {
	s := config.Settings{Host: plain("host", rt.Choose("hl", rt.Param("n", 2)+1)), Port: plain("port", rt.Choose("pl", rt.Param("n", 2)+1)), ConnTTl: int(int32(rt.U32("ttl")))}
	s.LogLevel = rt.String("level", rt.Choose("ll", 7))
	before := s
	rt.Assert(listens(s.GetListenAddress(), before.Host, before.Port), "the address to listen on is host:port")
	rt.Assert(s.GetEmptyConnTTL() == time.Duration(before.ConnTTl)*time.Second, "conn_ttl is in seconds")
	rt.Assert(s.GetLogLevel() == level(before.LogLevel), "the log level is the named one, INFO otherwise")
	rt.Emit("level", uint64(s.GetLogLevel()))
	rt.Cover("settings")
}

// VerifLoad: the file's values arrive in the settings.
func VerifLoad() {
	f := &yf.File{}
	n := rt.Param("n", 2)
	f.Missing = rt.Choose("missing", 2) == 1
	f.Malformed = rt.Choose("malformed", 2) == 1
	have := rt.Choose("keys", 32)
	host, port, lvl := "", "", ""
	ttl := 0
	store := map[string]map[string]string{}
	if have&1 != 0 {
		host = plain("host", n)
		f.Entries = append(f.Entries, yf.Entry{Key: "host", Kind: 's', S: host})
	}
	if have&2 != 0 {
		port = plain("port", n)
		f.Entries = append(f.Entries, yf.Entry{Key: "port", Kind: 's', S: port})
	}
	if have&4 != 0 {
		ttl = int(int32(rt.U32("ttl")))
		f.Entries = append(f.Entries, yf.Entry{Key: "conn_ttl", Kind: 'i', I: ttl})
	}
	if have&8 != 0 {
		lvl = plain("lvl", 4)
		f.Entries = append(f.Entries, yf.Entry{Key: "log_level", Kind: 's', S: lvl})
	}
	if have&16 != 0 {
		store["redis"] = map[string]string{"server": plain("srv", n), "queue": plain("q", n)}
		store["nats"] = map[string]string{"topic": plain("t", n)}
		f.Entries = append(f.Entries, yf.Entry{Key: "storage", Kind: 'm', M: store})
	}
	c, err := config.New(f.Place())
	f.Remove()
	if f.Missing || f.Malformed {
		rt.Assert(err != nil, "a file that cannot be read is reported")
		rt.Cover("unreadable")
		return
	}
	rt.Assert(err == nil, "a file that can be read is accepted")
	rt.Assert(rt.EqStr(c.Host, host), "host")
	rt.Assert(rt.EqStr(c.Port, port), "port")
	rt.Assert(c.ConnTTl == ttl, "conn_ttl")
	rt.Assert(rt.EqStr(c.LogLevel, lvl), "log_level")
	rt.Assert(len(c.Store) == len(store), "storage")
	for k, m := range store {
		rt.Assert(len(c.Store[k]) == len(m), "storage section")
		for p, v := range m {
			rt.Assert(rt.EqStr(c.Store[k][p], v), "storage parameter")
		}
	}
	rt.Emit("ttl", uint64(c.ConnTTl))
	rt.Assert(listens(c.GetListenAddress(), host, port), "the address to listen on is host:port")
	rt.Assert(c.GetEmptyConnTTL() == time.Duration(ttl)*time.Second, "conn_ttl is in seconds")
	rt.Assert(c.GetLogLevel() == level(lvl), "the log level is the named one, INFO otherwise")
	rt.Cover("loaded")
}
