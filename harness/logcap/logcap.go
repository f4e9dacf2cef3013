// Package logcap collects what is logged: by models of the logging library in symbolic runs, by a hook in
// native ones.
package logcap

import (
	"fmt"

	"github.com/ElectroUnion/egts-gate/internal/verifh/cliflags"
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	log "github.com/sirupsen/logrus"
)

// Line is one message.
type Line struct {
	Level  log.Level
	Msg    string
	Fields log.Fields
}

var (
	// Lines are the messages so far, of the enabled levels.
	Lines []Line
	cur   = log.InfoLevel
	std   log.Logger
	hook  bool
)

type capture struct{}

func (capture) Levels() []log.Level { return log.AllLevels }
func (capture) Fire(e *log.Entry) error {
	f := log.Fields{}
	for k, v := range e.Data {
		f[k] = v
	}
	Lines = append(Lines, Line{e.Level, e.Message, f})
	return nil
}

type devNull struct{}

func (devNull) Write(p []byte) (int, error) { return len(p), nil }

// Reset forgets the messages and sets the level of a fresh process.
func Reset() {
	Lines, cur = nil, log.InfoLevel
	if rt.Symbolic() {
		return
	}
	log.SetLevel(log.InfoLevel)
	l := log.StandardLogger()
	l.ExitFunc = func(code int) { panic(cliflags.Exit{Code: code}) }
	log.SetOutput(devNull{})
	if !hook {
		hook = true
		log.AddHook(capture{})
	}
}

// Level is the level in force.
func Level() log.Level {
	if rt.Symbolic() {
		return cur
	}
	return log.GetLevel()
}

// Objects are the texts from a brace on in the messages and fields.
func Objects() []string {
	var out []string
	for _, l := range Lines {
		out = object(out, l.Msg)
		for _, v := range l.Fields {
			switch t := v.(type) {
			case string:
				out = object(out, t)
			case []byte:
				// packets are logged as bytes, too
				if len(t) > 1 && t[0] == '{' && opening(t[1]) {
					out = append(out, string(t))
				}
			}
		}
	}
	return out
}

func opening(b byte) bool { return b == '"' || b == '\n' || b == '\r' || b == ' ' }

func object(out []string, s string) []string {
	if !rt.Known(s) {
		return out
	}
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '{' && opening(s[i+1]) {
			for len(s) > i && (s[len(s)-1] == '\n' || s[len(s)-1] == ' ') {
				s = s[:len(s)-1]
			}
			return append(out, s[i:])
		}
	}
	return out
}

func entry() *log.Entry { return &log.Entry{} }

func with(e *log.Entry, f log.Fields) *log.Entry {
	d := log.Fields{}
	for k, v := range e.Data {
		d[k] = v
	}
	for k, v := range f {
		d[k] = v
	}
	return &log.Entry{Data: d}
}

func line(e *log.Entry, l log.Level, msg string) {
	if cur >= l {
		Lines = append(Lines, Line{l, msg, e.Data})
	}
	switch l {
	case log.FatalLevel:
		panic(cliflags.Exit{Code: 1})
	case log.PanicLevel:
		panic(e)
	}
}

func sprintln(args ...interface{}) string {
	s := fmt.Sprintln(args...)
	return s[:len(s)-1]
}
