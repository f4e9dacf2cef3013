// Package yamlfile models the configuration file: symbolic runs fill the structure by its tags, native ones
// parse the text with the real library.
package yamlfile

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
	"gopkg.in/yaml.v2"
)

// Entry is a top level key of the file.
type Entry struct {
	Key string
	// Kind: 's' text, 'i' number, 'm' sections
	Kind byte
	S    string
	I    int
	M    map[string]map[string]string
}

// File is the configuration file.
type File struct {
	Path    string
	Entries []Entry
	// Missing: reading fails; Malformed: it is no YAML
	Missing   bool
	Malformed bool
}

// Cur is the file in place.
var Cur *File

const token = "#config"

func (f *File) text() string {
	if f.Malformed {
		return "host: [\n"
	}
	s := ""
	for _, e := range f.Entries {
		switch e.Kind {
		case 's':
			s += fmt.Sprintf("%s: %q\n", e.Key, e.S)
		case 'i':
			s += fmt.Sprintf("%s: %d\n", e.Key, e.I)
		case 'm':
			s += e.Key + ":\n"
			for n, m := range e.M {
				s += fmt.Sprintf("  %s:\n", n)
				for k, v := range m {
					s += fmt.Sprintf("    %s: %q\n", k, v)
				}
			}
		}
	}
	return s
}

// Place puts the file in place and gives its path.
func (f *File) Place() string {
	Cur, opened, decoders = f, nil, nil
	if rt.Symbolic() {
		f.Path = "/etc/receiver.yaml"
		return f.Path
	}
	t, err := os.CreateTemp("", "verif*.yaml")
	if err != nil {
		panic(err)
	}
	f.Path = t.Name()
	_, err = t.WriteString(f.text())
	if e := t.Close(); err == nil {
		err = e
	}
	if err != nil {
		panic(err)
	}
	if f.Missing {
		f.Remove()
	}
	return f.Path
}

// Remove takes the file away.
func (f *File) Remove() {
	if !rt.Symbolic() && f.Path != "" {
		os.Remove(f.Path)
	}
}

func (f *File) there(path string) bool { return f != nil && !f.Missing && path == f.Path }

//verif:model os.ReadFile
func VerifReadFile(path string) ([]byte, error) {
	if !Cur.there(path) {
		return nil, &os.PathError{Op: "open", Path: path, Err: os.ErrNotExist}
	}
	return []byte(token), nil
}

//verif:model io/ioutil.ReadFile
func VerifIoutilReadFile(path string) ([]byte, error) { return VerifReadFile(path) }

type handle struct {
	f    *os.File
	left []byte
}

var opened []*handle

func handleOf(f *os.File) *handle {
	for _, h := range opened {
		if h.f == f {
			return h
		}
	}
	return nil
}

//verif:model os.Open
func VerifOpen(path string) (*os.File, error) {
	if !Cur.there(path) {
		return nil, &os.PathError{Op: "open", Path: path, Err: os.ErrNotExist}
	}
	f := new(os.File)
	opened = append(opened, &handle{f, []byte(token)})
	return f, nil
}

//verif:model os.OpenFile
func VerifOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) { return VerifOpen(path) }

//verif:model (*os.File).Read
func VerifFileRead(f *os.File, p []byte) (int, error) {
	h := handleOf(f)
	if h == nil {
		return 0, os.ErrInvalid
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(h.left) == 0 {
		return 0, io.EOF
	}
	n := copy(p, h.left)
	h.left = h.left[n:]
	return n, nil
}

//verif:model (*os.File).Close
func VerifFileClose(f *os.File) error { return nil }

//verif:model (*os.File).Name
func VerifFileName(f *os.File) string { return Cur.Path }

//verif:model (*os.File).Stat
func VerifFileStat(f *os.File) (os.FileInfo, error) { return info{}, nil }

//verif:model os.Stat
func VerifStat(path string) (os.FileInfo, error) {
	if !Cur.there(path) {
		return nil, &os.PathError{Op: "stat", Path: path, Err: os.ErrNotExist}
	}
	return info{}, nil
}

type info struct{}

func (info) Name() string       { return "receiver.yaml" }
func (info) Size() int64        { return int64(len(token)) }
func (info) Mode() os.FileMode  { return 0644 }
func (info) ModTime() time.Time { return time.Time{} }
func (info) IsDir() bool        { return false }
func (info) Sys() interface{}   { return nil }

type decoder struct {
	d      *yaml.Decoder
	r      io.Reader
	strict bool
	done   bool
}

var decoders []*decoder

func decoderOf(d *yaml.Decoder) *decoder {
	for _, e := range decoders {
		if e.d == d {
			return e
		}
	}
	panic("a decoder made elsewhere")
}

//verif:model gopkg.in/yaml.v2.NewDecoder
func VerifNewDecoder(r io.Reader) *yaml.Decoder {
	d := new(yaml.Decoder)
	decoders = append(decoders, &decoder{d: d, r: r})
	return d
}

//verif:model (*gopkg.in/yaml.v2.Decoder).SetStrict
func VerifSetStrict(d *yaml.Decoder, strict bool) { decoderOf(d).strict = strict }

//verif:model (*gopkg.in/yaml.v2.Decoder).Decode
func VerifDecode(d *yaml.Decoder, v interface{}) error {
	e := decoderOf(d)
	if e.done || len(Cur.Entries) == 0 && !Cur.Malformed {
		return io.EOF
	}
	b, err := io.ReadAll(e.r)
	if err != nil {
		return err
	}
	e.done = true
	return decode(b, v, e.strict)
}

//verif:model gopkg.in/yaml.v2.Unmarshal
func VerifUnmarshalYaml(in []byte, out interface{}) error { return decode(in, out, false) }

//verif:model gopkg.in/yaml.v2.UnmarshalStrict
func VerifUnmarshalStrict(in []byte, out interface{}) error { return decode(in, out, true) }

func decode(in []byte, out interface{}, strict bool) error {
	if string(in) != token {
		return errors.New("yaml: not the file")
	}
	f := Cur
	if f.Malformed {
		return errors.New("yaml: line 1: did not find expected node content")
	}
	var err error
	for _, e := range f.Entries {
		known := false
		for i := 0; i < rt.NumField(out); i++ {
			p, name, tag, _ := rt.Field(out, i)
			key := yamlKey(tag)
			if key == "" {
				key = strings.ToLower(name)
			}
			if key != e.Key {
				continue
			}
			known = true
			switch t := p.(type) {
			case *string:
				if e.Kind != 's' {
					err = errors.New("yaml: cannot unmarshal")
					break
				}
				*t = e.S
			case *int:
				if e.Kind != 'i' {
					err = errors.New("yaml: cannot unmarshal")
					break
				}
				*t = e.I
			case *map[string]map[string]string:
				if e.Kind != 'm' {
					err = errors.New("yaml: cannot unmarshal")
					break
				}
				if len(e.M) == 0 {
					break
				}
				*t = map[string]map[string]string{}
				for n, m := range e.M {
					c := map[string]string{}
					for k, v := range m {
						c[k] = v
					}
					(*t)[n] = c
				}
			default:
				rt.Note("a field of the configuration of an unknown type")
				err = errors.New("yaml: unknown type")
			}
		}
		if !known && strict {
			err = errors.New("yaml: field not found")
		}
	}
	return err
}

func yamlKey(tag string) string {
	i := strings.Index(tag, `yaml:"`)
	if i < 0 {
		return ""
	}
	t := tag[i+6:]
	t = t[:strings.IndexByte(t, '"')]
	if j := strings.IndexByte(t, ','); j >= 0 {
		t = t[:j]
	}
	return t
}
