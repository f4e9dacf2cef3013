package storelib

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"io"
	"math"
	"strconv"
	"strings"

	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

// Node is a JSON value.
type Node struct {
	// Kind: 'n' null, 'b' bool, 'i' integer, 'f' number, 's' string, 'a' array, 'o' object
	Kind byte
	Num  uint64
	F    float64
	S    string
	Keys []string
	Kids []*Node
}

var docs []*Node

// token stands for the text of a document in symbolic runs.
func token(n *Node) []byte {
	docs = append(docs, n)
	return []byte("{\"json " + strconv.Itoa(len(docs)) + "}")
}

var errJSON = errors.New("json: unsupported value")

// tree is what encoding/json makes of a value.
func tree(v interface{}, quoted bool) (*Node, error) {
	if m, ok := v.(json.Marshaler); ok && !(rt.Kind(v) == rt.KPtr && rt.Deref(v) == nil) {
		b, err := m.MarshalJSON()
		if err != nil {
			return nil, err
		}
		return Read(b)
	}
	if m, ok := v.(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		return &Node{Kind: 's', S: string(b)}, err
	}
	switch rt.Kind(v) {
	case rt.KNil:
		return &Node{Kind: 'n'}, nil
	case rt.KPtr:
		return tree(rt.Deref(v), quoted)
	case rt.KBool:
		return &Node{Kind: 'b', Num: rt.Scalar(v)}, nil
	case rt.KInt, rt.KUint:
		return &Node{Kind: 'i', Num: rt.Scalar(v)}, nil
	case rt.KFloat:
		f := rt.Float(v)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, errJSON
		}
		return &Node{Kind: 'f', F: f}, nil
	case rt.KString:
		return &Node{Kind: 's', S: rt.Text(v)}, nil
	case rt.KSlice:
		n := rt.Len(v)
		if n < 0 {
			return &Node{Kind: 'n'}, nil
		}
		if _, ok := v.([]byte); ok {
			rt.Note("bytes in the exported record")
			return nil, errJSON
		}
		a := &Node{Kind: 'a'}
		for i := 0; i < n; i++ {
			k, err := tree(rt.Elem(v, i), false)
			if err != nil {
				return nil, err
			}
			a.Kids = append(a.Kids, k)
		}
		return a, nil
	case rt.KStruct:
		o := &Node{Kind: 'o'}
		return o, members(o, v)
	}
	rt.Note("a kind of value the JSON model does not know")
	return nil, errJSON
}

func members(o *Node, v interface{}) error {
	for i := 0; i < rt.NumField(v); i++ {
		f, name, tag, emb := rt.Field(v, i)
		if rt.Kind(f) == rt.KNil && !('A' <= name[0] && name[0] <= 'Z') {
			continue
		}
		key, opts := tagOf(tag, "json")
		if key == "-" && opts == "" {
			continue
		}
		if emb && key == "" && rt.Kind(f) == rt.KStruct {
			if err := members(o, f); err != nil {
				return err
			}
			continue
		}
		if key == "" {
			key = name
		}
		if hasOpt(opts, "omitempty") && empty(f) {
			continue
		}
		k, err := tree(f, false)
		if err != nil {
			return err
		}
		if hasOpt(opts, "string") && (k.Kind == 'i' || k.Kind == 'f' || k.Kind == 'b' || k.Kind == 's') {
			k.Kind = 'q'
		}
		o.Keys = append(o.Keys, key)
		o.Kids = append(o.Kids, k)
	}
	return nil
}

func empty(v interface{}) bool {
	switch rt.Kind(v) {
	case rt.KNil:
		return true
	case rt.KBool, rt.KInt, rt.KUint:
		return rt.Scalar(v) == 0
	case rt.KFloat:
		return rt.Float(v) == 0
	case rt.KString:
		return len(rt.Text(v)) == 0
	case rt.KSlice:
		return rt.Len(v) <= 0
	case rt.KPtr:
		return rt.Deref(v) == nil
	}
	return false
}

// tagOf reads one key of a struct tag: the part before the first comma, and the rest.
func tagOf(tag, key string) (string, string) {
	i := strings.Index(tag, key+`:"`)
	if i < 0 {
		return "", ""
	}
	t := tag[i+len(key)+2:]
	t = t[:strings.IndexByte(t, '"')]
	if j := strings.IndexByte(t, ','); j >= 0 {
		return t[:j], t[j+1:]
	}
	return t, ""
}

func hasOpt(opts, want string) bool {
	for _, o := range strings.Split(opts, ",") {
		if o == want {
			return true
		}
	}
	return false
}

// VerifMarshal stands in for encoding/json in symbolic runs.
//
//verif:redirect encoding/json.Marshal
func VerifMarshal(v interface{}) ([]byte, error) {
	if !rt.Symbolic() {
		return json.Marshal(v)
	}
	n, err := tree(v, false)
	if err != nil {
		return nil, err
	}
	return token(n), nil
}

//verif:redirect encoding/json.MarshalIndent
func VerifMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	if !rt.Symbolic() {
		return json.MarshalIndent(v, prefix, indent)
	}
	return VerifMarshal(v)
}

type encoder struct {
	e *json.Encoder
	w io.Writer
}

var encoders []encoder

//verif:redirect encoding/json.NewEncoder
func VerifNewEncoder(w io.Writer) *json.Encoder {
	if !rt.Symbolic() {
		return json.NewEncoder(w)
	}
	e := &json.Encoder{}
	encoders = append(encoders, encoder{e, w})
	return e
}

//verif:redirect (*encoding/json.Encoder).Encode
func VerifEncode(e *json.Encoder, v interface{}) error {
	if !rt.Symbolic() {
		return e.Encode(v)
	}
	b, err := VerifMarshal(v)
	if err != nil {
		return err
	}
	for _, x := range encoders {
		if x.e == e {
			_, err = x.w.Write(append(b, '\n'))
		}
	}
	return err
}

//verif:redirect (*encoding/json.Encoder).SetEscapeHTML
func VerifSetEscapeHTML(e *json.Encoder, on bool) {
	if !rt.Symbolic() {
		e.SetEscapeHTML(on)
	}
}

//verif:redirect (*encoding/json.Encoder).SetIndent
func VerifSetIndent(e *json.Encoder, prefix, indent string) {
	if !rt.Symbolic() {
		e.SetIndent(prefix, indent)
	}
}

// Read parses JSON text; in symbolic runs it looks the token up.
func Read(b []byte) (*Node, error) {
	if rt.Symbolic() {
		s := strings.TrimSpace(string(b))
		for i, n := range docs {
			if s == "{\"json "+strconv.Itoa(i+1)+"}" {
				return n, nil
			}
		}
		return nil, errJSON
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	n, err := readNode(d)
	if err == nil {
		if _, e := d.Token(); e != io.EOF {
			err = errJSON
		}
	}
	return n, err
}

func readNode(d *json.Decoder) (*Node, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case nil:
		return &Node{Kind: 'n'}, nil
	case bool:
		return &Node{Kind: 'b', Num: rt.B2U(v)}, nil
	case string:
		return &Node{Kind: 's', S: v}, nil
	case json.Number:
		n := &Node{Kind: 'f'}
		if n.F, err = strconv.ParseFloat(string(v), 64); err != nil {
			return nil, err
		}
		if i, e := strconv.ParseInt(string(v), 10, 64); e == nil {
			n.Kind, n.Num = 'i', uint64(i)
		} else if i, e := strconv.ParseUint(string(v), 10, 64); e == nil {
			n.Kind, n.Num = 'i', i
		}
		return n, nil
	case json.Delim:
		n := &Node{Kind: 'a'}
		if v == '{' {
			n.Kind = 'o'
		}
		for d.More() {
			if v == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.Keys = append(n.Keys, k.(string))
			}
			k, err := readNode(d)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
		}
		_, err = d.Token()
		return n, err
	}
	return nil, errJSON
}

// Get is the member of an object; it must be there exactly once.
func (n *Node) Get(key string) *Node {
	var r *Node
	if n == nil || n.Kind != 'o' {
		return nil
	}
	for i, k := range n.Keys {
		if k == key {
			if r != nil {
				return nil
			}
			r = n.Kids[i]
		}
	}
	return r
}

// Int, Float, Str, List compare a member.
func (n *Node) Int(key string, want uint64) bool {
	m := n.Get(key)
	if m == nil || m.Kind != 'i' {
		return false
	}
	rt.Emit(key, m.Num)
	return m.Num == want
}

func (n *Node) Float(key string, want float64) bool {
	m := n.Get(key)
	if m == nil || m.Kind != 'f' && m.Kind != 'i' {
		return false
	}
	f := m.F
	return f == want
}

func (n *Node) Str(key string, want string) bool {
	m := n.Get(key)
	if m == nil || m.Kind != 's' {
		return false
	}
	for i := 0; i < len(m.S); i++ {
		rt.Emit(key, uint64(m.S[i]))
	}
	return rt.EqStr(m.S, want)
}

// List gives the elements of a member that is an array or null.
func (n *Node) List(key string) ([]*Node, bool) {
	m := n.Get(key)
	if m == nil || m.Kind != 'a' && m.Kind != 'n' {
		return nil, false
	}
	return m.Kids, true
}
