package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"birchmc/bb"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

// jnode is an ordered JSON tree.
type jnode struct {
	kind byte // o a s n t f z
	keys []string
	kids []*jnode
	s    string // string value or number text
}

// parseJSON builds the ordered tree with the standard library's tokenizer.
func parseJSON(b []byte) (*jnode, bool) {
	if !json.Valid(b) {
		return nil, false
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	n, err := parseNode(dec)
	if err != nil {
		return nil, false
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	return n, true
}

func parseNode(dec *json.Decoder) (*jnode, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		n := &jnode{kind: 'a'}
		if x == '{' {
			n.kind = 'o'
		}
		for dec.More() {
			if n.kind == 'o' {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, k.(string))
			}
			kid, err := parseNode(dec)
			if err != nil {
				return nil, err
			}
			n.kids = append(n.kids, kid)
		}
		_, err := dec.Token()
		return n, err
	case string:
		return &jnode{kind: 's', s: x}, nil
	case json.Number:
		return &jnode{kind: 'n', s: string(x)}, nil
	case bool:
		if x {
			return &jnode{kind: 't'}, nil
		}
		return &jnode{kind: 'f'}, nil
	default:
		return &jnode{kind: 'z'}, nil
	}
}

// numText is the number a JSON text denotes in the models: an exact int64 when
// it is one, else the nearest double; ok is false beyond the double range.
func numText(s string) (i int64, f float64, isInt, ok bool) {
	r, good := new(big.Rat).SetString(s)
	if good && r.IsInt() && r.Num().IsInt64() {
		return r.Num().Int64(), 0, true, true
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) {
		return 0, 0, false, false
	}
	if f == math.Trunc(f) && math.Abs(f) < 1<<63 {
		return int64(f), 0, true, true // the nearest double is an integer
	}
	return 0, f, false, true
}

func numEqual(s string, v any) error {
	i, f, isInt, ok := numText(s)
	if !ok {
		return fmt.Errorf("number %s is out of range but was read as %v", s, v)
	}
	var gi int64
	switch x := v.(type) {
	case int:
		gi = int64(x)
	case int32:
		gi = int64(x)
	case int64:
		gi = x
	case float64:
		if isInt {
			// a double is an acceptable reading of an integer it holds exactly
			if big.NewFloat(x).Cmp(new(big.Float).SetInt64(i)) == 0 {
				return nil
			}
			return fmt.Errorf("number %s read as %v", s, x)
		}
		if x != f {
			return fmt.Errorf("number %s read as %v", s, x)
		}
		return nil
	default:
		return fmt.Errorf("number %s read as %T", s, v)
	}
	if !isInt || gi != i {
		return fmt.Errorf("number %s read as %v", s, v)
	}
	return nil
}

func outOfRange(n *jnode) bool {
	if n.kind == 'n' {
		_, _, _, ok := numText(n.s)
		return !ok
	}
	for _, k := range n.kids {
		if outOfRange(k) {
			return true
		}
	}
	return false
}

func (n *jnode) any(f func(*jnode) bool) bool {
	if f(n) {
		return true
	}
	for _, k := range n.kids {
		if k.any(f) {
			return true
		}
	}
	return false
}

func dollar(n *jnode) bool {
	return n.any(func(n *jnode) bool { return n.kind == 'o' && len(n.keys) > 0 && strings.HasPrefix(n.keys[0], "$") })
}
func nulKey(n *jnode) bool {
	return n.any(func(n *jnode) bool {
		for _, k := range n.keys {
			if strings.IndexByte(k, 0) >= 0 {
				return true
			}
		}
		return false
	})
}

// loneSurrogate: the text holds an escape that denotes no character, or bytes
// that are not UTF-8.
func loneSurrogate(n *jnode) bool {
	return n.any(func(n *jnode) bool {
		if strings.ContainsRune(n.s, utf8.RuneError) {
			return true
		}
		for _, k := range n.keys {
			if strings.ContainsRune(k, utf8.RuneError) {
				return true
			}
		}
		return false
	})
}

// jsonxEqual compares a jsonx value with the tree.
func jsonxEqual(n *jnode, v *jsonx.Value) error {
	switch n.kind {
	case 'o':
		d, ok := v.DocumentOK()
		if !ok || v.Type() != jsonx.ObjectValue {
			return fmt.Errorf("object read as %s", v.Type())
		}
		return jsonxDocEqual(n, d)
	case 'a':
		a, ok := v.ArrayOK()
		if !ok || v.Type() != jsonx.ArrayValue {
			return fmt.Errorf("array read as %s", v.Type())
		}
		return jsonxArrEqual(n, a)
	case 's':
		s, ok := v.StringValueOK()
		if !ok || v.Type() != jsonx.String || s != n.s {
			return fmt.Errorf("string %q read as %v", n.s, v.Interface())
		}
	case 'n':
		return numEqual(n.s, v.Interface())
	case 't', 'f':
		b, ok := v.BooleanOK()
		if !ok || b != (n.kind == 't') {
			return fmt.Errorf("boolean %c read as %v", n.kind, v.Interface())
		}
	case 'z':
		if v.Type() != jsonx.Null {
			return fmt.Errorf("null read as %s", v.Type())
		}
	}
	return nil
}

func jsonxDocEqual(n *jnode, d *jsonx.Document) error {
	if d.Len() != len(n.kids) {
		return fmt.Errorf("object of %d members read as %d", len(n.kids), d.Len())
	}
	i := 0
	for e := range d.Iterator() {
		if e.Key() != n.keys[i] || d.KeyAtIndex(i) != n.keys[i] {
			return fmt.Errorf("key %q read as %q", n.keys[i], e.Key())
		}
		if err := jsonxEqual(n.kids[i], e.Value()); err != nil {
			return fmt.Errorf("%q: %w", n.keys[i], err)
		}
		i++
	}
	return nil
}

func jsonxArrEqual(n *jnode, a *jsonx.Array) error {
	if a.Len() != len(n.kids) {
		return fmt.Errorf("array of %d read as %d", len(n.kids), a.Len())
	}
	i := 0
	for e := range a.Iterator() {
		if err := jsonxEqual(n.kids[i], e); err != nil {
			return fmt.Errorf("[%d]: %w", i, err)
		}
		i++
	}
	return nil
}

// bsonEqual compares a BSON value with the tree (no extended forms inside).
func bsonEqual(n *jnode, v ref.Val) error {
	switch n.kind {
	case 'o':
		if v.T != ref.TDoc {
			return fmt.Errorf("object read as %v", v)
		}
		return bsonDocEqual(n, v.D)
	case 'a':
		if v.T != ref.TArray || len(v.D) != len(n.kids) {
			return fmt.Errorf("array of %d read as %v", len(n.kids), v)
		}
		for i := range v.D {
			if err := bsonEqual(n.kids[i], v.D[i].V); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
	case 's':
		if v.T != ref.TString || v.S != n.s {
			return fmt.Errorf("string %q read as %v", n.s, v)
		}
	case 'n':
		switch v.T {
		case ref.TInt32, ref.TInt64:
			return numEqual(n.s, v.I)
		case ref.TDouble:
			return numEqual(n.s, v.F)
		}
		return fmt.Errorf("number %s read as %v", n.s, v)
	case 't', 'f':
		if v.T != ref.TBool || v.B != (n.kind == 't') {
			return fmt.Errorf("boolean read as %v", v)
		}
	case 'z':
		if v.T != ref.TNull {
			return fmt.Errorf("null read as %v", v)
		}
	}
	return nil
}

func bsonDocEqual(n *jnode, d ref.Doc) error {
	if len(d) != len(n.kids) {
		return fmt.Errorf("object of %d members read as %d", len(n.kids), len(d))
	}
	for i := range d {
		if d[i].K != n.keys[i] {
			return fmt.Errorf("key %q read as %q", n.keys[i], d[i].K)
		}
		if err := bsonEqual(n.kids[i], d[i].V); err != nil {
			return fmt.Errorf("%q: %w", n.keys[i], err)
		}
	}
	return nil
}

func fromBSON(d *birch.Document) (ref.Doc, error) {
	b, err := d.MarshalBSON()
	if err != nil {
		return nil, err
	}
	if _, n, err := ref.Decode(b); err != nil || n != len(b) {
		return nil, fmt.Errorf("encodes to malformed bytes % x", b)
	}
	nd, err := birch.ReadDocument(b)
	if err != nil {
		return nil, err
	}
	return bb.FromDoc(nd)
}

// treeEqual compares two trees with numbers by value.
func treeEqual(a, b *jnode) bool {
	if a.kind != b.kind || len(a.kids) != len(b.kids) {
		return false
	}
	if a.kind == 'n' {
		ai, af, ak, _ := numText(a.s)
		bi, bf, bk, _ := numText(b.s)
		return ak == bk && ai == bi && af == bf
	}
	if a.s != b.s {
		return false
	}
	for i := range a.kids {
		if a.kind == 'o' && a.keys[i] != b.keys[i] {
			return false
		}
		if !treeEqual(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}
