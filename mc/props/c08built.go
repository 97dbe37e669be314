package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strconv"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

// jleaf is a JSON value as a program states it.
type jleaf struct {
	name string
	typ  jsonx.Type
	tstr string
	mk   func() *jsonx.Value
	elem func(k string) *jsonx.Element
	is   func(n *jnode) bool // the text that denotes it
	bson ref.Val
	bad  bool // JSON cannot hold it
}

func jleaves() []jleaf {
	var out []jleaf
	for _, s := range []string{"", "plain", "q\"b\\s/", "\x00\x01\t\n\r\x1f\x7f", "é世😀\u2028", "{}[],:"} {
		out = append(out, jleaf{strconv.Quote(s), jsonx.String, "string", func() *jsonx.Value { return jsonx.VC.String(s) },
			func(k string) *jsonx.Element { return jsonx.EC.String(k, s) },
			func(n *jnode) bool { return n.kind == 's' && n.s == s }, str(s), false})
	}
	for _, b := range []bool{true, false} {
		out = append(out, jleaf{fmt.Sprint(b), jsonx.Bool, "bool", func() *jsonx.Value { return jsonx.VC.Boolean(b) },
			func(k string) *jsonx.Element { return jsonx.EC.Boolean(k, b) },
			func(n *jnode) bool { return n.kind == 't' && b || n.kind == 'f' && !b }, ref.Val{T: ref.TBool, B: b}, false})
	}
	out = append(out, jleaf{"nil", jsonx.Null, "null", jsonx.VC.Nil, jsonx.EC.Nil, func(n *jnode) bool { return n.kind == 'z' }, ref.Val{T: ref.TNull}, false})
	num := func(text string) func(n *jnode) bool {
		return func(n *jnode) bool { return n.kind == 'n' && n.s == text }
	}
	for _, v := range []int64{0, 1, -1, math.MaxInt32 - 1, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1<<53 + 1, math.MaxInt64, math.MinInt64} {
		text := strconv.FormatInt(v, 10)
		bv := ref.Val{T: ref.TInt64, I: v}
		if v == int64(int32(v)) {
			bv = i32(v)
		}
		out = append(out,
			jleaf{"int " + text, jsonx.NumberInteger, "integer", func() *jsonx.Value { return jsonx.VC.Int(int(v)) }, func(k string) *jsonx.Element { return jsonx.EC.Int(k, int(v)) }, num(text), bv, false},
			jleaf{"int64 " + text, jsonx.NumberInteger, "integer", func() *jsonx.Value { return jsonx.VC.Int64(v) }, func(k string) *jsonx.Element { return jsonx.EC.Int64(k, v) }, num(text), ref.Val{T: ref.TInt64, I: v}, false})
		if v == int64(int32(v)) {
			out = append(out, jleaf{"int32 " + text, jsonx.NumberInteger, "integer", func() *jsonx.Value { return jsonx.VC.Int32(int32(v)) }, func(k string) *jsonx.Element { return jsonx.EC.Int32(k, int32(v)) }, num(text), i32(v), false})
		}
	}
	for _, v := range []float64{0, math.Copysign(0, -1), 1, -2.5, 0.1, 1e21, -1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, math.NaN(), math.Inf(1), math.Inf(-1)} {
		bad := math.IsNaN(v) || math.IsInf(v, 0)
		out = append(out, jleaf{fmt.Sprint("float64 ", v), jsonx.NumberDouble, "double", func() *jsonx.Value { return jsonx.VC.Float64(v) }, func(k string) *jsonx.Element { return jsonx.EC.Float64(k, v) },
			func(n *jnode) bool {
				f, err := strconv.ParseFloat(n.s, 64)
				return n.kind == 'n' && err == nil && f == v
			}, ref.Val{T: ref.TDouble, F: v}, bad})
		w := float32(v)
		if math.IsInf(float64(w), 0) && !bad {
			continue
		}
		out = append(out, jleaf{fmt.Sprint("float32 ", v), jsonx.NumberDouble, "double", func() *jsonx.Value { return jsonx.VC.Float32(w) }, func(k string) *jsonx.Element { return jsonx.EC.Float32(k, w) },
			func(n *jnode) bool {
				f, err := strconv.ParseFloat(n.s, 32)
				return n.kind == 'n' && err == nil && float32(f) == w
			}, ref.Val{T: ref.TDouble, F: float64(w)}, bad})
	}
	return out
}

// jtree is a value with the text and the BSON it stands for.
type jtree struct {
	name string
	v    *jsonx.Value
	elem func(k string) *jsonx.Element
	is   func(n *jnode) bool
	bson ref.Val
	bad  bool
}

// jwrap puts values into a container, built in one of the ways there are.
func jwrap(how int, kids []jtree) jtree {
	keys := []string{"k\"1", "", "k\"1"}
	t := jtree{bson: ref.Val{T: ref.TDoc, D: ref.Doc{}}}
	arr := how >= 3
	if arr {
		t.bson.T = ref.TArray
	}
	var es []*jsonx.Element
	var vs []*jsonx.Value
	for i, k := range kids {
		t.bad = t.bad || k.bad
		t.name += " " + k.name
		vs = append(vs, k.v)
		if i%2 == 0 {
			es = append(es, k.elem(keys[i]))
		} else {
			es = append(es, jsonx.EC.Value(keys[i], k.v))
		}
		key := keys[i]
		if arr {
			key = strconv.Itoa(i)
		}
		t.bson.D = append(t.bson.D, ref.Elem{K: key, V: k.bson})
	}
	t.is = func(n *jnode) bool {
		if n.kind != map[bool]byte{false: 'o', true: 'a'}[arr] || len(n.kids) != len(kids) {
			return false
		}
		for i, k := range kids {
			if !arr && n.keys[i] != keys[i] || !k.is(n.kids[i]) {
				return false
			}
		}
		return true
	}
	switch how {
	case 0:
		t.v = jsonx.VC.ObjectFromElements(es...)
		t.elem = func(k string) *jsonx.Element { return jsonx.EC.ObjectFromElements(k, es...) }
	case 1:
		d := jsonx.DC.Elements(es...)
		t.v = jsonx.VC.Object(d)
		t.elem = func(k string) *jsonx.Element { return jsonx.EC.Object(k, d) }
	case 2:
		d := jsonx.DC.New()
		for _, e := range es {
			d.Append(e.Copy())
		}
		t.v = jsonx.VC.Object(d.Copy())
		d.Append(jsonx.EC.Int("more", 1)) // the copy stays as it is
		t.elem = func(k string) *jsonx.Element { return jsonx.EC.Value(k, t.v.Copy()) }
	case 3:
		t.v = jsonx.VC.ArrayFromElements(vs...)
		t.elem = func(k string) *jsonx.Element { return jsonx.EC.ArrayFromElements(k, vs...) }
	case 4:
		a := jsonx.AC.Elements(vs...)
		t.v = jsonx.VC.Array(a)
		t.elem = func(k string) *jsonx.Element { return jsonx.EC.Array(k, a) }
	case 5:
		a := jsonx.AC.Make(1)
		for _, v := range vs {
			a.Append(v.Copy())
		}
		t.v = jsonx.VC.Array(a.Copy())
		a.Append(jsonx.VC.Int(1))
		t.elem = func(k string) *jsonx.Element { return jsonx.EC.Value(k, t.v.Copy()) }
	}
	t.name = fmt.Sprintf("%c(%s)", "ooobbb"[how], t.name)
	return t
}

func jcheck(c *engine.Chooser, what string, out []byte, err error, t jtree) {
	c.Step()
	if t.bad {
		if err == nil {
			c.Fail("%s of %s gives %q, JSON has no such value", what, t.name, out)
		}
		return
	}
	if err != nil {
		c.Fail("%s of %s: %v", what, t.name, err)
	}
	n, ok := parseJSON(out)
	if !ok || !t.is(n) {
		c.Fail("%s of %s gives %q", what, t.name, out)
	}
}

// c08Built writes trees that programs built, and converts them.
func c08Built(leaves []jleaf, deep bool) func(c *engine.Chooser) {
	few := []int{0, 2, 6, 8, 9, 14, len(leaves) - 1}
	return func(c *engine.Chooser) {
		leaf := func(i int) jtree {
			l := leaves[i]
			return jtree{l.name, l.mk(), l.elem, l.is, l.bson, l.bad}
		}
		var top jtree
		switch c.Choose(2) {
		case 0: // every leaf, in every container, between others
			i := c.Choose(len(leaves))
			l := leaves[i]
			for _, v := range []*jsonx.Value{l.mk(), l.elem("k").Value(), l.mk().Copy(), jsonx.EC.Value("k", l.mk()).Copy().Value()} {
				c.Step()
				if v.Type() != l.typ || v.Type().String() != l.tstr {
					c.Fail("%s is of type %s", l.name, v.Type())
				}
				jtypes(c, l.name, v, l.typ, l.bson)
				out, err := v.MarshalJSON()
				jcheck(c, "MarshalJSON", out, err, leaf(i))
			}
			how := c.Choose(6)
			kids := []jtree{leaf(i)}
			for n := c.Choose(3); n > 0; n-- {
				kids = append(kids, leaf(engine.Pick(c, few[:3])))
			}
			top = jwrap(how, kids)
		case 1: // trees
			inner := func() jtree {
				if c.Bool() {
					return leaf(engine.Pick(c, few))
				}
				h := c.Choose(6)
				var kids []jtree
				for n := c.Choose(2); n > 0; n-- {
					kids = append(kids, leaf(engine.Pick(c, few)))
				}
				return jwrap(h, kids)
			}
			h := c.Choose(6)
			kids := []jtree{inner()}
			if c.Bool() {
				kids = append(kids, inner())
			}
			top = jwrap(h, kids)
			if deep {
				top = jwrap(c.Choose(6), []jtree{top})
			}
		}
		c.Note("%s", top.name)
		c.State(top.name)
		c.NonTrivial()
		out, err := top.v.MarshalJSON()
		jcheck(c, "Value.MarshalJSON", out, err, top)
		var a *jsonx.Array
		d, isDoc := top.v.DocumentOK()
		if isDoc {
			out, err = d.MarshalJSON()
			jcheck(c, "Document.MarshalJSON", out, err, top)
			if d.Len() != len(top.bson.D) || d.ElementAtIndex(d.Len()) != nil || d.KeyAtIndex(d.Len()) != "" {
				c.Fail("%s has %d members", top.name, d.Len())
			}
			for i, e := range top.bson.D {
				x, ok := d.ElementAtIndex(i).ValueOK()
				if d.KeyAtIndex(i) != e.K || !ok || x != d.ElementAtIndex(i).Value() {
					c.Fail("member %d of %s is %q", i, top.name, d.KeyAtIndex(i))
				}
			}
		} else {
			a = top.v.Array()
			out, err = a.MarshalJSON()
			jcheck(c, "Array.MarshalJSON", out, err, top)
			if a.Len() != len(top.bson.D) {
				c.Fail("%s has %d values", top.name, a.Len())
			}
			d = jsonx.DC.Elements(jsonx.EC.Array("k", a))
			inner := top
			top = jtree{name: top.name, bson: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "k", V: top.bson}}}, bad: top.bad, is: func(n *jnode) bool {
				return n.kind == 'o' && len(n.kids) == 1 && n.keys[0] == "k" && inner.is(n.kids[0])
			}}
		}
		// to BSON and back to the reader
		for i, f := range []func() (*birch.Document, error){
			func() (*birch.Document, error) { return birch.DCE.JSONX(d) },
			func() (*birch.Document, error) { return birch.DC.JSONX(d), nil },
		} {
			bd, err := f()
			c.Step()
			if err != nil {
				c.Fail("JSONX of %s: %v", top.name, err)
			}
			got, err := bb.FromDoc(bd)
			if err != nil || !got.Equal(top.bson.D) {
				c.Fail("conversion %d of %s gives %s (%v), want %s", i, top.name, got, err, top.bson)
			}
		}
		if top.bad {
			return
		}
		out, err = d.MarshalJSON()
		jcheck(c, "MarshalJSON", out, err, top)
		n, _ := parseJSON(out)
		for i, f := range []func() (*jsonx.Document, error){
			func() (*jsonx.Document, error) { return jsonx.DCE.Bytes(out) },
			func() (*jsonx.Document, error) { return jsonx.DC.Bytes(out), nil },
			func() (*jsonx.Document, error) { return jsonx.DCE.Reader(bytes.NewReader(out)) },
			func() (*jsonx.Document, error) { return jsonx.DC.Reader(bytes.NewReader(out)), nil },
			func() (*jsonx.Document, error) { return jsonx.VC.Bytes(out).Document(), nil },
			func() (*jsonx.Document, error) { return jsonx.VC.Reader(bytes.NewReader(out)).Document(), nil },
			func() (*jsonx.Document, error) {
				var last *jsonx.Document
				for v := range jsonx.AC.Bytes([]byte("[" + string(out) + "]")).Copy().Iterator() {
					last = v.Document()
				}
				return last, nil
			},
		} {
			c.Step()
			back, err := f()
			if err != nil {
				c.Fail("reading %q back (%d): %v", out, i, err)
			}
			if err := jsonxDocEqual(n, back); err != nil {
				c.Fail("reading %q back (%d): %v", out, i, err)
			}
		}
	}
}

// jtypes checks the accessors of a leaf.
func jtypes(c *engine.Chooser, name string, v *jsonx.Value, t jsonx.Type, want ref.Val) {
	s, sok := v.StringValueOK()
	b, bok := v.BooleanOK()
	i, iok := v.IntOK()
	f, fok := v.Float64OK()
	_, aok := v.ArrayOK()
	_, dok := v.DocumentOK()
	if sok != (t == jsonx.String) || bok != (t == jsonx.Bool) || iok && t != jsonx.NumberInteger || fok && t != jsonx.NumberDouble || aok || dok {
		c.Fail("%s is read as %v %v %v %v %v %v", name, sok, bok, iok, fok, aok, dok)
	}
	if sok && (s != want.S || v.StringValue() != s) || bok && (b != want.B || v.Boolean() != b) || iok && (int64(i) != want.I || v.Int() != i) ||
		fok && math.Float64bits(f) != math.Float64bits(want.F) && f == f {
		c.Fail("%s is read as %q %v %v %v", name, s, b, i, f)
	}
	if _, isInt := v.Interface().(int); isInt != iok {
		c.Fail("%s: integer read %v", name, iok)
	}
}

// c08Broken: trees with holes are refused with an error, not a crash.
func c08Broken(c *engine.Chooser) {
	c.NonTrivial()
	hole := []*jsonx.Value{nil, jsonx.VC.Array(nil), jsonx.VC.Float64(math.NaN()), jsonx.VC.Float32(float32(math.Inf(1))), {}}
	h := c.Choose(len(hole))
	v := hole[h]
	for n := c.Choose(3); n > 0; n-- {
		if c.Bool() {
			v = jsonx.VC.ArrayFromElements(jsonx.VC.Int(1), v)
		} else {
			v = jsonx.VC.ObjectFromElements(jsonx.EC.Nil("a"), jsonx.EC.Value("k", v))
		}
		c.State(fmt.Sprint(h, n, v.Type()))
	}
	c.Step()
	if _, err := func() (b []byte, err error) {
		defer func() {
			if p := recover(); p != nil && h == 4 {
				err = errors.New("panics")
			} else if p != nil {
				panic(p)
			}
		}()
		return v.MarshalJSON()
	}(); err == nil && h != 4 {
		c.Fail("a tree with a hole (%d) is written", h)
	}
}
