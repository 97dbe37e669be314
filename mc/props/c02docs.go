package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strconv"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

// keyStringer and keyError are map keys that name themselves.
type keyStringer int

func (k keyStringer) String() string { return "named" + strconv.Itoa(int(k)) }

type keyError string

func (k keyError) Error() string { return "err:" + string(k) }

type docCase struct {
	name    string
	in      any
	want    ref.Doc // nil: cannot be a document
	invalid bool    // holds a value BSON cannot: null there, or an error
	opaque  bool    // only the generic constructors of elements take it
}

func docCases() []docCase {
	i5 := ref.Val{T: ref.TInt32, I: 5}
	s := func(x string) ref.Val { return ref.Val{T: ref.TString, S: x} }
	one := ref.Doc{{K: "x", V: i5}}
	two := ref.Doc{{K: "x", V: i5}, {K: "y", V: ref.Val{T: ref.TDoc, D: one}}}
	null := ref.Val{T: ref.TNull}
	bad := errors.New("no")
	jd, err := jsonx.DCE.Bytes([]byte(`{"x":"s","y":{"z":[true,null]}}`))
	if err != nil {
		panic(err)
	}
	jw := ref.Doc{{K: "x", V: s("s")}, {K: "y", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "z", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: ref.Val{T: ref.TBool, B: true}}, {K: "1", V: null}}}}}}}}
	return []docCase{
		{name: "map string", in: map[string]string{"x": "1", "": "é"}, want: ref.Doc{{K: "", V: s("é")}, {K: "x", V: s("1")}}},
		{name: "map string empty", in: map[string]string{}, want: ref.Doc{}},
		{name: "map string nil", in: map[string]string(nil), want: ref.Doc{}},
		{name: "map any", in: map[string]any{"x": int32(5), "y": map[string]any{"x": int32(5)}}, want: two},
		{name: "map any null", in: map[string]any{"x": nil}, want: ref.Doc{{K: "x", V: null}}},
		{name: "map any values", in: map[string]any{"x": birch.VC.Null(), "y": []any{birch.VC.Int32(5), birch.VC.Null()}},
			want: ref.Doc{{K: "x", V: null}, {K: "y", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: i5}, {K: "1", V: null}}}}}},
		{name: "map any invalid", in: map[string]any{"x": make(chan int), "y": int32(5)}, want: ref.Doc{{K: "x", V: null}, {K: "y", V: i5}}, invalid: true},
		{name: "map any nested invalid", in: map[string]any{"x": []any{int32(5), struct{}{}}}, want: ref.Doc{{K: "x", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: i5}, {K: "1", V: null}}}}}, invalid: true},
		{name: "map any deeper invalid", in: map[string]any{"x": map[string]any{"y": map[any]any{1: func() {}}}}, want: ref.Doc{{K: "x", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "y", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "1", V: null}}}}}}}}, invalid: true},
		{name: "map any failing marshaler", in: map[string]any{"x": docMarsh{err: bad}}, want: ref.Doc{{K: "x", V: null}}, invalid: true},
		{name: "map any malformed reader", in: map[string]any{"x": birch.Reader{5, 0}}, want: ref.Doc{{K: "x", V: null}}, invalid: true},
		{name: "map anyany", in: map[any]any{"a": int32(5), 7: int32(5), true: int32(5), keyStringer(3): int32(5), keyError("q"): int32(5)},
			want: ref.Doc{{K: "7", V: i5}, {K: "a", V: i5}, {K: "err:q", V: i5}, {K: "named3", V: i5}, {K: "true", V: i5}}},
		{name: "map anyany invalid", in: map[any]any{1: complex(1, 1)}, want: ref.Doc{{K: "1", V: null}}, invalid: true},
		{name: "map anyany nil", in: map[any]any(nil), want: ref.Doc{}},
		{name: "*Element", in: birch.EC.Int32("x", 5), want: one},
		{name: "[]*Element", in: []*birch.Element{birch.EC.Int32("x", 5), birch.EC.SubDocument("y", bb.Doc(one))}, want: two},
		{name: "[]*Element empty", in: []*birch.Element{}, want: ref.Doc{}},
		{name: "*Document", in: bb.Doc(two), want: two},
		{name: "Reader", in: birch.Reader(two.Encode()), want: two},
		{name: "Reader malformed", in: birch.Reader{9, 0, 0, 0, 1}, want: nil},
		{name: "DocumentMarshaler", in: docMarsh{d: bb.Doc(two)}, want: two},
		{name: "DocumentMarshaler failing", in: docMarsh{err: bad}, want: nil},
		{name: "DocumentMap", in: birch.DocumentMap{"x": birch.EC.Int32("x", 5)}, want: one},
		{name: "DocumentMap mismatched", in: birch.DocumentMap{"y": birch.EC.Int32("x", 5)}, want: nil},
		{name: "Marshaler", in: bsonMarsh{b: two.Encode()}, want: two},
		{name: "Marshaler failing", in: bsonMarsh{err: bad}, want: nil},
		{name: "Marshaler malformed", in: bsonMarsh{b: []byte{1, 2, 3}}, want: nil},
		{name: "*jsonx.Document", in: jd, want: jw, opaque: true},
		{name: "int", in: 5, want: nil},
		{name: "string", in: "x", want: nil},
		{name: "struct", in: struct{ A int }{1}, want: nil},
		{name: "nil", in: nil, want: nil},
	}
}

// sameSet compares documents made from maps, whose order is not defined, at
// every level.
func sameSet(a, b ref.Doc, list bool) bool {
	if len(a) != len(b) {
		return false
	}
	if !list {
		a, b = append(ref.Doc{}, a...), append(ref.Doc{}, b...)
		sort.SliceStable(a, func(i, j int) bool { return a[i].K < a[j].K })
		sort.SliceStable(b, func(i, j int) bool { return b[i].K < b[j].K })
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.V.T != y.V.T || (!list && x.K != y.K) {
			return false
		}
		if x.V.T == ref.TDoc || x.V.T == ref.TArray {
			if !sameSet(x.V.D, y.V.D, x.V.T == ref.TArray) {
				return false
			}
			continue
		}
		if !x.V.Equal(y.V) {
			return false
		}
	}
	return true
}

// c02Documents converts Go values to whole documents with every constructor
// that takes them.
func c02Documents(c *engine.Chooser) {
	cases := docCases()
	gc := cases[c.Choose(len(cases))]
	c.Note("%s", gc.name)
	c.Step()
	c.State(gc.name)
	c.NonTrivial()
	type attempt struct {
		what   string
		checks bool // reports what it cannot convert
		run    func() (*birch.Document, error)
	}
	safe := func(f func() *birch.Document) func() (*birch.Document, error) {
		return func() (d *birch.Document, err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			return f(), nil
		}
	}
	var as []attempt
	if !gc.opaque {
		as = append(as, attempt{"DC.Interface", false, func() (*birch.Document, error) { return birch.DC.Interface(gc.in), nil }},
			attempt{"DCE.Interface", true, func() (*birch.Document, error) { return birch.DCE.Interface(gc.in) }})
	}
	sub := func(e *birch.Element) *birch.Document {
		if d, ok := e.Value().MutableDocumentOK(); ok && e.Key() == "k" {
			return d
		}
		return nil
	}
	switch in := gc.in.(type) {
	case map[string]string:
		as = append(as, attempt{"DC.MapString", false, func() (*birch.Document, error) { return birch.DC.MapString(in), nil }})
	case map[string]any:
		as = append(as, attempt{"DC.MapInterface", false, func() (*birch.Document, error) { return birch.DC.MapInterface(in), nil }},
			attempt{"DCE.MapInterface", true, func() (*birch.Document, error) { return birch.DCE.MapInterface(in) }},
			attempt{"VC.MapInterface", false, func() (*birch.Document, error) { return birch.VC.MapInterface(in).MutableDocument(), nil }},
			attempt{"VCE.MapInterface", true, func() (*birch.Document, error) {
				v, err := birch.VCE.MapInterface(in)
				if err != nil {
					return nil, err
				}
				return v.MutableDocument(), nil
			}})
	case map[any]any:
		as = append(as, attempt{"DC.MapInterfaceInterface", false, func() (*birch.Document, error) { return birch.DC.MapInterfaceInterface(in), nil }},
			attempt{"DCE.MapInterfaceInterface", true, func() (*birch.Document, error) { return birch.DCE.MapInterfaceInterface(in) }})
	case birch.Reader:
		as = append(as, attempt{"DC.Reader", true, safe(func() *birch.Document { return birch.DC.Reader(in) })},
			attempt{"DCE.Reader", true, func() (*birch.Document, error) { return birch.DCE.Reader(in) }},
			attempt{"DC.ReadFrom", true, safe(func() *birch.Document { return birch.DC.ReadFrom(bytes.NewReader(in)) })},
			attempt{"DCE.ReadFrom", true, func() (*birch.Document, error) { return birch.DCE.ReadFrom(bytes.NewReader(in)) }})
	case docMarsh:
		as = append(as, attempt{"ECE.DocumentMarshaler", true, func() (*birch.Document, error) {
			e, err := birch.ECE.DocumentMarshaler("k", in)
			if err != nil {
				return nil, err
			}
			return sub(e), nil
		}})
	case bsonMarsh:
		as = append(as, attempt{"DC.Marshaler", true, safe(func() *birch.Document { return birch.DC.Marshaler(in) })},
			attempt{"DCE.Marshaler", true, func() (*birch.Document, error) { return birch.DCE.Marshaler(in) }})
		if gc.want == nil && in.err == nil {
			break // documented: the bytes of an element are not validated
		}
		as = append(as, attempt{"EC.Marshaler", true, safe(func() *birch.Document { return sub(birch.EC.Marshaler("k", in)) })},
			attempt{"ECE.Marshaler", true, func() (*birch.Document, error) {
				e, err := birch.ECE.Marshaler("k", in)
				if err != nil {
					return nil, err
				}
				return sub(e), nil
			}})
	}
	if _, ok := gc.in.(*birch.Element); !ok && gc.want != nil { // an element stands for itself there
		as = append(as, attempt{"EC.Interface", false, func() (*birch.Document, error) { return sub(birch.EC.Interface("k", gc.in)), nil }})
		if !gc.opaque {
			as = append(as, attempt{"ECE.Interface", true, func() (*birch.Document, error) {
				e, err := birch.ECE.Interface("k", gc.in)
				if err != nil {
					return nil, err
				}
				return sub(e), nil
			}})
		}
	} else if ok {
		if e := birch.EC.Interface("k", gc.in); e == nil || e.Key() != "x" || e.Value().Int32() != 5 {
			c.Fail("EC.Interface of an element is %v", e)
		}
	}
	a := as[c.Choose(len(as))]
	c.Note("%s", a.what)
	d, err := a.run()
	if a.checks && (gc.want == nil || gc.invalid) {
		if err == nil {
			c.Fail("%s(%s) gives %v and reports nothing", a.what, gc.name, d)
		}
		return
	}
	if err != nil {
		c.Fail("%s(%s): %v", a.what, gc.name, err)
	}
	if d == nil {
		c.Fail("%s(%s) gives no document", a.what, gc.name)
	}
	got, err := bb.FromDoc(d)
	if err != nil {
		c.Fail("%s(%s): %v", a.what, gc.name, err)
	}
	if !sameSet(got, gc.want, false) {
		c.Fail("%s(%s) gives %s, want %s", a.what, gc.name, got, gc.want)
	}
	b, err := d.MarshalBSON()
	if err != nil {
		c.Fail("%s(%s): encoding: %v", a.what, gc.name, err)
	}
	if back, _, err := ref.Decode(b); err != nil || !sameSet(back, gc.want, false) {
		c.Fail("%s(%s) is encoded as %s (%v), want %s", a.what, gc.name, back, err, gc.want)
	}
}

type sinkDoc struct {
	got ref.Doc
	err error
}

func (s *sinkDoc) UnmarshalDocument(d *birch.Document) error {
	s.got, _ = bb.FromDoc(d)
	return s.err
}

type sinkBSON struct {
	got []byte
	err error
}

func (s *sinkBSON) UnmarshalBSON(b []byte) error {
	s.got = append([]byte{}, b...)
	return s.err
}

// c02Unmarshal reads documents into every kind of target.
func c02Unmarshal(c *engine.Chooser) {
	i5 := ref.Val{T: ref.TInt32, I: 5}
	vals := []ref.Val{i5, {T: ref.TString, S: "s"}, {T: ref.TNull}, {T: ref.TDoc, D: ref.Doc{{K: "n", V: i5}}}}
	keys := []string{"a", "", "old"}
	m := ref.Doc{}
	for n := c.Choose(3); n > 0; n-- {
		m = append(m, ref.Elem{K: keys[c.Choose(3)], V: vals[c.Choose(len(vals))]})
	}
	d := bb.Doc(m)
	if c.Bool() {
		var err error
		if d, err = birch.ReadDocument(m.Encode()); err != nil {
			c.Fail("ReadDocument: %v", err)
		}
	}
	c.Note("%s", m)
	c.Step()
	c.StateB(m.Encode())
	if len(m) > 0 {
		c.NonTrivial()
	}
	refused := errors.New("refused")
	last := func(k string) (out ref.Val, ok bool) {
		for _, e := range m {
			if e.K == k {
				out, ok = e.V, true
			}
		}
		return
	}
	uniq := map[string]bool{}
	for _, e := range m {
		uniq[e.K] = true
	}
	switch k := c.Choose(9); k {
	case 0, 1:
		s := &sinkDoc{}
		if k == 1 {
			s.err = refused
		}
		if err := d.Unmarshal(s); !errors.Is(err, s.err) || (err == nil) != (s.err == nil) || !s.got.Equal(m) {
			c.Fail("Unmarshal into a DocumentUnmarshaler: %s, %v", s.got, err)
		}
	case 2, 3:
		s := &sinkBSON{}
		if k == 3 {
			s.err = refused
		}
		if err := d.Unmarshal(s); !errors.Is(err, s.err) || (err == nil) != (s.err == nil) || !bytes.Equal(s.got, m.Encode()) {
			c.Fail("Unmarshal into an Unmarshaler: % x, %v", s.got, err)
		}
	case 4:
		out := birch.DocumentMap{"old": birch.EC.Int32("old", 1), "kept": birch.EC.Int32("kept", 2)}
		if err := d.Unmarshal(out); err != nil {
			c.Fail("Unmarshal into a DocumentMap: %v", err)
		}
		for key, e := range out {
			want, ok := last(key)
			if !ok {
				want = ref.Val{T: ref.TInt32, I: map[string]int64{"old": 1, "kept": 2}[key]}
			}
			if err := eqElem(e, ref.Elem{K: key, V: want}); err != nil {
				c.Fail("Unmarshal into a DocumentMap: %v", err)
			}
		}
		uniq["old"], uniq["kept"] = true, true
		if len(out) != len(uniq) {
			c.Fail("Unmarshal into a DocumentMap: %d keys, want %d", len(out), len(uniq))
		}
	case 5:
		out := map[string]string{"old": "o", "kept": "k"}
		if err := d.Unmarshal(out); err != nil {
			c.Fail("Unmarshal into a map: %v", err)
		}
		want := map[string]string{"old": "o", "kept": "k"}
		for _, e := range m {
			if e.V.T == ref.TString {
				want[e.K] = e.V.S
			}
		}
		if fmt.Sprint(out) != fmt.Sprint(want) {
			c.Fail("Unmarshal into a map: %v, want %v", out, want)
		}
	case 6, 7:
		out, anys := map[string]any{"old": "o", "kept": "k"}, map[any]any{"old": "o", "kept": "k"}
		var err error
		if k == 6 {
			err = d.Unmarshal(out)
		} else if err = d.Unmarshal(anys); err == nil {
			out = map[string]any{}
			for key, v := range anys {
				out[key.(string)] = v
			}
		}
		if err != nil {
			c.Fail("Unmarshal into a map: %v", err)
		}
		uniq["old"], uniq["kept"] = true, true
		for key, v := range out {
			want, ok := last(key)
			if !ok && v != map[string]any{"old": "o", "kept": "k"}[key] || ok && !sameNative(nativeWant(want), v) {
				c.Fail("Unmarshal into a map: %q: %#v", key, v)
			}
		}
		if len(out) != len(uniq) {
			c.Fail("Unmarshal into a map: %d keys, want %d", len(out), len(uniq))
		}
	case 8:
		for _, into := range []any{nil, 1, &struct{}{}, map[string]int{}, &map[string]any{}, []any{}} {
			if err := d.Unmarshal(into); err == nil {
				c.Fail("Unmarshal into %T reports nothing", into)
			}
		}
	}
	if got, err := bb.FromDoc(d); err != nil || !got.Equal(m) {
		c.Fail("Unmarshal changed the document to %s", got)
	}
}
