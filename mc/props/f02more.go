package props

import (
	"errors"
	"fmt"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"

	"birchmc/engine"
	"birchmc/ref"
)

// f02Foreign is a type only the registered marshaler knows.
type f02Foreign struct {
	doc ref.Doc
	bad int
}

// f02Marshal stands for a general-purpose BSON library.
func f02Marshal(in any) ([]byte, error) {
	f, ok := in.(f02Foreign)
	switch {
	case !ok:
		return nil, fmt.Errorf("cannot marshal %T", in)
	case f.bad == 1:
		return nil, errInjected
	case f.bad == 2:
		return []byte{7, 0, 0, 0, 1, 2}, nil
	}
	return f.doc.Encode(), nil
}

type f02Form struct {
	name string
	mk   func(n int) (any, ref.Doc)
}

func i64v(n int64) ref.Val { return ref.Val{T: ref.TInt64, I: n} }

// f02Forms are the Go values that stand for a sample.
func f02Forms() []f02Form {
	two := func(v func(int) ref.Val, n int) ref.Doc {
		return ref.Doc{{K: "a", V: v(n)}, {K: "b", V: v(n * 3)}}
	}
	small := func(n int) ref.Val { return i32(int64(n)) }
	wide := func(n int) ref.Val { return i64v(int64(n)) }
	var out []f02Form
	for f, name := range []string{"document", "bytes", "document marshaler", "marshaler"} {
		out = append(out, f02Form{name, func(n int) (any, ref.Doc) { d := two(small, n); return addForm(f, d), d }})
	}
	return append(out,
		f02Form{"map any", func(n int) (any, ref.Doc) {
			return map[string]any{"b": int32(n * 3), "a": int32(n)}, two(small, n)
		}},
		f02Form{"map any mixed", func(n int) (any, ref.Doc) {
			return map[string]any{"b": map[string]any{"c": n}, "a": int64(n), "s": "v", "z": []int32{int32(n), 1}},
				ref.Doc{{K: "a", V: wide(n)}, {K: "b", V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "c", V: small(n)}}}}, {K: "s", V: str("v")},
					{K: "z", V: ref.Val{T: ref.TArray, D: ref.Doc{{K: "0", V: small(n)}, {K: "1", V: small(1)}}}}}
		}},
		f02Form{"map int", func(n int) (any, ref.Doc) { return map[string]int{"b": n * 3, "a": n}, two(small, n) }},
		f02Form{"map int64", func(n int) (any, ref.Doc) {
			return map[string]int64{"b": int64(n * 3), "a": int64(n)}, two(wide, n)
		}},
		f02Form{"map uint", func(n int) (any, ref.Doc) {
			return map[string]uint{"b": uint(n * 3), "a": uint(n)}, two(small, n)
		}},
		f02Form{"map uint64", func(n int) (any, ref.Doc) {
			return map[string]uint64{"b": uint64(n * 3), "a": uint64(n)}, two(small, n)
		}},
		f02Form{"map uint64 wide", func(n int) (any, ref.Doc) {
			k := uint64(1)<<62 + uint64(n)
			return map[string]uint64{"b": k, "a": k + 1}, ref.Doc{{K: "a", V: i64v(int64(k + 1))}, {K: "b", V: i64v(int64(k))}}
		}},
		f02Form{"registered", func(n int) (any, ref.Doc) { d := two(small, n); return f02Foreign{doc: d}, d }},
	)
}

// f02Unusable are inputs no sample can be read from.
func f02Unusable() map[string]any {
	return map[string]any{
		"nil":                      nil,
		"nil document":             (*birch.Document)(nil),
		"map of strings":           map[string]string{"a": "b"},
		"map of structs":           map[string]struct{}{"a": {}},
		"overflowing map":          map[string]uint64{"a": 1, "b": 1 << 63},
		"overflowing uints":        map[string]uint{"a": 1 << 63},
		"failing marshaler":        bsonMarsh{err: errInjected},
		"marshaler of nothing":     docMarsh{},
		"failing document":         docMarsh{err: errInjected},
		"malformed marshaler":      bsonMarsh{b: []byte{9, 0, 0, 0, 0}},
		"short bytes":              []byte{5, 0, 0},
		"no bytes":                 []byte{},
		"foreign":                  make(chan int),
		"failing registered":       f02Foreign{bad: 1},
		"malformed registered":     f02Foreign{bad: 2},
		"foreign with none":        f02Foreign{doc: ref.Doc{{K: "a", V: i32(1)}}}, // the marshaler is removed first
		"map of strings, metadata": map[string]string{"a": "b"},
	}
}

func (r *f02Run) addValue(what string, in any, d ref.Doc) {
	r.n++
	r.c.Note("add %s: %s", what, d)
	fmt.Fprintf(&r.trace, "|%s", what)
	must := r.k.dynamic || (len(r.held) == 0 || schemaOf(r.held[len(r.held)-1]) == schemaOf(d)) && (!r.k.fixed || len(r.held) < r.size)
	err := r.coll.Add(in)
	r.c.Step()
	if m, ok := in.(map[string]any); ok {
		delete(m, "a")
		m["scribbled"] = 1
	}
	scribble(in)
	if err != nil {
		if must {
			r.c.Fail("adding %s %s: %v", what, d, err)
		}
		r.settle("a refused add")
		return
	}
	r.all, r.held = append(r.all, d), append(r.held, d)
	r.settle("adding " + what)
}

// f02FormsRun records samples given in every form, in every order, with
// unusable ones in between.
func f02FormsRun(c *engine.Chooser) {
	util.RegisterGlobalMarshaler(f02Marshal)
	defer util.RegisterGlobalMarshaler(nil)
	forms, bads := f02Forms(), f02Unusable()
	names := []string{"nil", "nil document", "map of strings", "map of structs", "overflowing map", "overflowing uints", "failing marshaler", "failing document", "marshaler of nothing", "malformed marshaler", "short bytes", "no bytes", "foreign", "failing registered", "malformed registered", "foreign with none", "map of strings, metadata"}
	k := engine.Pick(c, collKinds())
	r := newF02(c, k, 3, 0)
	bad, at := -1, 0
	fs := [3]int{c.Choose(len(forms)), 0, 0}
	if c.Bool() {
		// any two forms
		fs[1] = c.Choose(len(forms))
	} else {
		fs[1], fs[2] = fs[0], fs[0]
		bad, at = c.Choose(len(names)), c.Choose(3)
	}
	c.NonTrivial()
	for i, f := range fs {
		if bad >= 0 && i == at {
			name := names[bad]
			in := bads[name]
			c.Note("unusable: %s", name)
			fmt.Fprintf(&r.trace, "|!%s", name)
			if name == "foreign with none" {
				util.RegisterGlobalMarshaler(nil)
			}
			var err error
			if name == "map of strings, metadata" {
				err = r.coll.SetMetadata(in)
			} else {
				err = r.coll.Add(in)
			}
			c.Step()
			if err == nil {
				c.Fail("unusable input (%s) was accepted", name)
			}
			r.settle("a refused input")
			util.RegisterGlobalMarshaler(f02Marshal)
		}
		in, d := forms[f].mk(i + 1)
		r.addValue(forms[f].name, in, d)
	}
	r.finish()
}

// f02Arrays: schemas that differ only inside arrays.
func f02ArraySample(s, n int) ref.Doc {
	arr := func(vs ...ref.Val) ref.Val {
		d := ref.Doc{}
		for i, v := range vs {
			d = append(d, ref.Elem{K: fmt.Sprint(i), V: v})
		}
		return ref.Val{T: ref.TArray, D: d}
	}
	x, y := i64v(int64(n*n+7)), i32(int64(n))
	in := ref.Val{T: ref.TDoc, D: ref.Doc{{K: "c", V: y}}}
	switch s {
	case 1:
		return ref.Doc{{K: "a", V: arr(x, y, y)}}
	case 2:
		return ref.Doc{{K: "a", V: arr(y, x)}}
	case 3:
		return ref.Doc{{K: "a", V: arr(x)}, {K: "b", V: y}}
	case 4:
		return ref.Doc{{K: "a", V: arr(x, in)}}
	case 5:
		return ref.Doc{{K: "a", V: arr(arr(x), y)}}
	case 6:
		return ref.Doc{{K: "a", V: arr(x, str("s"), y)}}
	case 7:
		return ref.Doc{{K: "a", V: arr()}, {K: "b", V: y}}
	}
	return ref.Doc{{K: "a", V: arr(x, y)}}
}

func f02Arrays(n int) func(*engine.Chooser) {
	return func(c *engine.Chooser) {
		var ks []collKind
		for _, k := range collKinds() {
			if k.dynamic {
				ks = append(ks, k)
			}
		}
		r := newF02(c, engine.Pick(c, ks), 1+c.Choose(2), 0)
		last := -1
		for i := 0; i < n; i++ {
			s := c.Choose(8)
			if last >= 0 && last != s {
				c.NonTrivial()
			}
			last = s
			d := f02ArraySample(s, i)
			r.addValue(fmt.Sprintf("array %d", s), addForm(i%2, d), d)
		}
		r.finish()
	}
}

// f02Nowhere: a flush that cannot be made, and one of nothing.
func f02Nowhere(c *engine.Chooser) {
	r := newF02(c, engine.Pick(c, collKinds()), 2, 0)
	n := c.Choose(3)
	for i := 0; i < n; i++ {
		r.add(0)
		c.NonTrivial()
	}
	if err := ftdc.FlushCollector(r.coll, nil); err == nil {
		c.Fail("flushing %d samples nowhere reports success", n)
	}
	c.Step()
	r.settle("a flush to nowhere")
	if c.Bool() {
		short := &f02Short{}
		if err := ftdc.FlushCollector(r.coll, short); (err == nil) != (len(r.held) == 0) {
			c.Fail("flushing %d samples to a writer that takes half of them: %v", len(r.held), err)
		}
		c.Step()
		r.settle("a short flush")
	}
	r.finish()
}

type f02Short struct{ n int }

func (s *f02Short) Write(p []byte) (int, error) { s.n++; return len(p) / 2, nil }

var _ birch.DocumentMarshaler = docMarsh{}
var _ = errors.New
