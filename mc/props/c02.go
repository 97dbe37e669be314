package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
)

// accessor is one checked accessor together with its unchecked twin.
type accessor struct {
	name  string
	types []byte
	ok    func(v *birch.Value) (any, bool) // nil: no checked form
	must  func(v *birch.Value) any
	want  func(v ref.Val) any
}

func docBytes(d *birch.Document) any {
	if d == nil {
		return nil
	}
	b, err := d.MarshalBSON()
	if err != nil {
		return err
	}
	return string(b)
}

func arrBytes(a *birch.Array) any {
	if a == nil {
		return nil
	}
	b, err := a.MarshalBSON()
	if err != nil {
		return err
	}
	return string(b)
}

type pair struct{ a, b any }

func refTime(ms int64) time.Time {
	sec := ms / 1000
	rem := ms % 1000
	if rem < 0 {
		rem += 1000
		sec--
	}
	return time.Unix(sec, rem*1000000)
}

func accessors() []accessor {
	return []accessor{
		{"Double", []byte{ref.TDouble}, func(v *birch.Value) (any, bool) { x, ok := v.DoubleOK(); return math.Float64bits(x), ok }, func(v *birch.Value) any { return math.Float64bits(v.Double()) }, func(v ref.Val) any { return math.Float64bits(v.F) }},
		{"StringValue", []byte{ref.TString}, func(v *birch.Value) (any, bool) { x, ok := v.StringValueOK(); return x, ok }, func(v *birch.Value) any { return v.StringValue() }, func(v ref.Val) any { return v.S }},
		{"ReaderDocument", []byte{ref.TDoc}, func(v *birch.Value) (any, bool) { x, ok := v.ReaderDocumentOK(); return string(x), ok }, func(v *birch.Value) any { return string(v.ReaderDocument()) }, func(v ref.Val) any { return string(v.EncodeValue()) }},
		{"ReaderArray", []byte{ref.TArray}, func(v *birch.Value) (any, bool) { x, ok := v.ReaderArrayOK(); return string(x), ok }, func(v *birch.Value) any { return string(v.ReaderArray()) }, func(v ref.Val) any { return string(v.EncodeValue()) }},
		{"Reader(document or array)", []byte{ref.TDoc, ref.TArray}, nil, func(v *birch.Value) any {
			if t := v.Type(); t != bsontype.EmbeddedDocument && t != bsontype.Array {
				panic("not applicable")
			}
			return string(v.Reader())
		}, func(v ref.Val) any { return string(v.EncodeValue()) }},
		{"MutableDocument", []byte{ref.TDoc}, func(v *birch.Value) (any, bool) { x, ok := v.MutableDocumentOK(); return docBytes(x), ok }, func(v *birch.Value) any { return docBytes(v.MutableDocument()) }, func(v ref.Val) any { return string(v.EncodeValue()) }},
		{"MutableArray", []byte{ref.TArray}, func(v *birch.Value) (any, bool) { x, ok := v.MutableArrayOK(); return arrBytes(x), ok }, func(v *birch.Value) any { return arrBytes(v.MutableArray()) }, func(v ref.Val) any { return string(v.EncodeValue()) }},
		{"Binary", []byte{ref.TBinary}, func(v *birch.Value) (any, bool) { s, x, ok := v.BinaryOK(); return pair{s, string(x)}, ok }, func(v *birch.Value) any { s, x := v.Binary(); return pair{s, string(x)} }, func(v ref.Val) any { return pair{v.Sub, string(v.Bin)} }},
		{"ObjectID", []byte{ref.TOID}, func(v *birch.Value) (any, bool) { x, ok := v.ObjectIDOK(); return [12]byte(x), ok }, func(v *birch.Value) any { return [12]byte(v.ObjectID()) }, func(v ref.Val) any { return v.OID }},
		{"Boolean", []byte{ref.TBool}, func(v *birch.Value) (any, bool) { x, ok := v.BooleanOK(); return x, ok }, func(v *birch.Value) any { return v.Boolean() }, func(v ref.Val) any { return v.B }},
		{"DateTime", []byte{ref.TDate}, func(v *birch.Value) (any, bool) { x, ok := v.DateTimeOK(); return x, ok }, func(v *birch.Value) any { return v.DateTime() }, func(v ref.Val) any { return v.I }},
		{"Time", []byte{ref.TDate}, func(v *birch.Value) (any, bool) { x, ok := v.TimeOK(); return pair{x.Unix(), x.Nanosecond()}, ok }, func(v *birch.Value) any { x := v.Time(); return pair{x.Unix(), x.Nanosecond()} }, func(v ref.Val) any { x := refTime(v.I); return pair{x.Unix(), x.Nanosecond()} }},
		{"Regex", []byte{ref.TRegex}, nil, func(v *birch.Value) any { a, b := v.Regex(); return pair{a, b} }, func(v ref.Val) any { return pair{v.S, v.S2} }},
		{"DBPointer", []byte{ref.TDBPtr}, func(v *birch.Value) (any, bool) { a, b, ok := v.DBPointerOK(); return pair{a, [12]byte(b)}, ok }, func(v *birch.Value) any { a, b := v.DBPointer(); return pair{a, [12]byte(b)} }, func(v ref.Val) any { return pair{v.S, v.OID} }},
		{"JavaScript", []byte{ref.TJS}, func(v *birch.Value) (any, bool) { x, ok := v.JavaScriptOK(); return x, ok }, func(v *birch.Value) any { return v.JavaScript() }, func(v ref.Val) any { return v.S }},
		{"Symbol", []byte{ref.TSymbol}, nil, func(v *birch.Value) any { return v.Symbol() }, func(v ref.Val) any { return v.S }},
		{"ReaderJavaScriptWithScope", []byte{ref.TCodeScope}, func(v *birch.Value) (any, bool) {
			a, b, ok := v.ReaderJavaScriptWithScopeOK()
			return pair{a, string(b)}, ok
		}, func(v *birch.Value) any { a, b := v.ReaderJavaScriptWithScope(); return pair{a, string(b)} }, func(v ref.Val) any { return pair{v.S, string(v.D.Encode())} }},
		{"MutableJavaScriptWithScope", []byte{ref.TCodeScope}, func(v *birch.Value) (any, bool) {
			a, b, ok := v.MutableJavaScriptWithScopeOK()
			return pair{a, docBytes(b)}, ok
		}, func(v *birch.Value) any { a, b := v.MutableJavaScriptWithScope(); return pair{a, docBytes(b)} }, func(v ref.Val) any { return pair{v.S, string(v.D.Encode())} }},
		{"Int32", []byte{ref.TInt32}, func(v *birch.Value) (any, bool) { x, ok := v.Int32OK(); return int64(x), ok }, func(v *birch.Value) any { return int64(v.Int32()) }, func(v ref.Val) any { return v.I }},
		{"Int64", []byte{ref.TInt64}, func(v *birch.Value) (any, bool) { x, ok := v.Int64OK(); return x, ok }, func(v *birch.Value) any { return v.Int64() }, func(v ref.Val) any { return v.I }},
		{"Int", []byte{ref.TInt32, ref.TInt64}, func(v *birch.Value) (any, bool) { x, ok := v.IntOK(); return int64(x), ok }, func(v *birch.Value) any { return int64(v.Int()) }, func(v ref.Val) any { return v.I }},
		{"Timestamp", []byte{ref.TTimestamp}, func(v *birch.Value) (any, bool) { a, b, ok := v.TimestampOK(); return pair{a, b}, ok }, func(v *birch.Value) any { a, b := v.Timestamp(); return pair{a, b} }, func(v ref.Val) any { return pair{v.U, v.V} }},
		{"Decimal128", []byte{ref.TDec128}, func(v *birch.Value) (any, bool) {
			x, ok := v.Decimal128OK()
			h, l := x.GetBytes()
			return pair{h, l}, ok
		}, func(v *birch.Value) any { h, l := v.Decimal128().GetBytes(); return pair{h, l} }, func(v ref.Val) any { return pair{v.Hi, v.Lo} }},
	}
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

var formNames = []string{"element constructor", "value constructor", "decoded document", "decoded array", "EC.Value", "Copy", "Value.Set", "reader", "decoded and materialised", "SetValue"}

func form(i int, v ref.Val) *birch.Value {
	switch i {
	case 0:
		return bb.Elem("key", v).Value()
	case 1:
		return bb.Value(v)
	case 2:
		d, err := birch.ReadDocument(ref.Doc{{K: "p", V: ref.Val{T: ref.TInt32, I: 77}}, {K: "k", V: v}, {K: "q", V: ref.Val{T: ref.TString, S: "tail"}}}.Encode())
		if err != nil {
			panic(err)
		}
		return d.ElementAt(1).Value()
	case 3:
		d, err := birch.ReadDocument(ref.Doc{{K: "k", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TNull}}, {V: v}, {V: ref.Val{T: ref.TDouble}}}}}}.Encode())
		if err != nil {
			panic(err)
		}
		x, err := d.ElementAt(0).Value().MutableArray().Lookup(1)
		if err != nil {
			panic(err)
		}
		return x
	case 4:
		return birch.EC.Value("other", bb.Elem("key", v).Value()).Value()
	case 5:
		return bb.Elem("key", v).Copy().Value()
	case 6:
		x := birch.VC.Null()
		x.Set(bb.Value(v))
		return x
	case 7:
		r := birch.Reader(ref.Doc{{K: "p", V: ref.Val{T: ref.TBool}}, {K: "k", V: v}}.Encode())
		e, err := r.ElementAt(1)
		if err != nil {
			panic(err)
		}
		return e.Value()
	case 8:
		x := form(2, v)
		_ = x.Interface()
		return x
	case 9:
		e := birch.EC.Int32("foo", 9)
		e.SetValue(bb.Value(v))
		if e.Key() != "foo" {
			panic(fmt.Sprintf("SetValue changed the element's key to %q", e.Key()))
		}
		return e.Value()
	}
	panic("form")
}

type docMarsh struct {
	d   *birch.Document
	err error
}

func (m docMarsh) MarshalDocument() (*birch.Document, error) { return m.d, m.err }

type bsonMarsh struct {
	b   []byte
	err error
}

func (m bsonMarsh) MarshalBSON() ([]byte, error) { return m.b, m.err }

type goCase struct {
	name string
	in   any
	want *ref.Val // nil: cannot be represented (null from EC, error from ECE)
	num  bool     // only the integer value is prescribed (32 or 64 bits)
	null bool     // legitimately null for both
	skip bool     // ECE not asserted
}

func rv(v ref.Val) *ref.Val { return &v }

func intVal(i int64) *ref.Val { return &ref.Val{T: ref.TInt64, I: i} }

func goCases() []goCase {
	var out []goCase
	add := func(name string, in any, w *ref.Val, num bool) {
		out = append(out, goCase{name: name, in: in, want: w, num: num})
	}
	for _, b := range []bool{true, false} {
		add("bool", b, rv(ref.Val{T: ref.TBool, B: b}), false)
	}
	for _, i := range []int8{math.MinInt8, -1, 0, 1, math.MaxInt8} {
		add("int8", i, intVal(int64(i)), true)
	}
	for _, i := range []int16{math.MinInt16, -1, 0, math.MaxInt16} {
		add("int16", i, intVal(int64(i)), true)
	}
	i32s := []int32{math.MinInt32, math.MinInt32 + 1, -1, 0, 1, math.MaxInt32 - 1, math.MaxInt32}
	for _, i := range i32s {
		add("int32", i, rv(ref.Val{T: ref.TInt32, I: int64(i)}), false)
	}
	i64s := []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt32 - 1, math.MinInt32, math.MinInt32 + 1, -1, 0, 1, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, -(1 << 40), math.MaxInt64}
	for _, i := range i64s {
		add("int64", i, rv(ref.Val{T: ref.TInt64, I: i}), false)
		add("int", int(i), intVal(i), true)
	}
	for _, u := range []uint8{0, 1, 127, 128, 255} {
		add("uint8", u, intVal(int64(u)), true)
	}
	for _, u := range []uint16{0, 32767, 32768, 65535} {
		add("uint16", u, intVal(int64(u)), true)
	}
	for _, u := range []uint32{0, 1, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32} {
		add("uint32", u, intVal(int64(u)), true)
	}
	for _, u := range []uint64{0, 1, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		w := intVal(int64(u))
		if u > math.MaxInt64 {
			w = nil
		}
		add("uint64", u, w, true)
		add("uint", uint(u), w, true)
	}
	for _, f := range []float64{0, -1.5, math.MaxFloat64, math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64} {
		add("float64", f, rv(ref.Val{T: ref.TDouble, F: f}), false)
	}
	for _, f := range []float32{0, -1.5, math.MaxFloat32, 0.1} {
		add("float32", f, rv(ref.Val{T: ref.TDouble, F: float64(f)}), false)
	}
	for _, s := range []string{"", "x", "a\x00b", "é\"\\"} {
		add("string", s, rv(ref.Val{T: ref.TString, S: s}), false)
	}
	for _, ms := range []int64{0, 1, 999, 1000, 1500000000123, -1, -999, -1000, -1001} {
		add("time", refTime(ms).Add(999999*time.Nanosecond), rv(ref.Val{T: ref.TDate, I: ms}), false)
		add("time utc", refTime(ms).UTC(), rv(ref.Val{T: ref.TDate, I: ms}), false)
	}
	// the same instants told in any zone, around changes to and from summer time
	// and at the ends of what the years of common formats hold
	for _, ms := range []int64{1615705199999, 1615705200000, 1615708800000, 1636261200000, 1636264799999, 1636264800000, 951782400000, -62135596800000, -62135596800001, -2717650800000, 253402300799999, 253402300800000, 4294967296000, -4294967297000, 9223372036855, -9223372036855000, 9223372036854775000, -9223372036854775000} {
		for i, z := range []*time.Location{engine.Zone, time.UTC, time.FixedZone("a", 20700), time.FixedZone("b", -86399), time.FixedZone("c", 50400)} {
			add(fmt.Sprintf("time in zone %d", i), refTime(ms).In(z), rv(ref.Val{T: ref.TDate, I: ms}), false)
		}
	}
	add("zero time", time.Time{}, rv(ref.Val{T: ref.TDate, I: -62135596800000}), false)
	add("timestamp", types.Timestamp{T: 7, I: 1 << 31}, rv(ref.Val{T: ref.TTimestamp, U: 7, V: 1 << 31}), false)
	one := ref.Doc{{K: "x", V: ref.Val{T: ref.TInt32, I: 5}}}
	doc := func(d ref.Doc) *ref.Val { return &ref.Val{T: ref.TDoc, D: d} }
	arr := func(vs ...ref.Val) *ref.Val {
		v := &ref.Val{T: ref.TArray}
		for _, x := range vs {
			v.D = append(v.D, ref.Elem{V: x})
		}
		return v
	}
	add("map any", map[string]any{"x": int32(5)}, doc(one), false)
	add("map any empty", map[string]any{}, doc(nil), false)
	add("map nested", map[string]any{"x": map[string]any{"x": int32(5)}}, doc(ref.Doc{{K: "x", V: *doc(one)}}), false)
	add("map anyany", map[any]any{"x": int32(5)}, doc(one), false)
	add("map anyany int key", map[any]any{7: "s"}, doc(ref.Doc{{K: "7", V: ref.Val{T: ref.TString, S: "s"}}}), false)
	add("map string", map[string]string{"x": "y"}, doc(ref.Doc{{K: "x", V: ref.Val{T: ref.TString, S: "y"}}}), false)
	S := func(s string) ref.Val { return ref.Val{T: ref.TString, S: s} }
	add("[]any", []any{int32(5), "s", nil, []any{true}}, arr(ref.Val{T: ref.TInt32, I: 5}, S("s"), ref.Val{T: ref.TNull}, *arr(ref.Val{T: ref.TBool, B: true})), false)
	add("[]any empty", []any{}, arr(), false)
	add("[]string", []string{"a", "", "b"}, arr(S("a"), S(""), S("b")), false)
	var a64, a32, adur []ref.Val
	var d64 []time.Duration
	for _, i := range i64s {
		a64 = append(a64, ref.Val{T: ref.TInt64, I: i})
		adur = append(adur, ref.Val{T: ref.TInt64, I: i})
		d64 = append(d64, time.Duration(i))
	}
	for _, i := range i32s {
		a32 = append(a32, ref.Val{T: ref.TInt32, I: int64(i)})
	}
	add("[]int64", i64s, arr(a64...), false)
	add("[]int32", i32s, arr(a32...), false)
	add("[]time.Duration", d64, arr(adur...), false)
	add("[]float64", []float64{1.5, math.Inf(1)}, arr(ref.Val{T: ref.TDouble, F: 1.5}, ref.Val{T: ref.TDouble, F: math.Inf(1)}), false)
	add("[]float32", []float32{1.5, 0.1}, arr(ref.Val{T: ref.TDouble, F: 1.5}, ref.Val{T: ref.TDouble, F: float64(float32(0.1))}), false)
	add("[]time.Time", []time.Time{refTime(5), refTime(-5)}, arr(ref.Val{T: ref.TDate, I: 5}, ref.Val{T: ref.TDate, I: -5}), false)
	var ints []int
	for _, i := range i64s {
		ints = append(ints, int(i))
	}
	add("[]int", ints, arr(a64...), true)
	add("[]*Element", []*birch.Element{birch.EC.Int32("x", 5)}, doc(one), false)
	add("*Value", birch.VC.Int32(5), rv(ref.Val{T: ref.TInt32, I: 5}), false)
	add("*Value doc", birch.VC.Document(bb.Doc(one)), doc(one), false)
	add("*Value code", birch.VC.CodeWithScope("c", bb.Doc(one)), rv(ref.Val{T: ref.TCodeScope, S: "c", D: one}), false)
	add("[]*Value", []*birch.Value{birch.VC.Int32(5), birch.VC.Null()}, arr(ref.Val{T: ref.TInt32, I: 5}, ref.Val{T: ref.TNull}), false)
	add("*Document", bb.Doc(one), doc(one), false)
	add("Reader", birch.Reader(one.Encode()), doc(one), false)
	add("Reader malformed", birch.Reader([]byte{1, 2}), nil, false)
	add("DocumentMarshaler", docMarsh{d: bb.Doc(one)}, doc(one), false)
	add("DocumentMarshaler failing", docMarsh{err: errors.New("no")}, nil, false)
	add("Marshaler", bsonMarsh{b: one.Encode()}, doc(one), false)
	add("Marshaler failing", bsonMarsh{err: errors.New("no")}, nil, false)
	add("DocumentMap", birch.DocumentMap{"x": birch.EC.Int32("x", 5)}, doc(one), false)
	add("struct", struct{ A int }{1}, nil, false)
	add("chan", make(chan int), nil, false)
	add("complex", complex(1, 1), nil, false)
	out = append(out, goCase{name: "nil", in: nil, null: true})
	out = append(out, goCase{name: "nil *Document", in: (*birch.Document)(nil), null: true, skip: true})
	return out
}

// normalizeInts widens every int32 so that only the number is compared.
func normalizeInts(v ref.Val) ref.Val {
	if v.T == ref.TInt32 {
		v.T = ref.TInt64
	}
	if v.T == ref.TArray || v.T == ref.TDoc {
		d := ref.Doc{}
		for _, e := range v.D {
			d = append(d, ref.Elem{K: e.K, V: normalizeInts(e.V)})
		}
		if v.T == ref.TDoc { // the Go form is an unordered map
			sort.SliceStable(d, func(i, j int) bool { return d[i].K < d[j].K })
		}
		v.D = d
	}
	return v
}

func checkConstructed(c *engine.Chooser, what string, e *birch.Element, key string, gc goCase) {
	if e == nil {
		c.Fail("%s(%s): nil element", what, gc.name)
	}
	if e.Key() != key {
		c.Fail("%s(%s): key %q, want %q", what, gc.name, e.Key(), key)
	}
	got, err := bb.FromValue(e.Value())
	if err != nil {
		c.Fail("%s(%s): %v", what, gc.name, err)
	}
	if gc.want == nil {
		if got.T != ref.TNull {
			c.Fail("%s(%s): unconvertible value became %s, want null", what, gc.name, got)
		}
		return
	}
	w := *gc.want
	if gc.num {
		if got.T != ref.TInt32 && got.T != ref.TInt64 && got.T != ref.TArray {
			c.Fail("%s(%s): type %x is not an integer", what, gc.name, got.T)
		}
		got, w = normalizeInts(got), normalizeInts(w)
	}
	if !got.Equal(w) {
		c.Fail("%s(%s %#v): got %s, want %s", what, gc.name, gc.in, got, w)
	}
	// survives the wire
	b, err := birch.DC.Elements(e).MarshalBSON()
	if err != nil {
		c.Fail("%s(%s): encoding: %v", what, gc.name, err)
	}
	d, _, err := ref.Decode(b)
	if err != nil || len(d) != 1 || d[0].K != key {
		c.Fail("%s(%s): encoded as %x: %v", what, gc.name, b, err)
	}
	g2 := d[0].V
	if gc.num {
		g2 = normalizeInts(g2)
	}
	if !g2.Equal(w) {
		c.Fail("%s(%s): encoded as %s, want %s", what, gc.name, g2, w)
	}
}

// nativeWant is the Go value that Value.Interface prescribes.
func nativeWant(v ref.Val) any {
	switch v.T {
	case ref.TDouble:
		return v.F
	case ref.TString, ref.TJS, ref.TSymbol:
		return v.S
	case ref.TDoc:
		m := map[string]any{}
		for _, e := range v.D {
			m[e.K] = nativeWant(e.V)
		}
		return m
	case ref.TArray:
		var a []any
		for _, e := range v.D {
			a = append(a, nativeWant(e.V))
		}
		return a
	case ref.TBinary:
		return append([]byte{}, v.Bin...)
	case ref.TOID:
		return types.ObjectID(v.OID)
	case ref.TBool:
		return v.B
	case ref.TDate:
		return refTime(v.I)
	case ref.TRegex:
		return types.Regex{Pattern: v.S, Options: v.S2}
	case ref.TDBPtr:
		return types.DBPointer{DB: v.S, Pointer: types.ObjectID(v.OID)}
	case ref.TCodeScope:
		return types.CodeWithScope{Code: v.S, Scope: v.D.Encode()}
	case ref.TInt32:
		return int32(v.I)
	case ref.TTimestamp:
		return types.Timestamp{T: v.U, I: v.V}
	case ref.TInt64:
		return v.I
	case ref.TDec128:
		return types.NewDecimal128(v.Hi, v.Lo)
	}
	return nil
}

func sameNative(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameNative(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, ok := y[k]
			if !ok || !sameNative(x[k], z) {
				return false
			}
		}
		return true
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return reflect.DeepEqual(a, b)
}

func roundTrips(t byte) bool {
	switch t {
	case ref.TDouble, ref.TString, ref.TDoc, ref.TArray, ref.TBool, ref.TDate, ref.TInt32, ref.TTimestamp, ref.TInt64, ref.TNull:
		return true
	}
	return false
}

// emptyWant is the documented emptiness; second result false: not prescribed.
func emptyWant(v ref.Val) (bool, bool) {
	switch v.T {
	case ref.TDouble:
		return v.F == 0, true
	case ref.TString, ref.TJS, ref.TSymbol:
		return v.S == "", true
	case ref.TDoc, ref.TArray:
		return len(v.D) == 0, true
	case ref.TBinary:
		return len(v.Bin) == 0, true
	case ref.TOID:
		return v.OID == [12]byte{}, true
	case ref.TBool:
		return !v.B, true
	case ref.TDate, ref.TInt32, ref.TInt64:
		return v.I == 0, true
	case ref.TTimestamp:
		return v.U == 0 && v.V == 0, true
	case ref.TDec128:
		return v.Hi == 0 && v.Lo == 0, true
	case ref.TNull, ref.TMinKey, ref.TMaxKey:
		return false, true
	}
	return false, false
}

// C02: constructors and accessors.
var C02 = &engine.Property{
	ID: "C02", Level: "model_checking",
	Assume: []string{"expected values are computed from the reference model, not from the library"},
	Families: func(tier string) []engine.Family {
		vals := append(bb.Scalars(), containerReps()...)
		vals = append(vals,
			ref.Val{T: ref.TDoc, D: ref.Doc{{K: "a", V: ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TDoc, D: ref.Doc{{K: "b", V: ref.Val{T: ref.TDate, I: 9}}}}}, {V: ref.Val{T: ref.TNull}}}}}, {K: "c", V: ref.Val{T: ref.TInt64, I: 3}}}},
			ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TArray}}, {V: ref.Val{T: ref.TString, S: "z"}}, {V: ref.Val{T: ref.TDouble, F: 2}}}},
			ref.Val{T: ref.TCodeScope, S: "f\x00", D: ref.Doc{{K: "q", V: ref.Val{T: ref.TCodeScope, S: "", D: ref.Doc{}}}}},
		)
		acc := accessors()
		gcs := goCases()
		return []engine.Family{
			{Name: "documents", Bounds: "every Go value that stands for a document x every constructor that takes it", Rule: "every case", Run: c02Documents},
			{Name: "unmarshal", Bounds: "every document of up to 2 elements (3 keys, 4 values, duplicates included), built or decoded x every kind of target of Unmarshal", Rule: "non-empty document", Run: c02Unmarshal},
			{Name: "accessors", Bounds: "every boundary value of every BSON type x 10 ways to obtain the Value x every checked and unchecked accessor", Rule: "accessor of the value's own type",
				Run: func(c *engine.Chooser) {
					v := vals[c.Choose(len(vals))]
					f := c.Choose(len(formNames))
					a := acc[c.Choose(len(acc))]
					c.Note("value %s via %s, accessor %s", v, formNames[f], a.name)
					c.State(fmt.Sprintf("%s %d %s", v, f, a.name))
					x := form(f, v)
					if byte(x.Type()) != v.T {
						c.Fail("type of %s via %s is %x", v, formNames[f], byte(x.Type()))
					}
					mine := bytes.IndexByte(a.types, v.T) >= 0
					if a.ok != nil {
						c.Step()
						got, ok := a.ok(x)
						if ok != mine {
							c.Fail("%sOK of %s (%s) reports %v", a.name, v, formNames[f], ok)
						}
						if mine && got != a.want(v) {
							c.Fail("%sOK of %s (%s) = %#v, want %#v", a.name, v, formNames[f], got, a.want(v))
						}
					}
					c.Step()
					var got any
					p := panics(func() { got = a.must(x) })
					if mine {
						c.NonTrivial()
						if p != nil {
							c.Fail("%s of %s (%s) panics: %v", a.name, v, formNames[f], p)
						}
						if got != a.want(v) {
							c.Fail("%s of %s (%s) = %#v, want %#v", a.name, v, formNames[f], got, a.want(v))
						}
						// reading twice gives the same
						if g := a.must(x); g != got {
							c.Fail("%s of %s (%s) changed on the second read", a.name, v, formNames[f])
						}
					} else if p == nil {
						c.Fail("%s of %s (%s) returns %#v instead of refusing", a.name, v, formNames[f], got)
					}
				}},
			{Name: "native", Bounds: "every boundary value x 10 ways to obtain it: Interface export, emptiness, and re-import of exported values", Rule: "type whose Go form is importable",
				Run: func(c *engine.Chooser) {
					v := vals[c.Choose(len(vals))]
					f := c.Choose(len(formNames))
					c.Note("value %s via %s", v, formNames[f])
					c.State(fmt.Sprintf("%s %d", v, f))
					x := form(f, v)
					c.Steps(3)
					nat := x.Interface()
					if w := nativeWant(v); !sameNative(w, nat) {
						c.Fail("Interface() of %s (%s) = %#v, want %#v", v, formNames[f], nat, w)
					}
					if w, ok := emptyWant(v); ok {
						if x.IsEmpty() != w {
							c.Fail("IsEmpty of %s = %v", v, x.IsEmpty())
						}
						n := birch.DC.New().AppendOmitEmpty(birch.EC.Value("k", x)).Len()
						n2 := birch.DC.ElementsOmitEmpty(birch.EC.Value("k", x)).Len()
						if (n == 0) != w || n != n2 {
							c.Fail("AppendOmitEmpty of %s keeps %d, ElementsOmitEmpty %d elements", v, n, n2)
						}
					}
					if roundTrips(v.T) {
						c.NonTrivial()
						back, err := bb.FromValue(birch.VC.Interface(nat))
						if err != nil || !normalizeInts(back).Equal(normalizeInts(v)) {
							c.Fail("VC.Interface(Interface()) of %s = %s (err %v)", v, back, err)
						}
					}
					m := map[string]any{}
					if err := birch.DC.Elements(birch.EC.Value("k", x)).Unmarshal(m); err != nil || len(m) != 1 || !sameNative(nativeWant(v), m["k"]) {
						c.Fail("Unmarshal into a map of %s gives %#v (%v)", v, m, err)
					}
					mm := map[any]any{}
					if err := birch.DC.Elements(birch.EC.Value("k", x)).Unmarshal(mm); err != nil || len(mm) != 1 || !sameNative(nativeWant(v), mm["k"]) {
						c.Fail("Unmarshal into a map[any]any of %s gives %#v (%v)", v, mm, err)
					}
					ms := map[string]string{}
					if err := birch.DC.Elements(birch.EC.Value("k", x)).Unmarshal(ms); err != nil || (len(ms) == 1) != (v.T == ref.TString) || ms["k"] != func() string {
						if v.T == ref.TString {
							return v.S
						}
						return ""
					}() {
						c.Fail("Unmarshal into a map[string]string of %s gives %#v (%v)", v, ms, err)
					}
				}},
			{Name: "generic", Bounds: "every supported Go type at its boundaries and unsupported types x {EC,VC,ECE,VCE}.Interface, map and slice constructors", Rule: "convertible value",
				Run: func(c *engine.Chooser) {
					gc := gcs[c.Choose(len(gcs))]
					via := c.Choose(8)
					c.Note("%s %#v via %d", gc.name, gc.in, via)
					c.State(fmt.Sprintf("%s %v %d", gc.name, gc.in, via))
					c.Step()
					if gc.want != nil {
						c.NonTrivial()
					}
					wantErr := gc.want == nil && !gc.null
					switch via {
					case 0:
						checkConstructed(c, "EC.Interface", birch.EC.Interface("kk", gc.in), "kk", gc)
					case 1:
						checkConstructed(c, "VC.Interface", birch.EC.Value("kk", birch.VC.Interface(gc.in)), "kk", gc)
					case 2:
						if gc.skip {
							return
						}
						e, err := birch.ECE.Interface("kk", gc.in)
						if (err != nil) != wantErr {
							c.Fail("ECE.Interface(%s): err %v", gc.name, err)
						}
						if err == nil {
							checkConstructed(c, "ECE.Interface", e, "kk", gc)
						}
					case 3:
						if gc.skip {
							return
						}
						v, err := birch.VCE.Interface(gc.in)
						if (err != nil) != wantErr {
							c.Fail("VCE.Interface(%s): err %v", gc.name, err)
						}
						if err == nil {
							checkConstructed(c, "VCE.Interface", birch.EC.Value("kk", v), "kk", gc)
						}
					case 4:
						d := birch.DC.MapInterface(map[string]any{"kk": gc.in})
						checkConstructed(c, "DC.MapInterface", d.ElementAt(0), "kk", gc)
						v := birch.VC.MapInterface(map[string]any{"kk": gc.in})
						checkConstructed(c, "VC.MapInterface", v.MutableDocument().ElementAt(0), "kk", gc)
						d = birch.DC.MapInterfaceInterface(map[any]any{"kk": gc.in})
						checkConstructed(c, "DC.MapInterfaceInterface", d.ElementAt(0), "kk", gc)
						checkConstructed(c, "DC.Interface(map)", birch.DC.Interface(map[string]any{"kk": gc.in}).ElementAt(0), "kk", gc)
						checkConstructed(c, "DC.Interface(map any)", birch.DC.Interface(map[any]any{"kk": gc.in}).ElementAt(0), "kk", gc)
					case 5:
						if gc.skip {
							return
						}
						for i := 0; i < 3; i++ {
							var d *birch.Document
							var err error
							switch i {
							case 0:
								d, err = birch.DCE.MapInterface(map[string]any{"kk": gc.in})
							case 1:
								d, err = birch.DCE.MapInterfaceInterface(map[any]any{"kk": gc.in})
							case 2:
								d, err = birch.DCE.Interface(map[string]any{"kk": gc.in})
							}
							if (err != nil) != wantErr {
								c.Fail("DCE map constructor %d (%s): err %v", i, gc.name, err)
							}
							if err == nil {
								checkConstructed(c, "DCE map", d.ElementAt(0), "kk", gc)
							}
						}
					case 6:
						e := birch.EC.SliceInterface("s", []any{"first", gc.in, "last"})
						a := e.Value().MutableArray()
						if a.Len() != 3 {
							c.Fail("SliceInterface length %d", a.Len())
						}
						v, _ := a.Lookup(1)
						checkConstructed(c, "EC.SliceInterface", birch.EC.Value("kk", v), "kk", gc)
					case 7:
						if gc.skip {
							return
						}
						e, err := birch.ECE.SliceInterface("s", []any{"first", gc.in, "last"})
						if (err != nil) != wantErr {
							c.Fail("ECE.SliceInterface(%s): err %v", gc.name, err)
						}
						if err == nil {
							a := e.Value().MutableArray()
							if a.Len() != 3 {
								c.Fail("ECE.SliceInterface length %d", a.Len())
							}
							v, _ := a.Lookup(1)
							checkConstructed(c, "ECE.SliceInterface", birch.EC.Value("kk", v), "kk", gc)
						}
					}
				}},
			{Name: "conveniences", Bounds: "Int, Duration, Time, Slice*, Map*, Marshaler, DocumentMarshaler and SubDocument/Array builder constructors at the same boundaries", Rule: "every case",
				Run: func(c *engine.Chooser) {
					gc := gcs[c.Choose(len(gcs))]
					key := keyPool[c.Choose(len(keyPool))]
					c.State(fmt.Sprintf("%s %v %s", gc.name, gc.in, key))
					c.Note("%s %#v key %q", gc.name, gc.in, key)
					var es []*birch.Element
					add := func(e *birch.Element, v *birch.Value) {
						es = append(es, e)
						if v != nil {
							es = append(es, birch.EC.Value(key, v))
						}
					}
					switch t := gc.in.(type) {
					case int:
						add(birch.EC.Int(key, t), birch.VC.Int(t))
					case int64:
						add(birch.EC.Duration(key, time.Duration(t)), birch.VC.Duration(time.Duration(t)))
					case time.Time:
						add(birch.EC.Time(key, t), birch.VC.Time(t))
					case map[string]any:
						add(birch.EC.SubDocument(key, birch.DC.MapInterface(t)), birch.VC.MapInterface(t))
						v, err := birch.VCE.MapInterface(t)
						if err != nil {
							c.Fail("VCE.MapInterface: %v", err)
						}
						add(birch.EC.Value(key, v), nil)
					case map[any]any:
						add(birch.EC.SubDocument(key, birch.DC.MapInterfaceInterface(t)), birch.VC.MapInterfaceInterface(t))
					case map[string]string:
						add(birch.EC.SubDocument(key, birch.DC.MapString(t)), birch.VC.MapString(t))
					case []any:
						add(birch.EC.SliceInterface(key, t), birch.VC.SliceInterface(t))
						v, err := birch.VCE.SliceInterface(t)
						if err != nil {
							c.Fail("VCE.SliceInterface: %v", err)
						}
						add(birch.EC.Value(key, v), nil)
					case []string:
						add(birch.EC.SliceString(key, t), birch.VC.SliceString(t))
					case []int64:
						add(birch.EC.SliceInt64(key, t), birch.VC.SliceInt64(t))
					case []int32:
						add(birch.EC.SliceInt32(key, t), birch.VC.SliceInt32(t))
					case []int:
						add(birch.EC.SliceInt(key, t), birch.VC.SliceInt(t))
					case []float64:
						add(birch.EC.SliceFloat64(key, t), birch.VC.SliceFloat64(t))
					case []float32:
						add(birch.EC.SliceFloat32(key, t), birch.VC.SliceFloat32(t))
					case []time.Time:
						add(birch.EC.SliceTime(key, t), birch.VC.SliceTime(t))
					case []time.Duration:
						add(birch.EC.SliceDuration(key, t), birch.VC.SliceDuration(t))
					case []*birch.Element:
						add(birch.EC.SubDocumentFromElements(key, t...), birch.VC.DocumentFromElements(t...))
						add(birch.EC.SubDocument(key, birch.DC.Interface(t)), nil)
					case []*birch.Value:
						add(birch.EC.ArrayFromElements(key, t...), birch.VC.ArrayFromValues(t...))
					case *birch.Document:
						if t == nil {
							return
						}
						add(birch.EC.SubDocument(key, birch.DC.Interface(t)), nil)
					case birch.Reader:
						if gc.want == nil {
							return
						}
						add(birch.EC.SubDocumentFromReader(key, t), birch.VC.DocumentFromReader(t))
						add(birch.EC.SubDocument(key, birch.DC.Reader(t)), nil)
						add(birch.EC.SubDocument(key, birch.DC.Interface(t)), nil)
						add(birch.EC.SubDocument(key, birch.DC.ReadFrom(bytes.NewReader(t))), nil)
					case docMarsh:
						e, err := birch.ECE.DocumentMarshaler(key, t)
						v, err2 := birch.VCE.DocumentMarshaler(t)
						if (err != nil) != (t.err != nil) || (err2 != nil) != (t.err != nil) {
							c.Fail("DocumentMarshaler errors %v %v", err, err2)
						}
						if t.err != nil {
							return
						}
						add(e, v)
						add(birch.EC.DocumentMarshaler(key, t), birch.VC.DocumentMarshaler(t))
						add(birch.EC.SubDocument(key, birch.DC.Interface(t)), nil)
					case bsonMarsh:
						e, err := birch.ECE.Marshaler(key, t)
						v, err2 := birch.VCE.Marshaler(t)
						d, err3 := birch.DCE.Marshaler(t)
						if (err != nil) != (t.err != nil) || (err2 != nil) != (t.err != nil) || (err3 != nil) != (t.err != nil) {
							c.Fail("Marshaler errors %v %v %v", err, err2, err3)
						}
						if t.err != nil {
							return
						}
						add(e, v)
						add(birch.EC.Marshaler(key, t), birch.VC.Marshaler(t))
						add(birch.EC.SubDocument(key, d), nil)
						add(birch.EC.SubDocument(key, birch.DC.Marshaler(t)), nil)
					default:
						return
					}
					c.NonTrivial()
					for i, e := range es {
						c.Step()
						g := gc
						if _, ok := gc.in.(int64); ok {
							g.num = false
						}
						checkConstructed(c, fmt.Sprintf("constructor %d", i), e, key, g)
					}
				}},
		}
	},
}
