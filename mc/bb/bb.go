// Package bb bridges the reference model and birch's public API.
package bb

import (
	"fmt"
	"math"

	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
)

// Elem builds a birch element through the typed constructors.
func Elem(k string, v ref.Val) *birch.Element {
	switch v.T {
	case ref.TDouble:
		return birch.EC.Double(k, v.F)
	case ref.TString:
		return birch.EC.String(k, v.S)
	case ref.TDoc:
		return birch.EC.SubDocument(k, Doc(v.D))
	case ref.TArray:
		return birch.EC.Array(k, Arr(v.D))
	case ref.TBinary:
		return birch.EC.BinaryWithSubtype(k, append([]byte{}, v.Bin...), v.Sub)
	case ref.TUndef:
		return birch.EC.Undefined(k)
	case ref.TOID:
		return birch.EC.ObjectID(k, types.ObjectID(v.OID))
	case ref.TBool:
		return birch.EC.Boolean(k, v.B)
	case ref.TDate:
		return birch.EC.DateTime(k, v.I)
	case ref.TNull:
		return birch.EC.Null(k)
	case ref.TRegex:
		return birch.EC.Regex(k, v.S, v.S2)
	case ref.TDBPtr:
		return birch.EC.DBPointer(k, v.S, types.ObjectID(v.OID))
	case ref.TJS:
		return birch.EC.JavaScript(k, v.S)
	case ref.TSymbol:
		return birch.EC.Symbol(k, v.S)
	case ref.TCodeScope:
		return birch.EC.CodeWithScope(k, v.S, Doc(v.D))
	case ref.TInt32:
		return birch.EC.Int32(k, int32(v.I))
	case ref.TTimestamp:
		return birch.EC.Timestamp(k, v.U, v.V)
	case ref.TInt64:
		return birch.EC.Int64(k, v.I)
	case ref.TDec128:
		return birch.EC.Decimal128(k, types.NewDecimal128(v.Hi, v.Lo))
	case ref.TMinKey:
		return birch.EC.MinKey(k)
	case ref.TMaxKey:
		return birch.EC.MaxKey(k)
	}
	panic("bb: type")
}

// Value builds a birch value through the value constructors.
func Value(v ref.Val) *birch.Value {
	switch v.T {
	case ref.TDouble:
		return birch.VC.Double(v.F)
	case ref.TString:
		return birch.VC.String(v.S)
	case ref.TDoc:
		return birch.VC.Document(Doc(v.D))
	case ref.TArray:
		return birch.VC.Array(Arr(v.D))
	case ref.TBinary:
		return birch.VC.BinaryWithSubtype(append([]byte{}, v.Bin...), v.Sub)
	case ref.TUndef:
		return birch.VC.Undefined()
	case ref.TOID:
		return birch.VC.ObjectID(types.ObjectID(v.OID))
	case ref.TBool:
		return birch.VC.Boolean(v.B)
	case ref.TDate:
		return birch.VC.DateTime(v.I)
	case ref.TNull:
		return birch.VC.Null()
	case ref.TRegex:
		return birch.VC.Regex(v.S, v.S2)
	case ref.TDBPtr:
		return birch.VC.DBPointer(v.S, types.ObjectID(v.OID))
	case ref.TJS:
		return birch.VC.JavaScript(v.S)
	case ref.TSymbol:
		return birch.VC.Symbol(v.S)
	case ref.TCodeScope:
		return birch.VC.CodeWithScope(v.S, Doc(v.D))
	case ref.TInt32:
		return birch.VC.Int32(int32(v.I))
	case ref.TTimestamp:
		return birch.VC.Timestamp(v.U, v.V)
	case ref.TInt64:
		return birch.VC.Int64(v.I)
	case ref.TDec128:
		return birch.VC.Decimal128(types.NewDecimal128(v.Hi, v.Lo))
	case ref.TMinKey:
		return birch.VC.MinKey()
	case ref.TMaxKey:
		return birch.VC.MaxKey()
	}
	panic("bb: type")
}

// Doc builds a document.
func Doc(d ref.Doc) *birch.Document {
	out := birch.DC.Make(len(d))
	for _, e := range d {
		out.Append(Elem(e.K, e.V))
	}
	return out
}

// Arr builds an array.
func Arr(d ref.Doc) *birch.Array {
	out := birch.MakeArray(len(d))
	for _, e := range d {
		out.Append(Value(e.V))
	}
	return out
}

// FromValue reads a value back through the typed accessors.
func FromValue(v *birch.Value) (ref.Val, error) { return fromValue(v, 0) }

// Down to crossDepth, containers are read through both their views and
// compared; below, through one of them (both would take time exponential in
// the depth).
const crossDepth = 7

func fromValue(v *birch.Value, depth int) (ref.Val, error) {
	out := ref.Val{T: byte(v.Type())}
	ok := true
	switch v.Type() {
	case bsontype.Double:
		out.F, ok = v.DoubleOK()
		if math.Float64bits(out.F) != math.Float64bits(v.Double()) {
			return out, fmt.Errorf("DoubleOK and Double differ")
		}
	case bsontype.String:
		out.S, ok = v.StringValueOK()
		if out.S != v.StringValue() {
			return out, fmt.Errorf("StringValueOK and StringValue differ")
		}
	case bsontype.EmbeddedDocument:
		r := v.ReaderDocument()
		var d ref.Doc
		var err error
		if depth < crossDepth {
			if d, err = fromReader(r, depth+1); err != nil {
				return out, err
			}
		}
		md, ok2 := v.MutableDocumentOK()
		ok = ok2
		if ok {
			out.D, err = fromDoc(md, depth+1)
			if err != nil {
				return out, err
			}
			if depth < crossDepth && !d.Equal(out.D) {
				return out, fmt.Errorf("reader and document views of a subdocument differ: %s vs %s", d, out.D)
			}
		}
	case bsontype.Array:
		a, ok2 := v.MutableArrayOK()
		ok = ok2
		if ok {
			var err error
			out.D, err = fromArr(a, depth+1)
			if err != nil {
				return out, err
			}
		}
	case bsontype.Binary:
		out.Sub, out.Bin, ok = v.BinaryOK()
	case bsontype.ObjectID:
		var o types.ObjectID
		o, ok = v.ObjectIDOK()
		out.OID = o
	case bsontype.Boolean:
		out.B, ok = v.BooleanOK()
	case bsontype.DateTime:
		out.I, ok = v.DateTimeOK()
		if out.I != v.DateTime() {
			return out, fmt.Errorf("DateTimeOK and DateTime differ")
		}
	case bsontype.Regex:
		out.S, out.S2 = v.Regex()
	case bsontype.DBPointer:
		var o types.ObjectID
		out.S, o, ok = v.DBPointerOK()
		out.OID = o
	case bsontype.JavaScript:
		out.S, ok = v.JavaScriptOK()
	case bsontype.Symbol:
		out.S = v.Symbol()
	case bsontype.CodeWithScope:
		code, r, ok1 := v.ReaderJavaScriptWithScopeOK()
		var d ref.Doc
		var err error
		if depth < crossDepth {
			if d, err = fromReader(r, depth+1); err != nil {
				return out, err
			}
		}
		code2, md, ok2 := v.MutableJavaScriptWithScopeOK()
		ok = ok1 && ok2
		if ok {
			out.S = code
			out.D, err = fromDoc(md, depth+1)
			if err != nil {
				return out, err
			}
			if code != code2 || depth < crossDepth && !d.Equal(out.D) {
				return out, fmt.Errorf("reader and document views of code with scope differ: %q %s vs %q %s", code, d, code2, out.D)
			}
		}
	case bsontype.Int32:
		var i int32
		i, ok = v.Int32OK()
		out.I = int64(i)
	case bsontype.Timestamp:
		out.U, out.V, ok = v.TimestampOK()
	case bsontype.Int64:
		out.I, ok = v.Int64OK()
	case bsontype.Decimal128:
		var d types.Decimal128
		d, ok = v.Decimal128OK()
		out.Hi, out.Lo = d.GetBytes()
	case bsontype.Undefined, bsontype.Null, bsontype.MinKey, bsontype.MaxKey:
	default:
		return out, fmt.Errorf("unknown type %x", out.T)
	}
	if !ok {
		return out, fmt.Errorf("accessor for type %s reports failure", v.Type())
	}
	return out, nil
}

// FromDoc reads a document through its iterator and typed accessors.
func FromDoc(d *birch.Document) (ref.Doc, error) { return fromDoc(d, 0) }

func fromDoc(d *birch.Document, depth int) (ref.Doc, error) {
	out := ref.Doc{}
	for e := range d.Iterator() {
		v, err := fromValue(e.Value(), depth)
		if err != nil {
			return nil, fmt.Errorf("key %q: %w", e.Key(), err)
		}
		out = append(out, ref.Elem{K: e.Key(), V: v})
	}
	return out, nil
}

// FromArr reads an array through Lookup.
func FromArr(a *birch.Array) (ref.Doc, error) { return fromArr(a, 0) }

func fromArr(a *birch.Array, depth int) (ref.Doc, error) {
	out := ref.Doc{}
	for i := 0; i < a.Len(); i++ {
		bv, err := a.Lookup(uint(i))
		if err != nil {
			return nil, err
		}
		v, err := fromValue(bv, depth)
		if err != nil {
			return nil, fmt.Errorf("index %d: %w", i, err)
		}
		out = append(out, ref.Elem{V: v})
	}
	return out, nil
}

// FromReader reads through the read-only view.
func FromReader(r birch.Reader) (ref.Doc, error) { return fromReader(r, 0) }

func fromReader(r birch.Reader, depth int) (ref.Doc, error) {
	out := ref.Doc{}
	for e, err := range r.Iterator() {
		if err != nil {
			return nil, err
		}
		v, err := fromValue(e.Value(), depth)
		if err != nil {
			return nil, fmt.Errorf("key %q: %w", e.Key(), err)
		}
		out = append(out, ref.Elem{K: e.Key(), V: v})
	}
	return out, nil
}

func oid(b byte) (o [12]byte) {
	for i := range o {
		o[i] = b + byte(i)
	}
	return
}

// Scalars is the pool of leaf values: every non-container type at boundaries.
func Scalars() []ref.Val {
	var p []ref.Val
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53} {
		p = append(p, ref.Val{T: ref.TDouble, F: f})
	}
	strs := []string{"", "a", "ab\x00c", "é\"\\\n", "\x00", "0123456789abcdef0"}
	for _, s := range strs {
		p = append(p, ref.Val{T: ref.TString, S: s})
	}
	for _, t := range []byte{ref.TJS, ref.TSymbol} {
		for _, s := range []string{"", "x", "y\x00z"} {
			p = append(p, ref.Val{T: t, S: s})
		}
	}
	for _, sub := range []byte{0, 1, 2, 3, 4, 5, 0x80, 0xff} {
		for _, b := range [][]byte{{}, {0}, {1, 2, 3}} {
			p = append(p, ref.Val{T: ref.TBinary, Sub: sub, Bin: b})
		}
	}
	p = append(p, ref.Val{T: ref.TUndef}, ref.Val{T: ref.TNull}, ref.Val{T: ref.TMinKey}, ref.Val{T: ref.TMaxKey})
	p = append(p, ref.Val{T: ref.TOID}, ref.Val{T: ref.TOID, OID: oid(0xf0)})
	p = append(p, ref.Val{T: ref.TBool, B: true}, ref.Val{T: ref.TBool})
	for _, i := range []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1500000000123, -999} {
		p = append(p, ref.Val{T: ref.TDate, I: i}, ref.Val{T: ref.TInt64, I: i})
	}
	for _, i := range []int64{0, 1, -1, math.MaxInt32, math.MinInt32, 256} {
		p = append(p, ref.Val{T: ref.TInt32, I: i})
	}
	p = append(p, ref.Val{T: ref.TRegex}, ref.Val{T: ref.TRegex, S: "a.b"}, ref.Val{T: ref.TRegex, S2: "i"}, ref.Val{T: ref.TRegex, S: "x", S2: "ms"})
	p = append(p, ref.Val{T: ref.TDBPtr, OID: oid(1)}, ref.Val{T: ref.TDBPtr, S: "db.c", OID: oid(9)})
	for _, t := range [][2]uint32{{0, 0}, {1, 0}, {0, 1}, {math.MaxUint32, 7}, {7, math.MaxUint32}} {
		p = append(p, ref.Val{T: ref.TTimestamp, U: t[0], V: t[1]})
	}
	for _, d := range [][2]uint64{{0, 0}, {0, 1}, {1, 0}, {0x3040000000000000, 1}, {math.MaxUint64, 0}, {0x0102030405060708, 0x1112131415161718}} {
		p = append(p, ref.Val{T: ref.TDec128, Hi: d[0], Lo: d[1]})
	}
	return p
}

// Reps returns one representative per leaf type.
func Reps() []ref.Val {
	return []ref.Val{
		{T: ref.TDouble, F: -1.5}, {T: ref.TString, S: "s\x00t"}, {T: ref.TBinary, Sub: 2, Bin: []byte{9, 8}}, {T: ref.TBinary, Sub: 0x80, Bin: []byte{7}},
		{T: ref.TUndef}, {T: ref.TOID, OID: oid(3)}, {T: ref.TBool, B: true}, {T: ref.TDate, I: -12345}, {T: ref.TNull},
		{T: ref.TRegex, S: "p", S2: "o"}, {T: ref.TDBPtr, S: "n", OID: oid(5)}, {T: ref.TJS, S: "j"}, {T: ref.TSymbol, S: "y"},
		{T: ref.TInt32, I: -2}, {T: ref.TTimestamp, U: 2, V: 3}, {T: ref.TInt64, I: 1 << 40}, {T: ref.TDec128, Hi: 5, Lo: 6},
		{T: ref.TMinKey}, {T: ref.TMaxKey},
	}
}
