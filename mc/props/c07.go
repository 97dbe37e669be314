package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
)

var reservedKeys = map[string]bool{"$minKey": true, "$maxKey": true, "$numberDecimal": true, "$timestamp": true, "$symbol": true, "$code": true, "$dbPointer": true,
	"$regularExpression": true, "$date": true, "$oid": true, "$undefined": true, "$binary": true}

// jsonSame: equal content, numbers by value, array keys ignored.
func jsonSame(a, b ref.Val) error {
	num := func(v ref.Val) (*big.Float, bool) {
		switch v.T {
		case ref.TInt32, ref.TInt64:
			return new(big.Float).SetPrec(80).SetInt64(v.I), true
		case ref.TDouble:
			return new(big.Float).SetPrec(80).SetFloat64(v.F), true
		}
		return nil, false
	}
	if x, ok := num(a); ok {
		y, ok := num(b)
		if !ok || x.Cmp(y) != 0 {
			return fmt.Errorf("number %v became %v", a, b)
		}
		return nil
	}
	if a.T != b.T {
		return fmt.Errorf("%v became %v", a, b)
	}
	switch a.T {
	case ref.TDoc, ref.TArray, ref.TCodeScope:
		if a.S != b.S || len(a.D) != len(b.D) {
			return fmt.Errorf("%v became %v", a, b)
		}
		for i := range a.D {
			if a.T != ref.TArray && a.D[i].K != b.D[i].K {
				return fmt.Errorf("key %q became %q", a.D[i].K, b.D[i].K)
			}
			if err := jsonSame(a.D[i].V, b.D[i].V); err != nil {
				return err
			}
		}
		return nil
	}
	if !a.Equal(b) {
		return fmt.Errorf("%v became %v", a, b)
	}
	return nil
}

// plainTree checks the part of the rendering that plain JSON prescribes.
func plainTree(v ref.Val, n *jnode) error {
	switch v.T {
	case ref.TDoc:
		if n.kind != 'o' || len(n.kids) != len(v.D) {
			return fmt.Errorf("document %v rendered as %c with %d members", v, n.kind, len(n.kids))
		}
		for i := range v.D {
			if n.keys[i] != v.D[i].K {
				return fmt.Errorf("key %q rendered as %q", v.D[i].K, n.keys[i])
			}
			if err := plainTree(v.D[i].V, n.kids[i]); err != nil {
				return err
			}
		}
	case ref.TArray:
		if n.kind != 'a' || len(n.kids) != len(v.D) {
			return fmt.Errorf("array %v rendered as %c with %d members", v, n.kind, len(n.kids))
		}
		for i := range v.D {
			if err := plainTree(v.D[i].V, n.kids[i]); err != nil {
				return err
			}
		}
	case ref.TString:
		if n.kind != 's' || n.s != v.S {
			return fmt.Errorf("string %q rendered as %q", v.S, n.s)
		}
	case ref.TBool:
		if (v.B && n.kind != 't') || (!v.B && n.kind != 'f') {
			return fmt.Errorf("boolean %v rendered as %c", v.B, n.kind)
		}
	case ref.TNull:
		if n.kind != 'z' {
			return fmt.Errorf("null rendered as %c", n.kind)
		}
	case ref.TInt32, ref.TInt64:
		if n.kind != 'n' {
			return fmt.Errorf("integer rendered as %c", n.kind)
		}
		return numEqual(n.s, v.I)
	case ref.TDouble:
		if n.kind != 'n' {
			return fmt.Errorf("double rendered as %c", n.kind)
		}
		r, ok := new(big.Rat).SetString(n.s)
		if !ok {
			return fmt.Errorf("double rendered as %q", n.s)
		}
		if f, _ := r.Float64(); f != v.F {
			return fmt.Errorf("double %v rendered as %s", v.F, n.s)
		}
	case ref.TCodeScope:
		if n.kind != 'o' || len(n.kids) != 2 || n.kids[1].kind != 'o' {
			return fmt.Errorf("code with scope rendered as %c", n.kind)
		}
		if m := n.member("$code"); m.kind != 's' || m.s != v.S {
			return fmt.Errorf("%v is rendered with the code %q", v, m.s)
		}
		return plainTree(ref.Val{T: ref.TDoc, D: v.D}, n.member("$scope"))
	default:
		if n.kind != 'o' || len(n.keys) == 0 || !strings.HasPrefix(n.keys[0], "$") {
			return fmt.Errorf("%v is not rendered in an extended form", v)
		}
		return extendedForm(v, n)
	}
	return nil
}

// member finds a string or number below an object by its path of keys.
func (n *jnode) member(path ...string) *jnode {
	for _, k := range path {
		var next *jnode
		for i := range n.keys {
			if n.kind == 'o' && n.keys[i] == k {
				next = n.kids[i]
			}
		}
		if next == nil {
			return &jnode{kind: '?'}
		}
		n = next
	}
	return n
}

// extendedForm checks that the extended form holds the parts of the value.
func extendedForm(v ref.Val, n *jnode) error {
	text := func(want string, path ...string) error {
		if m := n.member(path...); m.kind != 's' || m.s != want {
			return fmt.Errorf("%v is rendered with %v %q, want %q", v, path, m.s, want)
		}
		return nil
	}
	num := func(want int64, path ...string) error {
		m := n.member(path...)
		if m.kind != 'n' {
			return fmt.Errorf("%v is rendered without the number %v", v, path)
		}
		if err := numEqual(m.s, want); err != nil {
			return fmt.Errorf("%v %v: %w", v, path, err)
		}
		return nil
	}
	first := func(errs ...error) error {
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	hex := func(o [12]byte) string { return fmt.Sprintf("%x", o[:]) }
	switch v.T {
	case ref.TOID:
		return text(hex(v.OID), "$oid")
	case ref.TTimestamp:
		return first(num(int64(v.U), "$timestamp", "t"), num(int64(v.V), "$timestamp", "i"))
	case ref.TRegex:
		return first(text(v.S, "$regularExpression", "pattern"), text(v.S2, "$regularExpression", "options"))
	case ref.TJS:
		return text(v.S, "$code")
	case ref.TSymbol:
		return text(v.S, "$symbol")
	case ref.TDBPtr:
		return first(text(v.S, "$dbPointer", "$ref"), text(hex(v.OID), "$dbPointer", "$id"))
	case ref.TBinary:
		m := n.member("$binary", "base64")
		b, err := base64.StdEncoding.DecodeString(m.s)
		if err != nil || !bytes.Equal(b, v.Bin) {
			return fmt.Errorf("%v is rendered as the bytes %q", v, m.s)
		}
		sub, err := strconv.ParseUint(n.member("$binary", "subType").s, 16, 8)
		if err != nil || byte(sub) != v.Sub {
			return fmt.Errorf("%v is rendered with the subtype %q", v, n.member("$binary", "subType").s)
		}
	case ref.TDate:
		m := n.member("$date")
		if m.kind == 'o' {
			return text(strconv.FormatInt(v.I, 10), "$date", "$numberLong")
		}
		t, err := time.Parse(time.RFC3339Nano, m.s)
		if m.kind != 's' || err != nil || t.UnixMilli() != v.I || t.Nanosecond()%1e6 != 0 {
			return fmt.Errorf("date %d is rendered as %q", v.I, m.s)
		}
	}
	return nil
}

func finite(v ref.Val) bool {
	if v.T == ref.TDouble && (math.IsNaN(v.F) || math.IsInf(v.F, 0)) {
		return false
	}
	for _, e := range v.D {
		if !finite(e.V) {
			return false
		}
	}
	return true
}

// ambiguous: the document holds a subdocument that is itself an extended form.
func ambiguous(v ref.Val) bool {
	if (v.T == ref.TDoc || v.T == ref.TCodeScope) && len(v.D) > 0 && reservedKeys[v.D[0].K] {
		return true
	}
	for _, e := range v.D {
		if ambiguous(e.V) {
			return true
		}
	}
	return false
}

func checkJSONRender(c *engine.Chooser, d ref.Doc) {
	dv := ref.Val{T: ref.TDoc, D: d}
	enc := d.Encode()
	c.StateB(enc)
	c.Note("document %v", d)
	dec, err := birch.ReadDocument(enc)
	if err != nil {
		c.Fail("decode: %v", err)
	}
	var first []byte
	for i, doc := range []*birch.Document{bb.Doc(d), dec} {
		how := []string{"constructed", "decoded"}[i]
		js, err := doc.MarshalJSON()
		c.Step()
		if !finite(dv) {
			if err == nil && !json.Valid(js) {
				c.Fail("%s document %v with a non-finite number renders as invalid JSON %q", how, d, js)
			}
			continue
		}
		if len(d) > 0 {
			c.NonTrivial()
		}
		if err != nil {
			c.Fail("rendering %s %v: %v", how, d, err)
		}
		tree, ok := parseJSON(js)
		if !ok {
			c.Fail("%s %v renders as invalid JSON %q", how, d, js)
		}
		if err := plainTree(dv, tree); err != nil {
			c.Fail("%s %v renders as %s: %v", how, d, js, err)
		}
		if first == nil {
			first = js
		} else if string(first) != string(js) {
			c.Fail("%v renders as %s when constructed but %s when decoded", d, first, js)
		}
		if again, err := doc.MarshalJSON(); err != nil || string(again) != string(js) {
			c.Fail("rendering %v twice gives %s then %s (%v)", d, js, again, err)
		}
		if ambiguous(ref.Val{T: ref.TArray, D: ref.Doc{{V: ref.Val{T: ref.TDoc, D: nil}}}}) || ambiguousBelow(d) {
			continue
		}
		back := birch.DC.New()
		if err := back.UnmarshalJSON(js); err != nil {
			c.Fail("%v renders as %s, which does not read back: %v", d, js, err)
		}
		got, err := fromBSON(back)
		if err != nil {
			c.Fail("%v renders as %s, which reads back badly: %v", d, js, err)
		}
		if err := jsonSame(dv, ref.Val{T: ref.TDoc, D: got}); err != nil {
			c.Fail("%v renders as %s and reads back as %v: %v", d, js, got, err)
		}
		// through encoding/json
		std, err := json.Marshal(doc)
		if err != nil {
			c.Fail("json.Marshal of %v: %v", d, err)
		}
		back2 := birch.DC.New()
		if err := json.Unmarshal(std, back2); err != nil {
			c.Fail("json.Unmarshal of %s: %v", std, err)
		}
		got2, err := fromBSON(back2)
		if err != nil || !got2.Equal(got) {
			c.Fail("%v through encoding/json reads back as %v (%v)", d, got2, err)
		}
		// values one by one, and as an array
		arr := birch.NewArray()
		for _, e := range d {
			v := bb.Value(e.V)
			arr.Append(v)
			vjs, err := v.MarshalJSON()
			if err != nil {
				c.Fail("rendering %v: %v", e.V, err)
			}
			if ambiguous(e.V) {
				continue
			}
			nv := birch.VC.Null()
			if err := nv.UnmarshalJSON(vjs); err != nil {
				c.Fail("%v renders as %s, which does not read back: %v", e.V, vjs, err)
			}
			g, err := bb.FromValue(nv)
			if err != nil {
				c.Fail("%v: %v", e.V, err)
			}
			if err := jsonSame(e.V, g); err != nil {
				c.Fail("value %v renders as %s: %v", e.V, vjs, err)
			}
		}
		ajs, err := arr.MarshalJSON()
		if err != nil {
			c.Fail("rendering array of %v: %v", d, err)
		}
		na := birch.NewArray()
		if err := na.UnmarshalJSON(ajs); err != nil {
			c.Fail("array %s does not read back: %v", ajs, err)
		}
		g, err := bb.FromArr(na)
		if err != nil {
			c.Fail("array %s: %v", ajs, err)
		}
		if err := jsonSame(ref.Val{T: ref.TArray, D: d}, ref.Val{T: ref.TArray, D: g}); err != nil {
			c.Fail("array %s: %v", ajs, err)
		}
	}
}

// ambiguousBelow: the top level itself is never read as an extended form.
func ambiguousBelow(d ref.Doc) bool {
	for _, e := range d {
		if ambiguous(e.V) {
			return true
		}
	}
	return false
}

func c07Scalars() []ref.Val {
	var out []ref.Val
	for _, v := range bb.Scalars() {
		if v.T == ref.TDBPtr && v.S == "" {
			continue // a pointer without a namespace has no extended form
		}
		if v.T == ref.TDec128 {
			if _, canon := ref.DecodeDec(v.Hi, v.Lo); !canon {
				continue // no text denotes a non-canonical pattern
			}
		}
		out = append(out, v)
	}
	for _, f := range []float64{0.1, 0.2, 1.0 / 3, 1e-7, 1e-6, 123456789.123456789, 1e21, 1e20, 9007199254740993, -2.5e-300, 5e-324, 0.000001, 1e15 + 0.3, math.Pi, 9223372036854775807, -9223372036854775808, 2147483648, 4294967296.5} {
		out = append(out, ref.Val{T: ref.TDouble, F: f}, ref.Val{T: ref.TDouble, F: -f})
	}
	for _, ms := range []int64{999, 1000, 1001, 123, -1, -1000, -1001, -62135596800000, -62135596800001, -62167219200000, -62167219200001, 253402300799999, 253402300800000, 951782400000, 4102444800123, 1<<53 + 1} {
		out = append(out, ref.Val{T: ref.TDate, I: ms})
	}
	for _, i := range []int64{1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1<<62 + 1} {
		out = append(out, ref.Val{T: ref.TInt64, I: i})
	}
	for _, s := range []string{"0", "-0", "0.001", "1E+3", "1.50", "1E-6176", "9.999999999999999999999999999999999E+6144", "-1.234567E-10", "NaN", "Infinity", "-Infinity", "0E+100", "123456789012345678901234567890.1234"} {
		dd, _, _ := ref.ParseDec(s)
		if dd.Kind == 'f' {
			h, l := dd.Bits()
			out = append(out, ref.Val{T: ref.TDec128, Hi: h, Lo: l})
		} else if s == "NaN" {
			out = append(out, ref.Val{T: ref.TDec128, Hi: 31 << 58})
		} else {
			h := uint64(30) << 58
			if dd.Neg {
				h |= 1 << 63
			}
			out = append(out, ref.Val{T: ref.TDec128, Hi: h})
		}
	}
	for n := 0; n <= 5; n++ {
		b := []byte{0xff, 0x00, 0x7f, '"', '\\'}[:n]
		out = append(out, ref.Val{T: ref.TBinary, Sub: 0, Bin: b}, ref.Val{T: ref.TBinary, Sub: 5, Bin: b}, ref.Val{T: ref.TBinary, Sub: 2, Bin: b})
	}
	return out
}

// C07: rendering to JSON and reading back.
var C07 = &engine.Property{
	ID: "C07", Level: "model_checking",
	Assume: []string{"encoding/json's tokenizer decides validity and the tree a text denotes", "numbers are compared by value (JSON has one number type)", "strings and keys are valid UTF-8; a subdocument whose first key is an extended-JSON keyword is inherently ambiguous and only required to render as valid JSON; decimals are canonical"},
	Families: func(tier string) []engine.Family {
		sc := c07Scalars()
		reps := []ref.Val{}
		for _, v := range bb.Reps() {
			if v.T == ref.TDec128 {
				v.Hi, v.Lo = 0x3040000000000000, 15
			}
			reps = append(reps, v)
		}
		wide := append(append([]ref.Val{}, reps...), containerReps()...)
		runes := []string{"a", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", "\x01", "\x1f", "\x7f", "é", "\u2028", "\u2029", "<", "&", "\U0001F600", "\uFFFD", "\u0000", "{", ":", ",", "$", "%", "u0041", "'"}
		return []engine.Family{
			{Name: "scalars", Bounds: fmt.Sprintf("one- and two-element documents over %d boundary values of every type", len(sc)), Rule: "finite numbers", Split: 2,
				Run: func(c *engine.Chooser) {
					d := ref.Doc{{K: "k", V: sc[c.Choose(len(sc))]}}
					if c.Bool() {
						d = append(d, ref.Elem{K: "l", V: sc[c.Choose(len(sc))]})
					}
					checkJSONRender(c, d)
				}},
			{Name: "text", Bounds: "every string of <=2 (thorough: 3) pieces over 27 pieces needing care, every single byte 0..0x7f and every rune 0x80..0x2fff (and surrogate-range neighbours), as key, string, code, symbol, regex, namespace and code of a scope", Rule: "finite numbers", Split: 3,
				Run: func(c *engine.Chooser) {
					var s string
					switch c.Choose(2) {
					case 0:
						max := 2
						if tier == "thorough" {
							max = 3
						}
						n := c.Choose(max + 1)
						for i := 0; i < n; i++ {
							s += runes[c.Choose(len(runes))]
						}
					case 1:
						hi := []int{0x00, 0x01, 0x07, 0x20, 0x2f, 0xd7, 0xe0, 0xff, 0x100, 0x1f6, 0x10ff}
						r := hi[c.Choose(len(hi))]<<8 | c.Choose(256)
						s = string(rune(r))
					}
					var v ref.Val
					k := "k"
					nul := strings.IndexByte(s, 0) >= 0
					switch c.Choose(8) {
					case 0:
						v = str(s)
					case 1:
						k, v = s, i32(1)
						if nul {
							c.Skip()
						}
					case 2:
						v = ref.Val{T: ref.TJS, S: s}
					case 3:
						v = ref.Val{T: ref.TSymbol, S: s}
					case 4:
						if nul {
							c.Skip()
						}
						v = ref.Val{T: ref.TRegex, S: s, S2: s}
					case 5:
						if s == "" {
							c.Skip()
						}
						v = ref.Val{T: ref.TDBPtr, S: s, OID: [12]byte{1, 2}}
					case 6:
						v = ref.Val{T: ref.TCodeScope, S: s, D: ref.Doc{{K: "x", V: str(s)}}}
					case 7:
						if nul {
							c.Skip()
						}
						v = ref.Val{T: ref.TDoc, D: ref.Doc{{K: s, V: ref.Val{T: ref.TArray, D: ref.Doc{{V: str(s)}}}}}}
					}
					checkJSONRender(c, ref.Doc{{K: k, V: v}, {K: "t", V: ref.Val{T: ref.TBool}}})
				}},
			{Name: "triples", Bounds: fmt.Sprintf("all ordered triples over %d representatives of every type incl. containers, in a document, a subdocument, an array or a scope", len(wide)), Rule: "finite numbers", Split: 2,
				Run: func(c *engine.Chooser) {
					d := ref.Doc{{K: "a", V: wide[c.Choose(len(wide))]}, {K: "a", V: wide[c.Choose(len(wide))]}, {K: "", V: wide[c.Choose(len(wide))]}}
					switch c.Choose(4) {
					case 0:
						checkJSONRender(c, d)
					case 1:
						checkJSONRender(c, ref.Doc{{K: "s", V: ref.Val{T: ref.TDoc, D: d}}})
					case 2:
						checkJSONRender(c, ref.Doc{{K: "s", V: ref.Val{T: ref.TArray, D: d}}})
					case 3:
						checkJSONRender(c, ref.Doc{{K: "s", V: ref.Val{T: ref.TCodeScope, S: "c", D: d}}})
					}
				}},
			{Name: "nested", Bounds: "all trees of documents, arrays and code-with-scope of width<=2, depth<=2, leaves {int32, string, date}", Rule: "finite numbers", Split: 3,
				Run: func(c *engine.Chooser) {
					checkJSONRender(c, genDoc(c, []ref.Val{i32(1), str("s\""), {T: ref.TDate, I: 1234}}, 1, 2, []string{"a", "b\""}))
				}},
			{Name: "chains", Bounds: "all chains of containers of length<=6 ending in a representative of every type", Rule: "finite numbers", Split: 2,
				Run: func(c *engine.Chooser) {
					n := c.Choose(7)
					v := reps[c.Choose(len(reps))]
					for i := 0; i < n; i++ {
						in := ref.Doc{{K: "k", V: v}}
						switch c.Choose(3) {
						case 0:
							v = ref.Val{T: ref.TDoc, D: in}
						case 1:
							v = ref.Val{T: ref.TArray, D: in}
						case 2:
							v = ref.Val{T: ref.TCodeScope, S: "x", D: in}
						}
					}
					checkJSONRender(c, ref.Doc{{K: "r", V: v}})
				}},
			{Name: "keywords", Bounds: "subdocuments whose first or second key is each extended-JSON keyword, over every representative value: valid JSON, and no crash reading it back", Rule: "every case", Split: 2,
				Run: func(c *engine.Chooser) {
					keys := []string{"$minKey", "$maxKey", "$numberDecimal", "$timestamp", "$symbol", "$code", "$dbPointer", "$regularExpression", "$date", "$oid", "$undefined", "$binary", "$scope", "$ref"}
					e := ref.Elem{K: keys[c.Choose(len(keys))], V: wide[c.Choose(len(wide))]}
					d := ref.Doc{e}
					switch c.Choose(3) {
					case 0:
						d = ref.Doc{{K: "x", V: i32(1)}, e}
					case 1:
						d = append(d, ref.Elem{K: "$scope", V: wide[c.Choose(len(wide))]})
					}
					top := ref.Doc{{K: "s", V: ref.Val{T: ref.TDoc, D: d}}}
					checkJSONRender(c, top)
					js, err := bb.Doc(top).MarshalJSON()
					if err == nil {
						_ = birch.DC.New().UnmarshalJSON(js)
					}
				}},
		}
	},
}
