package props

import (
	"bytes"
	"fmt"
	"strings"

	"birchmc/bb"
	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

// checkJSONText runs every JSON entry point on one text.
func checkJSONText(c *engine.Chooser, text string) {
	in := []byte(text)
	tree, valid := parseJSON(in)
	c.State(text)
	c.Note("text %q", text)
	if valid {
		c.NonTrivial()
	}
	exact := valid && !outOfRange(tree) && !loneSurrogate(tree)
	accept := func(what string, err error, applies bool) bool {
		c.Step()
		if err == nil && !valid {
			c.Fail("%s accepts malformed JSON %q", what, text)
		}
		if err == nil && valid && !applies {
			c.Fail("%s accepts %q", what, text)
		}
		if err == nil && valid && outOfRange(tree) {
			c.Fail("%s accepts %q, whose numbers no value can hold", what, text)
		}
		if err != nil && exact && applies {
			c.Fail("%s refuses %q: %v", what, text, err)
		}
		return err == nil && exact && applies
	}
	back := func(what string, out []byte, err error) {
		if err != nil {
			c.Fail("writing %q after %s: %v", text, what, err)
		}
		t2, ok := parseJSON(out)
		if !ok || !treeEqual(tree, t2) {
			c.Fail("%s of %q is written back as %q", what, text, out)
		}
	}
	isObj, isArr := valid && tree.kind == 'o', valid && tree.kind == 'a'
	// jsonx
	jd, err := jsonx.DCE.Bytes(in)
	if accept("jsonx document", err, isObj) {
		if err := jsonxDocEqual(tree, jd); err != nil {
			c.Fail("jsonx document of %q: %v", text, err)
		}
		out, err := jd.MarshalJSON()
		back("jsonx document", out, err)
		out, err = jd.Copy().MarshalJSON()
		back("jsonx document copy", out, err)
	}
	if d2, err2 := jsonx.DCE.Reader(bytes.NewReader(in)); (err == nil) != (err2 == nil) || (err == nil && d2.Len() != jd.Len()) {
		c.Fail("jsonx Reader and Bytes disagree on %q: %v, %v", text, err, err2)
	}
	ja, err := jsonx.ACE.Bytes(in)
	if accept("jsonx array", err, isArr) {
		if err := jsonxArrEqual(tree, ja); err != nil {
			c.Fail("jsonx array of %q: %v", text, err)
		}
		out, err := ja.MarshalJSON()
		back("jsonx array", out, err)
	}
	jv, err := jsonx.VCE.Bytes(in)
	if accept("jsonx value", err, valid) {
		if err := jsonxEqual(tree, jv); err != nil {
			c.Fail("jsonx value of %q: %v", text, err)
		}
		out, err := jv.MarshalJSON()
		back("jsonx value", out, err)
	}
	// BSON
	ext := valid && dollar(tree)
	nul := valid && nulKey(tree)
	if ext || nul {
		exact = false
	}
	bd := birch.DC.New()
	err = bd.UnmarshalJSON(in)
	if err == nil && nul && !ext {
		c.Fail("a BSON document accepts the key with a null byte in %q", text)
	}
	if accept("BSON document", err, isObj) {
		got, err := fromBSON(bd)
		if err != nil {
			c.Fail("BSON document of %q: %v", text, err)
		}
		if err := bsonDocEqual(tree, got); err != nil {
			c.Fail("BSON document of %q: %v", text, err)
		}
		out, err := bd.MarshalJSON()
		back("BSON document", out, err)
		jb, err := birch.DCE.JSONX(jd)
		if err != nil {
			c.Fail("DCE.JSONX of %q: %v", text, err)
		}
		if g2, err := fromBSON(jb); err != nil || !g2.Equal(got) {
			c.Fail("DCE.JSONX of %q gives %v (%v), UnmarshalJSON %v", text, g2, err, got)
		}
	} else if err == nil && valid {
		// extended forms: encoding may refuse, but must not corrupt
		if b, err := bd.MarshalBSON(); err == nil {
			if _, n, err := ref.Decode(b); err != nil || n != len(b) {
				c.Fail("BSON document of %q encodes to malformed bytes % x", text, b)
			}
		}
	}
	ba := birch.NewArray()
	err = ba.UnmarshalJSON(in)
	if accept("BSON array", err, isArr) {
		got, err := bb.FromArr(ba)
		if err != nil {
			c.Fail("BSON array of %q: %v", text, err)
		}
		if err := bsonEqual(tree, ref.Val{T: ref.TArray, D: got}); err != nil {
			c.Fail("BSON array of %q: %v", text, err)
		}
		out, err := ba.MarshalJSON()
		back("BSON array", out, err)
	}
	bv := birch.VC.Null()
	err = bv.UnmarshalJSON(in)
	if accept("BSON value", err, valid) {
		got, err := bb.FromValue(bv)
		if err != nil {
			c.Fail("BSON value of %q: %v", text, err)
		}
		if err := bsonEqual(tree, got); err != nil {
			c.Fail("BSON value of %q: %v", text, err)
		}
		out, err := bv.MarshalJSON()
		back("BSON value", out, err)
	}
}

var jsonSeeds = []string{
	`{"a":1,"b":[true,false,null],"c":{"d":"x\"y","e":-1.5e3}}`,
	`{"":"","k k":[[],[{}],{"a":[1,2,[3]]}],"a":1,"a":2}`,
	`[1,"two",{"three":3.25},[4,[5]],null,"\u00e9\ud83d\ude00\/\b\f\n\r\t"]`,
	` { "x" : [ 1 , 2 ] , "y" : { } } `,
	`{"$oid":"5f0102030405060708090a0b","a":{"$date":"2020-01-02T03:04:05Z"},"b":{"$timestamp":{"t":1,"i":2}}}`,
	`{"a":{"$binary":{"base64":"AQI=","subType":"00"}},"b":{"$code":"c","$scope":{"x":1}},"c":{"$regularExpression":{"pattern":"p","options":"i"}}}`,
	`{"a":{"$dbPointer":{"$ref":"n","$id":"5f0102030405060708090a0b"}},"b":{"$numberDecimal":"1.5"},"c":{"$symbol":"s"},"d":{"$minKey":1},"e":{"$undefined":true}}`,
}

// C08: JSON parsing.
var C08 = &engine.Property{
	ID: "C08", Level: "model_checking",
	Assume: []string{"encoding/json's tokenizer decides which texts are JSON and what tree they denote", "numbers are compared by value: an int64 exactly, any other number as the nearest double",
		"objects whose first key starts with '$' may be extended forms: only absence of crashes and a well-formed result are required of them", "texts with unpaired surrogate escapes are only required not to crash"},
	Families: func(tier string) []engine.Family {
		nc, nt, nn, ns := 5, 6, 6, 5
		if tier == "thorough" {
			nc, nt, nn, ns = 6, 7, 7, 6
		}
		return biggestLast("trees", []engine.Family{
			{Name: "kept", Bounds: "14 texts (valid and not) x 13 ways to parse them, from memory or from sources that deliver byte by byte, with the end of the data, or fail at every byte; the text overwritten and others parsed and written afterwards", Rule: "accepted, or the source fails", Split: 2, Run: c08Kept},
			{Name: "built", Bounds: "trees built with the constructors: every leaf (some 60 strings, booleans, integers, doubles and null) in 6 kinds of containers with up to 2 others, and all trees of depth 2 (3 in the thorough tier) over representative leaves: written, read back and converted to BSON", Rule: "every case", Split: 2, Run: c08Built(jleaves(), tier == "thorough")},
			{Name: "broken", Bounds: "trees with a missing or unrepresentable value at depth 0 to 2", Rule: "every case", Run: c08Broken},
			{Name: "characters", Bounds: fmt.Sprintf("all strings of length<=%d over the characters {}[]:,\"\\a1-. t\\n", nc), Rule: "a syntactically valid text", Split: 3,
				Run: func(c *engine.Chooser) {
					al := "{}[]:,\"\\a1-. \n"
					n := c.Choose(nc + 1)
					b := make([]byte, n)
					for i := range b {
						b[i] = al[c.Choose(len(al))]
					}
					checkJSONText(c, string(b))
				}},
			{Name: "tokens", Bounds: fmt.Sprintf("all strings of <=%d tokens from {, }, [, ], :, comma, \"a\", \"\", 1, -2.5, true, null, space", nt), Rule: "a syntactically valid text", Split: 3,
				Run: func(c *engine.Chooser) {
					toks := []string{"{", "}", "[", "]", ":", ",", `"a"`, `"b\""`, "1", "-2.5", "true", "null", " "}
					n := c.Choose(nt + 1)
					var b strings.Builder
					for i := 0; i < n; i++ {
						b.WriteString(toks[c.Choose(len(toks))])
					}
					checkJSONText(c, b.String())
				}},
			{Name: "trees", Bounds: "all trees of objects and arrays of width<=2, depth<=3, leaves {string, number, null}, with and without white space", Rule: "a syntactically valid text", Split: 4,
				Run: func(c *engine.Chooser) {
					sp := []string{"", " ", "\n\t"}[c.Choose(3)]
					var gen func(d int) string
					gen = func(d int) string {
						k := 5
						if d == 0 {
							k = 3
						}
						switch c.Choose(k) {
						case 0:
							return `"s]}"`
						case 1:
							return "-12.50"
						case 2:
							return "null"
						case 3:
							n := c.Choose(3)
							var p []string
							for i := 0; i < n; i++ {
								p = append(p, []string{`"a"`, `"b{,"`}[i]+sp+":"+sp+gen(d-1))
							}
							return "{" + sp + strings.Join(p, sp+","+sp) + sp + "}"
						default:
							n := c.Choose(3)
							var p []string
							for i := 0; i < n; i++ {
								p = append(p, gen(d-1))
							}
							return "[" + sp + strings.Join(p, sp+","+sp) + sp + "]"
						}
					}
					depth := 2
					if tier == "thorough" {
						depth = 3
						if sp != "" {
							depth = 2
						}
					}
					t := gen(depth)
					switch c.Choose(3) {
					case 0:
						t = `{"k":` + t + `}`
					case 1:
						t = "[" + t + "]"
					}
					checkJSONText(c, sp+t+sp)
				}},
			{Name: "strings", Bounds: fmt.Sprintf("all string bodies of length<=%d over {\\,\",u,0,D,8,n,/,a,é}, and every \\uXXXX escape (65536) alone and all pairs of surrogate boundary escapes, as key and as value", ns), Rule: "a syntactically valid text", Split: 3,
				Run: func(c *engine.Chooser) {
					var s string
					switch c.Choose(3) {
					case 0:
						al := []string{`\`, `"`, "u", "0", "D", "8", "n", "/", "a", "é"}
						n := c.Choose(ns + 1)
						for i := 0; i < n; i++ {
							s += al[c.Choose(len(al))]
						}
					case 1:
						s = fmt.Sprintf("x\\u%02x%02Xy", c.Choose(256), c.Choose(256))
					case 2:
						al := []string{`\ud800`, `\udbff`, `\uD83D`, `\udc00`, `\udfff`, `\uDE00`, `\u0041`, `\n`, "a", "\U0001F600"}
						for i := 0; i < 3; i++ {
							s += al[c.Choose(len(al))]
						}
					}
					switch c.Choose(3) {
					case 0:
						checkJSONText(c, `["`+s+`"]`)
					case 1:
						checkJSONText(c, `{"`+s+`":1}`)
					case 2:
						checkJSONText(c, `{"k":"`+s+`","l":{"`+s+`":"`+s+`"}}`)
					}
				}},
			{Name: "bytes", Bounds: "every byte value 0..255 at every position of a short object and array, in and out of strings", Rule: "a syntactically valid text", Split: 2,
				Run: func(c *engine.Chooser) {
					s := []string{`{"a":"b"}`, `["a",1]`, `{"a":[1]}`, `"ab"`, `12`, `{"a":-1.5e+3}`}[c.Choose(6)]
					i := c.Choose(len(s))
					b := []byte(s)
					b[i] = byte(c.Choose(256))
					checkJSONText(c, string(b))
				}},
			{Name: "numbers", Bounds: fmt.Sprintf("all strings of length<=%d over {-,0,1,9,.,e,E,+} as an array element, an object value and alone; integers and doubles at every width and range boundary +-1", nn), Rule: "a syntactically valid text", Split: 3,
				Run: func(c *engine.Chooser) {
					var s string
					if c.Bool() {
						n := 1 + c.Choose(nn)
						b := make([]byte, n)
						for i := range b {
							b[i] = "-019.eE+"[c.Choose(8)]
						}
						s = string(b)
					} else {
						pool := []string{"2147483647", "2147483648", "2147483646", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890",
							"1.7976931348623157e308", "1.7976931348623159e308", "1e309", "1e400", "5e-324", "2e-324", "1e-400", "0.1", "0.30000000000000004", "1.0", "100.0", "1e2", "1E+2", "123456789.123456789", "1e21", "1e22", "0.000001", "0.0000001", "3.14159265358979323846"}
						s = pool[c.Choose(len(pool))]
						if c.Bool() {
							s = "-" + s
						}
					}
					switch c.Choose(3) {
					case 0:
						checkJSONText(c, "["+s+"]")
					case 1:
						checkJSONText(c, `{"a":`+s+`,"b":`+s+`}`)
					case 2:
						checkJSONText(c, s)
					}
				}},
			{Name: "edits", Bounds: fmt.Sprintf("%d rich seed texts: every truncation, every deletion of one character, every replacement and insertion of one of {}[]:,\"\\0-.etn$ at every position", len(jsonSeeds)), Rule: "a syntactically valid text", Split: 2,
				Run: func(c *engine.Chooser) {
					s := jsonSeeds[c.Choose(len(jsonSeeds))]
					al := "{}[]:,\"\\0-.etn$ "
					switch c.Choose(4) {
					case 0:
						s = s[:c.Choose(len(s)+1)]
					case 1:
						i := c.Choose(len(s))
						s = s[:i] + s[i+1:]
					case 2:
						i := c.Choose(len(s))
						s = s[:i] + string(al[c.Choose(len(al))]) + s[i+1:]
					case 3:
						i := c.Choose(len(s) + 1)
						s = s[:i] + string(al[c.Choose(len(al))]) + s[i:]
					}
					checkJSONText(c, s)
				}},
			{Name: "extended", Bounds: "every extended key x every JSON value of a 30-value pool (including right and wrong payloads) x an optional second member, at top level, nested and in arrays", Rule: "a syntactically valid text", Split: 2,
				Run: func(c *engine.Chooser) {
					keys := []string{"$minKey", "$maxKey", "$numberDecimal", "$timestamp", "$symbol", "$code", "$dbPointer", "$regularExpression", "$date", "$oid", "$undefined", "$binary", "$scope", "$numberLong", "$ref", "$foo"}
					vals := []string{"1", "-1", "1.5", "true", "null", `""`, `"x"`, `"1.5"`, `"5f0102030405060708090a0b"`, `"2020-01-02T03:04:05.678Z"`, "[]", "{}", `[1]`, `{"t":1,"i":2}`, `{"t":"x","i":2}`, `{"t":1.5}`, `{"t":-1,"i":99999999999}`,
						`{"pattern":"p","options":"i"}`, `{"pattern":1}`, `{"pattern":"a\u0000b"}`, `{"$ref":"n","$id":"5f0102030405060708090a0b"}`, `{"$ref":1,"$id":2}`, `{"$ref":"n","$id":"zz"}`, `{"base64":"AQI=","subType":"00"}`, `{"base64":"AQI=","subType":"02"}`, `{"base64":"!","subType":"zz"}`, `{"base64":1,"subType":2}`, `{"subType":"fff"}`, `{"$numberLong":"12"}`, `{"$numberLong":12}`, `{"$numberLong":"x"}`, `{"$oid":1}`, `{"$date":{"$date":1}}`}
					second := []string{"", `,"$scope":{"a":1}`, `,"$scope":1`, `,"$scope":{"$oid":"5f0102030405060708090a0b"}`, `,"$scope":{"$oid":1}`, `,"":1`, `,"x":{"$code":1}`}
					obj := `{"` + keys[c.Choose(len(keys))] + `":` + vals[c.Choose(len(vals))] + second[c.Choose(len(second))] + `}`
					switch c.Choose(4) {
					case 0:
						checkJSONText(c, obj)
					case 1:
						checkJSONText(c, `{"a":`+obj+`}`)
					case 2:
						checkJSONText(c, `[`+obj+`,1]`)
					case 3:
						checkJSONText(c, `{"a":{"b":[`+obj+`]}}`)
					}
				}},
		})
	},
}

// biggestLast moves the family that may use up the time to the end.
func biggestLast(name string, fams []engine.Family) []engine.Family {
	var out, last []engine.Family
	for _, f := range fams {
		if f.Name == name {
			last = append(last, f)
		} else {
			out = append(out, f)
		}
	}
	return append(out, last...)
}
