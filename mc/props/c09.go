package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"birchmc/engine"
	"birchmc/ref"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
)

func checkDecText(c *engine.Chooser, s string) {
	d, ok, strict := ref.ParseDec(s)
	got, err := types.ParseDecimal128(s)
	c.Step()
	c.State(s)
	c.Note("ParseDecimal128(%.120q)", s)
	if !ok {
		if err == nil {
			c.Fail("ParseDecimal128(%.120q) accepts malformed text as %v", s, got)
		}
		return
	}
	c.NonTrivial()
	exact, direct := d.Representable()
	if !exact {
		if err == nil {
			c.Fail("ParseDecimal128(%.120q) accepts a number a decimal128 cannot hold, giving %v", s, got)
		}
		return
	}
	if err != nil {
		if direct && strict {
			c.Fail("ParseDecimal128(%.120q): %v", s, err)
		}
		return
	}
	h, l := got.GetBytes()
	back, canon := ref.DecodeDec(h, l)
	if !canon {
		c.Fail("ParseDecimal128(%.120q) gives the non-canonical pattern %016x %016x", s, h, l)
	}
	if back.Norm() != d.Norm() {
		c.Fail("ParseDecimal128(%.120q) = %v (%s), want %s", s, got, back.Norm(), d.Norm())
	}
	if direct && d.Kind == 'f' && back.Exp != d.Exp {
		c.Fail("ParseDecimal128(%.120q) has exponent %d, the text says %d", s, back.Exp, d.Exp)
	}
	if got.String() != back.String() {
		c.Fail("decimal %s formats as %q", back, got.String())
	}
}

func c09Coefs() []*big.Int {
	var out []*big.Int
	p := func(s string) { b, _ := new(big.Int).SetString(s, 10); out = append(out, b) }
	for _, s := range []string{"0", "1", "5", "9", "10", "12", "99", "100", "101", "1234", "999999999", "1000000000", "1000000001", "12345678901234567890",
		"18446744073709551615", "18446744073709551616", "18446744073709551617", "1000000000000000000", "1000000000000000000000000000", "100000000000000000000000000000000",
		"1000000000000000000000000000000000", "1234567890123456789012345678901234", "9999999999999999999999999999999999", "9999999999999999999999999999999990", "9000000000000000000000000000000000", "123000000", "1200000000000000000"} {
		p(s)
	}
	return out
}

var oidTextPool = []string{"000000000000000000000000", "ffffffffffffffffffffffff", "0123456789abcdef01234567", "5f0102030405060708090a0b"}

// C09: decimal and object id text.
var C09 = &engine.Property{
	ID: "C09", Level: "model_checking",
	Assume: []string{"the reference conversion in mc/ref/decimal.go follows the General Decimal Arithmetic specification (to-scientific-string) and IEEE 754-2008 BID", "patterns that IEEE 754 calls non-canonical are only required not to crash"},
	Families: func(tier string) []engine.Family {
		coefs := c09Coefs()
		maxText := 6
		if tier == "thorough" {
			maxText = 7
		}
		exps := []int{}
		for e := -6176; e <= 6111; e++ {
			exps = append(exps, e)
		}
		return []engine.Family{
			{Name: "format", Bounds: fmt.Sprintf("all 12288 exponents x %d boundary coefficients x sign: formatting, reparsing to the same bits, JSON and BSON accessors", len(coefs)), Rule: "every case", Split: 1,
				Run: func(c *engine.Chooser) {
					e := exps[c.Choose(len(exps))]
					d := ref.Dec{Kind: 'f', Coef: coefs[c.Choose(len(coefs))], Exp: e, Neg: c.Bool()}
					h, l := d.Bits()
					bd := types.NewDecimal128(h, l)
					c.Step()
					c.State(fmt.Sprintf("%x.%x", h, l))
					c.NonTrivial()
					if got := bd.String(); got != d.String() {
						c.Fail("decimal %016x %016x formats as %q, want %q", h, l, got, d)
					}
					back, err := types.ParseDecimal128(d.String())
					if err != nil || back != bd {
						c.Fail("%q parses to %v (%v), want the bits %016x %016x", d.String(), back, err, h, l)
					}
					if d.Exp%97 == 0 {
						v := birch.VC.Decimal128(bd)
						js, err := v.MarshalJSON()
						if err != nil || string(js) != `{"$numberDecimal":"`+d.String()+`"}` {
							c.Fail("decimal %s renders as %s (%v)", d, js, err)
						}
						nv := birch.VC.Null()
						if err := nv.UnmarshalJSON(js); err != nil || nv.Decimal128() != bd {
							c.Fail("decimal %s reads back from %s as %v (%v)", d, js, nv, err)
						}
					}
				}},
			{Name: "digits", Bounds: "every coefficient length 1..34 x digit patterns {1..1, 9..9, 10..0, 10..01, 12345.., 90..09} x exponents around every formatting boundary (-45..10, +-6150..) x sign", Rule: "every case", Split: 1,
				Run: func(c *engine.Chooser) {
					n := 1 + c.Choose(34)
					var s string
					switch c.Choose(6) {
					case 0:
						s = strings.Repeat("1", n)
					case 1:
						s = strings.Repeat("9", n)
					case 2:
						s = "1" + strings.Repeat("0", n-1)
					case 3:
						s = ("1" + strings.Repeat("0", n) + "1")[:n]
						if n > 1 {
							s = s[:n-1] + "1"
						}
					case 4:
						s = strings.Repeat("1234567890", 4)[:n]
					case 5:
						s = "9" + strings.Repeat("0", n-1)
						if n > 1 {
							s = s[:n-1] + "9"
						}
					}
					var es []int
					for e := -45; e <= 10; e++ {
						es = append(es, e)
					}
					es = append(es, -6176, -6175, -6150, -6143, 6111, 6110, 6078, 6000)
					coef, _ := new(big.Int).SetString(s, 10)
					d := ref.Dec{Kind: 'f', Coef: coef, Exp: es[c.Choose(len(es))], Neg: c.Bool()}
					h, l := d.Bits()
					c.Step()
					c.NonTrivial()
					c.State(fmt.Sprintf("%x.%x", h, l))
					bd := types.NewDecimal128(h, l)
					if gh, gl := bd.GetBytes(); gh != h || gl != l {
						c.Fail("GetBytes = %x %x, want %x %x", gh, gl, h, l)
					}
					if got := bd.String(); got != d.String() {
						c.Fail("decimal %016x %016x formats as %q, want %q", h, l, got, d)
					}
					checkDecText(c, d.String())
				}},
			{Name: "patterns", Bounds: "every value of the top 17 bits x low-bit patterns {0, 1, all ones, alternating}: formatting never fails, canonical patterns format exactly, and the text parses back to the same number", Rule: "every case", Split: 1,
				Run: func(c *engine.Chooser) {
					top := uint64(c.Choose(1 << 17))
					p := c.Choose(4)
					h := top << 47
					var l uint64
					switch p {
					case 1:
						l = 1
					case 2:
						h |= 1<<47 - 1
						l = ^uint64(0)
					case 3:
						h |= 0x5555_5555_5555 & (1<<47 - 1)
						l = 0xaaaaaaaaaaaaaaaa
					}
					d, canon := ref.DecodeDec(h, l)
					got := types.NewDecimal128(h, l).String()
					c.Step()
					c.State(fmt.Sprintf("%x.%x", h, l))
					if d.Kind != 'f' || canon {
						c.NonTrivial()
						if got != d.String() {
							c.Fail("decimal %016x %016x formats as %q, want %q", h, l, got, d)
						}
						back, err := types.ParseDecimal128(got)
						if err != nil {
							c.Fail("%q does not parse: %v", got, err)
						}
						bh, bl := back.GetBytes()
						bd, _ := ref.DecodeDec(bh, bl)
						if bd.Norm() != d.Norm() {
							c.Fail("%q parses to %s", got, bd)
						}
					}
				}},
			{Name: "texts", Bounds: fmt.Sprintf("all strings of length<=%d over {0,1,9,.,+,-,E,e,x}", maxText), Rule: "a well-formed number", Split: 3,
				Run: func(c *engine.Chooser) {
					n := c.Choose(maxText + 1)
					var b []byte
					for i := 0; i < n; i++ {
						b = append(b, "019.+-Eex"[c.Choose(9)])
					}
					checkDecText(c, string(b))
				}},
			{Name: "specials", Bounds: "every case variant of nan, inf and infinity, signed or not, with every one-character deletion, duplication and suffix", Rule: "a well-formed number", Split: 3,
				Run: func(c *engine.Chooser) {
					base := []string{"nan", "inf", "infinity"}[c.Choose(3)]
					var b []byte
					for i := range base {
						if c.Bool() {
							b = append(b, base[i]-32)
						} else {
							b = append(b, base[i])
						}
					}
					s := string(b)
					switch c.Choose(4) {
					case 1:
						i := c.Choose(len(s))
						s = s[:i] + s[i+1:]
					case 2:
						i := c.Choose(len(s))
						s = s[:i] + s[i:i+1] + s[i:]
					case 3:
						s += []string{"0", "E1", "y", " "}[c.Choose(4)]
					}
					checkDecText(c, []string{"", "-", "+"}[c.Choose(3)]+s)
				}},
			{Name: "long-texts", Bounds: "mantissas of 1..40 significant digits with 0..12 trailing zeros, leading zeros, the point at every tenth position or absent, x exponents at and around -6176, 6111, 6144 and the int boundary; and plain digit strings of up to 6300 digits before or after the point", Rule: "a well-formed number", Split: 3,
				Run: func(c *engine.Chooser) {
					if c.Bool() {
						n := []int{1, 33, 34, 35, 60, 6110, 6111, 6112, 6144, 6145, 6146, 6175, 6176, 6177, 6178, 6210, 6211, 6300}[c.Choose(18)]
						lead := []string{"", "0", "00", "-"}[c.Choose(4)]
						z := strings.Repeat("0", n)
						dig := []string{"1", "9", "12", "0"}[c.Choose(4)]
						exp := []string{"", "E0", "E-1", "E+1", "E-34", "E+34"}[c.Choose(6)]
						switch c.Choose(5) {
						case 0:
							checkDecText(c, lead+dig+z+exp)
						case 1:
							checkDecText(c, lead+"0."+z+dig+exp)
						case 2:
							checkDecText(c, lead+z+dig+exp)
						case 3:
							checkDecText(c, lead+dig+"."+z+exp)
						case 4:
							checkDecText(c, lead+dig+z+"."+z+exp)
						}
						return
					}
					n := 1 + c.Choose(40)
					z := c.Choose(13)
					s := strings.Repeat("9876543210", 5)[:n]
					if c.Bool() {
						s = "1" + strings.Repeat("0", n-1)
					}
					s += strings.Repeat("0", z)
					switch k := c.Choose(4); k {
					case 1:
						s = s[:len(s)/2] + "." + s[len(s)/2:]
					case 2:
						s = "0." + s
					case 3:
						s = "0.000000" + s
					}
					es := []int{0, -1, 1, -6176, -6177, -6143, -6210, -6142, 6111, 6112, 6110, 6144, 6145, 6146, 6077, 6078, 9999, 10000, -9999, -10000, 99999, -99999}
					e := es[c.Choose(len(es))]
					checkDecText(c, fmt.Sprintf("%sE%d", s, e))
				}},
			{Name: "objectid", Bounds: "ids with every byte at every value; every single-character replacement (all 256 bytes), deletion, insertion of the text; JSON and extended-JSON forms", Rule: "every case", Split: 2,
				Run: func(c *engine.Chooser) {
					if c.Bool() {
						var id types.ObjectID
						for i := range id {
							id[i] = byte(0x10*i + 3)
						}
						id[c.Choose(12)] = byte(c.Choose(256))
						want := hex.EncodeToString(id[:])
						c.State(want)
						c.Step()
						c.NonTrivial()
						if id.Hex() != want || id.String() != `ObjectID("`+want+`")` {
							c.Fail("id %x formats as %q, %q", id[:], id.Hex(), id.String())
						}
						if back, err := types.ObjectIDFromHex(want); err != nil || back != id {
							c.Fail("ObjectIDFromHex(%q) = %v, %v", want, back, err)
						}
						if back := types.MustObjectIDFromHex(strings.ToUpper(want)); back != id {
							c.Fail("MustObjectIDFromHex upper case = %v", back)
						}
						js, err := json.Marshal(id)
						if err != nil || string(js) != `"`+want+`"` {
							c.Fail("id %s renders as JSON %s (%v)", want, js, err)
						}
						for _, f := range []string{string(js), `{"$oid":"` + want + `"}`, ` {"$oid": "` + want + `"} `} {
							var back types.ObjectID
							if err := json.Unmarshal([]byte(f), &back); err != nil || back != id {
								c.Fail("id reads back from %s as %v (%v)", f, back, err)
							}
						}
						v := birch.VC.ObjectID(id)
						ext, err := v.MarshalJSON()
						nv := birch.VC.Null()
						if err != nil || nv.UnmarshalJSON(ext) != nil || nv.ObjectID() != id {
							c.Fail("value %s renders as %s and reads back wrong", want, ext)
						}
						if id.IsZero() {
							c.Fail("%s reports zero", want)
						}
						return
					}
					s := engine.Pick(c, oidTextPool)
					switch c.Choose(3) {
					case 0:
						i := c.Choose(len(s))
						s = s[:i] + string([]byte{byte(c.Choose(256))}) + s[i+1:]
					case 1:
						i := c.Choose(len(s))
						s = s[:i] + s[i+1:]
					case 2:
						i := c.Choose(len(s) + 1)
						s = s[:i] + []string{"0", "f", "g", "00", " "}[c.Choose(5)] + s[i:]
					}
					raw, err := hex.DecodeString(s)
					good := err == nil && len(raw) == 12
					id, gerr := types.ObjectIDFromHex(s)
					c.Step()
					c.State(s)
					c.NonTrivial()
					if good != (gerr == nil) {
						c.Fail("ObjectIDFromHex(%q) = %v, %v", s, id, gerr)
					}
					if good && string(id[:]) != string(raw) {
						c.Fail("ObjectIDFromHex(%q) = %v", s, id)
					}
					for _, f := range []any{s, map[string]string{"$oid": s}} {
						if strings.ToValidUTF8(s, "?") != s {
							continue
						}
						js, _ := json.Marshal(f)
						var back types.ObjectID
						jerr := back.UnmarshalJSON(js)
						if good != (jerr == nil) {
							c.Fail("ObjectID.UnmarshalJSON(%s): %v", js, jerr)
						}
						if good && back != id {
							c.Fail("ObjectID.UnmarshalJSON(%s) = %v", js, back)
						}
					}
				}},
			{Name: "objectid-json", Bounds: "JSON values of every kind, and every truncation of the extended form, offered as an id: an error, never a crash", Rule: "every case", Split: 1,
				Run: func(c *engine.Chooser) {
					pool := []string{"null", "1", "true", "[]", "{}", `""`, `{"$oid":1}`, `{"$oid":null}`, `{"$oid":""}`, `{"oid":"5f0102030405060708090a0b"}`, `{"$oid":{"$oid":"5f0102030405060708090a0b"}}`, `["5f0102030405060708090a0b"]`}
					full := `{"$oid":"5f0102030405060708090a0b"}`
					k := c.Choose(len(pool) + len(full))
					s := ""
					if k < len(pool) {
						s = pool[k]
					} else {
						s = full[:k-len(pool)]
					}
					c.State(s)
					c.Step()
					c.NonTrivial()
					var id types.ObjectID
					if err := id.UnmarshalJSON([]byte(s)); err == nil && len(s) != 12 {
						c.Fail("ObjectID.UnmarshalJSON(%q) succeeded: %v", s, id)
					}
				}},
		}
	},
}
