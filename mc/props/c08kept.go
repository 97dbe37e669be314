package props

import (
	"bytes"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"

	"birchmc/engine"
)

type jsonMarsh interface{ MarshalJSON() ([]byte, error) }

var errReader = fmt.Errorf("the source fails")

// jsonWays are the ways to parse an object.
var jsonWays = []struct {
	name   string
	reader bool
	run    func(b []byte, r io.Reader) (jsonMarsh, error)
}{
	{"jsonx.DCE.Bytes", false, func(b []byte, r io.Reader) (jsonMarsh, error) { return jsonx.DCE.Bytes(b) }},
	{"jsonx.DCE.Reader", true, func(b []byte, r io.Reader) (jsonMarsh, error) { return jsonx.DCE.Reader(r) }},
	{"jsonx.VCE.Bytes", false, func(b []byte, r io.Reader) (jsonMarsh, error) { return jsonx.VCE.Bytes(b) }},
	{"jsonx.VCE.Reader", true, func(b []byte, r io.Reader) (jsonMarsh, error) { return jsonx.VCE.Reader(r) }},
	{"jsonx.ACE.Bytes", false, func(b []byte, r io.Reader) (jsonMarsh, error) {
		return jsonx.ACE.Bytes(b)
	}},
	{"jsonx.ACE.Reader", true, func(b []byte, r io.Reader) (jsonMarsh, error) {
		return jsonx.ACE.Reader(r)
	}},
	{"jsonx Document.UnmarshalJSON", false, func(b []byte, r io.Reader) (jsonMarsh, error) {
		d := jsonx.DC.New()
		return d, d.UnmarshalJSON(b)
	}},
	{"Document.UnmarshalJSON", false, func(b []byte, r io.Reader) (jsonMarsh, error) {
		d := birch.DC.New()
		return d, d.UnmarshalJSON(b)
	}},
	{"Array.UnmarshalJSON", false, func(b []byte, r io.Reader) (jsonMarsh, error) {
		a := birch.NewArray()
		return a, a.UnmarshalJSON(b)
	}},
	{"Value.UnmarshalJSON", false, func(b []byte, r io.Reader) (jsonMarsh, error) {
		v := birch.VC.Null()
		return v, v.UnmarshalJSON(b)
	}},
	{"jsonx.DC.Reader", true, func(b []byte, r io.Reader) (m jsonMarsh, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = p.(error)
			}
		}()
		return jsonx.DC.Reader(r), nil
	}},
	{"jsonx.AC.Reader", true, func(b []byte, r io.Reader) (m jsonMarsh, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = p.(error)
			}
		}()
		return jsonx.AC.Reader(r), nil
	}},
	{"jsonx.VC.Reader", true, func(b []byte, r io.Reader) (m jsonMarsh, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = p.(error)
			}
		}()
		return jsonx.VC.Reader(r), nil
	}},
}

var keptTexts = []string{
	`{}`, `[]`, `{"a":1}`, `[1,"two",null]`, `{"key":"text with \"quotes\" and \u00e9","n":{"deep":["list",{"x":-1.5}]}}`,
	`{"o":{"$oid":"5f0102030405060708090a0b"},"b":{"$binary":{"base64":"AQID","subType":"00"}},"d":{"$numberDecimal":"1.5"}}`,
	`["plain","text","héé",{"k":"v"}]`, `{"big":123456789012345678,"t":true,"z":null,"s":"` + "0123456789012345678901234567890123456789" + `"}`,
	`{"a":`, `[1,`, `{"a":1}x`, `nul`, `"s`, ``,
}

// c08Kept: what was parsed is the caller's, whatever happens to the text
// and however its source delivers it.
func c08Kept(c *engine.Chooser) {
	text := engine.Pick(c, keptTexts)
	w := jsonWays[c.Choose(len(jsonWays))]
	in := []byte(text)
	how := 0
	var r io.Reader = bytes.NewReader(in)
	fault := -1
	if w.reader {
		how = c.Choose(4)
		switch how {
		case 1:
			r = iotest.OneByteReader(r)
		case 2:
			r = iotest.DataErrReader(r)
		case 3:
			fault = c.Choose(len(in) + 1)
			r = io.MultiReader(bytes.NewReader(in[:fault]), iotest.ErrReader(errReader))
		}
	}
	c.Note("%s of %q, source kind %d, failing at %d", w.name, text, how, fault)
	c.State(fmt.Sprint(text, w.name, how, fault))
	c.Step()
	m, err := w.run(in, r)
	ref, rerr := w.run([]byte(text), bytes.NewReader([]byte(text)))
	if fault >= 0 {
		c.NonTrivial()
		if err == nil {
			c.Fail("%s: the source fails at byte %d of %q, no error", w.name, fault, text)
		}
		return
	}
	if (err == nil) != (rerr == nil) {
		c.Fail("%s of %q: %v, then %v", w.name, text, err, rerr)
	}
	if err != nil {
		return
	}
	c.NonTrivial()
	want, err := ref.MarshalJSON()
	if err != nil {
		c.Fail("writing: %v", err)
	}
	for i := range in {
		in[i] = '7'
	}
	for _, o := range keptTexts {
		b := []byte(o)
		if x, err := w.run(b, bytes.NewReader(b)); err == nil {
			if _, err := x.MarshalJSON(); err != nil {
				c.Fail("writing %q: %v", o, err)
			}
		}
		c.Step()
	}
	got, err := m.MarshalJSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Fail("%s of %q is %q (%v) after the text was overwritten and others were parsed, was %q", w.name, text, got, err, want)
	}
	keep := append([]byte{}, got...)
	for _, o := range keptTexts {
		if x, err := w.run([]byte(o), bytes.NewReader([]byte(o))); err == nil {
			_, _ = x.MarshalJSON()
		}
	}
	if !bytes.Equal(got, keep) {
		c.Fail("the text written for %q changes when others are written", text)
	}
}
