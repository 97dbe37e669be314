// Package ref is an independent reference implementation of the BSON format
// (bsonspec.org), written without looking at birch's codec.
package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Element type tags.
const (
	TDouble    = 0x01
	TString    = 0x02
	TDoc       = 0x03
	TArray     = 0x04
	TBinary    = 0x05
	TUndef     = 0x06
	TOID       = 0x07
	TBool      = 0x08
	TDate      = 0x09
	TNull      = 0x0A
	TRegex     = 0x0B
	TDBPtr     = 0x0C
	TJS        = 0x0D
	TSymbol    = 0x0E
	TCodeScope = 0x0F
	TInt32     = 0x10
	TTimestamp = 0x11
	TInt64     = 0x12
	TDec128    = 0x13
	TMinKey    = 0xFF
	TMaxKey    = 0x7F
)

// Val is a BSON value.
type Val struct {
	T    byte
	F    float64
	S    string // string, js, symbol, code, regex pattern, dbpointer namespace
	S2   string // regex options
	D    Doc    // document, array (keys ignored), scope
	Bin  []byte
	Sub  byte
	OID  [12]byte
	B    bool
	I    int64  // int32, int64, date
	U, V uint32 // timestamp T, I
	Hi   uint64
	Lo   uint64
}

// Elem is a key and a value.
type Elem struct {
	K string
	V Val
}

// Doc is an ordered list of elements.
type Doc []Elem

func le32(b *bytes.Buffer, v uint32) {
	var t [4]byte
	binary.LittleEndian.PutUint32(t[:], v)
	b.Write(t[:])
}
func le64(b *bytes.Buffer, v uint64) {
	var t [8]byte
	binary.LittleEndian.PutUint64(t[:], v)
	b.Write(t[:])
}
func str(b *bytes.Buffer, s string) {
	le32(b, uint32(len(s)+1))
	b.WriteString(s)
	b.WriteByte(0)
}

// Encode returns the document's BSON encoding.
func (d Doc) Encode() []byte { return encDoc(d, false) }

// EncodeArray encodes d as an array (keys "0", "1", ...).
func (d Doc) EncodeArray() []byte { return encDoc(d, true) }

func encDoc(d Doc, arr bool) []byte {
	var b bytes.Buffer
	le32(&b, 0)
	for i, e := range d {
		k := e.K
		if arr {
			k = strconv.Itoa(i)
		}
		b.WriteByte(e.V.T)
		b.WriteString(k)
		b.WriteByte(0)
		b.Write(e.V.EncodeValue())
	}
	b.WriteByte(0)
	out := b.Bytes()
	binary.LittleEndian.PutUint32(out, uint32(len(out)))
	return out
}

// EncodeElem encodes one element.
func (e Elem) EncodeElem() []byte {
	out := append([]byte{e.V.T}, e.K...)
	out = append(out, 0)
	return append(out, e.V.EncodeValue()...)
}

// EncodeValue encodes the value without type and key.
func (v Val) EncodeValue() []byte {
	var b bytes.Buffer
	switch v.T {
	case TDouble:
		le64(&b, math.Float64bits(v.F))
	case TString, TJS, TSymbol:
		str(&b, v.S)
	case TDoc:
		b.Write(encDoc(v.D, false))
	case TArray:
		b.Write(encDoc(v.D, true))
	case TBinary:
		if v.Sub == 2 {
			le32(&b, uint32(len(v.Bin)+4))
			b.WriteByte(2)
			le32(&b, uint32(len(v.Bin)))
		} else {
			le32(&b, uint32(len(v.Bin)))
			b.WriteByte(v.Sub)
		}
		b.Write(v.Bin)
	case TUndef, TNull, TMinKey, TMaxKey:
	case TOID:
		b.Write(v.OID[:])
	case TBool:
		if v.B {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
	case TDate, TInt64:
		le64(&b, uint64(v.I))
	case TRegex:
		b.WriteString(v.S)
		b.WriteByte(0)
		b.WriteString(v.S2)
		b.WriteByte(0)
	case TDBPtr:
		str(&b, v.S)
		b.Write(v.OID[:])
	case TCodeScope:
		sc := encDoc(v.D, false)
		le32(&b, uint32(4+4+len(v.S)+1+len(sc)))
		str(&b, v.S)
		b.Write(sc)
	case TInt32:
		le32(&b, uint32(int32(v.I)))
	case TTimestamp:
		le32(&b, v.V)
		le32(&b, v.U)
	case TDec128:
		le64(&b, v.Lo)
		le64(&b, v.Hi)
	default:
		panic(fmt.Sprintf("ref: type %x", v.T))
	}
	return b.Bytes()
}

var errBad = errors.New("malformed")

// Decode parses a document occupying the first declared-length bytes of b.
// It is strict about structure: every length must match exactly, every nested
// length must fill its container, terminators must be in place, booleans must
// be 0 or 1.  It does not require UTF-8 or array index keys.
func Decode(b []byte) (Doc, int, error) { return decode(b, false, 0) }

func decode(b []byte, arr bool, depth int) (Doc, int, error) {
	if len(b) < 5 {
		return nil, 0, errBad
	}
	n := int(int32(binary.LittleEndian.Uint32(b)))
	if n < 5 || n > len(b) {
		return nil, 0, errBad
	}
	b = b[:n]
	if b[n-1] != 0 {
		return nil, 0, errBad
	}
	body := b[4 : n-1]
	out := Doc{}
	for len(body) > 0 {
		t := body[0]
		if t == 0 {
			return nil, 0, errBad
		}
		body = body[1:]
		i := bytes.IndexByte(body, 0)
		if i < 0 {
			return nil, 0, errBad
		}
		key := string(body[:i])
		body = body[i+1:]
		v, used, err := decVal(t, body, depth)
		if err != nil {
			return nil, 0, err
		}
		body = body[used:]
		out = append(out, Elem{key, v})
	}
	return out, n, nil
}

func decStr(b []byte) (string, int, error) {
	if len(b) < 5 {
		return "", 0, errBad
	}
	l := int(int32(binary.LittleEndian.Uint32(b)))
	if l < 1 || l > len(b)-4 || b[4+l-1] != 0 {
		return "", 0, errBad
	}
	return string(b[4 : 4+l-1]), 4 + l, nil
}

func decVal(t byte, b []byte, depth int) (Val, int, error) {
	v := Val{T: t}
	need := func(n int) bool { return len(b) >= n }
	switch t {
	case TDouble:
		if !need(8) {
			return v, 0, errBad
		}
		v.F = math.Float64frombits(binary.LittleEndian.Uint64(b))
		return v, 8, nil
	case TString, TJS, TSymbol:
		s, n, err := decStr(b)
		v.S = s
		return v, n, err
	case TDoc, TArray:
		d, n, err := decode(b, t == TArray, depth+1)
		v.D = d
		return v, n, err
	case TBinary:
		if !need(5) {
			return v, 0, errBad
		}
		l := int(int32(binary.LittleEndian.Uint32(b)))
		if l < 0 || l > len(b)-5 {
			return v, 0, errBad
		}
		v.Sub = b[4]
		if v.Sub > 5 && v.Sub < 0x80 {
			// reserved subtypes: birch rejects them
			return v, 0, errBad
		}
		v.Bin = append([]byte{}, b[5:5+l]...)
		if v.Sub == 2 {
			if l < 4 || int(int32(binary.LittleEndian.Uint32(v.Bin))) != l-4 {
				return v, 0, errBad
			}
			v.Bin = v.Bin[4:]
		}
		return v, 5 + l, nil
	case TUndef, TNull, TMinKey, TMaxKey:
		return v, 0, nil
	case TOID:
		if !need(12) {
			return v, 0, errBad
		}
		copy(v.OID[:], b)
		return v, 12, nil
	case TBool:
		if !need(1) || b[0] > 1 {
			return v, 0, errBad
		}
		v.B = b[0] == 1
		return v, 1, nil
	case TDate, TInt64:
		if !need(8) {
			return v, 0, errBad
		}
		v.I = int64(binary.LittleEndian.Uint64(b))
		return v, 8, nil
	case TRegex:
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			return v, 0, errBad
		}
		j := bytes.IndexByte(b[i+1:], 0)
		if j < 0 {
			return v, 0, errBad
		}
		v.S, v.S2 = string(b[:i]), string(b[i+1:i+1+j])
		return v, i + 1 + j + 1, nil
	case TDBPtr:
		s, n, err := decStr(b)
		if err != nil || len(b) < n+12 {
			return v, 0, errBad
		}
		v.S = s
		copy(v.OID[:], b[n:])
		return v, n + 12, nil
	case TCodeScope:
		if !need(4 + 5 + 5) {
			return v, 0, errBad
		}
		l := int(int32(binary.LittleEndian.Uint32(b)))
		if l < 14 || l > len(b) {
			return v, 0, errBad
		}
		s, n, err := decStr(b[4:l])
		if err != nil {
			return v, 0, errBad
		}
		d, m, err := decode(b[4+n:l], false, depth+1)
		if err != nil || 4+n+m != l {
			return v, 0, errBad
		}
		v.S, v.D = s, d
		return v, l, nil
	case TInt32:
		if !need(4) {
			return v, 0, errBad
		}
		v.I = int64(int32(binary.LittleEndian.Uint32(b)))
		return v, 4, nil
	case TTimestamp:
		if !need(8) {
			return v, 0, errBad
		}
		v.V = binary.LittleEndian.Uint32(b)
		v.U = binary.LittleEndian.Uint32(b[4:])
		return v, 8, nil
	case TDec128:
		if !need(16) {
			return v, 0, errBad
		}
		v.Lo = binary.LittleEndian.Uint64(b)
		v.Hi = binary.LittleEndian.Uint64(b[8:])
		return v, 16, nil
	}
	return v, 0, errBad
}

// LengthFields returns the offsets of every int32 length/count field in the
// encoding of d (document, string, binary, code lengths), recursively.
func LengthFields(b []byte) []int {
	var out []int
	var doc func(off int)
	doc = func(off int) {
		out = append(out, off)
		n := int(int32(binary.LittleEndian.Uint32(b[off:])))
		p := off + 4
		for b[p] != 0 {
			t := b[p]
			p++
			for b[p] != 0 {
				p++
			}
			p++
			switch t {
			case TString, TJS, TSymbol:
				out = append(out, p)
			case TDoc, TArray:
				doc(p)
			case TBinary:
				out = append(out, p)
				if b[p+4] == 2 {
					out = append(out, p+5)
				}
			case TDBPtr:
				out = append(out, p)
			case TCodeScope:
				out = append(out, p, p+4)
				sl := int(int32(binary.LittleEndian.Uint32(b[p+4:])))
				doc(p + 8 + sl)
			}
			_, used, err := decVal(t, b[p:off+n-1], 0)
			if err != nil {
				panic(err)
			}
			p += used
		}
	}
	doc(0)
	return out
}

// String renders a document for traces.
func (d Doc) String() string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i, e := range d {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%q:%s", e.K, e.V)
	}
	sb.WriteByte('}')
	return sb.String()
}

func (v Val) String() string {
	switch v.T {
	case TDouble:
		return fmt.Sprintf("dbl(%v/%x)", v.F, math.Float64bits(v.F))
	case TString:
		return fmt.Sprintf("str(%q)", v.S)
	case TDoc:
		return v.D.String()
	case TArray:
		return "arr" + v.D.String()
	case TBinary:
		return fmt.Sprintf("bin(%x,%x)", v.Sub, v.Bin)
	case TOID:
		return fmt.Sprintf("oid(%x)", v.OID)
	case TBool:
		return fmt.Sprintf("%v", v.B)
	case TDate:
		return fmt.Sprintf("date(%d)", v.I)
	case TRegex:
		return fmt.Sprintf("re(%q,%q)", v.S, v.S2)
	case TDBPtr:
		return fmt.Sprintf("dbp(%q,%x)", v.S, v.OID)
	case TJS:
		return fmt.Sprintf("js(%q)", v.S)
	case TSymbol:
		return fmt.Sprintf("sym(%q)", v.S)
	case TCodeScope:
		return fmt.Sprintf("code(%q,%s)", v.S, v.D)
	case TInt32:
		return fmt.Sprintf("i32(%d)", v.I)
	case TTimestamp:
		return fmt.Sprintf("ts(%d,%d)", v.U, v.V)
	case TInt64:
		return fmt.Sprintf("i64(%d)", v.I)
	case TDec128:
		return fmt.Sprintf("dec(%x,%x)", v.Hi, v.Lo)
	}
	return fmt.Sprintf("t%02x", v.T)
}

// Equal compares documents by encoding.
func (d Doc) Equal(o Doc) bool { return bytes.Equal(d.Encode(), o.Encode()) }

// Equal compares values by type and encoding.
func (v Val) Equal(o Val) bool { return v.T == o.T && bytes.Equal(v.EncodeValue(), o.EncodeValue()) }
