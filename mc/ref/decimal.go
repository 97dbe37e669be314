package ref

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Dec is a decoded decimal128.
type Dec struct {
	Neg  bool
	Kind byte // 'f' finite, 'i' infinity, 'n' NaN
	Coef *big.Int
	Exp  int
}

// MaxCoef is the largest coefficient of a decimal128.
var MaxCoef = new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), big.NewInt(34), nil), big.NewInt(1))

// DecodeDec reads the bit pattern (IEEE 754-2008 BID encoding).  canonical is
// false for patterns the standard reads as zero.
func DecodeDec(h, l uint64) (d Dec, canonical bool) {
	d.Neg = h>>63 == 1
	comb := h >> 58 & 31
	switch {
	case comb == 31:
		d.Kind = 'n'
		return d, !d.Neg && h == 31<<58 && l == 0
	case comb == 30:
		d.Kind = 'i'
		return d, h&(1<<58-1) == 0 && l == 0
	}
	d.Kind = 'f'
	if h>>61&3 == 3 {
		d.Exp = int(h>>47&(1<<14-1)) - 6176
		d.Coef = new(big.Int)
		return d, false
	}
	d.Exp = int(h>>49&(1<<14-1)) - 6176
	d.Coef = new(big.Int).SetUint64(h & (1<<49 - 1))
	d.Coef.Lsh(d.Coef, 64)
	d.Coef.Or(d.Coef, new(big.Int).SetUint64(l))
	if d.Coef.Cmp(MaxCoef) > 0 {
		d.Coef = new(big.Int)
		return d, false
	}
	return d, d.Exp <= 6111
}

// Bits encodes a finite canonical decimal.
func (d Dec) Bits() (h, l uint64) {
	lo := new(big.Int).And(d.Coef, new(big.Int).SetUint64(^uint64(0)))
	hi := new(big.Int).Rsh(d.Coef, 64)
	h = hi.Uint64() | uint64(d.Exp+6176)<<49
	if d.Neg {
		h |= 1 << 63
	}
	return h, lo.Uint64()
}

// String is the to-scientific-string conversion of the General Decimal
// Arithmetic specification, which the BSON decimal128 specification requires.
func (d Dec) String() string {
	sign := ""
	if d.Neg {
		sign = "-"
	}
	switch d.Kind {
	case 'n':
		return "NaN"
	case 'i':
		return sign + "Infinity"
	}
	ds := d.Coef.String()
	adj := d.Exp + len(ds) - 1
	if d.Exp <= 0 && adj >= -6 {
		if d.Exp == 0 {
			return sign + ds
		}
		point := len(ds) + d.Exp
		if point <= 0 {
			return sign + "0." + strings.Repeat("0", -point) + ds
		}
		return sign + ds[:point] + "." + ds[point:]
	}
	m := ds[:1]
	if len(ds) > 1 {
		m += "." + ds[1:]
	}
	if adj >= 0 {
		return fmt.Sprintf("%s%sE+%d", sign, m, adj)
	}
	return fmt.Sprintf("%s%sE%d", sign, m, adj)
}

// Norm strips trailing zeros of the coefficient.
func (d Dec) Norm() string {
	if d.Kind != 'f' {
		return d.String()
	}
	if d.Coef.Sign() == 0 {
		return fmt.Sprintf("%v0", d.Neg)
	}
	s := d.Coef.String()
	t := strings.TrimRight(s, "0")
	return fmt.Sprintf("%v%se%d", d.Neg, t, d.Exp+len(s)-len(t))
}

// ParseDec reads decimal text.  ok is false when it is not a number; strict is
// true when the text has no degenerate part (no bare or trailing point).
func ParseDec(s string) (d Dec, ok, strict bool) {
	strict = true
	if strings.HasPrefix(s, "-") || strings.HasPrefix(s, "+") {
		d.Neg = s[0] == '-'
		s = s[1:]
	}
	switch strings.ToLower(s) {
	case "nan":
		return Dec{Kind: 'n'}, true, true
	case "inf", "infinity":
		d.Kind = 'i'
		return d, true, true
	}
	d.Kind = 'f'
	mant, exp := s, ""
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant, exp = s[:i], s[i+1:]
		neg := false
		if strings.HasPrefix(exp, "-") || strings.HasPrefix(exp, "+") {
			neg = exp[0] == '-'
			exp = exp[1:]
		}
		if exp == "" || strings.Trim(exp, "0123456789") != "" {
			return d, false, false
		}
		n, err := strconv.Atoi(exp)
		if err != nil || n > 1<<28 {
			n = 1 << 28
		}
		if neg {
			n = -n
		}
		d.Exp = n
	}
	ip, fp, dot := strings.Cut(mant, ".")
	if ip == "" && fp == "" {
		return d, false, false
	}
	if dot && (ip == "" || fp == "") {
		strict = false
	}
	if strings.Trim(ip+fp, "0123456789") != "" {
		return d, false, false
	}
	d.Exp -= len(fp)
	d.Coef, _ = new(big.Int).SetString(ip+fp, 10)
	return d, true, strict
}

// Representable reports whether a finite d has an exact decimal128, and
// whether it is one without rescaling.
func (d Dec) Representable() (exact, direct bool) {
	if d.Kind != 'f' {
		return true, true
	}
	if d.Coef.Cmp(MaxCoef) <= 0 && d.Exp >= -6176 && d.Exp <= 6111 {
		return true, true
	}
	if d.Coef.Sign() == 0 {
		return true, false // folds to the nearest exponent
	}
	c, e := new(big.Int).Set(d.Coef), d.Exp
	ten := big.NewInt(10)
	for {
		q, r := new(big.Int).QuoRem(c, ten, new(big.Int))
		if r.Sign() != 0 {
			break
		}
		c, e = q, e+1
	}
	if c.Cmp(MaxCoef) > 0 || e < -6176 {
		return false, false
	}
	if e > 6111+40 {
		return false, false
	}
	for e > 6111 {
		c.Mul(c, ten)
		e--
	}
	return c.Cmp(MaxCoef) <= 0, false
}
