package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ------------------------------------------------------------------ C17

var (
	reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reHex = regexp.MustCompile(`^(-?)0[xX]([0-9a-fA-F]+)(?:x(-?)([0-9a-fA-F]+))?$`)
)

// checkNumberText compares ParseNumber of any text with the stated reading.
func checkNumberText(c *Case, s string) {
	c.Note("ParseNumber(%s)", quoteShort(s))
	n := value.ParseNumber(s)
	c.Check(n != nil, "ParseNumber(%s) is nil", quoteShort(s))
	c.Check(n.Kind() == value.NUMBER, "ParseNumber(%s) has kind %v", quoteShort(s), n.Kind())
	got := project(n)
	nan := got.K == KDouble && got.Double() != got.Double()
	c.Check(n.IsNaN() == nan, "IsNaN of ParseNumber(%s) is %v for %v", quoteShort(s), n.IsNaN(), got)
	switch {
	case s == "" || s == "null":
		c.Check(got.K == KLong && got.I == 0, "ParseNumber(%s) is %v, expected zero", quoteShort(s), got)
		c.Count("zero-texts", 1)
		return
	case reInt.MatchString(s):
		z, _ := new(big.Int).SetString(s, 10)
		if z.IsInt64() {
			c.Check(got.K == KLong && got.I == z.Int64(), "ParseNumber(%s) is %v, expected exactly that long", quoteShort(s), got)
			c.Count("long-texts", 1)
			return
		}
	}
	if h := reHex.FindStringSubmatch(s); h != nil {
		z, _ := new(big.Int).SetString(h[2], 16)
		if h[1] == "-" {
			z.Neg(z)
		}
		exp := new(big.Int)
		if h[4] != "" {
			exp.SetString(h[4], 16)
			if h[3] == "-" {
				exp.Neg(exp)
			}
		}
		if exp.IsInt64() && exp.Int64() >= math.MinInt32 && exp.Int64() <= math.MaxInt32 {
			e := int32(exp.Int64())
			ok := false
			switch got.K {
			case KBig:
				ok = e == 0 && got.Big.Cmp(z) == 0
			case KDec:
				ok = got.Exp == e && got.Big.Cmp(z) == 0
				if !ok && abs64(int64(e)) < 1000 && abs64(int64(got.Exp)) < 1000 {
					ok = ratOf(got).Cmp(ratOf(mDec(z, e))) == 0
				}
			}
			c.Check(ok, "ParseNumber(%s) is %v, expected exactly %s x 10^%d", quoteShort(s), got, bigShort(z), e)
			c.Count("hex-texts", 1)
		} else {
			c.Check(nan, "ParseNumber(%s) is %v although no decimal has that exponent", quoteShort(s), got)
			c.Count("hex-out-of-range", 1)
		}
		return
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			c.Check(nan || got.K == KDouble && math.IsInf(got.Double(), 0) || got.K == KBig, "ParseNumber(%s) is %v", quoteShort(s), got)
			return
		}
		// hexadecimal forms without digits are neither here nor there
		t := strings.ToLower(strings.TrimPrefix(s, "-"))
		if strings.HasPrefix(t, "0x") && (t == "0x" || strings.HasSuffix(t, "x") || strings.HasSuffix(t, "x-") || strings.HasPrefix(t, "0xx")) {
			return
		}
		c.Check(nan, "ParseNumber(%s) is %v, but that text is no number", quoteShort(s), got)
		c.Count("not-numbers", 1)
		return
	}
	if f != f {
		c.Check(nan, "ParseNumber(%s) is %v", quoteShort(s), got)
		return
	}
	exotic := strings.ContainsAny(s, "pP_") // Go syntax, not promised
	c.Check(nan && exotic || n.Double() == f, "ParseNumber(%s) is %v, expected %v", quoteShort(s), got, f)
	c.Count("double-texts", 1)
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// numberForm: the text of a number parses back to the same number.
func numberForm(c *Case, m *MV) {
	v, p := mk(c, m, BuildOpt{})
	s := v.String()
	c.Note("text %s of %v", quoteShort(s), p)
	n := value.ParseNumber(s)
	g := project(n)
	ok := false
	switch p.K {
	case KLong:
		ok = g.K == KLong && g.I == p.I
	case KDouble:
		f := p.Double()
		if f != f {
			ok = g.K == KDouble && n.IsNaN()
		} else {
			ok = toDouble(g) == f
		}
	case KBig:
		ok = g.K == KBig && g.Big.Cmp(p.Big) == 0
	case KDec:
		if p.Exp == 0 {
			ok = (g.K == KBig || g.K == KDec && g.Exp == 0) && g.Big.Cmp(p.Big) == 0
		} else {
			ok = g.K == KDec && g.Exp == p.Exp && g.Big.Cmp(p.Big) == 0
			if !ok && abs64(int64(p.Exp)) < 1000 && isNum(g) && g.K != KDouble && (g.K != KDec || abs64(int64(g.Exp)) < 1000) {
				ok = ratOf(g).Cmp(ratOf(p)) == 0
			}
		}
	}
	c.Check(ok, "the text %s of %v parses back as %v", quoteShort(s), p, g)
	c.Count("number-forms", 1)
	c.Distinct(fnv64(s))
}

func base64Form(s string) bool {
	if !strings.HasPrefix(s, refBase64) {
		return false
	}
	_, err := base64.RawStdEncoding.DecodeString(s[len(refBase64):])
	return err == nil
}

func stringForm(c *Case, m *MV) {
	v, p := mk(c, m, BuildOpt{})
	s := v.String()
	c.Note("text %s of %v", quoteShort(s), p)
	if p.K == KStr {
		c.Check(s == p.S, "the text of %v is %s", p, quoteShort(s))
		if base64Form(p.S) {
			return
		}
	}
	c.same(project(value.ParseString(s)), p, "the text %s parsed back", quoteShort(s))
	c.Count("string-forms", 1)
	c.Distinct(fnv64(s))
}

func boolText(c *Case, s string) {
	b := value.ParseBoolean(s)
	want := false
	switch s {
	case "1", "t", "T", "TRUE", "true", "True":
		want = true
	}
	c.Check(b.Boolean() == want, "ParseBoolean(%s) is %v", quoteShort(s), b.Boolean())
	c.Count("bool-texts", 1)
}

func anyText(c *Case, s string) {
	checkNumberText(c, s)
	boolText(c, s)
	p := value.ParseString(s)
	c.Check(p != nil, "ParseString(%s) is nil", quoteShort(s))
	if base64Form(s) {
		raw, _ := base64.RawStdEncoding.DecodeString(s[len(refBase64):])
		c.same(project(p), mRaw(string(raw)), "ParseString(%s)", quoteShort(s))
		c.Count("raw-texts", 1)
	} else {
		c.same(project(p), mStr(s), "ParseString(%s)", quoteShort(s))
	}
	u := value.ParseNull(s)
	if s == "null" {
		c.Check(u.Kind() == value.NULL, "ParseNull(null) has kind %v", u.Kind())
	} else {
		c.same(project(u), mStr(s), "ParseNull(%s)", quoteShort(s))
	}
}

var textSeeds = []string{"", "null", "nan", "NaN", "NAN", "inf", "+Inf", "-Inf", "Infinity", "true", "TRUE", "t", "f", "0", "-0", "+0", "1", "+1", "-1", "--1", "00012", "9223372036854775807", "9223372036854775808",
	"-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e5", "1E5", "1e999", "-1e999", "1e-999", "1.5", "-1.5", ".5", "5.", ".", "-.", "1.2.3", "1_000", "0x", "-0x", "0x0", "-0x0", "0xff", "0XFF", "-0xff", "+0xff",
	"0xf", "0xg", "0x1x", "0x1x-", "0xx1", "0x1x2", "0x1x-2", "-0x1x-2", "0x1x02", "0x1xff", "0x1x-ff", "0x1x100", "0x1x7fffffff", "0x1x-7fffffff", "0x1x80000000", "0x1x-80000000", "0x1xffffffff", "0x1x-ffffffff", "0x1x-80000001",
	"0x1x0000000001", "0x1x00000000ff", "0x1x100000000", "0x1x123456789abcdef0", "0x1x-123456789abcdef0", "0x1x1x1", "0x1.8p1", "0x1p-2", "0x1p", "0b101", "0o17", " 1", "1 ", "\x00", "\xff", "１", "1,5", "12abc", "abc", "base64,", "base64,AAE", "base64,AAE=", "base64,A", "base64,!", "data:application/x-msgpack-ext;base64,BwE", "0xd", "0xDEADbeef", "0x1X2", "1x2", "-", "+", "e", "x", "0x-1", "0x+1", "0x1x+2",
	"123456789012345678901234567890", "-123456789012345678901234567890.5", "0.1", "1e-5", "4.9e-324", "1.7976931348623157e308", "1.7976931348623159e308", "0x10000000000000000", "-0x8000000000000000"}

func genText(r *RNG) string {
	s := textSeeds[r.Intn(len(textSeeds))]
	const alphabet = "0123456789abcdefABCDEFxX-+.eEpP_ ,base64nulNIif\x00\xff"
	switch r.Intn(6) {
	case 0:
		b := make([]byte, r.Intn(14))
		for i := range b {
			b[i] = alphabet[r.Intn(len(alphabet))]
		}
		return string(b)
	case 1:
		s = fmt.Sprintf("%s0x%xx%s%x", []string{"", "-"}[r.Intn(2)], r.U64()>>uint(r.Intn(64)), []string{"", "-"}[r.Intn(2)], r.U64()>>uint(r.Intn(64)))
	case 2:
		s = strconv.FormatInt(genLong(r), 10)
	case 3:
		s = strconv.FormatFloat(genDouble(r, false), "efgG"[r.Intn(4)], -1, 64)
	case 4:
		return genStr(r, 60)
	}
	b := []byte(s)
	for k := r.Intn(3); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 1:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{alphabet[r.Intn(len(alphabet))]}, b[i:]...)...)
		default:
			if len(b) > 0 {
				b[r.Intn(len(b))] = alphabet[r.Intn(len(alphabet))]
			}
		}
	}
	return string(b)
}

func init() {
	register(&Prop{
		ID:    "C17",
		Rule:  "One case is a number, string or boolean whose text form is parsed back, or an arbitrary text (listed, mutated or random) given to every parse function and compared with an independent reading. Distinct by text.",
		Needs: []string{"number-forms", "string-forms", "bool-texts", "zero-texts", "long-texts", "hex-texts", "hex-out-of-range", "double-texts", "not-numbers", "raw-texts"},
		Sections: []Section{
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				m := sysScalars[c.Index]
				switch m.K {
				case KLong, KDouble, KBig, KDec:
					numberForm(c, m)
				case KStr, KRaw:
					stringForm(c, m)
				case KBool:
					c.Check(value.ParseBoolean(value.Boolean(m.B).String()).Boolean() == m.B, "the text of %v does not parse back", m.B)
				case KNull:
					c.Check(value.ParseNull(value.Null.String()).Kind() == value.NULL, "the text of null does not parse back")
				}
			}},
			{Name: "texts", N: n(len(textSeeds), len(textSeeds)), Run: func(c *Case) {
				anyText(c, textSeeds[c.Index])
				c.Distinct(fnv64(textSeeds[c.Index]))
			}},
			{Name: "exponents", N: n(700, 6000), Run: func(c *Case) {
				// every exponent near a byte boundary, then random ones
				var e int32
				if c.Index < 64*5 {
					k := uint(c.Index / 10)
					e = int32(int64(1)<<k + int64(c.Index%5) - 2)
					if c.Index%10 >= 5 {
						e = -e
					}
				} else if c.Index < 400 {
					e = []int32{math.MinInt32, math.MinInt32 + 1, math.MaxInt32, math.MaxInt32 - 1}[c.Index%4]
				} else {
					e = int32(c.U64() >> (32 + uint(c.Intn(32))))
					if c.Bool() {
						e = -e
					}
				}
				for _, m := range []int64{0, 1, -1, 255, -256, 1 << 40} {
					numberForm(c, mDec(big.NewInt(m), e))
				}
			}},
			{Name: "numbers", N: n(50000, 800000), Run: func(c *Case) {
				switch c.Intn(4) {
				case 0:
					numberForm(c, mLong(genLong(c.RNG)))
				case 1:
					numberForm(c, mDouble(genDouble(c.RNG, false)))
				case 2:
					numberForm(c, mBig(genBig(c.RNG, false)))
				default:
					numberForm(c, mDec(genBig(c.RNG, false), genExp(c.RNG)))
				}
			}},
			{Name: "strings", N: n(20000, 300000), Run: func(c *Case) {
				if c.Bool() {
					stringForm(c, mStr(genStr(c.RNG, 0)))
				} else {
					stringForm(c, mRaw(string(c.Bytes(genLen(c.RNG, 300)))))
				}
			}},
			{Name: "any-text", N: n(80000, 1500000), Run: func(c *Case) {
				s := genText(c.RNG)
				anyText(c, s)
				c.Distinct(fnv64(s))
				c.Sample("%q", s)
			}},
		},
	})
}

// ------------------------------------------------------------------ C18

// Conversions as stated; ok is false where the target type cannot hold the
// value and nothing is promised.
func asLong(m *MV) (int64, bool) {
	switch m.K {
	case KLong:
		return m.I, true
	case KDouble:
		f := m.Double()
		if f != f || math.IsInf(f, 0) {
			return 0, true
		}
		t := math.Trunc(f)
		if t >= -9223372036854775808.0 && t < 9223372036854775808.0 {
			return int64(t), true
		}
		return 0, false
	}
	if m.K == KDec {
		if f := decFar(m); f != 0 || m.Big.Sign() == 0 {
			return 0, f <= 0
		}
	}
	q := ratOf(m)
	z := new(big.Int).Quo(q.Num(), q.Denom()) // truncates toward zero
	return z.Int64(), z.IsInt64()
}

func asBig(m *MV) *big.Int {
	switch m.K {
	case KDouble:
		f := m.Double()
		if f != f || math.IsInf(f, 0) {
			return new(big.Int)
		}
		z, _ := new(big.Float).SetFloat64(f).Int(nil)
		return z
	case KDec:
		if m.Big.Sign() == 0 {
			return new(big.Int)
		}
		if decFar(m) < 0 {
			return big.NewInt(int64(m.Big.Sign()-1) / 2)
		}
		q := ratOf(m)
		return new(big.Int).Div(q.Num(), q.Denom()) // Euclidean: floor for a positive denominator
	}
	return ratOf(m).Num()
}

// asDec gives the exact rational of the decimal.
func asDec(m *MV) *big.Rat {
	if m.K == KDouble {
		f := m.Double()
		if f != f || math.IsInf(f, 0) {
			return new(big.Rat)
		}
		q, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'e', -1, 64))
		return q
	}
	return ratOf(m)
}

func decRat(d decimal.Decimal) *big.Rat {
	return ratOf(mDec(d.Coefficient(), d.Exponent()))
}

func checkConversions(c *Case, n value.Number, m *MV) {
	c.Note("conversions of %v", m)
	if l, ok := asLong(m); ok {
		c.Check(n.Long() == l, "Long() of %v is %d, expected %d", m, n.Long(), l)
	} else {
		_ = n.Long() // no promise but that it returns
		c.Count("out-of-range", 1)
	}
	d := n.Double()
	w := toDouble(m)
	c.Check(math.Float64bits(d) == math.Float64bits(w) || d != d && w != w || d == 0 && w == 0 && m.K != KDouble, "Double() of %v is %v, expected %v", m, d, w)
	if decFar(m) > 0 {
		// the exact integer has millions of digits
		c.Check(n.Decimal().Exponent() == m.Exp && n.Decimal().Coefficient().Cmp(m.Big) == 0, "Decimal() of %v is %d x 10^%d", m, n.Decimal().Coefficient(), n.Decimal().Exponent())
		c.Check(!n.IsNaN(), "%v is no number", m)
		return
	}
	b := asBig(m)
	c.Check(n.BigInt() != nil && n.BigInt().Cmp(b) == 0, "BigInt() of %v is %v, expected %s", m, n.BigInt(), bigShort(b))
	if m.K != KDec {
		q := decRat(n.Decimal())
		c.Check(q.Cmp(asDec(m)) == 0, "Decimal() of %v is %v", m, n.Decimal())
	} else {
		c.Check(n.Decimal().Exponent() == m.Exp && n.Decimal().Coefficient().Cmp(m.Big) == 0, "Decimal() of %v is %d x 10^%d", m, n.Decimal().Coefficient(), n.Decimal().Exponent())
	}
	nan := m.K == KDouble && m.Double() != m.Double()
	c.Check(n.IsNaN() == nan, "IsNaN() of %v is %v", m, n.IsNaN())
	c.Count("conversions", 1)
}

func checkArith(c *Case, a, b value.Number, ma, mb *MV) {
	for _, sub := range []bool{false, true} {
		op, sign := "+", 1
		f := a.Add
		if sub {
			op, sign = "-", -1
			f = a.Subtract
		}
		c.Note("%v %s %v", ma, op, mb)
		r := f(b)
		c.Check(r != nil && r.Type() == a.Type(), "%v %s %v has type %v", ma, op, mb, typeOf(r))
		g := project(r)
		switch ma.K {
		case KLong:
			y, ok := asLong(mb)
			if !ok {
				continue
			}
			want := ma.I + int64(sign)*y
			c.Check(g.I == want, "%v %s %v is %v, expected %d", ma, op, mb, g, want)
		case KDouble:
			x, y := ma.Double(), toDouble(mb)
			want := x + y
			if sub {
				want = x - y
			}
			z := g.Double()
			c.Check(want != want && z != z || math.Float64bits(z) == math.Float64bits(want) || z == want && y == 0, "%v %s %v is %v, expected %v", ma, op, mb, g, want)
			if x != x || y != y {
				c.Check(r.IsNaN(), "%v %s %v is %v, expected NaN", ma, op, mb, g)
				c.Count("nan", 1)
			}
		case KBig:
			want := new(big.Int).Mul(asBig(mb), big.NewInt(int64(sign)))
			want.Add(want, ma.Big)
			c.Check(g.Big.Cmp(want) == 0, "%v %s %v is %v, expected %s", ma, op, mb, g, bigShort(want))
		case KDec:
			want := new(big.Rat).Mul(asDec(mb), new(big.Rat).SetInt64(int64(sign)))
			want.Add(want, ratOf(ma))
			c.Check(ratOf(g).Cmp(want) == 0, "%v %s %v is %v", ma, op, mb, g)
		}
		c.same(project(a), ma, "the receiver of %v %s %v", ma, op, mb)
		c.same(project(b), mb, "the argument of %v %s %v", ma, op, mb)
		c.Count("arith:"+a.Type().String()+op+b.Type().String(), 1)
	}
}

func typeOf(n value.Number) string {
	if n == nil {
		return "nil"
	}
	return n.Type().String()
}

func genNum(c *Case) *MV {
	switch c.Intn(4) {
	case 0:
		return mLong(genLong(c.RNG))
	case 1:
		return mDouble(genDouble(c.RNG, false))
	case 2:
		return mBig(genBig(c.RNG, false))
	}
	return mDec(genBig(c.RNG, false), genExp(c.RNG))
}

// sysNums: numbers around every boundary of the conversions.
var sysNums = func() []*MV {
	var out []*MV
	for _, m := range sysScalars {
		if isNum(m) && (m.K != KDec || abs64(int64(m.Exp)) <= 300) {
			out = append(out, m)
		}
	}
	for _, s := range []string{"1", "-1", "5", "-5", "15", "-15", "25", "999", "-999", "1000", "-1000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "92233720368547758075", "92233720368547758079", "-92233720368547758089"} {
		z, _ := new(big.Int).SetString(s, 10)
		for _, e := range []int32{0, 1, -1, 2, -2, -3, 3, -19, 19, -20, 18, -40} {
			out = append(out, mDec(z, e))
		}
	}
	for _, f := range []float64{0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.999999999, -0.999999999, 9223372036854774784, -9223372036854775808, 9223372036854775808, 1e18, -1e18, 1e19, 4503599627370495.5, -4503599627370495.5, 1e-320, 0.1, 0.3, 1.0 / 3} {
		out = append(out, mDouble(f))
	}
	return out
}()

var arithCore = func() []*MV {
	var out []*MV
	for _, i := range []int64{0, 1, -1, 7, math.MaxInt64, math.MinInt64, math.MaxInt32, 1 << 53} {
		out = append(out, mLong(i), mDouble(float64(i)), mBig(big.NewInt(i)), mDec(big.NewInt(i), 0), mDec(big.NewInt(i), 3), mDec(big.NewInt(i), -3))
	}
	for _, f := range doubleSpecials {
		out = append(out, mDouble(f))
	}
	z := new(big.Int).Lsh(big.NewInt(1), 200)
	return append(out, mBig(z), mBig(new(big.Int).Neg(z)), mDec(z, -50), mDec(z, 50))
}()

func init() {
	needs := []string{"conversions", "nan", "out-of-range", "huge-exponents"}
	for _, a := range []string{"long", "double", "bigint", "decimal"} {
		for _, b := range []string{"long", "double", "bigint", "decimal"} {
			needs = append(needs, "arith:"+a+"+"+b, "arith:"+a+"-"+b)
		}
	}
	register(&Prop{
		ID:    "C18",
		Rule:  "One case is a pair of numbers (every pair of types, boundary and random contents) added, subtracted and converted, against exact rational arithmetic and IEEE doubles. Distinct by the pair of contents.",
		Needs: needs,
		Sections: []Section{
			{Name: "conversions", N: n(len(sysNums), len(sysNums)), Run: func(c *Case) {
				v, p := mk(c, sysNums[c.Index], BuildOpt{})
				checkConversions(c, v.(value.Number), p)
				c.Distinct(fnv64(p.String()))
			}},
			{Name: "core-pairs", N: n(len(arithCore), len(arithCore)), Run: func(c *Case) {
				v, p := mk(c, arithCore[c.Index], BuildOpt{})
				for _, o := range arithCore {
					w, q := mk(c, o, BuildOpt{})
					checkArith(c, v.(value.Number), w.(value.Number), p, q)
					c.Distinct(fnv64(p.String() + "|" + q.String()))
				}
			}},
			{Name: "random", N: n(60000, 1000000), Run: func(c *Case) {
				v, p := mk(c, genNum(c), BuildOpt{})
				w, q := mk(c, genNum(c), BuildOpt{})
				if c.P(1, 10) {
					q = sameNumber(c.RNG, p)
					w, q = mk(c, q, BuildOpt{})
				}
				a, b := v.(value.Number), w.(value.Number)
				checkConversions(c, a, p)
				checkArith(c, a, b, p, q)
				if c.P(1, 8) { // of a number that is itself a result, and with itself
					r := a.Add(b)
					rp := project(r)
					checkConversions(c, r, rp)
					checkArith(c, r, r, rp, rp)
				}
				c.Distinct(fnv64(p.String() + "|" + q.String()))
				c.Sample("%v and %v", p, q)
			}},
			{Name: "huge-exponents", N: n(4000, 60000), Run: func(c *Case) {
				m := mDec(genBig(c.RNG, false), genHugeExp(c.RNG))
				if c.P(1, 5) {
					m = mDec(big.NewInt(int64(c.Intn(3)-1)), genHugeExp(c.RNG))
				}
				v, p := mk(c, m, BuildOpt{})
				checkConversions(c, v.(value.Number), p)
				c.Count("huge-exponents", 1)
				c.Distinct(fnv64(p.String()))
			}},
			{Name: "decoded", N: n(5000, 60000), Run: func(c *Case) {
				v, p := mk(c, genNum(c), BuildOpt{})
				u, err := value.Unpack(mustPack(c, v), c.Bool())
				if err != nil || u.Kind() != value.NUMBER {
					return
				}
				if mdiff(project(u), p) != "" {
					return // another property's matter
				}
				w, q := mk(c, genNum(c), BuildOpt{})
				checkConversions(c, u.(value.Number), p)
				checkArith(c, u.(value.Number), w.(value.Number), p, q)
				checkArith(c, w.(value.Number), u.(value.Number), q, p)
				c.Distinct(fnv64(p.String() + "|" + q.String()))
			}},
			{Name: "constructors", N: n(1, 1), Run: func(c *Case) {
				c.Check(value.BigInt(nil).BigInt().Sign() == 0, "BigInt(nil) is not zero")
				c.Check(value.Zero.Long() == 0 && value.One.Long() == 1 && value.Nan.IsNaN(), "the ready-made numbers are wrong")
				checkConversions(c, value.BigInt(nil), mBig(new(big.Int)))
				checkConversions(c, value.Decimal(decimal.Decimal{}), mDec(new(big.Int), 0))
				checkArith(c, value.Decimal(decimal.Decimal{}), value.BigInt(nil), mDec(new(big.Int), 0), mBig(new(big.Int)))
			}},
		},
	})
}
