package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ------------------------------------------------------------------ C15

// checkEqual compares Equal in every direction and spelling with the oracle.
func checkEqual(c *Case, v1 value.Value, m1 *MV, v2 value.Value, m2 *MV) {
	unsure := false
	want := mEqual(m1, m2, &unsure)
	if unsure {
		c.Count("undecided", 1)
		return
	}
	c.Note("%v\nand\n%v", m1, m2)
	got := value.Equal(v1, v2)
	c.Check(got == want, "Equal(a, b) is %v, expected %v\n  a = %v\n  b = %v", got, want, m1, m2)
	got = value.Equal(v2, v1)
	c.Check(got == want, "Equal(b, a) is %v, expected %v\n  a = %v\n  b = %v", got, want, m1, m2)
	if v1 != nil {
		got = v1.Equal(v2)
		c.Check(got == want, "a.Equal(b) is %v, expected %v\n  a = %v\n  b = %v", got, want, m1, m2)
	}
	if v2 != nil {
		got = v2.Equal(v1)
		c.Check(got == want, "b.Equal(a) is %v, expected %v\n  a = %v\n  b = %v", got, want, m1, m2)
	}
	if want {
		c.Count("equal", 1)
	} else {
		c.Count("different", 1)
	}
	if v1 == nil || v2 == nil {
		c.Count("nil", 1)
	}
}

func cloneMV(m *MV) *MV {
	x := *m
	x.L, x.E, x.P = nil, nil, nil
	for _, e := range m.L {
		x.L = append(x.L, cloneMV(e))
	}
	for _, e := range m.E {
		x.E = append(x.E, MEnt{e.K, cloneMV(e.V)})
	}
	for _, e := range m.P {
		x.P = append(x.P, MItem{e.K, cloneMV(e.V)})
	}
	return &x
}

// sameNumber writes the number of m as another number type (exactly, or as the
// nearest double).
func sameNumber(r *RNG, m *MV) *MV {
	if m.K == KDouble {
		f := m.Double()
		if f != f || math.IsInf(f, 0) || math.Abs(f) > 1e30 || math.Abs(f) < 1e-30 && f != 0 {
			return m
		}
		switch r.Intn(3) {
		case 0:
			if f == math.Trunc(f) && math.Abs(f) < 1<<62 {
				return mLong(int64(f))
			}
		case 1:
			z, _ := new(big.Float).SetFloat64(f).Int(nil)
			return mBig(z)
		}
		d := decimal.NewFromFloat(f)
		return mDec(d.Coefficient(), d.Exponent())
	}
	q := ratOf(m)
	switch r.Intn(5) {
	case 0:
		if q.IsInt() && q.Num().IsInt64() {
			return mLong(q.Num().Int64())
		}
	case 1:
		if q.IsInt() && q.Num().BitLen() < 4000 {
			return mBig(q.Num())
		}
	case 2:
		f, _ := q.Float64()
		return mDouble(f)
	case 3:
		// the same decimal with another exponent
		if m.K == KDec {
			k := r.Intn(5)
			z := new(big.Int).Mul(m.Big, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil))
			return mDec(z, m.Exp-int32(k))
		}
		if q.IsInt() && q.Num().BitLen() < 4000 {
			k := r.Intn(4)
			z := new(big.Int).Mul(q.Num(), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil))
			return mDec(z, -int32(k))
		}
	}
	return m
}

// nearMiss alters one place of m (or none of consequence).
func nearMiss(c *Case, m *MV) *MV {
	x := cloneMV(m)
	r := c.RNG
	t := x
	for {
		var kids []*MV
		kids = append(kids, t.L...)
		for _, e := range t.E {
			kids = append(kids, e.V)
		}
		for _, e := range t.P {
			kids = append(kids, e.V)
		}
		if len(kids) == 0 || r.P(1, 3) {
			break
		}
		t = kids[r.Intn(len(kids))]
	}
	switch t.K {
	case KNil:
		*t = *[]*MV{mNull, mBool(false), mLong(0), mStr("")}[r.Intn(4)]
	case KNull:
		*t = *[]*MV{mNil, mBool(false), mLong(0), mStr("null"), mList()}[r.Intn(5)]
	case KBool:
		*t = *[]*MV{mBool(!t.B), mLong(1), mStr("true")}[r.Intn(3)]
	case KLong, KDouble, KBig, KDec:
		if r.P(2, 3) {
			*t = *sameNumber(r, t)
		}
		if r.Bool() {
			switch t.K {
			case KLong:
				if r.P(1, 3) {
					t.I ^= 1 << uint(r.Intn(64))
				} else {
					t.I += int64(r.Intn(3) - 1)
				}
			case KBig:
				t.Big = new(big.Int).Add(t.Big, big.NewInt(int64(r.Intn(3)-1)))
			case KDec:
				t.Big = new(big.Int).Add(t.Big, big.NewInt(int64(r.Intn(3)-1)))
			case KDouble:
				f := t.Double()
				f += []float64{0, 1e-6, -9e-6, 1.1e-5, 2e-5, -1, math.Abs(f) * 1e-15}[r.Intn(7)]
				*t = *mDouble(f)
			}
		}
	case KStr, KRaw, KExt:
		switch r.Intn(4) {
		case 0: // the other type of string with the same bytes
			if t.K == KStr {
				t.K = KRaw
			} else if t.K == KRaw {
				t.K = KStr
			}
		case 1: // its text form
			if t.K == KRaw {
				*t = *mStr(value.Raw([]byte(t.S), true).String())
			}
		case 2:
			b := []byte(t.S)
			if t.K == KExt && len(b) < 2 {
				break
			}
			if len(b) > 0 {
				k := len(b) - 1
				if t.K == KExt {
					k = 1 + r.Intn(len(b)-1)
				} else {
					k = r.Intn(len(b))
				}
				b[k] ^= byte(1 << r.Intn(8))
				t.S = string(b)
			}
		default:
			if r.Bool() {
				t.S += "\x00"
			} else if len(t.S) > 1 {
				t.S = t.S[:len(t.S)-1]
			}
		}
	case KList:
		switch r.Intn(6) {
		case 0:
			t.L = append(t.L, []*MV{mNull, mNil, mLong(1)}[r.Intn(3)])
		case 1:
			if len(t.L) > 0 {
				t.L = t.L[:len(t.L)-1]
			}
		case 2:
			if len(t.L) > 1 {
				i := r.Intn(len(t.L) - 1)
				t.L[i], t.L[i+1] = t.L[i+1], t.L[i]
			}
		case 3, 4: // the same items as a sparse list, possibly without one
			s := &MV{K: KSparse}
			for i, e := range t.L {
				if e.K == KNil && r.P(1, 3) || r.P(1, 30) {
					continue
				}
				s.P = append(s.P, MItem{i, e})
			}
			*t = *s
		case 5:
			mm := &MV{K: KMap}
			for i, e := range t.L {
				mm.E = append(mm.E, MEnt{fmt.Sprint(i), e})
			}
			sortEnts(mm.E)
			*t = *mm
		}
	case KSparse:
		switch r.Intn(5) {
		case 0:
			if len(t.P) > 0 {
				t.P = t.P[:len(t.P)-1]
			}
		case 1:
			if len(t.P) > 0 {
				i := r.Intn(len(t.P))
				if r.Bool() {
					t.P[i].K += 1 - 2*r.Intn(2)
				} else { // one bit of the key
					t.P[i].K ^= 1 << []uint{1, 7, 8, 15, 16, 31, 32, 33, 52, 53, 62, 63}[r.Intn(12)]
				}
				sortItems(t.P)
			}
		case 2: // an item removed from the middle: the length stays
			if len(t.P) > 1 {
				i := r.Intn(len(t.P) - 1)
				t.P = append(t.P[:i:i], t.P[i+1:]...)
			}
		case 3: // a duplicate of an item
			if len(t.P) > 0 {
				i := r.Intn(len(t.P))
				t.P = append(t.P[:i+1:i+1], t.P[i:]...)
			}
		default: // dense again
			l := &MV{K: KList}
			for i, it := range t.P {
				if it.K != i {
					return x
				}
				l.L = append(l.L, it.V)
			}
			*t = *l
		}
	case KMap:
		switch r.Intn(4) {
		case 0:
			if len(t.E) > 0 {
				i := r.Intn(len(t.E))
				t.E = append(t.E[:i:i], t.E[i+1:]...)
			}
		case 1:
			if len(t.E) > 0 {
				i := r.Intn(len(t.E))
				t.E[i].K += string([]string{"a", "\x00", "é"}[r.Intn(3)])
				sortEnts(t.E)
			}
		case 2:
			if len(t.E) > 0 {
				i := r.Intn(len(t.E))
				t.E = append(t.E[:i+1:i+1], t.E[i:]...)
			}
		default:
			if len(t.E) > 1 { // two values exchanged
				i := r.Intn(len(t.E) - 1)
				t.E[i].V, t.E[i+1].V = t.E[i+1].V, t.E[i].V
			}
		}
	}
	return x
}

func mkMaybeNil(c *Case, m *MV) (value.Value, *MV) {
	if m.K == KNil {
		return nil, m
	}
	return mk(c, m, BuildOpt{})
}

var eqMatrix = func() []*MV {
	out := []*MV{mNil, mNull, mBool(true), mBool(false)}
	for _, i := range []int64{0, 1, -1, 2, 42, 123, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, 1 << 53, 1<<53 + 1, 1<<53 + 2} {
		out = append(out, mLong(i), mDouble(float64(i)), mBig(big.NewInt(i)), mDec(big.NewInt(i), 0), mDec(new(big.Int).Mul(big.NewInt(i), big.NewInt(10)), -1))
	}
	for _, f := range []float64{math.Inf(1), math.Inf(-1), math.NaN(), 0.5, 1.000001, 0.999999, 1.00002, 42.000005, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1)} {
		out = append(out, mDouble(f))
	}
	huge := new(big.Int).Lsh(big.NewInt(1), 1100)
	out = append(out, mBig(huge), mBig(new(big.Int).Neg(huge)), mBig(new(big.Int).Add(huge, big.NewInt(1))), mBig(new(big.Int).Lsh(big.NewInt(1), 64)), mBig(new(big.Int).Lsh(big.NewInt(1), 63)),
		mDec(big.NewInt(5), -1), mDec(big.NewInt(50), -2), mDec(big.NewInt(1), 3), mBig(big.NewInt(1000)), mLong(1000), mDec(big.NewInt(1), 300), mDec(big.NewInt(1), -300), mDec(big.NewInt(0), 5), mDec(big.NewInt(0), -5))
	for _, e := range []int32{math.MaxInt32, math.MinInt32} {
		out = append(out, mDec(big.NewInt(5), e), mDec(big.NewInt(-5), e), mDec(big.NewInt(0), e), mDec(big.NewInt(7), e))
	}
	out = append(out, mDec(big.NewInt(50), math.MaxInt32-1), mDec(big.NewInt(51), math.MaxInt32-1), mDec(big.NewInt(500), math.MinInt32), mDec(big.NewInt(5), math.MinInt32+2))
	for _, s := range []string{"", "null", "true", "0", "1", "42", "a", "ab", "\x00", "\xff", "base64,YQ", "base64,", "base64,/w"} {
		out = append(out, mStr(s), mRaw(s))
	}
	out = append(out, mExt(7, "a"), mExt(7, "ab"), mExt(8, "a"), mExt(7, ""), mExt(0, ""))
	el := []*MV{mNull, mNil, mLong(1), mBool(false)}
	out = append(out, mList(), &MV{K: KSparse}, &MV{K: KMap})
	for _, e := range el {
		out = append(out, mList(e), mList(e, mLong(2)), &MV{K: KSparse, P: []MItem{{0, e}}}, &MV{K: KSparse, P: []MItem{{1, e}}}, &MV{K: KSparse, P: []MItem{{-1, e}}},
			&MV{K: KSparse, P: []MItem{{0, e}, {1, mLong(2)}}}, &MV{K: KSparse, P: []MItem{{0, e}, {0, mLong(2)}}}, &MV{K: KSparse, P: []MItem{{-3, mLong(7)}, {1, e}}},
			&MV{K: KMap, E: []MEnt{{"0", e}}}, &MV{K: KMap, E: []MEnt{{"a", e}}}, &MV{K: KMap, E: []MEnt{{"a", e}, {"a", mLong(2)}}}, &MV{K: KMap, E: []MEnt{{"a", mLong(2)}, {"a", e}}},
			mList(mList(e)), mList(&MV{K: KSparse, P: []MItem{{0, e}}}))
	}
	return out
}()

// checkSelf compares a value with itself, and collections with others that share
// its very elements. A NaN is equal to nothing, and so is what holds one.
func checkSelf(c *Case, v value.Value, p *MV) {
	want := !p.hasNaN()
	same := func(a, b value.Value, how string) {
		c.evals++
		c.Check(a.Equal(b) == want && value.Equal(a, b) == want, "Equal of %v and %s is %v, expected %v", p, how, a.Equal(b), want)
	}
	same(v, v, "itself")
	switch x := v.(type) {
	case value.List:
		if x.Class() == sparseClass {
			same(v, value.SparseList(append([]value.ListItem{}, x.Items()...), true), "a list of the same items")
			break
		}
		vals := append([]value.Value{}, x.Values()...)
		same(v, value.ImmutableList(vals), "an immutable list of the same elements")
		same(value.MutableList(vals), v, "a mutable list of the same elements")
	case value.Map:
		ents := append([]value.MapEntry{}, x.Entries()...)
		same(v, value.ImmutableMap(ents, true), "an immutable map of the same entries")
		same(value.SortedMap(ents, true), v, "a mutable map of the same entries")
	}
	c.Count("selves", 1)
}

func init() {
	register(&Prop{
		ID:    "C15",
		Rule:  "One case is a pair of values (equal by construction through different types, families and paths, or differing in one place) compared with Equal in both directions and spellings against an independent definition of equality; distinct by the pair of contents.",
		Needs: []string{"equal", "different", "nil"},
		Sections: []Section{
			{Name: "matrix", N: n(len(eqMatrix), len(eqMatrix)), Run: func(c *Case) {
				m1 := eqMatrix[c.Index]
				for _, m2 := range eqMatrix {
					for k := 0; k < 2; k++ {
						v1, p1 := mkMaybeNil(c, m1)
						v2, p2 := mkMaybeNil(c, m2)
						checkEqual(c, v1, p1, v2, p2)
					}
					c.Distinct(fnv64(m1.String() + "|" + m2.String()))
				}
				if m1.K != KNil {
					v, p := mk(c, m1, BuildOpt{})
					checkSelf(c, v, p)
				}
			}},
			{Name: "pairs", N: n(40000, 600000), Run: func(c *Case) {
				m1 := gen(c.RNG, GenOpt{Depth: 3, Budget: 14, MaxStr: 40, NoHuge: true})
				m2 := m1
				if c.P(1, 8) {
					m2 = gen(c.RNG, GenOpt{Depth: 2, Budget: 8, MaxStr: 20, NoHuge: true})
				} else {
					for k := c.Intn(3); k > 0; k-- {
						m2 = nearMiss(c, m2)
					}
				}
				v1, p1 := mkMaybeNil(c, m1)
				v2, p2 := mkMaybeNil(c, m2)
				checkEqual(c, v1, p1, v2, p2)
				if v1 != nil {
					checkSelf(c, v1, p1)
				}
				// a decoded copy is the same as far as Equal goes
				if v1 != nil && c.P(1, 4) {
					if u, err := value.Unpack(mustPack(c, v1), c.Bool()); err == nil {
						checkEqual(c, u, project(u), v2, p2)
					}
				}
				c.Distinct(fnv64(p1.String() + "|" + p2.String()))
				c.Sample("%v ~ %v", p1, p2)
			}},
			{Name: "numbers", N: n(60000, 800000), Run: func(c *Case) {
				num := func() *MV {
					switch c.Intn(4) {
					case 0:
						return mLong(genLong(c.RNG))
					case 1:
						return mDouble(genDouble(c.RNG, false))
					case 2:
						return mBig(genBig(c.RNG, true))
					}
					return mDec(genBig(c.RNG, true), genExp(c.RNG))
				}
				m1 := num()
				m2 := num()
				if c.P(3, 4) {
					m2 = sameNumber(c.RNG, m1)
					if c.Bool() {
						m2 = nearMiss(c, m2)
					}
				}
				v1, p1 := mk(c, m1, BuildOpt{})
				v2, p2 := mk(c, m2, BuildOpt{})
				checkEqual(c, v1, p1, v2, p2)
				checkSelf(c, v1, p1)
				c.Distinct(fnv64(p1.String() + "|" + p2.String()))
			}},
			{Name: "huge-exponents", N: n(6000, 60000), Run: func(c *Case) {
				m1 := mDec(genBig(c.RNG, false), genHugeExp(c.RNG))
				var m2 *MV
				switch c.Intn(4) {
				case 0: // the same number with another exponent
					k := int32(1 + c.Intn(12))
					if int64(m1.Exp)-int64(k) < math.MinInt32 {
						k = 0
					}
					m2 = mDec(new(big.Int).Mul(m1.Big, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)), m1.Exp-k)
					if c.Bool() {
						m2 = mDec(new(big.Int).Add(m2.Big, big.NewInt(int64(c.Intn(3)-1))), m2.Exp)
					}
				case 1:
					m2 = mDec(m1.Big, genHugeExp(c.RNG))
				case 2:
					m2 = mDec(genBig(c.RNG, false), genExp(c.RNG))
				default:
					m2 = []*MV{mLong(genLong(c.RNG)), mLong(0), mDouble(genDouble(c.RNG, false)), mDouble(math.Inf(1)), mDouble(math.Inf(-1)), mDouble(0), mBig(genBig(c.RNG, false))}[c.Intn(7)]
				}
				v1, p1 := mk(c, m1, BuildOpt{})
				v2, p2 := mk(c, m2, BuildOpt{})
				checkEqual(c, v1, p1, v2, p2)
				c.Check(value.Equal(v1, v1), "Equal is not reflexive for %v", p1)
				c.Distinct(fnv64(p1.String() + "|" + p2.String()))
			}},
			{Name: "kinds", N: n(6000, 60000), Run: func(c *Case) {
				o := &GenOpt{MaxStr: 20, NoHuge: true}
				m1, m2 := genScalar(c.RNG, o), genScalar(c.RNG, o)
				if c.Bool() {
					m1 = gen(c.RNG, GenOpt{Depth: 2, Budget: 6, MaxStr: 20, NoHuge: true})
				}
				if c.P(1, 3) { // the text of one as the other
					v, _ := mk(c, m1, BuildOpt{})
					if v != nil {
						m2 = mStr(v.String())
					}
				}
				v1, p1 := mkMaybeNil(c, m1)
				v2, p2 := mkMaybeNil(c, m2)
				checkEqual(c, v1, p1, v2, p2)
				c.Distinct(fnv64(p1.String() + "|" + p2.String()))
			}},
			{Name: "large", N: n(200, 3000), Run: func(c *Case) {
				k := c.Range(200, 3000)
				m1 := &MV{K: []MK{KList, KMap, KSparse}[c.Intn(3)]}
				for i := 0; i < k; i++ {
					switch m1.K {
					case KList:
						m1.L = append(m1.L, mLong(int64(i)))
					case KMap:
						m1.E = append(m1.E, MEnt{fmt.Sprintf("%06d", i), mLong(int64(i))})
					case KSparse:
						m1.P = append(m1.P, MItem{i*2 - 100, mLong(int64(i))})
					}
				}
				m2 := m1
				if c.P(2, 3) {
					m2 = nearMiss(c, m1)
				}
				v1, p1 := mk(c, m1, BuildOpt{NoDetour: true})
				v2, p2 := mk(c, m2, BuildOpt{NoDetour: true})
				checkEqual(c, v1, p1, v2, p2)
				c.Distinct(c.U64())
			}},
		},
	})
}

// ------------------------------------------------------------------ C16

func jsonAll(c *Case, v value.Value, m *MV) {
	text := value.Jsonify(v)
	c.Note("JSON %s of %v", quoteShort(text), m)
	c.evals++
	if err := jsonCheck(text, m); err != nil {
		c.Failf("JSON of %v: %v\n  text %s", m, err, quoteShort(text))
	}
	if v == nil {
		return
	}
	var sb strings.Builder
	sb.WriteString("before ")
	v.PrintJSON(&sb)
	c.Check(sb.String() == "before "+text, "PrintJSON appends %s, Jsonify gives %s", quoteShort(sb.String()), quoteShort(text))
	b, err := v.MarshalJSON()
	c.Check(err == nil, "MarshalJSON: %v", err)
	c.Check(string(b) == text, "MarshalJSON gives %s, Jsonify %s", quoteShort(string(b)), quoteShort(text))
	// through encoding/json, alone and inside another document
	b, err = json.Marshal(v)
	c.Check(err == nil, "json.Marshal: %v (text %s)", err, quoteShort(text))
	want, err := compactHTML([]byte(text))
	c.Check(err == nil, "json.Compact of %s: %v", quoteShort(text), err)
	c.Check(bytes.Equal(b, want), "json.Marshal gives %s, Jsonify %s", quoteShort(string(b)), quoteShort(text))
	b, err = json.Marshal(map[string]interface{}{"k": []value.Value{v, nil}})
	c.Check(err == nil && string(b) == `{"k":[`+string(want)+`,null]}`, "json.Marshal of a document holding the value gives %s, %v", quoteShort(string(b)), err)
	switch m.K {
	case KList, KMap, KSparse:
		c.Check(v.String() == text, "String of a collection is %s, its JSON %s", quoteShort(v.String()), quoteShort(text))
		c.Count("collections", 1)
	}
	c.Count("texts", 1)
}

func init() {
	register(&Prop{
		ID:    "C16",
		Rule:  "One case is a value printed in every way (Jsonify, PrintJSON, MarshalJSON, json.Marshal alone and embedded, String of collections); the text is walked token by token by encoding/json against the content. Distinct by content.",
		Needs: []string{"texts", "collections", "decoded"},
		Sections: []Section{
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				m := sysScalars[c.Index]
				if m.K == KDec && (m.Exp > 100000 || m.Exp < -100000) {
					// the text shows the exponent, no expansion needed
				}
				v, p := mk(c, m, BuildOpt{})
				jsonAll(c, v, p)
				// inside a list, a map, a sparse list
				jsonAll(c, value.Tuple(v, nil, v), mList(p, mNil, p))
				jsonAll(c, value.SparseList([]value.ListItem{value.ImmutableItem(-2, v), value.ImmutableItem(7, v)}, true), &MV{K: KSparse, P: []MItem{{-2, p}, {7, p}}})
				c.Distinct(fnv64(m.String()))
			}},
			{Name: "every-rune", N: n(0x110000/256, 0x110000/256), Run: func(c *Case) {
				var sb strings.Builder
				for i := 0; i < 256; i++ {
					sb.WriteRune(rune(c.Index*256 + i))
				}
				s := sb.String()
				jsonAll(c, value.Utf8(s), mStr(s))
				for _, imm := range []bool{true, false} {
					mp := value.EmptyMap(imm).Put(s, value.Utf8(s))
					jsonAll(c, mp, &MV{K: KMap, E: []MEnt{{s, mStr(s)}}})
				}
				c.Distinct(uint64(c.Index))
			}},
			{Name: "every-byte-pair", N: n(256, 256), Run: func(c *Case) {
				for i := 0; i < 256; i++ {
					s := "x" + string([]byte{byte(c.Index), byte(i)}) + "y"
					jsonAll(c, value.Utf8(s), mStr(s))
					if i%8 == 0 {
						jsonAll(c, value.EmptyImmutableMap().Put(s, value.True), &MV{K: KMap, E: []MEnt{{s, mBool(true)}}})
						jsonAll(c, value.EmptyMutableMap().Put(s[1:], value.True), &MV{K: KMap, E: []MEnt{{s[1:], mBool(true)}}})
					}
					c.DistinctB([]byte(s))
				}
			}},
			{Name: "random", N: n(25000, 400000), Run: func(c *Case) {
				m := gen(c.RNG, GenOpt{Depth: 4, Budget: 25})
				v, p := mk(c, m, BuildOpt{})
				jsonAll(c, v, p)
				if c.P(1, 3) && v != nil {
					if u, err := value.Unpack(mustPack(c, v), c.Bool()); err == nil {
						jsonAll(c, u, project(u))
						c.Count("decoded", 1)
					}
				}
				c.Distinct(fnv64(p.String()))
				c.Sample("%v", p)
			}},
			{Name: "doubles", N: n(20000, 400000), Run: func(c *Case) {
				f := genDouble(c.RNG, false)
				jsonAll(c, value.Double(f), mDouble(f))
				c.Distinct(math.Float64bits(f))
			}},
			{Name: "large", N: n(40, 400), Run: func(c *Case) {
				k := c.Range(1000, 20000)
				l := make([]value.Value, k)
				m := mList()
				for i := range l {
					l[i] = value.Long(int64(i))
					m.L = append(m.L, mLong(int64(i)))
				}
				s := strings.Repeat("\"\\\n\x00é\xff", k)
				jsonAll(c, value.MutableList(l), m)
				jsonAll(c, value.Utf8(s), mStr(s))
				jsonAll(c, value.Raw([]byte(s), false), mRaw(s))
				c.Distinct(uint64(k))
			}},
		},
	})
}
