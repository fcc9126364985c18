package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/codeallergy/value"
)

// ------------------------------------------------------------------ C29

// What the package's settings are, as the reference models see them. Only the
// serial sections of C29 change them.
var (
	refBase64     = "base64,"
	refUnknown    = "data:application/x-msgpack-ext;"
	refDelim      = "x"
	refPrecision  = 0.00001
	refFirstIndex = 0
)

type settings struct {
	base64, unknown, delim string
	precision              float64
	firstIndex             int
	fast                   bool
}

var defaults = settings{refBase64, refUnknown, refDelim, refPrecision, refFirstIndex, true}

func (s settings) apply() {
	value.Base64Prefix, refBase64 = s.base64, s.base64
	value.UnknownPrefix, refUnknown = s.unknown, s.unknown
	value.DecimalExpDelim, value.DecimalExpDelimStr, refDelim = s.delim[0], s.delim, s.delim
	value.PrecisionLevel, refPrecision = s.precision, s.precision
	value.FirstIndexKey, refFirstIndex = s.firstIndex, s.firstIndex
	value.AllowFastAppends = s.fast
}

func (s settings) String() string {
	return fmt.Sprintf("Base64Prefix=%q UnknownPrefix=%q DecimalExpDelim=%q PrecisionLevel=%g FirstIndexKey=%d AllowFastAppends=%v", s.base64, s.unknown, s.delim, s.precision, s.firstIndex, s.fast)
}

var (
	setBase64    = []string{"base64,", "", "b64:", "base64", "raw,raw,", "data:application/octet-stream;base64,", "~", "B", "base64,base64,"}
	setUnknown   = []string{"data:application/x-msgpack-ext;", "", "ext;", "data:", "x", "application/x-msgpack-extension-of-some-length;version=2;"}
	setDelim     = []string{"x", "p", "_", "@", "^", "z", "P", "~", "|"}
	setPrecision = []float64{1e-5, 0, 1e-12, 1e-9, 1e-3, 0.25, 1, 1000, 1e300, 4e-324, 1e-300}
	setFirst     = []int{0, 1, -1, 100, -100, 1 << 31, 1 << 40, -1 << 50}
)

func genSettings(r *RNG) settings {
	s := defaults
	all := r.P(1, 3)
	if all || r.P(1, 2) {
		s.base64 = setBase64[r.Intn(len(setBase64))]
	}
	if all || r.P(1, 2) {
		s.unknown = setUnknown[r.Intn(len(setUnknown))]
	}
	if all || r.P(1, 2) {
		s.delim = setDelim[r.Intn(len(setDelim))]
	}
	if all || r.P(1, 2) {
		s.precision = setPrecision[r.Intn(len(setPrecision))]
	}
	if all || r.P(1, 2) {
		s.firstIndex = setFirst[r.Intn(len(setFirst))]
	}
	if r.P(1, 3) {
		s.fast = false
	}
	return s
}

// under runs f with the settings in force and puts the defaults back.
func under(c *Case, s settings, f func()) {
	defer defaults.apply()
	s.apply()
	note := c.note
	c.Note("with %v", s)
	f()
	c.note = note
	c.Count("settings", 1)
}

// nearNumbers makes two numbers around the precision level apart.
func nearNumbers(r *RNG, level float64) (*MV, *MV) {
	base := []float64{0, 1, -1, 42, 0.5, -1e-7, 1e6, math.Abs(genDouble(r, true))}[r.Intn(8)]
	if base != base || math.IsInf(base, 0) {
		base = 3
	}
	d := level * []float64{0, 0.25, 0.5, 0.9, 0.999, 1.001, 1.1, 2, 10}[r.Intn(9)]
	if r.P(1, 4) {
		d = []float64{1e-6, 9e-6, 2e-5, 0.1, 1, 3}[r.Intn(6)]
	}
	if r.Bool() {
		d = -d
	}
	a, b := mDouble(base), mDouble(base+d)
	if r.P(1, 3) {
		i := int64(r.Intn(2000) - 1000)
		a = []*MV{mLong(i), mBig(big.NewInt(i)), mDec(big.NewInt(i*10+int64(r.Intn(10))), -1)}[r.Intn(3)]
		b = mDouble(toDouble(a) + d)
	}
	if r.Bool() {
		a, b = b, a
	}
	return a, b
}

// settledAll looks at everything the settings bear on.
func settledAll(c *Case, s settings, m *MV, v value.Value, p *MV) {
	jsonAll(c, v, p)
	switch m.K {
	case KLong, KDouble, KBig, KDec:
		numberForm(c, m)
	case KStr, KRaw:
		stringForm(c, m)
	}
	c.Count("printed", 1)
}

func init() {
	register(&Prop{
		ID:    "C29",
		Rule:  "One case is a combination of package settings put in force, under which values made before and after are printed, parsed, compared, packed, unpacked and appended to and compared with the reference models under the same settings. Distinct by settings and content.",
		Needs: []string{"settings", "printed", "near", "encoded", "ext-texts"},
		Sections: []Section{
			{Name: "texts", Serial: true, N: n(30000, 400000), Run: func(c *Case) {
				s := genSettings(c.RNG)
				var m *MV
				switch c.Intn(6) {
				case 0:
					m = mRaw(string(c.Bytes(genLen(c.RNG, 60))))
				case 1:
					m = mExt(extTags[c.Intn(len(extTags))], string(c.Bytes(extLens[c.Intn(len(extLens))])))
				case 2:
					m = mDec(genBig(c.RNG, false), genExp(c.RNG))
				case 3:
					t := genStr(c.RNG, 30)
					if c.Bool() {
						t = setBase64[c.Intn(len(setBase64))] + t
					}
					m = mStr(t)
				default:
					m = gen(c.RNG, GenOpt{Depth: 3, Budget: 12, MaxStr: 40})
				}
				v, p := mk(c, m, BuildOpt{}) // made under the defaults
				if v == nil {
					return
				}
				old := v.String()
				under(c, s, func() {
					settledAll(c, s, m, v, p)
					u, q := mk(c, m, BuildOpt{}) // made under the settings
					settledAll(c, s, m, u, q)
					if m.K == KExt {
						c.Check(v.String() == s.unknown+s.base64+b64(m.S), "with %v an extension's text is %s", s, quoteShort(v.String()))
						c.Count("ext-texts", 1)
					}
					for i := 0; i < 3; i++ {
						t := genText(c.RNG)
						if c.Bool() {
							t = s.base64 + b64(string(c.Bytes(c.Intn(20))))
						}
						x := value.ParseString(t)
						if base64Form(t) {
							raw := unb64(t[len(s.base64):])
							c.same(project(x), mRaw(raw), "ParseString(%s)", quoteShort(t))
						} else {
							c.same(project(x), mStr(t), "ParseString(%s)", quoteShort(t))
						}
					}
				})
				c.Check(v.String() == old, "with the settings put back the text of %v is %s, it was %s", m, quoteShort(v.String()), quoteShort(old))
				settledAll(c, defaults, m, v, p)
				c.Distinct(fnv64(s.String() + m.String()))
				c.Sample("%v: %v", s, m)
			}},
			{Name: "bytes", Serial: true, N: n(12000, 150000), Run: func(c *Case) {
				// the packed form does not depend on the settings
				s := genSettings(c.RNG)
				m := gen(c.RNG, GenOpt{Depth: 3, Budget: 14, MaxStr: 40})
				v, p := mk(c, m, BuildOpt{})
				b := mustPack(c, v)
				under(c, s, func() {
					c.sameBytes(mustPack(c, v), b, "packing with %v", s)
					u, err := value.Unpack(b, c.Bool())
					c.Check(err == nil, "Unpack with %v: %v", s, err)
					c.same(project(u), p.wire(), "Unpack with %v", s)
					doc, want, un := genForeign(c.RNG)
					want, un = denoteDoc(doc)
					decodeAllWays(c, doc, want, un)
				})
				c.Count("encoded", 1)
				c.DistinctB(b)
			}},
			{Name: "precision", Serial: true, N: n(60000, 800000), Run: func(c *Case) {
				s := defaults
				s.precision = setPrecision[c.Intn(len(setPrecision))]
				if c.P(1, 3) {
					s = genSettings(c.RNG)
				}
				m1, m2 := nearNumbers(c.RNG, s.precision)
				if c.P(1, 3) { // inside collections
					x := gen(c.RNG, GenOpt{Depth: 1, Budget: 3, MaxStr: 10, NoHuge: true})
					switch c.Intn(3) {
					case 0:
						m1, m2 = mList(x, m1), mList(x, m2)
					case 1:
						m1, m2 = &MV{K: KMap, E: []MEnt{{"k", m1}}}, &MV{K: KMap, E: []MEnt{{"k", m2}}}
					default:
						m1, m2 = mList(m1), &MV{K: KSparse, P: []MItem{{0, m2}}}
					}
				}
				v1, p1 := mk(c, m1, BuildOpt{})
				v2, p2 := mk(c, m2, BuildOpt{})
				checkEqual(c, v1, p1, v2, p2)
				under(c, s, func() {
					checkEqual(c, v1, p1, v2, p2)
					v3, p3 := mk(c, m1, BuildOpt{})
					checkEqual(c, v3, p3, v2, p2)
				})
				checkEqual(c, v1, p1, v2, p2)
				c.Count("near", 1)
				c.Distinct(fnv64(fmt.Sprint(s.precision) + p1.String() + "|" + p2.String()))
			}},
			{Name: "indexes", Serial: true, N: n(10000, 150000), Run: func(c *Case) {
				s := genSettings(c.RNG)
				s.firstIndex = setFirst[c.Intn(len(setFirst))]
				c.Note("with %v", s)
				under(c, s, func() {
					l := value.EmptySparseList()
					if c.Bool() {
						l = value.SparseList(nil, c.Bool())
					} else if c.Bool() {
						l = value.SparseListOf([]value.Value{value.True}).RemoveAt(0)
					}
					k := 1 + c.Intn(4)
					var p []MItem
					for i := 0; i < k; i++ {
						l = l.Append(value.Long(int64(i)))
						p = append(p, MItem{s.firstIndex + i, mLong(int64(i))})
						c.same(project(l), &MV{K: KSparse, P: append([]MItem{}, p...)}, "appending %d values to an empty sparse list with %v", i+1, s)
					}
					if c.Bool() {
						d := value.EmptyImmutableList().Append(value.True)
						c.same(project(d), mList(mBool(true)), "appending to an empty dense list with %v", s)
					}
					runSparse(c, 1+c.Intn(12), !s.fast)
				})
				c.Distinct(fnv64(s.String()) + uint64(c.Index))
			}},
			{Name: "histories", Serial: true, N: n(12000, 150000), Run: func(c *Case) {
				// other behaviour does not depend on the settings
				s := genSettings(c.RNG)
				under(c, s, func() {
					switch c.Intn(3) {
					case 0:
						runMap(c, c.Bool(), 1+c.Intn(12))
					case 1:
						runSeq(c, c.Bool(), 1+c.Intn(12))
					default:
						v, m := mk(c, gen(c.RNG, GenOpt{Depth: 3, Budget: 14, MaxStr: 40, NoHuge: true}), BuildOpt{})
						roundTrip(c, v, m)
						conform(c, v, m)
					}
				})
				c.Distinct(fnv64(s.String()) + uint64(c.Index))
			}},
		},
	})
}
