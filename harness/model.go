package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// MK is the kind of an abstract value. KNil is an absent element (a Go nil
// inside a collection); it packs as null.
type MK byte

const (
	KNil MK = iota
	KNull
	KBool
	KLong
	KDouble
	KBig
	KDec
	KStr
	KRaw
	KExt
	KList
	KMap
	KSparse
)

var mkNames = [...]string{"nil", "null", "bool", "long", "double", "big", "dec", "str", "raw", "ext", "list", "map", "sparse"}

type MEnt struct {
	K string
	V *MV
}
type MItem struct {
	K int
	V *MV
}

// MV is the abstract content of a value: the oracle's side of the world.
type MV struct {
	K   MK
	B   bool
	I   int64
	F   uint64   // double bits
	Big *big.Int // big, or decimal coefficient
	Exp int32
	S   string // str, raw, ext (tag byte first)
	L   []*MV
	E   []MEnt  // ascending keys, duplicates adjacent
	P   []MItem // ascending keys, duplicates adjacent
}

var (
	mNil  = &MV{K: KNil}
	mNull = &MV{K: KNull}
)

func mBool(b bool) *MV               { return &MV{K: KBool, B: b} }
func mLong(i int64) *MV              { return &MV{K: KLong, I: i} }
func mDouble(f float64) *MV          { return &MV{K: KDouble, F: math.Float64bits(f)} }
func mBig(b *big.Int) *MV            { return &MV{K: KBig, Big: b} }
func mDec(b *big.Int, exp int32) *MV { return &MV{K: KDec, Big: b, Exp: exp} }
func mStr(s string) *MV              { return &MV{K: KStr, S: s} }
func mRaw(s string) *MV              { return &MV{K: KRaw, S: s} }
func mExt(tag byte, data string) *MV { return &MV{K: KExt, S: string([]byte{tag}) + data} }
func mList(l ...*MV) *MV             { return &MV{K: KList, L: l} }

func (m *MV) Double() float64 { return math.Float64frombits(m.F) }

func (m *MV) hasNaN() bool {
	switch m.K {
	case KDouble:
		return math.IsNaN(m.Double())
	case KList:
		for _, e := range m.L {
			if e.hasNaN() {
				return true
			}
		}
	case KMap:
		for _, e := range m.E {
			if e.V.hasNaN() {
				return true
			}
		}
	case KSparse:
		for _, e := range m.P {
			if e.V.hasNaN() {
				return true
			}
		}
	}
	return false
}

func (m *MV) count() int {
	k := 1
	for _, e := range m.L {
		k += e.count()
	}
	for _, e := range m.E {
		k += e.V.count()
	}
	for _, e := range m.P {
		k += e.V.count()
	}
	return k
}

// wire returns m as it comes back from the wire: absent elements are null.
func (m *MV) wire() *MV {
	switch m.K {
	case KNil:
		return mNull
	case KList:
		r := &MV{K: KList, L: make([]*MV, len(m.L))}
		for i, e := range m.L {
			r.L[i] = e.wire()
		}
		return r
	case KMap:
		r := &MV{K: KMap, E: make([]MEnt, len(m.E))}
		for i, e := range m.E {
			r.E[i] = MEnt{e.K, e.V.wire()}
		}
		return r
	case KSparse:
		r := &MV{K: KSparse, P: make([]MItem, len(m.P))}
		for i, e := range m.P {
			r.P[i] = MItem{e.K, e.V.wire()}
		}
		return r
	}
	return m
}

func quoteShort(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q…(%d bytes, fnv %x)", s[:40], len(s), fnv64(s))
	}
	return strconv.Quote(s)
}

func (m *MV) dump(b *strings.Builder, budget *int) {
	if *budget <= 0 {
		b.WriteString("…")
		return
	}
	*budget--
	switch m.K {
	case KNil, KNull:
		b.WriteString(mkNames[m.K])
	case KBool:
		fmt.Fprint(b, m.B)
	case KLong:
		fmt.Fprintf(b, "long(%d)", m.I)
	case KDouble:
		fmt.Fprintf(b, "double(%v/%016x)", m.Double(), m.F)
	case KBig:
		b.WriteString("big(" + bigShort(m.Big) + ")")
	case KDec:
		fmt.Fprintf(b, "dec(%s e%d)", bigShort(m.Big), m.Exp)
	case KStr, KRaw, KExt:
		b.WriteString(mkNames[m.K] + "(" + quoteShort(m.S) + ")")
	case KList:
		fmt.Fprintf(b, "list%d[", len(m.L))
		for i, e := range m.L {
			if *budget <= 0 {
				b.WriteString("…")
				break
			}
			if i > 0 {
				b.WriteString(", ")
			}
			e.dump(b, budget)
		}
		b.WriteString("]")
	case KMap:
		fmt.Fprintf(b, "map%d{", len(m.E))
		for i, e := range m.E {
			if *budget <= 0 {
				b.WriteString("…")
				break
			}
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(quoteShort(e.K) + ": ")
			e.V.dump(b, budget)
		}
		b.WriteString("}")
	case KSparse:
		fmt.Fprintf(b, "sparse%d{", len(m.P))
		for i, e := range m.P {
			if *budget <= 0 {
				b.WriteString("…")
				break
			}
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%d: ", e.K)
			e.V.dump(b, budget)
		}
		b.WriteString("}")
	}
}

func bigShort(b *big.Int) string {
	if b == nil {
		return "<nil>"
	}
	if b.BitLen() > 300 {
		return fmt.Sprintf("%d bits, fnv %x", b.BitLen(), fnv64(b.String()))
	}
	return b.String()
}

func (m *MV) String() string {
	if m == nil {
		return "<nil *MV>"
	}
	var b strings.Builder
	budget := 120
	m.dump(&b, &budget)
	return b.String()
}

// mdiff returns "" when a and b have exactly the same content, else a path to
// the first difference.
func mdiff(a, b *MV) string {
	if a == b {
		return ""
	}
	if a.K != b.K {
		return fmt.Sprintf(": %v versus %v", a, b)
	}
	bad := false
	switch a.K {
	case KBool:
		bad = a.B != b.B
	case KLong:
		bad = a.I != b.I
	case KDouble:
		bad = a.F != b.F
	case KBig:
		bad = a.Big.Cmp(b.Big) != 0
	case KDec:
		bad = a.Big.Cmp(b.Big) != 0 || a.Exp != b.Exp
	case KStr, KRaw, KExt:
		bad = a.S != b.S
	case KList:
		for i := range a.L {
			if i >= len(b.L) {
				break
			}
			if d := mdiff(a.L[i], b.L[i]); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
		bad = len(a.L) != len(b.L)
	case KMap:
		for i := range a.E {
			if i >= len(b.E) {
				break
			}
			if a.E[i].K != b.E[i].K {
				return fmt.Sprintf("{entry %d}: key %s versus %s", i, quoteShort(a.E[i].K), quoteShort(b.E[i].K))
			}
			if d := mdiff(a.E[i].V, b.E[i].V); d != "" {
				return fmt.Sprintf("{%s}%s", quoteShort(a.E[i].K), d)
			}
		}
		bad = len(a.E) != len(b.E)
	case KSparse:
		for i := range a.P {
			if i >= len(b.P) {
				break
			}
			if a.P[i].K != b.P[i].K {
				return fmt.Sprintf("{item %d}: key %d versus %d", i, a.P[i].K, b.P[i].K)
			}
			if d := mdiff(a.P[i].V, b.P[i].V); d != "" {
				return fmt.Sprintf("{%d}%s", a.P[i].K, d)
			}
		}
		bad = len(a.P) != len(b.P)
	}
	if bad {
		return fmt.Sprintf(": %v versus %v", a, b)
	}
	return ""
}

// mnorm orders the values under equal keys canonically, for documents whose
// duplicate keys carry no order.
func mnorm(m *MV) *MV {
	switch m.K {
	case KList:
		r := &MV{K: KList, L: make([]*MV, len(m.L))}
		for i, e := range m.L {
			r.L[i] = mnorm(e)
		}
		return r
	case KMap:
		r := &MV{K: KMap, E: make([]MEnt, len(m.E))}
		for i, e := range m.E {
			r.E[i] = MEnt{e.K, mnorm(e.V)}
		}
		sortEnts(r.E)
		for i := 0; i < len(r.E); {
			j := i + 1
			for j < len(r.E) && r.E[j].K == r.E[i].K {
				j++
			}
			byKey(j-i, func(k int) **MV { return &r.E[i+k].V })
			i = j
		}
		return r
	case KSparse:
		r := &MV{K: KSparse, P: make([]MItem, len(m.P))}
		for i, e := range m.P {
			r.P[i] = MItem{e.K, mnorm(e.V)}
		}
		sortItems(r.P)
		for i := 0; i < len(r.P); {
			j := i + 1
			for j < len(r.P) && r.P[j].K == r.P[i].K {
				j++
			}
			byKey(j-i, func(k int) **MV { return &r.P[i+k].V })
			i = j
		}
		return r
	}
	return m
}

// byKey sorts n values by their encodings.
func byKey(n int, at func(int) **MV) {
	if n < 2 {
		return
	}
	type kv struct {
		k string
		v *MV
	}
	l := make([]kv, n)
	for i := range l {
		l[i] = kv{mkey(*at(i)), *at(i)}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
	for i := range l {
		*at(i) = l[i].v
	}
}

func mkey(m *MV) string { return string(refEncode(m)) }

// ---------------------------------------------------------------- projection

var sparseClass = value.EmptySparseList().Class()

// project reads a real value back through its accessors.
func project(v value.Value) *MV {
	if v == nil {
		return mNil
	}
	switch v.Kind() {
	case value.NULL:
		return mNull
	case value.BOOL:
		return mBool(v.(value.Bool).Boolean())
	case value.NUMBER:
		x := v.(value.Number)
		switch x.Type() {
		case value.LONG:
			return mLong(x.Long())
		case value.DOUBLE:
			return mDouble(x.Double())
		case value.BIGINT:
			return mBig(new(big.Int).Set(x.BigInt()))
		case value.DECIMAL:
			d := x.Decimal()
			return mDec(d.Coefficient(), d.Exponent())
		}
		panic(failure{fmt.Sprintf("number of type %v", x.Type())})
	case value.STRING:
		x := v.(value.String)
		switch x.Type() {
		case value.UTF8:
			return mStr(x.Utf8())
		case value.RAW:
			return mRaw(string(x.Raw()))
		}
		panic(failure{fmt.Sprintf("string of type %v", x.Type())})
	case value.UNKNOWN:
		return &MV{K: KExt, S: string(v.(value.Extension).Native())}
	case value.LIST:
		l := v.(value.List)
		if v.Class() == sparseClass {
			items := l.Items()
			r := &MV{K: KSparse, P: make([]MItem, len(items))}
			for i, it := range items {
				r.P[i] = MItem{it.Key(), project(it.Value())}
			}
			return r
		}
		vals := l.Values()
		r := &MV{K: KList, L: make([]*MV, len(vals))}
		for i, e := range vals {
			r.L[i] = project(e)
		}
		return r
	case value.MAP:
		ents := v.(value.Map).Entries()
		r := &MV{K: KMap, E: make([]MEnt, len(ents))}
		for i, e := range ents {
			r.E[i] = MEnt{e.Key(), project(e.Value())}
		}
		return r
	}
	panic(failure{fmt.Sprintf("value of kind %d", v.Kind())})
}

// ---------------------------------------------------------------- generation

type GenOpt struct {
	Depth     int
	Budget    int // number of nodes, roughly
	NoHoles   bool
	NoNaN     bool
	NoSparse  bool
	NoDup     bool
	NoExt     bool
	NoHuge    bool // keep decimals and integers small
	MaxStr    int
	NonNegKey bool
	NoWide    bool // no huge sparse keys (Values() would need their length)
}

// keys around every width of the integer encoding; the largest index whose
// successor is an int is left out, Len() has no answer for it.
var wideKeys = []int{1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<33 + 7, 1 << 40, 1 << 53, 1<<53 + 1, 1 << 62, 1<<63 - 2,
	-1 << 31, -1<<31 - 1, -1 << 32, -1<<32 - 9, -1 << 40, -1 << 53, -1<<63 + 1, -1 << 63}

var boundaryLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, 257}

func genLong(r *RNG) int64 {
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(300)) - 150
	case 1:
		return int64(r.U64())
	case 2:
		return int64(r.Intn(64)) - 33
	default:
		k := uint(r.Intn(64))
		v := int64(uint64(1)<<k) + int64(r.Intn(5)) - 2
		if r.Bool() {
			v = -v
		}
		return v
	}
}

var doubleSpecials = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 0.5, 123.456, 1e15, 1e16, 1e17, 1e21, 1e22, 1e100, -1e300,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(),
	math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxInt64, math.MinInt64, math.MaxUint64, 1 << 53, 1<<53 + 2, 2.2250738585072014e-308,
	0.00001, 0.000011, 1e-7, 1e-300, 3.5, 2.5, -2.5, 4294967296.5}

func genDouble(r *RNG, noNaN bool) float64 {
	for {
		var f float64
		switch r.Intn(6) {
		case 0, 1:
			f = doubleSpecials[r.Intn(len(doubleSpecials))]
		case 2:
			f = float64(r.Intn(2001)-1000) / 8
		case 3:
			f = float64(genLong(r))
		case 4:
			f = float64(math.Float32frombits(uint32(r.U64())))
		default:
			f = math.Float64frombits(r.U64())
		}
		if noNaN && f != f {
			continue
		}
		return f
	}
}

func genBig(r *RNG, noHuge bool) *big.Int {
	b := new(big.Int)
	switch r.Intn(6) {
	case 0:
		b.SetInt64(genLong(r))
	case 1:
		b.SetInt64(int64(r.Intn(515) - 257))
	case 2:
		b.Lsh(big.NewInt(1), uint(r.Intn(200)))
		b.Add(b, big.NewInt(int64(r.Intn(5)-2)))
	case 3:
		b.SetUint64(r.U64())
	case 4:
		b.SetBytes(r.Bytes(r.Intn(24)))
	default:
		k := 40
		if !noHuge && r.P(1, 6) {
			k = 700
		}
		b.SetBytes(r.Bytes(r.Intn(k)))
	}
	if r.Bool() {
		b.Neg(b)
	}
	return b
}

func genExp(r *RNG) int32 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return int32(r.Intn(7) - 3)
	case 2:
		return int32(r.Intn(61) - 30)
	case 3:
		return []int32{127, 128, -127, -128, 255, 256, -255, -256, 257, 1, -1, 15, 16, -16}[r.Intn(14)]
	default:
		return int32(r.Intn(801) - 400)
	}
}

func genHugeExp(r *RNG) int32 {
	e := []int64{1<<31 - 1, 1 << 30, 1 << 29, 1000000000, 100000000, 5000000, 65536, 30000, 2000, 400, 330, 309}[r.Intn(12)] - int64(r.Intn(30))
	if r.Bool() {
		e = -e - int64(r.Intn(2))
	}
	return int32(e)
}

var strSpecials = []string{"", " ", "null", "true", "false", "nan", "NaN", "0", "-1", "123", "1.5", "0x12", "-0xff", "0x1x-2", "name", "key", "a", "b",
	"\"", "\\", "\"quoted\"", "a\nb", "\x00", "\x01\x1f\x7f", "\u0080\u009f", "\u2028\u2029", "<script>&amp;</script>", "héllo", "日本語", "😀🎉", "\U0010ffff",
	"\xff", "\xc3\x28", "\xed\xa0\x80", "abc\xf0\x9f", "\xfe\xff", "\u00ad", "\ufeff", "\ufffd", "/", "'", "`", "{}", "[1,2]", "a:b", ",", "base64,", "base64,!!"}

func genLen(r *RNG, max int) int {
	if r.P(1, 3) {
		l := boundaryLens[r.Intn(len(boundaryLens))]
		if l <= max {
			return l
		}
	}
	if max > 40 {
		max = 40
	}
	return r.Intn(max + 1)
}

func genStr(r *RNG, max int) string {
	if max == 0 {
		max = 300
	}
	switch r.Intn(6) {
	case 0, 1:
		return strSpecials[r.Intn(len(strSpecials))]
	case 2:
		return string(r.Bytes(genLen(r, max)))
	case 3:
		k := genLen(r, max)
		b := make([]byte, k)
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	case 4:
		k := r.Intn(12)
		var sb strings.Builder
		for i := 0; i < k; i++ {
			switch r.Intn(5) {
			case 0:
				sb.WriteRune(rune(r.Intn(0x80)))
			case 1:
				sb.WriteRune(rune(r.Intn(0x800)))
			case 2:
				sb.WriteRune(rune(r.Intn(0x10000)))
			case 3:
				sb.WriteRune(rune(r.Intn(0x110000)))
			default:
				sb.WriteByte(byte(r.Intn(0x20)))
			}
		}
		return sb.String()
	default:
		return strconv.Itoa(int(genLong(r)))
	}
}

var extTags = []byte{0, 3, 4, 5, 16, 127, 128, 200, 254, 255}
var extLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 255, 256, 257}

// longKey: keys that differ only behind a long common beginning.
func longKey(r *RNG) string {
	k := []int{15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300, 520}[r.Intn(12)]
	if r.P(1, 2) {
		k = 40 + r.Intn(100)
	}
	s := strings.Repeat("p/", (k+1)/2)[:k]
	switch r.Intn(4) {
	case 0:
		return s
	case 1:
		return s + "\x00"
	default:
		return s + string("abcABC\xff\x80 09"[r.Intn(11)])
	}
}

func genKey(r *RNG) string {
	if r.P(1, 40) {
		return longKey(r)
	}
	switch r.Intn(5) {
	case 0:
		return strSpecials[r.Intn(len(strSpecials))]
	case 1:
		return strings.Repeat("a", r.Intn(6))
	case 2:
		return genStr(r, 40)
	default:
		k := 1 + r.Intn(3)
		b := make([]byte, k)
		for i := range b {
			b[i] = byte('a' + r.Intn(4))
		}
		return string(b)
	}
}

func genSparseKey(r *RNG, o *GenOpt) int {
	var k int
	if !o.NoWide && r.P(1, 20) {
		k = wideKeys[r.Intn(len(wideKeys))]
		if o.NonNegKey && k < 0 {
			k = -(k + 1) - 1
			if k < 0 {
				k = 0
			}
		}
		return k
	}
	switch r.Intn(8) {
	case 0:
		k = -r.Intn(40)
	case 1:
		k = r.Intn(300)
	case 2:
		k = []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, -32, -33, -128, -129, -32768, -32769}[r.Intn(14)]
	default:
		k = r.Intn(12)
	}
	if o.NonNegKey && k < 0 {
		k = -k
	}
	return k
}

func genScalar(r *RNG, o *GenOpt) *MV {
	for {
		switch r.Intn(11) {
		case 0:
			return mNull
		case 1:
			return mBool(r.Bool())
		case 2, 3:
			return mLong(genLong(r))
		case 4:
			return mDouble(genDouble(r, o.NoNaN))
		case 5:
			return mBig(genBig(r, o.NoHuge))
		case 6:
			return mDec(genBig(r, o.NoHuge), genExp(r))
		case 7, 8:
			return mStr(genStr(r, o.MaxStr))
		case 9:
			m := o.MaxStr
			if m == 0 {
				m = 300
			}
			return mRaw(string(r.Bytes(genLen(r, m))))
		default:
			if o.NoExt {
				continue
			}
			return mExt(extTags[r.Intn(len(extTags))], string(r.Bytes(extLens[r.Intn(len(extLens))])))
		}
	}
}

func sortEnts(e []MEnt)   { sort.SliceStable(e, func(i, j int) bool { return e[i].K < e[j].K }) }
func sortItems(p []MItem) { sort.SliceStable(p, func(i, j int) bool { return p[i].K < p[j].K }) }

func genElem(r *RNG, o *GenOpt, depth int, budget *int) *MV {
	if !o.NoHoles && r.P(1, 12) {
		return mNil
	}
	return genNode(r, o, depth, budget)
}

func genNode(r *RNG, o *GenOpt, depth int, budget *int) *MV {
	*budget--
	if depth <= 0 || *budget <= 0 || r.P(1, 2) {
		return genScalar(r, o)
	}
	k := r.Intn(6)
	if r.P(1, 8) {
		k = []int{13, 14, 15, 16, 17, 31, 32, 40}[r.Intn(8)]
	}
	switch r.Intn(5) {
	case 0, 1:
		m := &MV{K: KList}
		for i := 0; i < k && *budget > 0; i++ {
			m.L = append(m.L, genElem(r, o, depth-1, budget))
		}
		return m
	case 2, 3:
		m := &MV{K: KMap}
		for i := 0; i < k && *budget > 0; i++ {
			key := genKey(r)
			if len(m.E) > 0 && !o.NoDup && r.P(1, 6) {
				key = m.E[r.Intn(len(m.E))].K
			}
			m.E = append(m.E, MEnt{key, genElem(r, o, depth-1, budget)})
		}
		sortEnts(m.E)
		if o.NoDup {
			m.E = dedupE(m.E)
		}
		return m
	default:
		if o.NoSparse {
			return genNode(r, o, depth, budget)
		}
		m := &MV{K: KSparse}
		for i := 0; i < k || i == 0; i++ {
			key := genSparseKey(r, o)
			if len(m.P) > 0 && !o.NoDup && r.P(1, 6) {
				key = m.P[r.Intn(len(m.P))].K
			}
			m.P = append(m.P, MItem{key, genElem(r, o, depth-1, budget)})
		}
		sortItems(m.P)
		if o.NoDup {
			m.P = dedupP(m.P)
		}
		return m
	}
}

func dedupE(e []MEnt) []MEnt {
	var r []MEnt
	for i := range e {
		if i == 0 || e[i].K != e[i-1].K {
			r = append(r, e[i])
		}
	}
	return r
}
func dedupP(e []MItem) []MItem {
	var r []MItem
	for i := range e {
		if i == 0 || e[i].K != e[i-1].K {
			r = append(r, e[i])
		}
	}
	return r
}

// gen produces an abstract value.
func gen(r *RNG, o GenOpt) *MV {
	if o.Depth == 0 {
		o.Depth = 3
	}
	if o.Budget == 0 {
		o.Budget = 40
	}
	b := o.Budget
	return genNode(r, &o, o.Depth, &b)
}

// genColl produces a list or a map at the top.
func genColl(r *RNG, o GenOpt) *MV {
	for i := 0; i < 40; i++ {
		m := gen(r, o)
		if m.K == KList || m.K == KMap || m.K == KSparse {
			return m
		}
	}
	return mList(mLong(1), mStr("x"))
}

// ---------------------------------------------------------------- building

type BuildOpt struct {
	Immutable bool // only the immutable family (and no sparse lists)
	NoDetour  bool
	Plain     bool // the shortest construction
}

// build constructs a real value with the content of m by a random path.
func build(m *MV, r *RNG, o BuildOpt) value.Value {
	switch m.K {
	case KNil:
		return nil
	case KNull:
		if r.Bool() {
			return value.Nil()
		}
		return value.Null
	case KBool:
		return value.Boolean(m.B)
	case KLong:
		return value.Long(m.I)
	case KDouble:
		return value.Double(math.Float64frombits(m.F))
	case KBig:
		return value.BigInt(new(big.Int).Set(m.Big))
	case KDec:
		return value.Decimal(decimal.NewFromBigInt(m.Big, m.Exp))
	case KStr:
		if r.Bool() {
			return value.Str(m.S)
		}
		return value.Utf8(m.S)
	case KRaw:
		return value.Raw([]byte(m.S), r.Bool())
	case KExt:
		return value.Unknown([]byte(m.S))
	case KList:
		return buildList(m, r, o)
	case KMap:
		return buildMap(m, r, o)
	case KSparse:
		return buildSparse(m, r, o)
	}
	panic("build")
}

func (m *MV) anyNil() bool {
	for _, e := range m.L {
		if e.K == KNil {
			return true
		}
	}
	for _, e := range m.E {
		if e.V.K == KNil {
			return true
		}
	}
	for _, e := range m.P {
		if e.V.K == KNil {
			return true
		}
	}
	return false
}

func (m *MV) anyDup() bool {
	for i := 1; i < len(m.E); i++ {
		if m.E[i].K == m.E[i-1].K {
			return true
		}
	}
	for i := 1; i < len(m.P); i++ {
		if m.P[i].K == m.P[i-1].K {
			return true
		}
	}
	return false
}

func listCtor(imm bool, vals []value.Value, r *RNG) value.List {
	if imm {
		return value.ImmutableList(vals)
	}
	if len(vals) == 1 && r.P(1, 3) {
		return value.Single(vals[0])
	}
	if r.Bool() {
		return value.Tuple(vals...)
	}
	return value.MutableList(vals)
}

func emptyListOf(imm bool, r *RNG) value.List {
	switch {
	case r.Bool():
		return value.EmptyList(imm)
	case imm:
		return value.EmptyImmutableList()
	default:
		return value.EmptyMutableList()
	}
}

func buildList(m *MV, r *RNG, o BuildOpt) value.Value {
	vals := make([]value.Value, len(m.L))
	for i, e := range m.L {
		vals[i] = build(e, r, o)
	}
	imm := o.Immutable || r.Bool()
	if o.Plain || len(vals) > 3000 || m.anyNil() && r.P(1, 2) {
		return listCtor(imm, vals, r)
	}
	nn := len(vals)
	switch r.Intn(7) {
	case 0:
		return listCtor(imm, vals, r)
	case 1: // appends; holes through PutAt past the end
		l := emptyListOf(imm, r)
		for i, v := range vals {
			if v == nil {
				continue
			}
			if i > l.Len() {
				l = l.PutAt(i, v)
			} else if r.Bool() {
				l = l.Append(v)
			} else {
				l = l.InsertAt(i+r.Intn(3), v)
			}
			if r.P(1, 16) {
				_ = l.Len()
			}
		}
		// a trailing hole cannot be produced by appends
		if l.Len() != nn {
			return listCtor(imm, vals, r)
		}
		return l
	case 2: // inserts from the back
		l := emptyListOf(imm, r)
		for i := nn - 1; i >= 0; i-- {
			if vals[i] == nil {
				return listCtor(imm, vals, r)
			}
			l = l.InsertAt(0, vals[i])
		}
		return l
	case 3: // bulk
		l := emptyListOf(imm, r)
		i := 0
		for i < nn {
			j := i + 1 + r.Intn(nn-i)
			chunk := make([]value.Value, j-i, j-i+r.Intn(3))
			copy(chunk, vals[i:j])
			for _, v := range chunk {
				if v == nil {
					return listCtor(imm, vals, r)
				}
			}
			l = l.InsertAll(l.Len(), chunk)
			i = j
		}
		return l
	case 4: // inserts at random positions
		if m.anyNil() {
			return listCtor(imm, vals, r)
		}
		l := emptyListOf(imm, r)
		var have []int
		for _, k := range r.Perm(nn) {
			p := sort.SearchInts(have, k)
			have = append(have, 0)
			copy(have[p+1:], have[p:])
			have[p] = k
			l = l.InsertAt(p, vals[k])
		}
		return l
	case 5: // with a detour: wrong elements replaced or removed
		if m.anyNil() || o.NoDetour {
			return listCtor(imm, vals, r)
		}
		l := emptyListOf(imm, r)
		for i, v := range vals {
			if r.P(1, 3) {
				l = l.Append(value.Long(int64(i)))
				if r.Bool() {
					l = l.PutAt(i, v)
					continue
				}
				l = l.RemoveAt(i)
			}
			l = l.Append(v)
		}
		if r.Bool() {
			l = l.InsertAt(0, value.Utf8("extra")).RemoveAt(0)
		}
		return l
	default: // a middle insert of a slice
		if nn < 3 || m.anyNil() {
			return listCtor(imm, vals, r)
		}
		a := r.Intn(nn)
		b := a + r.Intn(nn-a)
		rest := append(append([]value.Value{}, vals[:a]...), vals[b:]...)
		l := listCtor(imm, rest, r)
		return l.InsertAll(a, append([]value.Value{}, vals[a:b]...))
	}
}

func mkEntry(imm bool, k string, v value.Value) value.MapEntry {
	if imm {
		return value.ImmutableEntry(k, v)
	}
	return value.MutableEntry(k, v)
}

func mapCtor(imm bool, ents []value.MapEntry, sorted bool) value.Map {
	if imm {
		return value.ImmutableMap(ents, sorted)
	}
	return value.SortedMap(ents, sorted)
}

func emptyMapOf(imm bool, r *RNG) value.Map {
	switch {
	case r.Bool():
		return value.EmptyMap(imm)
	case imm:
		return value.EmptyImmutableMap()
	default:
		return value.EmptyMutableMap()
	}
}

func buildMap(m *MV, r *RNG, o BuildOpt) value.Value {
	imm := o.Immutable || r.Bool()
	nn := len(m.E)
	vals := make([]value.Value, nn)
	for i, e := range m.E {
		vals[i] = build(e.V, r, o)
	}
	direct := func() value.Map {
		ents := make([]value.MapEntry, nn)
		for i, e := range m.E {
			ents[i] = mkEntry(imm, e.K, vals[i])
		}
		return mapCtor(imm, ents, true)
	}
	if o.Plain || nn > 3000 {
		return direct()
	}
	dup, hole := m.anyDup(), m.anyNil()
	switch r.Intn(7) {
	case 0:
		return direct()
	case 1: // constructor sorts (duplicates would lose their order)
		if dup {
			return direct()
		}
		ents := make([]value.MapEntry, nn)
		for i, k := range r.Perm(nn) {
			ents[i] = mkEntry(imm, m.E[k].K, vals[k])
		}
		return mapCtor(imm, ents, false)
	case 2: // from a Go map
		if dup {
			return direct()
		}
		h := make(map[string]value.Value, nn)
		for i, e := range m.E {
			h[e.K] = vals[i]
		}
		if imm {
			return value.ImmutableMapOf(h)
		}
		return value.SortedMapOf(h)
	case 3: // puts in any order, with replaced values
		if dup || hole {
			return direct()
		}
		mp := emptyMapOf(imm, r)
		for _, k := range r.Perm(nn) {
			if !o.NoDetour && r.P(1, 4) {
				mp = mp.Put(m.E[k].K, value.Long(int64(k)))
			}
			mp = mp.Put(m.E[k].K, vals[k])
			if !o.NoDetour && r.P(1, 6) {
				_ = mp.Get(m.E[k].K)
				_ = mp.Keys()
			}
		}
		return mp
	case 4: // inserts: later duplicates go first
		if hole {
			return direct()
		}
		mp := emptyMapOf(imm, r)
		order := r.Perm(nn)
		// keep duplicates in descending position
		pos := map[string][]int{}
		for i := nn - 1; i >= 0; i-- {
			pos[m.E[i].K] = append(pos[m.E[i].K], i)
		}
		for _, k := range order {
			key := m.E[k].K
			i := pos[key][0]
			pos[key] = pos[key][1:]
			mp = mp.Insert(key, vals[i])
		}
		return mp
	case 5: // bulk inserts per key
		if hole {
			return direct()
		}
		mp := emptyMapOf(imm, r)
		groups := map[string][]value.Value{}
		var keys []string
		for i, e := range m.E {
			if _, ok := groups[e.K]; !ok {
				keys = append(keys, e.K)
			}
			groups[e.K] = append(groups[e.K], vals[i])
		}
		for _, i := range r.Perm(len(keys)) {
			if !o.NoDetour && r.P(1, 6) {
				mp = mp.InsertAll(keys[i], []value.Value{value.True, value.False}).DeleteAll(keys[i])
			}
			mp = mp.InsertAll(keys[i], groups[keys[i]])
		}
		return mp
	default: // detour: foreign keys added and removed; then copied
		if dup || hole || o.NoDetour {
			return direct()
		}
		mp := emptyMapOf(imm, r)
		extra := map[string]bool{}
		for _, k := range r.Perm(nn) {
			x := m.E[k].K + "~"
			if r.P(1, 3) && !hasKey(m, x) {
				mp = mp.Put(x, value.True)
				extra[x] = true
			}
			mp = mp.Put(m.E[k].K, vals[k])
		}
		xs := make([]string, 0, len(extra))
		for x := range extra {
			xs = append(xs, x)
		}
		sort.Strings(xs)
		for _, x := range xs {
			if r.Bool() {
				mp = mp.Remove(x)
			} else {
				mp = mp.DeleteAll(x)
			}
		}
		if r.Bool() {
			if o.Immutable || r.Bool() {
				return value.ImmutableMapCopyOf(mp)
			}
			return value.SortedMapCopyOf(mp)
		}
		return mp
	}
}

func hasKey(m *MV, k string) bool {
	for _, e := range m.E {
		if e.K == k {
			return true
		}
	}
	return false
}

func mkItem(mut bool, k int, v value.Value) value.ListItem {
	if mut {
		return value.MutableItem(k, v)
	}
	return value.ImmutableItem(k, v)
}

func buildSparse(m *MV, r *RNG, o BuildOpt) value.Value {
	nn := len(m.P)
	vals := make([]value.Value, nn)
	for i, e := range m.P {
		vals[i] = build(e.V, r, o)
	}
	direct := func() value.List {
		items := make([]value.ListItem, nn)
		for i, e := range m.P {
			items[i] = mkItem(r.Bool(), e.K, vals[i])
		}
		return value.SparseList(items, true)
	}
	if o.Plain || nn > 3000 {
		return direct()
	}
	dup, hole := m.anyDup(), m.anyNil()
	switch r.Intn(7) {
	case 0:
		return direct()
	case 1:
		if dup {
			return direct()
		}
		items := make([]value.ListItem, nn)
		for i, k := range r.Perm(nn) {
			items[i] = mkItem(r.Bool(), m.P[k].K, vals[k])
		}
		return value.SparseList(items, false)
	case 2:
		if dup || hole {
			return direct()
		}
		if m.P[0].K < 0 || m.P[nn-1].K > 2000 {
			return direct()
		}
		dense := make([]value.Value, m.P[nn-1].K+1)
		for i, e := range m.P {
			dense[e.K] = vals[i]
		}
		return value.SparseListOf(dense)
	case 3:
		if dup || hole {
			return direct()
		}
		l := value.EmptySparseList()
		for _, k := range r.Perm(nn) {
			if !o.NoDetour && r.P(1, 4) {
				l = l.PutAt(m.P[k].K, value.True)
			}
			l = l.PutAt(m.P[k].K, vals[k])
		}
		return l
	case 4:
		if hole {
			return direct()
		}
		l := value.EmptySparseList()
		pos := map[int][]int{}
		for i := nn - 1; i >= 0; i-- {
			pos[m.P[i].K] = append(pos[m.P[i].K], i)
		}
		for _, k := range r.Perm(nn) {
			key := m.P[k].K
			i := pos[key][0]
			pos[key] = pos[key][1:]
			l = l.InsertAt(key, vals[i])
		}
		return l
	case 5:
		if hole {
			return direct()
		}
		l := value.EmptySparseList()
		groups := map[int][]value.Value{}
		var keys []int
		for i, e := range m.P {
			if _, ok := groups[e.K]; !ok {
				keys = append(keys, e.K)
			}
			groups[e.K] = append(groups[e.K], vals[i])
		}
		for _, i := range r.Perm(len(keys)) {
			l = l.InsertAll(keys[i], groups[keys[i]])
		}
		return l
	default: // appends where keys are consecutive, detours elsewhere
		if dup || hole {
			return direct()
		}
		l := value.EmptySparseList()
		for i, e := range m.P {
			next := 0
			if i > 0 {
				next = m.P[i-1].K + 1
			}
			if e.K == next {
				l = l.Append(vals[i])
			} else {
				l = l.PutAt(e.K, vals[i])
			}
			if !o.NoDetour && r.P(1, 5) {
				l = l.InsertAt(e.K, value.True)
				l = l.RemoveAt(e.K)
			}
		}
		return l
	}
}

// ---------------------------------------------------------------- equality

func ratOf(m *MV) *big.Rat {
	switch m.K {
	case KLong:
		return new(big.Rat).SetInt64(m.I)
	case KBig:
		return new(big.Rat).SetInt(m.Big)
	case KDec:
		r := new(big.Rat).SetInt(m.Big)
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs32(m.Exp))), nil)
		if m.Exp >= 0 {
			return r.Mul(r, new(big.Rat).SetInt(p))
		}
		return r.Quo(r, new(big.Rat).SetInt(p))
	}
	panic("ratOf")
}

func abs32(e int32) int32 {
	if e < 0 {
		return -e
	}
	return e
}

func isNum(m *MV) bool { return m.K == KLong || m.K == KDouble || m.K == KBig || m.K == KDec }

// normNum gives coefficient (without trailing decimal zeros) and exponent of
// an exact number; decimals with any exponent stay small that way.
func normNum(m *MV) (*big.Int, int64) {
	var z *big.Int
	e := int64(0)
	switch m.K {
	case KLong:
		z = big.NewInt(m.I)
	case KBig:
		z = m.Big
	default:
		z, e = m.Big, int64(m.Exp)
	}
	if z.Sign() == 0 {
		return z, 0
	}
	if t := z.String(); t[len(t)-1] == '0' {
		k := len(t) - len(strings.TrimRight(t, "0"))
		z, _ = new(big.Int).SetString(t[:len(t)-k], 10)
		e += int64(k)
	}
	return z, e
}

// decFar tells that a decimal is too far from one to be expanded: +1 beyond
// any double, -1 below any double, 0 otherwise.
func decFar(m *MV) int {
	if m.K != KDec {
		return 0
	}
	z, e := normNum(m)
	k := e + int64(len(new(big.Int).Abs(z).String()))
	switch {
	case z.Sign() == 0 || k > -2000 && k < 2000:
		return 0
	case k > 0:
		return 1
	}
	return -1
}

func toDouble(m *MV) float64 {
	if m.K == KDouble {
		return m.Double()
	}
	if m.K == KDec {
		switch decFar(m) {
		case 1:
			return math.Inf(m.Big.Sign())
		case -1:
			return 0
		}
		if m.Big.Sign() == 0 {
			return 0
		}
	}
	f, _ := ratOf(m).Float64()
	return f
}

// mEqual is the stated equality. unsure is set when two doubles are so close to
// the precision limit that rounding decides.
func mEqual(a, b *MV, unsure *bool) bool {
	if a.K == KNil {
		a = mNull
	}
	if b.K == KNil {
		b = mNull
	}
	if isNum(a) && isNum(b) {
		if a.K == KDouble || b.K == KDouble {
			x, y := toDouble(a), toDouble(b)
			if x != x || y != y {
				return false
			}
			if x == y {
				return true
			}
			d := math.Abs(x - y)
			if math.Abs(d-refPrecision) < 1e-5*refPrecision {
				*unsure = true
			}
			return d < refPrecision
		}
		x, i := normNum(a)
		y, j := normNum(b)
		return i == j && x.Cmp(y) == 0
	}
	if (a.K == KStr || a.K == KRaw) && (b.K == KStr || b.K == KRaw) {
		return a.S == b.S
	}
	if (a.K == KList || a.K == KSparse) && (b.K == KList || b.K == KSparse) {
		x, y := itemsOf(a), itemsOf(b)
		if len(x) != len(y) {
			return false
		}
		eq := true
		for i := range x {
			if x[i].K != y[i].K || !mEqual(x[i].V, y[i].V, unsure) {
				eq = false
			}
		}
		return eq
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KNull:
		return true
	case KBool:
		return a.B == b.B
	case KExt:
		return a.S == b.S
	case KMap:
		if len(a.E) != len(b.E) {
			return false
		}
		eq := true
		for i := range a.E {
			if a.E[i].K != b.E[i].K || !mEqual(a.E[i].V, b.E[i].V, unsure) {
				eq = false
			}
		}
		return eq
	}
	return false
}

func itemsOf(m *MV) []MItem {
	if m.K == KSparse {
		return m.P
	}
	r := make([]MItem, len(m.L))
	for i, e := range m.L {
		r[i] = MItem{i, e}
	}
	return r
}
