package main

import (
	"bytes"
	"crypto"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ------------------------------------------------------------------ C01

// sysScalars enumerates the scalar boundary cases.
var sysScalars = func() []*MV {
	var out []*MV
	out = append(out, mNull, mBool(true), mBool(false))
	seen := map[int64]bool{}
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, mLong(v))
		}
	}
	for v := int64(-300); v <= 300; v++ {
		add(v)
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(int64(uint64(1)<<k) + d)
			add(-int64(uint64(1)<<k) + d)
		}
	}
	add(math.MaxInt64)
	add(math.MinInt64)
	for _, f := range doubleSpecials {
		out = append(out, mDouble(f), mDouble(-f))
	}
	out = append(out, &MV{K: KDouble, F: 0x7ff8000000000001}, &MV{K: KDouble, F: 0xfff8000000000123}, &MV{K: KDouble, F: 0x7ff4000000000001})
	for k := uint(0); k <= 136; k++ {
		for d := int64(-1); d <= 1; d++ {
			b := new(big.Int).Lsh(big.NewInt(1), k)
			b.Add(b, big.NewInt(d))
			out = append(out, mBig(b), mBig(new(big.Int).Neg(b)))
		}
	}
	for _, e := range []int32{0, 1, -1, 2, -2, 10, -10, 127, 128, -127, -128, -129, 255, 256, 32767, -32768, 65535, 65536, 1 << 24, -(1 << 24), math.MaxInt32, math.MinInt32, math.MinInt32 + 1} {
		for _, cf := range []string{"0", "1", "-1", "255", "256", "-257", "123456789012345678901234567890", "-99999999999999999999"} {
			b, _ := new(big.Int).SetString(cf, 10)
			out = append(out, mDec(b, e))
		}
	}
	for _, s := range strSpecials {
		out = append(out, mStr(s), mRaw(s))
	}
	for l := 0; l <= 300; l++ {
		out = append(out, mStr(strings.Repeat("x", l)), mRaw(strings.Repeat("\x80", l)), mExt(7, strings.Repeat("z", l)))
	}
	for t := 0; t < 256; t++ {
		if t != 1 && t != 2 {
			out = append(out, mExt(byte(t), "ab"), mExt(byte(t), "abc"), mExt(byte(t), ""))
		}
	}
	return out
}()

var bigSizes = []int{14, 15, 16, 17, 31, 32, 33, 255, 256, 257, 1000, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000}

type sizeCase struct {
	kind string
	n    int
}

var sizeCases = func() []sizeCase {
	var out []sizeCase
	for _, k := range []string{"str", "raw", "ext", "big", "list-i", "list-m", "map-i", "map-m", "sparse", "dup-map", "dup-sparse"} {
		for _, s := range bigSizes {
			out = append(out, sizeCase{k, s})
		}
	}
	for _, k := range []string{"str", "raw", "ext"} {
		for _, s := range []int{131071, 131072, 1 << 20, 1<<20 + 1} {
			out = append(out, sizeCase{k, s})
		}
	}
	return out
}()

// sizeModel makes the content of a size case.
func sizeModel(r *RNG, sc sizeCase) *MV {
	switch sc.kind {
	case "str":
		return mStr(strings.Repeat("s", sc.n-1) + "é"[:1])
	case "raw":
		return mRaw(string(r.Bytes(sc.n)))
	case "ext":
		return mExt(9, string(r.Bytes(sc.n)))
	case "big":
		b := r.Bytes(sc.n)
		if len(b) > 0 {
			b[0] |= 1
		}
		return mBig(new(big.Int).SetBytes(b))
	case "list-i", "list-m":
		m := &MV{K: KList}
		for i := 0; i < sc.n; i++ {
			switch i % 5 {
			case 0:
				m.L = append(m.L, mStr("e"+strconv.Itoa(i)))
			case 1:
				m.L = append(m.L, mDouble(float64(i)/4))
			default:
				m.L = append(m.L, mLong(int64(i)*7-1000))
			}
		}
		return m
	case "map-i", "map-m":
		m := &MV{K: KMap}
		for i := 0; i < sc.n; i++ {
			m.E = append(m.E, MEnt{fmt.Sprintf("k%07d", i), mLong(int64(i))})
		}
		return m
	case "dup-map":
		m := &MV{K: KMap}
		for i := 0; i < sc.n; i++ {
			m.E = append(m.E, MEnt{fmt.Sprintf("k%05d", i/20), mLong(int64(i))})
		}
		return m
	case "sparse":
		m := &MV{K: KSparse}
		for i := 0; i < sc.n; i++ {
			m.P = append(m.P, MItem{i*3 - 50, mLong(int64(i))})
		}
		return m
	case "dup-sparse":
		m := &MV{K: KSparse}
		for i := 0; i < sc.n; i++ {
			m.P = append(m.P, MItem{i/20 - 5, mLong(int64(i))})
		}
		return m
	}
	panic("sizeModel")
}

func sizeBuild(c *Case, sc sizeCase) (value.Value, *MV) {
	m := sizeModel(c.RNG, sc)
	if sc.n > 3000 || sc.kind == "str" || sc.kind == "raw" || sc.kind == "ext" || sc.kind == "big" {
		return mk(c, m, BuildOpt{Plain: true, Immutable: strings.HasSuffix(sc.kind, "-i")})
	}
	return mk(c, m, BuildOpt{Immutable: strings.HasSuffix(sc.kind, "-i")})
}

func roundTrip(c *Case, v value.Value, m *MV) {
	want := m.wire()
	b := mustPack(c, v)
	c.Count("bytes", int64(len(b)))
	for _, copyFlag := range []bool{false, true} {
		u, err := value.Unpack(b, copyFlag)
		c.Check(err == nil, "Unpack(copy=%v) of the packed form fails: %v\n  value %v\n  bytes %s", copyFlag, err, m, hexShort(b))
		c.same(project(u), want, "Unpack(copy=%v)", copyFlag)
		if !m.hasNaN() {
			if v != nil {
				c.Check(value.Equal(v, u) && v.Equal(u), "original is not Equal to the unpacked value\n  value %v", m)
			}
			c.Check(value.Equal(u, v) && u.Equal(v), "unpacked value is not Equal to the original\n  value %v", m)
		}
	}
	// consumes exactly the bytes produced
	tail := append(append([]byte{}, b...), 0xc3)
	up := value.MessageUnpacker(tail, true)
	ps := value.MessageParser()
	u, err := value.Parse(up, ps)
	c.Check(err == nil, "Parse with bytes following: %v", err)
	c.same(project(u), want, "Parse with bytes following")
	u, err = value.Parse(up, ps)
	c.Check(err == nil && u == value.Value(value.True), "what follows the packed form is not where it should be: %v, %v", u, err)
	_, err = value.Parse(up, ps)
	c.Check(err == io.EOF, "decoder does not stand at the end: %v", err)
	rd := bytes.NewReader(tail)
	u, err = value.Read(rd)
	c.Check(err == nil, "Read: %v\n  value %v", err, m)
	c.same(project(u), want, "Read")
	c.Check(rd.Len() == 1, "Read consumed %d bytes of an object of %d", len(tail)-rd.Len(), len(b))
	c.Count("roundtrips", 1)
	c.DistinctB(b)
}

func chain(depth int, kind int, r *RNG) *MV {
	m := mLong(7)
	for i := 0; i < depth; i++ {
		k := kind
		if k == 3 {
			k = r.Intn(3)
		}
		switch k {
		case 0:
			m = mList(m)
		case 1:
			m = &MV{K: KMap, E: []MEnt{{"k", m}}}
		default:
			m = &MV{K: KSparse, P: []MItem{{i % 5, m}}}
		}
	}
	return m
}

func init() {
	register(&Prop{
		ID:    "C01",
		Rule:  "a case is a value (systematic boundary scalars, systematic container and string sizes, nesting chains, random trees built by random construction paths) that is packed and decoded back; distinct = different packed bytes",
		Needs: []string{"roundtrips"},
		Sections: []Section{
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				m := sysScalars[c.Index]
				v, m := mk(c, m, BuildOpt{})
				c.Sample("%v", m)
				roundTrip(c, v, m)
			}},
			{Name: "sizes", N: n(len(sizeCases), len(sizeCases)), Run: func(c *Case) {
				sc := sizeCases[c.Index]
				c.Note("%s of size %d", sc.kind, sc.n)
				v, m := sizeBuild(c, sc)
				roundTrip(c, v, m)
			}},
			{Name: "nesting", N: n(60, 300), Run: func(c *Case) {
				m := chain([]int{1, 2, 10, 100, 1000, 3000}[c.Index%6], c.Index/6%4, c.RNG)
				v, m := mk(c, m, BuildOpt{Plain: true})
				roundTrip(c, v, m)
			}},
			{Name: "trees", N: n(60000, 1500000), Run: func(c *Case) {
				o := GenOpt{Depth: 1 + c.Intn(5), Budget: 5 + c.Intn(80)}
				v, m := mk(c, gen(c.RNG, o), BuildOpt{})
				c.Note("value %v", m)
				c.Sample("%v", m)
				roundTrip(c, v, m)
			}},
			{Name: "nil", N: n(1, 1), Run: func(c *Case) {
				b := mustPack(c, nil)
				c.sameBytes(b, []byte{0xc0}, "Pack(nil)")
				u, err := value.Unpack(b, true)
				c.Check(err == nil && u != nil && u.Kind() == value.NULL, "nil comes back as %v, %v", u, err)
				c.Check(value.Equal(nil, u) && value.Equal(u, nil), "nil and null are not Equal")
				roundTrip(c, nil, mNil)
			}},
			{Name: "empty-sparse", N: n(3, 3), Run: func(c *Case) {
				var l value.List
				switch c.Index {
				case 0:
					l = value.EmptySparseList()
				case 1:
					l = value.EmptySparseList().Append(value.True).RemoveAt(0)
				default:
					l = value.SparseListOf(nil)
				}
				b := mustPack(c, l)
				c.sameBytes(b, []byte{0x80}, "empty sparse list")
				u, err := value.Unpack(b, true)
				c.Check(err == nil, "Unpack: %v", err)
				if u.Kind() != value.LIST {
					c.Known("empty-sparse-list", "an empty sparse list packs as the empty map 0x80 and comes back as an empty map")
				}
			}},
		},
	})
}

// ------------------------------------------------------------------ C02

var headerSizes = func() []int {
	out := []int{}
	for i := 0; i <= 300; i++ {
		out = append(out, i)
	}
	for _, k := range []int{511, 512, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		out = append(out, k)
	}
	return out
}()

func packOps(f func(p value.Packer)) ([]byte, error) {
	var buf bytes.Buffer
	p := value.MessagePacker(&buf)
	f(p)
	return buf.Bytes(), p.Error()
}

func conform(c *Case, v value.Value, m *MV) {
	b := mustPack(c, v)
	nd, err := refDecode(b, 0, 0)
	c.Check(err == nil, "the packed form is not well-formed MessagePack: %v\n  value %v\n  bytes %s", err, m, hexShort(b))
	c.Check(nd.End == len(b), "the packed form holds %d bytes but its object ends at %d\n  value %v", len(b), nd.End, m)
	var un bool
	got, err := denote(nd, &un)
	c.Check(err == nil, "the reference decoder rejects the packed form: %v", err)
	c.Check(!un, "packed keys are not in ascending order\n  value %v\n  bytes %s", m, hexShort(b))
	if !(m.K == KSparse && len(m.P) == 0) {
		c.same(got, m.wire(), "independent decoding of the packed form")
	}
	c.sameBytes(b, refEncode(m), "not the smallest conformant encoding of %v", m)
	c.Count("conform", 1)
	c.DistinctB(b)
}

func init() {
	register(&Prop{
		ID:    "C02",
		Rule:  "a case is a value or a packer call whose bytes are decoded by an independent decoder and compared with an independent canonical encoder; distinct = different bytes",
		Needs: []string{"conform", "headers"},
		Sections: []Section{
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				v, m := mk(c, sysScalars[c.Index], BuildOpt{})
				conform(c, v, m)
			}},
			{Name: "sizes", N: n(len(sizeCases), len(sizeCases)), Run: func(c *Case) {
				v, m := sizeBuild(c, sizeCases[c.Index])
				conform(c, v, m)
			}},
			{Name: "headers", N: n(len(headerSizes), len(headerSizes)), Run: func(c *Case) {
				k := headerSizes[c.Index]
				b, err := packOps(func(p value.Packer) { p.PackList(k) })
				c.Check(err == nil, "PackList(%d): %v", k, err)
				c.sameBytes(b, encHeader(nil, k, 15, 0x90, 0, 0xdc, 0xdd, nil), "PackList(%d)", k)
				b, err = packOps(func(p value.Packer) { p.PackMap(k) })
				c.Check(err == nil, "PackMap(%d): %v", k, err)
				c.sameBytes(b, encHeader(nil, k, 15, 0x80, 0, 0xde, 0xdf, nil), "PackMap(%d)", k)
				if k <= 1<<24 {
					s := strings.Repeat("q", k)
					b, _ = packOps(func(p value.Packer) { p.PackStr(s) })
					c.sameBytes(b, encStr(nil, s, nil), "PackStr of %d bytes", k)
					b, _ = packOps(func(p value.Packer) { p.PackBin([]byte(s)) })
					c.sameBytes(b, append(encHeader(nil, k, -1, 0, 0xc4, 0xc5, 0xc6, nil), s...), "PackBin of %d bytes", k)
					b, _ = packOps(func(p value.Packer) { p.PackExt(value.Ext(0x55), []byte(s)) })
					c.sameBytes(b, encExt(nil, 0x55, []byte(s), nil), "PackExt of %d bytes", k)
				}
				c.Count("headers", 5)
				c.Distinct(uint64(k))
			}},
			{Name: "longs", N: n(3000, 40000), Run: func(c *Case) {
				for i := 0; i < 40; i++ {
					v := genLong(c.RNG)
					b, _ := packOps(func(p value.Packer) { p.PackLong(v) })
					c.sameBytes(b, encInt(nil, v, nil), "PackLong(%d)", v)
					c.DistinctB(b)
				}
			}},
			{Name: "trees", N: n(60000, 1500000), Run: func(c *Case) {
				o := GenOpt{Depth: 1 + c.Intn(5), Budget: 5 + c.Intn(80)}
				v, m := mk(c, gen(c.RNG, o), BuildOpt{})
				c.Sample("%v", m)
				conform(c, v, m)
			}},
		},
	})
}

// ------------------------------------------------------------------ C03

// foreign encodes m in a random non-canonical but well-formed way; mixed maps
// and duplicate keys are added by the generator below.
func foreignStyle(r *RNG) *Style {
	return &Style{r: r, wide: r.Intn(5), shuffle: r.Bool(), f32: r.Bool()}
}

// genForeign makes a document together with what it denotes.
func genForeign(r *RNG) ([]byte, *MV, bool) {
	for {
		o := GenOpt{Depth: 1 + r.Intn(4), Budget: 5 + r.Intn(60), NoHoles: true}
		m := gen(r, o)
		st := foreignStyle(r)
		b := refEncForeign(nil, m, st, true)
		nd, err := refDecode(b, 0, 0)
		if err != nil || nd.End != len(b) {
			panic(fmt.Sprintf("harness: foreign document is malformed: %v %x", err, b))
		}
		un := false
		d, err := denote(nd, &un)
		if err != nil {
			panic(fmt.Sprintf("harness: foreign document is not denotable: %v", err))
		}
		return b, d, un
	}
}

// refEncForeign is refEnc with mixed-key maps, uint64 beyond int64 and
// non-canonical extension bodies thrown in.
func refEncForeign(b []byte, m *MV, st *Style, top bool) []byte {
	r := st.r
	switch m.K {
	case KBig:
		if m.Big.Sign() > 0 && m.Big.BitLen() == 64 && r.Bool() {
			return be64(append(b, 0xcf), m.Big.Uint64())
		}
		g := gobInt(m.Big)
		if m.Big.Sign() == 0 && r.Bool() {
			g[0] |= 1 // a zero with a sign
		}
		return encExt(b, 1, g, st)
	case KDec:
		d := decBody(m.Big, m.Exp)
		if m.Big.Sign() == 0 && r.Bool() {
			d[4] |= 1
		}
		return encExt(b, 2, d, st)
	case KLong:
		if r.P(1, 12) {
			return be64(append(b, 0xcf), uint64(m.I)|1<<63) // denotes a large positive number
		}
		return encInt(b, m.I, st)
	case KList:
		b = encHeader(b, len(m.L), 15, 0x90, 0, 0xdc, 0xdd, st)
		for _, e := range m.L {
			b = refEncForeign(b, e, st, false)
		}
		return b
	case KMap, KSparse:
		type kv struct {
			key []byte
			v   *MV
		}
		var kvs []kv
		for _, e := range m.E {
			if r.P(1, 25) {
				kvs = append(kvs, kv{encInt(nil, int64(genSparseKey(r, &GenOpt{})), st), mLong(1)})
			}
			if r.P(1, 25) {
				kvs = append(kvs, kv{foreignKey(r, st), mLong(2)})
			}
			kvs = append(kvs, kv{encStr(nil, e.K, st), e.V})
		}
		for _, e := range m.P {
			if r.P(1, 40) {
				kvs = append(kvs, kv{encStr(nil, genKey(r), st), mStr("v")})
			}
			kvs = append(kvs, kv{encInt(nil, int64(e.K), st), e.V})
		}
		if r.P(1, 30) && len(kvs) > 0 {
			kvs = append(kvs, kv{encInt(nil, int64(r.Intn(20)), st), mTrueMV})
		}
		if r.P(1, 30) && len(kvs) > 0 {
			kvs = append(kvs, kv{foreignKey(r, st), mLong(3)})
		}
		if st.shuffle && r.Bool() {
			p := r.Perm(len(kvs))
			q := make([]kv, len(kvs))
			for i := range p {
				q[i] = kvs[p[i]]
			}
			kvs = q
		}
		b = encHeader(b, len(kvs), 15, 0x80, 0, 0xde, 0xdf, st)
		for _, e := range kvs {
			b = append(b, e.key...)
			b = refEncForeign(b, e.v, st, false)
		}
		return b
	}
	return refEnc(b, m, st)
}

// foreignKey is a key of any kind.
func foreignKey(r *RNG, st *Style) []byte {
	switch r.Intn(8) {
	case 0:
		return refEnc(nil, mDouble(genDouble(r, true)), st)
	case 1:
		return refEnc(nil, mDouble(float64(r.Intn(9))), st)
	case 2:
		return be64([]byte{0xcf}, r.U64()|1<<63)
	case 3:
		return refEncode(mBig(genBig(r, true)))
	case 4:
		return refEncode(mDec(genBig(r, true), int32(r.Intn(40)-20)))
	case 5:
		b := refEncode(gen(r, GenOpt{Depth: 2, Budget: 5, NoHoles: true, NoWide: true, NoHuge: true, MaxStr: 12}).wire())
		if r.P(1, 4) { // a key inside of a key
			b = append(append([]byte{0x81}, b...), 0x05)
		}
		return b
	}
	return refEncode(genScalar(r, &GenOpt{MaxStr: 12, NoHuge: true}).wire())
}

func init() {
	keyText = func(m *MV) string {
		if m.K == KList || m.K == KMap || m.K == KSparse {
			v, err := value.Unpack(refEncode(m), true)
			if err != nil {
				panic(failure{"the key " + m.String() + " does not decode alone: " + err.Error()})
			}
			return v.String()
		}
		return build(m, NewRNG(1), BuildOpt{Plain: true}).String()
	}
}

var mTrueMV = mBool(true)

func checkDecoded(c *Case, u value.Value, want *MV, un bool, what string) {
	got := project(u)
	if un {
		got, want = mnorm(got), mnorm(want)
	}
	c.same(got, want, "%s", what)
}

// sameThing compares by content unless both are one object.
func sameThing(c *Case, got, want value.Value, what string, args ...interface{}) {
	if got != nil && want != nil && itself(got, want) {
		c.evals++
		return
	}
	c.same(project(got), project(want), what, args...)
}

// checkLookups verifies that lookups on a decoded container follow its order.
func checkLookups(c *Case, u value.Value) {
	switch x := u.(type) {
	case value.Map:
		ents := x.Entries()
		c.Check(x.Len() == len(ents), "map Len %d but %d entries", x.Len(), len(ents))
		keys := x.Keys()
		c.Check(len(keys) == len(ents), "map has %d keys for %d entries", len(keys), len(ents))
		first := 0
		for i, e := range ents {
			if i > 0 && e.Key() < ents[i-1].Key() {
				c.Failf("entries are not sorted: %q before %q", ents[i-1].Key(), e.Key())
			}
			if keys[i] != e.Key() {
				c.Failf("key %d is %q but the entry's is %q", i, keys[i], e.Key())
			}
			if i > 0 && ents[i-1].Key() != e.Key() {
				first = i
			}
			if len(ents) < 400 || i%97 == 0 {
				sameThing(c, x.Get(e.Key()), ents[first].Value(), "Get(%q) after decoding", e.Key())
			}
			if len(ents) < 400 {
				checkLookups(c, e.Value())
			}
		}
		c.Count("lookups", int64(len(ents)))
	case value.List:
		if x.Class() == sparseClass {
			items := x.Items()
			max, first := -1, 0
			for i, e := range items {
				if i > 0 && e.Key() < items[i-1].Key() {
					c.Failf("items are not sorted: %d before %d", items[i-1].Key(), e.Key())
				}
				if e.Key() > max {
					max = e.Key()
				}
				if i > 0 && items[i-1].Key() != e.Key() {
					first = i
				}
				if len(items) < 400 || i%97 == 0 {
					sameThing(c, x.GetAt(e.Key()), items[first].Value(), "GetAt(%d) after decoding", e.Key())
				}
				if len(items) < 400 {
					checkLookups(c, e.Value())
				}
			}
			c.Check(x.Len() == max+1, "sparse Len %d with largest key %d", x.Len(), max)
			c.Count("lookups", int64(len(items)))
			return
		}
		vals := x.Values()
		c.Check(x.Len() == len(vals), "list Len %d but %d values", x.Len(), len(vals))
		for i, e := range vals {
			if i < 200 {
				sameThing(c, x.GetAt(i), e, "GetAt(%d) after decoding", i)
				checkLookups(c, e)
			}
		}
	}
}

func decodeAllWays(c *Case, b []byte, want *MV, un bool) {
	for _, cp := range []bool{false, true} {
		u, err := value.Unpack(b, cp)
		c.Check(err == nil, "Unpack(copy=%v) of a well-formed object fails: %v\n  bytes %s\n  denotes %v", cp, err, hexShort(b), want)
		checkDecoded(c, u, want, un, "Unpack")
		if !cp {
			checkLookups(c, u)
		}
	}
	next := encStr(nil, "next", nil)
	tail := append(append([]byte{}, b...), next...)
	up, ps := value.MessageUnpacker(tail, true), value.MessageParser()
	u, err := value.Parse(up, ps)
	c.Check(err == nil, "Parse: %v", err)
	checkDecoded(c, u, want, un, "Parse")
	u, err = value.Parse(up, ps)
	c.Check(err == nil && project(u).S == "next", "the object after it decodes as %v, %v", u, err)
	rd := bytes.NewReader(tail)
	u, err = value.Read(rd)
	c.Check(err == nil, "Read of a well-formed object fails: %v\n  bytes %s", err, hexShort(b))
	checkDecoded(c, u, want, un, "Read")
	u, err = value.Read(rd)
	c.Check(err == nil && project(u).S == "next", "the object after it reads as %v, %v", u, err)
	// a reader that keeps its scratch buffer across objects
	ior := value.MessageReader(bytes.NewReader(tail))
	u, err = value.Parse(ior, ps)
	c.Check(err == nil, "Parse on a reader: %v", err)
	w, err := value.Parse(ior, ps)
	c.Check(err == nil && project(w).S == "next", "the object after it parses as %v, %v", w, err)
	checkDecoded(c, u, want, un, "Parse on a reader, after the next object was read")
	c.Count("decoded", 1)
	c.DistinctB(b)
}

type sysDoc struct{ b []byte }

// sysDocs: every format byte with boundary payloads.
var sysDocs = func() [][]byte {
	var out [][]byte
	add := func(b ...byte) { out = append(out, append([]byte{}, b...)) }
	rep := func(k int, b byte) []byte { return bytes.Repeat([]byte{b}, k) }
	for cde := 0; cde < 256; cde++ {
		ch := byte(cde)
		switch {
		case ch <= 0x7f || ch >= 0xe0:
			add(ch)
		case ch <= 0x8f: // string-keyed and int-keyed
			k := int(ch & 15)
			b, d := []byte{ch}, []byte{ch}
			for i := 0; i < k; i++ {
				b = append(b, 0xa1, byte('a'+i), byte(i))
				d = append(d, byte(i*2), byte(i))
			}
			add(b...)
			add(d...)
		case ch <= 0x9f:
			add(append([]byte{ch}, rep(int(ch&15), 0xc0)...)...)
		case ch <= 0xbf:
			add(append([]byte{ch}, rep(int(ch&31), 'u')...)...)
		}
	}
	add(0xc0)
	add(0xc2)
	add(0xc3)
	for _, k := range []int{0, 1, 2, 15, 16, 31, 32, 255} {
		for _, c8 := range []byte{0xc4, 0xd9} {
			add(append([]byte{c8, byte(k)}, rep(k, 'b')...)...)
			add(append(be16([]byte{c8 + 1}, uint64(k)), rep(k, 'b')...)...)
			add(append(be32([]byte{c8 + 2}, uint64(k)), rep(k, 'b')...)...)
		}
		for _, tag := range []byte{0, 3, 127, 128, 255} {
			add(append([]byte{0xc7, byte(k), tag}, rep(k, 'e')...)...)
			add(append(append(be16([]byte{0xc8}, uint64(k)), tag), rep(k, 'e')...)...)
			add(append(append(be32([]byte{0xc9}, uint64(k)), tag), rep(k, 'e')...)...)
		}
		arr := rep(k, 0x05)
		add(append(be16([]byte{0xdc}, uint64(k)), arr...)...)
		add(append(be32([]byte{0xdd}, uint64(k)), arr...)...)
		var mp, sp []byte
		for i := 0; i < k; i++ {
			mp = append(mp, 0xa2, byte('a'+i/26), byte('a'+i%26), byte(i&127))
			sp = be16(append(sp, 0xcd), uint64(i))
			sp = append(sp, byte(i&127))
		}
		add(append(be16([]byte{0xde}, uint64(k)), mp...)...)
		add(append(be32([]byte{0xdf}, uint64(k)), mp...)...)
		add(append(be16([]byte{0xde}, uint64(k)), sp...)...)
		add(append(be32([]byte{0xdf}, uint64(k)), sp...)...)
	}
	for i, k := range []int{1, 2, 4, 8, 16} {
		for _, tag := range []byte{0, 3, 64, 127, 128, 255} {
			add(append([]byte{0xd4 + byte(i), tag}, rep(k, 'f')...)...)
		}
	}
	// integers: every width with boundary payloads
	for w := 0; w < 4; w++ {
		nb := 1 << w
		for _, p := range []byte{0x00, 0x01, 0x1f, 0x20, 0x7f, 0x80, 0x81, 0xdf, 0xe0, 0xfe, 0xff} {
			for _, fill := range []byte{0x00, 0xff, 0x5a} {
				body := rep(nb, fill)
				body[0] = p
				add(append([]byte{0xcc + byte(w)}, body...)...)
				add(append([]byte{0xd0 + byte(w)}, body...)...)
			}
		}
	}
	for _, f := range doubleSpecials {
		add(be64([]byte{0xcb}, math.Float64bits(f))...)
		if f == f {
			add(be32([]byte{0xca}, uint64(math.Float32bits(float32(f))))...)
		}
	}
	// extension bodies of the two known types in every header form
	for _, x := range []int64{0, 1, -1, 255, 256, -65536, math.MaxInt64, math.MinInt64} {
		g := gobInt(big.NewInt(x))
		d := decBody(big.NewInt(x), -3)
		for tag, body := range map[byte][]byte{1: g, 2: d} {
			add(append([]byte{0xc7, byte(len(body)), tag}, body...)...)
			add(append(append(be16([]byte{0xc8}, uint64(len(body))), tag), body...)...)
			add(append(append(be32([]byte{0xc9}, uint64(len(body))), tag), body...)...)
			if bits.OnesCount(uint(len(body))) == 1 && len(body) <= 16 {
				add(append([]byte{0xd4 + byte(bits.TrailingZeros(uint(len(body)))), tag}, body...)...)
			}
		}
	}
	// maps: string keys then int keys, int keys then string keys, duplicates
	add(0x82, 0x05, 0x01, 0xa1, 'a', 0x02)
	add(0x82, 0xa1, 'a', 0x02, 0x05, 0x01)
	add(0x83, 0x09, 0x01, 0x0a, 0x02, 0xa1, '1', 0x03)
	add(0x83, 0x05, 0x01, 0x05, 0x02, 0x05, 0x03)
	add(0x83, 0xa1, 'b', 0x01, 0xa1, 'b', 0x02, 0xa1, 'a', 0x03)
	add(0x83, 0x03, 0x01, 0x02, 0x02, 0x01, 0x03)
	add(0x83, 0xff, 0x01, 0xd0, 0x80, 0x02, 0x00, 0x03)
	// huge integer keys
	add(append(append([]byte{0x82, 0xd3}, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe), 0x01, 0xd3, 0x80, 0, 0, 0, 0, 0, 0, 0, 0x02)...)
	return out
}()

func denoteDoc(b []byte) (*MV, bool) {
	nd, err := refDecode(b, 0, 0)
	if err != nil || nd.End != len(b) {
		panic(fmt.Sprintf("harness: systematic document is malformed: %v %x", err, b))
	}
	un := false
	m, err := denote(nd, &un)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return m, un
}

func init() {
	register(&Prop{
		ID:    "C03",
		Rule:  "a case is a well-formed MessagePack object from an independent non-canonical encoder (every format byte systematically, then random documents), decoded every way and compared with its denotation; distinct = different bytes",
		Needs: []string{"decoded", "lookups"},
		Sections: []Section{
			{Name: "formats", N: n(len(sysDocs), len(sysDocs)), Run: func(c *Case) {
				b := sysDocs[c.Index]
				c.Note("document %s", hexShort(b))
				m, un := denoteDoc(b)
				decodeAllWays(c, b, m, un)
			}},
			{Name: "large", N: n(60, 200), Run: func(c *Case) {
				sc := sizeCases[c.Intn(len(sizeCases))]
				m := sizeModel(c.RNG, sc)
				st := &Style{r: c.RNG, wide: 2, shuffle: true, f32: true}
				b := refEnc(nil, m, st)
				c.Note("%s of size %d", sc.kind, sc.n)
				m, un := denoteDoc(b)
				decodeAllWays(c, b, m, un)
			}},
			{Name: "documents", N: n(60000, 1500000), Run: func(c *Case) {
				b, m, un := genForeign(c.RNG)
				c.Note("document %s\n  denotes %v", hexShort(b), m)
				c.Sample("%s = %v", hexShort(b), m)
				decodeAllWays(c, b, m, un)
			}},
			{Name: "sequences", N: n(4000, 60000), Run: func(c *Case) {
				var all []byte
				var want []*MV
				var uns []bool
				for i, k := 0, 1+c.Intn(12); i < k; i++ {
					b, m, un := genForeign(c.RNG)
					all = append(all, b...)
					want, uns = append(want, m), append(uns, un)
				}
				for way := 0; way < 3; way++ {
					var up value.Unpacker
					switch way {
					case 0:
						up = value.MessageUnpacker(all, c.Bool())
					case 1:
						up = value.MessageReader(bytes.NewReader(all))
					default:
						up = value.MessageReader(bytes.NewBuffer(append([]byte{}, all...)))
					}
					ps := value.MessageParser()
					var got []value.Value
					for i := range want {
						u, err := value.Parse(up, ps)
						c.Check(err == nil, "object %d of %d fails: %v (way %d)\n  denotes %v", i, len(want), err, way, want[i])
						got = append(got, u)
					}
					_, err := value.Parse(up, ps)
					c.Check(err == io.EOF, "after the last object: %v", err)
					for i := range want {
						checkDecoded(c, got[i], want[i], uns[i], fmt.Sprintf("object %d of a sequence (way %d)", i, way))
					}
				}
				c.Count("decoded", int64(len(want)))
			}},
		},
	})
}

// ------------------------------------------------------------------ C04

func touch(c *Case, v value.Value) {
	if v == nil {
		return
	}
	try(func() { touch1(c, v) }) // whether reads panic is for other properties
}

func touch1(c *Case, v value.Value) {
	switch c.Intn(6) {
	case 0:
		_ = value.Jsonify(v)
	case 1:
		_ = v.String()
	case 2:
		_, _ = value.Pack(v)
	case 3:
		_ = v.Equal(v)
	case 4:
		_, _, _ = value.Hash(v, crypto.SHA256)
	default:
		switch x := v.(type) {
		case value.Map:
			_ = x.HashMap()
			_ = x.Values()
			_ = x.GetString("a")
			_ = x.GetMap("k")
		case value.List:
			_ = x.Items()
			_ = x.GetStringAt(0)
			_ = x.GetListAt(1)
			_ = x.Entries()
		case value.Number:
			_ = x.BigInt()
			_ = x.Add(value.Long(3))
		}
	}
}

func init() {
	hashes := []crypto.Hash{crypto.SHA256, crypto.SHA1, crypto.SHA512}
	register(&Prop{
		ID:    "C04",
		Rule:  "a case is one content built by several random construction histories (orders, replacements, removals, bulk operations, immutable and mutable families, Go map iteration), with reads in between, or one decodable document re-packed; distinct = different packed bytes",
		Needs: []string{"histories", "fixpoints"},
		Sections: []Section{
			{Name: "histories", N: n(20000, 500000), Run: func(c *Case) {
				var m *MV
				if c.P(1, 4) {
					m = gen(c.RNG, GenOpt{Depth: 3, Budget: 40})
				} else {
					m = genColl(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 6 + c.Intn(70), NoHoles: c.Bool()})
				}
				c.Note("content %v", m)
				c.Sample("%v", m)
				var first, firstDig []byte
				hs := hashes[c.Intn(len(hashes))]
				k := 3 + c.Intn(3)
				for i := 0; i < k; i++ {
					v := build(m, c.RNG, BuildOpt{Immutable: c.P(1, 4) && m.K != KSparse})
					for j := c.Intn(3); j > 0; j-- {
						touch(c, v)
					}
					b := mustPack(c, v)
					data, dig, err := value.Hash(v, hs)
					c.Check(err == nil, "Hash: %v", err)
					if i == 0 {
						first, firstDig = b, dig
						c.DistinctB(b)
					}
					c.sameBytes(b, first, "history %d of the same content packs to other bytes", i)
					c.sameBytes(data, first, "Hash data of history %d", i)
					c.sameBytes(dig, firstDig, "digest of history %d", i)
					c.Check(value.Hex(v) == hex.EncodeToString(first), "Hex of history %d differs", i)
					touch(c, v)
					c.sameBytes(mustPack(c, v), first, "packing history %d a second time", i)
				}
				h := hs.New()
				h.Write(first)
				c.sameBytes(firstDig, h.Sum(nil), "the digest is not that of the packed bytes")
				c.Count("histories", int64(k))
			}},
			{Name: "decoded-histories", N: n(8000, 200000), Run: func(c *Case) {
				// decoding is one more way to obtain a content
				m := genColl(c.RNG, GenOpt{Depth: 3, Budget: 40})
				a := build(m, c.RNG, BuildOpt{})
				b := mustPack(c, a)
				st := foreignStyle(c.RNG)
				st.shuffle = st.shuffle && !hasDups(m)
				doc := refEnc(nil, m, st)
				u, err := value.Unpack(doc, c.Bool())
				c.Check(err == nil, "Unpack: %v", err)
				touch(c, u)
				c.sameBytes(mustPack(c, u), b, "decoded and built values of the same content pack differently: %v", m)
				_, d1, _ := value.Hash(a, crypto.SHA256)
				_, d2, _ := value.Hash(u, crypto.SHA256)
				c.sameBytes(d2, d1, "digests of decoded and built values")
				c.Count("histories", 2)
			}},
			{Name: "fixpoint", N: n(20000, 500000), Run: func(c *Case) {
				b, _, _ := genForeign(c.RNG)
				if c.P(1, 3) { // mutate; only decodable results count
					for j := 1 + c.Intn(3); j > 0 && len(b) > 0; j-- {
						b[c.Intn(len(b))] = byte(c.U64())
					}
				}
				fixpoint(c, b)
			}},
			{Name: "fixpoint-formats", N: n(len(sysDocs), len(sysDocs)), Run: func(c *Case) { fixpoint(c, sysDocs[c.Index]) }},
		},
	})
}

func hasDups(m *MV) bool {
	if m.anyDup() {
		return true
	}
	for _, e := range m.L {
		if hasDups(e) {
			return true
		}
	}
	for _, e := range m.E {
		if hasDups(e.V) {
			return true
		}
	}
	for _, e := range m.P {
		if hasDups(e.V) {
			return true
		}
	}
	return false
}

func fixpoint(c *Case, b []byte) {
	c.Note("document %s", hexShort(b))
	u, err := value.Unpack(b, c.Bool())
	if err != nil || u == nil {
		return
	}
	b1 := mustPack(c, u)
	u1, err := value.Unpack(b1, c.Bool())
	c.Check(err == nil, "what was decoded and packed cannot be decoded: %v (%s)", err, hexShort(b1))
	c.sameBytes(mustPack(c, u1), b1, "pack, unpack, pack is not a fixed point")
	c.Count("fixpoints", 1)
	c.DistinctB(b1)
}

var _ = decimal.Zero
