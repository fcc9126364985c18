package main

import (
	"bytes"
	"crypto"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"unicode/utf8"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
)

// The "wide" sections: what every property says of small values is observed on
// large ones too - long strings and bytes, huge numbers, many elements, long
// runs of one key, deep nests with siblings at every level, long streams -
// because buffers, chunks, caches and shortcuts begin to matter at sizes
// nobody writes into a unit test.

type wideCase struct {
	kind string
	n    int
}

func (w wideCase) String() string { return fmt.Sprintf("%s of size %d", w.kind, w.n) }

var (
	wideBytes  = []int{300, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 70000, 100000, 131071, 131072, 131073, 200000, 262143, 262144, 262145, 500000, 524288, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1500000, 2<<20 - 1, 2 << 20, 2<<20 + 1, 3 << 20, 4<<20 - 1, 4 << 20, 4<<20 + 1, 5 << 20}
	wideCounts = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 70000}
	wideDepths = []int{3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 600, 1000, 1025, 2000, 4000}

	wideByteKinds  = []string{"text", "special text", "broken text", "raw", "ext", "number", "decimal", "long key", "parts"}
	wideCountKinds = []string{"list", "map", "sparse", "run of one key", "run of one index", "lists in a list", "dense sparse", "map of long keys"}
	wideDepthKinds = []string{"lists", "maps", "sparse lists", "mixed nest", "bare nest"}
)

func wideAll(maxBytes, maxCount, maxDepth int) (out []wideCase) {
	add := func(kinds []string, sizes []int, max int) {
		for _, n := range sizes {
			if n <= max {
				for _, k := range kinds {
					if (k == "number" || k == "decimal") && n > 40000 {
						continue
					}
					out = append(out, wideCase{k, n})
				}
			}
		}
	}
	add(wideByteKinds, wideBytes, maxBytes)
	add(wideCountKinds, wideCounts, maxCount)
	add(wideDepthKinds, wideDepths, maxDepth)
	return
}

// specials: what text has that ASCII letters have not.
var specials = []string{"\x00", "\x01", "\x07", "\b", "\t", "\n", "\v", "\f", "\r", "\x1b", "\x1f", "\"", "\\", "/", "<", ">", "&", "'", "\x7f", "\u0080", "\u009f", "\u00a0", "\u00ad", "é", "߿", "ࠀ", "\u200b", "\u2028", "\u2029", "\u202e", "日", "\ue000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "😀", "\U000e0001", "\U0010ffff"}
var brokenBytes = []string{"\x80", "\xbf", "\xc0\xaf", "\xc2", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xff", "\xfe"}

// wideText has exactly n bytes.
func wideText(r *RNG, n int, withSpecials, broken bool) string {
	b := make([]byte, 0, n)
	every := 40 + r.Intn(400)
	if n > 100000 {
		every *= 20
	}
	for len(b) < n {
		if withSpecials && r.P(1, every) || len(b) < 300 && withSpecials && r.P(1, 10) {
			s := specials[r.Intn(len(specials))]
			if len(b)+len(s) <= n {
				b = append(b, s...)
				continue
			}
		}
		if broken && r.P(1, every) {
			s := brokenBytes[r.Intn(len(brokenBytes))]
			if len(b)+len(s) <= n {
				b = append(b, s...)
				continue
			}
		}
		k := 1 + r.Intn(60)
		for ; k > 0 && len(b) < n; k-- {
			b = append(b, byte(' '+r.Intn(95)))
		}
	}
	if withSpecials { // also across the ends of power-of-two pieces
		for p := 256; p < n; p *= 2 {
			s := specials[r.Intn(len(specials))]
			at := p - r.Intn(len(s)+1)
			if at >= 0 && at+len(s) <= n && utf8.RuneStart(b[at]) && (at+len(s) == n || utf8.RuneStart(b[at+len(s)])) {
				copy(b[at:], s)
			}
		}
	}
	// the edges matter to whatever trims or cuts
	if r.P(1, 3) && n > 8 {
		s := edges[r.Intn(len(edges))]
		if utf8.RuneStart(b[n-len(s)]) {
			copy(b[n-len(s):], s)
		}
	}
	if r.P(1, 3) && n > 8 {
		s := edges[r.Intn(len(edges))]
		if utf8.RuneStart(b[len(s)]) {
			copy(b, s)
		}
	}
	return string(b)
}

// ASCII only: a sequence of several bytes may not be cut by them
var edges = []string{"\x00", "\x00\x00", " ", "\n", "\r\n", "\t", "=", "==", "\"", "\\", "0", ",", "/", "\x7f"}

// siblings are small values next to a large one.
func sibling(r *RNG) *MV {
	switch r.Intn(10) {
	case 0:
		return mLong(genLong(r))
	case 1:
		return mStr(genStr(r, 12))
	case 6:
		return mNull
	case 7:
		return mBool(r.Bool())
	case 8:
		return mBig(new(big.Int).SetBytes(r.Bytes(r.Intn(12))))
	case 9:
		return mDec(big.NewInt(genLong(r)), int32(r.Intn(40)-20))
	case 2:
		return mList(mLong(int64(r.Intn(99))), mNull)
	case 3:
		return &MV{K: KMap, E: []MEnt{{"s", mBool(true)}}}
	case 4:
		return mDouble(float64(r.Intn(1000)) / 8)
	}
	return mRaw(string(r.Bytes(r.Intn(9))))
}

// edgeBytes may begin and end with zeros or ones.
func edgeBytes(r *RNG, n int) string {
	b := r.Bytes(n)
	for i := 0; i < 3 && i < n; i++ {
		if r.P(1, 4) {
			b[i] = byte(-r.Intn(2))
		}
		if r.P(1, 4) {
			b[n-1-i] = byte(-r.Intn(2))
		}
	}
	return string(b)
}

// element i of a large collection
func element(r *RNG, i int) *MV {
	if r.P(1, 4) {
		return sibling(r)
	}
	return mLong(int64(i))
}

func wideModel(r *RNG, w wideCase) *MV {
	n := w.n
	switch w.kind {
	case "text":
		return mStr(wideText(r, n, false, false))
	case "special text":
		return mStr(wideText(r, n, true, false))
	case "broken text":
		return mStr(wideText(r, n, true, true))
	case "raw":
		return mRaw(edgeBytes(r, n))
	case "ext":
		return mExt(extTags[r.Intn(len(extTags))], edgeBytes(r, n))
	case "number", "decimal":
		b := r.Bytes(n)
		b[0] |= 1
		z := new(big.Int).SetBytes(b)
		if r.Bool() {
			z.Neg(z)
		}
		if w.kind == "number" {
			return mBig(z)
		}
		return mDec(z, int32(r.Intn(401)-200))
	case "long key":
		k := wideText(r, n, r.Bool(), r.Bool())
		m := &MV{K: KMap, E: []MEnt{{k, mLong(1)}, {k[:n-1], sibling(r)}, {k + "x", sibling(r)}, {"a", mLong(3)}}}
		sortEnts(m.E)
		return m
	case "parts": // strings and bytes of middling size, n bytes together
		m := mList()
		for n > 0 {
			k := 1 + r.Intn(3000)
			if k > n {
				k = n
			}
			n -= k
			switch r.Intn(4) {
			case 0:
				m.L = append(m.L, mStr(wideText(r, k, true, false)))
			case 1:
				m.L = append(m.L, mRaw(string(r.Bytes(k))))
			case 2:
				m.L = append(m.L, mExt(77, string(r.Bytes(k))))
			default:
				m.L = append(m.L, &MV{K: KMap, E: []MEnt{{"k", mStr(wideText(r, k, false, false))}}})
			}
		}
		return m
	case "list":
		m := mList()
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				m.L = append(m.L, mLong(int64(i)))
			} else {
				m.L = append(m.L, sibling(r))
			}
		}
		return m
	case "lists in a list":
		m := mList()
		for i := 0; i < n; i++ {
			m.L = append(m.L, mList(mLong(int64(i)), mLong(int64(-i))))
		}
		return m
	case "map":
		m := &MV{K: KMap}
		for i := 0; i < n; i++ {
			m.E = append(m.E, MEnt{fmt.Sprintf("%c%07d", 'a'+i*20/n, i), element(r, i)})
		}
		return m
	case "map of long keys":
		m := &MV{K: KMap}
		p := strings.Repeat("prefix", 8)
		for i := 0; i < n; i++ {
			m.E = append(m.E, MEnt{fmt.Sprintf("%s%07d", p, i*3), element(r, i)})
		}
		return m
	case "sparse":
		m := &MV{K: KSparse}
		k := -r.Intn(300)
		for i := 0; i < n; i++ {
			m.P = append(m.P, MItem{k, element(r, i)})
			k += 1 + r.Intn(3)
		}
		return m
	case "dense sparse":
		m := &MV{K: KSparse}
		for i := 0; i < n; i++ {
			m.P = append(m.P, MItem{i, element(r, i)})
		}
		return m
	case "run of one key":
		m := &MV{K: KMap}
		at := r.Intn(3)
		for i := 0; i < at; i++ {
			m.E = append(m.E, MEnt{fmt.Sprint("a", i), mLong(0)})
		}
		key, several := "b", r.P(1, 3)
		for i := 0; i < n; i++ {
			m.E = append(m.E, MEnt{key, mLong(int64(i))})
			if several && r.P(1, 20) {
				key = fmt.Sprintf("b%08d", i)
			}
		}
		if r.Bool() {
			m.E = append(m.E, MEnt{"c", mNull})
		}
		return m
	case "run of one index":
		m := &MV{K: KSparse}
		at := r.Intn(3)
		for i := 0; i < at; i++ {
			m.P = append(m.P, MItem{i - 1, mLong(0)})
		}
		key, several := 5, r.P(1, 3)
		for i := 0; i < n; i++ {
			m.P = append(m.P, MItem{key, mLong(int64(i))})
			if several && r.P(1, 20) {
				key += 1 + r.Intn(2)
			}
		}
		if r.Bool() {
			m.P = append(m.P, MItem{key + 1, mNull})
		}
		return m
	}
	// nests: siblings before and behind the deeper part at every level
	m := mLong(7)
	for i := 0; i < n; i++ {
		k := 0
		switch w.kind {
		case "maps":
			k = 1
		case "sparse lists":
			k = 2
		case "mixed nest", "bare nest":
			k = r.Intn(3)
		}
		bare := w.kind == "bare nest"
		before, behind := r.Intn(3), r.Intn(3)
		if bare {
			before, behind = 0, 0
		}
		x := &MV{K: []MK{KList, KMap, KSparse}[k]}
		for j := -before; j <= behind; j++ {
			e := m
			if j != 0 {
				e = sibling(r)
			}
			switch k {
			case 0:
				x.L = append(x.L, e)
			case 1:
				x.E = append(x.E, MEnt{fmt.Sprintf("k%d", j+3), e})
			default:
				x.P = append(x.P, MItem{j + 2, e})
			}
		}
		m = x
	}
	return m
}

func wideMk(c *Case, w wideCase) (value.Value, *MV) {
	c.Note("%v", w)
	m := wideModel(c.RNG, w)
	if c.Bool() {
		// Go nils among the elements, at the ends above all
		for k := 1 + c.Intn(3); k > 0; k-- {
			n := len(m.L) + len(m.E) + len(m.P)
			if n == 0 {
				break
			}
			i := []int{0, n - 1, n - 1 - c.Intn(min(n, 3)), c.Intn(n)}[c.Intn(4)]
			switch m.K {
			case KList:
				m.L[i] = mNil
			case KMap:
				m.E[i].V = mNil
			default:
				m.P[i].V = mNil
			}
		}
		c.Count("wide-nils", 1)
	}
	o := BuildOpt{Plain: w.n > 3000 || c.Bool()}
	o.Immutable = c.P(1, 3)
	v, p := mk(c, m, o)
	c.Count("wide", 1)
	c.Count("wide:"+w.kind, 1)
	return v, p
}

// wideSection makes a section over cases; in the quick tier every stride-th of
// them (another residue for every seed), in the thorough tier all, several times.
func wideSection(id string, cases []wideCase, stride, repeat int, run func(c *Case, w wideCase)) {
	p := props[id]
	if p == nil {
		panic("no " + id)
	}
	p.Sections = append(p.Sections, Section{
		Name: "wide",
		N: func() int {
			if thorough() {
				return len(cases) * repeat
			}
			return (len(cases) + stride - 1) / stride
		},
		Run: func(c *Case) {
			i := c.Index
			if !thorough() {
				i = i*stride + c.Intn(stride)
			}
			w := cases[len(cases)-1-i%len(cases)] // deep ones first
			if w.n > 20000 && (w.n > 250000 || !strings.Contains(wideByteNames, w.kind)) {
				wideGate <- struct{}{} // few of the heaviest at a time, for memory's sake
				defer func() { <-wideGate }()
			}
			run(c, w)
		},
	})
	p.Needs = append(p.Needs, "wide")
}

var (
	wideGate      = make(chan struct{}, 3)
	wideByteNames = strings.Join(wideByteKinds, ",")
)

func addSection(id string, s Section) { props[id].Sections = append(props[id].Sections, s) }

// flipSome alters a few bytes of a large document.
func flipSome(r *RNG, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		if r.Bool() && len(b) > 20 {
			i = r.Intn(20)
		}
		switch r.Intn(4) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.U64())
		case 2:
			b = b[:i]
		default:
			b = append(b[:i], b[i+1:]...)
		}
	}
	return b
}

func init() {
	const KB, MB = 1 << 10, 1 << 20
	wideSection("C01", wideAll(6*MB, 1e6, 1e6), 1, 4, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		roundTrip(c, v, m)
	})
	wideSection("C02", wideAll(6*MB, 1e6, 1e6), 1, 4, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		conform(c, v, m)
	})
	wideSection("C03", wideAll(6*MB, 1e6, 1e6), 1, 4, func(c *Case, w wideCase) {
		c.Note("%v", w)
		m := wideModel(c.RNG, w)
		b := refEnc(nil, m, foreignStyle(c.RNG))
		c.Count("wide", 1)
		want, un := denoteDoc(b)
		decodeAllWays(c, b, want, un)
	})
	wideSection("C04", wideAll(5*MB, 1e6, 1e6), 1, 3, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		first := mustPack(c, v)
		k := 2
		if w.n < 3000 {
			k = 4
		}
		for i := 0; i < k; i++ {
			u, p := mk(c, m, BuildOpt{Plain: w.n > 3000, Immutable: c.P(1, 3)})
			if p != m {
				continue
			}
			if w.n < 3000 {
				touch(c, u)
			}
			b := mustPack(c, u)
			c.sameBytes(b, first, "history %d of %v packs to other bytes", i, w)
			hs := hashes[c.Intn(len(hashes))]
			data, dig, err := value.Hash(u, hs)
			c.Check(err == nil, "Hash: %v", err)
			c.sameBytes(data, first, "Hash data of %v", w)
			h := hs.New()
			h.Write(first)
			c.sameBytes(dig, h.Sum(nil), "the digest of %v is not that of the packed bytes", w)
			c.Check(value.Hex(u) == hex.EncodeToString(first), "Hex of %v", w)
			c.sameBytes(mustPack(c, u), first, "packing %v again", w)
		}
		st := foreignStyle(c.RNG)
		st.shuffle = st.shuffle && !hasDups(m)
		u, err := value.Unpack(refEnc(nil, m, st), c.Bool())
		c.Check(err == nil, "Unpack: %v", err)
		c.sameBytes(mustPack(c, u), first, "%v decoded from another encoding packs to other bytes", w)
		fixpoint(c, first)
		c.Count("histories", int64(k))
	})
	wideSection("C05", wideAll(300*KB, 70000, 1e6), 1, 6, func(c *Case, w wideCase) {
		c.Note("%v", w)
		m := wideModel(c.RNG, w)
		b := refEnc(nil, m, foreignStyle(c.RNG))
		c.Count("wide", 1)
		hostile(c, flipSome(c.RNG, b), false, c.Intn(len(hostileEntries)), c.Intn(len(hostileEntries)))
		hostile(c, b, false, c.Intn(len(hostileEntries)))
	})
	wideSection("C06", wideAll(300*KB, 5000, 2000), 2, 8, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		b := mustPack(c, v)
		if len(b) > 100*KB {
			truncated(c, b, 27, w.String())
		} else {
			truncated(c, b, 40, w.String())
		}
		_ = m
	})
	wideSection("C08", wideAll(300*KB, 70000, 1e6), 1, 4, func(c *Case, w wideCase) {
		c.Note("%v", w)
		m := wideModel(c.RNG, w)
		var b []byte
		var ends []int
		put := func(m *MV) { b = refEncode2(b, m); ends = append(ends, len(b)) }
		if c.Bool() {
			put(sibling(c.RNG))
		}
		put(m)
		put(mStr("behind"))
		if c.Bool() {
			put(wideModel(c.RNG, wideCase{wideByteKinds[c.Intn(len(wideByteKinds))], 300 + c.Intn(20000)}))
			put(mLong(5))
		}
		c.Count("wide", 1)
		readerAgrees(c, b, readerKinds[c.Intn(len(readerKinds))], ends)
		c.DistinctB(b)
	})
	wideSection("C09", wideAll(2*MB, 1e6, 1e6), 1, 3, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		enc := refEncode(m)
		at := append(cuts(c.RNG, len(enc), 27), len(enc), len(enc)+1, -1)
		for p := 4096; p < len(enc); p *= 4 {
			at = append(at, p-1, p, p+1)
		}
		if len(enc) > 300*KB {
			at = at[len(at)-12:]
		}
		for _, at := range at {
			wr := newFail(c.RNG, at)
			err := value.Write(wr, v)
			wr.verdict(c, err, enc, fmt.Sprintf("Write of %v with room for %d of %d bytes", w, at, len(enc)))
		}
		for _, calls := range []int{0, 1, 2, 3, 17, 100, 1000, 5000, c.Intn(3000)} {
			wr := newFail(c.RNG, -1)
			wr.calls, wr.all = calls, c.P(1, 4)
			err := value.Write(wr, v)
			wr.verdict(c, err, enc, fmt.Sprintf("Write of %v with the writer failing at call %d", w, calls))
		}
		c.DistinctB(enc)
	})
	wideSection("C15", wideAll(5*MB, 1e6, 1e6), 1, 4, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		u, m2 := mk(c, m, BuildOpt{Plain: true})
		checkEqual(c, v, m, u, m2)
		d, err := value.Unpack(refEncode(m), c.Bool())
		c.Check(err == nil, "Unpack: %v", err)
		checkEqual(c, v, m, d, mnormNil(m))
		k := 6
		if w.n > 500*KB {
			k = 2
		}
		for i := 0; i < k; i++ {
			x := nearMiss(c, m)
			y, x := mk(c, x, BuildOpt{Plain: true})
			checkEqual(c, v, m, y, x)
		}
		// one difference at a chosen place
		for i := 0; i < 4; i++ {
			x := wideMiss(c.RNG, m, i)
			if x == nil {
				break
			}
			y, x := mk(c, x, BuildOpt{Plain: true})
			checkEqual(c, v, m, y, x)
			checkEqual(c, d, mnormNil(m), y, x)
		}
		c.Distinct(fnv64(w.String()))
	})
	wideSection("C16", wideAll(1500000, 1e6, 4000), 1, 4, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		jsonAll(c, v, m)
		c.Distinct(fnv64(w.String()))
	})
	wideSection("C17", wideAll(5*MB, 0, 0), 1, 6, func(c *Case, w wideCase) {
		c.Note("%v", w)
		m := wideModel(c.RNG, w)
		c.Count("wide", 1)
		switch m.K {
		case KBig, KDec:
			numberForm(c, m)
			s := hexText(m.Big)
			checkNumberText(c, s)
			checkNumberText(c, strings.ToUpper(s[:1])+strings.ReplaceAll(strings.ToUpper(s[1:]), "X", "x"))
			checkNumberText(c, s+"x-05")
			checkNumberText(c, s+"g")
			checkNumberText(c, strings.Replace(s, "0x", "0x0000000", 1))
			if w.n <= 10000 {
				checkNumberText(c, m.Big.String())
				checkNumberText(c, "0."+strings.Repeat("0", w.n)+"1")
				checkNumberText(c, strings.Repeat("0", w.n)+"12")
				checkNumberText(c, "-"+strings.Repeat("0", w.n)+"9223372036854775808")
				checkNumberText(c, "1."+strings.Repeat("5", w.n)+"e-3")
			}
		case KStr, KRaw:
			stringForm(c, m)
			if m.K == KStr {
				anyText(c, m.S)
				anyText(c, "base64,"+m.S)
				checkNumberText(c, "1"+strings.Repeat("0", c.Intn(20))+m.S)
			}
		}
	})
	addSection("C18", Section{Name: "wide", N: n(1500, 20000), Run: func(c *Case) {
		num := func() *MV {
			if c.P(1, 3) {
				return genNum(c)
			}
			z := wideModel(c.RNG, wideCase{"number", 1 + c.Intn([]int{40, 200, 1100, 5000}[c.Intn(4)])}).Big
			if c.Bool() {
				return mBig(z)
			}
			return mDec(z, int32(c.Intn(1001)-500))
		}
		v, p := mk(c, num(), BuildOpt{})
		w, q := mk(c, num(), BuildOpt{})
		checkConversions(c, v.(value.Number), p)
		checkArith(c, v.(value.Number), w.(value.Number), p, q)
		c.Count("wide", 1)
		c.Distinct(fnv64(p.String() + "|" + q.String()))
	}})
	addSection("C18", Section{Name: "accumulate", N: n(300, 6000), Run: accumulate})
	wideSection("C19", wideAll(600*KB, 70000, 1000), 1, 3, wideStruct)
	wideSection("C20", wideAll(5*MB, 1e6, 1000), 1, 3, wideOwnership)
	wideSection("C21", wideAll(5*MB, 1e6, 4000), 3, 2, wideSealed)
	wideSection("C22", wideAll(300*KB, 1e6, 300), 1, 3, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		checkAllLookups(c, v, 0, "built "+w.String())
		u, err := value.Unpack(refEnc(nil, m, foreignStyle(c.RNG)), c.Bool())
		c.Check(err == nil, "Unpack: %v", err)
		checkAllLookups(c, u, 0, "decoded "+w.String())
		c.Distinct(fnv64(w.String()))
	})
	addSection("C23", Section{Name: "wide", N: n(200, 3000), Run: wideCopies})
	addSection("C23", Section{Name: "wide-updates", N: n(300, 5000), Run: wideUpdates})
	props["C23"].Needs = append(props["C23"].Needs, "wide-updates")
	wideSection("C24", wideAll(300*KB, 70000, 4000), 1, 3, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		b := encodings(c, v, m)
		got, ok := decodings(c, b)
		c.Check(ok, "what was packed from %v is rejected", w)
		c.same(got, mnorm(generic(m.wire())), "decoding %v", w)
		if c.P(1, 3) {
			decodings(c, flipSome(c.RNG, b))
		}
		c.DistinctB(b)
	})
	wideSection("C25", wideAll(300*KB, 5000, 4000), 1, 3, func(c *Case, w wideCase) {
		c.Note("%v", w)
		m := wideModel(c.RNG, w)
		b := refEnc(nil, m, foreignStyle(c.RNG))
		walkAll(c, append(b, 0xc3))
		c.Count("wide", 1)
		c.DistinctB(b)
	})
	wideSection("C26", wideAll(300*KB, 5000, 300), 1, 3, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		introspect(c, v, m, 1, "built "+w.String())
		u, err := value.Unpack(refEncode(m), c.Bool())
		c.Check(err == nil, "Unpack: %v", err)
		introspect(c, u, generic(m.wire()), 1, "decoded "+w.String())
		c.Distinct(fnv64(w.String()))
	})
	wideSection("C28", wideAll(2*MB, 1e6, 1e6), 1, 3, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		p := &recorder{}
		v.Pack(p)
		c.Check(p.bad == "" && p.roots == 1 && len(p.open) == 0, "%v: %s, %d values, %d open", w, p.bad, p.roots, len(p.open))
		c.sameBytes(p.out, refEncode(m.wire()), "the calls of %v written down", w)
		c.Count("calls", int64(p.calls))
		own := c.Bool()
		s := &source{toks: tokensOf(c, p.out, own)}
		if own && hasU64(s.toks) {
			return
		}
		u, err := value.Parse(s, s)
		c.Check(err == nil && s.bad == "", "%v from a source of our own: %v %s", w, err, s.bad)
		c.same(mnorm(project(u)), mnorm(generic(m.wire())), "%v from a source of our own", w)
		if len(s.toks) < 40000 {
			for k := 0; k < 6; k++ {
				if _, _, ok := faultyParse(c, tokensOf(c, p.out, true), w); ok {
					c.Count("wide-faults", 1)
				}
				if _, ok := lyingParse(c, tokensOf(c, p.out, false), w); ok {
					c.Count("wide-lies", 1)
				}
			}
		}
	})
	props["C28"].Needs = append(props["C28"].Needs, "wide-faults", "wide-lies")
	addSection("C07", Section{Name: "long", N: n(48, 300), Run: longStream})
	addSection("C11", Section{Name: "wide", N: n(100, 3000), Run: func(c *Case) {
		kinds := append(append([]string{}, wideCountKinds...), "special text", "raw", "number", "parts", "lists", "mixed nest")
		k := kinds[c.Index%len(kinds)]
		n := []int{17, 65, 130, 300, 600}[c.Intn(5)]
		if k == "special text" || k == "raw" || k == "parts" {
			n *= 30
		}
		imm := c.Bool() && !strings.Contains("sparse lists,dense sparse,run of one index,mixed nest", k)
		sharedModel(c, wideModel(c.RNG, wideCase{k, n}), BuildOpt{Plain: c.Bool(), Immutable: imm}, imm)
	}})
}

// refEncode2 appends.
func refEncode2(b []byte, m *MV) []byte { return refEnc(b, m, nil) }

// mnormNil is the content as the decoder gives it back.
func mnormNil(m *MV) *MV { return generic(m.wire()) }

// wideMiss changes one place of a large value: the last, the first, the middle
// or any.
func wideMiss(r *RNG, m *MV, how int) *MV {
	at := func(n int) int {
		switch how {
		case 0:
			return n - 1
		case 1:
			return 0
		case 2:
			return n / 2
		}
		return r.Intn(n)
	}
	x := *m
	switch {
	case m.K == KStr || m.K == KRaw || m.K == KExt:
		b := []byte(m.S)
		if len(b) < 2 {
			return nil
		}
		b[at(len(b))] ^= 1 << uint(r.Intn(8))
		x.S = string(b)
	case m.K == KBig || m.K == KDec:
		x.Big = new(big.Int).Set(m.Big)
		i := at(x.Big.BitLen() - 1)
		if i < 0 {
			return nil
		}
		x.Big.SetBit(x.Big, i, 1-x.Big.Bit(i))
	case m.K == KList && len(m.L) > 0:
		x.L = append([]*MV{}, m.L...)
		i := at(len(x.L))
		if y := wideMiss(r, x.L[i], how); y != nil && r.Bool() {
			x.L[i] = y
		} else {
			x.L[i] = mStr("another")
		}
	case m.K == KMap && len(m.E) > 0:
		x.E = append([]MEnt{}, m.E...)
		i := at(len(x.E))
		if y := wideMiss(r, x.E[i].V, how); y != nil && r.Bool() {
			x.E[i].V = y
		} else {
			x.E[i].V = mStr("another")
		}
	case m.K == KSparse && len(m.P) > 0:
		x.P = append([]MItem{}, m.P...)
		i := at(len(x.P))
		if y := wideMiss(r, x.P[i].V, how); y != nil && r.Bool() {
			x.P[i].V = y
		} else {
			x.P[i].V = mStr("another")
		}
	default:
		return nil
	}
	return &x
}

// accumulate: long chains of additions, every intermediate result kept and
// compared again at the end.
func accumulate(c *Case) {
	v, m := mk(c, genNum(c), BuildOpt{})
	if m.K == KDouble || m.K == KDec && (m.Exp > 300 || m.Exp < -300) {
		v, m = value.BigInt(big.NewInt(7)), mBig(big.NewInt(7))
	}
	x := v.(value.Number)
	type kept struct {
		n value.Number
		m *MV
	}
	all := []kept{{x, project(x)}}
	k := 20 + c.Intn(300)
	for i := 0; i < k; i++ {
		ym := mLong(genLong(c.RNG))
		if c.P(1, 3) {
			ym = mBig(genBig(c.RNG, true))
		}
		y := all[c.Intn(len(all))]
		if c.Bool() {
			w, p := mk(c, ym, BuildOpt{})
			y = kept{w.(value.Number), p}
		}
		a := all[len(all)-1]
		if c.P(1, 5) {
			a = all[c.Intn(len(all))]
		}
		if asBig(a.m).BitLen() > 20000 || asBig(y.m).BitLen() > 20000 {
			continue
		}
		checkArith(c, a.n, y.n, a.m, y.m)
		z := a.n.Add(y.n)
		if c.Bool() {
			z = a.n.Subtract(y.n)
		}
		all = append(all, kept{z, project(z)})
	}
	for i, e := range all {
		c.same(project(e.n), e.m, "the result of step %d after %d more", i, len(all)-i)
	}
	c.Distinct(fnv64(all[len(all)-1].m.String()))
}

type wideInner struct {
	A value.Value   `tag:"1"`
	B []value.Value `tag:"300"`
}

type wideOuter struct {
	A value.Value   `tag:"1"`
	B []value.Value `tag:"2"`
	C []value.Value `tag:"3" repeated:"true"`
	D *wideInner    `tag:"70000"`
	E []*wideInner  `tag:"16"`
	F value.String  `tag:"31"`
	G []value.List  `tag:"32" repeated:"true"`
	H []*wideInner  `tag:"33" repeated:"true"`
}

// wideStruct: large contents in the fields, and many elements in the slices.
func wideStruct(c *Case, w wideCase) {
	c.Note("%v in a struct", w)
	m := wideModel(c.RNG, w)
	typ := reflect.TypeOf(wideOuter{})
	nd := genSNode(c.RNG, typ, 2)
	set := func(i int, vals []*MV, subs []*sNode) {
		f := nd.fields[i]
		f.isNil, f.vals, f.subs = false, vals, subs
	}
	parts := func() []*MV { // the elements of a collection one by one
		var out []*MV
		switch m.K {
		case KList:
			out = m.L
		case KMap:
			for _, e := range m.E {
				out = append(out, e.V)
			}
		case KSparse:
			for _, e := range m.P {
				out = append(out, e.V)
			}
		default:
			out = []*MV{mLong(1), m, mLong(2)}
		}
		if most := []int{5000, 5000, 20000, 70000}[c.Intn(4)]; len(out) > most {
			out = out[:most]
		}
		return append([]*MV{}, out...)
	}
	switch c.Intn(6) {
	case 0:
		set(0, []*MV{m}, nil)
	case 1:
		set(1, parts(), nil)
	case 2:
		set(2, parts(), nil)
	case 3:
		in := genSNode(c.RNG, reflect.TypeOf(wideInner{}), 3)
		in.fields[0].isNil, in.fields[0].vals = false, []*MV{m}
		set(3, nil, []*sNode{in})
	case 4:
		if m.K == KStr || m.K == KRaw {
			set(5, []*MV{m}, nil)
		} else if m.K == KList || m.K == KSparse && len(m.P) > 0 {
			set(6, []*MV{mList(), m, mList(mLong(1))}, nil)
		} else {
			set(0, []*MV{m}, nil)
		}
	default: // many structs
		var subs []*sNode
		for i := 0; i < w.n%1500; i++ {
			s := genSNode(c.RNG, reflect.TypeOf(wideInner{}), 5)
			s.fields[1].isNil, s.fields[1].vals = true, nil
			s.fields[0].isNil, s.fields[0].vals = false, []*MV{mLong(int64(i))}
			subs = append(subs, s)
		}
		set([]int{4, 7}[c.Intn(2)], nil, subs)
	}
	c.Count("wide", 1)
	structNode(c, typ, nd)
}

// wideOwnership: large inputs belong to the caller, large outputs too.
func wideOwnership(c *Case, w wideCase) {
	v, m := wideMk(c, w)
	doc := refEncode(m)
	if c.Bool() {
		doc = refEnc(nil, m, foreignStyle(c.RNG))
	}
	sum := func(u value.Value) string { return digestWide(u) }
	for _, cp := range []bool{true, false} {
		g := guard(c.RNG, doc)
		u, err := value.Unpack(g.b, cp)
		g.check(c, "Unpack(copy=%v)", cp)
		c.Check(err == nil, "Unpack: %v", err)
		before := sum(u)
		g.check(c, "using a value unpacked with copy=%v", cp)
		if cp {
			g.scribble(c.RNG)
			c.Check(sum(u) == before, "%v unpacked with copy changes when the caller overwrites the input", w)
			c.Count("copies", 1)
		}
	}
	// readers and what they hand out
	g := guard(c.RNG, doc)
	var rd io.Reader = bytes.NewReader(g.b)
	switch c.Intn(3) {
	case 0:
		rd = bytes.NewBuffer(g.b)
	case 1:
		rd = &scribbleReader{g: g, r: c.RNG}
	}
	u, err := value.Read(rd)
	c.Check(err == nil, "Read: %v", err)
	before := sum(u)
	g.scribble(c.RNG)
	c.Check(sum(u) == before, "%v changes when the source of the reader is overwritten", w)
	// outputs
	want := sum(v)
	var first []byte
	for i := 0; i < 2; i++ {
		b, err := value.Pack(v)
		c.Check(err == nil, "Pack: %v", err)
		if i == 0 {
			first = append([]byte{}, b...)
		} else {
			c.sameBytes(b, first, "Pack of %v after its earlier bytes were overwritten", w)
		}
		for j := range b {
			b[j] ^= 0x55
		}
		b = b[:cap(b)]
		for j := range b {
			b[j] ^= 0xAA
		}
		c.Check(sum(v) == want, "%v changes when the packed bytes are overwritten", w)
		d, _, err := value.Hash(v, crypto.SHA256)
		c.Check(err == nil, "Hash: %v", err)
		for j := range d {
			d[j] ^= 0x55
		}
		c.Check(sum(v) == want, "%v changes when the bytes of Hash are overwritten", w)
		j, err := v.MarshalJSON()
		c.Check(err == nil, "MarshalJSON: %v", err)
		for k := range j {
			j[k] ^= 0x55
		}
		c.Check(sum(v) == want, "%v changes when its JSON is overwritten", w)
	}
	if m.K == KRaw || m.K == KStr || m.K == KExt {
		g := guard(c.RNG, []byte(m.S))
		s := value.Raw(g.b, true)
		in := value.ImmutableList([]value.Value{s})
		b1, b2 := sum(s), sum(in)
		g.check(c, "Raw")
		g.scribble(c.RNG)
		c.Check(sum(s) == b1 && sum(in) == b2, "a raw string of %d bytes made with copy changes when the caller overwrites the bytes", w.n)
		t := value.Str(m.S)
		tb := t.Raw()
		for i := range tb {
			tb[i] ^= 0x21
		}
		c.Check(t.Utf8() == m.S, "a text of %d bytes changes when the bytes of its Raw() are overwritten", w.n)
	}
	c.Count("outputs", 2)
	c.Distinct(fnv64(w.String()))
}

// digestWide looks at a large value without keeping its text.
func digestWide(u value.Value) string {
	b, err := value.Pack(u)
	return fmt.Sprintf("%x %v %x %x", fnv64(string(b)), err, fnv64(value.Jsonify(u)), fnv64(u.String()))
}

func wideSealed(c *Case, w wideCase) {
	v, m := wideMk(c, w)
	a, b := genKeys(c.RNG), genKeys(c.RNG)
	packed := mustPack(c, v)
	msg, err := value.Seal(v, b.pub, a.priv)
	c.Check(err == nil, "Seal: %v", err)
	c.Check(len(msg) == 24+box.Overhead+len(packed), "a sealed message of %d packed bytes has %d bytes", len(packed), len(msg))
	freshNonce(c, msg)
	var nonce [24]byte
	copy(nonce[:], msg)
	plain, ok := box.Open(nil, msg[24:], &nonce, a.pub, b.priv)
	c.Check(ok, "an independent box does not open the message")
	c.sameBytes(plain, packed, "the sealed bytes")
	orig := append([]byte{}, msg...)
	u, err := value.Unseal(msg, a.pub, b.priv)
	c.Check(err == nil, "Unseal of %d bytes with the matching keys: %v", len(msg), err)
	c.same(mnorm(project(u)), mnorm(generic(m.wire())), "the unsealed value")
	c.sameBytes(msg, orig, "Unseal changed its input")
	c.Count("opened", 1)
	x := genKeys(c.RNG)
	rejected(c, msg, x.pub, b.priv, "a message with another sender's key")
	rejected(c, msg, a.pub, x.priv, "a message with another recipient's key")
	for i := 0; i < 6; i++ {
		at := c.Intn(len(msg))
		switch i {
		case 0:
			at = len(msg) - 1
		case 1:
			at = 24
		case 2:
			at = 40
		}
		d := byte(1 + c.Intn(255))
		msg[at] ^= d
		rejected(c, msg, a.pub, b.priv, "a message of %d bytes with byte %d altered", len(msg), at)
		msg[at] ^= d
		k := c.Intn(len(msg))
		rejected(c, msg[:k:k], a.pub, b.priv, "the first %d of %d bytes", k, len(msg))
		c.Count("flipped", 1)
		c.Count("truncated", 1)
	}
	rejected(c, msg[:len(msg)-1], a.pub, b.priv, "a message of %d bytes without its last", len(msg))
	rejected(c, append(append([]byte{}, msg...), 0), a.pub, b.priv, "a message of %d bytes with one appended", len(msg))
	c.Count("extended", 1)
	msg2, err := value.Seal(v, b.pub, a.priv)
	c.Check(err == nil, "Seal: %v", err)
	freshNonce(c, msg2)
	if c.Intn(10) == 0 {
		runtime.GC() // the big messages go
	}
	c.DistinctB(msg)
}

// wideCopies: copies of large maps and updates on either side, and updates of
// large lists, observed in full.
func wideCopies(c *Case) {
	k := []int{17, 33, 65, 100, 101, 129, 257, 300, 513, 1000, 1025, 3000}[c.Index%12]
	imm := c.Bool()
	var uniq int64
	var ents []value.MapEntry
	for i := 0; i < k; i++ {
		key := fmt.Sprintf("%05d", i)
		if c.P(1, 200) && i > 0 {
			key = fmt.Sprintf("%05d", i-1)
		}
		uniq++
		ents = append(ents, mkEntry(imm, key, value.Long(uniq)))
	}
	src := mapCtor(imm, ents, c.Bool())
	mode := updMust
	if imm {
		mode = updNever
	}
	type side struct {
		v    value.Map
		mode updMode
		name string
		want *MV
	}
	all := []side{{src, mode, "the source", project(src)}}
	for i := 1 + c.Intn(3); i > 0; i-- {
		from := all[c.Intn(len(all))]
		switch c.Intn(4) {
		case 0:
			all = append(all, side{value.ImmutableMapCopyOf(from.v), updNever, "ImmutableMapCopyOf(" + from.name + ")", nil})
		case 1, 2:
			all = append(all, side{value.SortedMapCopyOf(from.v), updMust, "SortedMapCopyOf(" + from.name + ")", nil})
		default:
			h := from.v.HashMap()
			if c.Bool() {
				all = append(all, side{value.SortedMapOf(h), updMust, "SortedMapOf(HashMap of " + from.name + ")", nil})
			} else {
				all = append(all, side{value.ImmutableMapOf(h), updNever, "ImmutableMapOf(HashMap of " + from.name + ")", nil})
			}
			all[len(all)-1].want = project(all[len(all)-1].v)
			for x := range h {
				h[x] = value.Str("overwritten by the caller")
				if c.Bool() {
					break
				}
			}
		}
		l := &all[len(all)-1]
		got := project(l.v)
		if l.want == nil {
			c.same(got, from.want, "%s", l.name)
		} else {
			c.same(got, l.want, "%s after its Go map changed", l.name)
		}
		l.want = got
		c.Count("copies", 1)
	}
	for i := 0; i < 8; i++ {
		s := &all[c.Intn(len(all))]
		c.Note("%d entries, update %d on %s", k, i, s.name)
		if c.P(1, 5) && s.mode == updMust {
			key := fmt.Sprintf("%05d", c.Intn(k))
			uniq++
			switch c.Intn(3) {
			case 0:
				s.v = s.v.Put(key, value.Long(uniq))
			case 1:
				s.v = s.v.Insert(key, value.Long(uniq))
			default:
				s.v = s.v.Remove(key)
			}
		} else {
			runUpdate(c, s.v, pickTarget(c, s.v, s.mode))
		}
		s.want = project(s.v)
		for j := range all {
			c.same(project(all[j].v), all[j].want, "%s after an update of %s (%d entries)", all[j].name, s.name, k)
			c.Count("isolation-checks", 1)
		}
	}
	c.Count("wide", 1)
	c.Distinct(c.U64())
}

// longStream: thousands of values, or few very large ones, through a stream.
func longStream(c *Case) {
	k := []int{900, 1000, 1025, 4097, 10000, 40000}[c.Index%6]
	large := c.Index%8 == 7
	if large {
		k = 4
	}
	var vals []value.Value
	var ms []*MV
	for i := 0; i < k; i++ {
		switch {
		case large:
			w := wideCase{wideByteKinds[c.Intn(len(wideByteKinds))], []int{5000, 65536, 300000, 1 << 20}[c.Intn(4)]}
			if w.kind == "number" || w.kind == "decimal" {
				w.n = 5000
			}
			v, m := wideMk(c, w)
			vals, ms = append(vals, v), append(ms, m)
		case i%5 == 4:
			v, m := mk(c, streamModel(c.RNG), BuildOpt{Plain: true})
			vals, ms = append(vals, v), append(ms, m)
		case i%5 == 3:
			vals, ms = append(vals, value.Str(fmt.Sprint("s", i))), append(ms, mStr(fmt.Sprint("s", i)))
		default:
			vals, ms = append(vals, value.Long(int64(i))), append(ms, mLong(int64(i)))
		}
	}
	in := make(chan value.Value, c.Intn(3)*c.Intn(500))
	out := make(chan value.Value, c.Intn(3)*c.Intn(500))
	pr, pw := io.Pipe()
	rd, how := wrapReader(c.RNG, pr)
	c.Note("%d values over %s, capacities %d and %d", k, how, cap(in), cap(out))
	werr, rerr := make(chan error, 1), make(chan error, 1)
	go func() { err := value.WriteStream(pw, in); pw.Close(); werr <- err }()
	go func() { rerr <- value.ReadStream(rd, out) }()
	go func() {
		for _, v := range vals {
			in <- v
		}
		close(in)
	}()
	var got []value.Value
	for v := range out {
		i := len(got)
		c.Check(i < k, "more than the %d values sent are delivered", k)
		c.same(mnorm(project(v)), mnorm(generic(ms[i].wire())), "value %d of %d", i, k)
		got = append(got, v)
	}
	we, re := <-werr, <-rerr
	c.Check(len(got) == k, "%d of %d values are delivered", len(got), k)
	c.Check(we == nil && re == io.EOF, "WriteStream returns %v, ReadStream %v", we, re)
	for i, v := range got {
		c.same(mnorm(project(v)), mnorm(generic(ms[i].wire())), "value %d of %d, looked at after the stream ended", i, k)
	}
	c.Count("retained", int64(k))
	c.Count("delivered", int64(k))
	c.Count("wide", 1)
	c.Distinct(uint64(c.Index))
}

// wideUpdates: many elements in runs of one key here and there, updated in
// place at the ends, in the middle and within the runs.
func wideUpdates(c *Case) {
	k := []int{13, 20, 33, 65, 100, 129, 200, 257, 513, 1000, 1025, 2500}[c.Intn(12)]
	dup := []int{0, 2, 10, 50}[c.Intn(4)] // of a hundred
	run := c.Intn(5)                      // elements of one key at the start
	var v value.Value
	name := ""
	key := -c.Intn(20)
	next := func(i int) int {
		if i > run && !c.P(dup, 100) {
			key += 1 + c.Intn(3)
		}
		return key
	}
	mode := updMust
	switch c.Intn(4) {
	case 0:
		var l []value.Value
		for i := 0; i < k; i++ {
			l = append(l, value.Long(int64(i)))
		}
		v, name = value.MutableList(l), "a mutable list"
		if c.P(1, 5) {
			v, name, mode = value.ImmutableList(l), "an immutable list", updNever
		}
	case 1, 2:
		var items []value.ListItem
		for i := 0; i < k; i++ {
			items = append(items, value.MutableItem(next(i), value.Long(int64(i))))
		}
		sorted := c.Bool()
		if !sorted {
			items = c.shuffleItems(items)
		}
		v, name = value.SparseList(items, sorted), "a sparse list"
	default:
		var ents []value.MapEntry
		for i := 0; i < k; i++ {
			ents = append(ents, value.MutableEntry(fmt.Sprintf("%07d", next(i)+100), value.Long(int64(i))))
		}
		v, name = value.SortedMap(ents, true), "a sorted map"
	}
	for i := 0; i < 6; i++ {
		c.Note("%s of %d, update %d", name, k, i)
		if runUpdate(c, v, pickTarget(c, v, mode)) {
			c.Count("wide-updates", 1)
		}
	}
	c.Distinct(c.U64())
}

func (c *Case) shuffleItems(l []value.ListItem) []value.ListItem {
	out := make([]value.ListItem, len(l))
	for i, j := range c.Perm(len(l)) {
		out[i] = l[j]
	}
	return out
}
