package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"runtime"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"golang.org/x/crypto/nacl/box"
)

// ------------------------------------------------------------------ C05

type hInner struct {
	A value.String `tag:"1"`
	B value.Value  `tag:"2"`
}

type hStruct struct {
	V   value.Value    `tag:"1"`
	B   value.Bool     `tag:"2"`
	N   value.Number   `tag:"3"`
	S   value.String   `tag:"4"`
	L   value.List     `tag:"5"`
	M   value.Map      `tag:"6"`
	In  *hInner        `tag:"7"`
	Ls  []value.Value  `tag:"8"`
	Rs  []value.Number `tag:"9" repeated:"true"`
	Is  []*hInner      `tag:"10"`
	Ris []*hInner      `tag:"11" repeated:"true"`
}

type keyPair struct{ pub, priv *[32]byte }

type rngReader struct{ r *RNG }

func (k rngReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(k.r.U64() >> 11)
	}
	return len(p), nil
}

func genKeys(r *RNG) keyPair {
	pub, priv, err := box.GenerateKey(rngReader{r})
	if err != nil {
		panic(err)
	}
	return keyPair{pub, priv}
}

func totalAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

const (
	allocBase   = 1 << 20
	allocFactor = 3000
)

// useDecoded exercises what C05 promises for anything that decoded.
func useDecoded(c *Case, u value.Value) {
	if u == nil {
		return
	}
	_, err := value.Pack(u)
	c.Check(err == nil, "a decoded value cannot be packed: %v", err)
	_ = value.Jsonify(u)
	_ = u.String()
	_, _ = u.MarshalJSON()
	_ = u.Equal(u)
	_ = u.Equal(value.Null)
	_ = value.Equal(u, nil)
	for _, o := range hostilePeers {
		_ = value.Equal(u, o)
		_ = value.Equal(o, u)
	}
	c.Count("used", 1)
}

// hostilePeers: values decoded from bytes chosen by an adversary, that others
// are compared with.
var hostilePeers = func() []value.Value {
	var out []value.Value
	for _, e := range []int32{1<<31 - 1, -1 << 31, 1 << 29, 0, 5} {
		for _, z := range []int64{7, -7, 0} {
			out = append(out, value.Decimal(decimal.New(z, e)))
		}
	}
	out = append(out, value.Double(1.5), value.Double(math.Inf(1)), value.Long(3), value.BigInt(big.NewInt(3)), value.Utf8("x"), value.EmptySparseList(),
		value.SparseList([]value.ListItem{value.ImmutableItem(-5, value.True), value.ImmutableItem(1<<62, nil)}, true), value.ImmutableList([]value.Value{nil, value.Decimal(decimal.New(1, 1<<30))}))
	return out
}()

// entry points that take hostile bytes
var hostileEntries = []struct {
	name string
	run  func(b []byte) (value.Value, error)
}{
	{"Unpack(nocopy)", func(b []byte) (value.Value, error) { return value.Unpack(b, false) }},
	{"Unpack(copy)", func(b []byte) (value.Value, error) { return value.Unpack(b, true) }},
	{"Read(bytes.Reader)", func(b []byte) (value.Value, error) { return value.Read(bytes.NewReader(b)) }},
	{"Read(bytes.Buffer)", func(b []byte) (value.Value, error) { return value.Read(bytes.NewBuffer(b)) }},
	{"Read(plain)", func(b []byte) (value.Value, error) { return value.Read(plainReader{bytes.NewReader(b)}) }},
	{"ReadStream", func(b []byte) (value.Value, error) {
		out := make(chan value.Value)
		errc := make(chan error, 1)
		go func() {
			var err error
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("PANIC %v", r)
				}
				errc <- err
			}()
			err = value.ReadStream(bytes.NewReader(b), out)
		}()
		var last value.Value
		for v := range out {
			last = v
		}
		err := <-errc
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			panic(err)
		}
		return last, err
	}},
	{"UnpackStruct(nocopy)", func(b []byte) (value.Value, error) { var s hStruct; return nil, value.UnpackStruct(b, &s, false) }},
	{"UnpackStruct(copy)", func(b []byte) (value.Value, error) { var s hStruct; return nil, value.UnpackStruct(b, &s, true) }},
}

// hostile feeds b to every entry point; when measure is set, what each call
// allocates is bounded (only in sections that run alone).
func hostile(c *Case, b []byte, measure bool, entries ...int) {
	c.Note("input %s", hexShort(b))
	bound := uint64(allocBase) + allocFactor*uint64(len(b))
	for i, e := range hostileEntries {
		if len(entries) > 0 {
			found := false
			for _, x := range entries {
				found = found || x == i
			}
			if !found {
				continue
			}
		}
		keep := append([]byte{}, b...)
		var u value.Value
		var err error
		var before uint64
		if measure {
			before = totalAlloc()
		}
		c.Note("%s of %s", e.name, hexShort(b))
		u, err = e.run(keep)
		if measure {
			used := totalAlloc() - before
			c.Check(used <= bound, "%s allocates %d bytes for an input of %d bytes (bound %d)", e.name, used, len(b), bound)
			c.Count("measured", 1)
			if int64(used) > c.local["maxalloc"] {
				c.local["maxalloc"] = int64(used)
			}
		}
		c.evals++
		if err == nil {
			c.Count("decoded", 1)
			if u != nil {
				useDecoded(c, u)
			}
		} else {
			c.Count("rejected", 1)
		}
	}
	delete(c.local, "maxalloc")
	c.DistinctB(b)
}

func mutate(r *RNG, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			return r.Bytes(3)
		}
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.U64())
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i], append(r.Bytes(1+r.Intn(3)), b[i:]...)...)
		case 4:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 5: // a structural byte
			b[i] = []byte{0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xcf, 0xd3, 0xff}[r.Intn(29)]
		default:
			j := r.Intn(len(b))
			k := j + r.Intn(len(b)-j)
			b = append(b, b[j:k]...)
		}
	}
	if len(b) > 4000 {
		b = b[:4000]
	}
	return b
}

func validStructDoc(r *RNG) []byte {
	sp := &MV{K: KSparse}
	o := GenOpt{Depth: 2, Budget: 8, NoHoles: true}
	inner := func() *MV {
		return &MV{K: KSparse, P: []MItem{{1, mStr(genStr(r, 20))}, {2, gen(r, o)}}}
	}
	add := func(k int, v *MV) { sp.P = append(sp.P, MItem{k, v}) }
	add(1, gen(r, o))
	add(2, mBool(r.Bool()))
	add(3, mLong(genLong(r)))
	add(4, mStr(genStr(r, 20)))
	add(5, mList(gen(r, o), gen(r, o)))
	add(6, &MV{K: KMap, E: []MEnt{{"a", gen(r, o)}}})
	add(7, inner())
	add(8, mList(gen(r, o), gen(r, o), gen(r, o)))
	add(9, mLong(1))
	add(9, mDouble(2))
	add(10, mList(inner(), inner()))
	add(11, inner())
	add(11, inner())
	if r.P(1, 8) {
		for i := r.Intn(120); i > 0; i-- {
			if r.Bool() {
				add(9, mLong(genLong(r)))
			} else {
				add(11, &MV{K: KSparse, P: []MItem{{1, mStr("s")}}})
			}
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		j := r.Intn(len(sp.P))
		sp.P = append(sp.P[:j], sp.P[j+1:]...)
	}
	return refEncode(sp)
}

var bombHeads = func() [][]byte {
	var out [][]byte
	for _, n := range []uint64{1, 16, 255, 1000, 65535, 65536, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, code := range []byte{0xdd, 0xdf, 0xc6, 0xdb} {
			out = append(out, be32([]byte{code}, n))
		}
		out = append(out, append(be32([]byte{0xc9}, n), 5), append(be32([]byte{0xc9}, n), 1), append(be32([]byte{0xc9}, n), 2))
		if n <= 65535 {
			for _, code := range []byte{0xdc, 0xde, 0xc5, 0xda} {
				out = append(out, be16([]byte{code}, n))
			}
			out = append(out, append(be16([]byte{0xc8}, n), 1))
		}
	}
	out = append(out, []byte{0x9f}, []byte{0x8f}, []byte{0xbf})
	return out
}()

var bigHeads = func() [][]byte {
	var out [][]byte
	for _, h := range bombHeads {
		if len(h) >= 5 && h[1] >= 0x01 { // 1<<24 and more
			out = append(out, h)
		}
	}
	return out
}()
var bombBodies = []int{900, 4000, 33000, 65520, 65536, 131072, 200000, 262144, 1 << 20}

var deepLens = []int{100, 5000, 100000, 1000000, 4000000}

// one level of nesting each in an sRec: a pointer, a slice, a repeated field, a plain value
var recPaths = [][]byte{{0x81, 0x02}, {0x81, 0x03, 0x91}, {0x81, 0x04}, {0x81, 0x01}, {0x82, 0x01, 0xc0, 0x02}, {0x81, 0x03, 0xdd, 0, 0, 0, 1}, {0x82, 0x04, 0x80, 0x04}, {0x81, 0x03, 0x9f}}
var deepKinds = [][]byte{{0x91}, {0x81, 0xa0}, {0x81, 0x01}, {0x92, 0xc0}, {0xdc, 0x00, 0x01}, {0x81}, {0xdf, 0, 0, 0, 1}, {0x81, 0x01, 0x91}, {0x9f}, {0xdd, 0xff, 0xff, 0xff, 0xff}}

func init() {
	register(&Prop{
		ID:    "C05",
		Rule:  "a case is one byte string fed to every decode entry point (memory with and without copying, readers, streams, structs, sealed messages); allocation per call is measured in the sections that run alone; distinct = different byte strings",
		Needs: []string{"measured", "decoded", "rejected", "used", "deep-struct", "number-keys"},
		Sections: []Section{
			{Name: "bombs", Serial: true, N: n(len(bombHeads)*6, len(bombHeads)*30), Run: func(c *Case) {
				h := bombHeads[c.Index%len(bombHeads)]
				var b []byte
				switch c.Index / len(bombHeads) % 6 {
				case 0:
					b = h
				case 1: // some real elements follow
					b = append(append(b, h...), bytes.Repeat([]byte{0x01}, 40)...)
				case 2: // nested claims
					b = bytes.Repeat(h, 200)
				case 3: // inside a struct: array field, repeated field, inner struct
					tag := []byte{5, 8, 10, 1, 7, 4, 9}[c.Intn(7)]
					b = append([]byte{0x81, tag}, append(append([]byte{}, h...), bytes.Repeat([]byte{0x81, 0x01, 0xa1, 'x'}, 5)...)...)
				case 4: // after a valid prefix
					b = append([]byte{0x93, 0x01, 0xa1, 'a'}, h...)
				default: // map keys that are claims
					b = append([]byte{0x82, 0x01, 0x02}, h...)
					b = append(b, 0xa1, 'k', 0x01)
				}
				c.Sample("%s", hexShort(b))
				hostile(c, b, true)
			}},
			{Name: "long-bombs", Serial: true, N: n(len(bigHeads)*len(bombBodies), len(bigHeads)*len(bombBodies)*8), Run: func(c *Case) {
				// a good part of what the header claims is really there
				h := bigHeads[c.Index%len(bigHeads)]
				l := bombBodies[c.Index/len(bigHeads)%len(bombBodies)] + c.Intn(9)
				fill := [][]byte{{0x00}, {0xc0}, {'x'}, {0xa1, 'k'}, {0x91, 0x01}, {0x80}, {0xc4, 0x02, 1, 2}}[c.Intn(7)]
				b := append(append([]byte{}, h...), bytes.Repeat(fill, l/len(fill)+1)...)
				if c.P(1, 3) {
					b = append(b, h...)
				}
				if c.P(1, 4) {
					b = append([]byte{0x82, 0x01, 0x05, []byte{8, 1, 7, 4, 5}[c.Intn(5)]}, b...)
				}
				c.Note("a header %x and then %d bytes", h, len(b)-len(h))
				if l > 300000 {
					hostile(c, b, true, 0, 2, 4, 6)
				} else {
					hostile(c, b, true)
				}
			}},
			{Name: "deep", Serial: true, N: n(len(deepLens)*len(deepKinds), len(deepLens)*len(deepKinds)), Run: func(c *Case) {
				k := deepKinds[c.Index%len(deepKinds)]
				l := deepLens[c.Index/len(deepKinds)] / len(k)
				b := bytes.Repeat(k, l)
				if c.Index%2 == 0 {
					b = append(b, 0x01)
				}
				c.Note("%d levels of %x", l, k)
				if l > 200000 {
					hostile(c, b, true, 0, 4, 6)
				} else {
					hostile(c, b, true, 0, 2, 6)
				}
				// the same below a struct field
				hostile(c, append([]byte{0x81, 0x01}, b...), true, 6)
				hostile(c, append([]byte{0x81, 0x08, 0x91}, b...), true, 7)
			}},
			{Name: "deep-struct", Serial: true, N: n(len(deepLens)*len(recPaths), len(deepLens)*len(recPaths)), Run: func(c *Case) {
				k := recPaths[c.Index%len(recPaths)]
				l := deepLens[c.Index/len(recPaths)] / len(k)
				b := bytes.Repeat(k, l)
				tail := [][]byte{{0x80}, {}, {0x81, 0x01, 0x05}, {0x81, 0x0c, 0x05}, {0xc0}}[c.Intn(5)]
				b = append(b, tail...)
				c.Note("%d levels of %x, then %x, into a recursive struct", l, k, tail)
				var s sRec
				before := totalAlloc()
				err := value.UnpackStruct(b, &s, c.Bool())
				used := totalAlloc() - before
				bound := uint64(allocBase) + allocFactor*uint64(len(b))
				c.Check(used <= bound, "UnpackStruct allocates %d bytes for an input of %d bytes (bound %d)", used, len(b), bound)
				if err == nil {
					_, err = value.PackStruct(&s)
					c.Check(err == nil, "an unpacked struct does not pack: %v", err)
				} else {
					c.Check(len(err.Error()) < 10000, "the error text has %d bytes", len(err.Error()))
				}
				c.Count("measured", 1)
				c.Count("deep-struct", 1)
				c.DistinctB(append(be32(append([]byte{}, k...), uint64(l)), tail...))
			}},
			{Name: "number-keys", N: n(8000, 100000), Run: func(c *Case) {
				key := func() []byte {
					switch c.Intn(6) {
					case 0:
						return refEncode(mDec(genBig(c.RNG, false), genHugeExp(c.RNG)))
					case 1:
						return refEncode(mDec(big.NewInt(int64(1+c.Intn(9))), []int32{1<<31 - 1, -1 << 31, 1 << 29, -(1 << 29), 100000000}[c.Intn(5)]))
					case 2:
						return refEncode(mBig(genBig(c.RNG, false)))
					case 3:
						return refEncode(mDouble(genDouble(c.RNG, false)))
					case 4:
						return be64([]byte{0xcf}, c.U64()|1<<63)
					}
					return refEncode(mLong(genLong(c.RNG)))
				}
				k := 1 + c.Intn(5)
				b := []byte{0x80 | byte(k)}
				for i := 0; i < k; i++ {
					b = append(append(b, key()...), refEncode(mLong(int64(i)))...)
				}
				if c.P(1, 3) {
					b = append([]byte{0x81, []byte{1, 7, 11}[c.Intn(3)]}, b...)
				}
				hostile(c, b, false)
				c.Count("number-keys", 1)
			}},
			{Name: "measured-random", Serial: true, N: n(3000, 40000), Run: func(c *Case) {
				var b []byte
				if c.Bool() {
					b, _, _ = genForeign(c.RNG)
					b = mutate(c.RNG, b)
				} else {
					b = mutate(c.RNG, validStructDoc(c.RNG))
				}
				hostile(c, b, true)
			}},
			{Name: "large-valid", Serial: true, N: n(len(sizeCases)/4, len(sizeCases)), Run: func(c *Case) {
				sc := sizeCases[c.Intn(len(sizeCases))]
				b := refEncode(sizeModel(c.RNG, sc))
				c.Note("%s of size %d", sc.kind, sc.n)
				hostile(c, b, true, 0, 1, 2, 4)
			}},
			{Name: "random", N: n(60000, 2000000), Run: func(c *Case) {
				b := c.Bytes(c.Intn(60))
				if c.Bool() && len(b) > 0 {
					b[0] = byte(0x80 + c.Intn(0x60))
				}
				hostile(c, b, false)
			}},
			{Name: "mutated", N: n(60000, 2000000), Run: func(c *Case) {
				b, _, _ := genForeign(c.RNG)
				hostile(c, mutate(c.RNG, b), false)
			}},
			{Name: "mutated-struct", N: n(40000, 1000000), Run: func(c *Case) {
				hostile(c, mutate(c.RNG, validStructDoc(c.RNG)), false)
			}},
			{Name: "ext-bodies", N: n(20000, 300000), Run: func(c *Case) {
				tag := byte(c.Intn(4))
				if c.P(1, 8) {
					tag = byte(c.U64())
				}
				body := c.Bytes(c.Intn(24))
				if len(body) > 0 && c.Bool() {
					body[0] = byte(2 + c.Intn(2))
				}
				if tag == 2 && len(body) > 4 && c.Bool() {
					body[4] = 2
				}
				b := encExt(nil, tag, body, &Style{r: c.RNG, wide: 2})
				if c.Bool() {
					b = append([]byte{0x93}, append(append([]byte{}, b...), 0x81, 0x01, 0x02, 0x03)...)
				}
				if c.P(1, 4) { // as a map key
					b = append([]byte{0x81}, append(append([]byte{}, b...), 0x01)...)
				}
				hostile(c, b, false)
			}},
			{Name: "sealed", N: n(6000, 60000), Run: func(c *Case) {
				a, b := genKeys(c.RNG), genKeys(c.RNG)
				var msg []byte
				switch c.Intn(4) {
				case 0:
					msg = c.Bytes(c.Intn(60))
				case 1:
					msg = c.Bytes(c.Index % 48)
				default:
					var nonce [24]byte
					copy(nonce[:], c.Bytes(24))
					var plain []byte
					switch c.Intn(3) {
					case 0:
						plain, _, _ = genForeign(c.RNG)
						plain = mutate(c.RNG, plain)
					case 1:
						plain = bombHeads[c.Intn(len(bombHeads))]
					default:
						plain = c.Bytes(c.Intn(30))
					}
					msg = box.Seal(nonce[:], plain, &nonce, b.pub, a.priv)
					if c.P(1, 3) {
						msg = mutate(c.RNG, msg)
					}
				}
				c.Note("sealed message of %d bytes", len(msg))
				v, err := value.Unseal(msg, a.pub, b.priv)
				if err == nil {
					useDecoded(c, v)
					c.Count("decoded", 1)
				} else {
					c.Count("rejected", 1)
				}
				c.evals++
			}},
			{Name: "fresh-struct-types", N: n(3000, 30000), Run: func(c *Case) {
				typ := genStructType(c.RNG, 2)
				doc := genStructDoc(c.RNG, typ)
				for i := 0; i < 6; i++ {
					b := mutate(c.RNG, doc)
					p := newStruct(typ)
					c.Note("struct %v from %s", typ, hexShort(b))
					err := value.UnpackStruct(b, p, c.Bool())
					if err != nil {
						c.Count("rejected", 1)
					} else {
						c.Count("decoded", 1)
					}
					c.evals++
				}
			}},
		},
	})
}

var _ = crand.Reader
var _ = binary.BigEndian

// ------------------------------------------------------------------ C06

func cuts(r *RNG, k int, max int) []int {
	if k <= max {
		out := make([]int, k)
		for i := range out {
			out[i] = i
		}
		return out
	}
	m := map[int]bool{}
	for i := 0; i < 12; i++ {
		m[i] = true
		m[k-1-i] = true
	}
	for len(m) < max {
		m[r.Intn(k)] = true
	}
	out := make([]int, 0, len(m))
	for i := range m {
		out = append(out, i)
	}
	return out
}

func truncated(c *Case, b []byte, maxCuts int, what string) {
	for _, k := range cuts(c.RNG, len(b), maxCuts) {
		p := append([]byte{}, b[:k]...)
		check := func(how string, v value.Value, err error) {
			c.evals++
			if err == nil {
				c.Failf("%s accepts %d of the %d bytes of %s as %v", how, k, len(b), what, project(v))
			}
			if (err == io.EOF) != (k == 0) {
				c.Failf("%s of %d of the %d bytes of %s returns the error %v", how, k, len(b), what, err)
			}
		}
		v, err := value.Unpack(p, false)
		check("Unpack(nocopy)", v, err)
		v, err = value.Unpack(p, true)
		check("Unpack(copy)", v, err)
		v, err = value.Read(bytes.NewReader(p))
		check("Read(bytes.Reader)", v, err)
		v, err = value.Read(plainReader{bytes.NewReader(p)})
		check("Read(plain reader)", v, err)
		v, err = value.Read(newZoo(c.RNG, p))
		check("Read(chunked reader)", v, err)
		c.Count("cuts", 1)
	}
}

func init() {
	register(&Prop{
		ID:    "C06",
		Rule:  "a case is one encoding (of a value, a stream or a struct) of which every strict prefix (all cut positions, sampled beyond 400 bytes) goes through every decode entry point; distinct = different encodings",
		Needs: []string{"cuts", "stream-cuts", "struct-cuts"},
		Sections: []Section{
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				m := sysScalars[c.Index]
				truncated(c, refOrPack(c, m), 40, m.String())
			}},
			{Name: "trees", N: n(6000, 150000), Run: func(c *Case) {
				m := genColl(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 4 + c.Intn(25), MaxStr: 40})
				v, m := mk(c, m, BuildOpt{})
				b := mustPack(c, v)
				c.Note("value %v", m)
				c.Sample("%v", m)
				truncated(c, b, 400, m.String())
				c.DistinctB(b)
			}},
			{Name: "foreign", N: n(2000, 50000), Run: func(c *Case) {
				b, m, _ := genForeign(c.RNG)
				truncated(c, b, 200, m.String())
			}},
			{Name: "formats", N: n(len(sysDocs), len(sysDocs)), Run: func(c *Case) { truncated(c, sysDocs[c.Index], 60, "a document") }},
			{Name: "sizes", N: n(len(sizeCases), len(sizeCases)), Run: func(c *Case) {
				v, m := sizeBuild(c, sizeCases[c.Index])
				truncated(c, mustPack(c, v), 50, m.String())
			}},
			{Name: "streams", N: n(4000, 80000), Run: func(c *Case) { cutStream(c, 1+c.Intn(5), 120) }},
			{Name: "long-streams", N: n(200, 4000), Run: func(c *Case) {
				cutStream(c, []int{17, 40, 64, 65, 66, 100, 129, 200, 257, 300, 600, 1025, 1500, 4097}[c.Index%14]+c.Intn(4), 6)
			}},
			{Name: "structs", N: n(3000, 50000), Run: func(c *Case) {
				b := validStructDoc(c.RNG)
				var whole hStruct
				if err := value.UnpackStruct(b, &whole, true); err != nil {
					c.Failf("the complete struct does not unpack: %v", err)
				}
				for _, k := range cuts(c.RNG, len(b), 300) {
					var s hStruct
					err := value.UnpackStruct(append([]byte{}, b[:k]...), &s, c.Bool())
					c.Check(err != nil, "UnpackStruct accepts %d of %d bytes of %s", k, len(b), hexShort(b))
					c.Check(!errors.Is(err, io.EOF) || k == 0, "UnpackStruct of %d of %d bytes returns %v", k, len(b), err)
					c.Count("struct-cuts", 1)
				}
				c.DistinctB(b)
			}},
			{Name: "sealed-truncated-plaintext", N: n(1000, 10000), Run: func(c *Case) {
				b := refEncode(genColl(c.RNG, GenOpt{Depth: 2, Budget: 10, MaxStr: 20}))
				a, k := genKeys(c.RNG), genKeys(c.RNG)
				cut := c.Intn(len(b))
				var nonce [24]byte
				copy(nonce[:], c.Bytes(24))
				msg := box.Seal(nonce[:], b[:cut], &nonce, k.pub, a.priv)
				_, err := value.Unseal(msg, a.pub, k.priv)
				c.Check(err != nil, "Unseal accepts a message that holds %d of %d bytes of a packed value", cut, len(b))
			}},
		},
	})
}

// refOrPack packs m with the code under test.
func refOrPack(c *Case, m *MV) []byte {
	v, _ := mk(c, m, BuildOpt{Plain: true})
	return mustPack(c, v)
}

// cutStream: k objects, the input ends at some places in them.
func cutStream(c *Case, k, n int) {
	o := GenOpt{Depth: 2, Budget: 8, MaxStr: 20}
	if k > 16 {
		o = GenOpt{Depth: 1, Budget: 2, MaxStr: 8}
	}
	var b []byte
	ends := []int{0}
	for i := 0; i < k; i++ {
		v, _ := mk(c, gen(c.RNG, o), BuildOpt{})
		b = append(b, mustPack(c, v)...)
		ends = append(ends, len(b))
	}
	at := cuts(c.RNG, len(b)+1, n)
	if k > 16 { // inside of one of the last objects
		for j := 0; j < n; j++ {
			e := ends[len(ends)-1-c.Intn(k)]
			at = append(at, max(0, e-1-c.Intn(3)), e)
		}
	}
	for _, cut := range at {
		whole, clean := 0, false
		for i, e := range ends {
			if e <= cut {
				whole = i
				clean = e == cut
			}
		}
		var rd io.Reader = bytes.NewReader(b[:cut])
		if c.Bool() {
			rd = newZoo(c.RNG, b[:cut])
		}
		out := make(chan value.Value, k+1)
		err := value.ReadStream(rd, out)
		got := 0
		for range out {
			got++
		}
		c.Check(got == whole, "a stream cut at %d (objects end at %v) delivers %d values", cut, ends, got)
		c.Check(err != nil && (err == io.EOF) == clean, "a stream cut at %d (objects end at %v) ends with %v", cut, ends, err)
		// the same through one unpacker
		up, ps := value.MessageUnpacker(b[:cut], true), value.MessageParser()
		got = 0
		for {
			var v value.Value
			v, err = value.Parse(up, ps)
			if err != nil {
				break
			}
			_ = v
			got++
		}
		c.Check(got == whole && (err == io.EOF) == clean, "parsing bytes cut at %d (objects end at %v): %d values, then %v", cut, ends, got, err)
		c.Count("stream-cuts", 1)
	}
	c.DistinctB(b)

}
