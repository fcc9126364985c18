package main

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ------------------------------------------------------------------ C24

var hashes = []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA512_256}

// encodings runs every way to encode one value.
func encodings(c *Case, v value.Value, m *MV) []byte {
	ref, err := value.Pack(v)
	c.Check(err == nil, "Pack(%v): %v", m, err)
	one := func(name string, f func() ([]byte, error)) {
		var b []byte
		var err error
		if p := try(func() { b, err = f() }); p != nil {
			c.Failf("%s of %v panics: %v", name, m, p)
		}
		c.Check(err == nil, "%s of %v: %v", name, m, err)
		c.sameBytes(b, ref, "%s of %v against Pack", name, m)
		c.Count("enc:"+name, 1)
	}
	one("Pack again", func() ([]byte, error) { return value.Pack(v) })
	one("Write", func() ([]byte, error) {
		var w bytes.Buffer
		err := value.Write(&w, v)
		return w.Bytes(), err
	})
	one("WriteStream", func() ([]byte, error) {
		var w bytes.Buffer
		ch := make(chan value.Value, 1)
		ch <- v
		close(ch)
		err := value.WriteStream(&w, ch)
		return w.Bytes(), err
	})
	one("PackStruct", func() ([]byte, error) {
		if v == nil {
			return value.PackStruct(nil)
		}
		return value.PackStruct(v)
	})
	one("Hex", func() ([]byte, error) {
		s := value.Hex(v)
		if s != strings.ToLower(s) {
			return nil, fmt.Errorf("Hex is not lower-case: %.80s", s)
		}
		return hex.DecodeString(s)
	})
	h := hashes[c.Intn(len(hashes))]
	one("Hash", func() ([]byte, error) {
		data, sum, err := value.Hash(v, h)
		d := h.New()
		d.Write(ref)
		if err == nil && !bytes.Equal(sum, d.Sum(nil)) {
			return nil, fmt.Errorf("the hash %v is %x, the digest of the packed bytes is %x", h, sum, d.Sum(nil))
		}
		return data, err
	})
	if v == nil {
		return ref
	}
	one("MarshalBinary", func() ([]byte, error) { return v.MarshalBinary() })
	one("MessagePacker", func() ([]byte, error) {
		var w bytes.Buffer
		p := value.MessagePacker(&w)
		v.Pack(p)
		return w.Bytes(), p.Error()
	})
	return ref
}

type decodeWay struct {
	name string
	f    func(c *Case, b []byte) (value.Value, error)
}

var decodeWays = []decodeWay{
	{"Unpack sharing", func(c *Case, b []byte) (value.Value, error) { return value.Unpack(b, false) }},
	{"Unpack copying", func(c *Case, b []byte) (value.Value, error) { return value.Unpack(b, true) }},
	{"Read", func(c *Case, b []byte) (value.Value, error) { return value.Read(bytes.NewReader(b)) }},
	{"Read from a zoo reader", func(c *Case, b []byte) (value.Value, error) { return value.Read(newZoo(c.RNG, b)) }},
	{"Read from a plain reader", func(c *Case, b []byte) (value.Value, error) {
		return value.Read(plainReader{bytes.NewReader(b)})
	}},
	{"ReadStream", func(c *Case, b []byte) (value.Value, error) {
		ch := make(chan value.Value, len(b)+2)
		err := value.ReadStream(bytes.NewBuffer(append([]byte{}, b...)), ch)
		v, ok := <-ch
		if ok {
			return v, nil
		}
		return nil, err
	}},
	{"Parse on a reused unpacker", func(c *Case, b []byte) (value.Value, error) {
		pre := [][]byte{{0xc0}, {0x93, 1, 2, 3}, {0xa3, 'a', 'b', 'c'}, {0xc4, 1, 9}, {0xd4, 5, 7}, {0x82, 0xa1, 'k', 1, 0xa1, 'l', 2}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}}[c.Intn(7)]
		up, ps := value.MessageUnpacker(append(append([]byte{}, pre...), b...), c.Bool()), value.MessageParser()
		if _, err := value.Parse(up, ps); err != nil {
			return nil, fmt.Errorf("prefix %x: %w", pre, err)
		}
		return value.Parse(up, ps)
	}},
	{"Parse on a reused reader", func(c *Case, b []byte) (value.Value, error) {
		pre := [][]byte{{0xc0}, {0x93, 1, 2, 3}, {0xa3, 'a', 'b', 'c'}, {0xc4, 1, 9}, {0xd4, 5, 7}, {0x82, 0xa1, 'k', 1, 0xa1, 'l', 2}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}}[c.Intn(7)]
		up, ps := value.MessageReader(bytes.NewReader(append(append([]byte{}, pre...), b...))), value.MessageParser()
		if _, err := value.Parse(up, ps); err != nil {
			return nil, fmt.Errorf("prefix %x: %w", pre, err)
		}
		return value.Parse(up, ps)
	}},
}

func decodings(c *Case, b []byte) (*MV, bool) {
	orig := append([]byte{}, b...)
	var first *MV
	var firstErr error
	for i, w := range decodeWays {
		var v value.Value
		var err error
		if p := try(func() { v, err = w.f(c, b) }); p != nil {
			c.Failf("%s panics on %s: %v", w.name, hexShort(b), p)
		}
		c.Count("dec:"+w.name, 1)
		var m *MV
		if err == nil {
			c.Check(v != nil, "%s of %s: no value and no error", w.name, hexShort(b))
			m = mnorm(project(v))
		}
		if i == 0 {
			first, firstErr = m, err
			continue
		}
		c.Check((err == nil) == (firstErr == nil), "%s of %s gives the error %v, %s gives %v", w.name, hexShort(b), err, decodeWays[0].name, firstErr)
		c.Check(errClass(err) == errClass(firstErr), "%s of %s gives the error %v, %s gives %v", w.name, hexShort(b), err, decodeWays[0].name, firstErr)
		if err == nil {
			c.same(m, first, "%s of %s against %s", w.name, hexShort(b), decodeWays[0].name)
		}
	}
	c.sameBytes(b, orig, "the input after decoding it")
	if first == nil {
		c.Count("rejected", 1)
		return nil, false
	}
	c.Count("accepted", 1)
	return first, true
}

func init() {
	register(&Prop{
		ID:    "C24",
		Rule:  "a case is one value taken through every encoding entry point, or one byte string through every decoding one, or a sequence through reused packers and unpackers; distinct by bytes",
		Needs: []string{"enc:Write", "enc:WriteStream", "enc:PackStruct", "enc:Hex", "enc:Hash", "enc:MarshalBinary", "enc:MessagePacker", "accepted", "rejected", "nil", "sequences"},
		Sections: []Section{
			{Name: "nil", N: n(40, 200), Run: func(c *Case) {
				b := encodings(c, nil, mNil)
				c.sameBytes(b, []byte{0xc0}, "a nil value")
				c.sameBytes(encodings(c, value.Null, mNull), []byte{0xc0}, "Null")
				// nil among others in a stream
				var w bytes.Buffer
				ch := make(chan value.Value, 5)
				for _, v := range []value.Value{value.Long(1), nil, value.Str("x"), nil, value.True} {
					ch <- v
				}
				close(ch)
				var err error
				if p := try(func() { err = value.WriteStream(&w, ch) }); p != nil {
					c.Failf("WriteStream with nil values panics: %v", p)
				}
				c.Check(err == nil, "WriteStream with nil values: %v", err)
				c.sameBytes(w.Bytes(), []byte{1, 0xc0, 0xa1, 'x', 0xc0, 0xc3}, "a stream with nil values")
				// nil inside collections
				for _, v := range []value.Value{
					value.ImmutableList([]value.Value{nil}), value.MutableList([]value.Value{nil}), value.Tuple(nil), value.Single(nil),
				} {
					c.sameBytes(encodings(c, v, mList(mNil)), []byte{0x91, 0xc0}, "a list with nil")
				}
				for _, v := range []value.Value{
					value.ImmutableMapOf(map[string]value.Value{"a": nil}), value.SortedMapOf(map[string]value.Value{"a": nil}),
					value.SortedMap([]value.MapEntry{value.MutableEntry("a", nil)}, true), value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("a", nil)}, true),
				} {
					c.sameBytes(encodings(c, v, mNull), []byte{0x81, 0xa1, 'a', 0xc0}, "a map with nil")
				}
				for _, v := range []value.Value{
					value.SparseList([]value.ListItem{value.MutableItem(3, nil)}, true), value.SparseList([]value.ListItem{value.ImmutableItem(3, nil)}, false),
				} {
					c.sameBytes(encodings(c, v, mNull), []byte{0x81, 3, 0xc0}, "a sparse list with nil")
				}
				c.Count("nil", 1)
			}},
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				v, m := mk(c, sysScalars[c.Index], BuildOpt{})
				b := encodings(c, v, m)
				decodings(c, b)
				c.DistinctB(b)
			}},
			{Name: "values", N: n(15000, 800000), Run: func(c *Case) {
				m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(5), Budget: 5 + c.Intn(60)})
				v, m := mk(c, m, BuildOpt{Immutable: c.P(1, 4)})
				c.Note("%v", m)
				b := encodings(c, v, m)
				if _, ok := decodings(c, b); !ok {
					c.Failf("the packed bytes of %v do not decode", m)
				}
				c.DistinctB(b)
				c.Sample("%v", m)
			}},
			{Name: "large-values", N: n(60, 1500), Run: func(c *Case) {
				k := []int{16, 255, 256, 4095, 4096, 4097, 65535, 65536, 70000}[c.Index%9]
				var m *MV
				switch c.Index / 9 % 5 {
				case 0:
					m = mStr(strings.Repeat("a", k))
				case 1:
					m = mRaw(string(c.Bytes(k)))
				case 2:
					m = mExt(77, string(c.Bytes(k)))
				case 3:
					m = &MV{K: KList}
					for i := 0; i < k; i++ {
						m.L = append(m.L, mLong(int64(i%300)))
					}
				case 4:
					m = &MV{K: KMap}
					for i := 0; i < k; i++ {
						m.E = append(m.E, MEnt{fmt.Sprintf("%06d", i), mLong(int64(i % 130))})
					}
				}
				v, m := mk(c, m, BuildOpt{Plain: true})
				b := encodings(c, v, m)
				if _, ok := decodings(c, b); !ok {
					c.Failf("the packed bytes of a %d-sized value do not decode", k)
				}
				c.Distinct(uint64(c.Index))
			}},
			{Name: "foreign-bytes", N: n(12000, 600000), Run: func(c *Case) {
				b, _, _ := genForeign(c.RNG)
				c.Note("%s", hexShort(b))
				decodings(c, b)
				c.DistinctB(b)
			}},
			{Name: "broken-bytes", N: n(15000, 800000), Run: func(c *Case) {
				var b []byte
				if c.P(1, 4) {
					b = c.Bytes(c.Intn(24))
				} else {
					b, _, _ = genForeign(c.RNG)
					if len(b) > 300 {
						b = b[:300]
					}
					b = mutate(c.RNG, append([]byte{}, b...))
				}
				c.Note("%s", hexShort(b))
				decodings(c, b)
				c.DistinctB(b)
			}},
			{Name: "sequences", N: n(3000, 150000), Run: func(c *Case) {
				k := 1 + c.Intn(12)
				var all, one bytes.Buffer
				p := value.MessagePacker(&all)
				ch := make(chan value.Value, k)
				var ms []*MV
				var want []byte
				for i := 0; i < k; i++ {
					v, m := mk(c, gen(c.RNG, GenOpt{Depth: 3, Budget: 15, NoHoles: true}), BuildOpt{})
					if m.K == KSparse && len(m.P) == 0 {
						m = &MV{K: KMap}
					}
					v.Pack(p)
					c.Check(p.Error() == nil, "packer error after %d values: %v", i, p.Error())
					err := value.Write(&one, v)
					c.Check(err == nil, "Write: %v", err)
					ch <- v
					ms = append(ms, m.wire())
					want = append(want, mustPack(c, v)...)
				}
				close(ch)
				c.sameBytes(all.Bytes(), want, "%d values through one packer", k)
				c.sameBytes(one.Bytes(), want, "%d values written one after another", k)
				var st bytes.Buffer
				err := value.WriteStream(&st, ch)
				c.Check(err == nil, "WriteStream: %v", err)
				c.sameBytes(st.Bytes(), want, "%d values streamed", k)
				ups := map[string]value.Unpacker{
					"a sharing unpacker": value.MessageUnpacker(append([]byte{}, want...), false),
					"a copying unpacker": value.MessageUnpacker(append([]byte{}, want...), true),
					"a reader":           value.MessageReader(bytes.NewReader(want)),
					"a zoo reader":       value.MessageReader(newZoo(c.RNG, want)),
				}
				for name, up := range ups {
					ps := value.MessageParser()
					var got []value.Value
					for i := 0; i < k; i++ {
						v, err := value.Parse(up, ps)
						c.Check(err == nil, "Parse %d of %d from %s: %v", i, k, name, err)
						got = append(got, v)
					}
					_, err := value.Parse(up, ps)
					c.Check(err == io.EOF, "Parse after the end from %s: %v", name, err)
					for i, v := range got {
						c.same(project(v), ms[i], "value %d of %d from %s", i, k, name)
					}
				}
				out := make(chan value.Value, k+1)
				_ = value.ReadStream(bytes.NewReader(want), out)
				i := 0
				for v := range out {
					c.same(project(v), ms[i], "value %d of %d from ReadStream", i, k)
					i++
				}
				c.Check(i == k, "ReadStream yields %d of %d values", i, k)
				rd := bytes.NewReader(want)
				for i := 0; i < k; i++ {
					v, err := value.Read(rd)
					c.Check(err == nil, "Read %d: %v", i, err)
					c.same(project(v), ms[i], "value %d of %d from Read", i, k)
				}
				c.Count("sequences", 1)
				c.DistinctB(want)
			}},
		},
	})
}

// ------------------------------------------------------------------ C25

type refToken struct {
	f       value.Format
	hdr     int // header bytes, code included
	payload int // bytes to Read after the header
	i       int64
	u       bool // above the int64 range: the parsed number is not claimed
	d       uint64
	b       bool
	n       int    // length
	ext     []byte // tag and data of a fixed-size extension
}

// refTok is the MessagePack format table, from the specification.
func refTok(b []byte) (t refToken, ok bool) {
	code := b[0]
	need := func(w int) []byte {
		t.hdr = 1 + w
		if len(b) < t.hdr {
			return nil
		}
		return b[1:t.hdr]
	}
	uns := func(p []byte) (v uint64) {
		for _, x := range p {
			v = v<<8 | uint64(x)
		}
		return
	}
	switch {
	case code <= 0x7f:
		return refToken{f: value.LongToken, hdr: 1, i: int64(code)}, true
	case code <= 0x8f:
		return refToken{f: value.MapHeader, hdr: 1, n: int(code & 15)}, true
	case code <= 0x9f:
		return refToken{f: value.ListHeader, hdr: 1, n: int(code & 15)}, true
	case code <= 0xbf:
		k := int(code & 31)
		return refToken{f: value.StrHeader, hdr: 1, n: k, payload: k}, true
	case code >= 0xe0:
		return refToken{f: value.LongToken, hdr: 1, i: int64(int8(code))}, true
	}
	var p []byte
	switch code {
	case 0xc0:
		return refToken{f: value.NilToken, hdr: 1}, true
	case 0xc2, 0xc3:
		return refToken{f: value.BoolToken, hdr: 1, b: code == 0xc3}, true
	case 0xc4, 0xc5, 0xc6:
		t.f = value.BinHeader
		if p = need(1 << (code - 0xc4)); p != nil {
			t.n = int(uns(p))
			t.payload = t.n
		}
	case 0xc7, 0xc8, 0xc9:
		t.f = value.ExtHeader
		if p = need(1 << (code - 0xc7)); p != nil {
			t.n = int(uns(p))
			t.payload = t.n + 1
		}
	case 0xca:
		t.f = value.DoubleToken
		if p = need(4); p != nil {
			t.d = math.Float64bits(float64(math.Float32frombits(uint32(uns(p)))))
		}
	case 0xcb:
		t.f = value.DoubleToken
		if p = need(8); p != nil {
			t.d = uns(p)
		}
	case 0xcc, 0xcd, 0xce, 0xcf:
		t.f = value.LongToken
		if p = need(1 << (code - 0xcc)); p != nil {
			t.i = int64(uns(p))
			t.u = t.i < 0
		}
	case 0xd0, 0xd1, 0xd2, 0xd3:
		t.f = value.LongToken
		w := 1 << (code - 0xd0)
		if p = need(w); p != nil {
			sh := uint(64 - 8*w)
			t.i = int64(uns(p)<<sh) >> sh
		}
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		t.f = value.FixExtToken
		w := 1 << (code - 0xd4)
		if p = need(1 + w); p != nil {
			t.n, t.ext = w, p
		}
	case 0xd9, 0xda, 0xdb:
		t.f = value.StrHeader
		if p = need(1 << (code - 0xd9)); p != nil {
			t.n = int(uns(p))
			t.payload = t.n
		}
	case 0xdc, 0xdd:
		t.f = value.ListHeader
		if p = need(2 << (code - 0xdc)); p != nil {
			t.n = int(uns(p))
		}
	case 0xde, 0xdf:
		t.f = value.MapHeader
		if p = need(2 << (code - 0xde)); p != nil {
			t.n = int(uns(p))
		}
	}
	return t, p != nil
}

func formatName(f value.Format) string {
	l := []string{"EOF", "UnexpectedEOF", "NilToken", "BoolToken", "LongToken", "DoubleToken", "FixExtToken", "BinHeader", "StrHeader", "ListHeader", "MapHeader", "ExtHeader"}
	if int(f) >= 0 && int(f) < len(l) {
		return l[f]
	}
	return fmt.Sprintf("Format(%d)", int(f))
}

// family names the parse functions that accept a code.
func parseAll(b []byte) map[string]struct {
	err error
	i   int64
	d   uint64
	x   []byte
} {
	type R = struct {
		err error
		i   int64
		d   uint64
		x   []byte
	}
	r := map[string]R{}
	one := func(name string, f func(p value.Parser) R) {
		p := value.MessageParser()
		x := f(p)
		x.err = p.Error()
		r[name] = x
	}
	one("bool", func(p value.Parser) (x R) {
		if p.ParseBool(b) {
			x.i = 1
		}
		return
	})
	one("long", func(p value.Parser) (x R) { x.i = p.ParseLong(b); return })
	one("double", func(p value.Parser) (x R) { x.d = math.Float64bits(p.ParseDouble(b)); return })
	one("bin", func(p value.Parser) (x R) { x.i = int64(p.ParseBin(b)); return })
	one("str", func(p value.Parser) (x R) { x.i = int64(p.ParseStr(b)); return })
	one("list", func(p value.Parser) (x R) { x.i = int64(p.ParseList(b)); return })
	one("map", func(p value.Parser) (x R) { x.i = int64(p.ParseMap(b)); return })
	one("ext", func(p value.Parser) (x R) { k, t := p.ParseExt(b); x.i, x.x = int64(k), t; return })
	return r
}

func familyOf(f value.Format) string {
	return map[value.Format]string{value.BoolToken: "bool", value.LongToken: "long", value.DoubleToken: "double", value.BinHeader: "bin", value.StrHeader: "str",
		value.ListHeader: "list", value.MapHeader: "map", value.ExtHeader: "ext", value.FixExtToken: "ext"}[f]
}

// checkParse gives a full header to all parse functions.
func checkParse(c *Case, hdr []byte, t refToken) {
	in := append([]byte{}, hdr...)
	in = append(in, make([]byte, 24)...)[:len(hdr)] // room behind, as inside a buffer
	// Wrong-family functions look at the code only, but may not need more than the header.
	res := parseAll(in)
	fam := familyOf(t.f)
	for name, r := range res {
		if name != fam {
			c.Check(r.err != nil, "Parse %s accepts the header %x of a %s", name, hdr, formatName(t.f))
			c.Check(r.i == 0 && r.d == 0, "Parse %s returns %d on the header %x of a %s", name, r.i, hdr, formatName(t.f))
			c.Count("wrong-family", 1)
			continue
		}
		c.Check(r.err == nil, "Parse %s of %x: %v", name, hdr, r.err)
		switch fam {
		case "bool":
			c.Check((r.i == 1) == t.b, "ParseBool(%x) is %v", hdr, r.i == 1)
		case "long":
			c.Check(t.u || r.i == t.i, "ParseLong(%x) is %d, expected %d", hdr, r.i, t.i)
		case "double":
			c.Check(r.d == t.d || math.IsNaN(math.Float64frombits(t.d)) && math.IsNaN(math.Float64frombits(r.d)), "ParseDouble(%x) is %x, expected %x", hdr, r.d, t.d)
		default:
			c.Check(int(r.i) == t.n, "Parse %s length of %x is %d, expected %d", name, hdr, r.i, t.n)
			if t.ext != nil {
				c.sameBytes(r.x, t.ext, "tag and data of the fixed extension %x", hdr)
			}
		}
		c.Count("parsed:"+fam, 1)
	}
	// a parser's error stays until the next parser
	ps := value.MessageParser()
	if fam != "bool" {
		ps.ParseBool(in)
		ps.ParseBool([]byte{0xc3})
		c.Check(ps.Error() != nil, "the parser forgets its error")
	}
}

type anyUnpacker struct {
	name string
	mk   func(c *Case, b []byte) value.Unpacker
}

var unpackers = []anyUnpacker{
	{"copying buffer", func(c *Case, b []byte) value.Unpacker { return value.MessageUnpacker(b, true) }},
	{"sharing buffer", func(c *Case, b []byte) value.Unpacker { return value.MessageUnpacker(b, false) }},
	{"bytes.Reader", func(c *Case, b []byte) value.Unpacker { return value.MessageReader(bytes.NewReader(b)) }},
	{"zoo reader", func(c *Case, b []byte) value.Unpacker { return value.MessageReader(newZoo(c.RNG, b)) }},
	{"zoo byte reader", func(c *Case, b []byte) value.Unpacker { return value.MessageReader(zooByteReader{newZoo(c.RNG, b)}) }},
	{"plain reader", func(c *Case, b []byte) value.Unpacker { return value.MessageReader(plainReader{bytes.NewReader(b)}) }},
}

// walk follows the tokens of b (any bytes) with one unpacker.
func walk(c *Case, b []byte, u anyUnpacker) {
	up := u.mk(c, b)
	off := 0
	for off < len(b) {
		if b[off] == 0xc1 {
			return // never used: nothing is promised
		}
		t, ok := refTok(b[off:])
		var f value.Format
		var hdr []byte
		if p := try(func() { f, hdr = up.Next() }); p != nil {
			c.Failf("%s: Next panics at %d of %s: %v", u.name, off, hexShort(b), p)
		}
		c.Count("tokens", 1)
		if !ok {
			c.Check(f == value.UnexpectedEOF, "%s: a header cut short at %d of %s gives %s", u.name, off, hexShort(b), formatName(f))
			c.Count("cut-headers", 1)
			return
		}
		c.Check(f == t.f, "%s: code %02x at %d gives %s, expected %s", u.name, b[off], off, formatName(f), formatName(t.f))
		c.sameBytes(hdr, b[off:off+t.hdr], "%s: the header at %d", u.name, off)
		if c.P(1, 4) {
			checkParse(c, append([]byte{}, hdr...), t)
		}
		off += t.hdr
		if t.payload == 0 && !(t.f == value.BinHeader || t.f == value.StrHeader) {
			continue
		}
		if t.payload > 1<<20 && t.payload > len(b)-off {
			return // claims of gigabytes: matter of C05
		}
		var data []byte
		var err error
		if p := try(func() { data, err = up.Read(t.payload) }); p != nil {
			c.Failf("%s: Read(%d) with %d left panics: %v", u.name, t.payload, len(b)-off, p)
		}
		if t.payload > len(b)-off {
			c.Check(err != nil, "%s: Read(%d) with %d bytes left succeeds", u.name, t.payload, len(b)-off)
			c.Count("cut-payloads", 1)
			return
		}
		c.Check(err == nil, "%s: Read(%d) with %d bytes left: %v", u.name, t.payload, len(b)-off, err)
		c.sameBytes(data, b[off:off+t.payload], "%s: the payload at %d", u.name, off)
		off += t.payload
	}
	for i := 0; i < 3; i++ {
		f, _ := up.Next()
		c.Check(f == value.EOF, "%s: Next at the end (call %d) gives %s", u.name, i+1, formatName(f))
	}
	c.Count("ends", 1)
}

func walkAll(c *Case, b []byte) {
	orig := append([]byte{}, b...)
	for _, u := range unpackers {
		walk(c, b, u)
	}
	c.sameBytes(b, orig, "the input after walking it")
}

var headerLens = func() (l []int) {
	for _, p := range []int{0, 1, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1} {
		l = append(l, p)
	}
	return
}()

func packed(c *Case, f func(p value.Packer)) []byte {
	var w bytes.Buffer
	p := value.MessagePacker(&w)
	f(p)
	c.Check(p.Error() == nil, "packer: %v", p.Error())
	return w.Bytes()
}

// headerBack: what the packer emits is read back as (format, number).
func headerBack(c *Case, b []byte, f value.Format, parse func(value.Parser, []byte) int64, want int64, what string) {
	for _, u := range unpackers[:4] {
		up := u.mk(c, b)
		g, hdr := up.Next()
		c.Check(g == f, "%s: %s gives %s, expected %s (%s)", u.name, what, formatName(g), formatName(f), hexShort(b))
		ps := value.MessageParser()
		got := parse(ps, hdr)
		c.Check(ps.Error() == nil, "%s: %s: %v", u.name, what, ps.Error())
		c.Check(got == want, "%s: %s is parsed back as %d (%s)", u.name, what, got, hexShort(b))
	}
	c.Count("headers-back", 1)
}

func init() {
	register(&Prop{
		ID:    "C25",
		Rule:  "a case is one byte string walked token by token with six unpackers and all parse functions, next to a reference tokenizer, or one packer call whose header is parsed back; distinct by bytes",
		Needs: []string{"tokens", "ends", "cut-headers", "cut-payloads", "wrong-family", "headers-back", "parsed:bool", "parsed:long", "parsed:double", "parsed:bin", "parsed:str", "parsed:list", "parsed:map", "parsed:ext", "negative-sizes"},
		Sections: []Section{
			{Name: "every-code", N: n(256, 256), Run: func(c *Case) {
				code := byte(c.Index)
				if code == 0xc1 {
					c.Check(true, "")
					return
				}
				for i := 0; i < 40; i++ {
					full := append([]byte{code}, c.Bytes(32)...)
					switch i {
					case 0:
						full = append([]byte{code}, make([]byte, 32)...)
					case 1:
						full = append([]byte{code}, bytes.Repeat([]byte{0xff}, 32)...)
					case 2:
						full = append([]byte{code, 0x7f}, bytes.Repeat([]byte{0xff}, 32)...)
					case 3:
						full = append([]byte{code, 0x80}, make([]byte, 32)...)
					}
					t, ok := refTok(full)
					c.Check(ok, "reference table")
					for _, u := range unpackers {
						up := u.mk(c, full)
						f, hdr := up.Next()
						c.Check(f == t.f, "%s: code %02x gives %s, expected %s", u.name, code, formatName(f), formatName(t.f))
						c.sameBytes(hdr, full[:t.hdr], "%s: the header of code %02x", u.name, code)
						for k := 0; k < t.hdr; k++ { // every cut of the header
							if i > 3 && k != c.Intn(t.hdr) {
								continue
							}
							f, _ := u.mk(c, full[:k]).Next()
							want := value.UnexpectedEOF
							if k == 0 {
								want = value.EOF
							}
							c.Check(f == want, "%s: %d of %d header bytes of code %02x give %s, expected %s", u.name, k, t.hdr, code, formatName(f), formatName(want))
						}
					}
					checkParse(c, full[:t.hdr], t)
					c.DistinctB(full[:t.hdr])
				}
			}},
			{Name: "documents", N: n(12000, 600000), Run: func(c *Case) {
				var b []byte
				for i := 0; i < 1+c.Intn(4); i++ {
					d, _, _ := genForeign(c.RNG)
					b = append(b, d...)
				}
				c.Note("%s", hexShort(b))
				walkAll(c, b)
				c.DistinctB(b)
				c.Sample("%s", hexShort(b))
			}},
			{Name: "cut-documents", N: n(8000, 400000), Run: func(c *Case) {
				b, _, _ := genForeign(c.RNG)
				b = b[:c.Intn(len(b)+1)]
				c.Note("%s", hexShort(b))
				walkAll(c, b)
				c.DistinctB(b)
			}},
			{Name: "random-tokens", N: n(12000, 600000), Run: func(c *Case) {
				var b []byte
				for i := 0; i < 1+c.Intn(30); i++ { // any sequence of tokens is walked, nested sensibly or not
					code := byte(c.U64())
					if c.Bool() {
						code = 0xc0 + byte(c.Intn(32))
					}
					switch code {
					case 0xc1:
						continue
					case 0xc4, 0xd9, 0xc7:
						k := c.Intn(40)
						b = append(append(b, code, byte(k)), c.Bytes(k)...)
						if code == 0xc7 {
							b = append(b, 9)
						}
					case 0xc5, 0xda, 0xc8:
						k := c.Intn(400)
						b = append(append(b, code, byte(k>>8), byte(k)), c.Bytes(k)...)
						if code == 0xc8 {
							b = append(b, 9)
						}
					case 0xc6, 0xdb, 0xc9:
						k := c.Intn(400)
						b = append(append(b, code, 0, 0, byte(k>>8), byte(k)), c.Bytes(k)...)
						if code == 0xc9 {
							b = append(b, 9)
						}
					default:
						t, _ := refTok(append([]byte{code}, make([]byte, 32)...))
						b = append(append(b, code), c.Bytes(t.hdr-1+t.payload)...)
					}
				}
				if c.P(1, 5) && len(b) > 0 {
					b = b[:c.Intn(len(b))]
				}
				c.Note("%s", hexShort(b))
				walkAll(c, b)
				c.DistinctB(b)
			}},
			{Name: "list-and-map-headers", N: n(3000, 100000), Run: func(c *Case) {
				k := c.Intn(1 << uint(1+c.Intn(32)))
				if c.Index < 3*len(headerLens) {
					k = headerLens[c.Index/3]
				}
				list := func(p value.Parser, h []byte) int64 { return int64(p.ParseList(h)) }
				mp := func(p value.Parser, h []byte) int64 { return int64(p.ParseMap(h)) }
				b := packed(c, func(p value.Packer) { p.PackList(k) })
				headerBack(c, b, value.ListHeader, list, int64(k), fmt.Sprintf("PackList(%d)", k))
				c.DistinctB(b)
				b = packed(c, func(p value.Packer) { p.PackMap(k) })
				headerBack(c, b, value.MapHeader, mp, int64(k), fmt.Sprintf("PackMap(%d)", k))
				c.DistinctB(b)
				neg := []int{-1, -2, -16, -100, -65536, -1 << 31, -1 << 63}[c.Intn(7)]
				headerBack(c, packed(c, func(p value.Packer) { p.PackList(neg) }), value.ListHeader, list, 0, fmt.Sprintf("PackList(%d)", neg))
				headerBack(c, packed(c, func(p value.Packer) { p.PackMap(neg) }), value.MapHeader, mp, 0, fmt.Sprintf("PackMap(%d)", neg))
				c.Count("negative-sizes", 1)
			}},
			{Name: "scalar-headers", N: n(20000, 1000000), Run: func(c *Case) {
				x := genLong(c.RNG)
				if c.Index < 64*3*2 { // around every power of two, both signs
					x = int64(uint64(1)<<uint(c.Index/6)) + int64(c.Index%3) - 1
					if c.Index%6 >= 3 {
						x = -x
					}
				}
				b := packed(c, func(p value.Packer) { p.PackLong(x) })
				headerBack(c, b, value.LongToken, func(p value.Parser, h []byte) int64 { return p.ParseLong(h) }, x, fmt.Sprintf("PackLong(%d)", x))
				c.DistinctB(b)
				f := genDouble(c.RNG, false)
				b = packed(c, func(p value.Packer) { p.PackDouble(f) })
				headerBack(c, b, value.DoubleToken, func(p value.Parser, h []byte) int64 { return int64(math.Float64bits(p.ParseDouble(h))) }, int64(math.Float64bits(f)), fmt.Sprintf("PackDouble(%v)", f))
				y := c.Bool()
				want := int64(0)
				if y {
					want = 1
				}
				headerBack(c, packed(c, func(p value.Packer) { p.PackBool(y) }), value.BoolToken, func(p value.Parser, h []byte) int64 {
					if p.ParseBool(h) {
						return 1
					}
					return 0
				}, want, "PackBool")
				headerBack(c, packed(c, func(p value.Packer) { p.PackNil() }), value.NilToken, func(p value.Parser, h []byte) int64 { return int64(len(h)) }, 1, "PackNil")
			}},
			{Name: "length-headers", N: n(3*400, 3*3000), Run: func(c *Case) {
				k := c.Index / 3
				if k > 290 {
					k = []int{511, 512, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 100000, 1 << 20}[k%14]
				}
				data := c.Bytes(k)
				var b []byte
				var f value.Format
				fixed := false
				switch c.Index % 3 {
				case 0:
					b = packed(c, func(p value.Packer) { p.PackStr(string(data)) })
					f = value.StrHeader
				case 1:
					b = packed(c, func(p value.Packer) { p.PackBin(data) })
					f = value.BinHeader
				case 2:
					b = packed(c, func(p value.Packer) { p.PackExt(value.Ext(200), data) })
					f = value.ExtHeader
					if k == 1 || k == 2 || k == 4 || k == 8 || k == 16 {
						f, fixed = value.FixExtToken, true
					}
				}
				headerBack(c, b, f, func(p value.Parser, h []byte) int64 {
					switch c.Index % 3 {
					case 0:
						return int64(p.ParseStr(h))
					case 1:
						return int64(p.ParseBin(h))
					}
					l, td := p.ParseExt(h)
					if fixed && !bytes.Equal(td, append([]byte{200}, data...)) {
						return -1
					}
					return int64(l)
				}, int64(k), fmt.Sprintf("%s of length %d", formatName(f), k))
				walkAll(c, append(b, 0xc3))
				c.DistinctB(b)
			}},
		},
	})
}

// ------------------------------------------------------------------ C26

var kindNames = map[value.Kind]string{value.INVALID: "INVALID", value.NULL: "NULL", value.BOOL: "BOOL", value.NUMBER: "NUMBER", value.STRING: "STRING", value.LIST: "LIST", value.MAP: "MAP", value.UNKNOWN: "UNKNOWN"}
var numNames = map[value.NumberType]string{value.InvalidNumber: "invalid", value.LONG: "long", value.DOUBLE: "double", value.BIGINT: "bigint", value.DECIMAL: "decimal"}
var strNames = map[value.StringType]string{value.InvalidString: "invalid", value.UTF8: "utf8", value.RAW: "raw"}

func kindOfModel(m *MV) value.Kind {
	switch m.K {
	case KNil, KNull:
		return value.NULL
	case KBool:
		return value.BOOL
	case KLong, KDouble, KBig, KDec:
		return value.NUMBER
	case KStr, KRaw:
		return value.STRING
	case KExt:
		return value.UNKNOWN
	case KList, KSparse:
		return value.LIST
	}
	return value.MAP
}

// introspect checks one value (and its elements) against itself and, when
// known, against its content.
func introspect(c *Case, v value.Value, m *MV, depth int, from string) {
	if v == nil {
		return
	}
	k := v.Kind()
	what := fmt.Sprintf("%s: %v", from, k)
	c.Count("introspected", 1)
	c.Count("kind:"+kindNames[k], 1)
	if m != nil {
		c.Check(k == kindOfModel(m), "%s: kind %v of %v", from, k, m)
	}
	c.Check(k.String() == kindNames[k] && kindNames[k] != "", "%s: kind %d is called %q", from, int(k), k.String())
	c.Check(v.Class() == reflect.TypeOf(v), "%s: Class is %v, the type is %v", what, v.Class(), reflect.TypeOf(v))
	c.Check(v.Class().Implements(value.ValueClass), "%s: class %v is no value class", what, v.Class())
	_, isBool := v.(value.Bool)
	_, isNum := v.(value.Number)
	_, isStr := v.(value.String)
	_, isList := v.(value.List)
	_, isMap := v.(value.Map)
	_, isExt := v.(value.Extension)
	c.Check(isBool == (k == value.BOOL) && isNum == (k == value.NUMBER) && isStr == (k == value.STRING) && isList == (k == value.LIST) && isMap == (k == value.MAP) && isExt == (k == value.UNKNOWN),
		"%s implements bool=%v number=%v string=%v list=%v map=%v extension=%v", what, isBool, isNum, isStr, isList, isMap, isExt)
	obj := v.Object()
	switch k {
	case value.NULL:
		c.Check(obj == nil, "%s: Object is %v", what, obj)
		c.Check(v.Equal(nil) && v.Equal(value.Null), "%s is no null", what)
	case value.BOOL:
		b, ok := obj.(bool)
		c.Check(ok && b == v.(value.Bool).Boolean(), "%s: Object is %T %v", what, obj, obj)
		if m != nil {
			c.Check(b == m.B, "%s: Object is %v", what, obj)
		}
	case value.NUMBER:
		x := v.(value.Number)
		t := x.Type()
		c.Check(t.String() == numNames[t] && t != value.InvalidNumber && numNames[t] != "", "%s: type %d called %q", what, int(t), t.String())
		var mt value.NumberType
		if m != nil {
			mt = map[MK]value.NumberType{KLong: value.LONG, KDouble: value.DOUBLE, KBig: value.BIGINT, KDec: value.DECIMAL}[m.K]
			c.Check(mt == t, "%s: type %v of %v", what, t, m)
		}
		ok := false
		switch o := obj.(type) {
		case int64:
			ok = t == value.LONG && o == x.Long() && (m == nil || o == m.I)
		case float64:
			ok = t == value.DOUBLE && math.Float64bits(o) == math.Float64bits(x.Double()) && (m == nil || math.Float64bits(o) == m.F)
			c.Check(x.IsNaN() == math.IsNaN(o), "%s: IsNaN of %v is %v", what, o, x.IsNaN())
		case *big.Int:
			ok = t == value.BIGINT && o.Cmp(x.BigInt()) == 0 && (m == nil || o.Cmp(m.Big) == 0)
		case decimal.Decimal:
			ok = t == value.DECIMAL && o.Equal(x.Decimal()) && o.Exponent() == x.Decimal().Exponent() && (m == nil || o.Coefficient().Cmp(m.Big) == 0 && o.Exponent() == m.Exp)
		}
		c.Check(ok, "%s of type %v: Object is %T %v, content %v", what, t, obj, obj, project(v))
		if t != value.DOUBLE {
			c.Check(!x.IsNaN(), "%s of type %v is not a number", what, t)
		}
		c.Count("number:"+t.String(), 1)
		// the class tells the types apart
		for _, o := range []value.Number{value.Long(1), value.Double(1), value.BigInt(big.NewInt(1)), value.Decimal(decimal.NewFromInt(1))} {
			c.Check((o.Class() == v.Class()) == (o.Type() == t), "%s of type %v has class %v, a %v has %v", what, t, v.Class(), o.Type(), o.Class())
		}
	case value.STRING:
		x := v.(value.String)
		t := x.Type()
		c.Check(t.String() == strNames[t] && t != value.InvalidString && strNames[t] != "", "%s: type %d called %q", what, int(t), t.String())
		ok := false
		n := 0
		switch o := obj.(type) {
		case string:
			ok = t == value.UTF8 && o == x.Utf8() && o == string(x.Raw()) && (m == nil || m.K == KStr && o == m.S)
			n = len(o)
		case []byte:
			ok = t == value.RAW && bytes.Equal(o, x.Raw()) && (m == nil || m.K == KRaw && string(o) == m.S)
			n = len(o)
		}
		c.Check(ok, "%s of type %v: Object is %T %.60v, content %v", what, t, obj, obj, project(v))
		c.Check(x.Len() == n, "%s of type %v: Len is %d of %d bytes", what, t, x.Len(), n)
		c.Count("string:"+t.String(), 1)
		for _, o := range []value.String{value.Str("a"), value.Raw([]byte("a"), true)} {
			c.Check((o.Class() == v.Class()) == (o.Type() == t), "%s of type %v has class %v, a %v has %v", what, t, v.Class(), o.Type(), o.Class())
		}
	case value.UNKNOWN:
		o, ok := obj.([]byte)
		c.Check(ok && bytes.Equal(o, v.(value.Extension).Native()), "%s: Object is %T", what, obj)
		if m != nil {
			c.Check(string(o) == m.S, "%s: Object is %x, expected %x", what, o, m.S)
		}
		if td, ok := v.(interface {
			Tag() value.Ext
			Data() []byte
		}); ok && len(o) > 0 {
			c.Check(byte(td.Tag()) == o[0] && bytes.Equal(td.Data(), o[1:]), "%s: tag %d and data %x of %x", what, td.Tag(), td.Data(), o)
			c.Count("ext-parts", 1)
		}
	case value.LIST:
		x := v.(value.List)
		if v.Class() == sparseClass {
			o, ok := obj.([]value.ListItem)
			items := x.Items()
			c.Check(ok && len(o) == len(items), "%s: Object is %T", what, obj)
			last := -1
			for i := range o {
				c.Check(o[i].Key() == items[i].Key() && itemSame(o[i].Value(), items[i].Value()), "%s: Object()[%d] is no item", what, i)
				last = o[i].Key()
			}
			if last < -1 {
				last = -1
			}
			c.Check(x.Len() == last+1, "%s: Len is %d, the largest key is %d", what, x.Len(), last)
			c.Check(len(x.Entries()) == len(items), "%s: %d entries, %d items", what, len(x.Entries()), len(items))
			if m != nil {
				c.Check(len(items) == len(m.P), "%s: %d items, expected %d", what, len(items), len(m.P))
			}
			if depth > 0 {
				for i, it := range items {
					var em *MV
					if m != nil {
						em = m.P[i].V
					}
					introspect(c, it.Value(), em, depth-1, "an item of a sparse list")
				}
			}
			break
		}
		o, ok := obj.([]value.Value)
		vals := x.Values()
		c.Check(ok && len(o) == len(vals) && x.Len() == len(vals), "%s: Object is %T, Len %d, %d values", what, obj, x.Len(), len(vals))
		c.Check(len(x.Items()) == len(vals) && len(x.Entries()) == len(vals), "%s: %d items, %d entries, %d values", what, len(x.Items()), len(x.Entries()), len(vals))
		for i := range o {
			c.Check(itemSame(o[i], vals[i]), "%s: Object()[%d] is not the element", what, i)
		}
		if m != nil {
			c.Check(x.Len() == len(m.L), "%s: Len is %d, expected %d", what, x.Len(), len(m.L))
		}
		if depth > 0 {
			for i, e := range vals {
				var em *MV
				if m != nil {
					em = m.L[i]
				}
				introspect(c, e, em, depth-1, "an element of a list")
			}
		}
	case value.MAP:
		x := v.(value.Map)
		o, ok := obj.([]value.MapEntry)
		ents := x.Entries()
		c.Check(ok && len(o) == len(ents) && x.Len() == len(ents), "%s: Object is %T, Len %d, %d entries", what, obj, x.Len(), len(ents))
		c.Check(len(x.Keys()) == len(ents) && len(x.Values()) == len(ents), "%s: %d keys, %d values, %d entries", what, len(x.Keys()), len(x.Values()), len(ents))
		for i := range o {
			c.Check(o[i].Key() == ents[i].Key() && itemSame(o[i].Value(), ents[i].Value()), "%s: Object()[%d] is not the entry", what, i)
		}
		if m != nil {
			c.Check(x.Len() == len(m.E), "%s: Len is %d, expected %d", what, x.Len(), len(m.E))
		}
		if depth > 0 {
			for i, e := range ents {
				var em *MV
				if m != nil {
					em = m.E[i].V
				}
				introspect(c, e.Value(), em, depth-1, "a value of a map")
			}
		}
	default:
		c.Failf("%s: kind %d of a value", from, int(k))
	}
}

func itemSame(a, b value.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return itself(a, b)
}

// likeNumber: the same quantity or its opposite, maybe as another type.
func likeNumber(c *Case, a value.Number) value.Number {
	var r value.Number
	if p := try(func() {
		switch c.Intn(5) {
		case 0:
			r = value.Long(a.Long())
		case 1:
			r = value.Double(a.Double())
		case 2:
			r = value.BigInt(new(big.Int).Set(a.BigInt()))
		case 3:
			r = value.Decimal(a.Decimal())
		default:
			r = value.Long(-a.Long())
		}
	}); p != nil || r == nil {
		return a
	}
	return r
}

func familyClass(v value.Value) string {
	switch v.Class() {
	case value.EmptyImmutableList().Class():
		return "immutable list"
	case value.EmptyMutableList().Class():
		return "mutable list"
	case value.EmptySparseList().Class():
		return "sparse list"
	case value.EmptyImmutableMap().Class():
		return "immutable map"
	case value.EmptyMutableMap().Class():
		return "sorted map"
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "a case is a set of values obtained in one way (built, decoded, looked up, computed, parsed, from operations), each introspected completely with its elements; distinct by content",
		Needs: []string{"introspected", "kind:NULL", "kind:BOOL", "kind:NUMBER", "kind:STRING", "kind:LIST", "kind:MAP", "kind:UNKNOWN", "number:long", "number:double", "number:bigint", "number:decimal", "string:utf8", "string:raw",
			"decoded", "looked-up", "computed", "from-operations"},
		Sections: []Section{
			{Name: "names", N: n(1, 1), Run: func(c *Case) {
				for k := -300; k < 300; k++ {
					var s string
					if p := try(func() { s = value.Kind(k).String() }); p != nil {
						c.Failf("Kind(%d).String panics: %v", k, p)
					}
					if w, ok := kindNames[value.Kind(k)]; ok {
						c.Check(s == w, "Kind(%d) is called %q, not %q", k, s, w)
					} else {
						for kk, w := range kindNames {
							c.Check(s != w, "Kind(%d) is called %q like %d", k, s, int(kk))
						}
					}
					if p := try(func() { s = value.NumberType(k).String() }); p != nil {
						c.Failf("NumberType(%d).String panics: %v", k, p)
					}
					if w, ok := numNames[value.NumberType(k)]; ok {
						c.Check(s == w, "NumberType(%d) is called %q, not %q", k, s, w)
					} else {
						c.Check(s == "unknown", "NumberType(%d) is called %q", k, s)
					}
					if p := try(func() { s = value.StringType(k).String() }); p != nil {
						c.Failf("StringType(%d).String panics: %v", k, p)
					}
					if w, ok := strNames[value.StringType(k)]; ok {
						c.Check(s == w, "StringType(%d) is called %q, not %q", k, s, w)
					} else {
						c.Check(s == "unknown", "StringType(%d) is called %q", k, s)
					}
				}
				cls := map[reflect.Type]string{}
				for name, v := range map[string]value.Value{"null": value.Null, "bool": value.True, "long": value.Long(1), "double": value.Double(1), "bigint": value.BigInt(nil), "decimal": value.Decimal(decimal.Zero),
					"utf8": value.Str(""), "raw": value.Raw(nil, false), "unknown": value.Unknown([]byte{1}), "ilist": value.EmptyImmutableList(), "mlist": value.EmptyMutableList(), "sparse": value.EmptySparseList(),
					"imap": value.EmptyImmutableMap(), "smap": value.EmptyMutableMap()} {
					c.Check(cls[v.Class()] == "", "%s and %s have the class %v", name, cls[v.Class()], v.Class())
					cls[v.Class()] = name
					introspect(c, v, nil, 1, name)
				}
				for _, x := range []struct {
					v    value.Value
					want string
				}{
					{value.EmptyList(true), "immutable list"}, {value.EmptyList(false), "mutable list"}, {value.EmptyMap(true), "immutable map"}, {value.EmptyMap(false), "sorted map"},
					{value.EmptyImmutableList(), "immutable list"}, {value.EmptyMutableList(), "mutable list"}, {value.EmptyImmutableMap(), "immutable map"}, {value.EmptyMutableMap(), "sorted map"},
					{value.Tuple(), "mutable list"}, {value.Single(value.True), "mutable list"}, {value.SparseListOf(nil), "sparse list"}, {value.SortedMapOf(nil), "sorted map"}, {value.ImmutableMapOf(nil), "immutable map"},
				} {
					c.Check(familyClass(x.v) == x.want, "a %s is a %s", x.want, familyClass(x.v))
					introspect(c, x.v, nil, 1, x.want)
				}
				introspect(c, value.BigInt(nil), mBig(new(big.Int)), 0, "BigInt(nil)")
				introspect(c, value.Zero, mLong(0), 0, "Zero")
				introspect(c, value.One, mLong(1), 0, "One")
				introspect(c, value.EmptyString, mStr(""), 0, "EmptyString")
				introspect(c, value.Nan, nil, 0, "Nan")
				c.Check(value.Nan.IsNaN(), "Nan is a number")
				introspect(c, value.Nil(), mNull, 0, "Nil()")
				introspect(c, value.ParseNull("null"), mNull, 0, "ParseNull")
				introspect(c, value.ParseNull("x"), mStr("x"), 0, "ParseNull")
				introspect(c, value.Stringf("%d-%s", 5, "a"), mStr("5-a"), 0, "Stringf")
			}},
			{Name: "built", N: n(20000, 1000000), Run: func(c *Case) {
				m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 5 + c.Intn(40)})
				v, m := mk(c, m, BuildOpt{Immutable: c.P(1, 4)})
				c.Note("%v", m)
				introspect(c, v, m, 5, "built")
				c.Distinct(fnv64(m.String()))
				c.Sample("%v", m)
			}},
			{Name: "decoded", N: n(15000, 800000), Run: func(c *Case) {
				b, m, un := genForeign(c.RNG)
				w := decodeWays[c.Intn(len(decodeWays))]
				v, err := w.f(c, b)
				if err != nil {
					c.Count("not-decoded", 1)
					return
				}
				c.Note("%s of %s", w.name, hexShort(b))
				if un || mdiff(project(v), m) != "" {
					m = project(v) // a matter of C03
				}
				introspect(c, v, m, 6, w.name)
				switch v.Kind() {
				case value.LIST:
					f := familyClass(v)
					c.Check(f == "immutable list" || f == "sparse list", "a decoded list is a %s", f)
				case value.MAP:
					c.Check(familyClass(v) == "immutable map", "a decoded map is a %s", familyClass(v))
				}
				c.Count("decoded", 1)
				c.DistinctB(b)
			}},
			{Name: "looked-up", N: n(10000, 500000), Run: func(c *Case) {
				m := genColl(c.RNG, GenOpt{Depth: 3, Budget: 30, MaxStr: 20})
				v, m := mk(c, m, BuildOpt{Immutable: c.P(1, 3)})
				c.Note("%v", m)
				var lks []lookups
				switch x := v.(type) {
				case value.List:
					for _, it := range x.Items() {
						lks = append(lks, listLookups(x, it.Key()))
						for _, s := range x.Select(it.Key()) {
							introspect(c, s, nil, 1, "Select")
						}
						introspect(c, it.Value(), nil, 1, "an item")
					}
					lks = append(lks, listLookups(x, -5), listLookups(x, x.Len()+3))
				case value.Map:
					for _, e := range x.Entries() {
						lks = append(lks, mapLookups(x, e.Key()))
						for _, s := range x.Select(e.Key()) {
							introspect(c, s, nil, 1, "Select")
						}
					}
					for _, e := range x.HashMap() {
						introspect(c, e, nil, 1, "HashMap")
					}
					lks = append(lks, mapLookups(x, "\x00absent"))
				}
				if len(lks) > 30 {
					lks = lks[:30]
				}
				for _, lk := range lks {
					if p := try(func() {
						introspect(c, lk.get(), nil, 1, "a lookup")
						introspect(c, lk.b(), nil, 1, "a bool lookup")
						introspect(c, lk.n(), nil, 1, "a number lookup")
						introspect(c, lk.s(), nil, 1, "a string lookup")
						introspect(c, lk.l(), nil, 1, "a list lookup")
						introspect(c, lk.m(), nil, 1, "a map lookup")
					}); p != nil {
						if f, ok := p.(failure); ok {
							panic(f)
						}
						c.Count("lookup-panics", 1) // a matter of C22
						continue
					}
					c.Count("looked-up", 1)
				}
				c.Distinct(fnv64(m.String()))
			}},
			{Name: "computed", N: n(20000, 1000000), Run: func(c *Case) {
				ma, mb := genNum(c), genNum(c)
				va, _ := mk(c, ma, BuildOpt{})
				vb, _ := mk(c, mb, BuildOpt{})
				a, b := va.(value.Number), vb.(value.Number)
				if c.P(1, 4) {
					b = likeNumber(c, a) // what is left is nothing, or the double
				}
				c.Note("%v and %v", ma, project(b))
				var r value.Number
				for name, f := range map[string]func(){
					"a sum":        func() { r = a.Add(b) },
					"a difference": func() { r = a.Subtract(b) },
				} {
					if p := try(f); p != nil {
						c.Count("arith-panics", 1) // a matter of C18
						continue
					}
					c.Check(r != nil, "%s is nil", name)
					introspect(c, r, nil, 0, name)
					c.Check(r.Type() == a.Type() && r.Class() == a.Class(), "%s of a %v is a %v of %v", name, a.Type(), r.Type(), r.Class())
					c.Count("computed", 1)
				}
				introspect(c, value.ParseNumber(a.String()), nil, 0, "ParseNumber")
				introspect(c, value.ParseString(a.String()), nil, 0, "ParseString")
				introspect(c, value.ParseBoolean(a.String()), nil, 0, "ParseBoolean")
				t := genText(c.RNG)
				var pn value.Number
				if p := try(func() { pn = value.ParseNumber(t) }); p == nil {
					introspect(c, pn, nil, 0, fmt.Sprintf("ParseNumber(%.40q)", t))
				}
				introspect(c, value.ParseString(t), nil, 0, "ParseString")
				introspect(c, value.ParseBoolean(t), nil, 0, "ParseBoolean")
				introspect(c, value.ParseNull(t), nil, 0, "ParseNull")
				c.Distinct(fnv64(ma.String() + mb.String()))
			}},
			{Name: "from-operations", N: n(8000, 400000), Run: func(c *Case) {
				var uniq int64
				var log []string
				var v value.Value
				fam := ""
				k := c.Intn(5)
				ok := try(func() {
					switch k {
					case 0, 1:
						l, s := startSeq(c, k == 0, &uniq)
						fam = familyClass(l)
						for i := 0; i < 10; i++ {
							l, s = seqOp(c, l, s, &uniq, &log)
							c.Check(familyClass(l) == fam, "%s makes a %s of a %s", log[len(log)-1], familyClass(l), fam)
						}
						v = l
					case 2:
						l, s := startSparse(c, &uniq)
						fam = familyClass(l)
						for i := 0; i < 10; i++ {
							l, s = sparseOp(c, l, s, &uniq, &log)
							c.Check(familyClass(l) == fam, "%s makes a %s of a %s", log[len(log)-1], familyClass(l), fam)
						}
						v = l
					default:
						l, s := startMap(c, k == 3, &uniq)
						fam = familyClass(l)
						for i := 0; i < 10; i++ {
							l, s = mapOp(c, l, s, &uniq, &log)
							c.Check(familyClass(l) == fam, "%s makes a %s of a %s", log[len(log)-1], familyClass(l), fam)
						}
						v = l
					}
				})
				if f, bad := ok.(failure); bad {
					panic(f)
				}
				if v == nil {
					c.Count("op-panics", 1)
					return
				}
				c.Note("%s", logTail(log))
				introspect(c, v, nil, 3, "after operations")
				c.Count("from-operations", 1)
				c.Distinct(fnv64(fmt.Sprint(log)))
			}},
		},
	})
}
