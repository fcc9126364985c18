package main

import (
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
)

// An encoder and decoder for MessagePack written from the specification,
// independent of the code under test.

func be16(b []byte, v uint64) []byte { return append(b, byte(v>>8), byte(v)) }
func be32(b []byte, v uint64) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func be64(b []byte, v uint64) []byte { return be32(be32(b, v>>32), v&0xffffffff) }

// Style makes non-minimal choices; nil means canonical.
type Style struct {
	r        *RNG
	wide     int  // chance of a wider header, out of 4
	shuffle  bool // map entries in any order
	f32      bool // float32 where exact
	unsorted bool // set when a document got out of key order
}

func encInt(b []byte, v int64, st *Style) []byte {
	type form struct {
		ok  bool
		enc func([]byte) []byte
	}
	u := uint64(v)
	forms := []form{
		{v >= 0 && v <= 127, func(b []byte) []byte { return append(b, byte(v)) }},
		{v >= -32 && v < 0, func(b []byte) []byte { return append(b, byte(v)) }},
		{v >= 0 && v <= math.MaxUint8, func(b []byte) []byte { return append(b, 0xcc, byte(v)) }},
		{v >= math.MinInt8 && v <= math.MaxInt8, func(b []byte) []byte { return append(b, 0xd0, byte(v)) }},
		{v >= 0 && v <= math.MaxUint16, func(b []byte) []byte { return be16(append(b, 0xcd), u) }},
		{v >= math.MinInt16 && v <= math.MaxInt16, func(b []byte) []byte { return be16(append(b, 0xd1), u) }},
		{v >= 0 && v <= math.MaxUint32, func(b []byte) []byte { return be32(append(b, 0xce), u) }},
		{v >= math.MinInt32 && v <= math.MaxInt32, func(b []byte) []byte { return be32(append(b, 0xd2), u) }},
		{v >= 0, func(b []byte) []byte { return be64(append(b, 0xcf), u) }},
		{true, func(b []byte) []byte { return be64(append(b, 0xd3), u) }},
	}
	var ok []form
	for _, f := range forms {
		if f.ok {
			ok = append(ok, f)
		}
	}
	if st == nil || !st.r.P(st.wide, 4) {
		return ok[0].enc(b)
	}
	return ok[st.r.Intn(len(ok))].enc(b)
}

// encHeader: forms are (limit, code, width in bytes); fix is the fixed form.
func encHeader(b []byte, n int, fixMax int, fixCode byte, c8, c16, c32 byte, st *Style) []byte {
	lvl := 0
	switch {
	case n <= fixMax:
		lvl = 0
	case c8 != 0 && n <= 255:
		lvl = 1
	case n <= 65535:
		lvl = 2
	default:
		lvl = 3
	}
	if st != nil && st.r.P(st.wide, 4) {
		lvl += st.r.Intn(4 - lvl)
		if lvl == 1 && c8 == 0 {
			lvl = 2
		}
	}
	switch lvl {
	case 0:
		return append(b, fixCode|byte(n))
	case 1:
		return append(b, c8, byte(n))
	case 2:
		return be16(append(b, c16), uint64(n))
	default:
		return be32(append(b, c32), uint64(n))
	}
}

func encStr(b []byte, s string, st *Style) []byte {
	return append(encHeader(b, len(s), 31, 0xa0, 0xd9, 0xda, 0xdb, st), s...)
}

func encExt(b []byte, tag byte, data []byte, st *Style) []byte {
	fixed := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}
	k := len(data)
	if code, ok := fixed[k]; ok && (st == nil || !st.r.P(st.wide, 4)) {
		return append(append(b, code, tag), data...)
	}
	b = encHeader(b, k, -1, 0, 0xc7, 0xc8, 0xc9, st)
	return append(append(b, tag), data...)
}

// gobInt is the math/big gob form: a byte (version 1, sign bit) and the
// big-endian absolute value.
func gobInt(x *big.Int) []byte {
	h := byte(1 << 1)
	if x.Sign() < 0 {
		h |= 1
	}
	return append([]byte{h}, x.Bytes()...)
}

func decBody(x *big.Int, exp int32) []byte {
	return append(be32(nil, uint64(uint32(exp))), gobInt(x)...)
}

func refEncode(m *MV) []byte { return refEnc(nil, m, nil) }

func refEnc(b []byte, m *MV, st *Style) []byte {
	switch m.K {
	case KNil, KNull:
		return append(b, 0xc0)
	case KBool:
		if m.B {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case KLong:
		return encInt(b, m.I, st)
	case KDouble:
		f := m.Double()
		if st != nil && st.f32 && float64(float32(f)) == f && st.r.Bool() {
			return be32(append(b, 0xca), uint64(math.Float32bits(float32(f))))
		}
		return be64(append(b, 0xcb), m.F)
	case KBig:
		return encExt(b, 1, gobInt(m.Big), st)
	case KDec:
		return encExt(b, 2, decBody(m.Big, m.Exp), st)
	case KStr:
		return encStr(b, m.S, st)
	case KRaw:
		return append(encHeader(b, len(m.S), -1, 0, 0xc4, 0xc5, 0xc6, st), m.S...)
	case KExt:
		return encExt(b, m.S[0], []byte(m.S[1:]), st)
	case KList:
		b = encHeader(b, len(m.L), 15, 0x90, 0, 0xdc, 0xdd, st)
		for _, e := range m.L {
			b = refEnc(b, e, st)
		}
		return b
	case KMap:
		b = encHeader(b, len(m.E), 15, 0x80, 0, 0xde, 0xdf, st)
		for _, i := range order(len(m.E), st) {
			b = encStr(b, m.E[i].K, st)
			b = refEnc(b, m.E[i].V, st)
		}
		return b
	case KSparse:
		b = encHeader(b, len(m.P), 15, 0x80, 0, 0xde, 0xdf, st)
		for _, i := range order(len(m.P), st) {
			b = encInt(b, int64(m.P[i].K), st)
			b = refEnc(b, m.P[i].V, st)
		}
		return b
	}
	panic("refEnc")
}

func order(k int, st *Style) []int {
	if st != nil && st.shuffle && k > 1 && st.r.Bool() {
		st.unsorted = true
		return st.r.Perm(k)
	}
	p := make([]int, k)
	for i := range p {
		p[i] = i
	}
	return p
}

// ---------------------------------------------------------------- decoder

type NK byte

const (
	NNil NK = iota
	NBool
	NInt
	NUint // above the int64 range
	NF32
	NF64
	NStr
	NBin
	NExt
	NArr
	NMap
)

type Node struct {
	K    NK
	B    bool
	I    int64
	U    uint64
	S    []byte
	Tag  byte
	Arr  []*Node
	Keys []*Node // for maps, parallel to Arr
	F32  uint32
	F64  uint64
	Off  int
	End  int
}

var errShort = errors.New("ref: truncated")
var errForm = errors.New("ref: not well-formed")

func refDecode(b []byte, off, depth int) (*Node, error) {
	if depth > 20000 {
		return nil, errForm
	}
	if off >= len(b) {
		return nil, errShort
	}
	c := b[off]
	nd := &Node{Off: off}
	p := off + 1
	num := func(w int) (uint64, bool) {
		if len(b)-p < w {
			return 0, false
		}
		var v uint64
		for i := 0; i < w; i++ {
			v = v<<8 | uint64(b[p+i])
		}
		p += w
		return v, true
	}
	body := func(k uint64) ([]byte, bool) {
		if uint64(len(b)-p) < k {
			return nil, false
		}
		s := b[p : p+int(k)]
		p += int(k)
		return s, true
	}
	done := func() (*Node, error) { nd.End = p; return nd, nil }
	var cnt uint64
	var ok bool
	switch {
	case c <= 0x7f:
		nd.K, nd.I = NInt, int64(c)
		return done()
	case c >= 0xe0:
		nd.K, nd.I = NInt, int64(int8(c))
		return done()
	case c <= 0x8f:
		nd.K, cnt = NMap, uint64(c&15)
	case c <= 0x9f:
		nd.K, cnt = NArr, uint64(c&15)
	case c <= 0xbf:
		nd.K = NStr
		if nd.S, ok = body(uint64(c & 31)); !ok {
			return nil, errShort
		}
		return done()
	default:
		switch c {
		case 0xc0:
			nd.K = NNil
			return done()
		case 0xc1:
			return nil, errForm
		case 0xc2, 0xc3:
			nd.K, nd.B = NBool, c == 0xc3
			return done()
		case 0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb:
			w := 1 << ((c - 0xc4) & 3)
			nd.K = NBin
			if c >= 0xd9 {
				w = 1 << (c - 0xd9)
				nd.K = NStr
			}
			if cnt, ok = num(w); !ok {
				return nil, errShort
			}
			if nd.S, ok = body(cnt); !ok {
				return nil, errShort
			}
			return done()
		case 0xc7, 0xc8, 0xc9, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
			nd.K = NExt
			if c >= 0xd4 {
				cnt = 1 << (c - 0xd4)
			} else if cnt, ok = num(1 << (c - 0xc7)); !ok {
				return nil, errShort
			}
			t, ok := num(1)
			if !ok {
				return nil, errShort
			}
			nd.Tag = byte(t)
			if nd.S, ok = body(cnt); !ok {
				return nil, errShort
			}
			return done()
		case 0xca:
			v, ok := num(4)
			if !ok {
				return nil, errShort
			}
			nd.K, nd.F32 = NF32, uint32(v)
			return done()
		case 0xcb:
			v, ok := num(8)
			if !ok {
				return nil, errShort
			}
			nd.K, nd.F64 = NF64, v
			return done()
		case 0xcc, 0xcd, 0xce, 0xcf:
			v, ok := num(1 << (c - 0xcc))
			if !ok {
				return nil, errShort
			}
			if v > math.MaxInt64 {
				nd.K, nd.U = NUint, v
			} else {
				nd.K, nd.I = NInt, int64(v)
			}
			return done()
		case 0xd0, 0xd1, 0xd2, 0xd3:
			w := 1 << (c - 0xd0)
			v, ok := num(w)
			if !ok {
				return nil, errShort
			}
			sh := uint(64 - 8*w)
			nd.K, nd.I = NInt, int64(v<<sh)>>sh
			return done()
		case 0xdc, 0xdd:
			nd.K = NArr
			if cnt, ok = num(2 << (c - 0xdc)); !ok {
				return nil, errShort
			}
		case 0xde, 0xdf:
			nd.K = NMap
			if cnt, ok = num(2 << (c - 0xde)); !ok {
				return nil, errShort
			}
		}
	}
	for i := uint64(0); i < cnt; i++ {
		if nd.K == NMap {
			k, err := refDecode(b, p, depth+1)
			if err != nil {
				return nil, err
			}
			nd.Keys = append(nd.Keys, k)
			p = k.End
		}
		v, err := refDecode(b, p, depth+1)
		if err != nil {
			return nil, err
		}
		nd.Arr = append(nd.Arr, v)
		p = v.End
	}
	return done()
}

// denote says which value a well-formed object stands for. sorted reports
// whether every map came in non-decreasing key order (then duplicates have an
// order). An error means the object is outside what is claimed.
func denote(nd *Node, unordered *bool) (*MV, error) {
	switch nd.K {
	case NNil:
		return mNull, nil
	case NBool:
		return mBool(nd.B), nil
	case NInt:
		return mLong(nd.I), nil
	case NUint:
		return mBig(new(big.Int).SetUint64(nd.U)), nil
	case NF32:
		return mDouble(float64(math.Float32frombits(nd.F32))), nil
	case NF64:
		return &MV{K: KDouble, F: nd.F64}, nil
	case NStr:
		return mStr(string(nd.S)), nil
	case NBin:
		return mRaw(string(nd.S)), nil
	case NExt:
		switch nd.Tag {
		case 1:
			x, err := ungob(nd.S)
			if err != nil {
				return nil, err
			}
			return mBig(x), nil
		case 2:
			if len(nd.S) < 4 {
				return nil, errForm
			}
			x, err := ungob(nd.S[4:])
			if err != nil {
				return nil, err
			}
			return mDec(x, int32(binary.BigEndian.Uint32(nd.S))), nil
		}
		return mExt(nd.Tag, string(nd.S)), nil
	case NArr:
		m := &MV{K: KList, L: make([]*MV, len(nd.Arr))}
		for i, e := range nd.Arr {
			v, err := denote(e, unordered)
			if err != nil {
				return nil, err
			}
			m.L[i] = v
		}
		return m, nil
	case NMap:
		ints := len(nd.Keys) > 0
		for _, k := range nd.Keys {
			if k.K != NInt {
				ints = false
			}
		}
		if ints {
			m := &MV{K: KSparse}
			for i, k := range nd.Keys {
				v, err := denote(nd.Arr[i], unordered)
				if err != nil {
					return nil, err
				}
				if i > 0 && int(k.I) < m.P[i-1].K {
					*unordered = true
				}
				m.P = append(m.P, MItem{int(k.I), v})
			}
			sortItems(m.P)
			return m, nil
		}
		m := &MV{K: KMap}
		mixed := false
		for i, k := range nd.Keys {
			var key string
			switch k.K {
			case NStr:
				key = string(k.S)
			case NInt:
				key, mixed = strconv.FormatInt(k.I, 10), true
			case NBool:
				key = strconv.FormatBool(k.B)
			case NBin:
				key = refBase64 + base64.RawStdEncoding.EncodeToString(k.S)
			case NNil:
				key = "null"
			default:
				un := false
				km, err := denote(k, &un)
				if err != nil {
					return nil, err
				}
				if un {
					return nil, fmt.Errorf("ref: the text of a key with duplicates in any order is outside the claim")
				}
				key = keyText(km)
			}
			v, err := denote(nd.Arr[i], unordered)
			if err != nil {
				return nil, err
			}
			if i > 0 && key < m.E[i-1].K {
				*unordered = true
			}
			m.E = append(m.E, MEnt{key, v})
		}
		if mixed {
			*unordered = true
		}
		sort.SliceStable(m.E, func(i, j int) bool { return m.E[i].K < m.E[j].K })
		return m, nil
	}
	return nil, errForm
}

// keyText is the text form of a key that is a number beyond int64, a double, an
// extension or a collection: the text of the value alone.
var keyText func(m *MV) string

func ungob(b []byte) (*big.Int, error) {
	if len(b) == 0 {
		return new(big.Int), nil
	}
	if b[0]>>1 != 1 {
		return nil, errForm
	}
	x := new(big.Int).SetBytes(b[1:])
	if b[0]&1 != 0 {
		x.Neg(x)
	}
	return x, nil
}
