package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"

	"github.com/codeallergy/value"
)

// ------------------------------------------------------------------ C28

// recorder is a packer of our own. It keeps no MessagePack: every call is
// checked against what is open and written down with the reference encoder.
type recorder struct {
	open  []int // what is missing of every open collection, in values
	keys  []int // 0: no map, 1: next is a key, 2: next is a value
	out   []byte
	roots int
	calls int
	bad   string
	err   error // what Error() says
	asked int
}

func (p *recorder) fail(format string, a ...interface{}) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(format, a...)
	}
}

func (p *recorder) begin(what string, key bool) {
	p.calls++
	if n := len(p.open); n == 0 {
		p.roots++
		if p.roots > 1 {
			p.fail("call %d: %s after the value was complete", p.calls, what)
		}
	} else {
		switch p.keys[n-1] {
		case 1:
			if !key {
				p.fail("call %d: %s where a map key belongs", p.calls, what)
			}
			p.keys[n-1] = 2
		case 2:
			p.keys[n-1] = 1
		}
		p.open[n-1]--
	}
}

func (p *recorder) end() {
	for n := len(p.open); n > 0 && p.open[n-1] == 0; n = len(p.open) {
		p.open, p.keys = p.open[:n-1], p.keys[:n-1]
	}
}

func (p *recorder) header(n, each, key int) {
	if n < 0 {
		p.fail("call %d: a collection of %d", p.calls, n)
		return
	}
	p.open, p.keys = append(p.open, n*each), append(p.keys, key)
	p.end()
}

func (p *recorder) PackNil() { p.begin("PackNil", false); p.out = append(p.out, 0xc0); p.end() }
func (p *recorder) PackBool(b bool) {
	p.begin("PackBool", false)
	p.out = refEnc(p.out, mBool(b), nil)
	p.end()
}
func (p *recorder) PackLong(v int64) {
	p.begin("PackLong", true)
	p.out = encInt(p.out, v, nil)
	p.end()
}
func (p *recorder) PackDouble(v float64) {
	p.begin("PackDouble", false)
	p.out = refEnc(p.out, mDouble(v), nil)
	p.end()
}
func (p *recorder) PackStr(s string) {
	p.begin("PackStr", true)
	p.out = encStr(p.out, s, nil)
	p.end()
}
func (p *recorder) PackBin(b []byte) {
	p.begin("PackBin", false)
	p.out = refEnc(p.out, mRaw(string(b)), nil)
	p.end()
}
func (p *recorder) PackExt(t value.Ext, b []byte) {
	p.begin("PackExt", false)
	p.out = encExt(p.out, byte(t), b, nil)
	p.end()
}
func (p *recorder) PackList(n int) {
	p.begin("PackList", false)
	p.out = encHeader(p.out, n, 15, 0x90, 0, 0xdc, 0xdd, nil)
	p.header(n, 1, 0)
}
func (p *recorder) PackMap(n int) {
	p.begin("PackMap", false)
	p.out = encHeader(p.out, n, 15, 0x80, 0, 0xde, 0xdf, nil)
	p.header(n, 2, 1)
}
func (p *recorder) PackRaw(b []byte) {
	p.fail("call %d: PackRaw of %s, the packer does not know what that is", p.calls, hexShort(b))
}
func (p *recorder) Error() error { p.asked++; return p.err }

// token is one token in a format of our own.
type token struct {
	refToken
	header  []byte
	payload []byte
}

// tokensOf splits one MessagePack object.
func tokensOf(c *Case, b []byte, own bool) []token {
	var out []token
	for len(b) > 0 {
		t, ok := refTok(b)
		c.Check(ok && len(b) >= t.hdr+t.payload, "reference tokens")
		tk := token{refToken: t, header: append([]byte{}, b[:t.hdr]...), payload: append([]byte{}, b[t.hdr:t.hdr+t.payload]...)}
		if t.f == value.FixExtToken {
			tk.ext = append([]byte{}, t.ext...)
		}
		if own {
			// whatever looks like MessagePack in it is none
			switch c.Intn(5) {
			case 0:
				tk.header = nil
			case 1:
				tk.header = []byte{0xcf}
			case 2:
				tk.header = append([]byte{0xcf}, make([]byte, 8)...)
			case 3:
				tk.header = c.Bytes(c.Intn(12))
			}
		}
		b = b[t.hdr+t.payload:]
		out = append(out, tk)
	}
	return out
}

type fault int

const (
	noFault fault = iota
	fEOF
	fCut
	fFormat
	fRead
	fShort
	fParser
)

var faultNames = []string{"no fault", "the end of the input", "an input that breaks off", "an unknown format", "a read error", "a read of too few bytes", "a parser error"}

// source is an unpacker and parser of our own over tokens.
type source struct {
	toks   []token
	next   int
	reads  int
	bad    string
	fault  fault
	at     int
	err    error
	perr   error
	format value.Format
	hit    bool
	open   bool // the payload of the last token was not read yet
}

func (s *source) Next() (value.Format, []byte) {
	if s.open {
		s.bad = fmt.Sprintf("token %d is asked for before the %d bytes of the one before were read", s.next, len(s.toks[s.next-1].payload))
	}
	i := s.next
	if s.fault != noFault && i == s.at {
		switch s.fault {
		case fEOF:
			s.hit = true
			return value.EOF, nil
		case fCut:
			s.hit = true
			return value.UnexpectedEOF, nil
		case fFormat:
			s.hit = true
			return s.format, s.toks[i].header
		}
	}
	if i >= len(s.toks) {
		s.bad = "asked for a token after the object"
		return value.EOF, nil
	}
	s.next++
	t := &s.toks[i]
	s.open = hasPayload(t) && len(t.payload) > 0 // an empty one need not be read
	return t.f, t.header
}

func hasPayload(t *token) bool {
	return t.f == value.BinHeader || t.f == value.StrHeader || t.f == value.ExtHeader
}

func (s *source) cur() *token { return &s.toks[s.next-1] }

func (s *source) Read(n int) ([]byte, error) {
	t := s.cur()
	if s.at == s.next-1 {
		switch s.fault {
		case fRead:
			s.hit = true
			return nil, s.err
		case fShort:
			s.hit = true
			return t.payload[:0], io.ErrUnexpectedEOF
		}
	}
	if n == 0 && hasPayload(t) && len(t.payload) == 0 {
		return t.payload, nil
	}
	if !s.open {
		s.bad = fmt.Sprintf("%d bytes are read after a %s", n, formatName(t.f))
		return nil, errInjected
	}
	s.open = false
	if n != len(t.payload) {
		s.bad = fmt.Sprintf("%d bytes are read of a payload of %d", n, len(t.payload))
		return nil, errInjected
	}
	return t.payload, nil
}

// parsed is called by every parse function.
func (s *source) parsed(want ...value.Format) bool {
	t := s.cur()
	ok := false
	for _, f := range want {
		ok = ok || t.f == f
	}
	if !ok {
		s.bad = fmt.Sprintf("a %s is parsed as %s", formatName(t.f), formatName(want[0]))
		return false
	}
	if s.fault == fParser && s.at == s.next-1 {
		s.hit = true
		s.perr = s.err
		return false
	}
	return true
}

func (s *source) ParseBool([]byte) bool { return s.parsed(value.BoolToken) && s.cur().b }
func (s *source) ParseLong([]byte) int64 {
	if s.parsed(value.LongToken) {
		return s.cur().i
	}
	return 0
}
func (s *source) ParseDouble([]byte) float64 {
	if s.parsed(value.DoubleToken) {
		return math.Float64frombits(s.cur().d)
	}
	return 0
}
func (s *source) count(f value.Format) int {
	if s.parsed(f) {
		return s.cur().n
	}
	return 0
}
func (s *source) ParseBin([]byte) int  { return s.count(value.BinHeader) }
func (s *source) ParseStr([]byte) int  { return s.count(value.StrHeader) }
func (s *source) ParseList([]byte) int { return s.count(value.ListHeader) }
func (s *source) ParseMap([]byte) int  { return s.count(value.MapHeader) }
func (s *source) ParseExt([]byte) (int, []byte) {
	if s.parsed(value.ExtHeader, value.FixExtToken) {
		return s.cur().n, s.cur().ext
	}
	return 0, nil
}
func (s *source) Error() error { return s.perr }

// liar gives the tokens of an object to the real parser, one header being that
// of another token.
type liar struct {
	toks []token
	next int
}

func (l *liar) Next() (value.Format, []byte) {
	if l.next >= len(l.toks) {
		return value.EOF, nil
	}
	l.next++
	return l.toks[l.next-1].f, l.toks[l.next-1].header
}
func (l *liar) Read(n int) ([]byte, error) {
	p := l.toks[l.next-1].payload
	if n < 0 || n > len(p) {
		return nil, io.ErrUnexpectedEOF
	}
	return p[:n], nil
}

func anyDocument(c *Case) ([]byte, *MV) {
	m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 1 + c.Intn(25), NoHoles: true}).wire()
	if c.P(1, 12) {
		// unsigned above the int64 range
		u := c.U64() | 1<<63
		b := append([]byte{0x92, 0xcf}, be64(nil, u)...)
		return append(b, refEncode(m)...), mList(mBig(new(big.Int).SetUint64(u)), m)
	}
	if c.Bool() {
		return refEncode(m), m
	}
	return refEnc(nil, m, foreignStyle(c.RNG)), m
}

func hasU64(ts []token) bool {
	for _, t := range ts {
		if t.u {
			return true
		}
	}
	return false
}

// lyingHeader is a header of another family than f.
func lyingHeader(c *Case, f value.Format) []byte {
	heads := [][]byte{{0xc0}, {0xc2}, {0xc1}, {7}, {0xff}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}, {0xca, 0, 0, 0, 0}, {0xc4, 3}, {0xa3}, {0xd9, 3}, {0x92}, {0x82}, {0xdc, 0, 1}, {0xde, 0, 1}, {0xc7, 3}, {0xd4, 5, 6}, {0xd1, 1, 2}, {0xcf, 1, 2, 3, 4, 5, 6, 7, 8}, {0xc5, 0, 1}, {0xdf, 0, 0, 0, 1}, {0xdb, 0, 0, 0, 2}, {0xc8, 0, 1}, {0xd6, 1, 1, 2, 3, 4}}
	for {
		hdr := heads[c.Intn(len(heads))]
		t, _ := refTok(hdr)
		if hdr[0] == 0xc1 || familyOf(t.f) != familyOf(f) {
			return hdr
		}
	}
}

func init() {
	register(&Prop{
		ID:    "C28",
		Rule:  "a case is one value packed into a recording packer, or one object delivered as tokens by an unpacker and parser of the harness (without or with one fault, or with headers of another family for the real parser); distinct by bytes and fault",
		Needs: []string{"packed", "calls", "parsed", "faults:1", "faults:2", "faults:3", "faults:4", "faults:5", "faults:6", "lies", "composed", "unsigned"},
		Sections: []Section{
			{Name: "packers", N: n(15000, 600000), Run: func(c *Case) {
				m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 1 + c.Intn(30), MaxStr: 300})
				v, m := mk(c, m, BuildOpt{})
				c.Note("packing %v into a packer of our own", m)
				p := &recorder{}
				if c.P(1, 8) {
					p.err = errInjected // it may say so, but a value has nothing to decide
				}
				if v == nil {
					return
				}
				v.Pack(p)
				c.Check(p.bad == "", "%s", p.bad)
				c.Check(p.roots == 1 && len(p.open) == 0, "%v calls the packer with %d values, %d collections incomplete", m, p.roots, len(p.open))
				c.sameBytes(p.out, refEncode(m.wire()), "the calls of %v written down", m)
				c.Count("packed", 1)
				c.Count("calls", int64(p.calls))
				c.DistinctB(p.out)
			}},
			{Name: "large", N: n(16, 60), Run: func(c *Case) {
				k := []int{15, 16, 17, 65535, 65536, 65537, 300, 1000}[c.Index%8]
				m := &MV{K: []MK{KList, KMap}[c.Index/8%2]}
				for i := 0; i < k; i++ {
					if m.K == KList {
						m.L = append(m.L, mLong(int64(i)))
					} else {
						m.E = append(m.E, MEnt{fmt.Sprintf("%06d", i), mLong(int64(i))})
					}
				}
				v, m := mk(c, m, BuildOpt{})
				p := &recorder{}
				v.Pack(p)
				c.Check(p.bad == "" && p.roots == 1 && len(p.open) == 0, "%d elements: %s, %d values, %d open", k, p.bad, p.roots, len(p.open))
				c.sameBytes(p.out, refEncode(m.wire()), "the calls of %d elements written down", k)
				s := &source{toks: tokensOf(c, p.out, true)}
				u, err := value.Parse(s, s)
				c.Check(err == nil && s.bad == "", "%d elements from a source of our own: %v %s", k, err, s.bad)
				c.same(project(u), m.wire(), "%d elements from a source of our own", k)
				c.Count("calls", int64(p.calls))
			}},
			{Name: "composed", N: n(5000, 200000), Run: func(c *Case) {
				// parts packed before are put into a larger one as they are
				k := c.Intn(20)
				m := mList()
				isMap := c.Bool()
				var parts [][]byte
				for i := 0; i < k; i++ {
					e := gen(c.RNG, GenOpt{Depth: 2, Budget: 6}).wire()
					v, e := mk(c, e, BuildOpt{})
					m.L = append(m.L, e.wire())
					parts = append(parts, mustPack(c, v))
				}
				var want []byte
				b := packed(c, func(p value.Packer) {
					if isMap {
						p.PackMap(k)
						want = encHeader(nil, k, 15, 0x80, 0, 0xde, 0xdf, nil)
					} else {
						p.PackList(k)
						want = encHeader(nil, k, 15, 0x90, 0, 0xdc, 0xdd, nil)
					}
					for i, x := range parts {
						if isMap {
							key := fmt.Sprintf("k%02d", i)
							p.PackStr(key)
							want = encStr(want, key, nil)
						}
						p.PackRaw(x)
						want = append(want, x...)
					}
				})
				c.sameBytes(b, want, "%d parts put together with PackRaw", k)
				u, err := value.Unpack(b, c.Bool())
				c.Check(err == nil, "%d parts put together: %v", k, err)
				if k > 0 {
					got := project(u)
					if isMap {
						c.Check(got.K == KMap && len(got.E) == k, "%d parts in a map come back as %v", k, got)
						for i, e := range got.E {
							c.same(mnorm(e.V), mnorm(generic(m.L[i])), "part %d", i)
						}
					} else {
						c.same(mnorm(got), mnorm(generic(m)), "parts put together")
					}
				}
				c.Count("composed", 1)
				c.DistinctB(b)
			}},
			{Name: "sources", N: n(15000, 600000), Run: func(c *Case) {
				b, m := anyDocument(c)
				own := c.Bool()
				toks := tokensOf(c, b, own)
				c.Note("tokens of %v", m)
				if own && hasU64(toks) {
					return // above the int64 range a parser of our own has no way to say so
				}
				ref, err := value.Unpack(b, true)
				c.Check(err == nil, "Unpack of %s: %v", hexShort(b), err)
				s := &source{toks: toks}
				v, err := value.Parse(s, s)
				c.Check(s.bad == "", "%s", s.bad)
				c.Check(err == nil && v != nil, "Parse of %v from a source of our own: %v, %v", m, v, err)
				c.Check(s.next == len(toks), "Parse took %d of %d tokens", s.next, len(toks))
				c.same(mnorm(project(v)), mnorm(generic(m)), "from a source of our own")
				c.same(mnorm(project(v)), mnorm(project(ref)), "from a source of our own, against Unpack")
				c.Count("parsed", 1)
				// another object follows on the same pair
				s.toks = append(s.toks, tokensOf(c, b, own)...)
				if hasU64(toks) {
					c.Count("unsigned", 1)
				}
				w, err := value.Parse(s, s)
				c.Check(err == nil && s.bad == "", "the second object from the same source: %v %s", err, s.bad)
				c.same(mnorm(project(w)), mnorm(project(v)), "the second object from the same source")
				c.DistinctB(b)
			}},
			{Name: "faults", N: n(20000, 800000), Run: func(c *Case) {
				b, m := anyDocument(c)
				toks := tokensOf(c, b, true)
				if hasU64(toks) {
					return
				}
				f, at, ok := faultyParse(c, toks, m)
				if !ok {
					return
				}
				c.Count(fmt.Sprintf("faults:%d", f), 1)
				c.Distinct(fnv64(string(b)) ^ uint64(f)<<32 ^ uint64(at))
			}},
			{Name: "lies", N: n(20000, 800000), Run: func(c *Case) {
				b, m := anyDocument(c)
				toks := tokensOf(c, b, false)
				hdr, ok := lyingParse(c, toks, m)
				if !ok {
					return
				}
				c.Count("lies", 1)
				c.Distinct(fnv64(string(b)) ^ fnv64(string(hdr)))
			}},
		},
	})
}

// faultyParse lets a source of our own fail at one token.
func faultyParse(c *Case, toks []token, m interface{}) (fault, int, bool) {
	f := fault(1 + c.Intn(6))
	var at []int
	for i, t := range toks {
		pay := hasPayload(&toks[i]) && len(t.payload) > 0
		if (f == fRead || f == fShort) && !pay || f == fParser && t.f == value.NilToken {
			continue
		}
		at = append(at, i)
	}
	if len(at) == 0 {
		return f, 0, false
	}
	s := &source{toks: toks, fault: f, at: late(c, at), err: genFault(c.RNG)}
	s.format = []value.Format{-1, 12, 13, 99, 1 << 40, math.MinInt64}[c.Intn(6)]
	c.Note("%s at token %d of %v", faultNames[f], s.at, m)
	v, err := value.Parse(s, s)
	c.Check(s.bad == "", "%s", s.bad)
	c.Check(s.hit, "token %d was not reached", s.at)
	c.Check(err != nil, "%s is not reported, the value is %v", faultNames[f], v)
	switch f {
	case fEOF:
		want := io.ErrUnexpectedEOF
		if s.at == 0 {
			want = io.EOF
		}
		c.Check(err == want, "the end of the input at token %d gives %v, expected %v", s.at, err, want)
	case fCut, fShort:
		c.Check(err != io.EOF, "%s gives the clean end of the input", faultNames[f])
	case fRead, fParser:
		c.Check(errors.Is(err, s.err), "%s gives %v, expected the error itself", faultNames[f], err)
	}
	c.Check(s.next <= s.at+1, "after %s at token %d the source is still asked, up to %d", faultNames[f], s.at, s.next)
	return f, s.at, true
}

// late is one of them, the last ones preferred when there are many.
func late(c *Case, at []int) int {
	if len(at) > 60 && c.Bool() {
		at = at[len(at)*3/4:]
	}
	return at[c.Intn(len(at))]
}

// lyingParse gives the real parser a header of another family at one token.
func lyingParse(c *Case, toks []token, m interface{}) ([]byte, bool) {
	var at []int
	for i, t := range toks {
		if t.f != value.NilToken {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return nil, false
	}
	i := late(c, at)
	hdr := lyingHeader(c, toks[i].f)
	toks[i].header = hdr
	c.Note("token %d of %v, a %s, has the header %x", i, m, formatName(toks[i].f), hdr)
	v, err := value.Parse(&liar{toks: toks}, value.MessageParser())
	c.Check(err != nil, "a %s with the header %x gives %v and no error", formatName(toks[i].f), hdr, v)
	return hdr, true
}
