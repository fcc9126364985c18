package main

import (
	"bufio"
	"bytes"
	"crypto"
	crand "crypto/rand"
	"fmt"
	"io"
	"reflect"
	"sync"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
)

// ------------------------------------------------------------------ C20

// guarded returns b inside a larger array filled with a pattern, and a check
// that the memory around it and b itself still hold what they held.
type guarded struct {
	whole, b, orig []byte
	lo, hi         int
}

func guard(r *RNG, b []byte) *guarded {
	lo := r.Intn(9)
	g := &guarded{whole: make([]byte, lo+len(b)+16), lo: lo, hi: lo + len(b)}
	for i := range g.whole {
		g.whole[i] = 0xA5
	}
	copy(g.whole[lo:], b)
	g.b = g.whole[lo:g.hi] // capacity reaches over the pattern
	g.orig = append([]byte{}, g.whole...)
	return g
}

func (g *guarded) check(c *Case, what string, args ...interface{}) {
	c.evals++
	if !bytes.Equal(g.whole, g.orig) {
		i := 0
		for g.whole[i] == g.orig[i] {
			i++
		}
		where := "inside"
		if i < g.lo || i >= g.hi {
			where = "outside"
		}
		c.Failf("%s writes %#x at offset %d, %s the %d bytes it was given", fmt.Sprintf(what, args...), g.whole[i], i-g.lo, where, g.hi-g.lo)
	}
}

// scribble overwrites everything, the way a caller reusing its buffer does.
func (g *guarded) scribble(r *RNG) {
	for i := range g.whole {
		g.whole[i] ^= byte(1 + r.Intn(255))
	}
	copy(g.orig, g.whole)
}

// scribbleReader hands out bytes through readers and scribbles over them later.
type scribbleReader struct {
	g   *guarded
	off int
	r   *RNG
}

func (s *scribbleReader) Read(p []byte) (int, error) {
	if s.off >= len(s.g.b) {
		return 0, io.EOF
	}
	k := 1 + s.r.Intn(len(p)+1)
	if k > len(p) {
		k = len(p)
	}
	k = copy(p[:k], s.g.b[s.off:])
	s.off += k
	return k, nil
}

func pickDoc(c *Case) []byte {
	switch c.Intn(4) {
	case 0:
		b, _, _ := genForeign(c.RNG)
		return b
	case 1: // byte payloads of every header family
		var b []byte
		k := c.Range(1, 15)
		b = append(b, 0x90|byte(k))
		for i := 0; i < k; i++ {
			d := string(c.Bytes([]int{0, 1, 2, 4, 8, 16, 3, 20, 31, 40, 255, 256, 300}[c.Intn(13)]))
			switch c.Intn(3) {
			case 0:
				b = refEnc(b, mRaw(d), foreignStyle(c.RNG))
			case 1:
				b = refEnc(b, mExt(extTags[c.Intn(len(extTags))], d), foreignStyle(c.RNG))
			default:
				b = refEnc(b, mStr(d), foreignStyle(c.RNG))
			}
		}
		return b
	case 2:
		return refEncode(genScalar(c.RNG, &GenOpt{NoHuge: true}))
	}
	return refEncode(genColl(c.RNG, GenOpt{Depth: 3, Budget: 20, NoHuge: true}))
}

// sentinel marks slice elements that nobody may overwrite.
type sentSlice struct {
	whole, orig []value.Value
	s           []value.Value
}

func guardSlice(c *Case, vs []value.Value) *sentSlice {
	pad := c.Intn(4)
	g := &sentSlice{}
	g.whole = make([]value.Value, len(vs)+pad)
	copy(g.whole, vs)
	for i := len(vs); i < len(g.whole); i++ {
		g.whole[i] = value.Str(fmt.Sprintf("sentinel %d", i))
	}
	g.s = g.whole[:len(vs)]
	g.orig = append([]value.Value{}, g.whole...)
	return g
}

func sameIface(a, b value.Value) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return mdiff(project(a), project(b)) == ""
}

func (g *sentSlice) check(c *Case, what string) {
	c.evals++
	for i := range g.whole {
		if !sameIface(g.whole[i], g.orig[i]) {
			where := "element"
			if i >= len(g.s) {
				where = "memory beyond the slice at"
			}
			c.Failf("%s changes the caller's slice: %s %d was %v, is %v", what, where, i, project(g.orig[i]), project(g.whole[i]))
		}
	}
}

func (g *sentSlice) scribble() {
	for i := range g.whole {
		g.whole[i] = value.Str("overwritten by the caller")
		g.orig[i] = g.whole[i]
	}
}

// snapshot of any collection; verified after the caller scribbles.
func snap(v value.Value) *MV { return project(v) }

func insertAllCase(c *Case) {
	var uniq int64 = 1000
	fam := c.Intn(6)
	vals, ms := argSlice(c, &uniq)
	for i := range vals {
		if c.P(1, 5) {
			vals[i], ms[i] = nil, mNull
		}
	}
	g := guardSlice(c, vals)
	what := ""
	var res value.Value
	var derive func(v value.Value) value.Value
	switch {
	case fam < 3:
		var l value.List
		n := c.Intn(6)
		for try := 0; try < 2; try++ {
			base := make([]value.Value, n, n+c.Intn(3))
			for i := range base {
				base[i] = value.Long(int64(i))
			}
			switch fam {
			case 0:
				l = value.ImmutableList(base)
			case 1:
				l = value.MutableList(base)
			default:
				l = value.SparseListOf(base)
			}
		}
		i := c.Range(0, n+1)
		if c.P(1, 3) {
			i = 0
		}
		what = fmt.Sprintf("%v.InsertAll(%d of %d, %d values)", l.Class(), i, n, len(vals))
		res = l.InsertAll(i, g.s)
		derive = func(v value.Value) value.Value {
			l := v.(value.List)
			switch c.Intn(5) {
			case 0:
				return l.Append(value.Str("appended"))
			case 1:
				return l.InsertAt(c.Intn(4), value.Str("inserted"))
			case 2:
				return l.RemoveAt(c.Intn(4))
			case 3:
				l.UpdateAt(c.Intn(5), &updFunc{ret: value.Str("updated")})
				return l
			default:
				return l.PutAt(c.Intn(5), value.Str("put"))
			}
		}
	default:
		var m value.Map
		if fam == 3 {
			m = value.EmptyImmutableMap()
		} else {
			m = value.EmptyMutableMap()
		}
		n := c.Intn(5)
		for i := 0; i < n; i++ {
			m = m.Put(string(rune('b'+2*i)), value.Long(int64(i)))
		}
		key := string(rune('a' + c.Intn(2*n+3)))
		what = fmt.Sprintf("%v.InsertAll(%q, %d values) into %d", m.Class(), key, len(vals), n)
		res = m.InsertAll(key, g.s)
		derive = func(v value.Value) value.Value {
			m := v.(value.Map)
			key := string(rune('a' + c.Intn(2*n+3)))
			switch c.Intn(4) {
			case 0:
				return m.Put(key, value.Str("put"))
			case 1:
				return m.Insert(key, value.Str("inserted"))
			case 2:
				return m.Remove(key)
			default:
				m.Update(key, &updFunc{ret: value.Str("updated")})
				return m
			}
		}
	}
	c.Note("%s", what)
	g.check(c, what)
	before := snap(res)
	packed := mustPack(c, res)
	g.scribble()
	c.same(snap(res), before, "%s: the collection after the caller overwrites its slice", what)
	c.sameBytes(mustPack(c, res), packed, "%s: packed bytes after the caller overwrites its slice", what)
	// neither do later operations write into the caller's slice
	for k := 0; k < 4; k++ {
		res = derive(res)
		g.check(c, what+" followed by another operation")
	}
	c.Count("insert-all", 1)
	c.Distinct(fnv64(what))
}

// canaries must always pack to these bytes.
func canaries(c *Case, after string) {
	for _, x := range []struct {
		v value.Value
		b string
	}{{value.Null, "\xc0"}, {value.True, "\xc3"}, {value.False, "\xc2"}, {value.Long(5), "\x05"}, {value.Long(-1), "\xff"}, {value.Double(0), "\xcb\x00\x00\x00\x00\x00\x00\x00\x00"},
		{value.Str("a"), "\xa1a"}, {value.EmptyList(true), "\x90"}, {value.EmptyMap(true), "\x80"}, {value.Raw([]byte{1}, true), "\xc4\x01\x01"}, {value.Long(300), "\xcd\x01\x2c"}} {
		b, err := value.Pack(x.v)
		c.Check(err == nil && string(b) == x.b, "after %s, Pack(%v) gives %x, expected %x", after, x.v, b, x.b)
		b, err = x.v.MarshalBinary()
		c.Check(err == nil && string(b) == x.b, "after %s, MarshalBinary of %v gives %x, expected %x", after, x.v, b, x.b)
	}
}

// outputCase overwrites everything a value hands out as bytes.
func outputCase(c *Case, v value.Value, m *MV) {
	f := freeze(c, v, "the value")
	outs := []struct {
		name string
		f    func() ([]byte, error)
	}{
		{"Pack", func() ([]byte, error) { return value.Pack(v) }},
		{"MarshalBinary", v.MarshalBinary},
		{"MarshalJSON", v.MarshalJSON},
		{"PackStruct", func() ([]byte, error) { return value.PackStruct(v) }},
		{"Hash data", func() ([]byte, error) { d, _, err := value.Hash(v, crypto.SHA256); return d, err }},
		{"Hash digest", func() ([]byte, error) { _, d, err := value.Hash(v, crypto.SHA256); return d, err }},
		{"PackStruct of a field", func() ([]byte, error) { return value.PackStruct(&hInner{B: v}) }},
	}
	if s, ok := v.(value.String); ok && s.Type() == value.UTF8 {
		outs = append(outs, struct {
			name string
			f    func() ([]byte, error)
		}{"Raw of a text", func() ([]byte, error) { return s.Raw(), nil }})
	}
	for _, o := range outs {
		b, err := o.f()
		c.Check(err == nil, "%s: %v", o.name, err)
		want := append([]byte{}, b...)
		c.Note("overwriting the bytes of %s of %v", o.name, m)
		for i := range b {
			b[i] ^= byte(1 + c.Intn(255))
		}
		b = b[:cap(b)]
		for i := len(want); i < len(b); i++ {
			b[i] = 0xEE
		}
		canaries(c, "overwriting the bytes of "+o.name)
		f.verify(c, "overwriting the bytes of "+o.name)
		b2, err := o.f()
		c.Check(err == nil, "%s: %v", o.name, err)
		c.sameBytes(b2, want, "%s after overwriting its earlier bytes", o.name)
		c.Count("outputs", 1)
	}
	// two results never share memory
	a, _ := value.Pack(v)
	b, _ := value.Pack(v)
	if len(a) > 0 {
		a[0] ^= 0xff
		c.Check(b[0] != a[0], "two results of Pack share memory")
	}
}

func init() {
	register(&Prop{
		ID:    "C20",
		Rule:  "One case hands over a buffer, slice or map surrounded by guard memory (or receives bytes), overwrites it afterwards and compares all observable faces of the value with those recorded before, and the guard memory with its pattern. Distinct by document, content or operation.",
		Needs: []string{"copies", "readers", "structs", "unchanged-inputs", "insert-all", "outputs", "go-maps", "sealed", "immutable-ctor", "large-structs"},
		Sections: []Section{
			{Name: "decode-copy", N: n(12000, 200000), Run: func(c *Case) {
				doc := pickDoc(c)
				c.Note("document %s", hexShort(doc))
				for _, cp := range []bool{true, false} {
					g := guard(c.RNG, doc)
					u, err := value.Unpack(g.b, cp)
					g.check(c, "Unpack(copy=%v)", cp)
					c.Count("unchanged-inputs", 1)
					if err != nil {
						continue
					}
					if cp {
						f := freeze(c, u, "the decoded value")
						g.scribble(c.RNG)
						f.verify(c, "the caller overwrites the input buffer")
						c.Count("copies", 1)
					} else {
						// using the value leaves the buffer alone as well
						touch(c, u)
						_, _ = value.Pack(u)
						_ = value.Jsonify(u)
						_, _ = u.MarshalBinary()
						if l, ok := u.(value.List); ok && immList(u) {
							_ = l.Append(value.Long(1)).RemoveAt(0)
						}
						g.check(c, "using a value unpacked without copy")
					}
				}
				c.DistinctB(doc)
				c.Sample("%s", hexShort(doc))
			}},
			{Name: "readers", N: n(5000, 80000), Run: func(c *Case) {
				// several objects from one reader; all earlier ones stay
				var b []byte
				k := c.Range(2, 6)
				for i := 0; i < k; i++ {
					b = append(b, pickDoc(c)...)
				}
				g := guard(c.RNG, b)
				var rd io.Reader
				switch c.Intn(4) {
				case 0:
					rd = bytes.NewReader(g.b)
				case 1:
					rd = bytes.NewBuffer(g.b)
				case 2:
					rd = bufio.NewReaderSize(&scribbleReader{g: g, r: c.RNG}, 16)
				default:
					rd = bufio.NewReader(bytes.NewReader(g.b))
				}
				var fs []*frozen
				if c.Bool() {
					for i := 0; i < k; i++ {
						u, err := value.Read(rd)
						if err != nil {
							break
						}
						for _, f := range fs {
							f.verify(c, fmt.Sprintf("reading object %d", i))
						}
						fs = append(fs, freeze(c, u, fmt.Sprintf("object %d", i)))
					}
				} else {
					ch := make(chan value.Value, c.Intn(3))
					go value.ReadStream(rd, ch)
					for u := range ch {
						fs = append(fs, freeze(c, u, fmt.Sprintf("object %d", len(fs))))
					}
				}
				g.check(c, "reading")
				g.scribble(c.RNG)
				for _, f := range fs {
					f.verify(c, "reading on and overwriting the source")
				}
				c.Count("readers", int64(len(fs)))
				c.DistinctB(b)
			}},
			{Name: "structs", N: n(4000, 60000), Run: func(c *Case) {
				doc := validStructDoc(c.RNG)
				if c.P(1, 6) { // large, with data in every kind of field that can hold some
					part := func() *MV {
						d := string(c.Bytes(c.Intn(1 << uint(4+c.Intn(14)))))
						if c.P(1, 3) {
							return mExt(byte(3+c.Intn(100)), d)
						}
						return mRaw(d)
					}
					in := &MV{K: KSparse, P: []MItem{{2, part()}}}
					doc = refEncode(&MV{K: KSparse, P: []MItem{
						{1, part()}, {5, mList(part(), part())}, {6, &MV{K: KMap, E: []MEnt{{"a", part()}}}},
						{7, in}, {8, mList(part(), part(), part())}, {10, mList(in, in)},
					}})
					c.Count("large-structs", 1)
				}
				c.Note("struct document %s", hexShort(doc))
				g := guard(c.RNG, doc)
				var s hStruct
				err := value.UnpackStruct(g.b, &s, true)
				g.check(c, "UnpackStruct")
				c.Count("unchanged-inputs", 1)
				if err != nil {
					return
				}
				want, err := value.PackStruct(&s)
				if err != nil {
					return // another property's matter
				}
				want = append([]byte{}, want...)
				g.scribble(c.RNG)
				got, err := value.PackStruct(&s)
				c.Check(err == nil, "PackStruct: %v", err)
				c.sameBytes(got, want, "a struct unpacked with copy after the caller overwrites the buffer")
				for i := range got {
					got[i] ^= 0x77
				}
				got, err = value.PackStruct(&s)
				c.Check(err == nil, "PackStruct: %v", err)
				c.sameBytes(got, want, "PackStruct after overwriting its earlier bytes")
				c.Count("structs", 1)
				c.DistinctB(doc)
			}},
			{Name: "sealed", N: n(300, 4000), Run: func(c *Case) {
				a, b := genKeys(c.RNG), genKeys(c.RNG)
				v, _ := mk(c, gen(c.RNG, GenOpt{Depth: 2, Budget: 10, NoHuge: true}), BuildOpt{})
				ka, kb := *a.priv, *b.pub
				msg, err := value.Seal(v, b.pub, a.priv)
				c.Check(err == nil, "Seal: %v", err)
				c.Check(*a.priv == ka && *b.pub == kb, "Seal changes its keys")
				g := guard(c.RNG, msg)
				u, err := value.Unseal(g.b, a.pub, b.priv)
				c.Check(err == nil, "Unseal: %v", err)
				g.check(c, "Unseal")
				f := freeze(c, u, "the unsealed value")
				g.scribble(c.RNG)
				for i := range msg {
					msg[i] ^= 0x11
				}
				f.verify(c, "overwriting the sealed message")
				c.Count("sealed", 1)
				c.Distinct(c.U64())
			}},
			{Name: "raw-copy", N: n(4000, 60000), Run: func(c *Case) {
				d := c.Bytes(genLen(c.RNG, 300))
				g := guard(c.RNG, d)
				s := value.Raw(g.b, true)
				g.check(c, "Raw")
				f := freeze(c, s, "a raw string made with copy")
				list := value.Tuple(s, value.Single(s))
				fl := freeze(c, list, "a list of it")
				g.scribble(c.RNG)
				f.verify(c, "the caller overwrites the bytes")
				fl.verify(c, "the caller overwrites the bytes")
				// zero-copy strings write nothing either
				g2 := guard(c.RNG, d)
				z := value.Raw(g2.b, false)
				_, _ = value.Pack(z)
				_, _ = z.MarshalJSON()
				_ = z.String()
				_ = z.Equal(s)
				_ = z.Utf8()
				e := value.Unknown(append([]byte{9}, d...))
				_, _ = value.Pack(e)
				g2.check(c, "using a raw string")
				x := value.Utf8(string(d))
				r := x.Raw()
				for i := range r {
					r[i] ^= 0xff
				}
				c.Check(x.Utf8() == string(d), "a text changes when the bytes of Raw() are overwritten")
				p := value.MessagePacker(io.Discard)
				p.PackBin(g2.b)
				p.PackRaw(g2.b)
				p.PackExt(7, g2.b)
				g2.check(c, "packing bytes")
				c.DistinctB(d)
			}},
			{Name: "go-maps", N: n(5000, 60000), Run: func(c *Case) {
				k := c.Intn(20)
				src := map[string]value.Value{}
				ref := map[string]value.Value{}
				for i := 0; i < k; i++ {
					key := genKey(c.RNG)
					v, _ := mk(c, genScalar(c.RNG, &GenOpt{MaxStr: 10, NoHuge: true}), BuildOpt{})
					if c.P(1, 8) {
						v = nil
					}
					src[key], ref[key] = v, v
				}
				for _, imm := range []bool{true, false} {
					var m value.Map
					if imm {
						m = value.ImmutableMapOf(src)
					} else {
						m = value.SortedMapOf(src)
					}
					c.Check(len(src) == len(ref), "making a map changes the Go map")
					for key, v := range ref {
						w, ok := src[key]
						c.Check(ok && sameIface(v, w), "making a map changes the Go map at %q", key)
					}
					f := freeze(c, m, "a map made from a Go map")
					for key := range src {
						src[key] = value.Str("overwritten")
					}
					src["another"] = value.True
					f.verify(c, "the caller changes the Go map")
					h := m.HashMap()
					for key := range h {
						h[key] = value.Str("overwritten")
					}
					delete(h, "a")
					f.verify(c, "changing the result of HashMap")
					for key := range src {
						delete(src, key)
					}
					f.verify(c, "the caller empties the Go map")
					for key, v := range ref {
						src[key] = v
					}
					// the mutable map never writes back
					if !imm {
						m = m.Put("zz", value.True)
						for key := range ref {
							m.Update(key, &updFunc{ret: value.Str("updated")})
						}
						for key, v := range ref {
							c.Check(sameIface(src[key], v), "updating the map writes into the Go map at %q", key)
						}
						c.Check(len(src) == len(ref), "updating the map writes into the Go map")
					}
				}
				c.Count("go-maps", 1)
				c.Distinct(c.U64())
			}},
			{Name: "insert-all", N: n(25000, 400000), Run: insertAllCase},
			{Name: "immutable-ctor", N: n(5000, 80000), Run: func(c *Case) {
				// immutable collections never write into the array they were made from
				n := c.Intn(7)
				vs := make([]value.Value, n)
				for i := range vs {
					vs[i] = value.Long(int64(i))
				}
				g := guardSlice(c, vs)
				l := value.ImmutableList(g.s)
				for k := 0; k < 6; k++ {
					switch c.Intn(6) {
					case 0:
						l = l.Append(value.Str("x"))
					case 1:
						l = l.InsertAt(c.Intn(n+1), value.Str("x"))
					case 2:
						l = l.RemoveAt(c.Intn(n + 1))
					case 3:
						l = l.PutAt(c.Intn(n+1), value.Str("x"))
					case 4:
						l = l.InsertAll(c.Intn(n+1), []value.Value{value.Str("x"), nil})
					default:
						l = value.ImmutableList(g.s)
					}
					g.check(c, "an operation on an immutable list")
				}
				c.Count("immutable-ctor", 1)
				ents := make([]value.MapEntry, n, n+3)
				for i := range ents {
					ents[i] = value.ImmutableEntry(string(rune('a'+i)), value.Long(int64(i)))
				}
				sent := value.ImmutableEntry("sentinel", value.True)
				whole := ents[:cap(ents)]
				for i := n; i < len(whole); i++ {
					whole[i] = sent
				}
				orig := append([]value.MapEntry{}, whole...)
				m := value.ImmutableMap(ents, true)
				for k := 0; k < 6; k++ {
					key := string(rune('a' + c.Intn(n+2)))
					switch c.Intn(5) {
					case 0:
						m = m.Put(key, value.Str("x"))
					case 1:
						m = m.Insert(key, value.Str("x"))
					case 2:
						m = m.Remove(key)
					case 3:
						m = m.InsertAll(key, []value.Value{value.Str("x"), nil})
					default:
						m = m.DeleteAll(key)
					}
					for i := range whole {
						c.Check(whole[i] == orig[i], "an operation on an immutable map overwrites entry %d of the slice it was made from", i)
					}
				}
				c.Distinct(c.U64())
			}},
			{Name: "outputs", N: n(6000, 80000), Run: func(c *Case) {
				var m *MV
				if c.Bool() {
					m = genScalar(c.RNG, &GenOpt{NoHuge: true})
				} else {
					m = gen(c.RNG, GenOpt{Depth: 3, Budget: 12, NoHuge: true})
				}
				if m.K == KNil {
					m = mNull
				}
				v, p := mk(c, m, BuildOpt{})
				outputCase(c, v, p)
				c.Distinct(fnv64(p.String()))
			}},
		},
	})
}

// ------------------------------------------------------------------ C21

var (
	nonceMu  sync.Mutex
	nonceSet = map[[24]byte]bool{}

	// by size of the message
	nonceBits [3]struct {
		n           int
		ones, zeros [24]byte
	}
)

func freshNonce(c *Case, msg []byte) {
	var nonce [24]byte
	copy(nonce[:], msg)
	nonceMu.Lock()
	dup := nonceSet[nonce]
	nonceSet[nonce] = true
	// no bit of 24 fresh bytes stays the same in message after message
	k := &nonceBits[0]
	if len(msg) > 1000 {
		k = &nonceBits[1]
	}
	if len(msg) > 65536 {
		k = &nonceBits[2]
	}
	k.n++
	stuck := -1
	for i, b := range nonce {
		k.ones[i] |= b
		k.zeros[i] |= ^b
		if k.n >= 50 && (k.ones[i]&k.zeros[i] != 0xff) {
			stuck = i
		}
	}
	seen := k.n
	nonceMu.Unlock()
	if seen == 50 {
		c.Count("nonce-bits", 1)
	}
	c.Check(stuck < 0, "byte %d of the nonces has a bit that never changed in %d messages of %d bytes or so", stuck, seen, len(msg))
	c.Check(!dup, "the nonce %x was used before", nonce)
	c.Check(nonce != [24]byte{}, "the nonce is zero")
	c.Count("nonces", 1)
}

func rejected(c *Case, msg []byte, pub, priv *[32]byte, what string, args ...interface{}) {
	u, err := value.Unseal(msg, pub, priv)
	c.evals++
	if err == nil || u != nil {
		c.Failf("Unseal accepts %s: value %v, error %v", fmt.Sprintf(what, args...), projectOrNil(u), err)
	}
	c.Count("rejected", 1)
}

func projectOrNil(u value.Value) interface{} {
	if u == nil {
		return "none"
	}
	return project(u)
}

type failRand struct {
	left int
	r    *RNG
}

func (f *failRand) Read(p []byte) (int, error) {
	k := 0
	for k < len(p) && f.left > 0 {
		p[k] = byte(f.r.U64())
		k++
		f.left--
	}
	if k == 0 {
		return 0, errInjected
	}
	return k, nil
}

func init() {
	register(&Prop{
		ID:    "C21",
		Rule:  "One case is a sealed message opened with the right keys and by an independent box, and its altered, truncated and extended variants and wrong keys, each of which must be refused. Distinct by message.",
		Needs: []string{"opened", "rejected", "nonces", "nonce-bits", "wrong-keys", "truncated", "flipped", "extended", "forged"},
		Sections: []Section{
			{Name: "failing-entropy", N: n(90, 300), Serial: true, Run: func(c *Case) {
				a, b := genKeys(c.RNG), genKeys(c.RNG)
				var v value.Value = value.Long(1)
				if c.Index >= 30 {
					v = value.Raw(make([]byte, 1<<uint(c.Intn(21))), false)
				}
				old := crand.Reader
				crand.Reader = &failRand{left: c.Index % 24, r: c.RNG}
				msg, err := value.Seal(v, b.pub, a.priv)
				crand.Reader = old
				c.Check(err != nil && msg == nil, "Seal makes a message although the random source failed after %d bytes", c.Index%24)
			}},
			{Name: "open", N: n(2500, 30000), Run: func(c *Case) {
				a, b := genKeys(c.RNG), genKeys(c.RNG)
				m := gen(c.RNG, GenOpt{Depth: 3, Budget: 15, NoHuge: true})
				v, p := mkMaybeNil(c, m)
				packed := mustPack(c, v)
				c.Note("sealing %v", p)
				msg, err := value.Seal(v, b.pub, a.priv)
				c.Check(err == nil, "Seal: %v", err)
				c.Check(len(msg) == 24+box.Overhead+len(packed), "a sealed message of %d packed bytes has %d bytes", len(packed), len(msg))
				freshNonce(c, msg)
				var nonce [24]byte
				copy(nonce[:], msg)
				plain, ok := box.Open(nil, msg[24:], &nonce, a.pub, b.priv)
				c.Check(ok, "an independent box does not open the message")
				c.sameBytes(plain, packed, "the sealed bytes")
				u, err := value.Unseal(msg, a.pub, b.priv)
				c.Check(err == nil, "Unseal with the matching keys: %v", err)
				w := p.wire()
				c.same(project(u), w, "the unsealed value")
				if !p.hasNaN() && v != nil {
					c.Check(value.Equal(u, v) && value.Equal(v, u), "the unsealed value is not equal to %v", p)
				}
				// a message made by an independent box opens as well
				var n2 [24]byte
				copy(n2[:], c.Bytes(24))
				ind := box.Seal(append([]byte{}, n2[:]...), packed, &n2, b.pub, a.priv)
				u, err = value.Unseal(ind, a.pub, b.priv)
				c.Check(err == nil, "Unseal of an independently sealed message: %v", err)
				c.same(project(u), w, "the independently sealed value")
				// sealing again
				msg2, err := value.Seal(v, b.pub, a.priv)
				c.Check(err == nil, "Seal: %v", err)
				freshNonce(c, msg2)
				c.Check(!bytes.Equal(msg, msg2), "sealing twice gives the same message")
				// to oneself
				msg3, err := value.Seal(v, a.pub, a.priv)
				c.Check(err == nil, "Seal to oneself: %v", err)
				freshNonce(c, msg3)
				u, err = value.Unseal(msg3, a.pub, a.priv)
				c.Check(err == nil, "Unseal from oneself: %v", err)
				c.same(project(u), w, "the value sealed to oneself")
				// wrong keys
				x := genKeys(c.RNG)
				rejected(c, msg, x.pub, b.priv, "a message with another sender's key")
				rejected(c, msg, a.pub, x.priv, "a message with another recipient's key")
				rejected(c, msg, b.pub, b.priv, "a message with the recipient's public key as sender")
				rejected(c, msg, a.pub, a.priv, "a message with the sender's own private key")
				rejected(c, msg, x.pub, x.priv, "a message with another key pair")
				k1, k2 := *a.pub, *b.priv
				k1[c.Intn(31)] ^= byte(1 << uint(c.Intn(8)))
				rejected(c, msg, &k1, b.priv, "a message with a damaged sender key")
				k2[1+c.Intn(30)] ^= byte(1 << uint(c.Intn(8)))
				rejected(c, msg, a.pub, &k2, "a message with a damaged recipient key")
				rejected(c, msg, &[32]byte{}, b.priv, "a message with a zero sender key")
				c.Count("wrong-keys", 8)
				c.Count("opened", 3)
				c.DistinctB(msg)
				c.Sample("%v: %d bytes", p, len(msg))
			}},
			{Name: "altered", N: n(250, 2500), Run: func(c *Case) {
				a, b := genKeys(c.RNG), genKeys(c.RNG)
				v, p := mk(c, gen(c.RNG, GenOpt{Depth: 2, Budget: 6, MaxStr: 24, NoHuge: true}), BuildOpt{})
				msg, err := value.Seal(v, b.pub, a.priv)
				c.Check(err == nil, "Seal: %v", err)
				freshNonce(c, msg)
				orig := append([]byte{}, msg...)
				limit := 400
				for i := 0; i < len(msg) && i < limit; i++ {
					if i < 48 && c.Index < 20 { // every bit of nonce, tag and first bytes
						for bit := uint(0); bit < 8; bit++ {
							msg[i] ^= 1 << bit
							rejected(c, msg, a.pub, b.priv, "a message with bit %d of byte %d flipped (%v)", bit, i, p)
							msg[i] ^= 1 << bit
						}
					} else {
						d := byte(1 + c.Intn(255))
						msg[i] ^= d
						rejected(c, msg, a.pub, b.priv, "a message with byte %d altered (%v)", i, p)
						msg[i] ^= d
					}
					c.Count("flipped", 1)
				}
				c.sameBytes(msg, orig, "Unseal changed its input")
				for k := 0; k < len(msg) && k < limit; k++ {
					rejected(c, msg[:k:k], a.pub, b.priv, "the first %d of %d bytes", k, len(msg))
					c.Count("truncated", 1)
				}
				for k := 1; k < 40 && k < len(msg); k++ {
					rejected(c, msg[k:], a.pub, b.priv, "a message without its first %d bytes", k)
					rejected(c, msg[:len(msg)-k], a.pub, b.priv, "a message without its last %d bytes", k)
				}
				for k := 1; k <= 24; k++ {
					rejected(c, append(append([]byte{}, msg...), c.Bytes(k)...), a.pub, b.priv, "a message with %d bytes appended", k)
					rejected(c, append(append([]byte{}, msg...), make([]byte, k)...), a.pub, b.priv, "a message with %d zero bytes appended", k)
					rejected(c, append(c.Bytes(k), msg...), a.pub, b.priv, "a message with %d bytes in front", k)
					c.Count("extended", 3)
				}
				// two messages spliced
				w, _ := mk(c, gen(c.RNG, GenOpt{Depth: 2, Budget: 6, MaxStr: 24, NoHuge: true}), BuildOpt{})
				msg2, _ := value.Seal(w, b.pub, a.priv)
				rejected(c, append(append([]byte{}, msg[:24]...), msg2[24:]...), a.pub, b.priv, "the nonce of one message before another")
				if len(msg) > 40 && len(msg2) > 40 {
					// one-byte texts are the same once in 256: that splice is the message itself
					if mix := append(append([]byte{}, msg[:40]...), msg2[40:]...); !bytes.Equal(mix, msg) && !bytes.Equal(mix, msg2) {
						rejected(c, mix, a.pub, b.priv, "the tag of one message before another")
					}
				}
				c.DistinctB(msg)
			}},
			{Name: "forged", N: n(3000, 40000), Run: func(c *Case) {
				a, b := genKeys(c.RNG), genKeys(c.RNG)
				rejected(c, c.Bytes(c.Intn(120)), a.pub, b.priv, "random bytes")
				rejected(c, make([]byte, c.Intn(120)), a.pub, b.priv, "zero bytes")
				if c.Index == 0 {
					rejected(c, nil, a.pub, b.priv, "nil")
				}
				rejected(c, refEncode(gen(c.RNG, GenOpt{Depth: 2, Budget: 8})), a.pub, b.priv, "an unsealed value")
				// authentic boxes that hold no value
				var n2 [24]byte
				copy(n2[:], c.Bytes(24))
				whole := refEncode(genColl(c.RNG, GenOpt{Depth: 2, Budget: 8, NoHuge: true}))
				if len(whole) > 1 {
					cut := whole[:1+c.Intn(len(whole)-1)]
					rejected(c, box.Seal(append([]byte{}, n2[:]...), cut, &n2, b.pub, a.priv), a.pub, b.priv, "a sealed truncated value %s", hexShort(cut))
				}
				rejected(c, box.Seal(append([]byte{}, n2[:]...), nil, &n2, b.pub, a.priv), a.pub, b.priv, "a sealed empty message")
				c.Count("forged", 5)
				c.Distinct(c.U64())
			}},
		},
	})
}
