package main

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"io"
	"strings"

	"github.com/codeallergy/value"
)

// Readers, writers, updaters and values of the user's own may use the package
// themselves, in the middle of a call of it.

type nester struct {
	c    *Case
	run  []func()
	in   bool
	hits int
}

type nestStruct struct {
	A value.Value   `tag:"1"`
	B *nestStruct   `tag:"2"`
	C []value.Value `tag:"3"`
}

func newNester(c *Case) *nester {
	n := &nester{c: c}
	for k := 0; k < 3; k++ {
		m := gen(c.RNG, GenOpt{Depth: 3, Budget: 12, NoHoles: true, NoNaN: true, NoWide: true}).wire()
		if emptySparse(m) {
			m = mList(mLong(int64(c.Intn(1000))), mStr("nested"))
		}
		v, m := mk(c, m, BuildOpt{})
		b := refEncode(m)
		js := value.Jsonify(v)
		sum := crypto.SHA256.New()
		sum.Write(b)
		digest := sum.Sum(nil)
		n.run = append(n.run,
			func() { c.sameBytes(mustPack(c, v), b, "Pack inside of another call") },
			func() {
				u, err := value.Unpack(b, c.Bool())
				c.Check(err == nil, "Unpack inside of another call: %v", err)
				c.same(project(u), m, "Unpack inside of another call")
			},
			func() {
				u, err := value.Read(bytes.NewReader(b))
				c.Check(err == nil, "Read inside of another call: %v", err)
				c.same(project(u), m, "Read inside of another call")
			},
			func() {
				var w bytes.Buffer
				c.Check(value.Write(&w, v) == nil, "Write inside of another call")
				c.sameBytes(w.Bytes(), b, "Write inside of another call")
			},
			func() {
				c.Check(value.Jsonify(v) == js, "Jsonify inside of another call gives %s, before %s", quoteShort(value.Jsonify(v)), quoteShort(js))
			},
			func() {
				_, h, err := value.Hash(v, crypto.SHA256)
				c.Check(err == nil && bytes.Equal(h, digest), "Hash inside of another call: %x %v", h, err)
			},
			func() {
				u, err := value.Unpack(b, true)
				c.Check(err == nil && value.Equal(u, v) && value.Equal(v, u), "Equal inside of another call (%v)", err)
			},
			func() {
				s := &nestStruct{A: v, B: &nestStruct{A: value.Long(3)}, C: []value.Value{v}}
				sb, err := value.PackStruct(s)
				c.Check(err == nil, "PackStruct inside of another call: %v", err)
				var t nestStruct
				err = value.UnpackStruct(sb, &t, true)
				c.Check(err == nil, "UnpackStruct inside of another call: %v", err)
				c.same(project(t.A), m, "a field of a struct inside of another call")
				c.same(project(t.C[0]), m, "a field of a struct inside of another call")
			},
		)
	}
	return n
}

func (n *nester) poke() {
	if n.in {
		return
	}
	n.in = true
	note := n.c.note
	for k := 1 + n.c.Intn(3); k > 0; k-- {
		n.run[n.c.Intn(len(n.run))]()
		n.hits++
	}
	n.c.note = note
	n.in = false
}

type nestWriter struct {
	n *nester
	b []byte
}

func (w *nestWriter) Write(p []byte) (int, error) {
	keep := string(p)
	w.n.poke()
	w.n.c.Check(string(p) == keep, "the bytes offered to a writer change while it uses the package: %x, before %x", p, keep)
	w.b = append(w.b, p...)
	return len(p), nil
}

type nestReader struct {
	n *nester
	r io.Reader
}

func (r *nestReader) Read(p []byte) (int, error) {
	r.n.poke()
	k, err := r.r.Read(p)
	keep := string(p[:k])
	r.n.poke()
	r.n.c.Check(string(p[:k]) == keep, "the bytes given by a reader change while it uses the package: %x, before %x", p[:k], keep)
	return k, err
}

// nestValue uses the package whenever it is asked for something.
type nestValue struct {
	value.List
	n *nester
}

func (v *nestValue) Pack(p value.Packer) {
	v.n.poke()
	v.List.Pack(p)
	v.n.poke()
}
func (v *nestValue) PrintJSON(w *strings.Builder) {
	v.n.poke()
	v.List.PrintJSON(w)
	v.n.poke()
}
func (v *nestValue) Equal(o value.Value) bool {
	v.n.poke()
	defer v.n.poke()
	return v.List.Equal(o)
}

type panicValue struct {
	value.List
}

func (v *panicValue) Pack(p value.Packer)            { p.PackLong(1); panic("own") }
func (v *panicValue) PrintJSON(w *strings.Builder)   { w.WriteByte('['); panic("own") }
func (v *panicValue) Equal(o value.Value) bool       { panic("own") }
func (v *panicValue) Write(p []byte) (int, error)    { panic("own") }
func (v *panicValue) Read(p []byte) (int, error)     { panic("own") }
func (v *panicValue) Update(value.Value) value.Value { panic("own") }

func init() {
	// a call that ends in a panic of the user's own code leaves nothing behind
	addSection("C24", Section{Name: "after-panics", N: n(1500, 60000), Run: func(c *Case) {
		ne := newNester(c)
		pv := &panicValue{value.Tuple(value.True)}
		m := gen(c.RNG, GenOpt{Depth: 3, Budget: 12, NoHoles: true, NoNaN: true, NoWide: true}).wire()
		v, _ := mk(c, m, BuildOpt{})
		b := refEncode(m)
		type S struct {
			A value.Value   `tag:"1"`
			L []value.Value `tag:"2"`
		}
		around := []value.Value{
			pv,
			value.ImmutableList([]value.Value{v, pv}),
			value.SortedMapOf(map[string]value.Value{"a": v, "b": pv}),
			value.SparseList([]value.ListItem{value.ImmutableItem(3, v), value.ImmutableItem(9, pv)}, true),
		}[c.Intn(4)]
		calls := []func(){
			func() { value.Pack(around) },
			func() { value.Write(&bytes.Buffer{}, around) },
			func() { value.Write(pv, v) },
			func() { value.Read(pv) },
			func() { value.ReadStream(pv, make(chan value.Value, 9)) },
			func() {
				ch := make(chan value.Value, 2)
				ch <- v
				ch <- around
				close(ch)
				value.WriteStream(&bytes.Buffer{}, ch)
			},
			func() { value.Jsonify(around) },
			func() { value.Hex(around) },
			func() { value.Hash(around, crypto.SHA256) },
			func() { value.Equal(around, value.Tuple(v, value.True)) },
			func() { value.PackStruct(&S{A: v, L: []value.Value{around}}) },
			func() { value.MutableList([]value.Value{v}).UpdateAt(0, pv) },
			func() { value.SortedMapOf(map[string]value.Value{"a": v}).Update("a", pv) },
			func() { value.SparseList([]value.ListItem{value.MutableItem(5, v)}, true).UpdateAt(5, pv) },
			func() { value.Read(io.MultiReader(bytes.NewReader(b[:len(b)/2]), pv)) },
			func() { around.MarshalBinary() },
			func() { around.MarshalJSON() },
		}
		for k := 0; k < 1+c.Intn(4); k++ {
			if r := try(calls[c.Intn(len(calls))]); r != nil {
				if s, own := r.(string); own && s == "own" {
					c.Count("after-panics:own", 1)
				}
			}
			for j := 0; j < 3; j++ {
				ne.run[c.Intn(len(ne.run))]()
			}
		}
		encodings(c, v, m)
		decodings(c, b)
		c.DistinctB(b)
	}})
	addSection("C24", Section{Name: "nested-calls", N: n(4000, 150000), Run: func(c *Case) {
		ne := newNester(c)
		m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 5 + c.Intn(40), NoHoles: true, NoWide: true}).wire()
		if emptySparse(m) || m.hasNaN() {
			return
		}
		v, m := mk(c, m, BuildOpt{})
		b := refEncode(m)
		c.Note("%v", m)
		switch c.Intn(5) {
		case 0: // a writer
			w := &nestWriter{n: ne}
			c.Check(value.Write(w, v) == nil, "Write to a writer that uses the package")
			c.sameBytes(w.b, b, "Write to a writer that uses the package")
			ch := make(chan value.Value, 3)
			ch <- v
			ch <- value.True
			ch <- v
			close(ch)
			w.b = nil
			c.Check(value.WriteStream(w, ch) == nil, "WriteStream to a writer that uses the package")
			c.sameBytes(w.b, append(append(append([]byte{}, b...), 0xc3), b...), "WriteStream to a writer that uses the package")
			c.Count("nested:writer", 1)
		case 1: // a reader
			rd, how := wrapReader(c.RNG, &bareReader{b: append(append([]byte{}, b...), b...)})
			r := &nestReader{ne, rd}
			for k := 0; k < 2; k++ {
				u, err := value.Read(r)
				c.Check(err == nil, "Read from a reader that uses the package (%s): %v", how, err)
				c.same(project(u), m, "Read from a reader that uses the package (%s)", how)
			}
			out := make(chan value.Value, 9)
			err := value.ReadStream(&nestReader{ne, bytes.NewReader(append(append([]byte{}, b...), b...))}, out)
			c.Check(err == io.EOF && len(out) == 2, "ReadStream from a reader that uses the package: %d values, %v", len(out), err)
			c.same(project(<-out), m, "ReadStream from a reader that uses the package")
			c.same(project(<-out), m, "ReadStream from a reader that uses the package")
			c.Count("nested:reader", 1)
		case 2: // an updater
			upd := updaterFunc(func(old value.Value) value.Value {
				ne.poke()
				c.same(project(old), m, "the updater sees")
				return value.Tuple(old)
			})
			l := value.MutableList([]value.Value{value.True, v, value.False})
			c.Check(l.UpdateAt(1, upd), "UpdateAt with an updater that uses the package")
			s := value.SparseList([]value.ListItem{value.MutableItem(4, v)}, true)
			c.Check(s.UpdateAt(4, upd), "UpdateAt with an updater that uses the package")
			mp := value.SortedMapOf(map[string]value.Value{"k": v, "l": value.True})
			c.Check(mp.Update("k", upd), "Update with an updater that uses the package")
			for _, u := range []value.Value{l.GetAt(1), s.GetAt(4), mp.Get("k")} {
				c.same(project(u), mList(m), "the value put in by an updater that uses the package")
			}
			c.Count("nested:updater", 1)
		default: // a value
			own := &nestValue{value.Tuple(v, value.Long(1)), ne}
			mo := mList(m, mLong(1))
			var all value.Value
			var ma *MV
			switch c.Intn(4) {
			case 0:
				all, ma = value.ImmutableList([]value.Value{own, v, own}), mList(mo, m, mo)
			case 1:
				all, ma = value.SortedMapOf(map[string]value.Value{"a": v, "b": own}), &MV{K: KMap, E: []MEnt{{"a", m}, {"b", mo}}}
			case 2:
				all, ma = value.SparseList([]value.ListItem{value.ImmutableItem(3, own), value.ImmutableItem(9, v)}, true), &MV{K: KSparse, P: []MItem{{3, mo}, {9, m}}}
			default:
				all, ma = own, mo
			}
			encodings(c, all, ma)
			if err := jsonCheck(value.Jsonify(all), ma); err != nil {
				c.Failf("JSON around a value that uses the package: %v", err)
			}
			u, err := value.Unpack(refEncode(ma), true)
			c.Check(err == nil, "Unpack: %v", err)
			checkEqual(c, all, ma, u, ma)
			type S struct {
				A value.Value   `tag:"1"`
				L []value.Value `tag:"2"`
			}
			sb, err := value.PackStruct(&S{A: all, L: []value.Value{own}})
			c.Check(err == nil, "PackStruct around a value that uses the package: %v", err)
			c.sameBytes(sb, refEncode(&MV{K: KSparse, P: []MItem{{1, ma}, {2, mList(mo)}}}), "PackStruct around a value that uses the package")
			c.Count("nested:value", 1)
		}
		c.Count("nested-calls", int64(ne.hits))
		c.DistinctB(b)
	}})
	p := props["C24"]
	p.Needs = append(p.Needs, "nested-calls", "after-panics:own", "nested:writer", "nested:reader", "nested:updater", "nested:value")
}
