package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ------------------------------------------------------------------ C10

// frozen is a value whose every observable face was recorded when it was
// obtained, and must never change again.
type frozen struct {
	v      value.Value
	m      *MV
	packed []byte
	json   string
	text   string
	twin   value.Value // independent equal value
	eq     [2]string   // Equal in both directions, as first observed
	from   string
}

func eqObs(a, b value.Value) string {
	res := ""
	if p := try(func() { res = fmt.Sprint(value.Equal(a, b)) }); p != nil {
		return "panic"
	}
	return res
}

func freeze(c *Case, v value.Value, from string) *frozen {
	f := &frozen{v: v, m: project(v), from: from}
	b, err := value.Pack(v)
	c.Check(err == nil, "Pack of %s: %v", from, err)
	f.packed = append([]byte{}, b...)
	f.json = value.Jsonify(v)
	f.text = v.String()
	f.twin = build(f.m, c.RNG, BuildOpt{Plain: true})
	f.eq = [2]string{eqObs(v, f.twin), eqObs(f.twin, v)}
	return f
}

func (f *frozen) verify(c *Case, after string) {
	c.same(project(f.v), f.m, "%s changed after %s", f.from, after)
	b, err := value.Pack(f.v)
	c.Check(err == nil, "Pack of %s fails after %s: %v", f.from, after, err)
	c.sameBytes(b, f.packed, "packed bytes of %s after %s", f.from, after)
	c.Check(value.Jsonify(f.v) == f.json, "JSON of %s changed after %s: %s, was %s", f.from, after, quoteShort(value.Jsonify(f.v)), quoteShort(f.json))
	c.Check(f.v.String() == f.text, "text of %s changed after %s", f.from, after)
	e := [2]string{eqObs(f.v, f.twin), eqObs(f.twin, f.v)}
	c.Check(e == f.eq, "equality of %s with an equal value was %v, is %v after %s", f.from, f.eq, e, after)
}

// updFunc is an Updater that logs the old values it is given.
type updFunc struct {
	old []value.Value
	ret value.Value
}

func (u *updFunc) Update(old value.Value) value.Value { u.old = append(u.old, old); return u.ret }

func immList(v value.Value) bool {
	return v.Kind() == value.LIST && v.Class() == value.EmptyImmutableList().Class()
}
func immMap(v value.Value) bool {
	return v.Kind() == value.MAP && v.Class() == value.EmptyImmutableMap().Class()
}

type immPool struct {
	c    *Case
	all  []*frozen
	muts []value.Value // mutable collections holding immutable values
	ops  int
}

func (p *immPool) add(v value.Value, from string) {
	if v == nil {
		return
	}
	if k := v.Kind(); (k == value.LIST && !immList(v)) || (k == value.MAP && !immMap(v)) {
		return
	}
	if !deepImm(v, 0) {
		return
	}
	if len(from) > 160 {
		from = from[:160] + "…"
	}
	f := freeze(p.c, v, from)
	if len(p.all) < 60 {
		p.all = append(p.all, f)
	} else {
		p.all[p.c.Intn(60)] = f
	}
}

// deepImm: only immutable collections inside.
func deepImm(v value.Value, depth int) bool {
	if v == nil {
		return true
	}
	switch v.Kind() {
	case value.LIST:
		if !immList(v) {
			return false
		}
		for _, e := range v.(value.List).Values() {
			if !deepImm(e, depth+1) {
				return false
			}
		}
	case value.MAP:
		if !immMap(v) {
			return false
		}
		for _, e := range v.(value.Map).Entries() {
			if !deepImm(e.Value(), depth+1) {
				return false
			}
		}
	}
	return true
}

func (p *immPool) arg() value.Value {
	c := p.c
	if c.P(1, 10) {
		return nil
	}
	if c.P(1, 3) && len(p.all) > 0 {
		return p.all[c.Intn(len(p.all))].v
	}
	v, _ := mk(c, genScalar(c.RNG, &GenOpt{MaxStr: 20, NoHuge: true}), BuildOpt{Immutable: true})
	return v
}

func (p *immPool) args() []value.Value {
	n := p.c.Range(0, 5)
	l := make([]value.Value, n, n+p.c.Intn(4))
	for i := range l {
		l[i] = p.arg()
	}
	return l
}

func (p *immPool) key(m value.Map) string {
	if ents := m.Entries(); len(ents) > 0 && p.c.P(2, 3) {
		return ents[p.c.Intn(len(ents))].Key()
	}
	return genKey(p.c.RNG)
}

// step applies one operation; what it returns joins the pool.
func (p *immPool) step() string {
	c := p.c
	if len(p.muts) > 0 && c.P(1, 3) {
		return p.mutStep()
	}
	f := p.all[c.Intn(len(p.all))]
	name := ""
	switch {
	case immList(f.v):
		l := f.v.(value.List)
		i := c.Range(-1, l.Len()+2)
		if c.P(1, 3) && l.Len() > 0 { // the ends have their own code paths
			i = []int{0, l.Len() - 1, l.Len()}[c.Intn(3)]
		}
		switch k := c.Intn(19); k {
		case 0:
			name = "Append"
			p.add(l.Append(p.arg()), name)
		case 1, 2:
			name = fmt.Sprintf("PutAt(%d of %d)", i, l.Len())
			p.add(l.PutAt(i, p.arg()), name)
		case 3, 4:
			name = fmt.Sprintf("InsertAt(%d of %d)", i, l.Len())
			p.add(l.InsertAt(i, p.arg()), name)
		case 5, 6:
			name = fmt.Sprintf("RemoveAt(%d of %d)", i, l.Len())
			p.add(l.RemoveAt(i), name)
		case 7:
			name = fmt.Sprintf("DeleteAll(%d of %d)", i, l.Len())
			p.add(l.DeleteAll(i), name)
		case 8, 9:
			a := p.args()
			name = fmt.Sprintf("InsertAll(%d of %d, %d values)", i, l.Len(), len(a))
			p.add(l.InsertAll(i, a), name)
			// the slice belongs to the caller
			for k := range a {
				a[k] = value.Str("overwritten")
			}
			a = a[:cap(a)]
			for k := range a {
				a[k] = value.Str("overwritten")
			}
			name += " and overwriting the argument slice"
		case 10:
			name = "UpdateAt"
			u := &updFunc{ret: value.Str("updated")}
			c.Check(!l.UpdateAt(i, u), "UpdateAt on an immutable list reports an update")
		case 11:
			name = "Items()[].Update"
			if it := l.Items(); len(it) > 0 {
				it[c.Intn(len(it))].Update(&updFunc{ret: value.Str("updated")})
			}
		case 12:
			name = "Entries()[].Update"
			if it := l.Entries(); len(it) > 0 {
				it[c.Intn(len(it))].Update(&updFunc{ret: value.Str("updated")})
			}
		case 13:
			name = fmt.Sprintf("Select(%d)", i)
			s := l.Select(i)
			for k := range s {
				s[k] = value.Str("overwritten")
			}
		case 14:
			name = "GetMapAt"
			try(func() {
				m := l.GetMapAt(i)
				p.add(m, "GetMapAt")
				if deepImm(m, 0) {
					for _, e := range m.Entries() {
						e.Update(&updFunc{ret: value.Str("updated")})
					}
				}
			})
		case 15:
			name = "GetListAt"
			try(func() { p.add(l.GetListAt(i), "GetListAt") })
		case 16:
			name = "a mutable list of the same elements"
			p.muts = append(p.muts, value.MutableList(value.CopyOf(l.Values())))
		case 17:
			name = "a mutable list holding the list"
			p.muts = append(p.muts, value.Tuple(l, value.Long(1), l))
		case 18:
			name = "sparse list of the elements"
			p.muts = append(p.muts, value.SparseListOf(l.Values()))
		}
	case immMap(f.v):
		m := f.v.(value.Map)
		key := p.key(m)
		switch c.Intn(19) {
		case 0, 1:
			name = fmt.Sprintf("Put(%q)", key)
			p.add(m.Put(key, p.arg()), name)
		case 2, 3:
			name = fmt.Sprintf("Insert(%q)", key)
			p.add(m.Insert(key, p.arg()), name)
		case 4, 5, 6:
			if ents := m.Entries(); len(ents) > 0 && c.Bool() {
				key = ents[[]int{0, len(ents) - 1}[c.Intn(2)]].Key()
			}
			name = fmt.Sprintf("Remove(%q)", key)
			p.add(m.Remove(key), name)
		case 7:
			name = fmt.Sprintf("DeleteAll(%q)", key)
			p.add(m.DeleteAll(key), name)
		case 8, 9:
			a := p.args()
			name = fmt.Sprintf("InsertAll(%q, %d values)", key, len(a))
			p.add(m.InsertAll(key, a), name)
			for k := range a {
				a[k] = value.Str("overwritten")
			}
		case 10:
			name = "Update"
			c.Check(!m.Update(key, &updFunc{ret: value.Str("updated")}), "Update on an immutable map reports an update")
		case 11:
			name = "Entries()[].Update"
			if e := m.Entries(); len(e) > 0 {
				c.Check(!e[c.Intn(len(e))].Update(&updFunc{ret: value.Str("updated")}), "an entry of an immutable map (from %s) reports an update", f.from)
			}
		case 12:
			name = "HashMap and overwriting it"
			h := m.HashMap()
			for k := range h {
				h[k] = value.Str("overwritten")
			}
			h["added"] = value.True
		case 13:
			name = "Select"
			s := m.Select(key)
			for k := range s {
				s[k] = value.Str("overwritten")
			}
		case 14, 15:
			name = "SortedMapCopyOf"
			p.muts = append(p.muts, value.SortedMapCopyOf(m))
		case 16:
			name = "ImmutableMapCopyOf"
			p.add(value.ImmutableMapCopyOf(m), name)
		case 17:
			name = "GetList"
			try(func() { p.add(m.GetList(key), "GetList") })
		case 18:
			name = "GetMap"
			try(func() {
				r := m.GetMap(key)
				p.add(r, "GetMap")
				if deepImm(r, 0) {
					for _, e := range r.Entries() {
						e.Update(&updFunc{ret: value.Str("updated")})
					}
				}
			})
		}
	case f.v.Kind() == value.NUMBER:
		n := f.v.(value.Number)
		name = p.numStep(n)
	default:
		name = "reading"
		switch c.Intn(3) {
		case 0:
			b, _ := value.Pack(f.v)
			for i := range b {
				b[i] ^= 0x5a
			}
			name = "overwriting packed bytes"
		case 1:
			b, _ := f.v.MarshalBinary()
			for i := range b {
				b[i] ^= 0x5a
			}
			name = "overwriting MarshalBinary bytes"
		case 2:
			b, _ := f.v.MarshalJSON()
			for i := range b {
				b[i] ^= 0x5a
			}
			name = "overwriting MarshalJSON bytes"
		}
	}
	f.verify(c, name)
	c.Count("ops:immutable", 1)
	return name
}

// numStep uses the accessors of a number and modifies what they return.
func (p *immPool) numStep(n value.Number) string {
	c := p.c
	var o value.Number = value.Long(genLong(c.RNG))
	if nums := p.numbers(); len(nums) > 0 && c.Bool() {
		o = nums[c.Intn(len(nums))]
	}
	scribble := func(z *big.Int) {
		if z == nil {
			return
		}
		switch c.Intn(3) {
		case 0:
			z.Add(z, big.NewInt(1000))
		case 1:
			z.SetInt64(-7)
		case 2:
			for i, w := 0, z.Bits(); i < len(w); i++ {
				w[i] ^= 0x55
			}
		}
	}
	switch c.Intn(7) {
	case 0:
		scribble(n.BigInt())
		return "modifying the result of BigInt()"
	case 1:
		if z, ok := n.Object().(*big.Int); ok {
			scribble(z)
		}
		return "modifying the result of Object()"
	case 2:
		if d, ok := n.Object().(decimal.Decimal); ok {
			scribble(d.Coefficient())
		}
		return "modifying the coefficient of Object()"
	case 3:
		scribble(n.Decimal().Coefficient())
		return "modifying the coefficient of Decimal()"
	case 4:
		r := n.Add(o)
		p.add(r, fmt.Sprintf("Add(%v)", o))
		scribble(r.BigInt())
		return "Add"
	case 5:
		r := n.Subtract(o)
		p.add(r, fmt.Sprintf("Subtract(%v)", o))
		scribble(r.BigInt())
		return "Subtract"
	default:
		// a number made from this number's own value
		p.add(value.Decimal(n.Decimal()), "Decimal(n.Decimal())")
		p.add(value.BigInt(n.BigInt()), "BigInt(n.BigInt())")
		return "rebuilding"
	}
}

func (p *immPool) numbers() (l []value.Number) {
	for _, f := range p.all {
		if f.v.Kind() == value.NUMBER {
			l = append(l, f.v.(value.Number))
		}
	}
	return
}

// mutStep works on a mutable collection that holds or was copied from
// immutable values.
func (p *immPool) mutStep() string {
	c := p.c
	i := c.Intn(len(p.muts))
	u := &updFunc{ret: p.arg()}
	name := ""
	try(func() {
		switch x := p.muts[i].(type) {
		case value.List:
			k := c.Range(0, x.Len())
			if x.Len() > 200 {
				k = c.Intn(200)
			}
			switch c.Intn(9) {
			case 0, 1, 2:
				name = "mutable UpdateAt"
				x.UpdateAt(k, u)
			case 3:
				name = "mutable PutAt"
				p.muts[i] = x.PutAt(k, p.arg())
			case 4:
				name = "mutable RemoveAt"
				p.muts[i] = x.RemoveAt(k)
			case 5:
				name = "mutable InsertAt"
				p.muts[i] = x.InsertAt(k, p.arg())
			case 6:
				name = "mutable Append"
				p.muts[i] = x.Append(p.arg())
			case 7:
				name = "mutable Items()[].Update"
				if it := x.Items(); len(it) > 0 {
					it[c.Intn(len(it))].Update(u)
				}
			case 8:
				name = "mutable InsertAll"
				p.muts[i] = x.InsertAll(k, p.args())
			}
		case value.Map:
			key := p.key(x)
			switch c.Intn(10) {
			case 0, 1:
				name = "mutable map Update"
				x.Update(key, u)
			case 2, 3:
				name = "mutable map Entries()[].Update"
				if e := x.Entries(); len(e) > 0 {
					e[c.Intn(len(e))].Update(u)
				}
			case 4:
				name = "mutable map Put"
				p.muts[i] = x.Put(key, p.arg())
			case 5:
				name = "mutable map Remove"
				p.muts[i] = x.Remove(key)
			case 6, 7:
				name = "ImmutableMapCopyOf of a mutable map"
				p.add(value.ImmutableMapCopyOf(x), name)
			case 8:
				name = "mutable map Insert"
				p.muts[i] = x.Insert(key, p.arg())
			case 9:
				name = "a mutable list holding the mutable map, read as a list"
				p.add(value.Tuple(x).GetListAt(0), name)
				p.add(value.ImmutableList([]value.Value{x}).GetListAt(0), name)
			}
		}
	})
	c.Count("ops:mutable", 1)
	return name
}

func (p *immPool) verifyAll(after string) {
	for _, f := range p.all {
		f.verify(p.c, after)
	}
	p.c.Count("fingerprints", int64(len(p.all)))
}

func runImm(c *Case, steps int) {
	p := &immPool{c: c}
	opt := GenOpt{Depth: 3, Budget: 20, NoSparse: true, MaxStr: 30, NoHuge: true}
	for i := 0; i < 3; i++ {
		m := genColl(c.RNG, opt)
		v, _ := mk(c, m, BuildOpt{Immutable: true})
		if c.P(1, 3) {
			if u, err := value.Unpack(mustPack(c, v), c.Bool()); err == nil {
				p.add(u, "a decoded value")
			}
		}
		p.add(v, "a built value")
	}
	// some wider collections reach the middle-of-slice code paths
	{
		n := c.Range(3, 9)
		vals := make([]value.Value, n)
		hash := map[string]value.Value{}
		for i := range vals {
			vals[i] = value.Long(int64(i))
			hash[fmt.Sprintf("k%d", i)] = value.Long(int64(i))
		}
		p.add(value.ImmutableList(vals), "a plain list")
		p.add(value.ImmutableMapOf(hash), "a plain map")
	}
	for i := 0; i < 4; i++ {
		v, _ := mk(c, genScalar(c.RNG, &GenOpt{MaxStr: 20, NoHuge: true}), BuildOpt{})
		p.add(v, "a scalar")
	}
	for i := 0; i < 2; i++ {
		p.add(value.BigInt(genBig(c.RNG, true)), "a big integer")
		p.add(value.Decimal(decimal.NewFromBigInt(genBig(c.RNG, true), int32(c.Range(-9, 9)))), "a decimal")
	}
	if c.P(1, 12) {
		// of thousands of bits, where shortcuts would pay
		z := new(big.Int).SetBytes(c.RNG.Bytes(300 + c.Intn(1000)))
		p.add(value.BigInt(z), "a huge integer")
		p.add(value.BigInt(new(big.Int).Neg(z)).Add(value.Long(1)), "a huge negative integer")
		p.add(value.Decimal(decimal.NewFromBigInt(z, int32(c.Range(-9, 9)))), "a huge decimal")
	}
	var log []string
	for i := 0; i < steps; i++ {
		log = append(log, p.step())
		if i%8 == 7 {
			p.verifyAll("…" + logTail(log))
		}
	}
	p.verifyAll("…" + logTail(log))
	names := map[string]bool{}
	for _, s := range log {
		names[s] = true
	}
	keys := make([]string, 0, len(names))
	for k := range names {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	c.Distinct(fnv64(fmt.Sprint(keys)))
	c.Sample("%d values followed through: %s", len(p.all), logTail(log))
}

func init() {
	register(&Prop{
		ID:    "C10",
		Rule:  "One case is a pool of immutable values (built, decoded, derived) followed through a branching history of operations on them, on values derived from them and on mutable copies; content, packed bytes, JSON, text and equality of every pool member are recorded when obtained and compared after every few steps. Distinct by the set of operations applied.",
		Needs: []string{"ops:immutable", "ops:mutable", "fingerprints", "ops:big", "derived"},
		Sections: []Section{
			{Name: "branching", N: n(2500, 40000), Run: func(c *Case) { runImm(c, 40) }},
			{Name: "long-histories", N: n(60, 1000), Run: func(c *Case) { runImm(c, 600) }},
			{Name: "fast-appends-off", N: n(200, 4000), NoFast: true, Run: func(c *Case) { runImm(c, 60) }},
			{Name: "every-pair", N: n(2, 2), Run: everyPair},
			{Name: "big", N: n(372, 8000), Run: immBig},
			{Name: "from-mutable", N: n(600, 12000), Run: immFromMutable},
		},
	})
}

// everyPair: for every small immutable list and map and every pair of
// operations on it, the first result and the receiver survive the second.
func everyPair(c *Case) {
	slack := 3 // room that the constructors get
	if c.Index%2 == 1 {
		slack = 100
	}
	for size := 0; size <= 5; size++ {
		mkList := func() value.List {
			l := make([]value.Value, size, size+slack)
			for i := range l {
				l[i] = value.Long(int64(i * 10))
			}
			return value.ImmutableList(l)
		}
		mkMap := func(dup bool) value.Map {
			e := make([]value.MapEntry, 0, size+slack)
			for i := 0; i < size; i++ {
				k := string(rune('a' + 2*i))
				if dup {
					k = string(rune('a' + 2*(i/2)))
				}
				e = append(e, value.ImmutableEntry(k, value.Long(int64(i))))
			}
			return value.ImmutableMap(e, true)
		}
		lops := []func(l value.List, i int) value.List{
			func(l value.List, i int) value.List { return l.Append(value.Str("x")) },
			func(l value.List, i int) value.List { return l.PutAt(i, value.Str("p")) },
			func(l value.List, i int) value.List { return l.InsertAt(i, value.Str("i")) },
			func(l value.List, i int) value.List { return l.RemoveAt(i) },
			func(l value.List, i int) value.List { return l.DeleteAll(i) },
			func(l value.List, i int) value.List {
				return l.InsertAll(i, append(make([]value.Value, 0, 8), value.Str("1"), nil))
			},
		}
		type lf struct {
			op, i int
		}
		var all []lf
		for o := range lops {
			for i := 0; i <= size+1; i++ {
				all = append(all, lf{o, i})
			}
		}
		for _, a := range all {
			for _, b := range all {
				l := mkList()
				f0 := freeze(c, l, "the list")
				r1 := lops[a.op](l, a.i)
				f1 := freeze(c, r1, "the first result")
				r2 := lops[b.op](l, b.i)
				f2 := freeze(c, r2, "the second result")
				r3 := lops[b.op](r1, b.i)
				what := fmt.Sprintf("list of %d: op %d at %d, then op %d at %d", size, a.op, a.i, b.op, b.i)
				f0.verify(c, what)
				f1.verify(c, what)
				_ = r3
				f2.verify(c, what)
				c.Count("fingerprints", 3)
				c.Distinct(fnv64(what))
			}
		}
		mops := []func(m value.Map, k string) value.Map{
			func(m value.Map, k string) value.Map { return m.Put(k, value.Str("p")) },
			func(m value.Map, k string) value.Map { return m.Insert(k, value.Str("i")) },
			func(m value.Map, k string) value.Map { return m.Remove(k) },
			func(m value.Map, k string) value.Map { return m.DeleteAll(k) },
			func(m value.Map, k string) value.Map {
				return m.InsertAll(k, append(make([]value.Value, 0, 8), value.Str("1"), nil))
			},
			func(m value.Map, k string) value.Map {
				s := value.SortedMapCopyOf(m)
				s.Update(k, &updFunc{ret: value.Str("u")})
				s.Insert(k, value.Str("v"))
				s.Remove(k)
				return s
			},
			func(m value.Map, k string) value.Map { return value.ImmutableMapCopyOf(m).Remove(k) },
		}
		for _, dup := range []bool{false, true} {
			var keys []string
			for i := -1; i <= 2*size; i++ {
				keys = append(keys, string(rune('a'+i)))
			}
			for o1 := range mops {
				for _, k1 := range keys {
					for o2 := range mops {
						for _, k2 := range keys {
							m := mkMap(dup)
							f0 := freeze(c, m, "the map")
							r1 := mops[o1](m, k1)
							f1 := freeze(c, r1, "the first result")
							r2 := mops[o2](m, k2)
							f2 := freeze(c, r2, "the second result")
							what := fmt.Sprintf("map of %d (dup %v): op %d %q, then op %d %q", size, dup, o1, k1, o2, k2)
							f0.verify(c, what)
							f1.verify(c, what)
							f2.verify(c, what)
							if immMap(r1) {
								_ = mops[o2](r1, k2)
								f0.verify(c, what)
								f1.verify(c, what)
							}
							c.Count("fingerprints", 3)
							c.Distinct(fnv64(what))
						}
					}
				}
			}
		}
	}
}

// bigFrozen is a cheap fingerprint of a big list or map of scalars.
type bigFrozen struct {
	v      value.Value
	keys   []string
	vals   []value.Value
	packed []byte
	from   string
}

func bigFaces(v value.Value) (keys []string, vals []value.Value) {
	switch x := v.(type) {
	case value.List:
		vals = append(vals, x.Values()...)
	case value.Map:
		for _, e := range x.Entries() {
			keys, vals = append(keys, e.Key()), append(vals, e.Value())
		}
	}
	return
}

func bigFreeze(c *Case, v value.Value, from string) *bigFrozen {
	f := &bigFrozen{v: v, from: from}
	f.keys, f.vals = bigFaces(v)
	f.packed = append([]byte{}, mustPack(c, v)...)
	return f
}

func (f *bigFrozen) verify(c *Case, after string) {
	keys, vals := bigFaces(f.v)
	c.Check(len(keys) == len(f.keys) && len(vals) == len(f.vals), "%s has %d elements after %s, had %d", f.from, len(vals), after, len(f.vals))
	for i := range f.vals {
		c.Check(vals[i] == f.vals[i], "element %d of %d of %s is %v after %s, was %v", i, len(vals), f.from, vals[i], after, f.vals[i])
	}
	for i := range f.keys {
		c.Check(keys[i] == f.keys[i], "key %d of %d of %s is %q after %s, was %q", i, len(keys), f.from, keys[i], after, f.keys[i])
	}
	c.sameBytes(mustPack(c, f.v), f.packed, "packed bytes of %s after %s", f.from, after)
	c.Count("fingerprints", 1)
}

// immBig: branching histories of immutable lists and maps beyond the sizes
// where an implementation may change its ways (shared chunks, spare capacity).
func immBig(c *Case) {
	k := histSizes[(c.Index/2)%len(histSizes)]
	if c.P(1, 3) {
		k = c.Range(6, 120)
	}
	uniq := int64(k)
	arg := func() value.Value {
		uniq++
		if c.P(1, 5) {
			return value.Utf8(fmt.Sprint("v", uniq))
		}
		return value.Long(uniq)
	}
	args := func() []value.Value {
		l := make([]value.Value, []int{0, 1, 2, 5, 16, 17, 64, 100, 257, 1000}[c.Intn(10)])
		for i := range l {
			l[i] = arg()
		}
		return l
	}
	scribble := func(l []value.Value) {
		l = l[:cap(l)]
		for i := range l {
			l[i] = value.Utf8("overwritten")
		}
	}
	var pool []*bigFrozen
	key := func(i int) string { return fmt.Sprintf("k%06d", i) }
	isMap := c.Index%2 == 1
	var v value.Value
	if isMap {
		ents := make([]value.MapEntry, 0, k+c.Intn(4)+c.Intn(2)*c.Intn(200))
		for i := 0; i < k; i++ {
			ents = append(ents, value.ImmutableEntry(key(2*i), value.Long(int64(i))))
		}
		v = value.ImmutableMap(ents, true)
		if c.P(1, 3) {
			m := value.EmptyImmutableMap()
			for _, e := range ents {
				m = m.Insert(e.Key(), e.Value())
			}
			v = m
		}
	} else {
		vals := make([]value.Value, 0, k+c.Intn(4)+c.Intn(2)*c.Intn(200))
		for i := 0; i < k; i++ {
			vals = append(vals, value.Long(int64(i)))
		}
		v = value.ImmutableList(vals)
		if c.P(1, 3) {
			l := value.EmptyImmutableList()
			for _, e := range vals {
				l = l.Append(e)
			}
			v = l
		}
	}
	if c.P(1, 4) {
		u, err := value.Unpack(mustPack(c, v), c.Bool())
		c.Check(err == nil, "%v", err)
		if (isMap && immMap(u)) || (!isMap && immList(u)) {
			v = u
		}
	}
	pool = append(pool, bigFreeze(c, v, fmt.Sprintf("the first of %d", k)))
	var log []string
	for i := 0; i < 14; i++ {
		f := pool[len(pool)-1]
		if c.Bool() { // branch from an older one, often the same twice
			f = pool[c.Intn(len(pool))]
		}
		name := ""
		var r value.Value
		switch x := f.v.(type) {
		case value.List:
			n := x.Len()
			at := c.Range(0, n)
			if c.Bool() {
				at = []int{0, 1, n / 2, n - 2, n - 1, n, n + 1}[c.Intn(7)]
				if at < 0 {
					at = 0
				}
			}
			switch c.Intn(11) {
			case 0, 1, 2:
				name = "Append"
				r = x.Append(arg())
			case 3:
				name = fmt.Sprintf("PutAt(%d)", at)
				r = x.PutAt(at, arg())
			case 4:
				name = fmt.Sprintf("InsertAt(%d)", at)
				r = x.InsertAt(at, arg())
			case 5:
				name = fmt.Sprintf("RemoveAt(%d)", at)
				r = x.RemoveAt(at)
			case 6:
				name = fmt.Sprintf("DeleteAll(%d)", at)
				r = x.DeleteAll(at)
			case 7, 8:
				a := args()
				name = fmt.Sprintf("InsertAll(%d, %d values)", at, len(a))
				r = x.InsertAll(at, a)
				scribble(a)
			case 9:
				m := value.List(value.MutableList(value.CopyOf(x.Values())))
				name = "a mutable copy"
				for j := 0; j < 5; j++ {
					switch q := c.Intn(n + 1); c.Intn(4) {
					case 0:
						m = m.PutAt(q, arg())
					case 1:
						m = m.RemoveAt(q)
					case 2:
						m.UpdateAt(q, &updFunc{ret: arg()})
					case 3:
						m = m.InsertAll(q, args())
					}
				}
			case 10:
				m := value.List(value.SparseListOf(x.Values()))
				name = "a sparse list of the elements"
				for j := 0; j < 5; j++ {
					switch q := c.Intn(n + 1); c.Intn(4) {
					case 0:
						m = m.PutAt(q, arg())
					case 1:
						m = m.RemoveAt(q)
					case 2:
						m.UpdateAt(q, &updFunc{ret: arg()})
					case 3:
						m = m.InsertAt(q, arg())
					}
				}
			}
		case value.Map:
			q := key(c.Range(-1, 2*k+1))
			if n := x.Len(); n > 0 && c.Bool() {
				q = f.keys[[]int{0, n / 2, n - 1, c.Intn(n)}[c.Intn(4)]]
			}
			if c.P(1, 4) { // past the end
				q = key(2*k + c.Intn(100))
			}
			switch c.Intn(9) {
			case 0, 1:
				name = fmt.Sprintf("Put(%q)", q)
				r = x.Put(q, arg())
			case 2, 3:
				name = fmt.Sprintf("Insert(%q)", q)
				r = x.Insert(q, arg())
			case 4:
				name = fmt.Sprintf("Remove(%q)", q)
				r = x.Remove(q)
			case 5:
				name = fmt.Sprintf("DeleteAll(%q)", q)
				r = x.DeleteAll(q)
			case 6:
				a := args()
				name = fmt.Sprintf("InsertAll(%q, %d values)", q, len(a))
				r = x.InsertAll(q, a)
				scribble(a)
			case 7:
				m := value.Map(value.SortedMapCopyOf(x))
				name = "a sorted copy"
				for j := 0; j < 6; j++ {
					q := key(c.Range(-1, 2*k+1))
					switch c.Intn(5) {
					case 0:
						m = m.Put(q, arg())
					case 1:
						m = m.Remove(q)
					case 2:
						m.Update(q, &updFunc{ret: arg()})
					case 3:
						m = m.Insert(q, arg())
					case 4:
						m = m.InsertAll(q, args())
					}
				}
				if c.Bool() {
					name += " copied back"
					r = value.ImmutableMapCopyOf(m)
					g := bigFreeze(c, r, "a copy of a sorted map")
					for j := 0; j < 4; j++ {
						q := key(c.Range(-1, 2*k+1))
						m.Update(q, &updFunc{ret: arg()})
						m = m.Remove(q)
						m = m.Put(q, arg())
					}
					g.verify(c, "changing the map it was copied from")
				}
			case 8:
				name = "ImmutableMapCopyOf"
				r = value.ImmutableMapCopyOf(x)
			}
		}
		name = fmt.Sprintf("%s of %d", name, len(f.vals))
		log = append(log, name)
		c.Note("%s", logTail(log))
		f.verify(c, name)
		c.Count("ops:big", 1)
		if r != nil {
			g := bigFreeze(c, r, "the result of "+name)
			if len(pool) < 12 {
				pool = append(pool, g)
			} else {
				pool[c.Intn(len(pool))] = g
			}
		}
		if i%4 == 3 {
			for _, g := range pool {
				g.verify(c, logTail(log))
			}
		}
	}
	for _, g := range pool {
		g.verify(c, logTail(log))
	}
	c.Distinct(fnv64(fmt.Sprint(log)))
}

// immFromMutable: immutable collections obtained from mutable ones (by the
// converting lookups and the copying constructors) no longer follow them, and
// cannot be changed through their own entries.
func immFromMutable(c *Case) {
	k := c.Range(0, 12)
	if c.P(1, 10) {
		k = c.Range(13, 300)
	}
	leaf := func(i int) value.Value { return value.Long(int64(i)) }
	vals := make([]value.Value, k)
	hash := map[string]value.Value{}
	items := []value.ListItem{}
	key := 0
	for i := range vals {
		vals[i] = leaf(i)
		hash[fmt.Sprintf("k%d", i)] = leaf(i)
		key += c.Range(1, 3)
		items = append(items, value.MutableItem(key, leaf(i)))
	}
	srcs := map[string]func() value.Value{
		"mutable list": func() value.Value { return value.MutableList(value.CopyOf(vals)) },
		"tuple":        func() value.Value { return value.Tuple(value.CopyOf(vals)...) },
		"sparse list":  func() value.Value { return value.SparseList(append([]value.ListItem{}, items...), c.Bool()) },
		"sparse of":    func() value.Value { return value.SparseListOf(value.CopyOf(vals)) },
		"sorted map": func() value.Value {
			h := map[string]value.Value{}
			for a, b := range hash {
				h[a] = b
			}
			return value.SortedMapOf(h)
		},
		"sorted map of inserts": func() value.Value {
			m := value.EmptyMutableMap()
			for i, v := range vals {
				m = m.Insert(fmt.Sprintf("k%d", i/2), v)
			}
			return m
		},
	}
	var names []string
	for a := range srcs {
		names = append(names, a)
	}
	sort.Strings(names)
	name := names[c.Intn(len(names))]
	src := srcs[name]()
	if c.P(1, 4) { // through the wire, the decoder picks the kind
		if u, err := value.Unpack(mustPack(c, src), c.Bool()); err == nil {
			src, name = u, name+" decoded"
		}
	}
	type derived struct {
		f   *bigFrozen
		how string
	}
	var got []derived
	take := func(how string, f func() value.Value) {
		try(func() {
			v := f()
			if v != nil && (immMap(v) || immList(v)) {
				got = append(got, derived{bigFreeze(c, v, how+" of a "+name), how})
			}
		})
	}
	holders := []struct {
		n string
		l value.List
	}{
		{"immutable list", value.ImmutableList([]value.Value{leaf(0), src})},
		{"mutable list", value.MutableList([]value.Value{leaf(0), src})},
		{"sparse list", value.SparseListOf([]value.Value{leaf(0), src})},
	}
	for _, h := range holders {
		h := h
		take("GetMapAt in a "+h.n, func() value.Value { return h.l.GetMapAt(1) })
		take("GetListAt in a "+h.n, func() value.Value { return h.l.GetListAt(1) })
	}
	mh := []struct {
		n string
		m value.Map
	}{
		{"immutable map", value.ImmutableMapOf(map[string]value.Value{"a": leaf(0), "b": src})},
		{"sorted map", value.SortedMapOf(map[string]value.Value{"a": leaf(0), "b": src})},
	}
	for _, h := range mh {
		h := h
		take("GetMap in a "+h.n, func() value.Value { return h.m.GetMap("b") })
		take("GetList in a "+h.n, func() value.Value { return h.m.GetList("b") })
	}
	switch x := src.(type) {
	case value.Map:
		take("ImmutableMapCopyOf", func() value.Value { return value.ImmutableMapCopyOf(x) })
		take("ImmutableMapOf its HashMap", func() value.Value { return value.ImmutableMapOf(x.HashMap()) })
	case value.List:
		take("ImmutableList of CopyOf Values", func() value.Value { return value.ImmutableList(value.CopyOf(x.Values())) })
	}
	c.Count("derived", int64(len(got)))
	verify := func(after string) {
		for _, d := range got {
			d.f.verify(c, after)
		}
	}
	u := &updFunc{ret: value.Utf8("updated")}
	// through their own entries
	for _, d := range got {
		try(func() {
			switch x := d.f.v.(type) {
			case value.Map:
				for _, e := range x.Entries() {
					c.Check(!e.Update(u), "an entry of the immutable map given by %s of a %s reports an update", d.how, name)
				}
				for _, q := range d.f.keys {
					c.Check(!x.Update(q, u), "Update on an immutable map reports an update")
				}
			case value.List:
				for i, it := range x.Items() {
					it.Update(u)
					c.Check(!x.UpdateAt(i, u), "UpdateAt on an immutable list reports an update")
				}
				for _, e := range x.Entries() {
					e.Update(u)
				}
			}
		})
		verify("updates through " + d.how)
	}
	// through what they were made from
	for j := 0; j < 6; j++ {
		what := ""
		switch x := src.(type) {
		case value.Map:
			q := fmt.Sprintf("k%d", c.Intn(k+1))
			switch c.Intn(6) {
			case 0:
				what = "Update"
				x.Update(q, u)
			case 1:
				what = "Put"
				src = x.Put(q, leaf(1000+j))
			case 2:
				what = "Remove"
				src = x.Remove(q)
			case 3:
				what = "Insert"
				src = x.Insert(q, leaf(1000+j))
			case 4:
				what = "Entries()[].Update"
				for _, e := range x.Entries() {
					e.Update(u)
				}
			case 5:
				what = "HashMap overwritten"
				h := x.HashMap()
				for a := range h {
					h[a] = leaf(-1)
				}
			}
		case value.List:
			q := c.Intn(x.Len() + 1)
			switch c.Intn(7) {
			case 0:
				what = "PutAt"
				src = x.PutAt(x.Len()+q, leaf(1000+j))
			case 1:
				what = "Append"
				src = x.Append(leaf(1000 + j))
			case 2:
				what = "Items()[].Update"
				for _, e := range x.Entries() {
					e.Update(u)
				}
			case 3:
				what = "UpdateAt"
				x.UpdateAt(q, u)
			case 4:
				what = "PutAt inside"
				src = x.PutAt(q, leaf(1000+j))
			case 5:
				what = "RemoveAt"
				src = x.RemoveAt(q)
			case 6:
				what = "InsertAt"
				src = x.InsertAt(q, leaf(1000+j))
			}
		}
		verify(what + " on the " + name)
	}
	c.Distinct(fnv64(fmt.Sprint(name, k, len(got))))
}
