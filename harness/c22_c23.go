package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"

	"github.com/codeallergy/value"
)

// ------------------------------------------------------------------ C22

// itself: b is the very value a, not merely an equal one.
func itself(a, b value.Value) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	if ra.Kind() == reflect.Slice {
		return ra.Len() == rb.Len() && (ra.Len() == 0 || ra.Pointer() == rb.Pointer())
	}
	if ra.Comparable() {
		return a == b || mdiff(project(a), project(b)) == ""
	}
	return mdiff(project(a), project(b)) == ""
}

// topNull: holes and nulls directly inside a collection are not told apart.
func topNull(m *MV) *MV {
	nn := func(e *MV) *MV {
		if e.K == KNil {
			return mNull
		}
		return e
	}
	r := &MV{K: m.K}
	for _, e := range m.L {
		r.L = append(r.L, nn(e))
	}
	for _, e := range m.E {
		r.E = append(r.E, MEnt{e.K, nn(e.V)})
	}
	return r
}

type lookups struct {
	get func() value.Value
	b   func() value.Bool
	n   func() value.Number
	s   func() value.String
	l   func() value.List
	m   func() value.Map
}

func listLookups(l value.List, i int) lookups {
	return lookups{
		func() value.Value { return l.GetAt(i) },
		func() value.Bool { return l.GetBoolAt(i) },
		func() value.Number { return l.GetNumberAt(i) },
		func() value.String { return l.GetStringAt(i) },
		func() value.List { return l.GetListAt(i) },
		func() value.Map { return l.GetMapAt(i) },
	}
}

func mapLookups(m value.Map, k string) lookups {
	return lookups{
		func() value.Value { return m.Get(k) },
		func() value.Bool { return m.GetBool(k) },
		func() value.Number { return m.GetNumber(k) },
		func() value.String { return m.GetString(k) },
		func() value.List { return m.GetList(k) },
		func() value.Map { return m.GetMap(k) },
	}
}

// checkLookup compares the six lookups of one place with the stored element
// (nil for an absent one).
func checkLookup(c *Case, lk lookups, elem value.Value, what string) {
	c.Count("lookups", 1)
	step := ""
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				panic(f)
			}
			c.Failf("%s: %s panics: %v (element %v)", what, step, r, project(elem))
		}
	}()
	kind := value.NULL
	if elem != nil {
		kind = elem.Kind()
	}
	null := kind == value.NULL
	em := mNull
	text := ""
	if !null {
		em = project(elem)
		text = elem.String()
		c.Count("present:"+kind.String(), 1)
	} else {
		c.Count("absent-or-null", 1)
	}

	step = "the bool lookup"
	gb := lk.b()
	c.Check(gb != nil, "%s: the bool lookup returns nil", what)
	wb := false
	if kind == value.BOOL {
		wb = elem.(value.Bool).Boolean()
	} else if !null {
		wb = value.ParseBoolean(text).Boolean()
	}
	c.Check(gb.Kind() == value.BOOL && gb.Boolean() == wb, "%s: the bool lookup of %v returns %v, expected %v", what, em, gb, wb)

	step = "the number lookup"
	gn := lk.n()
	c.Check(gn != nil, "%s: the number lookup returns nil", what)
	c.Check(gn.Kind() == value.NUMBER, "%s: the number lookup returns a %v", what, gn.Kind())
	switch {
	case kind == value.NUMBER:
		c.Check(itself(gn, elem), "%s: the number lookup of %v returns %v", what, em, project(gn))
		c.same(project(gn), em, "%s: the number lookup", what)
	case null:
		c.same(project(gn), mLong(0), "%s: the number lookup of an absent or null element", what)
	default:
		got, want := project(gn), project(value.ParseNumber(text))
		if got.K == KDouble && want.K == KDouble && gn.IsNaN() && value.ParseNumber(text).IsNaN() {
			break
		}
		c.same(got, want, "%s: the number lookup of %v (text %.60q)", what, em, text)
	}

	step = "the string lookup"
	gs := lk.s()
	c.Check(gs != nil, "%s: the string lookup returns nil", what)
	c.Check(gs.Kind() == value.STRING, "%s: the string lookup returns a %v", what, gs.Kind())
	switch {
	case kind == value.STRING:
		c.Check(itself(gs, elem), "%s: the string lookup of %v returns %v", what, em, project(gs))
		c.same(project(gs), em, "%s: the string lookup", what)
	case null:
		c.same(project(gs), mStr(""), "%s: the string lookup of an absent or null element", what)
	default:
		c.same(project(gs), project(value.ParseString(text)), "%s: the string lookup of %v", what, em)
		if em.K == KBool || isNum(em) {
			c.same(project(gs), mStr(text), "%s: the string lookup of %v", what, em)
		}
	}

	step = "the list lookup"
	gl := lk.l()
	c.Check(gl != nil, "%s: the list lookup returns nil", what)
	c.Check(gl.Kind() == value.LIST, "%s: the list lookup returns a %v", what, gl.Kind())
	switch kind {
	case value.LIST:
		c.Check(itself(gl, elem), "%s: the list lookup of %v does not return the element itself but %v", what, em, project(gl))
	case value.MAP:
		want := &MV{K: KList}
		for _, e := range em.E {
			want.L = append(want.L, e.V)
		}
		c.same(topNull(project(gl)), topNull(want), "%s: the list lookup of a map %v", what, em)
		for i := range want.L {
			g := project(gl.GetAt(i))
			if g.K == KNil {
				g = mNull
			}
			w := want.L[i]
			if w.K == KNil {
				w = mNull
			}
			c.same(g, w, "%s: element %d of the list lookup of a map", what, i)
		}
		c.Count("list-of-map", 1)
	default:
		c.Check(gl.Len() == 0 && len(gl.Values()) == 0, "%s: the list lookup of %v returns %v", what, em, project(gl))
	}

	step = "the map lookup"
	gm := lk.m()
	c.Check(gm != nil, "%s: the map lookup returns nil", what)
	c.Check(gm.Kind() == value.MAP, "%s: the map lookup returns a %v", what, gm.Kind())
	switch kind {
	case value.MAP:
		c.Check(itself(gm, elem), "%s: the map lookup of %v does not return the element itself but %v", what, em, project(gm))
	case value.LIST:
		want := &MV{K: KMap}
		for i, e := range em.L {
			want.E = append(want.E, MEnt{strconv.Itoa(i), e})
		}
		for _, e := range em.P {
			want.E = append(want.E, MEnt{strconv.Itoa(e.K), e.V})
		}
		sortEnts(want.E)
		c.same(mnorm(topNull(project(gm))), mnorm(topNull(want)), "%s: the map lookup of a list %v", what, em)
		for i, e := range want.E {
			if i > 0 && want.E[i-1].K == e.K || i+1 < len(want.E) && want.E[i+1].K == e.K {
				continue // duplicates: any order
			}
			g := project(gm.Get(e.K))
			w := e.V
			if g.K == KNil {
				g = mNull
			}
			if w.K == KNil {
				w = mNull
			}
			c.same(g, w, "%s: key %q of the map lookup of a list", what, e.K)
		}
		c.Count("map-of-list", 1)
	default:
		c.Check(gm.Len() == 0 && len(gm.Entries()) == 0, "%s: the map lookup of %v returns %v", what, em, project(gm))
	}

	step = "the plain lookup"
	g := lk.get()
	if null {
		c.Check(g == nil || g.Kind() == value.NULL, "%s: the plain lookup returns %v for an absent or null element", what, g)
	} else {
		c.Check(g != nil && itself(g, elem), "%s: the plain lookup returns %v, expected %v", what, project(g), em)
	}
}

var extremeInts = []int{-1, -2, -10, -1 << 31, -1 << 62, -1 << 63, 1 << 30, 1<<62 - 1, 1<<63 - 1}

func checkAllLookups(c *Case, v value.Value, depth int, what string) {
	switch x := v.(type) {
	case value.List:
		if v.Kind() != value.LIST {
			return
		}
		sparse := v.Class() == sparseClass
		seen := map[int]bool{}
		probe := append([]int{0, 1, x.Len() - 1, x.Len(), x.Len() + 1}, extremeInts...)
		items := x.Items()
		var elems []value.Value
		for i, it := range items {
			if !sparse {
				elems = append(elems, x.Values()[i])
			} else {
				elems = append(elems, it.Value())
			}
		}
		for i, it := range items {
			if seen[it.Key()] {
				continue
			}
			seen[it.Key()] = true
			if len(items) > 40 && i%7 != c.Index%7 {
				continue
			}
			checkLookup(c, listLookups(x, it.Key()), elems[i], fmt.Sprintf("%s index %d", what, it.Key()))
			probe = append(probe, it.Key()+1, it.Key()-1)
		}
		for j, i := range probe {
			if seen[i] || j > 30 {
				continue
			}
			seen[i] = true
			checkLookup(c, listLookups(x, i), nil, fmt.Sprintf("%s absent index %d", what, i))
		}
		if depth > 0 {
			for _, e := range elems {
				if e != nil {
					checkAllLookups(c, e, depth-1, what+" nested")
				}
			}
		}
	case value.Map:
		seen := map[string]bool{}
		probe := []string{"", "\x00", "zzzzzz", "\xff\xff", "0", "absent"}
		for i, e := range x.Entries() {
			if seen[e.Key()] {
				continue
			}
			seen[e.Key()] = true
			if x.Len() > 40 && i%7 != c.Index%7 {
				continue
			}
			checkLookup(c, mapLookups(x, e.Key()), e.Value(), fmt.Sprintf("%s key %.40q", what, e.Key()))
			probe = append(probe, e.Key()+"\x00", e.Key()+"a")
			if k := e.Key(); len(k) > 0 {
				probe = append(probe, k[:len(k)-1])
			}
		}
		for j, k := range probe {
			if seen[k] || j > 30 {
				continue
			}
			seen[k] = true
			checkLookup(c, mapLookups(x, k), nil, fmt.Sprintf("%s absent key %.40q", what, k))
		}
		if depth > 0 {
			for _, e := range x.Entries() {
				if e.Value() != nil {
					checkAllLookups(c, e.Value(), depth-1, what+" nested")
				}
			}
		}
	}
}

// containers puts the same element into every collection implementation.
func containers(e value.Value) map[string]func() lookups {
	return map[string]func() lookups{
		"immutable list": func() lookups { return listLookups(value.ImmutableList([]value.Value{value.Long(7), e}), 1) },
		"mutable list":   func() lookups { return listLookups(value.MutableList([]value.Value{value.Long(7), e}), 1) },
		"tuple":          func() lookups { return listLookups(value.Tuple(value.True, e, value.True), 1) },
		"single":         func() lookups { return listLookups(value.Single(e), 0) },
		"sparse list": func() lookups {
			return listLookups(value.SparseList([]value.ListItem{value.MutableItem(-3, e)}, true), -3)
		},
		"sparse list, immutable": func() lookups {
			return listLookups(value.SparseList([]value.ListItem{value.ImmutableItem(9, e)}, false), 9)
		},
		"immutable map": func() lookups {
			return mapLookups(value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("k", e)}, true), "k")
		},
		"sorted map": func() lookups {
			return mapLookups(value.SortedMap([]value.MapEntry{value.MutableEntry("k", e)}, true), "k")
		},
		"immutable map of": func() lookups {
			return mapLookups(value.ImmutableMapOf(map[string]value.Value{"": e, "a": value.True}), "")
		},
		"sorted map of": func() lookups {
			return mapLookups(value.SortedMapOf(map[string]value.Value{"z": e, "a": value.True}), "z")
		},
		"immutable list op": func() lookups { return listLookups(value.EmptyImmutableList().Append(value.True).Append(e), 1) },
		"mutable list op":   func() lookups { return listLookups(value.EmptyMutableList().PutAt(3, e), 3) },
		"sparse list op":    func() lookups { return listLookups(value.EmptySparseList().PutAt(30, e), 30) },
		"sorted map op":     func() lookups { return mapLookups(value.EmptyMutableMap().Put("x", e).Put("a", value.True), "x") },
		"immutable map op":  func() lookups { return mapLookups(value.EmptyImmutableMap().Put("x", e).Insert("z", value.True), "x") },
	}
}

func elemMatrix(r *RNG) []*MV {
	l := []*MV{mNil, mNull, mBool(true), mBool(false), mStr(""), mRaw(""), mList(), {K: KMap}, mList(mLong(1)), mList(mNil, mLong(2))}
	for _, m := range sysScalars {
		l = append(l, m)
	}
	for _, s := range []string{"true", "TRUE", "t", "1", "0", "false", "12", "-5", "1.5", "0x10", "-0x0f", "0x1x2", "null", "nan", "NaN", "base64,AAE", "data:application/x-msgpack-ext;base64,BQE", "abc", " 1", "1e3"} {
		l = append(l, mStr(s), mRaw(s))
	}
	big := &MV{K: KMap}
	bl := &MV{K: KList}
	for i := 0; i < 23; i++ {
		big.E = append(big.E, MEnt{fmt.Sprintf("k%02d", i), mLong(int64(100 + i))})
		bl.L = append(bl.L, mLong(int64(200+i)))
	}
	dup := &MV{K: KMap, E: []MEnt{{"a", mLong(1)}, {"a", mLong(2)}, {"b", mNil}}}
	sp := &MV{K: KSparse, P: []MItem{{-12, mStr("n")}, {0, mLong(0)}, {2, mNull}, {10, mLong(10)}, {1000000, mLong(5)}}}
	l = append(l, big, bl, dup, sp)
	return l
}

func init() {
	matrix := elemMatrix(nil)
	register(&Prop{
		ID:    "C22",
		Rule:  "a case is one collection built by one path (or decoded), with every stored index or key and many absent ones looked up as each kind; non-trivial when it has elements",
		Needs: []string{"lookups", "absent-or-null", "list-of-map", "map-of-list", "present:BOOL", "present:NUMBER", "present:STRING", "present:LIST", "present:MAP", "present:UNKNOWN"},
		Sections: []Section{
			{Name: "every-kind-in-every-container", N: n(len(matrix), len(matrix)), Run: func(c *Case) {
				m := matrix[c.Index]
				e, _ := mk(c, m, BuildOpt{})
				for name, f := range containers(e) {
					var lk lookups
					if p := try(func() { lk = f() }); p != nil {
						c.Failf("%s of %v: panic %v", name, m, p)
					}
					checkLookup(c, lk, e, name)
				}
				c.Distinct(uint64(c.Index))
				c.Sample("%v in 15 containers", m)
			}},
			{Name: "random-collections", N: n(30000, 1500000), Run: func(c *Case) {
				m := genColl(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 5 + c.Intn(50), MaxStr: 20})
				v, m := mk(c, m, BuildOpt{Immutable: c.P(1, 3)})
				c.Note("%v", m)
				checkAllLookups(c, v, 3, "built")
				c.same(project(v), m, "the collection after the lookups")
				c.Distinct(fnv64(m.String()))
				c.Sample("%v", m)
			}},
			{Name: "text-elements", N: n(6000, 300000), Run: func(c *Case) {
				m := mList(mStr(genText(c.RNG)), mRaw(genText(c.RNG)))
				for _, e := range m.L {
					v, _ := mk(c, e, BuildOpt{Plain: true})
					for name, f := range containers(v) {
						if c.P(1, 3) {
							checkLookup(c, f(), v, name)
						}
					}
				}
				c.Distinct(fnv64(m.String()))
			}},
			{Name: "decoded-collections", N: n(12000, 600000), Run: func(c *Case) {
				b, m, _ := genForeign(c.RNG)
				v, err := value.Unpack(b, c.Bool())
				if err != nil || v == nil {
					c.Count("not-decoded", 1)
					return
				}
				c.Note("bytes %s: %v", hexShort(b), m)
				checkAllLookups(c, v, 3, "decoded")
				if v.Kind() == value.LIST || v.Kind() == value.MAP {
					c.Count("decoded", 1)
				}
				c.DistinctB(b)
			}},
			{Name: "after-operations", N: n(6000, 300000), Run: func(c *Case) {
				var uniq int64
				var log []string
				switch c.Intn(3) {
				case 0:
					l, s := startSeq(c, c.Bool(), &uniq)
					for i := 0; i < 12; i++ {
						if p := try(func() { l, s = seqOp(c, l, s, &uniq, &log) }); p != nil {
							c.Count("op-failed", 1)
							return
						}
					}
					c.Note("%s", logTail(log))
					checkAllLookups(c, l, 2, "after operations")
				case 1:
					l, s := startSparse(c, &uniq)
					for i := 0; i < 12; i++ {
						if p := try(func() { l, s = sparseOp(c, l, s, &uniq, &log) }); p != nil {
							c.Count("op-failed", 1)
							return
						}
					}
					c.Note("%s", logTail(log))
					checkAllLookups(c, l, 2, "after operations")
				default:
					l, s := startMap(c, c.Bool(), &uniq)
					for i := 0; i < 12; i++ {
						if p := try(func() { l, s = mapOp(c, l, s, &uniq, &log) }); p != nil {
							c.Count("op-failed", 1)
							return
						}
					}
					c.Note("%s", logTail(log))
					checkAllLookups(c, l, 2, "after operations")
				}
				c.Distinct(fnv64(fmt.Sprint(log)))
			}},
		},
	})
}

// ------------------------------------------------------------------ C23

// An updating target: how to reach one stored element in place.
type updTarget struct {
	name string
	do   func(u value.Updater) bool
	pos  int  // position in the model, -1 when absent
	must bool // an update has to succeed
	may  bool // it may succeed
}

type callLog struct {
	ret    value.Value
	seen   []value.Value
	during func()
}

func (u *callLog) Update(old value.Value) value.Value {
	u.seen = append(u.seen, old)
	if u.during != nil {
		u.during()
	}
	return u.ret
}

var errUpdater = errors.New("the updater gives up")

// contentOf is the flat content of a collection: keys and projected elements.
func contentOf(v value.Value) (keys []string, elems []*MV) {
	m := project(v)
	for i, e := range m.L {
		keys = append(keys, strconv.Itoa(i))
		elems = append(elems, e)
	}
	for _, e := range m.E {
		keys = append(keys, e.K)
		elems = append(elems, e.V)
	}
	for _, e := range m.P {
		keys = append(keys, strconv.Itoa(e.K))
		elems = append(elems, e.V)
	}
	return
}

func runUpdate(c *Case, v value.Value, t updTarget) bool {
	keys, elems := contentOf(v)
	nv, nm := mk(c, gen(c.RNG, GenOpt{Depth: 2, Budget: 6, MaxStr: 12, NoHoles: true}), BuildOpt{Plain: true})
	if c.P(1, 6) {
		nv, nm = nil, mNull
	}
	u := &callLog{ret: nv}
	var ok bool
	switch c.Intn(12) {
	case 0: // what the updater sees while it runs
		u.during = func() {
			_, e := contentOf(v)
			c.Check(len(e) == len(elems), "%s: %d elements before, %d while the updater runs", t.name, len(elems), len(e))
			for i := range e {
				c.same(e[i], elems[i], "%s: element %d seen by the updater while it runs", t.name, i)
			}
			c.Count("seen-inside", 1)
		}
	case 1: // an updater that fails
		u.during = func() { panic(errUpdater) }
		p := try(func() { ok = t.do(u) })
		c.Check((p != nil) == (len(u.seen) > 0), "%s: the updater was called %d times and panicked, %v arrives", t.name, len(u.seen), p)
		c.Check(p == nil || p == interface{}(errUpdater), "%s panics: %v", t.name, p)
		c.Check(!ok, "%s returns true and replaced nothing", t.name)
		k2, e2 := contentOf(v)
		c.Check(len(k2) == len(keys), "%s: %d elements before, %d after the updater failed", t.name, len(keys), len(k2))
		for i := range keys {
			c.Check(k2[i] == keys[i], "%s: key %d was %q and is %q after the updater failed", t.name, i, keys[i], k2[i])
			c.same(e2[i], elems[i], "%s: element %q after the updater failed", t.name, keys[i])
		}
		c.Count("failing-updaters", int64(len(u.seen)))
		return false
	}
	if p := try(func() { ok = t.do(u) }); p != nil {
		if f, is := p.(failure); is {
			panic(f)
		}
		c.Failf("%s panics: %v", t.name, p)
	}
	c.Count("updates", 1)
	k2, e2 := contentOf(v)
	c.Check(len(k2) == len(keys), "%s: %d elements before, %d after", t.name, len(keys), len(k2))
	if ok {
		c.Check(t.pos >= 0 && t.may, "%s returns true but nothing can be replaced there", t.name)
		c.Check(len(u.seen) == 1, "%s returns true, the updater was called %d times", t.name, len(u.seen))
		c.same(project(u.seen[0]), elems[t.pos], "%s: the old value given to the updater", t.name)
		c.Count("replaced", 1)
	} else {
		c.Check(!t.must, "%s returns false on a mutable element", t.name)
		c.Count("refused", 1)
		for _, s := range u.seen {
			c.Check(t.pos >= 0, "%s: the updater was called although nothing is there (old %v)", t.name, project(s))
		}
	}
	for i := range keys {
		c.Check(k2[i] == keys[i], "%s: key %d was %q and is %q", t.name, i, keys[i], k2[i])
		want := elems[i]
		if ok && i == t.pos {
			want = nm
		}
		c.same(e2[i], want, "%s (returned %v): element %q (position %d, target %d)", t.name, ok, keys[i], i, t.pos)
	}
	if ok {
		var g value.Value
		switch x := v.(type) {
		case value.List:
			k, _ := strconv.Atoi(keys[t.pos])
			g = x.GetAt(k)
		case value.Map:
			g = x.Get(keys[t.pos])
		}
		if t.pos == 0 || keys[t.pos-1] != keys[t.pos] { // the first of its key is what a lookup finds
			c.same(project(g), nm, "%s: the lookup of %q after the update", t.name, keys[t.pos])
		}
	}
	return ok
}

// updMode says whether elements can be replaced in place.
type updMode int

const (
	updNever updMode = iota // immutable collections
	updMust                 // mutable family throughout
	updMixed                // mutable shell around entries of unknown kind
)

func pickTarget(c *Case, v value.Value, mode updMode) updTarget {
	keys, _ := contentOf(v)
	first := func(k string) int {
		for i := range keys {
			if keys[i] == k {
				return i
			}
		}
		return -1
	}
	must, may := mode == updMust, mode != updNever
	switch x := v.(type) {
	case value.List:
		sparse := v.Class() == sparseClass
		if sparse && len(keys) > 0 && c.P(1, 3) {
			i := c.Intn(len(keys))
			it := x.Items()[i]
			return updTarget{fmt.Sprintf("Items()[%d].Update", i), it.Update, i, must, may}
		}
		k := c.Intn(x.Len()%1000+3) - 1
		if len(keys) > 0 && c.P(2, 3) {
			k, _ = strconv.Atoi(keys[c.Intn(len(keys))])
		} else if c.P(1, 4) {
			k = extremeInts[c.Intn(len(extremeInts))]
		}
		pos := first(strconv.Itoa(k))
		return updTarget{fmt.Sprintf("UpdateAt(%d)", k), func(u value.Updater) bool { return x.UpdateAt(k, u) }, pos, must && pos >= 0, may}
	case value.Map:
		if len(keys) > 0 && c.P(1, 3) {
			i := c.Intn(len(keys))
			en := x.Entries()[i]
			return updTarget{fmt.Sprintf("Entries()[%d].Update", i), en.Update, i, must, may}
		}
		k := genKey(c.RNG)
		if len(keys) > 0 && c.P(3, 4) {
			k = keys[c.Intn(len(keys))]
			if c.P(1, 8) {
				k += "\x00"
			}
		}
		pos := first(k)
		return updTarget{fmt.Sprintf("Update(%.30q)", k), func(u value.Updater) bool { return x.Update(k, u) }, pos, must && pos >= 0, may}
	}
	panic("pickTarget")
}

// makeColl builds a collection whose update mode is known.
func makeColl(c *Case) (value.Value, updMode, string) {
	var uniq int64
	switch c.Intn(9) {
	case 0:
		l, _ := startSeq(c, true, &uniq)
		return l, updNever, "immutable list"
	case 1:
		l, _ := startSeq(c, false, &uniq)
		return l, updMust, "mutable list"
	case 2: // sparse, mutable items through and through
		m := &MV{K: KSparse}
		l := value.EmptySparseList()
		if c.Bool() {
			var items []value.ListItem
			for i := 0; i < c.Intn(8); i++ {
				uniq++
				items = append(items, value.MutableItem(c.Intn(6)-1, value.Long(uniq)))
			}
			l = value.SparseList(items, false)
			m = project(l)
		} else if c.Bool() {
			l = value.SparseListOf([]value.Value{value.Long(1), nil, value.Long(2), value.Null})
			m = project(l)
		}
		p := m.P
		var log []string
		for i := 0; i < c.Intn(8); i++ {
			l, p = sparseOp(c, l, p, &uniq, &log)
		}
		return l, updMust, "sparse list"
	case 3:
		l, _ := startSparse(c, &uniq)
		return l, updMixed, "sparse list from anywhere"
	case 4:
		m, _ := startMap(c, true, &uniq)
		return m, updNever, "immutable map"
	case 5:
		var ents []value.MapEntry
		for i := 0; i < c.Intn(8); i++ {
			uniq++
			ents = append(ents, value.MutableEntry(genKey(c.RNG), value.Long(uniq)))
		}
		m := value.SortedMap(ents, false)
		e := project(m).E
		var log []string
		for i := 0; i < c.Intn(8); i++ {
			m, e = mapOp(c, m, e, &uniq, &log)
		}
		return m, updMust, "sorted map"
	case 6:
		src := map[string]value.Value{}
		for i := 0; i < c.Intn(6); i++ {
			uniq++
			src[genKey(c.RNG)] = value.Long(uniq)
		}
		if c.Bool() {
			return value.ImmutableMapOf(src), updNever, "ImmutableMapOf"
		}
		return value.SortedMapOf(src), updMust, "SortedMapOf"
	case 7:
		src, _, name := anyMap(c, 1)
		if c.Bool() {
			return value.ImmutableMapCopyOf(src), updNever, "ImmutableMapCopyOf(" + name + ")"
		}
		return value.SortedMapCopyOf(src), updMust, "SortedMapCopyOf(" + name + ")"
	default: // a mutable map around entries the caller made
		var ents []value.MapEntry
		for i := 0; i < c.Intn(8); i++ {
			uniq++
			ents = append(ents, mkEntry(c.Bool(), genKey(c.RNG), value.Long(uniq)))
		}
		return value.SortedMap(ents, false), updMixed, "sorted map of mixed entries"
	}
}

// anyMap makes a map of any family, copies of copies included.
func anyMap(c *Case, depth int) (value.Map, updMode, string) {
	var uniq int64 = 500
	if depth > 0 && c.P(1, 3) {
		src, _, name := anyMap(c, depth-1)
		if c.Bool() {
			return value.ImmutableMapCopyOf(src), updNever, "ImmutableMapCopyOf(" + name + ")"
		}
		return value.SortedMapCopyOf(src), updMust, "SortedMapCopyOf(" + name + ")"
	}
	if c.P(1, 4) {
		m := gen(c.RNG, GenOpt{Depth: 2, Budget: 12, MaxStr: 8})
		if m.K == KMap {
			v, _ := mk(c, m, BuildOpt{})
			if v.Class() == value.EmptyImmutableMap().Class() {
				return v.(value.Map), updNever, "built immutable map"
			}
			return v.(value.Map), updMixed, "built sorted map"
		}
	}
	imm := c.Bool()
	m, _ := startMap(c, imm, &uniq)
	if imm {
		return m, updNever, "immutable map"
	}
	if c.Bool() {
		return value.SortedMapCopyOf(m), updMust, "copied sorted map"
	}
	return m, updMixed, "sorted map"
}

func init() {
	register(&Prop{
		ID:    "C23",
		Rule:  "a case is a history of in-place updates and operations on one collection (or on a map, its copies and copies of those), every update observed by a recording updater and all content compared around it; non-trivial when something was replaced or refused",
		Needs: []string{"updates", "replaced", "refused", "copies", "isolation-checks", "seen-inside", "failing-updaters"},
		Sections: []Section{
			{Name: "updates", N: n(40000, 2000000), Run: func(c *Case) {
				v, mode, name := makeColl(c)
				c.Note("%s: %v", name, project(v))
				start := project(v)
				for i := 0; i < 3+c.Intn(8); i++ {
					runUpdate(c, v, pickTarget(c, v, mode))
				}
				if mode == updNever {
					c.same(project(v), start, "%s after updates", name)
				}
				keys, elems := contentOf(v)
				if len(keys) > 0 && mode == updMust { // the replaced content is also what is packed
					c.sameBytes(mustPack(c, v), refEncode(project(v)), "%s packed after updates", name)
					_ = elems
				}
				c.Distinct(fnv64(name + project(v).String()))
				c.Sample("%s: %v -> %v", name, start, project(v))
			}},
			{Name: "updates-amid-operations", N: n(8000, 400000), Run: func(c *Case) {
				var uniq int64 = 1000
				var log []string
				switch c.Intn(3) {
				case 0:
					l, s := startSeq(c, false, &uniq)
					for i := 0; i < 20; i++ {
						if c.P(1, 3) {
							runUpdate(c, l, pickTarget(c, l, updMust))
							s = append(seqModel{}, project(l).L...)
							log = append(log, "update")
						} else {
							l, s = seqOp(c, l, s, &uniq, &log)
						}
						c.Note("%s", logTail(log))
						c.same(project(l), s.mv(), "after %s", log[len(log)-1])
					}
				case 1:
					l := value.EmptySparseList()
					var p []MItem
					for i := 0; i < 20; i++ {
						if c.P(1, 3) {
							runUpdate(c, l, pickTarget(c, l, updMust))
							p = project(l).P
							log = append(log, "update")
						} else {
							l, p = sparseOp(c, l, p, &uniq, &log)
						}
						c.Note("%s", logTail(log))
						c.same(project(l), &MV{K: KSparse, P: p}, "after %s", log[len(log)-1])
					}
				default:
					m := value.EmptyMutableMap()
					var e []MEnt
					for i := 0; i < 20; i++ {
						if c.P(1, 3) {
							runUpdate(c, m, pickTarget(c, m, updMust))
							e = project(m).E
							log = append(log, "update")
						} else {
							m, e = mapOp(c, m, e, &uniq, &log)
						}
						c.Note("%s", logTail(log))
						c.same(project(m), &MV{K: KMap, E: e}, "after %s", log[len(log)-1])
					}
				}
				c.Distinct(fnv64(fmt.Sprint(log)))
			}},
			{Name: "sized-updates", N: n(300, 3000), Run: func(c *Case) {
				k := []int{0, 1, 2, 3, 15, 16, 17, 64, 1000, 5000}[c.Index%10]
				fam := c.Index / 10 % 5
				var v value.Value
				mode := updMust
				vals := make([]value.Value, k)
				for i := range vals {
					vals[i] = value.Long(int64(i))
				}
				switch fam {
				case 0:
					v = value.MutableList(vals)
				case 1:
					v, mode = value.ImmutableList(vals), updNever
				case 2:
					v = value.SparseListOf(vals)
				case 3, 4:
					var ents []value.MapEntry
					for i := range vals {
						ents = append(ents, mkEntry(fam == 4, fmt.Sprintf("%05d", i), vals[i]))
					}
					v = mapCtor(fam == 4, ents, false)
					if fam == 4 {
						mode = updNever
					}
				}
				for i := 0; i < 4; i++ {
					runUpdate(c, v, pickTarget(c, v, mode))
				}
				c.Distinct(uint64(c.Index))
			}},
			{Name: "copies", N: n(30000, 1500000), Run: func(c *Case) {
				type node struct {
					m     value.Map
					mode  updMode
					name  string
					model *MV
				}
				src, mode, name := anyMap(c, 0)
				nodes := []*node{{src, mode, name, project(src)}}
				for i := 0; i < 4+c.Intn(10); i++ {
					nd := nodes[c.Intn(len(nodes))]
					if i == 0 || c.P(1, 4) && len(nodes) < 6 {
						n2 := &node{name: fmt.Sprintf("copy %d of (%s)", i, nd.name), model: project(nd.m)}
						if c.Bool() {
							n2.m, n2.mode = value.SortedMapCopyOf(nd.m), updMust
							c.Check(n2.m.Class() == value.EmptyMutableMap().Class(), "SortedMapCopyOf returns a %v", n2.m.Class())
						} else {
							n2.m, n2.mode = value.ImmutableMapCopyOf(nd.m), updNever
							c.Check(n2.m.Class() == value.EmptyImmutableMap().Class(), "ImmutableMapCopyOf returns a %v", n2.m.Class())
						}
						c.same(project(n2.m), nd.model, "%s right after copying", n2.name)
						nodes = append(nodes, n2)
						c.Count("copies", 1)
					} else {
						c.Note("%s among %d maps, model %v", nd.name, len(nodes), nd.model)
						if runUpdate(c, nd.m, pickTarget(c, nd.m, nd.mode)) {
							nd.model = project(nd.m)
						}
					}
					for _, o := range nodes {
						c.same(project(o.m), o.model, "%s, after an update of %s", o.name, nd.name)
						c.Count("isolation-checks", 1)
					}
				}
				c.Distinct(fnv64(nodes[0].model.String()))
				c.Sample("%d maps from %s", len(nodes), name)
			}},
			{Name: "copies-and-operations", N: n(8000, 400000), Run: func(c *Case) {
				// a copy used through linear operations leaves its source alone and the other way round
				var uniq int64 = 9000
				src, _, name := anyMap(c, 1)
				srcM := project(src)
				var cp value.Map
				imm := c.Bool()
				if imm {
					cp = value.ImmutableMapCopyOf(src)
				} else {
					cp = value.SortedMapCopyOf(src)
				}
				e := project(cp).E
				var log []string
				for i := 0; i < 10; i++ {
					cp, e = mapOp(c, cp, e, &uniq, &log)
					c.Note("copy of %s: %s", name, logTail(log))
					c.same(project(cp), &MV{K: KMap, E: e}, "the copy after %s", log[len(log)-1])
					c.same(project(src), srcM, "the source after %s on the copy", log[len(log)-1])
				}
				s := srcM.E
				cpM := project(cp)
				for i := 0; i < 10; i++ {
					src, s = mapOp(c, src, s, &uniq, &log)
					c.same(project(cp), cpM, "the copy after %s on its source", log[len(log)-1])
				}
				c.Count("copies", 1)
				c.Distinct(fnv64(fmt.Sprint(log)))
			}},
		},
	})
}
