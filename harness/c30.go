package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/codeallergy/value"
)

// Values, items and entries of the user's own: all of them are interfaces.

type tally struct{ packs, prints, equals int }

type ownBool struct {
	value.Bool
	n *tally
}
type ownNumber struct {
	value.Number
	n *tally
}
type text = value.String // the embedded field is not to hide the method String
type ownString struct {
	text
	n *tally
}
type ownExt struct {
	value.Extension
	n *tally
}
type ownList struct {
	value.List
	n *tally
}
type ownMap struct {
	value.Map
	n *tally
}

func (o *ownBool) Pack(p value.Packer)            { o.n.packs++; o.Bool.Pack(p) }
func (o *ownNumber) Pack(p value.Packer)          { o.n.packs++; o.Number.Pack(p) }
func (o *ownString) Pack(p value.Packer)          { o.n.packs++; o.text.Pack(p) }
func (o *ownExt) Pack(p value.Packer)             { o.n.packs++; o.Extension.Pack(p) }
func (o *ownList) Pack(p value.Packer)            { o.n.packs++; o.List.Pack(p) }
func (o *ownMap) Pack(p value.Packer)             { o.n.packs++; o.Map.Pack(p) }
func (o *ownBool) PrintJSON(w *strings.Builder)   { o.n.prints++; o.Bool.PrintJSON(w) }
func (o *ownNumber) PrintJSON(w *strings.Builder) { o.n.prints++; o.Number.PrintJSON(w) }
func (o *ownString) PrintJSON(w *strings.Builder) { o.n.prints++; o.text.PrintJSON(w) }
func (o *ownExt) PrintJSON(w *strings.Builder)    { o.n.prints++; o.Extension.PrintJSON(w) }
func (o *ownList) PrintJSON(w *strings.Builder)   { o.n.prints++; o.List.PrintJSON(w) }
func (o *ownMap) PrintJSON(w *strings.Builder)    { o.n.prints++; o.Map.PrintJSON(w) }

func wrapOwn(v value.Value, n *tally) value.Value {
	switch v.Kind() {
	case value.BOOL:
		return &ownBool{v.(value.Bool), n}
	case value.NUMBER:
		return &ownNumber{v.(value.Number), n}
	case value.STRING:
		return &ownString{v.(value.String), n}
	case value.UNKNOWN:
		return &ownExt{v.(value.Extension), n}
	case value.LIST:
		return &ownList{v.(value.List), n}
	case value.MAP:
		return &ownMap{v.(value.Map), n}
	}
	return v
}

type ownItem struct {
	k int
	v value.Value
}

func (i *ownItem) Key() int           { return i.k }
func (i *ownItem) Value() value.Value { return i.v }
func (i *ownItem) Equal(o value.ListItem) bool {
	return i.k == o.Key() && value.Equal(i.v, o.Value())
}
func (i *ownItem) Update(u value.Updater) bool { i.v = u.Update(i.v); return true }

type ownEntry struct {
	k string
	v value.Value
}

func (e *ownEntry) Key() string        { return e.k }
func (e *ownEntry) Value() value.Value { return e.v }
func (e *ownEntry) Equal(o value.MapEntry) bool {
	return e.k == o.Key() && value.Equal(e.v, o.Value())
}
func (e *ownEntry) Update(u value.Updater) bool { e.v = u.Update(e.v); return true }

// buildOwn builds m with values, items and entries of our own here and there;
// own counts them.
func buildOwn(c *Case, m *MV, n *tally, own *int) value.Value {
	var v value.Value
	switch m.K {
	case KList:
		l := make([]value.Value, len(m.L))
		for i, e := range m.L {
			l[i] = buildOwn(c, e, n, own)
		}
		switch c.Intn(3) {
		case 0:
			v = value.ImmutableList(l)
		case 1:
			v = value.MutableList(l)
		default:
			x := value.EmptyList(c.Bool())
			for _, e := range l {
				x = x.Append(e)
			}
			v = x
		}
	case KSparse:
		items := make([]value.ListItem, len(m.P))
		for i, e := range m.P {
			x := buildOwn(c, e.V, n, own)
			switch c.Intn(3) {
			case 0:
				items[i] = &ownItem{e.K, x}
			case 1:
				items[i] = value.MutableItem(e.K, x)
			default:
				items[i] = value.ImmutableItem(e.K, x)
			}
		}
		v = value.SparseList(items, true)
	case KMap:
		ents := make([]value.MapEntry, len(m.E))
		for i, e := range m.E {
			x := buildOwn(c, e.V, n, own)
			switch c.Intn(3) {
			case 0:
				ents[i] = &ownEntry{e.K, x}
			case 1:
				ents[i] = value.MutableEntry(e.K, x)
			default:
				ents[i] = value.ImmutableEntry(e.K, x)
			}
		}
		switch c.Intn(3) {
		case 0:
			v = value.SortedMap(ents, true)
		case 1:
			v = value.ImmutableMap(ents, true)
		default:
			v = value.SortedMap(ents, true)
			if c.Bool() {
				v = value.ImmutableMapCopyOf(v.(value.Map))
			} else {
				v = value.SortedMapCopyOf(v.(value.Map))
			}
		}
	case KNil, KNull:
		return value.Null
	default:
		v = build(m, c.RNG, BuildOpt{Plain: true})
	}
	if c.P(2, 5) {
		*own++
		return wrapOwn(v, n)
	}
	return v
}

func genOwn(c *Case) *MV {
	m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 5 + c.Intn(40), NoHoles: true, NoWide: true})
	if c.P(1, 3) && m.K != KList && m.K != KMap && m.K != KSparse {
		m = mList(m, mLong(5), m)
	}
	return m.wire()
}

func emptySparse(m *MV) bool {
	switch m.K {
	case KSparse:
		for _, e := range m.P {
			if emptySparse(e.V) {
				return true
			}
		}
		return len(m.P) == 0
	case KList:
		for _, e := range m.L {
			if emptySparse(e) {
				return true
			}
		}
	case KMap:
		for _, e := range m.E {
			if emptySparse(e.V) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID:    "C30",
		Rule:  "a case is one value, or one history of a collection, with values, items and entries of the user's own inside; distinct by bytes",
		Needs: []string{"own", "own-packed", "own-printed", "own-lookups", "own-ops", "own-items", "own-numbers", "own-structs", "equal", "different"},
		Sections: []Section{
			{Name: "values", N: n(12000, 500000), Run: func(c *Case) {
				m := genOwn(c)
				var n tally
				own := 0
				v := buildOwn(c, m, &n, &own)
				c.Note("%v with %d values of our own", m, own)
				if own == 0 {
					return
				}
				c.same(project(v), m, "read through the accessors")
				n = tally{}
				b := mustPack(c, v)
				c.Check(n.packs == own, "packing asks %d of %d values of our own", n.packs, own)
				c.sameBytes(b, refEncode(m), "the packed form")
				n = tally{}
				js := value.Jsonify(v)
				c.Check(n.prints == own, "printing asks %d of %d values of our own", n.prints, own)
				if err := jsonCheck(js, m); err != nil {
					c.Failf("JSON: %v\n text %s", err, quoteShort(js))
				}
				encodings(c, v, m)
				if !emptySparse(m) {
					u, err := value.Unpack(b, c.Bool())
					c.Check(err == nil, "Unpack: %v", err)
					c.same(project(u), m, "the value unpacked")
					checkEqual(c, v, m, u, m)
				}
				c.Count("own", int64(own))
				c.Count("own-packed", 1)
				c.Count("own-printed", 1)
				c.DistinctB(b)
				c.Sample("%v", m)
			}},
			{Name: "equality", N: n(20000, 800000), Run: func(c *Case) {
				m := genOwn(c)
				m2 := m
				if c.P(2, 3) {
					m2 = nearMiss(c, m).wire()
				}
				var n tally
				own := 0
				v := buildOwn(c, m, &n, &own)
				var v2 value.Value
				if c.Bool() {
					v2 = buildOwn(c, m2, &n, &own)
				} else {
					v2, m2 = mk(c, m2, BuildOpt{})
				}
				checkEqual(c, v, m, v2, m2)
				c.DistinctB(append(refEncode(m), refEncode(m2)...))
			}},
			{Name: "lookups", N: n(10000, 400000), Run: func(c *Case) {
				var n tally
				own := 0
				switch c.Intn(3) {
				case 0:
					k := 1 + c.Intn(8)
					var l value.List = value.EmptyList(c.Bool())
					if c.Bool() {
						l = value.EmptySparseList()
					}
					var vs []value.Value
					for i := 0; i < k; i++ {
						v := wrapOwn(buildOwn(c, genOwn(c), &n, &own), &n)
						vs = append(vs, v)
						l = l.Append(v)
					}
					for i, v := range vs {
						c.Check(l.GetAt(i) == v, "GetAt(%d) is another object", i)
						c.Check(l.Values()[i] == v, "Values()[%d] is another object", i)
						c.Check(l.Items()[i].Value() == v, "Items()[%d] is another object", i)
						c.Check(l.Entries()[i].Value() == v, "Entries()[%d] is another object", i)
						checkLookup(c, listLookups(l, i), v, fmt.Sprintf("a list, own element %d", i))
					}
				case 1:
					vs := map[string]value.Value{}
					for k := 1 + c.Intn(8); k > 0; k-- {
						vs[genKey(c.RNG)] = wrapOwn(buildOwn(c, genOwn(c), &n, &own), &n)
					}
					m := value.SortedMapOf(vs)
					if c.Bool() {
						m = value.ImmutableMapOf(vs)
					}
					for k, v := range vs {
						c.Check(m.Get(k) == v, "Get(%.40q) is another object", k)
						c.Check(m.HashMap()[k] == v, "HashMap()[%.40q] is another object", k)
						checkLookup(c, mapLookups(m, k), v, fmt.Sprintf("a map, own element %.40q", k))
					}
				default:
					// a collection of our own in a lookup for the other kind
					m := genOwn(c)
					x := wrapOwn(buildOwn(c, m, &n, &own), &n)
					l := value.Single(x)
					if c.Bool() {
						l = value.ImmutableList([]value.Value{x})
					}
					checkLookup(c, listLookups(l, 0), x, "a single own element")
				}
				c.Count("own-lookups", 1)
				c.Distinct(c.U64())
			}},
			{Name: "operations", N: n(6000, 250000), Run: ownOperations},
			{Name: "items", N: n(8000, 300000), Run: ownItems},
			{Name: "numbers", N: n(15000, 600000), Run: func(c *Case) {
				// arithmetic and comparison with numbers of our own
				x, _ := mk(c, genNum(c), BuildOpt{Plain: true})
				y, my := mk(c, genNum(c), BuildOpt{Plain: true})
				a, b := x.(value.Number), y.(value.Number)
				o := &ownNumber{b, new(tally)}
				c.Note("%v and our own %v", project(a), my)
				for _, op := range []struct {
					name string
					f    func(o value.Number) value.Number
				}{{"Add", a.Add}, {"Subtract", a.Subtract}} {
					c.same(project(op.f(o)), project(op.f(b)), "%s", op.name)
				}
				c.Check(a.Equal(o) == a.Equal(b), "Equal with our own is %v, with the plain one %v", a.Equal(o), a.Equal(b))
				c.Check(value.Equal(o, a) == value.Equal(b, a), "our own against a number: %v, the plain one: %v", value.Equal(o, a), value.Equal(b, a))
				c.Count("own-numbers", 1)
				c.DistinctB(refEncode(mList(project(a), my)))
			}},
			{Name: "structs", N: n(4000, 150000), Run: func(c *Case) {
				var n tally
				own := 0
				type S struct {
					A value.Value   `tag:"1"`
					L value.List    `tag:"2"`
					M value.Map     `tag:"3"`
					N value.Number  `tag:"4"`
					S value.String  `tag:"5"`
					V []value.Value `tag:"6"`
				}
				ml := &MV{K: KList, L: []*MV{genOwn(c), genOwn(c)}}
				mm := &MV{K: KMap, E: []MEnt{{"a", genOwn(c)}, {"b", genOwn(c)}}}
				ma, mv := genOwn(c), genOwn(c)
				if emptySparse(ml) || emptySparse(mm) || emptySparse(ma) || emptySparse(mv) {
					return
				}
				s := &S{
					A: buildOwn(c, ma, &n, &own),
					L: wrapOwn(buildOwn(c, ml, &n, &own), &n).(value.List),
					M: wrapOwn(buildOwn(c, mm, &n, &own), &n).(value.Map),
					N: &ownNumber{value.Long(77), &n},
					S: &ownString{value.Utf8("text"), &n},
					V: []value.Value{buildOwn(c, mv, &n, &own)},
				}
				own += 4
				n = tally{}
				b, err := value.PackStruct(s)
				c.Check(err == nil, "PackStruct: %v", err)
				c.Check(n.packs == own, "packing the struct asks %d of %d values of our own", n.packs, own)
				want := &MV{K: KSparse, P: []MItem{{1, ma}, {2, ml}, {3, mm}, {4, mLong(77)}, {5, mStr("text")}, {6, mList(mv)}}}
				c.sameBytes(b, refEncode(want), "the packed struct")
				var t S
				err = value.UnpackStruct(b, &t, c.Bool())
				c.Check(err == nil, "UnpackStruct: %v", err)
				c.same(project(t.A), ma, "field A")
				c.same(project(t.L), ml, "field L")
				c.same(project(t.M), mm, "field M")
				c.same(project(t.V[0]), mv, "field V")
				c.Count("own-structs", 1)
				c.DistinctB(b)
			}},
			{Name: "streams", N: n(1500, 60000), Run: func(c *Case) {
				var n tally
				own := 0
				ch := make(chan value.Value, 20)
				var want []byte
				var ms []*MV
				for k := 1 + c.Intn(15); k > 0; k-- {
					m := genOwn(c)
					if emptySparse(m) {
						continue
					}
					ch <- wrapOwn(buildOwn(c, m, &n, &own), &n)
					want = append(want, refEncode(m)...)
					ms = append(ms, m)
				}
				close(ch)
				var w bytes.Buffer
				err := value.WriteStream(&w, ch)
				c.Check(err == nil, "WriteStream: %v", err)
				c.sameBytes(w.Bytes(), want, "the stream")
				out := make(chan value.Value, 20)
				err = value.ReadStream(&w, out)
				c.Check(err == io.EOF, "ReadStream: %v", err)
				for i := range ms {
					c.same(project(<-out), ms[i], "value %d of the stream", i)
				}
				c.DistinctB(want)
			}},
		},
	})
}

// ownOperations runs a history on a list or a map and follows the objects.
func ownOperations(c *Case) {
	var n tally
	own := 0
	obj := func() value.Value { return wrapOwn(buildOwn(c, genOwn(c), &n, &own), &n) }
	switch c.Intn(2) {
	case 0:
		imm := c.Bool()
		l := value.EmptyList(imm)
		var ref []value.Value
		for k := 3 + c.Intn(25); k > 0; k-- {
			v := obj()
			i := c.Intn(len(ref) + 2)
			switch c.Intn(6) {
			case 0:
				l, ref = l.Append(v), append(ref, v)
			case 1:
				if i > len(ref) {
					continue
				}
				l = l.PutAt(i, v)
				if i == len(ref) {
					ref = append(ref, v)
				} else {
					ref[i] = v
				}
			case 2:
				l = l.InsertAt(i, v)
				if i > len(ref) {
					i = len(ref)
				}
				ref = append(ref[:i:i], append([]value.Value{v}, ref[i:]...)...)
			case 3:
				l = l.RemoveAt(i)
				if i < len(ref) {
					ref = append(ref[:i:i], ref[i+1:]...)
				}
			case 4:
				vs := []value.Value{v, obj()}
				l = l.InsertAll(i, vs)
				if i > len(ref) {
					i = len(ref)
				}
				ref = append(ref[:i:i], append(append([]value.Value{}, vs...), ref[i:]...)...)
			case 5:
				ok := l.UpdateAt(i, updaterFunc(func(old value.Value) value.Value {
					c.Check(old == ref[i], "the updater of index %d sees another object", i)
					return v
				}))
				c.Check(ok == (!imm && i < len(ref)), "UpdateAt(%d) of %d: %v", i, len(ref), ok)
				if ok {
					ref[i] = v
				}
			}
			c.Check(l.Len() == len(ref), "length %d, expected %d", l.Len(), len(ref))
			for i, e := range ref {
				c.Check(l.GetAt(i) == e, "index %d holds another object", i)
			}
		}
	default:
		m := value.EmptyMap(c.Bool())
		ref := map[string]value.Value{}
		for k := 3 + c.Intn(25); k > 0; k-- {
			v := obj()
			key := string(rune('a' + c.Intn(8)))
			switch c.Intn(3) {
			case 0:
				m, ref[key] = m.Put(key, v), v
			case 1:
				m = m.Remove(key)
				delete(ref, key)
			case 2:
				if _, ok := ref[key]; !ok {
					m, ref[key] = m.Insert(key, v), v
				}
			}
			c.Check(m.Len() == len(ref), "length %d, expected %d", m.Len(), len(ref))
			keys := make([]string, 0, len(ref))
			for key, e := range ref {
				c.Check(m.Get(key) == e, "key %q holds another object", key)
				sel := m.Select(key)
				c.Check(len(sel) == 1 && sel[0] == e, "Select(%q): %d objects", key, len(sel))
				keys = append(keys, key)
			}
			sort.Strings(keys)
			c.Check(reflect.DeepEqual(append([]string{}, m.Keys()...), keys), "keys %v, expected %v", m.Keys(), keys)
		}
	}
	c.Count("own-ops", 1)
	c.Distinct(c.U64())
}

type updaterFunc func(value.Value) value.Value

func (f updaterFunc) Update(old value.Value) value.Value { return f(old) }

// ownItems hands over items and entries of our own, sorted or not.
func ownItems(c *Case) {
	k := 1 + c.Intn(12)
	if c.P(1, 40) {
		k = 20 + c.Intn(20<<uint(c.Intn(6)))
	}
	sorted := c.Bool()
	if c.Bool() {
		keys := map[int]bool{}
		var items []value.ListItem
		for len(items) < k {
			key := c.Intn(60+3*k) - 10
			if keys[key] {
				continue
			}
			keys[key] = true
			items = append(items, &ownItem{key, value.Long(int64(key))})
		}
		if sorted {
			sort.Slice(items, func(i, j int) bool { return items[i].Key() < items[j].Key() })
		}
		at := map[int]value.ListItem{}
		for _, it := range items {
			at[it.Key()] = it
		}
		l := value.SparseList(append([]value.ListItem{}, items...), sorted)
		got := l.Items()
		c.Check(len(got) == k, "%d items, expected %d", len(got), k)
		for i, it := range got {
			c.Check(i == 0 || got[i-1].Key() < it.Key(), "items out of order")
			c.Check(it == at[it.Key()], "item %d is another object", it.Key())
		}
		key := items[c.Intn(k)].Key()
		seen := 0
		nv := value.Utf8("new")
		c.Check(l.UpdateAt(key, updaterFunc(func(old value.Value) value.Value {
			seen++
			c.Check(value.Equal(old, value.Long(int64(key))), "the updater sees %v at %d", old, key)
			return nv
		})), "UpdateAt(%d) of an item of our own is refused", key)
		c.Check(seen == 1 && at[key].Value() == value.Value(nv) && l.GetAt(key) == value.Value(nv), "the update of an item of our own is lost")
		gone := l.RemoveAt(key)
		c.Check(len(gone.Items()) == k-1 && gone.GetAt(key) == value.Null, "RemoveAt(%d) leaves it", key)
	} else {
		var ents []value.MapEntry
		at := map[string]value.MapEntry{}
		for len(ents) < k {
			key := genKey(c.RNG)
			if at[key] != nil {
				continue
			}
			e := &ownEntry{key, value.Utf8(key)}
			at[key] = e
			ents = append(ents, e)
		}
		if sorted {
			sort.Slice(ents, func(i, j int) bool { return ents[i].Key() < ents[j].Key() })
		}
		src := value.SortedMap(append([]value.MapEntry{}, ents...), sorted)
		imm := value.ImmutableMap(append([]value.MapEntry{}, ents...), sorted)
		cp, icp := value.SortedMapCopyOf(src), value.ImmutableMapCopyOf(src)
		for _, m := range []value.Map{src, imm} {
			got := m.Entries()
			c.Check(len(got) == k, "%d entries, expected %d", len(got), k)
			for i, e := range got {
				c.Check(i == 0 || got[i-1].Key() < e.Key(), "entries out of order")
				c.Check(e == at[e.Key()], "entry %.40q is another object", e.Key())
			}
		}
		key := ents[c.Intn(k)].Key()
		nv := value.Long(1)
		c.Check(!imm.Update(key, updaterFunc(func(value.Value) value.Value { c.Failf("an immutable map updates"); return nil })), "an immutable map updates")
		c.Check(src.Update(key, updaterFunc(func(old value.Value) value.Value {
			c.Check(value.Equal(old, value.Utf8(key)), "the updater sees %v", old)
			return nv
		})), "Update of an entry of our own is refused")
		c.Check(src.Get(key) == value.Value(nv), "the update of an entry of our own is lost")
		c.Check(value.Equal(cp.Get(key), value.Utf8(key)), "a copy follows the update of an entry of our own")
		c.Check(value.Equal(icp.Get(key), value.Utf8(key)), "an immutable copy follows the update of an entry of our own")
	}
	c.Count("own-items", 1)
	c.Distinct(c.U64())
}
