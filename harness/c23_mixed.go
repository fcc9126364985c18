package main

import (
	"fmt"
	"sort"

	"github.com/codeallergy/value"
)

// mixed is a collection around entries that can and that cannot be updated;
// what an operation adds always can.
type mixedEnt struct {
	key string
	n   int64
	mut bool
}

type mixed struct {
	sparse bool
	m      value.Map
	l      value.List
	e      []mixedEnt
}

func (x *mixed) num(key string) int {
	return int(key[0]) - 'a'
}

func (x *mixed) at(key string) (i, j int) {
	i = sort.Search(len(x.e), func(i int) bool { return x.e[i].key >= key })
	for j = i; j < len(x.e) && x.e[j].key == key; j++ {
	}
	return
}

func (x *mixed) insert(i int, add ...mixedEnt) {
	x.e = append(append(append([]mixedEnt{}, x.e[:i]...), add...), x.e[i:]...)
}

func (x *mixed) value() value.Value {
	if x.sparse {
		return x.l
	}
	return x.m
}

func (x *mixed) model() *MV {
	r := &MV{K: KMap}
	if x.sparse {
		r.K = KSparse
	}
	for _, e := range x.e {
		if x.sparse {
			r.P = append(r.P, MItem{x.num(e.key), mLong(e.n)})
		} else {
			r.E = append(r.E, MEnt{e.key, mLong(e.n)})
		}
	}
	return r
}

type countUpdater struct {
	old []value.Value
	ret value.Value
}

func (u *countUpdater) Update(old value.Value) value.Value {
	u.old = append(u.old, old)
	return u.ret
}

func mixedSection(c *Case) {
	x := &mixed{sparse: c.Bool()}
	var uniq int64
	next := func() int64 { uniq++; return uniq }
	for k := 0; k < 12; k++ {
		for c.P(1, 3) {
			x.e = append(x.e, mixedEnt{string(rune('a' + k)), next(), c.Bool()})
		}
	}
	if x.sparse {
		var items []value.ListItem
		for _, e := range x.e {
			items = append(items, mkItem(e.mut, x.num(e.key), value.Long(e.n)))
		}
		x.l = value.SparseList(items, true)
	} else {
		var ents []value.MapEntry
		for _, e := range x.e {
			ents = append(ents, mkEntry(!e.mut, e.key, value.Long(e.n)))
		}
		x.m = value.SortedMap(ents, true)
	}
	log := fmt.Sprintf("%v", x.e)
	for step := 0; step < 14; step++ {
		key := string(rune('a' + c.Intn(13)))
		if len(x.e) > 0 && c.P(2, 3) {
			key = x.e[c.Intn(len(x.e))].key
		}
		i, j := x.at(key)
		op := c.Intn(9)
		switch op {
		case 0:
			n := next()
			log += fmt.Sprintf(" Put(%s,%d)", key, n)
			if x.sparse {
				x.l = x.l.PutAt(x.num(key), value.Long(n))
			} else {
				x.m = x.m.Put(key, value.Long(n))
			}
			if i < j {
				x.e = append([]mixedEnt{}, x.e...)
				x.e[i] = mixedEnt{key, n, true}
			} else {
				x.insert(i, mixedEnt{key, n, true})
			}
		case 1:
			n := next()
			log += fmt.Sprintf(" Insert(%s,%d)", key, n)
			if x.sparse {
				x.l = x.l.InsertAt(x.num(key), value.Long(n))
			} else {
				x.m = x.m.Insert(key, value.Long(n))
			}
			x.insert(i, mixedEnt{key, n, true})
		case 2:
			var vals []value.Value
			var add []mixedEnt
			for k := c.Intn(7); k > 0; k-- {
				n := next()
				vals, add = append(vals, value.Long(n)), append(add, mixedEnt{key, n, true})
			}
			log += fmt.Sprintf(" InsertAll(%s,%d)", key, len(vals))
			if x.sparse {
				x.l = x.l.InsertAll(x.num(key), vals)
			} else {
				x.m = x.m.InsertAll(key, vals)
			}
			x.insert(i, add...)
		case 3:
			log += fmt.Sprintf(" Remove(%s)", key)
			if x.sparse {
				x.l = x.l.RemoveAt(x.num(key))
			} else {
				x.m = x.m.Remove(key)
			}
			if i < j {
				x.e = append(append([]mixedEnt{}, x.e[:i]...), x.e[i+1:]...)
			}
		case 4:
			log += fmt.Sprintf(" DeleteAll(%s)", key)
			if x.sparse {
				x.l = x.l.DeleteAll(x.num(key))
			} else {
				x.m = x.m.DeleteAll(key)
			}
			x.e = append(append([]mixedEnt{}, x.e[:i]...), x.e[j:]...)
		default:
			n := next()
			u := &countUpdater{ret: value.Long(n)}
			pos := i
			var ok bool
			if op == 5 && len(x.e) > 0 { // through the entry itself
				pos = c.Intn(len(x.e))
				log += fmt.Sprintf(" Entry[%d].Update(%d)", pos, n)
				if x.sparse {
					ok = x.l.Items()[pos].Update(u)
				} else {
					ok = x.m.Entries()[pos].Update(u)
				}
				j = pos + 1
			} else {
				log += fmt.Sprintf(" Update(%s,%d)", key, n)
				if x.sparse {
					ok = x.l.UpdateAt(x.num(key), u)
				} else {
					ok = x.m.Update(key, u)
				}
			}
			c.Note("%s", log)
			want := pos < j && x.e[pos].mut
			c.Check(ok == want, "returns %v, expected %v", ok, want)
			if want {
				c.Check(len(u.old) == 1, "the updater was called %d times", len(u.old))
				c.same(project(u.old[0]), mLong(x.e[pos].n), "the old value given to the updater")
				x.e = append([]mixedEnt{}, x.e...)
				x.e[pos].n = n
				c.Count("replaced", 1)
			} else {
				c.Count("refused", 1)
			}
			c.Count("updates", 1)
		}
		c.Note("%s", log)
		c.same(project(x.value()), x.model(), "the content")
	}
	c.Distinct(fnv64(log))
}

func init() {
	addSection("C23", Section{Name: "mixed-entries", N: n(15000, 600000), Run: mixedSection})
}
