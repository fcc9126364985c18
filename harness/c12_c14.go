package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
)

// argVal makes an argument for an updating operation: mostly unique numbers, so
// that a misplaced element is seen.
func argVal(c *Case, uniq *int64) (value.Value, *MV) {
	switch c.Intn(12) {
	case 0:
		return nil, mNull // nil arguments are stored as null
	case 1:
		return value.Null, mNull
	case 2:
		v, m := mk(c, gen(c.RNG, GenOpt{Depth: 2, Budget: 5, MaxStr: 12, NoHoles: true}), BuildOpt{Plain: true})
		return v, m
	}
	*uniq++
	return value.Long(*uniq), mLong(*uniq)
}

// likeMV is a value that Equal cannot or can hardly tell from m, but not m.
func likeMV(c *Case, m *MV) *MV {
	switch m.K {
	case KNil:
		return mNull
	case KLong:
		switch c.Intn(4) {
		case 0:
			return mDouble(float64(m.I))
		case 1:
			return mDouble(float64(m.I) + 4e-6)
		case 2:
			return mBig(big.NewInt(m.I))
		}
		return mDec(big.NewInt(m.I), 0)
	case KDouble:
		f := math.Float64frombits(m.F)
		switch {
		case f == 0:
			return mDouble(math.Copysign(0, -1))
		case f == math.Trunc(f) && math.Abs(f) < 1e9 && c.Bool():
			return mLong(int64(f))
		case math.Abs(f) < 100:
			return mDouble(f + 5e-6)
		}
		return mDouble(f)
	case KDec:
		return mDec(new(big.Int).Mul(m.Big, big.NewInt(10)), m.Exp-1)
	case KBig:
		return mDec(m.Big, 0)
	case KStr:
		return mRaw(m.S)
	case KRaw:
		return mStr(m.S)
	case KList:
		if len(m.L) == 0 {
			return m
		}
		if c.Bool() {
			x := &MV{K: KSparse}
			for i, e := range m.L {
				x.P = append(x.P, MItem{i, e})
			}
			return x
		}
		x := cloneMV(m)
		i := c.Intn(len(x.L))
		x.L[i] = likeMV(c, x.L[i])
		return x
	case KMap:
		if len(m.E) == 0 {
			return m
		}
		x := cloneMV(m)
		i := c.Intn(len(x.E))
		x.E[i].V = likeMV(c, x.E[i].V)
		return x
	}
	return nearMiss(c, m)
}

// putVal is the argument of an operation that replaces old, often by something
// that is equal to it and yet another value.
func putVal(c *Case, old *MV, uniq *int64) (value.Value, *MV) {
	if old == nil || !c.P(1, 4) {
		return argVal(c, uniq)
	}
	c.Count("replaced-by-alike", 1)
	v, m := mk(c, likeMV(c, old), BuildOpt{Plain: true})
	if m.K == KNil {
		m = mNull
	}
	return v, m
}

func argSlice(c *Case, uniq *int64) ([]value.Value, []*MV) {
	k := c.Intn(5)
	if c.P(1, 12) {
		k = 10 + c.Intn(30)
	}
	vs := make([]value.Value, k, k+c.Intn(4))
	ms := make([]*MV, k)
	for i := range vs {
		vs[i], ms[i] = argVal(c, uniq)
	}
	return vs, ms
}

// ------------------------------------------------------------------ C12

type seqModel []*MV

func (s seqModel) mv() *MV { return &MV{K: KList, L: s} }

// oneOf: the single value found at a place, or nothing for an absent or null one.
func selectOK(c *Case, got []value.Value, want *MV, what string) {
	if want.K == KNil || want.K == KNull {
		c.Check(len(got) <= 1, "%s returns %d values", what, len(got))
		if len(got) == 1 {
			g := project(got[0])
			c.Check(g.K == KNil || g.K == KNull, "%s returns %v for an absent or null element", what, g)
		}
		return
	}
	c.Check(len(got) == 1, "%s returns %d values, expected the one element %v", what, len(got), want)
	c.same(project(got[0]), want, "%s", what)
}

func checkSeq(c *Case, l value.List, s seqModel, full bool, what string) {
	c.Check(l != nil, "%s: the list is nil", what)
	k := len(s)
	c.Check(l.Kind() == value.LIST, "%s: kind %v", what, l.Kind())
	c.Check(l.Len() == k, "%s: Len is %d, expected %d", what, l.Len(), k)
	vals := l.Values()
	c.Check(len(vals) == k, "%s: Values has %d elements, expected %d", what, len(vals), k)
	items := l.Items()
	c.Check(len(items) == k, "%s: Items has %d elements, expected %d", what, len(items), k)
	ents := l.Entries()
	c.Check(len(ents) == k, "%s: Entries has %d elements, expected %d", what, len(ents), k)
	for i, m := range s {
		if !full && k > 64 && i%13 != c.Index%13 && i != 0 && i < k-3 {
			if !plainLong(vals[i], m) {
				c.same(project(vals[i]), m, "%s: Values()[%d]", what, i)
			}
			continue
		}
		c.same(project(vals[i]), m, "%s: Values()[%d]", what, i)
		c.same(project(l.GetAt(i)), m, "%s: GetAt(%d)", what, i)
		c.Check(items[i].Key() == i, "%s: Items()[%d] has key %d", what, i, items[i].Key())
		c.same(project(items[i].Value()), m, "%s: Items()[%d]", what, i)
		c.Check(ents[i].Key() == strconv.Itoa(i), "%s: Entries()[%d] has key %q", what, i, ents[i].Key())
		c.same(project(ents[i].Value()), m, "%s: Entries()[%d]", what, i)
		selectOK(c, l.Select(i), m, fmt.Sprintf("%s: Select(%d)", what, i))
	}
	for _, i := range []int{-1, -2, -1 << 62, k, k + 1, k + 100, 1<<62 - 1, 1<<63 - 1, -1 << 63} {
		g := l.GetAt(i)
		c.Check(g != nil && g.Kind() == value.NULL, "%s: GetAt(%d) of a list of %d is %v, not null", what, i, k, g)
		c.Check(len(l.Select(i)) == 0, "%s: Select(%d) of a list of %d finds something", what, i, k)
	}
	c.Count("checks", 1)
}

// plainLong: the common case of a long where it belongs, without projecting.
func plainLong(v value.Value, m *MV) bool {
	if m.K != KLong || v == nil || v.Kind() != value.NUMBER {
		return false
	}
	x := v.(value.Number)
	return x.Type() == value.LONG && x.Long() == m.I
}

var histSizes = []int{100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 600, 800, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000}

// bigSeq: a few operations on lists beyond the sizes where an implementation
// may change its ways.
func bigSeq(c *Case) {
	imm := c.Bool()
	k := histSizes[c.Index%len(histSizes)]
	var uniq int64
	s := make(seqModel, k)
	vals := make([]value.Value, k, k+c.Intn(3))
	for i := range s {
		uniq++
		vals[i], s[i] = value.Long(uniq), mLong(uniq)
	}
	var l value.List
	switch c.Intn(5) {
	case 4:
		v, err := value.Unpack(refEncode(&MV{K: KList, L: s}), c.Bool())
		c.Check(err == nil, "Unpack: %v", err)
		l = v.(value.List)
		if !imm {
			l = value.MutableList(l.Values())
		}
	case 0:
		l = emptyListOf(imm, c.RNG).InsertAll(0, vals)
	case 1:
		l = emptyListOf(imm, c.RNG)
		for _, v := range vals {
			l = l.Append(v)
		}
	default:
		l = listCtor(imm, vals, c.RNG)
	}
	log := []string{fmt.Sprintf("immutable=%v start with the longs 1 to %d", imm, k)}
	checkSeq(c, l, s, false, "start")
	for i := 0; i < 10; i++ {
		n := len(s)
		at := seqIndex(c, n)
		if c.P(1, 4) {
			at = histSizes[c.Intn(len(histSizes))] - 1 + c.Intn(3)
		}
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		switch c.Intn(7) {
		case 0:
			v, m := argVal(c, &uniq)
			say("Append(%v)", m)
			l, s = l.Append(v), insertMV(s, n, m)
		case 1:
			if at < 0 {
				at = 0
			}
			v, m := argVal(c, &uniq)
			say("PutAt(%d,%v)", at, m)
			l = l.PutAt(at, v)
			s = append(seqModel{}, s...)
			for len(s) <= at {
				s = append(s, mNil)
			}
			s[at] = m
		case 2:
			if at < 0 {
				at = 0
			}
			v, m := argVal(c, &uniq)
			say("InsertAt(%d,%v)", at, m)
			l, s = l.InsertAt(at, v), insertMV(s, min(at, n), m)
		case 3:
			if at < 0 {
				at = 0
			}
			j := []int{1, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 600, 1025}[c.Intn(13)]
			vs, ms := make([]value.Value, j), make([]*MV, j)
			for x := range vs {
				uniq++
				vs[x], ms[x] = value.Long(uniq), mLong(uniq)
			}
			say("InsertAll(%d, %d longs from %d)", at, j, uniq-int64(j)+1)
			l, s = l.InsertAll(at, vs), insertMV(s, min(at, n), ms...)
		case 4:
			say("DeleteAll(%d)", at)
			l = l.DeleteAll(at)
			if at >= 0 && at < n {
				s = append(append(seqModel{}, s[:at]...), s[at+1:]...)
			}
		default:
			say("RemoveAt(%d)", at)
			l = l.RemoveAt(at)
			if at >= 0 && at < n {
				s = append(append(seqModel{}, s[:at]...), s[at+1:]...)
			}
		}
		c.Note("%s (length before %d)", logTail(log), n)
		checkSeq(c, l, s, false, "after "+log[len(log)-1])
		c.Count("big-ops", 1)
	}
	checkSeq(c, l, s, true, "at the end")
	c.sameBytes(mustPack(c, l), refEncode(s.mv()), "packed list at the end")
	c.Distinct(fnv64(fmt.Sprint(log)))
}

func bigSparse(c *Case, keepOld bool) {
	k := histSizes[c.Index%len(histSizes)]
	var uniq int64
	var p []MItem
	step := 1 + c.Intn(3)
	dups := c.Intn(3) // none, pairs, one long run
	at := -c.Intn(40)
	for i := 0; i < k; i++ {
		uniq++
		p = append(p, MItem{at, mLong(uniq)})
		if !(dups == 1 && c.Bool() || dups == 2 && i > k/3 && i < 2*k/3) {
			at += step
		}
	}
	items := make([]value.ListItem, k, k+c.Intn(3))
	for i, e := range p {
		items[i] = mkItem(true, e.K, value.Long(e.V.I))
	}
	l := value.SparseList(items, true)
	if c.Bool() {
		l = value.EmptySparseList()
		if dups == 0 {
			for _, e := range p {
				l = l.PutAt(e.K, value.Long(e.V.I))
			}
		} else {
			for i := len(p) - 1; i >= 0; i-- {
				l = l.InsertAt(p[i].K, value.Long(p[i].V.I))
			}
		}
	}
	if c.P(1, 4) {
		v, got := decodeShuffled(c, &MV{K: KSparse, P: p})
		l, p = v.(value.List), got.P
	}
	log := []string{fmt.Sprintf("start with %d items, keys from %d to %d, step %d, duplicates %d", k, p[0].K, p[k-1].K, step, dups)}
	checkSparse(c, l, p, "start")
	old, oldP := l, p
	for i := 0; i < 8; i++ {
		n := len(p)
		key := p[c.Intn(n)].K + c.Intn(3) - 1
		switch c.Intn(6) {
		case 0:
			key = p[n-1].K + c.Intn(3)
		case 1:
			key = p[0].K - c.Intn(3)
		case 2:
			key = p[n/2].K
		}
		x := lowerP(p, key)
		j := x
		for j < n && p[j].K == key {
			j++
		}
		v, m := argVal(c, &uniq)
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		switch c.Intn(6) {
		case 0:
			say("Append(%v)", m)
			l, p = l.Append(v), insP(p, n, MItem{p[n-1].K + 1, m})
		case 1:
			say("PutAt(%d,%v)", key, m)
			l = l.PutAt(key, v)
			if j > x {
				p = append([]MItem{}, p...)
				p[x] = MItem{key, m}
			} else {
				p = insP(p, x, MItem{key, m})
			}
		case 2:
			say("InsertAt(%d,%v)", key, m)
			l, p = l.InsertAt(key, v), insP(p, x, MItem{key, m})
		case 3:
			q := []int{1, 16, 64, 257, 600}[c.Intn(5)]
			vs, e := make([]value.Value, q), make([]MItem, q)
			for y := range vs {
				uniq++
				vs[y], e[y] = value.Long(uniq), MItem{key, mLong(uniq)}
			}
			say("InsertAll(%d, %d longs from %d)", key, q, uniq-int64(q)+1)
			l, p = l.InsertAll(key, vs), insP(p, x, e...)
		case 4:
			if j-x > n-3 {
				continue
			}
			say("DeleteAll(%d)", key)
			l, p = l.DeleteAll(key), append(append([]MItem{}, p[:x]...), p[j:]...)
		default:
			say("RemoveAt(%d)", key)
			l = l.RemoveAt(key)
			if j > x {
				p = append(append([]MItem{}, p[:x]...), p[x+1:]...)
			}
		}
		c.Note("%s (%d items before)", logTail(log), n)
		checkSparse(c, l, p, "after "+log[len(log)-1])
		if keepOld {
			checkSparse(c, old, oldP, "an older list after "+log[len(log)-1])
			if c.Bool() {
				old, oldP = l, p
			}
		}
		c.Count("big-ops", 1)
	}
	c.sameBytes(mustPack(c, l), refEncode(&MV{K: KSparse, P: p}), "packed sparse list at the end")
	c.Distinct(fnv64(fmt.Sprint(log)))
}

func bigMap(c *Case) {
	imm := c.Bool()
	k := histSizes[c.Index%len(histSizes)]
	var uniq int64
	var e []MEnt
	dups := c.Intn(3)
	form := []string{"%05d", "key-%04d", "%d", "\xff%x"}[c.Intn(4)]
	at := 0
	for i := 0; i < k; i++ {
		uniq++
		e = append(e, MEnt{fmt.Sprintf(form, at), mLong(uniq)})
		if !(dups == 1 && c.Bool() || dups == 2 && i > k/3 && i < 2*k/3) {
			at++
		}
	}
	sortEnts(e)
	var mp value.Map
	switch {
	case c.P(1, 3):
		mp = emptyMapOf(imm, c.RNG)
		for i := len(e) - 1; i >= 0; i-- {
			mp = mp.Insert(e[i].K, value.Long(e[i].V.I))
		}
	case dups == 0 && c.Bool():
		mp = emptyMapOf(imm, c.RNG)
		for _, i := range c.Perm(k) {
			mp = mp.Put(e[i].K, value.Long(e[i].V.I))
		}
	default:
		ents := make([]value.MapEntry, k)
		for i, x := range e {
			ents[i] = mkEntry(imm, x.K, value.Long(x.V.I))
		}
		mp = mapCtor(imm, ents, true)
	}
	if c.P(1, 4) {
		v, got := decodeShuffled(c, &MV{K: KMap, E: e})
		if !imm {
			v = value.SortedMapCopyOf(v.(value.Map))
		}
		mp, e = v.(value.Map), got.E
	}
	log := []string{fmt.Sprintf("immutable=%v start with %d entries like %q, duplicates %d", imm, k, e[0].K, dups)}
	c.Note("%s", log[0])
	checkMap(c, mp, e, "start")
	for i := 0; i < 8; i++ {
		n := len(e)
		if n == 0 {
			break
		}
		key := e[c.Intn(n)].K
		switch c.Intn(8) {
		case 0:
			key = e[n-1].K
		case 1:
			key = e[0].K
		case 2:
			key = e[n/2].K
		case 3:
			key += "x"
		case 4:
			key = key[:len(key)-1]
		case 5:
			key = e[n-1].K + "z"
		}
		x := lowerE(e, key)
		j := x
		for j < n && e[j].K == key {
			j++
		}
		v, m := argVal(c, &uniq)
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		switch c.Intn(6) {
		case 0, 1:
			say("Put(%q,%v)", key, m)
			mp = mp.Put(key, v)
			if j > x {
				e = append([]MEnt{}, e...)
				e[x] = MEnt{key, m}
			} else {
				e = insE(e, x, MEnt{key, m})
			}
		case 2:
			say("Insert(%q,%v)", key, m)
			mp, e = mp.Insert(key, v), insE(e, x, MEnt{key, m})
		case 3:
			q := []int{1, 16, 64, 257, 600}[c.Intn(5)]
			vs, ms := make([]value.Value, q), make([]MEnt, q)
			for y := range vs {
				uniq++
				vs[y], ms[y] = value.Long(uniq), MEnt{key, mLong(uniq)}
			}
			say("InsertAll(%q, %d longs from %d)", key, q, uniq-int64(q)+1)
			mp, e = mp.InsertAll(key, vs), insE(e, x, ms...)
		case 4:
			say("DeleteAll(%q)", key)
			mp, e = mp.DeleteAll(key), append(append([]MEnt{}, e[:x]...), e[j:]...)
		default:
			say("Remove(%q)", key)
			mp = mp.Remove(key)
			if j > x {
				e = append(append([]MEnt{}, e[:x]...), e[x+1:]...)
			}
		}
		c.Note("%s (%d entries before)", logTail(log), n)
		checkMap(c, mp, e, "after "+log[len(log)-1])
		c.Count("big-ops", 1)
	}
	c.sameBytes(mustPack(c, mp), refEncode(&MV{K: KMap, E: e}), "packed map at the end")
	c.Distinct(fnv64(fmt.Sprint(log)))
}

func startSeq(c *Case, imm bool, uniq *int64) (value.List, seqModel) {
	k := c.Intn(6)
	if c.P(1, 6) {
		k = []int{13, 16, 17, 31, 32, 33, 63, 64, 65, 100}[c.Intn(10)]
	}
	m := &MV{K: KList}
	for i := 0; i < k; i++ {
		*uniq++
		m.L = append(m.L, mLong(*uniq))
		if c.P(1, 10) {
			m.L[i] = mNull
		}
	}
	if imm && c.P(1, 3) { // decoded lists are immutable lists
		v, err := value.Unpack(refEncode(m), c.Bool())
		c.Check(err == nil, "Unpack: %v", err)
		return v.(value.List), append(seqModel{}, m.L...)
	}
	vals := make([]value.Value, k, k+c.Intn(5))
	for i := range m.L {
		vals[i] = build(m.L[i], c.RNG, BuildOpt{})
	}
	if c.Bool() {
		v, m2 := mk(c, m, BuildOpt{Immutable: imm})
		if imm || v.Class() != value.EmptyImmutableList().Class() {
			return v.(value.List), append(seqModel{}, m2.L...)
		}
	}
	if imm {
		return value.ImmutableList(vals), append(seqModel{}, m.L...)
	}
	return value.MutableList(vals), append(seqModel{}, m.L...)
}

func insertMV(s []*MV, i int, e ...*MV) []*MV {
	r := make([]*MV, 0, len(s)+len(e))
	r = append(r, s[:i]...)
	r = append(r, e...)
	return append(r, s[i:]...)
}

func seqIndex(c *Case, k int) int {
	switch c.Intn(10) {
	case 0:
		return -1 - c.Intn(3)
	case 1:
		return k
	case 2:
		return k + 1 + c.Intn(4)
	case 3:
		return k - 1
	case 4:
		return k - 2
	case 5:
		return 0
	case 6:
		return 1
	}
	return c.Intn(k + 1)
}

// seqOp applies one random operation to the list and to the model.
func seqOp(c *Case, l value.List, s seqModel, uniq *int64, log *[]string) (value.List, seqModel) {
	k := len(s)
	op := c.Intn(8)
	if k > 120 && op < 5 {
		op = 5 + c.Intn(2)
	}
	say := func(f string, a ...interface{}) { *log = append(*log, fmt.Sprintf(f, a...)) }
	switch op {
	case 0:
		v, m := argVal(c, uniq)
		say("Append(%v)", m)
		return l.Append(v), insertMV(s, k, m)
	case 1, 2:
		i := seqIndex(c, k)
		var old *MV
		if i >= 0 && i < k {
			old = s[i]
		}
		v, m := putVal(c, old, uniq)
		say("PutAt(%d,%v)", i, m)
		r := l.PutAt(i, v)
		if i < 0 {
			return r, s
		}
		s = append(seqModel{}, s...)
		for len(s) <= i {
			s = append(s, mNil)
		}
		s[i] = m
		return r, s
	case 3:
		i := seqIndex(c, k)
		v, m := argVal(c, uniq)
		say("InsertAt(%d,%v)", i, m)
		r := l.InsertAt(i, v)
		if i < 0 {
			return r, s
		}
		if i > k {
			i = k
		}
		return r, insertMV(s, i, m)
	case 4, 7:
		i := seqIndex(c, k)
		vs, ms := argSlice(c, uniq)
		say("InsertAll(%d,%v)", i, ms)
		r := l.InsertAll(i, vs)
		if i < 0 {
			return r, s
		}
		if i > k {
			i = k
		}
		return r, insertMV(s, i, ms...)
	default:
		i := seqIndex(c, k)
		var r value.List
		if c.Bool() {
			say("RemoveAt(%d)", i)
			r = l.RemoveAt(i)
		} else {
			say("DeleteAll(%d)", i)
			r = l.DeleteAll(i)
		}
		if i < 0 || i >= k {
			return r, s
		}
		return r, append(append(seqModel{}, s[:i]...), s[i+1:]...)
	}
}

func logTail(log []string) string {
	if len(log) > 14 {
		log = append([]string{"…"}, log[len(log)-14:]...)
	}
	return strings.Join(log, "; ")
}

func runSeq(c *Case, imm bool, steps int) {
	var uniq int64 = 1000
	l, s := startSeq(c, imm, &uniq)
	log := []string{fmt.Sprintf("immutable=%v start %v", imm, s.mv())}
	c.Note("%s", logTail(log))
	checkSeq(c, l, s, true, "start")
	type ver struct {
		l value.List
		s seqModel
		n int
	}
	olds := []ver{{l, s, 0}}
	branch := imm && c.Bool() // every version of an immutable list is a sequence of its own
	for i := 0; i < steps; i++ {
		if branch && c.P(1, 3) {
			o := olds[c.Intn(len(olds))]
			l, s = o.l, o.s
			log = append(log, fmt.Sprintf("back to version %d", o.n))
		}
		before := len(s)
		l, s = seqOp(c, l, s, &uniq, &log)
		c.Note("%s (length before %d)", logTail(log), before)
		checkSeq(c, l, s, false, "after "+log[len(log)-1])
		c.Count("ops", 1)
		c.Distinct(fnv64(fmt.Sprint(len(s), " ", s.mv())))
		if branch {
			olds = append(olds, ver{l, s, i + 1})
		}
	}
	if branch {
		for i := 0; i < 30 && i < len(olds); i++ {
			o := olds[len(olds)-1-i*len(olds)/min(30, len(olds))]
			checkSeq(c, o.l, o.s, false, fmt.Sprintf("version %d at the end", o.n))
			c.Count("old-versions", 1)
		}
	}
	checkSeq(c, l, s, true, "at the end")
	c.sameBytes(mustPack(c, l), refEncode(s.mv()), "packed list at the end")
}

// ------------------------------------------------------------------ C13

func checkSparse(c *Case, l value.List, p []MItem, what string) {
	k := len(p)
	items := l.Items()
	c.Check(l.Kind() == value.LIST && l.Class() == sparseClass, "%s: kind %v class %v", what, l.Kind(), l.Class())
	c.Check(len(items) == k, "%s: %d items, expected %d: %v versus %v", what, len(items), k, project(l), &MV{K: KSparse, P: p})
	ents := l.Entries()
	c.Check(len(ents) == k, "%s: %d entries, expected %d", what, len(ents), k)
	maxKey := -1
	for i, e := range p {
		c.Check(items[i].Key() == e.K, "%s: item %d has key %d, expected %d", what, i, items[i].Key(), e.K)
		if !plainLong(items[i].Value(), e.V) {
			c.same(project(items[i].Value()), e.V, "%s: item %d (key %d)", what, i, e.K)
		}
		c.Check(ents[i].Key() == strconv.Itoa(e.K), "%s: entry %d has key %q, expected %d", what, i, ents[i].Key(), e.K)
		if !plainLong(ents[i].Value(), e.V) {
			c.same(project(ents[i].Value()), e.V, "%s: entry %d", what, i)
		}
		if e.K > maxKey {
			maxKey = e.K
		}
	}
	c.Check(l.Len() == maxKey+1, "%s: Len is %d, the largest key is %d", what, l.Len(), maxKey)
	probe := map[int]bool{-1: true, 0: true, maxKey + 1: true, -1 << 63: true, 1<<63 - 1: true}
	for i, e := range p {
		if k < 40 || i%(7+k/40) == c.Index%(7+k/40) {
			probe[e.K], probe[e.K+1], probe[e.K-1] = true, true, true
		}
	}
	for key := range probe {
		var group []*MV
		for _, e := range p {
			if e.K == key {
				group = append(group, e.V)
			}
		}
		got := l.GetAt(key)
		if len(group) == 0 {
			c.Check(got != nil && got.Kind() == value.NULL, "%s: GetAt(%d) of an absent key is %v", what, key, got)
		} else {
			c.same(project(got), group[0], "%s: GetAt(%d)", what, key)
		}
		sel := l.Select(key)
		c.Check(len(sel) == len(group), "%s: Select(%d) finds %d values, expected %d", what, key, len(sel), len(group))
		for i := range group {
			c.same(project(sel[i]), group[i], "%s: Select(%d)[%d]", what, key, i)
		}
	}
	if maxKey < 5000 {
		vals := l.Values()
		c.Check(len(vals) == maxKey+1, "%s: Values has %d places, expected %d", what, len(vals), maxKey+1)
		i := 0
		for i < k && p[i].K < 0 {
			i++
		}
		for key := 0; key <= maxKey; key++ {
			var group []*MV
			for i < k && p[i].K == key {
				group = append(group, p[i].V)
				i++
			}
			g := project(vals[key])
			if len(group) == 0 {
				c.Check(g.K == KNil, "%s: Values()[%d] is %v, no item is there", what, key, g)
				continue
			}
			found := false
			for _, m := range group {
				found = found || mdiff(g, m) == ""
			}
			c.evals++
			if !found {
				c.Failf("%s: Values()[%d] is %v, the items there are %v", what, key, g, group)
			}
		}
	}
	c.Count("checks", 1)
}

func lowerP(p []MItem, key int) int {
	i := 0
	for i < len(p) && p[i].K < key {
		i++
	}
	return i
}

func insP(p []MItem, i int, e ...MItem) []MItem {
	r := make([]MItem, 0, len(p)+len(e))
	r = append(r, p[:i]...)
	r = append(r, e...)
	return append(r, p[i:]...)
}

func sparseKey(c *Case, p []MItem) int {
	if c.P(1, 25) { // far away, but with room for appends
		return []int{1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 3, 1 << 53, 1 << 62, -1 << 31, -1<<31 - 1, -1 << 32, -1 << 53, -1 << 62}[c.Intn(11)]
	}
	switch c.Intn(9) {
	case 0:
		return -1 - c.Intn(4)
	case 1:
		return 20 + c.Intn(1000)
	case 2, 3:
		if len(p) > 0 {
			return p[c.Intn(len(p))].K + c.Intn(3) - 1
		}
	case 4:
		if len(p) > 0 {
			return p[len(p)-1].K + c.Intn(2)
		}
	case 5:
		if len(p) > 0 {
			return p[0].K - c.Intn(2)
		}
	case 6:
		if len(p) > 1 {
			return p[len(p)-2].K + c.Intn(2)
		}
	}
	return c.Intn(12)
}

func sparseOp(c *Case, l value.List, p []MItem, uniq *int64, log *[]string) (value.List, []MItem) {
	say := func(f string, a ...interface{}) { *log = append(*log, fmt.Sprintf(f, a...)) }
	key := sparseKey(c, p)
	i := lowerP(p, key)
	has := i < len(p) && p[i].K == key
	op := c.Intn(9)
	if len(p) > 60 && op < 6 {
		op = 6 + c.Intn(3)
	}
	switch op {
	case 0:
		v, m := argVal(c, uniq)
		say("Append(%v)", m)
		at := refFirstIndex
		if len(p) > 0 {
			at = p[len(p)-1].K + 1
		}
		return l.Append(v), insP(p, len(p), MItem{at, m})
	case 1, 2:
		var old *MV
		if has {
			old = p[i].V
		}
		v, m := putVal(c, old, uniq)
		say("PutAt(%d,%v)", key, m)
		r := l.PutAt(key, v)
		if has {
			p = append([]MItem{}, p...)
			p[i] = MItem{key, m}
			return r, p
		}
		return r, insP(p, i, MItem{key, m})
	case 3, 4:
		v, m := argVal(c, uniq)
		say("InsertAt(%d,%v)", key, m)
		return l.InsertAt(key, v), insP(p, i, MItem{key, m})
	case 5:
		vs, ms := argSlice(c, uniq)
		say("InsertAll(%d,%v)", key, ms)
		var e []MItem
		for _, m := range ms {
			e = append(e, MItem{key, m})
		}
		return l.InsertAll(key, vs), insP(p, i, e...)
	case 6:
		say("DeleteAll(%d)", key)
		j := i
		for j < len(p) && p[j].K == key {
			j++
		}
		return l.DeleteAll(key), append(append([]MItem{}, p[:i]...), p[j:]...)
	default:
		say("RemoveAt(%d)", key)
		r := l.RemoveAt(key)
		if !has {
			return r, p
		}
		return r, append(append([]MItem{}, p[:i]...), p[i+1:]...)
	}
}

func startSparse(c *Case, uniq *int64) (value.List, []MItem) {
	m := &MV{K: KSparse}
	k := c.Intn(6)
	if c.P(1, 6) {
		k = 13 + c.Intn(30)
	}
	for i := 0; i < k; i++ {
		*uniq++
		m.P = append(m.P, MItem{sparseKey(c, m.P), mLong(*uniq)})
		sortItems(m.P)
	}
	if k == 0 {
		return value.EmptySparseList(), nil
	}
	switch c.Intn(4) {
	case 0:
		v, got := decodeShuffled(c, m)
		return v.(value.List), got.P
	case 1: // the constructor sorts; duplicates may come in any order
		items := make([]value.ListItem, k)
		for i, j := range c.Perm(k) {
			items[i] = mkItem(c.Bool(), m.P[j].K, value.Long(m.P[j].V.I))
		}
		l := value.SparseList(items, false)
		got := project(l)
		c.same(mnorm(got), mnorm(m), "SparseList of unsorted items")
		return l, got.P
	}
	v, m2 := mk(c, m, BuildOpt{})
	return v.(value.List), m2.P
}

func runSparse(c *Case, steps int, keepOld bool) {
	var uniq int64 = 1000
	l, p := startSparse(c, &uniq)
	log := []string{fmt.Sprintf("start %v", &MV{K: KSparse, P: p})}
	c.Note("%s", logTail(log))
	checkSparse(c, l, p, "start")
	type ver struct {
		l value.List
		p []MItem
		n int
	}
	olds := []ver{{l, p, 0}}
	for i := 0; i < steps; i++ {
		if keepOld && c.P(1, 4) { // continue from an older list
			o := olds[c.Intn(len(olds))]
			l, p = o.l, o.p
			log = append(log, fmt.Sprintf("back to version %d", o.n))
		}
		l, p = sparseOp(c, l, p, &uniq, &log)
		c.Note("%s", logTail(log))
		checkSparse(c, l, p, "after "+log[len(log)-1])
		c.Count("ops", 1)
		c.Distinct(fnv64(fmt.Sprint(&MV{K: KSparse, P: p})))
		if keepOld {
			olds = append(olds, ver{l, p, i + 1})
			o := olds[c.Intn(len(olds))]
			checkSparse(c, o.l, o.p, fmt.Sprintf("version %d, after %s", o.n, log[len(log)-1]))
			c.Count("old-versions", 1)
		}
	}
	for _, o := range olds {
		if keepOld {
			checkSparse(c, o.l, o.p, fmt.Sprintf("version %d at the end", o.n))
		}
	}
	if len(p) > 0 {
		c.sameBytes(mustPack(c, l), refEncode(&MV{K: KSparse, P: p}), "packed sparse list at the end")
	}
}

// ------------------------------------------------------------------ C14

func checkMap(c *Case, mp value.Map, e []MEnt, what string) {
	k := len(e)
	c.Check(mp != nil && mp.Kind() == value.MAP, "%s: no map", what)
	ents := mp.Entries()
	c.Check(len(ents) == k, "%s: %d entries, expected %d: %v versus %v", what, len(ents), k, project(mp), &MV{K: KMap, E: e})
	c.Check(mp.Len() == k, "%s: Len is %d, expected %d", what, mp.Len(), k)
	keys, vals := mp.Keys(), mp.Values()
	c.Check(len(keys) == k && len(vals) == k, "%s: %d keys and %d values, expected %d", what, len(keys), len(vals), k)
	groups := map[string][]*MV{}
	for i, x := range e {
		c.Check(ents[i].Key() == x.K, "%s: entry %d has key %q, expected %q", what, i, ents[i].Key(), x.K)
		if !plainLong(ents[i].Value(), x.V) {
			c.same(project(ents[i].Value()), x.V, "%s: entry %d (key %q)", what, i, x.K)
		}
		c.Check(keys[i] == x.K, "%s: Keys()[%d] is %q, expected %q", what, i, keys[i], x.K)
		if !plainLong(vals[i], x.V) {
			c.same(project(vals[i]), x.V, "%s: Values()[%d]", what, i)
		}
		groups[x.K] = append(groups[x.K], x.V)
	}
	h := mp.HashMap()
	c.Check(len(h) == len(groups), "%s: the hash map has %d keys, expected %d", what, len(h), len(groups))
	for key, v := range h {
		g := project(v)
		found := false
		for _, m := range groups[key] {
			found = found || mdiff(g, m) == ""
		}
		c.evals++
		if !found {
			c.Failf("%s: HashMap()[%q] is %v, the entries are %v", what, key, g, groups[key])
		}
	}
	probe := map[string]bool{"": true, "\xff\xff\xff": true, "zz": true, "\x00": true}
	for i, x := range e {
		if k < 40 || i%(7+k/40) == c.Index%(7+k/40) {
			probe[x.K], probe[x.K+"\x00"], probe[x.K+"a"] = true, true, true
			if len(x.K) > 0 {
				probe[x.K[:len(x.K)-1]] = true
			}
		}
	}
	for key := range probe {
		group := groups[key]
		got := mp.Get(key)
		if len(group) == 0 {
			c.Check(got != nil && got.Kind() == value.NULL, "%s: Get(%q) of an absent key is %v", what, key, got)
		} else {
			c.same(project(got), group[0], "%s: Get(%q)", what, key)
		}
		sel := mp.Select(key)
		c.Check(len(sel) == len(group), "%s: Select(%q) finds %d values, expected %d", what, key, len(sel), len(group))
		for i := range group {
			c.same(project(sel[i]), group[i], "%s: Select(%q)[%d]", what, key, i)
		}
	}
	c.Count("checks", 1)
}

func lowerE(e []MEnt, key string) int {
	i := 0
	for i < len(e) && e[i].K < key {
		i++
	}
	return i
}

func insE(e []MEnt, i int, x ...MEnt) []MEnt {
	r := make([]MEnt, 0, len(e)+len(x))
	r = append(r, e[:i]...)
	r = append(r, x...)
	return append(r, e[i:]...)
}

func mapKey(c *Case, e []MEnt) string {
	if c.P(1, 30) || len(e) > 0 && len(e[0].K) > 40 && c.P(1, 2) {
		return longKey(c.RNG)
	}
	switch c.Intn(8) {
	case 0:
		return strSpecials[c.Intn(len(strSpecials))]
	case 1, 2, 3:
		if len(e) > 0 {
			k := e[c.Intn(len(e))].K
			switch c.Intn(6) {
			case 0:
				return k + "a"
			case 1:
				return k + "\x00"
			case 2:
				if len(k) > 0 {
					return k[:len(k)-1]
				}
			}
			return k
		}
	case 4:
		if len(e) > 0 {
			return e[len(e)-1].K
		}
	case 5:
		if len(e) > 1 {
			return e[len(e)-2].K
		}
	case 6:
		if len(e) > 0 {
			return e[0].K
		}
	}
	k := c.Intn(3)
	b := make([]byte, k)
	for i := range b {
		b[i] = "abcABC\xff\x80 09"[c.Intn(11)]
	}
	return string(b)
}

func mapOp(c *Case, mp value.Map, e []MEnt, uniq *int64, log *[]string) (value.Map, []MEnt) {
	say := func(f string, a ...interface{}) { *log = append(*log, fmt.Sprintf(f, a...)) }
	key := mapKey(c, e)
	i := lowerE(e, key)
	has := i < len(e) && e[i].K == key
	op := c.Intn(9)
	if len(e) > 60 && op < 6 {
		op = 6 + c.Intn(3)
	}
	switch op {
	case 0, 1, 2:
		var old *MV
		if has {
			old = e[i].V
		}
		v, m := putVal(c, old, uniq)
		say("Put(%q,%v)", key, m)
		r := mp.Put(key, v)
		if has {
			e = append([]MEnt{}, e...)
			e[i] = MEnt{key, m}
			return r, e
		}
		return r, insE(e, i, MEnt{key, m})
	case 3, 4:
		v, m := argVal(c, uniq)
		say("Insert(%q,%v)", key, m)
		return mp.Insert(key, v), insE(e, i, MEnt{key, m})
	case 5:
		vs, ms := argSlice(c, uniq)
		say("InsertAll(%q,%v)", key, ms)
		var x []MEnt
		for _, m := range ms {
			x = append(x, MEnt{key, m})
		}
		return mp.InsertAll(key, vs), insE(e, i, x...)
	case 6:
		say("DeleteAll(%q)", key)
		j := i
		for j < len(e) && e[j].K == key {
			j++
		}
		return mp.DeleteAll(key), append(append([]MEnt{}, e[:i]...), e[j:]...)
	default:
		say("Remove(%q)", key)
		r := mp.Remove(key)
		if !has {
			return r, e
		}
		return r, append(append([]MEnt{}, e[:i]...), e[i+1:]...)
	}
}

// decodeShuffled decodes m, a map or a sparse list of distinct values, from an
// encoding whose entries come in any order; the model has the order of equal
// keys that came out.
func decodeShuffled(c *Case, m *MV) (value.Value, *MV) {
	k := len(m.E) + len(m.P)
	order := make([]int, k)
	for i := range order {
		order[i] = i
	}
	how := []string{"in order", "shuffled", "one swapped", "the last one first", "the first one last", "backwards", "two runs"}[c.Intn(7)]
	switch how {
	case "shuffled":
		order = c.Perm(k)
	case "one swapped":
		i := c.Intn(k)
		if c.Bool() {
			i = k - 1
		}
		j := (i + k - 1) % k
		order[i], order[j] = order[j], order[i]
	case "the last one first":
		order = append([]int{k - 1}, order[:k-1]...)
	case "the first one last":
		order = append(order[1:], 0)
	case "backwards":
		for i := range order {
			order[i] = k - 1 - i
		}
	case "two runs":
		i := c.Intn(k)
		order = append(append([]int{}, order[i:]...), order[:i]...)
	}
	mixed := m.K == KMap && c.P(1, 3)
	strs := 0
	st := Style{r: c.RNG}
	b := encHeader(nil, k, 15, 0x80, 0, 0xde, 0xdf, &st)
	for _, i := range order {
		if m.K == KSparse {
			b = refEnc(encInt(b, int64(m.P[i].K), &st), m.P[i].V, &st)
			continue
		}
		key := m.E[i].K
		x, err := strconv.ParseInt(key, 10, 64)
		if mixed && err == nil && strconv.FormatInt(x, 10) == key && c.Bool() {
			b = encInt(b, x, &st)
		} else {
			strs++
			b = encStr(b, key, &st)
		}
		b = refEnc(b, m.E[i].V, &st)
	}
	if strs == 0 && m.K == KMap {
		b = refEncode(m)
	}
	v, err := value.Unpack(b, c.Bool())
	if c.P(1, 4) {
		v, err = value.Read(&bareReader{b: b})
	}
	c.Check(err == nil, "Unpack of entries %s: %v", how, err)
	got := project(v)
	c.same(mnorm(got), mnorm(m), "decoded from entries %s", how)
	c.Count("decoded-shuffled", 1)
	return v, got
}

func startMap(c *Case, imm bool, uniq *int64) (value.Map, []MEnt) {
	m := &MV{K: KMap}
	k := c.Intn(6)
	if c.P(1, 6) {
		k = 13 + c.Intn(30)
	}
	long := c.P(1, 10)
	for i := 0; i < k; i++ {
		*uniq++
		key := mapKey(c, m.E)
		if long {
			key = longKey(c.RNG)
		}
		m.E = append(m.E, MEnt{key, mLong(*uniq)})
		sortEnts(m.E)
	}
	if k == 0 {
		return emptyMapOf(imm, c.RNG), nil
	}
	if c.P(1, 4) {
		v, got := decodeShuffled(c, m)
		if !imm {
			v = value.SortedMapCopyOf(v.(value.Map))
		}
		return v.(value.Map), got.E
	}
	if c.P(1, 3) { // the constructor sorts; duplicates may come in any order
		ents := make([]value.MapEntry, k)
		for i, j := range c.Perm(k) {
			ents[i] = mkEntry(imm, m.E[j].K, value.Long(m.E[j].V.I))
		}
		mp := mapCtor(imm, ents, false)
		got := project(mp)
		c.same(mnorm(got), mnorm(m), "a map of unsorted entries")
		return mp, got.E
	}
	for i := 0; i < 5; i++ {
		v, m2 := mk(c, m, BuildOpt{Immutable: imm})
		if imm || v.Class() == value.EmptyMutableMap().Class() {
			return v.(value.Map), m2.E
		}
	}
	ents := make([]value.MapEntry, k)
	for i, x := range m.E {
		ents[i] = mkEntry(imm, x.K, value.Long(x.V.I))
	}
	return mapCtor(imm, ents, true), m.E
}

func runMap(c *Case, imm bool, steps int) {
	var uniq int64 = 1000
	mp, e := startMap(c, imm, &uniq)
	cls := mp.Class()
	log := []string{fmt.Sprintf("immutable=%v start %v", imm, &MV{K: KMap, E: e})}
	c.Note("%s", logTail(log))
	checkMap(c, mp, e, "start")
	type ver struct {
		mp value.Map
		e  []MEnt
		n  int
	}
	olds := []ver{{mp, e, 0}}
	branch := imm && c.Bool() // every version of an immutable map is a map of its own
	for i := 0; i < steps; i++ {
		if branch && c.P(1, 3) {
			o := olds[c.Intn(len(olds))]
			mp, e = o.mp, o.e
			log = append(log, fmt.Sprintf("back to version %d", o.n))
		}
		mp, e = mapOp(c, mp, e, &uniq, &log)
		c.Note("%s", logTail(log))
		checkMap(c, mp, e, "after "+log[len(log)-1])
		c.Check(mp.Class() == cls, "%s turns a %v into a %v", log[len(log)-1], cls, mp.Class())
		c.Count("ops", 1)
		c.Distinct(fnv64(fmt.Sprint(&MV{K: KMap, E: e})))
		if branch {
			olds = append(olds, ver{mp, e, i + 1})
		}
	}
	if branch {
		for i := 0; i < 30 && i < len(olds); i++ {
			o := olds[len(olds)-1-i*len(olds)/min(30, len(olds))]
			checkMap(c, o.mp, o.e, fmt.Sprintf("version %d at the end", o.n))
			c.Count("old-versions", 1)
		}
	}
	c.sameBytes(mustPack(c, mp), refEncode(&MV{K: KMap, E: e}), "packed map at the end")
}

func init() {
	register(&Prop{
		ID:    "C12",
		Rule:  "a case is a random history of list operations; after every operation the whole observable state is compared with a plain sequence; distinct = different states reached",
		Needs: []string{"ops", "checks", "big-ops", "old-versions", "replaced-by-alike"},
		Sections: []Section{
			{Name: "immutable", N: n(12000, 300000), Run: func(c *Case) { runSeq(c, true, 1+c.Intn(25)) }},
			{Name: "mutable", N: n(12000, 300000), Run: func(c *Case) { runSeq(c, false, 1+c.Intn(25)) }},
			{Name: "long-histories", N: n(200, 4000), Run: func(c *Case) { runSeq(c, c.Bool(), 300) }},
			{Name: "big", N: n(31*12, 31*300), Run: bigSeq},
			{Name: "exhaustive-small", N: n(smallSeqCases, smallSeqCases), Run: runSmallSeq},
		},
	})
	register(&Prop{
		ID:    "C13",
		Rule:  "a case is a random history of sparse-list operations, with fast appends on and off; after every operation the whole observable state is compared with a sorted multimap; with fast appends off older lists are re-checked; distinct = different states reached",
		Needs: []string{"ops", "checks", "old-versions", "big-ops", "decoded-shuffled", "replaced-by-alike"},
		Sections: []Section{
			{Name: "fast", N: n(20000, 400000), Run: func(c *Case) { runSparse(c, 1+c.Intn(25), false) }},
			{Name: "fast-long", N: n(150, 4000), Run: func(c *Case) { runSparse(c, 300, false) }},
			{Name: "big", N: n(31*5, 31*150), Run: func(c *Case) { bigSparse(c, false) }},
			{Name: "big-nofast", NoFast: true, N: n(31*3, 31*100), Run: func(c *Case) { bigSparse(c, true) }},
			{Name: "nofast", NoFast: true, N: n(12000, 250000), Run: func(c *Case) { runSparse(c, 1+c.Intn(25), true) }},
			{Name: "nofast-long", NoFast: true, N: n(100, 2000), Run: func(c *Case) { runSparse(c, 200, true) }},
		},
	})
	register(&Prop{
		ID:    "C14",
		Rule:  "a case is a random history of map operations; after every operation the whole observable state is compared with a sorted multimap; distinct = different states reached",
		Needs: []string{"ops", "checks", "big-ops", "decoded-shuffled", "old-versions", "replaced-by-alike"},
		Sections: []Section{
			{Name: "immutable", N: n(15000, 300000), Run: func(c *Case) { runMap(c, true, 1+c.Intn(25)) }},
			{Name: "mutable", N: n(15000, 300000), Run: func(c *Case) { runMap(c, false, 1+c.Intn(25)) }},
			{Name: "long-histories", N: n(200, 4000), Run: func(c *Case) { runMap(c, c.Bool(), 300) }},
			{Name: "big", N: n(31*7, 31*200), Run: bigMap},
		},
	})
}

// every single operation on every list of up to 6 elements at every index
const smallSeqCases = 2 * 7 * 10

func runSmallSeq(c *Case) {
	imm := c.Index%2 == 0
	k := c.Index / 2 % 7
	idx := c.Index/14 - 2
	mkl := func() (value.List, seqModel) {
		vals := make([]value.Value, k, k+c.Intn(3))
		s := make(seqModel, k)
		for i := range vals {
			vals[i], s[i] = value.Long(int64(i)), mLong(int64(i))
		}
		if imm {
			return value.ImmutableList(vals), s
		}
		return value.MutableList(vals), s
	}
	x := value.Long(99)
	y := []value.Value{value.Long(70), nil, value.Long(71)}
	my := []*MV{mLong(70), mNull, mLong(71)}
	type op struct {
		name string
		run  func(l value.List, s seqModel) (value.List, seqModel)
	}
	ops := []op{
		{"PutAt", func(l value.List, s seqModel) (value.List, seqModel) {
			r := l.PutAt(idx, x)
			if idx < 0 {
				return r, s
			}
			s = append(seqModel{}, s...)
			for len(s) <= idx {
				s = append(s, mNil)
			}
			s[idx] = mLong(99)
			return r, s
		}},
		{"InsertAt", func(l value.List, s seqModel) (value.List, seqModel) {
			r := l.InsertAt(idx, x)
			if idx < 0 {
				return r, s
			}
			return r, insertMV(s, min(idx, len(s)), mLong(99))
		}},
		{"InsertAll", func(l value.List, s seqModel) (value.List, seqModel) {
			r := l.InsertAll(idx, append([]value.Value{}, y...))
			if idx < 0 {
				return r, s
			}
			return r, insertMV(s, min(idx, len(s)), my...)
		}},
		{"InsertAll none", func(l value.List, s seqModel) (value.List, seqModel) { return l.InsertAll(idx, nil), s }},
		{"RemoveAt", func(l value.List, s seqModel) (value.List, seqModel) {
			r := l.RemoveAt(idx)
			if idx < 0 || idx >= len(s) {
				return r, s
			}
			return r, append(append(seqModel{}, s[:idx]...), s[idx+1:]...)
		}},
		{"DeleteAll", func(l value.List, s seqModel) (value.List, seqModel) {
			r := l.DeleteAll(idx)
			if idx < 0 || idx >= len(s) {
				return r, s
			}
			return r, append(append(seqModel{}, s[:idx]...), s[idx+1:]...)
		}},
		{"Append", func(l value.List, s seqModel) (value.List, seqModel) {
			return l.Append(x), insertMV(s, len(s), mLong(99))
		}},
		{"Append nil", func(l value.List, s seqModel) (value.List, seqModel) {
			return l.Append(nil), insertMV(s, len(s), mNull)
		}},
	}
	for _, o1 := range ops {
		for _, o2 := range ops {
			l, s := mkl()
			c.Note("immutable=%v length %d: %s then %s at %d", imm, k, o1.name, o2.name, idx)
			l, s = o1.run(l, s)
			checkSeq(c, l, s, true, o1.name)
			l, s = o2.run(l, s)
			checkSeq(c, l, s, true, o1.name+", "+o2.name)
			c.Count("ops", 2)
		}
	}
}
