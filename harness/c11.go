package main

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/codeallergy/value"
)

// ------------------------------------------------------------------ C11
//
// The race detector watches every case; the oracle compares what each
// goroutine got with what the same operation gives alone on a separately
// built equal value, so that state initialised on first use is still cold
// when the goroutines start. Between the start barrier and the end the
// goroutines share nothing of the harness (no locks, atomics or channels), so
// that no happens-before edge of the harness can hide a race.

type conOp struct {
	name string
	f    func(v value.Value) string // digest of the result
}

func digest(v value.Value) string {
	if v == nil {
		return "nil"
	}
	b := refEncode(project(v))
	return fmt.Sprintf("%d:%x", len(b), fnv64(string(b)))
}

func digests(l []value.Value) string {
	var b strings.Builder
	for _, v := range l {
		b.WriteString(digest(v))
		b.WriteByte(' ')
	}
	return b.String()
}

func hashBytes(b []byte, err error) string {
	return fmt.Sprintf("%d:%x:%v", len(b), fnv64(string(b)), err)
}

// keyAt picks keys deterministically from the content of the value itself.
func someKey(m value.Map, k int) string {
	e := m.Entries()
	if len(e) == 0 || k%4 == 3 {
		return "absent"
	}
	return e[k%len(e)].Key()
}
func someIndex(l value.List, k int) int {
	it := l.Items()
	if len(it) == 0 || k%4 == 3 {
		return 1 << 20
	}
	return it[k%len(it)].Key()
}

// readOps are operations that any value allows concurrently.
func readOps(kp *[2]keyPair, twin value.Value, args []value.Value) []conOp {
	other := value.Long(42)
	ops := []conOp{
		{"Pack", func(v value.Value) string { return hashBytes(value.Pack(v)) }},
		{"MarshalBinary", func(v value.Value) string {
			b, err := v.MarshalBinary()
			return hashBytes(b, err)
		}},
		{"MarshalJSON", func(v value.Value) string { return hashBytes(v.MarshalJSON()) }},
		{"Jsonify", func(v value.Value) string { return value.Jsonify(v) }},
		{"String", func(v value.Value) string { return v.String() }},
		{"Hash", func(v value.Value) string {
			d, h, err := value.Hash(v, crypto.SHA256)
			return hashBytes(d, err) + hashBytes(h, nil)
		}},
		{"Hex", func(v value.Value) string { return value.Hex(v) }},
		{"Write", func(v value.Value) string {
			var b bytes.Buffer
			err := value.Write(&b, v)
			return hashBytes(b.Bytes(), err)
		}},
		{"Equal self", func(v value.Value) string { return eqObs(v, v) }},
		{"Equal twin", func(v value.Value) string { return eqObs(v, twin) + eqObs(twin, v) }},
		{"Equal other", func(v value.Value) string { return eqObs(v, other) + eqObs(other, v) }},
		{"project", digest},
		{"kinds", func(v value.Value) string { return fmt.Sprint(v.Kind(), v.Class()) }},
		{"PackStruct", func(v value.Value) string { return hashBytes(value.PackStruct(v)) }},
	}
	if kp != nil {
		ops = append(ops, conOp{"Seal/Unseal", func(v value.Value) string {
			b, err := value.Seal(v, kp[1].pub, kp[0].priv)
			if err != nil {
				return err.Error()
			}
			u, err := value.Unseal(b, kp[0].pub, kp[1].priv)
			return fmt.Sprint(digest(u), err)
		}})
	}
	return ops
}

func listReads(k int) []conOp {
	g := func(name string, f func(l value.List, i int) string) conOp {
		return conOp{name, func(v value.Value) string {
			l := v.(value.List)
			res := ""
			if p := try(func() { res = f(l, someIndex(l, k)) }); p != nil {
				return "panic"
			}
			return res
		}}
	}
	return []conOp{
		g("Values", func(l value.List, i int) string { return digests(l.Values()) }),
		g("Items", func(l value.List, i int) string {
			s := ""
			for _, it := range l.Items() {
				s += fmt.Sprint(it.Key(), digest(it.Value()), " ")
			}
			return s
		}),
		g("Entries", func(l value.List, i int) string {
			s := ""
			for _, it := range l.Entries() {
				s += fmt.Sprint(it.Key(), digest(it.Value()), " ")
			}
			return s
		}),
		g("Len", func(l value.List, i int) string { return fmt.Sprint(l.Len()) }),
		g("GetAt", func(l value.List, i int) string { return digest(l.GetAt(i)) }),
		g("GetBoolAt", func(l value.List, i int) string { return digest(l.GetBoolAt(i)) }),
		g("GetNumberAt", func(l value.List, i int) string { return digest(l.GetNumberAt(i)) }),
		g("GetStringAt", func(l value.List, i int) string { return digest(l.GetStringAt(i)) }),
		g("GetListAt", func(l value.List, i int) string { return digest(l.GetListAt(i)) }),
		g("GetMapAt", func(l value.List, i int) string { return fmt.Sprint(l.GetMapAt(i).Len()) }),
		g("Select", func(l value.List, i int) string { return digests(l.Select(i)) }),
	}
}

func mapReads(k int) []conOp {
	g := func(name string, f func(l value.Map, key string) string) conOp {
		return conOp{name, func(v value.Value) string {
			m := v.(value.Map)
			res := ""
			if p := try(func() { res = f(m, someKey(m, k)) }); p != nil {
				return "panic"
			}
			return res
		}}
	}
	return []conOp{
		g("Values", func(m value.Map, key string) string { return digests(m.Values()) }),
		g("Keys", func(m value.Map, key string) string { return fmt.Sprintf("%q", m.Keys()) }),
		g("Entries", func(m value.Map, key string) string {
			s := ""
			for _, it := range m.Entries() {
				s += fmt.Sprint(it.Key(), digest(it.Value()), " ")
			}
			return s
		}),
		g("HashMap", func(m value.Map, key string) string {
			h := m.HashMap()
			keys := make([]string, 0, len(h))
			for k := range h {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			s := ""
			for _, k := range keys {
				s += k + digest(h[k])
			}
			return s
		}),
		g("Len", func(m value.Map, key string) string { return fmt.Sprint(m.Len()) }),
		g("Get", func(m value.Map, key string) string { return digest(m.Get(key)) }),
		g("GetBool", func(m value.Map, key string) string { return digest(m.GetBool(key)) }),
		g("GetNumber", func(m value.Map, key string) string { return digest(m.GetNumber(key)) }),
		g("GetString", func(m value.Map, key string) string { return digest(m.GetString(key)) }),
		g("GetList", func(m value.Map, key string) string { return digest(m.GetList(key)) }),
		g("GetMap", func(m value.Map, key string) string { return fmt.Sprint(m.GetMap(key).Len()) }),
		g("Select", func(m value.Map, key string) string { return digests(m.Select(key)) }),
		g("SortedMapCopyOf", func(m value.Map, key string) string {
			s := value.SortedMapCopyOf(m)
			s.Update(key, &updFunc{ret: value.Str("updated")})
			return digest(s.Put(key, value.Long(7)))
		}),
		g("ImmutableMapCopyOf", func(m value.Map, key string) string {
			return digest(value.ImmutableMapCopyOf(m).Insert(key, value.Long(7)))
		}),
		g("ImmutableMapOf", func(m value.Map, key string) string {
			return fmt.Sprint(value.ImmutableMapOf(m.HashMap()).Len(), value.SortedMapOf(m.HashMap()).Len())
		}),
	}
}

// listUpdates are allowed concurrently on immutable lists only.
func listUpdates(k int, args []value.Value) []conOp {
	g := func(name string, f func(l value.List, i int) value.Value) conOp {
		return conOp{name, func(v value.Value) string {
			l := v.(value.List)
			return digest(f(l, someIndex(l, k)))
		}}
	}
	a := args[k%len(args)]
	return []conOp{
		g("Append", func(l value.List, i int) value.Value { return l.Append(a) }),
		g("PutAt", func(l value.List, i int) value.Value { return l.PutAt(i%1000, a) }),
		g("InsertAt", func(l value.List, i int) value.Value { return l.InsertAt(i, a) }),
		g("RemoveAt", func(l value.List, i int) value.Value { return l.RemoveAt(i) }),
		g("DeleteAll", func(l value.List, i int) value.Value { return l.DeleteAll(i) }),
		g("InsertAll", func(l value.List, i int) value.Value { return l.InsertAll(i, args) }),
		g("UpdateAt", func(l value.List, i int) value.Value {
			return value.Boolean(l.UpdateAt(i, &updFunc{ret: a}))
		}),
		g("chain", func(l value.List, i int) value.Value {
			return l.Append(a).RemoveAt(0).InsertAt(i, a).Append(value.True).PutAt(0, nil)
		}),
	}
}

func mapUpdates(k int, args []value.Value) []conOp {
	g := func(name string, f func(m value.Map, key string) value.Value) conOp {
		return conOp{name, func(v value.Value) string {
			m := v.(value.Map)
			return digest(f(m, someKey(m, k)))
		}}
	}
	a := args[k%len(args)]
	return []conOp{
		g("Put", func(m value.Map, key string) value.Value { return m.Put(key, a) }),
		g("Insert", func(m value.Map, key string) value.Value { return m.Insert(key, a) }),
		g("Remove", func(m value.Map, key string) value.Value { return m.Remove(key) }),
		g("DeleteAll", func(m value.Map, key string) value.Value { return m.DeleteAll(key) }),
		g("InsertAll", func(m value.Map, key string) value.Value { return m.InsertAll(key, args) }),
		g("Update", func(m value.Map, key string) value.Value {
			return value.Boolean(m.Update(key, &updFunc{ret: a}))
		}),
		g("chain", func(m value.Map, key string) value.Value {
			return m.Remove(key).Insert("z", a).Put("a", nil).Remove("z")
		}),
	}
}

func numOps(k int, nums []value.Number) []conOp {
	g := func(name string, f func(n value.Number) string) conOp {
		return conOp{name, func(v value.Value) string { return f(v.(value.Number)) }}
	}
	o := nums[k%len(nums)]
	return []conOp{
		g("Add", func(n value.Number) string { return digest(n.Add(o)) + digest(o.Add(n)) }),
		g("Subtract", func(n value.Number) string { return digest(n.Subtract(o)) + digest(o.Subtract(n)) }),
		g("conversions", func(n value.Number) string {
			return fmt.Sprint(n.Long(), n.Double(), n.BigInt(), n.Decimal().Exponent(), n.Decimal().Coefficient(), n.IsNaN())
		}),
		g("BigInt modified", func(n value.Number) string {
			z := n.BigInt()
			return z.Add(z, big.NewInt(1)).String()
		}),
		g("ParseNumber", func(n value.Number) string { return digest(value.ParseNumber(n.String())) }),
	}
}

// conRun starts the goroutines of one case. plans[g] is the operation
// sequence of goroutine g; it returns the results and the order in which
// operations began.
type conPlan []func() string

func conRun(c *Case, plans []conPlan) [][]string {
	res := make([][]string, len(plans))
	began := make([][]int64, len(plans))
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	base := time.Now()
	for g := range plans {
		ready.Add(1)
		done.Add(1)
		go func(g int) {
			defer done.Done()
			out := make([]string, len(plans[g]))
			at := make([]int64, len(plans[g]))
			ready.Done()
			<-start
			for i, f := range plans[g] {
				at[i] = int64(time.Since(base))
				if p := try(func() { out[i] = f() }); p != nil {
					out[i] = fmt.Sprintf("panic: %v", p)
				}
			}
			res[g], began[g] = out, at
		}(g)
	}
	ready.Wait()
	close(start)
	done.Wait()
	// the interleaving observed
	type ev struct {
		t int64
		g int
	}
	var evs []ev
	for g := range began {
		for _, t := range began[g] {
			evs = append(evs, ev{t, g})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	sig := make([]byte, len(evs))
	switches := int64(0)
	for i, e := range evs {
		sig[i] = byte(e.g)
		if i > 0 && evs[i-1].g != e.g {
			switches++
		}
	}
	c.Count("operations", int64(len(evs)))
	c.Count("switches", switches)
	c.DistinctB(sig)
	return res
}

// tuneFree builds the values of a case without ever touching the shared one.
func sharedValue(c *Case, m *MV, o BuildOpt) (v, twin value.Value) {
	// the same random choices for both, so that the shared one stays untouched
	seedWord := c.U64()
	v = build(m, NewRNG(seedWord), o)
	twin = build(m, NewRNG(seedWord), o)
	return
}

func sharedCase(c *Case, o GenOpt, bo BuildOpt, updates bool) {
	var m *MV
	for try := 0; ; try++ {
		if c.P(1, 4) {
			m = genScalar(c.RNG, &o)
		} else {
			m = genColl(c.RNG, o)
		}
		if try > 20 || m.K != KNil {
			break
		}
	}
	if m.K == KNil {
		m = mNull
	}
	sharedModel(c, m, bo, updates)
}

func sharedModel(c *Case, m *MV, bo BuildOpt, updates bool) {
	v, twin := sharedValue(c, m, bo)
	_, twin2 := sharedValue(c, m, bo)
	args := make([]value.Value, 1+c.Intn(4))
	for i := range args {
		if c.P(1, 3) {
			continue // nil
		}
		args[i], _ = mk(c, genScalar(c.RNG, &GenOpt{MaxStr: 12, NoHuge: true}), BuildOpt{Plain: true})
	}
	args2 := append([]value.Value{}, args...)
	var kp *[2]keyPair
	if c.P(1, 4) {
		kp = &[2]keyPair{genKeys(c.RNG), genKeys(c.RNG)}
	}
	nums := []value.Number{value.Long(genLong(c.RNG)), value.Double(genDouble(c.RNG, true)), value.BigInt(genBig(c.RNG, true)), value.Decimal(value.BigInt(genBig(c.RNG, true)).Decimal())}
	mkOps := func(tw value.Value, args []value.Value) (ops []conOp) {
		ops = readOps(kp, tw, args)
		for k := 0; k < 4; k++ {
			switch m.K {
			case KList, KSparse:
				ops = append(ops, listReads(k)...)
				if updates && m.K == KList {
					ops = append(ops, listUpdates(k, args)...)
				}
			case KMap:
				ops = append(ops, mapReads(k)...)
				if updates {
					ops = append(ops, mapUpdates(k, args)...)
				}
			case KLong, KDouble, KBig, KDec:
				ops = append(ops, numOps(k, nums)...)
			}
		}
		return
	}
	ops := mkOps(twin2, args)
	opsAlone := mkOps(twin2, args2) // own argument slices: the expected results are computed on unshared data
	G := c.Range(4, 8)
	L := 4 + c.Intn(10)
	idx := make([][]int, G)
	plans := make([]conPlan, G)
	for g := range plans {
		idx[g] = make([]int, L)
		for i := range idx[g] {
			idx[g][i] = c.Intn(len(ops))
			if g > 0 && i == 0 && c.Bool() {
				idx[g][0] = idx[0][0] // the same first use everywhere
			}
			op := ops[idx[g][i]]
			plans[g] = append(plans[g], func() string { return op.f(v) })
		}
	}
	c.Note("shared %v", m)
	res := conRun(c, plans)
	for g := range plans {
		for i := range idx[g] {
			op := opsAlone[idx[g][i]]
			want := ""
			if p := try(func() { want = op.f(twin) }); p != nil {
				want = fmt.Sprintf("panic: %v", p)
			}
			if strings.HasPrefix(want, "panic") && strings.HasPrefix(res[g][i], "panic") {
				continue
			}
			c.Check(res[g][i] == want, "%s on a value shared by %d goroutines gives %s, alone %s", op.name, G, quoteShort(res[g][i]), quoteShort(want))
		}
	}
	c.Count("shared-values", 1)
	c.Sample("%d goroutines x %d operations on %v", G, L, m)
}

func bufferCase(c *Case) {
	// one buffer, many decoders of every sort
	typ := reflect.TypeOf(hStruct{})
	b := validStructDoc(c.RNG)
	if c.Bool() {
		m := genColl(c.RNG, GenOpt{Depth: 3, Budget: 25, MaxStr: 40, NoHuge: true, NoWide: true})
		b = refEncode(m)
	}
	orig := append([]byte{}, b...)
	decode := []func(b []byte) string{
		func(b []byte) string { u, err := value.Unpack(b, false); return fmt.Sprint(digest(u), err) },
		func(b []byte) string { u, err := value.Unpack(b, true); return fmt.Sprint(digest(u), err) },
		func(b []byte) string { u, err := value.Read(bytes.NewReader(b)); return fmt.Sprint(digest(u), err) },
		func(b []byte) string {
			ch := make(chan value.Value, 4)
			go value.ReadStream(bytes.NewReader(b), ch)
			s := ""
			for u := range ch {
				s += digest(u)
			}
			return s
		},
		func(b []byte) string {
			s := reflect.New(typ)
			if err := value.UnpackStruct(b, s.Interface(), false); err != nil {
				return "error"
			}
			return hashBytes(value.PackStruct(s.Interface()))
		},
		func(b []byte) string {
			s := reflect.New(typ)
			if err := value.UnpackStruct(b, s.Interface(), true); err != nil {
				return "error"
			}
			return hashBytes(value.PackStruct(s.Interface()))
		},
		func(b []byte) string {
			u, err := value.Unpack(b, false)
			if err != nil {
				return "error"
			}
			return hashBytes(value.Pack(u)) + value.Jsonify(u)
		},
	}
	G, L := c.Range(4, 8), 3+c.Intn(5)
	idx := make([][]int, G)
	plans := make([]conPlan, G)
	for g := range plans {
		for i := 0; i < L; i++ {
			k := c.Intn(len(decode))
			idx[g] = append(idx[g], k)
			plans[g] = append(plans[g], func() string { return decode[k](b) })
		}
	}
	c.Note("shared buffer %s", hexShort(b))
	res := conRun(c, plans)
	want := make([]string, len(decode))
	for k := range decode {
		if p := try(func() { want[k] = decode[k](orig) }); p != nil {
			want[k] = "panic"
		}
	}
	for g := range plans {
		for i, k := range idx[g] {
			if want[k] == "panic" {
				continue
			}
			c.Check(res[g][i] == want[k], "decoding (way %d) a buffer shared by %d goroutines gives %s, alone %s", k, G, quoteShort(res[g][i]), quoteShort(want[k]))
		}
	}
	c.sameBytes(b, orig, "the shared buffer")
	c.Count("shared-buffers", 1)
}

// schemaCase: the first use of struct types, from many goroutines at once.
func schemaCase(c *Case) {
	var typs []reflect.Type
	for k := 1 + c.Intn(3); k > 0; k-- {
		typs = append(typs, genStructType(c.RNG, 1+c.Intn(3)))
	}
	coldTypes(c, typs, 0)
}

func coldTypes(c *Case, typs []reflect.Type, depth int) {
	K := len(typs)
	type job struct {
		typ  reflect.Type
		p    reflect.Value
		want []byte
		nd   *sNode
	}
	var jobs []job
	for k := 0; k < K; k++ {
		typ := typs[k]
		nd := genSNode(c.RNG, typ, depth)
		p := reflect.New(typ)
		nd.fill(c, p.Elem())
		jobs = append(jobs, job{typ, p, refEncode(nd.model()), nd})
	}
	G := c.Range(4, 8)
	plans := make([]conPlan, G)
	for g := range plans {
		order := c.Perm(K)
		for _, k := range order {
			j := jobs[k]
			pack := func() string {
				b, err := value.PackStruct(j.p.Interface())
				if err != nil {
					return "PackStruct: " + err.Error()
				}
				if !bytes.Equal(b, j.want) {
					return fmt.Sprintf("PackStruct gives %s, expected %s", hexShort(b), hexShort(j.want))
				}
				return ""
			}
			cp := c.Bool()
			unpack := func() string {
				q := reflect.New(j.typ)
				if err := value.UnpackStruct(j.want, q.Interface(), cp); err != nil {
					return "UnpackStruct: " + err.Error()
				}
				b, err := value.PackStruct(q.Interface())
				if err != nil {
					return "PackStruct of the unpacked: " + err.Error()
				}
				if !bytes.Equal(b, j.want) {
					return fmt.Sprintf("the unpacked struct packs to %s, expected %s", hexShort(b), hexShort(j.want))
				}
				return ""
			}
			if c.Bool() {
				plans[g] = append(plans[g], pack, unpack)
			} else {
				plans[g] = append(plans[g], unpack, pack)
			}
		}
	}
	c.Note("%d goroutines using %d new struct types", G, K)
	for _, r := range conRun(c, plans) {
		for _, s := range r {
			c.Check(s == "", "with %d goroutines using %d new struct types: %s", G, K, s)
		}
	}
	c.Count("new-types", int64(K))
}

// streamCase: several streams carrying the same values at the same time.
func conStreams(c *Case) {
	vals, ms, enc, _ := mkStream(c, 1+c.Intn(6))
	for i := range vals {
		if vals[i] == nil {
			vals[i] = value.Null
		}
	}
	_ = ms
	G := c.Range(3, 6)
	plans := make([]conPlan, G)
	for g := range plans {
		plans[g] = conPlan{func() string {
			ch := make(chan value.Value, g)
			go func() {
				for _, v := range vals {
					ch <- v
				}
				close(ch)
			}()
			var b bytes.Buffer
			if err := value.WriteStream(&b, ch); err != nil {
				return "WriteStream: " + err.Error()
			}
			if !bytes.Equal(b.Bytes(), enc) {
				return fmt.Sprintf("WriteStream wrote %s, expected %s", hexShort(b.Bytes()), hexShort(enc))
			}
			return ""
		}, func() string {
			ch := make(chan value.Value, g)
			go value.ReadStream(bytes.NewReader(enc), ch)
			k := 0
			for u := range ch {
				if k < len(ms) {
					if d := mdiff(project(u), ms[k].wire()); d != "" {
						return fmt.Sprintf("value %d differs%s", k, d)
					}
				}
				k++
			}
			if k != len(ms) {
				return fmt.Sprintf("%d of %d values", k, len(ms))
			}
			return ""
		}}
	}
	c.Note("%d goroutines streaming the same %d values", G, len(vals))
	for _, r := range conRun(c, plans) {
		for _, s := range r {
			c.Check(s == "", "concurrent streams: %s", s)
		}
	}
	c.Count("streams", int64(G))
}

// globals: the package's ready-made values and empty collections.
func conGlobals(c *Case) {
	var k int
	ops := []func() string{
		func() string {
			return digest(value.EmptySparseList().Append(value.Long(1)).Append(value.Long(2)))
		},
		func() string { return digest(value.EmptySparseList().InsertAt(5, value.Long(1))) },
		func() string {
			return digest(value.EmptySparseList().InsertAll(3, []value.Value{value.Long(1), nil}))
		},
		func() string { return digest(value.EmptyList(true).Append(value.Long(1)).InsertAt(0, nil)) },
		func() string { return digest(value.EmptyList(false).Append(value.Long(1)).InsertAt(0, nil)) },
		func() string { return digest(value.EmptyMap(true).Put("a", value.Long(1)).Insert("a", nil)) },
		func() string { return digest(value.EmptyMap(false).Put("a", value.Long(1)).Insert("a", nil)) },
		func() string { b, err := value.Null.MarshalBinary(); return flip(b, err) },
		func() string { b, err := value.True.MarshalBinary(); return flip(b, err) },
		func() string { b, err := value.False.MarshalBinary(); return flip(b, err) },
		func() string { b, err := value.Pack(nil); return flip(b, err) },
		func() string { b, err := value.Pack(value.True); return flip(b, err) },
		func() string { b, err := value.Zero.MarshalBinary(); return flip(b, err) },
		func() string { b, err := value.Long(-123456).MarshalBinary(); return flip(b, err) },
		func() string { b, err := value.Double(1.5).MarshalBinary(); return flip(b, err) },
		func() string { b, err := value.Pack(value.Str(strings.Repeat("x", 300))); return flip(b, err) },
		func() string { b, err := value.Null.MarshalJSON(); return flip(b, err) },
		func() string { b, err := value.True.MarshalJSON(); return flip(b, err) },
		func() string { return digest(value.ParseNumber("0x1ffx-2")) + digest(value.ParseNumber("12")) },
		func() string { return digest(value.ParseString("base64,AAEC")) + value.EmptyString.String() },
		func() string {
			return digest(value.Zero.Add(value.One)) + digest(value.Nan.Add(value.One))
		},
		func() string { u, err := value.Unpack([]byte{0xd4, 7, 9}, false); return fmt.Sprint(digest(u), err) },
	}
	G := c.Range(4, 8)
	plans := make([]conPlan, G)
	idx := make([][]int, G)
	for g := range plans {
		for i := 0; i < 12; i++ {
			k = c.Intn(len(ops))
			idx[g] = append(idx[g], k)
			plans[g] = append(plans[g], ops[k])
		}
	}
	res := conRun(c, plans)
	for g := range plans {
		for i, k := range idx[g] {
			want := ops[k]()
			c.Check(res[g][i] == want, "operation %d on the package's own values gives %s, alone %s", k, quoteShort(res[g][i]), quoteShort(want))
		}
	}
	c.Count("globals", 1)
}

// flip returns the bytes and then overwrites them: they belong to the caller.
func flip(b []byte, err error) string {
	s := fmt.Sprintf("%x %v", b, err)
	for i := range b {
		b[i] ^= 0xff
	}
	return s
}

func init() {
	register(&Prop{
		ID:    "C11",
		Race:  true,
		Rule:  "One case is 4 to 8 goroutines released together on the same values, buffer, struct types or streams, each running its own random sequence of operations, built and run under the Go race detector; every result is compared with the one the operation gives alone. Distinct by the order in which the operations of the goroutines began (the interleaving observed).",
		Needs: []string{"operations", "switches", "shared-values", "shared-buffers", "new-types", "streams", "globals"},
		Sections: []Section{
			{Name: "immutable", N: n(1800, 30000), Run: func(c *Case) {
				sharedCase(c, GenOpt{Depth: 3, Budget: 14, NoSparse: true, MaxStr: 30, NoHuge: true, NoHoles: true}, BuildOpt{Immutable: true}, true)
			}},
			{Name: "any-value", N: n(1500, 30000), Run: func(c *Case) {
				sharedCase(c, GenOpt{Depth: 3, Budget: 14, MaxStr: 30, NoHuge: true, NonNegKey: true, NoWide: true}, BuildOpt{}, false)
			}},
			{Name: "buffers", N: n(500, 10000), Run: bufferCase},
			{Name: "struct-types", N: n(700, 12000), Run: schemaCase},
			{Name: "recursive-types", N: n(len(ringKits), len(ringKits)), Run: func(c *Case) {
				// no type of this ring was used before, in this process
				coldTypes(c, ringKits[c.Index], 2+c.Intn(2))
				c.Count("rings", 1)
			}},
			{Name: "streams", N: n(300, 6000), Run: conStreams},
			{Name: "globals", N: n(200, 4000), Run: conGlobals},
		},
	})
}
