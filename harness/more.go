package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"golang.org/x/crypto/nacl/box"
)

func pow10(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }

// farExponents: exact sums of decimals whose exponents lie far apart.
func farExponents(c *Case) {
	base := genExp(c.RNG)
	if c.Bool() || abs64(int64(base)) > 1e9 {
		base = int32(c.Intn(2001) - 1000)
	}
	gap := int64([]int{300, 1000, 5000, 10000, 20000, 50000, 120000}[c.Intn(7)] + c.Intn(300))
	x, y := genBig(c.RNG, true), genBig(c.RNG, true)
	if c.P(1, 6) {
		x = big.NewInt(int64(c.Intn(3) - 1))
	}
	if c.P(1, 6) {
		y = big.NewInt(int64(c.Intn(3) - 1))
	}
	c.Note("decimals %d e%d and %d e%d", x, int64(base)+gap, y, base)
	hi := value.Decimal(decimal.NewFromBigInt(x, base+int32(gap)))
	lo := value.Decimal(decimal.NewFromBigInt(y, base))
	far := new(big.Int).Mul(x, pow10(gap))
	for _, sub := range []bool{false, true} {
		for _, swap := range []bool{false, true} {
			a, b, p, q := hi, lo, far, y
			if swap {
				a, b, p, q = lo, hi, y, far
			}
			var r value.Number
			want := new(big.Int)
			if sub {
				r = a.Subtract(b)
				want.Sub(p, q)
			} else {
				r = a.Add(b)
				want.Add(p, q)
			}
			c.Check(r.Type() == value.DECIMAL, "the sum of decimals is a %v", r.Type())
			d := r.Decimal()
			got := d.Coefficient()
			switch e := int64(d.Exponent()) - int64(base); {
			case e > 0 && e < 1000000:
				got.Mul(got, pow10(e))
			case e < 0 && e > -1000000:
				want.Mul(want, pow10(-e))
			default:
				c.Check(e == 0 || got.Sign() == 0, "the result has the exponent %d", d.Exponent())
			}
			c.Check(got.Cmp(want) == 0, "subtract=%v, swapped=%v: the result is not exact: exponent %d, %d digits against %d", sub, swap, d.Exponent(), got.BitLen()*3/10, want.BitLen()*3/10)
		}
	}
	c.Count("far-exponents", 1)
	c.Distinct(c.U64())
}

// mixedLarge: maps of many integer keys that turn out, sooner or later, not to
// be lists.
func mixedLarge(c *Case) {
	k := []int{3, 9, 10, 11, 16, 33, 64, 65, 100, 129, 257, 300, 1000, 2000}[c.Intn(14)]
	if c.P(1, 12) {
		k = 4000 + c.Intn(5000)
	}
	how := []string{"ascending", "descending", "shuffled", "with duplicates", "all the same"}[c.Intn(5)]
	first := int64(c.Intn(60) - 20)
	step := int64(1 + c.Intn(3)*c.Intn(5000))
	keys := make([]int64, k)
	for i := range keys {
		keys[i] = first + int64(i)*step
	}
	switch how {
	case "descending":
		for i := range keys {
			keys[i] = first - int64(i)*step
		}
	case "shuffled":
		q := c.Perm(k)
		for i := range keys {
			keys[i] = first + int64(q[i])*step
		}
	case "with duplicates":
		for i := range keys {
			keys[i] = first + int64(c.Intn(k/2+1))*step
		}
	case "all the same":
		for i := range keys {
			keys[i] = first
		}
	}
	strs := map[int]string{}
	for n := c.Intn(4); n > 0; n-- {
		at := []int{0, 1, k / 2, k - 1, k, c.Intn(k + 1)}[c.Intn(6)]
		strs[at] = []string{genKey(c.RNG), strconv.FormatInt(keys[c.Intn(k)], 10), strconv.FormatInt(keys[c.Intn(k)]+1, 10)}[c.Intn(3)]
	}
	st := &Style{r: c.RNG, wide: c.Intn(3)}
	b := encHeader(nil, k+len(strs), 15, 0x80, 0, 0xde, 0xdf, st)
	for i := 0; i <= k; i++ {
		if s, ok := strs[i]; ok {
			b = encInt(encStr(b, s, st), int64(-i), st)
		}
		if i < k {
			b = encInt(encInt(b, keys[i], st), int64(i), st)
		}
	}
	c.Note("a map of %d integer keys from %d, step %d, %s, and the strings %q", k, first, step, how, strs)
	m, un := denoteDoc(b)
	decodeAllWays(c, b, m, un)
	c.Count("mixed-large", 1)
	if len(strs) > 0 {
		c.Count("mixed-late", 1)
	}
}

// lookupStorm: goroutines that do nothing but look up different places of the
// same few collections, as fast as they can.
func lookupStorm(c *Case) {
	type target struct {
		name string
		look func(k int) value.Value
		all  func(k int) []value.Value
		keys int
		want []value.Value
	}
	var targets []target
	k := 2 + c.Intn(30)
	vals := make([]value.Value, k)
	ents := map[string]value.Value{}
	var items []value.ListItem
	names := make([]string, k)
	for i := range vals {
		vals[i] = value.Utf8("v" + strconv.Itoa(i))
		names[i] = strings.Repeat("k", i%4) + strconv.Itoa(i)
		ents[names[i]] = vals[i]
		items = append(items, value.ImmutableItem(3*i, vals[i]))
	}
	lists := []value.List{value.ImmutableList(vals), value.MutableList(append([]value.Value{}, vals...)), value.SparseList(items, true), value.SparseList(items[:k/2+1], true)}
	maps := []value.Map{value.ImmutableMapOf(ents), value.SortedMapOf(ents), value.ImmutableMapOf(ents).Put(names[0], value.Long(7)), value.SortedMapOf(ents).Remove(names[1])}
	for i, l := range lists {
		l := l
		t := target{name: fmt.Sprintf("list %d", i), keys: 3*k + 2, look: l.GetAt, all: l.Select}
		for j := 0; j < t.keys; j++ {
			t.want = append(t.want, l.GetAt(j))
		}
		targets = append(targets, t)
	}
	for i, m := range maps {
		m := m
		t := target{name: fmt.Sprintf("map %d", i), keys: k, look: func(j int) value.Value { return m.Get(names[j]) }, all: func(j int) []value.Value { return m.Select(names[j]) }}
		for j := 0; j < t.keys; j++ {
			t.want = append(t.want, m.Get(names[j]))
		}
		targets = append(targets, t)
	}
	a, b := targets[c.Intn(len(targets))], targets[c.Intn(len(targets))]
	if c.Bool() {
		b = a
	}
	c.Note("lookups in %s and %s of %d elements", a.name, b.name, k)
	G := c.Range(4, 8)
	bad := make([]string, G)
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	rounds := 6000
	for g := 0; g < G; g++ {
		r := NewRNG(c.U64())
		wg.Add(1)
		ready.Add(1)
		go func(g int) {
			defer wg.Done()
			ready.Done()
			<-start
			for i := 0; i < rounds; i++ {
				t := &a
				if r.Bool() {
					t = &b
				}
				j := r.Intn(t.keys)
				got := t.look(j)
				if i%16 == 0 {
					if s := t.all(j); len(s) > 0 {
						got = s[0]
					}
				}
				if got != t.want[j] {
					bad[g] = fmt.Sprintf("lookup %d of %s gives %v, alone %v", j, t.name, got, t.want[j])
					return
				}
			}
		}(g)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	for _, s := range bad {
		c.Check(s == "", "%d goroutines: %s", G, s)
	}
	c.Count("storm-lookups", int64(G*rounds))
	c.Distinct(c.U64())
}

// reusedKeys: the arrays that hold the keys are used for other keys later.
func reusedKeys(c *Case) {
	v, m := mk(c, gen(c.RNG, GenOpt{Depth: 2, Budget: 6, MaxStr: 24, NoHuge: true}), BuildOpt{})
	packed := mustPack(c, v)
	w := m.wire()
	var pub, priv [2][32]byte // the places in use
	cur := [2]keyPair{genKeys(c.RNG), genKeys(c.RNG)}
	var last []byte
	var lastKeys [2]keyPair
	for i := 0; i < 6; i++ {
		which := c.Intn(4) // which keys are new
		for j := range cur {
			if i == 0 || which&(1<<uint(j)) != 0 {
				cur[j] = genKeys(c.RNG)
			}
			pub[j], priv[j] = *cur[j].pub, *cur[j].priv
		}
		s := c.Intn(2)
		t := 1 - s
		msg, err := value.Seal(v, &pub[t], &priv[s])
		c.Check(err == nil, "Seal: %v", err)
		freshNonce(c, msg)
		var nonce [24]byte
		copy(nonce[:], msg)
		plain, ok := box.Open(nil, msg[24:], &nonce, cur[s].pub, cur[t].priv)
		c.Check(ok && bytes.Equal(plain, packed), "round %d: a message sealed with keys put in the place of others is not for the new keys", i)
		u, err := value.Unseal(msg, &pub[s], &priv[t])
		c.Check(err == nil, "round %d: Unseal with the keys now in place: %v", i, err)
		c.same(project(u), w, "round %d", i)
		ind := box.Seal(append([]byte{}, nonce[:]...), packed, &nonce, cur[t].pub, cur[s].priv)
		u, err = value.Unseal(ind, &pub[s], &priv[t])
		c.Check(err == nil, "round %d: Unseal of an independently sealed message: %v", i, err)
		c.same(project(u), w, "round %d, independently sealed", i)
		if last != nil && *lastKeys[0].pub != *cur[0].pub && *lastKeys[1].pub != *cur[1].pub {
			rejected(c, last, &pub[0], &priv[1], "a message for keys that were in place before")
			rejected(c, last, &pub[1], &priv[0], "a message for keys that were in place before")
			c.Count("reused-keys:old", 1)
		}
		c.Check(pub == [2][32]byte{*cur[0].pub, *cur[1].pub} && priv == [2][32]byte{*cur[0].priv, *cur[1].priv}, "the keys are modified")
		last, lastKeys = msg, cur
		// the old keys are wiped
		pub, priv = [2][32]byte{}, [2][32]byte{}
	}
	c.Count("reused-keys", 1)
	c.DistinctB(last)
}

// collectionKeys: collections as the keys of maps, in the keys of maps, and so
// on; their text is quoted again on every level.
func collectionKeys(c *Case) {
	leaf := []string{"a", "\"", "\\\"", "\x01", "\xff", "\u2028"}[c.Intn(6)]
	b := encStr(nil, strings.Repeat(leaf, 1+c.Intn(20)), &Style{r: c.RNG})
	levels := 1 + c.Intn(8)
	if c.Bool() {
		levels = 9 + c.Intn(80)
	}
	if c.P(1, 12) {
		levels = 1000 + c.Intn(30000)
	}
	how := c.Intn(5)
	n := 0
	var head, tail []byte // outermost first, innermost first
	for i := 0; i < levels; i++ {
		kind := 0
		if how > 0 && c.P(1, 2+how) {
			kind = 1 + c.Intn(5)
		}
		switch kind {
		case 0: // a key
			head, tail = append(head, 0x81), append(tail, 0x01)
			n++
		case 1:
			head = append(head, 0x91)
		case 2: // a value
			head = append(head, 'k', 0xa1, 0x81)
		case 3:
			head = append(head, 0x00, 0x81)
		case 4: // the second key
			head, tail = append(head, 0x01, 'a', 0xa1, 0x82), append(tail, 0x02)
			n++
		default: // an integer comes first
			head, tail = append(head, 0x01, 0x07, 0x82), append(tail, 0x02)
			n++
		}
	}
	for i, j := 0, len(head)-1; i < j; i, j = i+1, j-1 {
		head[i], head[j] = head[j], head[i]
	}
	b = append(append(head, b...), tail...)
	if c.P(1, 6) {
		b = append([]byte{0x81, []byte{1, 7, 11, 2}[c.Intn(4)]}, b...)
	}
	c.Note("%d levels, %d of them keys: %s", levels, n, hexShort(b))
	hostile(c, b, true)
	c.Count("collection-keys", 1)
	c.DistinctB(b)
}

func init() {
	addSection("C05", Section{Name: "collection-keys", Serial: true, N: n(600, 15000), Run: collectionKeys})
	addSection("C03", Section{Name: "mixed-large", N: n(900, 30000), Run: mixedLarge})
	addSection("C11", Section{Name: "storm", N: n(60, 2000), Run: lookupStorm})
	addSection("C18", Section{Name: "far-exponents", N: n(300, 10000), Run: farExponents})
	addSection("C21", Section{Name: "reused-keys", N: n(300, 8000), Run: reusedKeys})
	for id, need := range map[string][]string{"C05": {"collection-keys"}, "C03": {"mixed-large", "mixed-late"}, "C11": {"storm-lookups"}, "C18": {"far-exponents"}, "C21": {"reused-keys", "reused-keys:old"}} {
		props[id].Needs = append(props[id].Needs, need...)
	}
}
