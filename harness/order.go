package main

import (
	"fmt"
	"math"
	"strings"
)

// Maps whose keys are in order but for one place: what takes the order of the
// keys for granted goes wrong only there.

const mega = 1 << 20

func init() {
	addSection("C03", Section{Name: "almost-sorted", N: n(900, 12000), Run: func(c *Case) {
		k := 2 + c.Intn(int(math.Exp2(float64(2+c.Intn(13)))))
		keys := make([]int, k)
		step := 1 + c.Intn(3)
		base := -(k / 3)
		if c.Bool() {
			base = 0
		}
		for i := range keys {
			keys[i] = base + i*step
		}
		how := ""
		switch c.Intn(6) {
		case 0:
			i := c.Intn(k - 1)
			keys[i], keys[i+1] = keys[i+1], keys[i]
			how = fmt.Sprintf("%d and %d swapped", i, i+1)
		case 1: // the last two
			keys[k-2], keys[k-1] = keys[k-1], keys[k-2]
			how = "the last two swapped"
		case 2: // one comes too late
			i := c.Intn(k)
			x := keys[i]
			keys = append(append(keys[:i:i], keys[i+1:]...), x)
			how = fmt.Sprintf("%d at the end", i)
		case 3: // one comes too early
			i := c.Intn(k)
			x := keys[i]
			keys = append([]int{x}, append(keys[:i:i], keys[i+1:]...)...)
			how = fmt.Sprintf("%d at the start", i)
		case 4: // in two halves
			i := c.Intn(k)
			keys = append(append([]int{}, keys[i:]...), keys[:i]...)
			how = fmt.Sprintf("turned by %d", i)
		default: // a part backwards
			i := c.Intn(k)
			j := i + c.Intn(k-i) + 1
			for a, b := i, j-1; a < b; a, b = a+1, b-1 {
				keys[a], keys[b] = keys[b], keys[a]
			}
			how = fmt.Sprintf("%d to %d backwards", i, j)
		}
		text := c.Bool()
		late := !text && c.P(1, 4) // one key of another kind at the end
		size := k
		if late {
			size++
		}
		prefix := strings.Repeat("k", c.Intn(3))
		doc := encHeader(nil, size, 15, 0x80, 0, 0xde, 0xdf, nil)
		for i, x := range keys {
			if text {
				doc = encStr(doc, fmt.Sprintf("%s%07d", prefix, x-base), nil)
			} else {
				doc = encInt(doc, int64(x), nil)
			}
			doc = encInt(doc, int64(i), nil)
		}
		if late {
			doc = encInt(encStr(doc, "x", nil), 1, nil)
		}
		c.Note("a map of %d keys, %s, texts %v", k, how, text)
		want, un := denoteDoc(doc)
		decodeAllWays(c, doc, want, un)
		c.Count("almost-sorted", 1)
	}})
	addSection("C08", Section{Name: "megabytes", N: n(24, 300), Run: func(c *Case) {
		size := 3*mega + c.Intn(7*mega)
		if c.Bool() {
			size = []int{4 * mega, 5 * mega, 6 * mega, 8 * mega, 9 * mega}[c.Intn(5)] + c.Intn(3) - 1
		}
		var b []byte
		var ends []int
		put := func(m *MV) { b = refEncode2(b, m); ends = append(ends, len(b)) }
		data := string(c.Bytes(1<<16)) + strings.Repeat("data", size/4)
		data = data[:size]
		switch c.Intn(3) {
		case 0:
			put(mRaw(data))
		case 1:
			put(mExt(9, data))
		default:
			put(mStr(data))
		}
		put(mStr("behind"))
		c.Note("%d bytes", size)
		readerAgrees(c, b, readerKinds[c.Index%len(readerKinds)], ends)
		c.Count("megabytes", 1)
	}})
}
