package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// The same decoders built for a platform where int has 32 bits. run.sh builds
// ./narrow twice and passes the directory in VERIF_NARROW; where the second
// program can not be built or started, the sections count "narrow-absent" and
// decide nothing.

var narrowEntries = []string{"Unpack(false)", "Unpack(true)", "Read", "Read of a plain reader", "ReadStream", "UnpackStruct(false)", "UnpackStruct(true)"}

// narrowOutcomes gives the lines of one program, and false if it did not end by itself.
func narrowOutcomes(name string, docs [][]byte) (lines [][]string, bits string, clean, present bool, tail string) {
	dir := os.Getenv("VERIF_NARROW")
	if dir == "" {
		return nil, "", false, false, ""
	}
	path := filepath.Join(dir, name)
	if _, err := os.Stat(path); err != nil {
		return nil, "", false, false, ""
	}
	var in bytes.Buffer
	for _, d := range docs {
		binary.Write(&in, binary.BigEndian, uint32(len(d)))
		in.Write(d)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path)
	cmd.Stdin = &in
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		return nil, "", false, false, ""
	}
	err := cmd.Wait()
	if ctx.Err() != nil {
		return nil, "", false, false, "" // out of time, no verdict
	}
	all := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
	if !strings.HasPrefix(all[0], "int ") {
		return nil, "", false, false, "" // it does not run here
	}
	for _, l := range all[1:] {
		lines = append(lines, strings.Split(l, "\t"))
	}
	return lines, all[0][4:], err == nil && len(lines) == len(docs), true, firstBytes(errs.String(), 300)
}

func firstBytes(s string, k int) string {
	if len(s) > k {
		return s[:k]
	}
	return s
}

func narrowBoth(c *Case, docs [][]byte) (wide, narrow [][]string, ok bool) {
	n, nb, nclean, npresent, tail := narrowOutcomes("n32", docs)
	if !npresent || nb != "32" {
		c.Count("narrow-absent", 1)
		return nil, nil, false
	}
	w, wb, wclean, wpresent, _ := narrowOutcomes("n64", docs)
	if !wpresent || wb != "64" || !wclean {
		c.Count("narrow-absent", 1) // other sections decide about the native platform
		return nil, nil, false
	}
	if !nclean {
		doc := "?"
		if len(n) < len(docs) {
			doc = hexShort(docs[len(n)])
		}
		c.Failf("with a 32-bit int the process dies on %s, which the 64-bit one survives: %s", doc, tail)
		return nil, nil, false
	}
	return w, n, true
}

func outcomeClass(s string) string {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i]
	}
	return s
}

func hasAnyByte(b []byte, set ...byte) bool {
	for _, x := range set {
		if bytes.IndexByte(b, x) >= 0 {
			return true
		}
	}
	return false
}

func hasMapByte(b []byte) bool {
	for _, x := range b {
		if x >= 0x80 && x <= 0x8f || x == 0xde || x == 0xdf {
			return true
		}
	}
	return false
}

func narrowDocs(c *Case, k int) [][]byte {
	var docs [][]byte
	for i := 0; i < k; i++ {
		var b []byte
		switch c.Intn(9) {
		case 8: // integers of every form, alone and in a list
			k := 1 + c.Intn(9)
			b = []byte{0x90 + byte(k)}
			for j := 0; j < k; j++ {
				x := uint64(genLong(c.RNG))
				switch c.Intn(4) {
				case 0:
					b = be32(append(b, []byte{0xce, 0xd2}[c.Intn(2)]), x&(1<<32-1))
				case 1:
					b = be16(append(b, []byte{0xcd, 0xd1}[c.Intn(2)]), x&(1<<16-1))
				default:
					b = be64(append(b, []byte{0xcf, 0xd3}[c.Intn(2)]), x)
				}
			}
			if k == 1 {
				b = b[1:]
			}
		case 0:
			b = append(append([]byte{}, bombHeads[c.Intn(len(bombHeads))]...), c.Bytes(c.Intn(20))...)
			if c.P(1, 3) {
				b = append([]byte{0x81, byte(1 + c.Intn(12))}, b...)
			}
		case 1: // any 32-bit size near the limits
			s := uint64(1)<<31 + uint64(c.Intn(40)) - 20
			if c.Bool() {
				s = uint64(1)<<32 - 1 - uint64(c.Intn(40))
			}
			if c.P(1, 4) {
				s = c.U64() & (1<<32 - 1)
			}
			b = be32([]byte{[]byte{0xc6, 0xc9, 0xdb, 0xdd, 0xdf}[c.Intn(5)]}, s)
			b = append(b, c.Bytes(c.Intn(40))...)
			switch c.Intn(5) {
			case 0:
				b = append([]byte{0x92, 0x01}, b...)
			case 1:
				b = append([]byte{0x81, byte(1 + c.Intn(12))}, b...)
			case 2:
				b = append([]byte{0x81, 7, 0x81, byte(1 + c.Intn(2))}, b...)
			}
		case 2:
			b = sysDocs[c.Intn(len(sysDocs))]
		case 3:
			b = mutate(c.RNG, sysDocs[c.Intn(len(sysDocs))])
		case 4:
			b, _, _ = genForeign(c.RNG)
		case 5:
			b, _, _ = genForeign(c.RNG)
			b = mutate(c.RNG, b)
		case 6:
			b = validStructDoc(c.RNG)
		default:
			b = mutate(c.RNG, validStructDoc(c.RNG))
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
		docs = append(docs, b)
	}
	return docs
}

// narrowKeyDoc gives a map with integer keys of any size, the same map with
// the keys that are no 32-bit integers written as their text, and whether
// there are any.
func narrowKeyDoc(r *RNG) (doc, text []byte, any bool) {
	k := 1 + r.Intn(12)
	doc, text = []byte{0x80 + byte(k)}, []byte{0x80 + byte(k)}
	seen := map[int64]bool{} // the order among equal keys is not promised
	for i := 0; i < k; {
		var x int64
		switch r.Intn(8) {
		case 0, 1, 2:
			x = int64(r.Intn(40)) - 10
		case 3:
			x = 1<<31 - 3 + int64(r.Intn(6))
		case 4:
			x = -1<<31 - 3 + int64(r.Intn(6))
		case 5:
			x = 1<<32 + int64(r.Intn(6)) - 3
		case 6:
			x = (int64(r.Intn(9))-4)<<32 + int64(r.Intn(20))
		default:
			x = genLong(r)
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		doc = appendInt64Form(doc, x)
		if int64(int32(x)) == x {
			text = appendInt64Form(text, x)
		} else {
			any = true
			s := strconv.FormatInt(x, 10)
			text = append(append(text, 0xa0+byte(len(s))), s...)
		}
		doc = append(doc, byte(i))
		text = append(text, byte(i))
		i++
	}
	return
}

func appendInt64Form(b []byte, x int64) []byte {
	return be64(append(b, 0xd3), uint64(x))
}

func init() {
	addSection("C05", Section{Name: "narrow", Serial: true, NoFast: true, N: n(6, 60), Run: func(c *Case) {
		docs := narrowDocs(c, 2500)
		_, nr, ok := narrowBoth(c, docs)
		if !ok {
			return
		}
		for i, l := range nr {
			for k, s := range l {
				c.Check(outcomeClass(s) != "panic", "with a 32-bit int %s of %s panics: %s", narrowEntries[k], hexShort(docs[i]), s)
			}
		}
		c.Count("narrow-docs", int64(len(docs)))
		for _, d := range docs {
			c.DistinctB(d)
		}
	}})
	addSection("C06", Section{Name: "narrow", Serial: true, NoFast: true, N: n(4, 40), Run: func(c *Case) {
		docs := narrowDocs(c, 2500)
		for i := range docs {
			if c.Bool() && len(docs[i]) > 1 {
				docs[i] = docs[i][:1+c.Intn(len(docs[i])-1)]
			}
		}
		w, nr, ok := narrowBoth(c, docs)
		if !ok {
			return
		}
		for i := range docs {
			for k, s := range nr[i] {
				c.Check(outcomeClass(s) != "ok" || outcomeClass(w[i][k]) == "ok", "with a 32-bit int %s of %s gives %s, with a 64-bit one %s", narrowEntries[k], hexShort(docs[i]), s, w[i][k])
			}
		}
		c.Count("narrow-docs", int64(len(docs)))
		for _, d := range docs {
			c.DistinctB(d)
		}
	}})
	addSection("C03", Section{Name: "narrow", Serial: true, NoFast: true, N: n(4, 40), Run: func(c *Case) {
		docs := narrowDocs(c, 2500)
		w, nr, ok := narrowBoth(c, docs)
		if !ok {
			return
		}
		same := 0
		for i := range docs {
			if hasMapByte(docs[i]) && hasAnyByte(docs[i], 0xce, 0xcf, 0xd2, 0xd3) {
				continue // may have integers as keys that are no indexes there
			}
			for k, s := range nr[i] {
				if outcomeClass(s) != "ok" || outcomeClass(w[i][k]) != "ok" {
					continue
				}
				same++
				c.Check(s == w[i][k], "with a 32-bit int %s of %s gives %s, with a 64-bit one %s", narrowEntries[k], hexShort(docs[i]), s, w[i][k])
			}
		}
		c.Count("narrow-same", int64(same))
	}})
	addSection("C03", Section{Name: "narrow-keys", Serial: true, NoFast: true, N: n(2, 20), Run: func(c *Case) {
		var docs, texts [][]byte
		for len(docs) < 3000 {
			d, t, any := narrowKeyDoc(c.RNG)
			if any {
				docs, texts = append(docs, d), append(texts, t)
			}
		}
		_, nr, ok := narrowBoth(c, append(append([][]byte{}, docs...), texts...))
		if !ok {
			return
		}
		for i := range docs {
			for k := 0; k < 5; k++ {
				got, want := nr[i][k], nr[len(docs)+i][k]
				c.Check(got == want && outcomeClass(got) == "ok", "with a 32-bit int %s of the map %s gives %s, of the one with its large keys as text %s: %s", narrowEntries[k], hexShort(docs[i]), got, hexShort(texts[i]), want)
			}
		}
		c.Count("narrow-keys", int64(len(docs)))
		for _, d := range docs {
			c.DistinctB(d)
		}
	}})
}
