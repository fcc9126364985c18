package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	"github.com/codeallergy/value"
)

// ------------------------------------------------------------------ C07

func streamModel(r *RNG) *MV {
	switch r.Intn(8) {
	case 0:
		return mNil // a nil interface sent to the channel
	case 1:
		return mExt(extTags[r.Intn(len(extTags))], string(r.Bytes([]int{1, 2, 4, 8, 16}[r.Intn(5)])))
	case 2:
		return mRaw(string(r.Bytes(r.Intn(60))))
	case 3:
		return mList(mExt(7, string(r.Bytes(4))), mExt(9, string(r.Bytes(16))), mStr(genStr(r, 40)))
	case 4:
		if r.P(1, 40) {
			return mStr(strings.Repeat("x", 60000+r.Intn(90000)))
		}
		return genScalar(r, &GenOpt{MaxStr: 300})
	default:
		return gen(r, GenOpt{Depth: 3, Budget: 14, MaxStr: 60})
	}
}

func mkStream(c *Case, k int) (vals []value.Value, ms []*MV, enc []byte, ends []int) {
	for i := 0; i < k; i++ {
		m := streamModel(c.RNG)
		var v value.Value
		if m.K != KNil {
			v, m = mk(c, m, BuildOpt{})
		}
		vals = append(vals, v)
		ms = append(ms, m)
		enc = append(enc, refEncode(m)...)
		ends = append(ends, len(enc))
	}
	return
}

// fragment carries bytes from src to dst in random pieces, splitting and
// merging what the writer produced, and stops after limit bytes when that is
// not negative (closing with err).
func fragment(r *RNG, src io.Reader, dst *io.PipeWriter, limit int, err error) {
	buf := make([]byte, 1+r.Intn(2000))
	sent := 0
	for {
		k, e := src.Read(buf[:1+r.Intn(len(buf))])
		p := buf[:k]
		if limit >= 0 && sent+len(p) > limit {
			p = p[:limit-sent]
		}
		for len(p) > 0 {
			n := 1 + r.Intn(len(p))
			if r.P(1, 3) {
				n = 1
			}
			if _, werr := dst.Write(p[:n]); werr != nil {
				break
			}
			sent += n
			p = p[n:]
			if r.P(1, 8) {
				runtime.Gosched()
			}
		}
		if limit >= 0 && sent >= limit {
			dst.CloseWithError(err)
			io.Copy(io.Discard, src)
			return
		}
		if e != nil {
			dst.Close()
			return
		}
	}
}

func wrapReader(r *RNG, rd io.Reader) (io.Reader, string) {
	switch r.Intn(5) {
	case 0:
		return bufio.NewReaderSize(rd, 16+r.Intn(100)), "bufio"
	case 1:
		return iotest.OneByteReader(rd), "one byte"
	case 2:
		return iotest.HalfReader(rd), "half"
	default:
		return plainReader{rd}, "plain"
	}
}

func init() {
	register(&Prop{
		ID:    "C07",
		Rule:  "a case is one stream of values through WriteStream, a connection and ReadStream with random channel capacities; the log of sent and received values is checked for exactly-once, order and content, at once and again after the stream ended; distinct = different streams",
		Needs: []string{"delivered", "retained", "lockstep", "broken", "producers"},
		Sections: []Section{
			{Name: "lockstep", N: n(3000, 60000), Run: func(c *Case) {
				k := 1 + c.Intn(8)
				vals, ms, _, _ := mkStream(c, k)
				in := make(chan value.Value, c.Intn(9))
				out := make(chan value.Value, c.Intn(9))
				pr, pw := io.Pipe()
				werr, rerr := make(chan error, 1), make(chan error, 1)
				var rd io.Reader = pr
				how := "io.Pipe"
				if c.P(2, 3) {
					rd, how = wrapReader(c.RNG, pr)
				}
				c.Note("lockstep over %s, channel capacities %d and %d", how, cap(in), cap(out))
				go func() { err := value.WriteStream(pw, in); pw.Close(); werr <- err }()
				go func() { rerr <- value.ReadStream(rd, out) }()
				var got []value.Value
				for i := range vals {
					in <- vals[i]
					// the next value is not sent before this one arrived
					v, ok := <-out
					c.Check(ok, "the reader's channel is closed before value %d of %d", i, k)
					got = append(got, v)
					c.same(project(v), ms[i].wire(), "value %d of %d", i, k)
					c.Count("lockstep", 1)
				}
				close(in)
				_, more := <-out
				c.Check(!more, "a value more than the %d sent is delivered", k)
				we, re := <-werr, <-rerr
				c.Check(we == nil, "WriteStream returns %v", we)
				c.Check(re == io.EOF, "ReadStream returns %v at the end of the input", re)
				for i, v := range got {
					c.same(project(v), ms[i].wire(), "value %d of %d, looked at after the stream ended", i, k)
					c.Count("retained", 1)
				}
				c.Distinct(uint64(c.Index))
			}},
			{Name: "pipelined", N: n(3000, 60000), Run: func(c *Case) {
				k := 1 + c.Intn(60)
				vals, ms, _, _ := mkStream(c, k)
				in := make(chan value.Value, c.Intn(9))
				out := make(chan value.Value, c.Intn(9))
				pr, pw := io.Pipe()
				pr2, pw2 := io.Pipe()
				werr, rerr := make(chan error, 1), make(chan error, 1)
				fr := NewRNG(c.U64())
				rd, how := wrapReader(c.RNG, pr2)
				c.Note("%d values over a fragmenting connection and %s reader, capacities %d and %d", k, how, cap(in), cap(out))
				go func() { err := value.WriteStream(pw, in); pw.Close(); werr <- err }()
				go fragment(fr, pr, pw2, -1, nil)
				go func() { rerr <- value.ReadStream(rd, out) }()
				go func() {
					for _, v := range vals {
						in <- v
					}
					close(in)
				}()
				var got []value.Value
				for v := range out {
					i := len(got)
					c.Check(i < k, "more than the %d values sent are delivered", k)
					c.same(project(v), ms[i].wire(), "value %d of %d", i, k)
					got = append(got, v)
					if c.P(1, 6) {
						runtime.Gosched()
					}
				}
				c.Check(len(got) == k, "%d of %d values are delivered", len(got), k)
				we, re := <-werr, <-rerr
				c.Check(we == nil, "WriteStream returns %v", we)
				c.Check(re == io.EOF, "ReadStream returns %v at the end of the input", re)
				for i, v := range got {
					c.same(project(v), ms[i].wire(), "value %d of %d, looked at after the stream ended", i, k)
				}
				c.Count("delivered", int64(k))
				c.Count("retained", int64(k))
				c.Distinct(uint64(c.Index))
			}},
			{Name: "producers", N: n(600, 10000), Run: func(c *Case) {
				p := 2 + c.Intn(5)
				per := 1 + c.Intn(40)
				in := make(chan value.Value, c.Intn(9))
				out := make(chan value.Value, c.Intn(9))
				pr, pw := io.Pipe()
				werr, rerr := make(chan error, 1), make(chan error, 1)
				c.Note("%d producers of %d values, capacities %d and %d", p, per, cap(in), cap(out))
				go func() { err := value.WriteStream(pw, in); pw.Close(); werr <- err }()
				rd, _ := wrapReader(c.RNG, pr)
				go func() { rerr <- value.ReadStream(rd, out) }()
				var wg sync.WaitGroup
				for j := 0; j < p; j++ {
					wg.Add(1)
					go func(j int) {
						defer wg.Done()
						for i := 0; i < per; i++ {
							in <- value.Tuple(value.Long(int64(j)), value.Long(int64(i)), value.Unknown([]byte{9, byte(j), byte(i), 3, 4}))
						}
					}(j)
				}
				go func() { wg.Wait(); close(in) }()
				next := make([]int, p)
				var got []value.Value
				var order uint64
				for v := range out {
					l, ok := v.(value.List)
					c.Check(ok && l.Len() == 3, "received %v", v)
					j, i := int(l.GetNumberAt(0).Long()), int(l.GetNumberAt(1).Long())
					c.Check(j >= 0 && j < p && next[j] == i, "producer %d: received its value %d, expected %d", j, i, next[j])
					next[j]++
					got = append(got, v)
					order = order*31 + uint64(j)
				}
				for j := range next {
					c.Check(next[j] == per, "producer %d: %d of %d values delivered", j, next[j], per)
				}
				we, re := <-werr, <-rerr
				c.Check(we == nil && re == io.EOF, "WriteStream returns %v, ReadStream %v", we, re)
				for _, v := range got {
					l := v.(value.List)
					j, i := l.GetNumberAt(0).Long(), l.GetNumberAt(1).Long()
					c.same(project(v), mList(mLong(j), mLong(i), mExt(9, string([]byte{byte(j), byte(i), 3, 4}))), "a value looked at after the stream ended")
				}
				c.Count("producers", int64(p))
				c.Distinct(order)
			}},
			{Name: "broken", N: n(3000, 50000), Run: func(c *Case) {
				k := 1 + c.Intn(12)
				if c.P(1, 30) {
					k = 60 + c.Intn(600)
				}
				vals, ms, enc, ends := mkStream(c, k)
				cut := c.Intn(len(enc) + 1)
				if k > 12 {
					cut = c.Range(len(enc)*9/10, len(enc))
				}
				if c.P(1, 3) {
					cut = ends[c.Intn(len(ends))]
				}
				var cause error
				if c.Bool() {
					cause = genFault(c.RNG)
				}
				whole, boundary := 0, cut == 0
				for i, e := range ends {
					if e <= cut {
						whole = i + 1
						boundary = e == cut
					}
				}
				in := make(chan value.Value, k)
				out := make(chan value.Value, c.Intn(9))
				pr, pw := io.Pipe()
				pr2, pw2 := io.Pipe()
				werr, rerr := make(chan error, 1), make(chan error, 1)
				fr := NewRNG(c.U64())
				rd, how := wrapReader(c.RNG, pr2)
				c.Note("connection broken (%v) after %d of %d bytes, objects end at %v, %s reader", cause, cut, len(enc), ends, how)
				go func() { err := value.WriteStream(pw, in); pw.Close(); werr <- err }()
				go fragment(fr, pr, pw2, cut, cause)
				go func() { rerr <- value.ReadStream(rd, out) }()
				for _, v := range vals {
					in <- v
				}
				close(in)
				i := 0
				for v := range out {
					c.Check(i < whole, "value %d is delivered although only %d arrived whole", i, whole)
					c.same(project(v), ms[i].wire(), "value %d of %d", i, k)
					i++
				}
				we, re := <-werr, <-rerr
				c.Check(i == whole, "%d values are delivered, %d arrived whole", i, whole)
				c.Check(we == nil, "WriteStream returns %v", we)
				clean := boundary && cause == nil
				c.Check(re != nil && (re == io.EOF) == clean, "ReadStream returns %v", re)
				c.Count("broken", 1)
				c.Count("delivered", int64(i))
				c.Distinct(fnv64(string(enc[:cut])))
			}},
		},
	})
}

// ------------------------------------------------------------------ C08

type readerKind struct {
	name string
	mk   func(r *RNG, b []byte) (rd io.Reader, left func() int) // left: bytes not consumed, or -1
}

var readerKinds = []readerKind{
	{"bytes.Reader", func(r *RNG, b []byte) (io.Reader, func() int) { x := bytes.NewReader(b); return x, x.Len }},
	{"bytes.Buffer", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := bytes.NewBuffer(append([]byte{}, b...))
		return x, x.Len
	}},
	{"strings.Reader", func(r *RNG, b []byte) (io.Reader, func() int) { x := strings.NewReader(string(b)); return x, x.Len }},
	{"plain", func(r *RNG, b []byte) (io.Reader, func() int) { x := bytes.NewReader(b); return plainReader{x}, x.Len }},
	{"one byte", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := bytes.NewReader(b)
		return iotest.OneByteReader(x), x.Len
	}},
	{"half", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := bytes.NewReader(b)
		return iotest.HalfReader(x), x.Len
	}},
	{"data with EOF", func(r *RNG, b []byte) (io.Reader, func() int) { return iotest.DataErrReader(bytes.NewReader(b)), nil }},
	{"zoo", func(r *RNG, b []byte) (io.Reader, func() int) {
		z := newZoo(r, b)
		return z, func() int { return len(b) - z.off }
	}},
	{"zoo with ReadByte", func(r *RNG, b []byte) (io.Reader, func() int) {
		z := newZoo(r, b)
		return zooByteReader{z}, func() int { return len(b) - z.off }
	}},
	{"empty reads", func(r *RNG, b []byte) (io.Reader, func() int) {
		z := newZoo(r, b)
		z.zeros, z.max = 5, 1+r.Intn(3)
		return z, func() int { return len(b) - z.off }
	}},
	{"bufio", func(r *RNG, b []byte) (io.Reader, func() int) {
		z := newZoo(r, b)
		x := bufio.NewReaderSize(z, 16+r.Intn(64))
		return x, func() int { return len(b) - z.off + x.Buffered() }
	}},
	{"multi", func(r *RNG, b []byte) (io.Reader, func() int) {
		i := r.Intn(len(b) + 1)
		x, y := bytes.NewReader(b[:i]), bytes.NewReader(b[i:])
		return io.MultiReader(x, y), func() int { return x.Len() + y.Len() }
	}},
	{"io.Pipe", func(r *RNG, b []byte) (io.Reader, func() int) {
		pr, pw := io.Pipe()
		q := NewRNG(r.U64())
		b = append([]byte{}, b...)
		go func() {
			for len(b) > 0 {
				k := 1 + q.Intn(len(b))
				if q.Bool() {
					k = 1 + q.Intn(3)
					if k > len(b) {
						k = len(b)
					}
				}
				if _, err := pw.Write(b[:k]); err != nil {
					return
				}
				b = b[k:]
			}
			pw.Close()
		}()
		return pr, nil
	}},
	{"io.LimitedReader", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := bytes.NewReader(append(append([]byte{}, b...), 0xc3, 0x01, 0xc0))
		lr := &io.LimitedReader{R: x, N: int64(len(b))}
		if r.Bool() {
			lr.R = plainReader{x}
		}
		return lr, func() int {
			if int64(x.Len())-3 != lr.N {
				return -1
			}
			return x.Len() - 3
		}
	}},
	{"io.SectionReader", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := io.NewSectionReader(bytes.NewReader(append(append([]byte{0xc3, 0x01}, b...), 0xc3, 0x01, 0xc0)), 2, int64(len(b)))
		return x, func() int {
			at, err := x.Seek(0, io.SeekCurrent)
			if err != nil {
				return -1
			}
			return len(b) - int(at)
		}
	}},
	{"io.TeeReader", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := newZoo(r, b)
		var seen bytes.Buffer
		return io.TeeReader(x, &seen), func() int {
			if !bytes.Equal(seen.Bytes(), b[:min(seen.Len(), len(b))]) {
				return -1
			}
			return len(b) - seen.Len()
		}
	}},
	{"os.File", func(r *RNG, b []byte) (io.Reader, func() int) {
		f, err := os.CreateTemp("", "verif-c08-")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		keepOpen(f)
		if _, err = f.Write(b); err == nil {
			_, err = f.Seek(0, io.SeekStart)
		}
		if err != nil {
			panic(err)
		}
		return f, func() int {
			at, err := f.Seek(0, io.SeekCurrent)
			if err != nil {
				return -1
			}
			return len(b) - int(at)
		}
	}},
	{"bufio.ReadWriter", func(r *RNG, b []byte) (io.Reader, func() int) {
		x := bytes.NewReader(b)
		rw := bufio.NewReadWriter(bufio.NewReaderSize(x, 16+r.Intn(300)), bufio.NewWriter(io.Discard))
		return rw, func() int { return x.Len() + rw.Reader.Buffered() }
	}},
	{"net.Conn", func(r *RNG, b []byte) (io.Reader, func() int) {
		a, z := net.Pipe()
		q := NewRNG(r.U64())
		b = append([]byte{}, b...)
		go func() {
			for len(b) > 0 {
				k := min(1+q.Intn(200), len(b))
				if _, err := z.Write(b[:k]); err != nil {
					return
				}
				b = b[k:]
			}
			z.Close()
		}()
		return a, nil
	}},
}

// keepOpen closes the files of long ago.
func keepOpen(f *os.File) {
	filesMu.Lock()
	defer filesMu.Unlock()
	if files = append(files, f); len(files) > 300 {
		files[0].Close()
		files = files[1:]
	}
}

var (
	filesMu sync.Mutex
	files   []*os.File
)

type outcome struct {
	m   *MV
	err string // "", "EOF", "unexpected EOF", "error"
	end int
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "unexpected EOF"
	}
	return "error"
}

// fromMemory decodes object after object from memory until the first error.
func fromMemory(b []byte, max int) (out []outcome) {
	up, ps := value.MessageUnpacker(b, true), value.MessageParser()
	for i := 0; i < max; i++ {
		v, err := value.Parse(up, ps)
		o := outcome{err: errClass(err)}
		if err != nil {
			return append(out, o)
		}
		o.m = project(v)
		out = append(out, o)
	}
	return
}

func readerAgrees(c *Case, b []byte, k readerKind, ends []int) {
	want := fromMemory(b, len(b)+1)
	// successive Reads
	rd, left := k.mk(c.RNG, b)
	var got []value.Value
	for i, w := range want {
		v, err := value.Read(rd)
		c.Check(errClass(err) == w.err, "%s: Read %d gives the error %v, from memory it is %q", k.name, i, err, w.err)
		if err != nil {
			break
		}
		got = append(got, v)
		c.same(project(v), w.m, "%s: Read %d against decoding from memory", k.name, i)
		if left != nil && i < len(ends) {
			c.Check(left() == len(b)-ends[i], "%s: after Read %d the reader has %d bytes left, the object ends at %d of %d", k.name, i, left(), ends[i], len(b))
			c.Count("consumption", 1)
		}
	}
	for i, v := range got {
		c.same(project(v), want[i].m, "%s: value %d, looked at after later reads", k.name, i)
	}
	// one unpacker for all
	rd, _ = k.mk(c.RNG, b)
	up, ps := value.MessageReader(rd), value.MessageParser()
	got = got[:0]
	for i, w := range want {
		v, err := value.Parse(up, ps)
		c.Check(errClass(err) == w.err, "%s: Parse %d gives the error %v, from memory it is %q", k.name, i, err, w.err)
		if err != nil {
			break
		}
		got = append(got, v)
	}
	for i, v := range got {
		c.same(project(v), want[i].m, "%s: parsed value %d, looked at after later reads", k.name, i)
	}
	// a stream
	rd, _ = k.mk(c.RNG, b)
	out := make(chan value.Value, len(want)+1)
	err := value.ReadStream(rd, out)
	got = got[:0]
	for v := range out {
		got = append(got, v)
	}
	last := want[len(want)-1]
	c.Check(len(got) == len(want)-1, "%s: ReadStream delivers %d values, from memory there are %d", k.name, len(got), len(want)-1)
	c.Check(errClass(err) == last.err, "%s: ReadStream returns %v, from memory it is %q", k.name, err, last.err)
	for i, v := range got {
		c.same(project(v), want[i].m, "%s: stream value %d", k.name, i)
	}
	c.Count("objects", int64(len(want)-1))
	c.Count("reader:"+k.name, 1)
}

func genConcat(c *Case, foreign bool) (b []byte, ends []int) {
	for i := 1 + c.Intn(5); i > 0; i-- {
		var o []byte
		switch {
		case foreign:
			o, _, _ = genForeign(c.RNG)
		case c.P(1, 200):
			o = refEncode(mList(mRaw(string(c.Bytes(60000+c.Intn(90000)))), mLong(1)))
		default:
			o = refEncode(streamModel(c.RNG))
		}
		b = append(b, o...)
		ends = append(ends, len(b))
	}
	return
}

func init() {
	register(&Prop{
		ID:    "C08",
		Rule:  "a case is one byte string (several objects, sometimes malformed or truncated) read through a reader that splits it in its own way, against decoding from memory; or a reader failing at a chosen offset; distinct = different byte strings",
		Needs: []string{"objects", "consumption", "faults", "reader:plain", "reader:empty reads", "reader:io.Pipe", "reader:data with EOF", "reader:io.LimitedReader", "reader:io.SectionReader", "reader:os.File", "reader:net.Conn"},
		Sections: []Section{
			{Name: "objects", N: n(6000, 200000), Run: func(c *Case) {
				b, ends := genConcat(c, c.Bool())
				k := readerKinds[c.Index%len(readerKinds)]
				c.Note("%s reader, bytes %s", k.name, hexShort(b))
				c.Sample("%s: %s", k.name, hexShort(b))
				readerAgrees(c, b, k, ends)
				c.DistinctB(b)
			}},
			{Name: "every-format", N: n(len(sysDocs)*2, len(sysDocs)*10), Run: func(c *Case) {
				b := sysDocs[c.Index%len(sysDocs)]
				k := readerKinds[c.Intn(len(readerKinds))]
				c.Note("%s reader, bytes %s", k.name, hexShort(b))
				readerAgrees(c, append(append([]byte{}, b...), 0x01), k, []int{len(b)})
				c.DistinctB(b)
			}},
			{Name: "large", N: n(40, 1000), Run: func(c *Case) {
				sizes := []int{255, 256, 4095, 4096, 4097, 32767, 65535, 65536, 65537, 131072, 200000, 1 << 20}
				size := sizes[c.Intn(len(sizes))] + c.Intn(3) - 1
				s := string(c.Bytes(size))
				m := []*MV{mStr(s), mRaw(s), mExt(77, s), mList(mRaw(s), mStr(s), mLong(1))}[c.Intn(4)]
				b := refEncode(m)
				ends := []int{len(b)}
				b = append(b, 0x05)
				k := readerKinds[c.Index%len(readerKinds)]
				c.Note("%s reader, %v", k.name, m)
				readerAgrees(c, b, k, append(ends, len(b)))
				c.DistinctB(b[:100])
			}},
			{Name: "malformed", N: n(8000, 200000), Run: func(c *Case) {
				b, _ := genConcat(c, true)
				b = mutate(c.RNG, b)
				// huge claims are a matter of C05; here they are only slow
				k := readerKinds[c.Index%len(readerKinds)]
				c.Note("%s reader, bytes %s", k.name, hexShort(b))
				readerAgrees(c, b, k, nil)
				c.DistinctB(b)
			}},
			{Name: "faults", N: n(3000, 60000), Run: func(c *Case) {
				b, ends := genConcat(c, c.Bool())
				for _, at := range cuts(c.RNG, len(b)+1, 60) {
					whole := 0
					for i, e := range ends {
						if e <= at {
							whole = i + 1
						}
					}
					mkr := func() (io.Reader, string) {
						z := newZoo(c.RNG, b)
						z.failAt = at
						z.withErr = c.Bool()
						z.err = genFault(c.RNG)
						switch c.Intn(6) {
						case 3:
							return io.LimitReader(z, int64(len(b)+1)), "limited"
						case 4:
							return io.TeeReader(z, io.Discard), "tee"
						case 0:
							return zooByteReader{z}, "with ReadByte"
						case 1:
							return bufio.NewReaderSize(z, 16), "buffered"
						}
						return z, "plain"
					}
					rd, how := mkr()
					c.Note("%s reader failing at %d, objects end at %v, bytes %s", how, at, ends, hexShort(b))
					for i := 0; ; i++ {
						v, err := value.Read(rd)
						if err != nil {
							c.Check(i == whole, "Read %d fails (%v) although %d objects arrived whole before the fault at %d", i, err, whole, at)
							c.Check(err != io.EOF, "a reader failure at %d is reported as io.EOF", at)
							break
						}
						c.Check(i < whole, "Read %d succeeds with %v although only %d objects arrived before the fault at %d", i, v, whole, at)
					}
					rd, how = mkr()
					out := make(chan value.Value, len(ends)+1)
					err := value.ReadStream(rd, out)
					got := 0
					for range out {
						got++
					}
					c.Check(got == whole, "ReadStream delivers %d values, %d arrived before the fault at %d (%s)", got, whole, at, how)
					c.Check(err != nil && err != io.EOF, "ReadStream reports %v for a reader failure at %d", err, at)
					c.Count("faults", 1)
				}
				c.DistinctB(b)
			}},
		},
	})
}

// ------------------------------------------------------------------ C09

// failWriter accepts bytes up to a limit (or calls up to a limit), then fails.
type failWriter struct {
	limit   int // bytes accepted, -1 unlimited
	calls   int // calls accepted, -1 unlimited
	partial bool
	all     bool // the failing call reports all bytes taken, with the error
	err     error
	failed  bool
	after   int // bytes offered after the failure
	got     []byte
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after += len(p)
		return 0, errors.New("a later error")
	}
	if w.calls == 0 {
		w.failed = true
		if w.all {
			w.got = append(w.got, p...)
			return len(p), w.err
		}
		return 0, w.err
	}
	if w.calls > 0 {
		w.calls--
	}
	if w.limit >= 0 && len(w.got)+len(p) > w.limit {
		w.failed = true
		k := 0
		if w.partial {
			k = w.limit - len(w.got)
		}
		w.got = append(w.got, p[:k]...)
		return k, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

func newFail(r *RNG, limit int) *failWriter {
	w := &failWriter{limit: limit, calls: -1, partial: r.Bool(), err: genFault(r)}
	switch r.Intn(8) {
	case 0:
		w.err = io.EOF
	case 1:
		w.err = io.ErrShortWrite
	}
	return w
}

func (w *failWriter) verdict(c *Case, err error, enc []byte, how string) {
	if !w.failed {
		c.Check(err == nil, "%s: the writer never failed, but the error is %v", how, err)
		c.sameBytes(w.got, enc, "%s without a failure", how)
		c.Count("clean", 1)
		return
	}
	c.Check(err != nil, "%s: the writer failed after %d of %d bytes and no error is reported", how, len(w.got), len(enc))
	c.Check(errors.Is(err, w.err), "%s: the writer failed with %q and the error is %q", how, w.err, err)
	c.Check(w.after == 0, "%s: %d more bytes are offered after the failure", how, w.after)
	c.Check(bytes.HasPrefix(enc, w.got), "%s: the %d bytes accepted before the failure are no prefix of the encoding", how, len(w.got))
	c.Count("failures", 1)
}

type packOp struct {
	run func(p value.Packer)
	enc []byte
}

func genPackOp(r *RNG) packOp {
	switch r.Intn(10) {
	case 0:
		return packOp{func(p value.Packer) { p.PackNil() }, []byte{0xc0}}
	case 1:
		b := r.Bool()
		return packOp{func(p value.Packer) { p.PackBool(b) }, refEncode(mBool(b))}
	case 2:
		v := genLong(r)
		return packOp{func(p value.Packer) { p.PackLong(v) }, encInt(nil, v, nil)}
	case 3:
		f := genDouble(r, false)
		return packOp{func(p value.Packer) { p.PackDouble(f) }, refEncode(mDouble(f))}
	case 4:
		s := genStr(r, 300)
		return packOp{func(p value.Packer) { p.PackStr(s) }, encStr(nil, s, nil)}
	case 5:
		s := genStr(r, 300)
		return packOp{func(p value.Packer) { p.PackBin([]byte(s)) }, refEncode(mRaw(s))}
	case 6:
		t, d := byte(r.U64()), r.Bytes(extLens[r.Intn(len(extLens))])
		return packOp{func(p value.Packer) { p.PackExt(value.Ext(t), d) }, encExt(nil, t, d, nil)}
	case 7:
		k := boundaryLens[r.Intn(len(boundaryLens))]
		return packOp{func(p value.Packer) { p.PackList(k) }, encHeader(nil, k, 15, 0x90, 0, 0xdc, 0xdd, nil)}
	case 8:
		k := boundaryLens[r.Intn(len(boundaryLens))]
		return packOp{func(p value.Packer) { p.PackMap(k) }, encHeader(nil, k, 15, 0x80, 0, 0xde, 0xdf, nil)}
	default:
		d := r.Bytes(r.Intn(30))
		return packOp{func(p value.Packer) { p.PackRaw(d) }, d}
	}
}

func init() {
	register(&Prop{
		ID:    "C09",
		Rule:  "a case is one value, stream or packer call sequence written to a writer failing at every byte offset (sampled beyond 150) or call; the writer records what it accepted and what it was offered afterwards; distinct = different encodings",
		Needs: []string{"failures", "clean", "stream-failures", "op-failures", "call-failures"},
		Sections: []Section{
			{Name: "values", N: n(8000, 150000), Run: func(c *Case) {
				m := gen(c.RNG, GenOpt{Depth: 1 + c.Intn(4), Budget: 3 + c.Intn(20), MaxStr: 80})
				v, m := mk(c, m, BuildOpt{})
				enc := refEncode(m)
				c.Note("value %v", m)
				c.Sample("%v", m)
				for _, at := range append(cuts(c.RNG, len(enc), 100), len(enc), len(enc)+1, -1) {
					w := newFail(c.RNG, at)
					err := value.Write(w, v)
					w.verdict(c, err, enc, fmt.Sprintf("Write with room for %d of %d bytes", at, len(enc)))
				}
				for calls := 0; calls < 12; calls++ {
					w := newFail(c.RNG, -1)
					w.calls, w.all = calls, c.P(1, 4)
					err := value.Write(w, v)
					if w.failed {
						c.Count("call-failures", 1)
					}
					w.verdict(c, err, enc, fmt.Sprintf("Write with the writer failing at call %d", calls))
				}
				c.DistinctB(enc)
			}},
			{Name: "scalars", N: n(len(sysScalars), len(sysScalars)), Run: func(c *Case) {
				m := sysScalars[c.Index]
				v, m := mk(c, m, BuildOpt{Plain: true})
				enc := refEncode(m)
				c.Note("value %v", m)
				for _, at := range append(cuts(c.RNG, len(enc), 60), len(enc)) {
					w := newFail(c.RNG, at)
					w.verdict(c, value.Write(w, v), enc, fmt.Sprintf("Write with room for %d bytes", at))
				}
				c.DistinctB(enc)
			}},
			{Name: "streams", N: n(4000, 80000), Run: func(c *Case) {
				k := 1 + c.Intn(5)
				vals, _, enc, ends := mkStream(c, k)
				for _, at := range append(cuts(c.RNG, len(enc), 50), len(enc)) {
					in := make(chan value.Value, k)
					// only the values up to the one that cannot be written whole are
					// there, and the channel stays open: WriteStream must not wait
					have := 0
					for have < k && (have == 0 || ends[have-1] <= at) {
						in <- vals[have]
						have++
					}
					closed := at >= len(enc) || c.P(1, 4)
					if closed {
						close(in)
					}
					w := newFail(c.RNG, at)
					c.Note("WriteStream with room for %d of %d bytes (objects end at %v), channel open: %v", at, len(enc), ends, !closed)
					type result struct {
						err error
						p   interface{}
					}
					end := make(chan result, 1)
					go func() {
						var r result
						r.p = try(func() { r.err = value.WriteStream(w, in) })
						end <- r
					}()
					var r result
					select {
					case r = <-end:
					case <-time.After(20 * time.Second):
						if !closed {
							close(in) // so that it can end
						}
						c.Failf("WriteStream still waits for values 20 s after the writer failed")
					}
					c.Check(r.p == nil, "WriteStream panics: %v", r.p)
					w.verdict(c, r.err, enc[:ends[have-1]], "WriteStream")
					if w.failed {
						c.Count("stream-failures", 1)
					}
				}
				c.DistinctB(enc)
			}},
			{Name: "packer-calls", N: n(10000, 200000), Run: func(c *Case) {
				var ops []packOp
				var enc []byte
				for i := 1 + c.Intn(8); i > 0; i-- {
					o := genPackOp(c.RNG)
					ops = append(ops, o)
					enc = append(enc, o.enc...)
				}
				for _, at := range append(cuts(c.RNG, len(enc), 40), len(enc)) {
					w := newFail(c.RNG, at)
					p := value.MessagePacker(w)
					upto := 0
					for _, o := range ops {
						o.run(p)
						upto += len(o.enc)
						err := p.Error()
						c.Check((err != nil) == w.failed, "after a call the packer's error is %v, the writer failed: %v", err, w.failed)
						if !w.failed {
							c.sameBytes(w.got, enc[:upto], "packer calls")
						}
					}
					w.verdict(c, p.Error(), enc, fmt.Sprintf("%d packer calls with room for %d of %d bytes", len(ops), at, len(enc)))
					c.Check(p.Error() == p.Error(), "the error changes")
					if w.failed {
						c.Count("op-failures", 1)
					}
				}
				c.DistinctB(enc)
			}},
		},
	})
}
