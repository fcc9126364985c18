package main

import (
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	"github.com/codeallergy/value"
)

// The "huge" sections: the last sizes at which a header, a limit or a buffer
// can change - 2^24 bytes, 2^20 elements, ten thousand levels. Serial, for
// memory's sake.

var hugeCases = func() (out []wideCase) {
	for _, k := range []string{"text", "raw", "ext", "long key"} {
		for _, n := range []int{8<<20 + 1, 10000001, 1<<24 - 1, 1 << 24, 1<<24 + 1, 20 << 20, 32<<20 + 1} {
			if k == "long key" && n > 1<<24 {
				continue
			}
			out = append(out, wideCase{k, n})
		}
	}
	for _, k := range []string{"list", "map", "sparse", "run of one key", "dense sparse"} {
		for _, n := range []int{100001, 131073, 262145, 1<<20 - 1, 1 << 20, 1<<20 + 1} {
			out = append(out, wideCase{k, n})
		}
	}
	for _, k := range wideDepthKinds {
		for _, n := range []int{5001, 8193, 10000} {
			out = append(out, wideCase{k, n})
		}
	}
	for _, n := range []int{65535, 65536, 100001} {
		out = append(out, wideCase{"number", n})
	}
	return
}()

func hugeSection(id string, stride int, keep func(w wideCase) bool, run func(c *Case, w wideCase)) {
	var cases []wideCase
	for _, w := range hugeCases {
		if keep == nil || keep(w) {
			cases = append(cases, w)
		}
	}
	addSection(id, Section{
		Name:   "huge",
		Serial: true,
		N: func() int {
			if thorough() {
				return len(cases)
			}
			return (len(cases) + stride - 1) / stride
		},
		Run: func(c *Case) {
			i := c.Index
			if !thorough() {
				i = (i*stride + c.Intn(stride)) % len(cases)
			}
			c.Count("huge", 1)
			run(c, cases[i])
		},
	})
	props[id].Needs = append(props[id].Needs, "huge")
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func init() {
	hugeSection("C01", 1, nil, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		roundTrip(c, v, m)
	})
	hugeSection("C02", 3, nil, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		conform(c, v, m)
	})
	hugeSection("C03", 2, nil, func(c *Case, w wideCase) {
		c.Note("%v", w)
		m := wideModel(c.RNG, w)
		b := refEnc(nil, m, foreignStyle(c.RNG))
		want, un := denoteDoc(b)
		decodeAllWays(c, b, want, un)
	})
	hugeSection("C07", 4, nil, func(c *Case, w wideCase) {
		v, m := wideMk(c, w)
		in := make(chan value.Value, 3)
		out := make(chan value.Value, c.Intn(2))
		in <- v
		in <- value.Long(5)
		in <- v
		close(in)
		pr, pw := io.Pipe()
		werr, rerr := make(chan error, 1), make(chan error, 1)
		go func() { err := value.WriteStream(pw, in); pw.Close(); werr <- err }()
		go func() { rerr <- value.ReadStream(pr, out) }()
		want := m.wire()
		k := 0
		for u := range out {
			switch k {
			case 0, 2:
				c.same(project(u), want, "value %d of the stream", k)
			case 1:
				c.Check(u == value.Value(value.Long(5)), "value 1 of the stream is %v", u)
			default:
				c.Failf("more values than were sent")
			}
			k++
		}
		we, re := <-werr, <-rerr
		c.Check(k == 3 && we == nil && re == io.EOF, "%d of 3 values of %v delivered; WriteStream %v, ReadStream %v", k, w, we, re)
		c.Count("delivered", int64(k))
	})
}

// ------------------------------------------------------------ time

// slowDocs are documents whose decoding or use takes far too long when any
// step works through the whole once per element.
type slowDoc struct {
	name string
	doc  func(r *RNG, n int) []byte
}

func keyOrder(order string, n int, r *RNG) []int {
	ks := make([]int, n)
	for i := range ks {
		switch order {
		case "falling":
			ks[i] = n - 1 - i
		case "rising":
			ks[i] = i
		case "organ pipe":
			if i < n/2 {
				ks[i] = 2 * i
			} else {
				ks[i] = 2*(n-1-i) + 1
			}
		case "one behind":
			ks[i] = (i + 1) % n
		case "two runs":
			ks[i] = i/2 + (i%2)*(n/2)
		case "equal":
			ks[i] = 7
		default:
			ks[i] = r.Intn(n)
		}
	}
	return ks
}

var slowDocs = func() (out []slowDoc) {
	for _, o := range []string{"falling", "rising", "organ pipe", "one behind", "two runs", "equal", "random"} {
		o := o
		for _, text := range []bool{false, true} {
			text := text
			out = append(out, slowDoc{fmt.Sprintf("map of %s keys (text %v)", o, text), func(r *RNG, n int) []byte {
				b := []byte{0xdf, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
				for _, k := range keyOrder(o, n, r) {
					if text {
						b = append(b, 0xa7)
						b = append(b, fmt.Sprintf("%07d", k)...)
					} else {
						b = append(b, 0xce, byte(k>>24), byte(k>>16), byte(k>>8), byte(k))
					}
					b = append(b, 0x01)
				}
				return b
			}})
		}
	}
	out = append(out, slowDoc{"list", func(r *RNG, n int) []byte {
		b := []byte{0xdd, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, 0xa3, 'a', '"', 0xff)
		}
		return b
	}}, slowDoc{"text", func(r *RNG, n int) []byte {
		n *= 8
		b := []byte{0xdb, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, "a\"\xff<\x00b"[i%6])
		}
		return b
	}}, slowDoc{"nest of lists", func(r *RNG, n int) []byte {
		var b []byte
		for i := 0; i < 90000; i++ {
			b = append(b, 0x91)
		}
		return append(b, 0x01)
	}}, slowDoc{"nest of maps", func(r *RNG, n int) []byte {
		var b []byte
		for i := 0; i < 90000; i++ {
			b = append(b, 0x81, 0xa1, 'k')
		}
		return append(b, 0x01)
	}}, slowDoc{"nest of sparse lists", func(r *RNG, n int) []byte {
		var b []byte
		for i := 0; i < 90000; i++ {
			b = append(b, 0x81, 0x05)
		}
		return append(b, 0x01)
	}})
	return
}()

const cpuLimit = 30 * time.Second

func init() {
	addSection("C05", Section{Name: "slow", Serial: true, N: n(len(slowDocs), len(slowDocs)*3), Run: func(c *Case) {
		d := slowDocs[c.Index%len(slowDocs)]
		size := 1000000
		b := d.doc(c.RNG, size)
		c.Note("%s, %d bytes", d.name, len(b))
		step := func(what string, f func()) {
			c.Note("%s of a %s, %d bytes", what, d.name, len(b))
			t := cpuTime()
			f()
			c.Check(cpuTime()-t < cpuLimit, "%s of a %s of %d bytes takes %v of processor time", what, d.name, len(b), cpuTime()-t)
			c.Count("timed", 1)
			if debugSlow {
				fmt.Fprintln(os.Stderr, "STEP", what, d.name, cpuTime()-t)
			}
		}
		var v, u value.Value
		step("Unpack", func() { v, _ = value.Unpack(b, false) })
		step("Read", func() { u, _ = value.Read(&bareReader{b: b}) })
		if v == nil || u == nil {
			return // rejected, and in time
		}
		step("Pack", func() { value.Pack(v) })
		step("Equal", func() { value.Equal(v, u) })
		step("Jsonify", func() { value.Jsonify(v) })
		step("String", func() { _ = v.String() })
		step("use", func() {
			switch x := v.(type) {
			case value.Map:
				c.Check(x.Len() >= 0 && len(x.Entries()) == len(x.Keys()) && len(x.Values()) == len(x.Keys()) && len(x.HashMap()) <= len(x.Keys()), "sizes of a %s", d.name)
			case value.List:
				c.Check(x.Len() >= 0 && len(x.Items()) >= 0, "sizes of a %s", d.name)
			}
		})
		step("Unmarshal", func() {
			var s struct {
				A value.Value `tag:"1"`
				B value.Value `tag:"7"`
			}
			_ = value.UnpackStruct(b, &s, true)
		})
		step("ReadStream", func() {
			out := make(chan value.Value, 2)
			err := value.ReadStream(&bareReader{b: b}, out)
			c.Check(err == io.EOF && len(out) == 1, "ReadStream of a %s: %v, %d values", d.name, err, len(out))
		})
		c.DistinctB(b)
	}})
	props["C05"].Needs = append(props["C05"].Needs, "timed")
}

var debugSlow = slowLog

// bareReader reads and can nothing else.
type bareReader struct{ b []byte }

func (r *bareReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
