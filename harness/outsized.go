package main

import (
	"math"
	"sync"
	"syscall"
	"unsafe"

	"github.com/codeallergy/value"
)

// Sizes that no MessagePack header holds. The data is an anonymous mapping of
// zeros that nobody has to touch: a packer has to refuse by the size alone.

type countingWriter struct{ calls, bytes int }

func (w *countingWriter) Write(b []byte) (int, error) {
	w.calls++
	w.bytes += len(b)
	return len(b), nil
}

var (
	zerosOnce sync.Once
	zeros     []byte // shared by all cases, never unmapped
)

func init() {
	const limit = math.MaxUint32
	addSection("C02", Section{Name: "beyond", Serial: true, NoFast: true, N: n(12, 60), Run: func(c *Case) {
		extra := []int{1, 2, 16, 31, 256, 65536, 1 + c.Intn(1<<20)}[c.Index/2%7]
		if c.Index%2 == 0 {
			for _, k := range []int{limit + extra, 2*limit + 1 + extra, limit<<8 + extra, math.MaxInt64 - extra} {
				for name, f := range map[string]func(p value.Packer){
					"PackList": func(p value.Packer) { p.PackList(k) },
					"PackMap":  func(p value.Packer) { p.PackMap(k) },
				} {
					w := &countingWriter{}
					p := value.MessagePacker(w)
					f(p)
					c.Check(p.Error() != nil, "%s(%d) reports no error, no header holds the size; %d bytes written", name, k, w.bytes)
					c.Check(w.bytes == 0, "%s(%d) writes %d bytes and reports %v", name, k, w.bytes, p.Error())
					p.PackNil()
					c.Check(w.bytes == 0 && p.Error() != nil, "after %s(%d) the packer goes on", name, k)
					c.Count("beyond", 1)
				}
			}
			c.Distinct(uint64(c.Index))
			return
		}
		size := limit + extra
		zerosOnce.Do(func() {
			zeros, _ = syscall.Mmap(-1, 0, limit+1<<21, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		})
		if zeros == nil {
			c.Count("beyond-unmapped", 1)
			return
		}
		mem := zeros[:size:size]
		text := unsafe.String(&mem[0], len(mem))
		for name, f := range map[string]func(p value.Packer){
			"PackBin":                func(p value.Packer) { p.PackBin(mem) },
			"PackExt":                func(p value.Packer) { p.PackExt(value.Ext(9), mem) },
			"PackStr":                func(p value.Packer) { p.PackStr(text) },
			"packing a Raw":          func(p value.Packer) { value.Raw(mem, false).Pack(p) },
			"packing a Utf8":         func(p value.Packer) { value.Utf8(text).Pack(p) },
			"packing a list of Raws": func(p value.Packer) { value.ImmutableList([]value.Value{value.Raw(mem, false)}).Pack(p) },
		} {
			w := &countingWriter{}
			p := value.MessagePacker(w)
			f(p)
			c.Check(p.Error() != nil, "%s of %d bytes reports no error, no header holds the size; %d bytes written", name, size, w.bytes)
			c.Check(w.bytes <= 1, "%s of %d bytes writes %d bytes and reports %v", name, size, w.bytes, p.Error())
			c.Count("beyond", 1)
		}
		w := &countingWriter{}
		err := value.Write(w, value.Raw(mem, false))
		c.Check(err != nil, "Write of a Raw of %d bytes reports no error; %d bytes written", size, w.bytes)
		c.Distinct(uint64(c.Index))
	}})
}
