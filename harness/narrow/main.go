// narrow is run twice, built for the native platform and for one where int
// has 32 bits: it reads length-prefixed documents, decodes each one in several
// ways and prints one line per document with the outcomes.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"os"

	"github.com/codeallergy/value"
)

type inner struct {
	S value.String `tag:"1"`
	V value.Value  `tag:"2"`
}

type outer struct {
	A value.Value   `tag:"1"`
	B value.Bool    `tag:"2"`
	N value.Number  `tag:"3"`
	S value.String  `tag:"4"`
	L value.List    `tag:"5"`
	M value.Map     `tag:"6"`
	I *inner        `tag:"7"`
	V []value.Value `tag:"8"`
	R []value.Value `tag:"9" repeated:"true"`
	P []*inner      `tag:"10"`
	Q []*inner      `tag:"11" repeated:"true"`
}

func describe(v value.Value) string {
	h := fnv.New64a()
	if v == nil {
		return "nil"
	}
	b, err := value.Pack(v)
	fmt.Fprintf(h, "%x %v|", b, err != nil)
	j, err := v.MarshalJSON()
	fmt.Fprintf(h, "%s %v|%s|%d", j, err != nil, v.String(), v.Kind())
	if n, ok := v.(value.Number); ok {
		fmt.Fprintf(h, "|%d %s", n.Type(), value.ParseNumber(n.String()).String())
		if n.Type() == value.LONG { // of other numbers it may depend on the platform
			fmt.Fprintf(h, " %d", n.Long())
		}
	}
	if l, ok := v.(value.List); ok {
		fmt.Fprintf(h, "|%v", l.Len() > 0)
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

func outcome(v value.Value, err error) string {
	if err == io.EOF {
		return "end"
	}
	if err != nil {
		return "error"
	}
	return "ok:" + describe(v)
}

type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) { return p.r.Read(b) }

func run(k int, doc []byte) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic:%.100q", fmt.Sprint(r))
		}
	}()
	switch k {
	case 0:
		return outcome(value.Unpack(doc, false))
	case 1:
		return outcome(value.Unpack(doc, true))
	case 2:
		return outcome(value.Read(bytes.NewReader(doc)))
	case 3:
		return outcome(value.Read(plain{bytes.NewReader(doc)}))
	case 4:
		out := make(chan value.Value)
		done := make(chan string)
		go func() {
			s := ""
			for v := range out {
				s += describe(v)
			}
			done <- s
		}()
		err := value.ReadStream(bytes.NewReader(doc), out)
		s := <-done
		if err != nil && err != io.EOF {
			return "error"
		}
		h := fnv.New64a()
		io.WriteString(h, s)
		return fmt.Sprintf("ok:%016x", h.Sum64())
	default:
		var o outer
		if err := value.UnpackStruct(doc, &o, k == 6); err != nil {
			return "error"
		}
		b, err := value.PackStruct(&o)
		h := fnv.New64a()
		fmt.Fprintf(h, "%x %v", b, err != nil)
		return fmt.Sprintf("ok:%016x", h.Sum64())
	}
}

func main() {
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	fmt.Fprintf(out, "int %d\n", 32<<(^uint(0)>>63))
	for {
		var size uint32
		if err := binary.Read(in, binary.BigEndian, &size); err != nil {
			break
		}
		doc := make([]byte, size)
		if _, err := io.ReadFull(in, doc); err != nil {
			break
		}
		for k := 0; k < 7; k++ {
			if k > 0 {
				out.WriteByte('\t')
			}
			out.WriteString(run(k, append([]byte{}, doc...)))
		}
		out.WriteByte('\n')
		out.Flush()
	}
	out.Flush()
}
