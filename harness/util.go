package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/codeallergy/value"
)

// mk builds a real value for m. When the built content differs from the
// intended one (a matter of C12-C14 and C04, not of the caller's property) it
// falls back to plain constructors, and returns the content actually built.
func mk(c *Case, m *MV, o BuildOpt) (value.Value, *MV) {
	var v value.Value
	var got *MV
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		v = build(m, c.RNG, o)
		got = project(v)
		return mdiff(m, got) == ""
	}()
	if ok {
		return v, m
	}
	c.Count("misbuilt", 1)
	o.Plain = true
	v = build(m, c.RNG, o)
	return v, project(v)
}

func mustPack(c *Case, v value.Value) []byte {
	b, err := value.Pack(v)
	c.Check(err == nil, "Pack: %v", err)
	return b
}

func hexShort(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x…(%d bytes, fnv %x)", b[:80], len(b), fnv64(string(b)))
	}
	return fmt.Sprintf("%x", b)
}

func (c *Case) sameBytes(got, want []byte, what string, args ...interface{}) {
	c.evals++
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		lo := i - 8
		if lo < 0 {
			lo = 0
		}
		c.Failf("%s: bytes differ at offset %d (lengths %d and %d): got …%s want …%s", fmt.Sprintf(what, args...), i, len(got), len(want), hexShort(got[lo:]), hexShort(want[lo:]))
	}
}

func (c *Case) same(got, want *MV, what string, args ...interface{}) {
	c.evals++
	if d := mdiff(got, want); d != "" {
		c.Failf("%s: got versus expected%s\n  got      %v\n  expected %v", fmt.Sprintf(what, args...), d, got, want)
	}
}

// try runs f and reports a panic as an error value.
func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// ---------------------------------------------------------------- readers

// A reader with full control over how bytes are delivered.
type zooReader struct {
	data     []byte
	off      int
	r        *RNG
	max      int // largest chunk, 0 = unlimited
	zeros    int // chance (of 8) of an empty read, at most two in a row
	zrow     int
	withEOF  bool  // deliver the last data together with the final error
	failAt   int   // offset of an injected error, -1 none
	err      error // injected error
	withErr  bool  // deliver data together with the injected error
	reads    int
	consumed int
}

func newZoo(r *RNG, data []byte) *zooReader {
	z := &zooReader{data: data, r: r, failAt: -1, err: errInjected}
	z.max = []int{0, 1, 1, 2, 3, 7, 64, 5000}[r.Intn(8)]
	if r.P(1, 3) {
		z.zeros = 1 + r.Intn(3)
	}
	z.withEOF = r.Bool()
	return z
}

func (z *zooReader) Read(p []byte) (int, error) {
	z.reads++
	end, final := len(z.data), io.EOF
	with := z.withEOF
	if z.failAt >= 0 && z.failAt <= end {
		end, final, with = z.failAt, z.err, z.withErr
	}
	if z.off >= end {
		return 0, final
	}
	if len(p) == 0 {
		return 0, nil
	}
	if z.zrow < 2 && z.r.P(z.zeros, 8) {
		z.zrow++
		return 0, nil
	}
	z.zrow = 0
	k := len(p)
	if z.max > 0 {
		if m := 1 + z.r.Intn(z.max); k > m {
			k = m
		}
	}
	if k > end-z.off {
		k = end - z.off
	}
	copy(p, z.data[z.off:z.off+k])
	z.off += k
	if z.off == end && with {
		return k, final
	}
	return k, nil
}

// zooByteReader adds ReadByte.
type zooByteReader struct{ *zooReader }

func (z zooByteReader) ReadByte() (byte, error) {
	end, final := len(z.data), io.EOF
	if z.failAt >= 0 && z.failAt <= end {
		end, final = z.failAt, z.err
	}
	if z.off >= end {
		return 0, final
	}
	b := z.data[z.off]
	z.off++
	return b, nil
}

// plainReader hides every method but Read.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// ---------------------------------------------------------------- faults

type customErr struct{ n int }

func (e *customErr) Error() string { return "custom" }

// looks like a network error that asks to try again
type tryAgainErr struct{ timeout bool }

func (e tryAgainErr) Error() string   { return "try again" }
func (e tryAgainErr) Temporary() bool { return true }
func (e tryAgainErr) Timeout() bool   { return e.timeout }

var faultErrs = []error{
	io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, net.ErrClosed,
	syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.ECONNRESET, syscall.ENOSPC,
	context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull, bytes.ErrTooLarge,
	tryAgainErr{false}, tryAgainErr{true}, value.ErrUnseal,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "read", Net: "tcp", Err: tryAgainErr{true}},
	&os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, &os.PathError{Op: "read", Path: "x", Err: os.ErrClosed},
}

// genFault is some error other than the end of the input.
func genFault(r *RNG) error {
	switch r.Intn(8) {
	case 0:
		return errInjected
	case 1:
		return &customErr{r.Intn(9)}
	case 2:
		return fmt.Errorf("wrapped: %w", errInjected)
	}
	return faultErrs[r.Intn(len(faultErrs))]
}
