package main

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/codeallergy/value"
)

// Waiting is not an error: a consumer, a producer or a connection may take its
// time at any point of a stream. All scenarios of a case wait at the same time.

type stallReader struct {
	b  []byte
	at int // waits before this offset is read
	d  time.Duration
	n  int
}

func (r *stallReader) Read(p []byte) (int, error) {
	if r.n == len(r.b) {
		return 0, io.EOF
	}
	k := len(p)
	if r.n <= r.at && r.at < len(r.b) {
		if r.n == r.at {
			time.Sleep(r.d)
			r.at = len(r.b)
		} else if k > r.at-r.n {
			k = r.at - r.n
		}
	}
	k = copy(p[:k], r.b[r.n:])
	r.n += k
	return k, nil
}

type stallWriter struct {
	bytes.Buffer
	at int
	d  time.Duration
}

func (w *stallWriter) Write(p []byte) (int, error) {
	if w.at >= 0 && w.Len()+len(p) > w.at {
		w.at = -1
		time.Sleep(w.d)
	}
	return w.Buffer.Write(p)
}

func stalled(c *Case, d time.Duration) {
	k := 3 + c.Intn(6)
	vals, ms, enc, _ := mkStream(c, k)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	report := func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			bad = append(bad, err.Error())
		}
	}
	start := func(what string, f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := f(); err != nil {
				report(fmt.Errorf("%s: %w", what, err))
			}
		}()
	}
	check := func(got []value.Value, err error) error {
		if err != io.EOF {
			return fmt.Errorf("ReadStream returns %v", err)
		}
		if len(got) != k {
			return fmt.Errorf("%d of %d values are delivered", len(got), k)
		}
		for i, v := range got {
			if e := mdiff(project(v), ms[i].wire()); e != "" {
				return fmt.Errorf("value %d: %s", i, e)
			}
		}
		return nil
	}
	for _, slow := range []int{0, k / 2, k - 1} {
		slow := slow
		for _, cp := range []int{0, 1} {
			cp := cp
			start(fmt.Sprintf("a consumer that waits %v before value %d of %d, capacity %d", d, slow, k, cp), func() error {
				out := make(chan value.Value, cp)
				rerr := make(chan error, 1)
				go func() { rerr <- value.ReadStream(bytes.NewReader(enc), out) }()
				var got []value.Value
				for i := 0; ; i++ {
					if i == slow {
						time.Sleep(d)
					}
					v, ok := <-out
					if !ok {
						break
					}
					got = append(got, v)
				}
				return check(got, <-rerr)
			})
			start(fmt.Sprintf("a producer that waits %v before value %d of %d, capacity %d", d, slow, k, cp), func() error {
				in := make(chan value.Value, cp)
				werr := make(chan error, 1)
				var w bytes.Buffer
				go func() { werr <- value.WriteStream(&w, in) }()
				for i, v := range vals {
					if i == slow {
						time.Sleep(d)
					}
					select {
					case in <- v:
					case err := <-werr:
						return fmt.Errorf("WriteStream returns %v before value %d was sent", err, i)
					}
				}
				close(in)
				if err := <-werr; err != nil {
					return fmt.Errorf("WriteStream returns %v", err)
				}
				if !bytes.Equal(w.Bytes(), enc) {
					return fmt.Errorf("%s is written, expected %s", hexShort(w.Bytes()), hexShort(enc))
				}
				return nil
			})
		}
		start(fmt.Sprintf("a source that waits %v", d), func() error {
			out := make(chan value.Value)
			rerr := make(chan error, 1)
			go func() { rerr <- value.ReadStream(&stallReader{b: enc, at: len(enc) * slow / k, d: d}, out) }()
			var got []value.Value
			for v := range out {
				got = append(got, v)
			}
			return check(got, <-rerr)
		})
		start(fmt.Sprintf("a destination that waits %v", d), func() error {
			in := make(chan value.Value, 1)
			werr := make(chan error, 1)
			w := &stallWriter{at: len(enc) * slow / k, d: d}
			go func() { werr <- value.WriteStream(w, in) }()
			for i, v := range vals {
				select {
				case in <- v:
				case err := <-werr:
					return fmt.Errorf("WriteStream returns %v before value %d was sent", err, i)
				}
			}
			close(in)
			if err := <-werr; err != nil {
				return fmt.Errorf("WriteStream returns %v", err)
			}
			if !bytes.Equal(w.Bytes(), enc) {
				return fmt.Errorf("%s is written, expected %s", hexShort(w.Bytes()), hexShort(enc))
			}
			return nil
		})
	}
	wg.Wait()
	c.Check(len(bad) == 0, "%v", bad)
	c.Count("stalls", 24)
}

func init() {
	addSection("C07", Section{Name: "stalls", N: n(2, 4), Run: func(c *Case) {
		d := []time.Duration{6 * time.Second, 2 * time.Second}[c.Index%2]
		if thorough() {
			d = []time.Duration{35 * time.Second, 12 * time.Second, 6 * time.Second, 2 * time.Second}[c.Index]
		}
		stalled(c, d)
	}})
	props["C07"].Needs = append(props["C07"].Needs, "stalls")
}
