package readline

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"
)

// vReader hands out the given pieces one per call and counts the calls
type vReader struct {
	pieces [][]byte
	errs   []error
	calls  int
}

func (v *vReader) Read(p []byte) (int, error) {
	if v.calls >= len(v.pieces) {
		v.calls++
		return 0, io.EOF
	}
	n := copy(p, v.pieces[v.calls])
	err := v.errs[v.calls]
	v.calls++
	return n, err
}

func TestReplayC25(t *testing.T) {
	over := vDeadline(40 * time.Second)
	rnd := vRand()
	myErr := errors.New("mine")
	for round := 0; round < 3000 && !over(); round++ {
		real := &vReader{}
		for i := 0; i < 5; i++ {
			real.pieces = append(real.pieces, []byte(fmt.Sprintf("real%d", i))[:rnd.Intn(6)])
			real.errs = append(real.errs, []error{nil, nil, myErr}[rnd.Intn(3)])
		}
		r, w := NewFillableStdin(real)
		s, ok := r.(*FillableStdin)
		if !ok {
			return
		}
		var pre []byte
		hist := ""
		fill := func(k int) {
			b := make([]byte, k)
			for i := range b {
				b[i] = byte(len(pre) + i)
			}
			hist += fmt.Sprintf("write %d bytes; ", k)
			w.Write(b)
			pre = append(pre, b...)
			for end := time.Now().Add(2 * time.Second); ; {
				s.Lock()
				n := len(s.buf)
				s.Unlock()
				if n >= len(pre) {
					break
				}
				if time.Now().After(end) {
					vFound(t, "%sonly %d of %d written bytes become available", hist, n, len(pre))
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
		max := []int{20, 150, 500}[rnd.Intn(3)]
		for k := rnd.Intn(4); k > 0; k-- {
			fill(1 + rnd.Intn(max))
		}
		calls := 0
		for step := 0; step < 40 && calls < 5; step++ {
			if rnd.Intn(10) == 0 {
				fill(1 + rnd.Intn(max))
			}
			p := make([]byte, 1+rnd.Intn(max))
			var n int
			var err error
			hist += fmt.Sprintf("read into %d bytes; ", len(p))
			if x := vGuard(func() string { return hist }, func() { n, err = r.Read(p) }); x != nil {
				vFound(t, "%spanics: %v", hist, x)
			}
			if len(pre) > 0 {
				k := len(p)
				if k > len(pre) {
					k = len(pre)
				}
				if n != k || err != nil || real.calls != calls || !bytes.Equal(p[:n], pre[:k]) {
					vFound(t, "%sgets %v (%d bytes), error %v, real reads %d; want the %d pending bytes %v", hist, p[:n], n, err, real.calls-calls, k, pre[:k])
				}
				pre = pre[k:]
				continue
			}
			want := real.pieces[calls]
			if len(want) > len(p) {
				want = want[:len(p)]
			}
			if real.calls != calls+1 || n != len(want) || !bytes.Equal(p[:n], want) || err != real.errs[calls] {
				vFound(t, "%sgets %q, error %v after %d real reads, want %q, error %v from one real read", hist, p[:n], err, real.calls-calls, want, real.errs[calls])
			}
			calls++
		}
		r.Close()
	}
}
