package net

import (
	"errors"
	"io"
	"time"
)

var vhErr = errors.New("connection failed")

// vhRec records what is written to it; call number failAt (counting from one) fails after part bytes.
type vhRec struct {
	got    []byte
	calls  int
	failAt int
	part   int
	failed bool
	once   bool // later calls succeed
}

func (r *vhRec) Write(p []byte) (int, error) {
	r.calls++
	if r.failed && !r.once || r.calls == r.failAt {
		r.failed = true
		k := r.part
		if k > len(p) {
			k = len(p)
		}
		r.part = 0
		r.got = append(r.got, p[:k]...)
		return k, vhErr
	}
	r.got = append(r.got, p...)
	return len(p), nil
}

// vhSrc delivers data in pieces: up to the next cut, and at most max bytes at once.
type vhSrc struct {
	data  []byte
	pos   int
	cuts  []int
	max   int
	end   error // after the data
	early bool  // the end is reported together with the last bytes
	zero  int   // the next zero calls deliver nothing, without an error
	empty int   // calls which asked for nothing
}

func (s *vhSrc) Read(p []byte) (int, error) {
	if len(p) == 0 {
		s.empty++
		vfAssert(s.empty < 4, "a reader asks for something")
		return 0, nil
	}
	if s.zero > 0 {
		s.zero--
		return 0, nil
	}
	if s.pos >= len(s.data) {
		return 0, s.end
	}
	n := len(s.data) - s.pos
	for _, c := range s.cuts {
		if c > s.pos && c-s.pos < n {
			n = c - s.pos
		}
	}
	if s.max > 0 && n > s.max {
		n = s.max
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.early && s.pos == len(s.data) {
		return n, s.end
	}
	return n, nil
}

// vhDl adds deadlines, as real connections have
type vhDl struct {
	vhSrc
	armed bool
	sets  int
}

func (d *vhDl) SetReadDeadline(t time.Time) error {
	d.armed = !t.IsZero()
	d.sets++
	return nil
}
func (d *vhDl) SetWriteDeadline(t time.Time) error { return nil }

func vhBody(name string, n int) []byte {
	b := make([]byte, n)
	if n <= 4 {
		copy(b, vfBytesN(name, n))
		return b
	}
	for i := range b {
		b[i] = byte(i * 7)
	}
	x := vfBytesN(name, 4)
	b[0], b[1], b[n/2], b[n-1] = x[0], x[1], x[2], x[3]
	return b
}

func vhU32(x uint32) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
}

var _ io.Reader = (*vhSrc)(nil)
