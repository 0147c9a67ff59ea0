package net

import (
	"errors"
	"io"
	"time"
)

// a reader that answers any number of bytes each time
type c08src struct {
	data   []byte
	pos    int
	end    error
	zeros  int
	coarse bool
	empty  int
}

func (s *c08src) Read(p []byte) (int, error) {
	if len(p) == 0 {
		s.empty++
		vfAssert(s.empty < 4, "a reader asks for something")
		return 0, nil
	}
	n := len(s.data) - s.pos
	if n > len(p) {
		n = len(p)
	}
	if n == 0 {
		return 0, s.end
	}
	k := 1 + vfChoose("chunk", n)
	if k == 1 && s.zeros > 0 && vfChoose("nothing", 2) == 1 {
		s.zeros--
		return 0, nil
	}
	copy(p, s.data[s.pos:s.pos+k])
	s.pos += k
	if s.pos == len(s.data) && vfChoose("early", 2) == 1 {
		return k, s.end
	}
	return k, nil
}

func (s *c08src) SetReadDeadline(t time.Time) error  { return nil }
func (s *c08src) SetWriteDeadline(t time.Time) error { return nil }

func c08run(total, size, max, steps int, zeros int, timeout time.Duration) {
	data := vfBytesN("data", total)
	end := []error{io.EOF, errors.New("broken")}[vfChoose("end", 2)]
	src := &c08src{data: data, end: end, zeros: zeros}
	sl := SliceReader{r: src, size: size, timeout: timeout}
	pos := 0
	var got [][]byte
	var from []int
	for i := 0; i < steps; i++ {
		n := vfChoose("n", max+2)
		if n == max+1 {
			b, err := sl.ReadByte()
			vfAssert((err == nil) == (pos < total), "a byte is read when there is one")
			if err != nil {
				vfReach("byte-err")
				return
			}
			vfAssert(b == data[pos], "the byte is the next one")
			pos++
			continue
		}
		b, err := sl.Read(n)
		vfAssert((err == nil) == (pos+n <= total), "a read fails exactly when the stream ends too early")
		if err != nil {
			vfAssert(err != io.EOF || len(b) == 0, "a short read is not an ordinary end of the stream")
			vfReach("err")
			break
		}
		vfAssert(len(b) == n, "a read has the requested length")
		got = append(got, b)
		from = append(from, pos)
		pos += n
	}
	for i, b := range got {
		vfAssert(vfEqBytes(b, data[from[i]:from[i]+len(b)]), "reads are consecutive parts of the stream, and stay so")
	}
	vfReach("end")
}

// vf: seq
func VF_C08_small() {
	n := 7
	if vfThorough() {
		n = 8
	}
	c08run(n, 3+vfChoose("size", 2), 5, 3, 0, 0)
}

// vf: seq
func VF_C08_stall() {
	c08run(5, 3, 4, 2, 2, time.Duration(vfChoose("timeout", 2))*time.Second)
}

// vf: seq
func VF_C08_bytes() {
	data := vfBytesN("data", 5)
	src := &c08src{data: data, end: io.EOF}
	sl := SliceReader{r: src, size: 1 + vfChoose("size", 3)}
	for i := 0; i < 6; i++ {
		b, err := sl.ReadByte()
		if i == 5 {
			vfAssert(err != nil, "no byte after the end")
			break
		}
		vfAssert(err == nil && b == data[i], "the byte is the next one")
	}
	vfReach("end")
}

// frames around the size of the reader's buffer, through the exported reader
// vf: seq
func VF_C08_frames() {
	b1 := []int{0, 1, 8167, 8168, 8169, 8180, 8181, 20000}[vfChoose("b1", 8)]
	b2 := []int{0, 3, 8180, 8192, 9000}[vfChoose("b2", 5)]
	x, y := vhBody("x", b1), vhBody("y", b2)
	var data []byte
	for i, b := range [][]byte{x, y} {
		data = append(data, vhU32(uint32(7+i))...)
		data = append(data, vhU32(uint32(len(b)))...)
		data = append(data, vhU32(uint32(90+i))...)
		data = append(data, b...)
	}
	cutEnd := vfChoose("cut", 3)
	full := len(data)
	data = data[:full-cutEnd]
	src := &vhSrc{data: data, max: []int{0, 1460, 4096, 8191}[vfChoose("max", 4)], end: io.EOF, early: vfChoose("early", 2) == 1}
	var h HeaderReader
	h.Init(src, 0, RC4byte)
	r1, err := h.ReadRequest()
	if cutEnd > b2+12 {
		return
	}
	vfAssert(err == nil, "a complete frame is read")
	r2, err := h.ReadRequest()
	if cutEnd > 0 {
		vfAssert(err != nil, "a frame which is cut off is an error")
	} else {
		vfAssert(err == nil && r2.Msg == 8 && r2.Id == 91, "the second frame")
		vfAssert(vfEqBytes(r2.Body, y), "the second body")
		_, err = h.ReadRequest()
		vfAssert(err == io.EOF, "the end of the stream")
	}
	vfAssert(r1.Msg == 7 && r1.Id == 90 && vfEqBytes(r1.Body, x), "the first frame is not overwritten")
	vfReach("end")
}
