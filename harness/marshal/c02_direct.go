package marshal

import "reflect"

// values of every kind, by each of the ways to write them
// vf: seq
func VF_C02_direct() {
	d := vDirectGen()
	pfx := vfChoose("prefix", 5)
	ws := []func(*Writer, int){(*Writer).IntUint8, (*Writer).IntUint16, (*Writer).IntUint32, (*Writer).IntUint64, (*Writer).Intvar}[pfx]
	mode := vfChoose("mode", 5)
	if mode >= 3 && !d.size || mode < 3 && pfx > 0 {
		return
	}
	r := &rb{}
	r.u8(7)
	switch {
	case mode == 0 || mode == 2:
		if d.cnt >= 0 {
			r.u32(uint32(d.cnt))
		} else if mode == 2 && d.auto > 0 {
			r.u32(uint32(d.auto - 1))
		}
	case mode >= 3:
		n := len(d.body)
		switch pfx {
		case 0:
			r.u8(uint8(n))
		case 1:
			r.u16(uint16(n))
		case 2:
			r.u32(uint32(n))
		case 3:
			r.u64(uint64(n))
		case 4:
			r.ber(uint64(n))
		}
	}
	r.bytes(d.body)
	w := &Writer{}
	w.Uint8(7)
	switch mode {
	case 0:
		w.Write(d.val)
	case 1:
		w.WriteTail(d.val)
	case 2:
		w.WriteValue(reflect.ValueOf(d.val))
	case 3:
		w.WriteWithSize(d.val, ws)
	case 4:
		w.WriteValueWithSize(reflect.ValueOf(d.val), ws)
	}
	vfAssert(vfEqBytes(w.Written(), r.b), "the encoded bytes follow the wire layout")
	vfReach("end")
}

// nothing is written for nothing
// vf: seq
func VF_C02_nothing() {
	w := &Writer{}
	x := vfU16("x")
	w.Uint16(x)
	switch vfChoose("how", 4) {
	case 0:
		w.Write(nil)
	case 1:
		w.WriteTail(nil)
	case 2:
		w.WriteWithSize(nil, (*Writer).IntUint8)
	case 3:
		w.WriteTail([]IShortWriter{})
	}
	w.Uint16(x)
	r := &rb{}
	r.u16(x)
	r.u16(x)
	vfAssert(vfEqBytes(w.Written(), r.b), "the encoded bytes follow the wire layout")
	vfReach("end")
}
