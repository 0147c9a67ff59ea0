package server

import (
	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

func vinternal(c uint32) bool { return c&7 == 3 }

// vf: seq
func VF_C09_codes() {
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[vfChoose("rc", 3)]
	keys := []iproto.RetCode{iproto.RcTimeout, iproto.RcCanceled, iproto.RcIOError, 3, 0xfffffffb}
	var m map[iproto.RetCode]iproto.RetCode
	k0, k1 := iproto.RetCode(0), iproto.RetCode(0)
	var v0, v1 iproto.RetCode
	mapped := vfChoose("map", 3)
	if mapped > 0 {
		m = map[iproto.RetCode]iproto.RetCode{}
		v0 = iproto.RetCode(vfU32("v0"))
		vfAssume(!vinternal(uint32(v0)) && v0 != 0)
		k0 = keys[vfChoose("k0", len(keys))]
		m[k0] = v0
	}
	if mapped > 1 {
		k1 = iproto.RetCode(vfU32("k1"))
		vfAssume(vinternal(uint32(k1)) && k1 != k0)
		v1 = iproto.RetCode(vfU32("v1"))
		vfAssume(!vinternal(uint32(v1)) && v1 != 0)
		m[k1] = v1
	}
	code := vfU32("code")
	how := vfChoose("how", 5)
	body := vfBytesN("b", 2)
	serv := vserver(Config{RCMap: m, RCType: rc}, func(r *iproto.Request) {
		switch how {
		case 0:
			r.RespondBytes(iproto.RetCode(code), body)
		case 1:
			r.Cancel()
			code = uint32(iproto.RcCanceled)
		case 2:
			r.Expire()
			code = uint32(iproto.RcTimeout)
		case 3:
			r.IOError()
			code = uint32(iproto.RcIOError)
		case 4:
			r.RespondFail(iproto.RetCode(code))
		}
		if how != 0 {
			body = nil
		}
	})
	c := vnewConn()
	conn := NewConnection(serv, c, 1)
	id := vfU32("id")
	c.in <- vframe(5, id, nil)
	conn.Run()
	vfQuiesce()
	want := code
	switch {
	case mapped > 0 && code == uint32(k0):
		want = uint32(v0)
	case mapped > 1 && code == uint32(k1):
		want = uint32(v1)
	case vinternal(code):
		want = code&^7 | 2
	}
	if rc == nt.RC1byte {
		want &= 0xff
	}
	if rc == nt.RC0byte {
		want = 0
	}
	res, rest := vparse(c.got, rc)
	vfAssert(len(res) == 1 && len(rest) == 0, "the request is answered with one frame")
	vfAssert(res[0].msg == 5 && res[0].id == id && vfEqBytes(res[0].body, body), "the answer is the one of the service")
	vfAssert(!vinternal(res[0].code), "an internal return code is not sent")
	vfAssert(res[0].code == want, "a code is replaced as configured, or its kind changed to fatal, and any other is unchanged")
	vfReach("end")
}

// a configuration which would let internal codes out is refused
// vf: seq
func VF_C09_config() {
	m := map[iproto.RetCode]iproto.RetCode{}
	n := vfChoose("n", 3)
	bad := false
	ks := [2]uint32{vfU32("k0"), vfU32("k1")}
	vfAssume(ks[0] != ks[1])
	for i := 0; i < n; i++ {
		v := vfU32("v")
		bad = vfOr(bad, vfOr(!vinternal(ks[i]), vinternal(v)))
		m[iproto.RetCode(ks[i])] = iproto.RetCode(v)
	}
	var serv *Server
	p := vhPanics(func() { serv = vserver(Config{RCMap: m}, func(*iproto.Request) {}) })
	vfAssert(p == bad, "a map of something but internal codes to non-internal codes is refused, any other is accepted")
	vfAssert(p || len(serv.RCMap) == n, "the configured map is used")
	vfReach("end")
}
