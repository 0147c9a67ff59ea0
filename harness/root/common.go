package iproto

import (
	"runtime"

	"github.com/funny-falcon/go-iproto/marshal"
)

// vrec is a responder which records what it is told.
type vrec struct {
	n    int
	code RetCode
	body []byte
	id   uint32
	msg  RequestType
	log  *[]int
	// called while the request is being completed
	onResp func(*Response)
}

func (r *vrec) Respond(res *Response) {
	r.n++
	r.code, r.body, r.id, r.msg = res.Code, res.Body, res.Id, res.Msg
	if r.log != nil {
		*r.log = append(*r.log, -1)
	}
	if r.onResp != nil {
		r.onResp(res)
	}
}

// vobs is an observer which records its notifications.
type vobs struct {
	Bookmark
	no   int
	n    int
	code RetCode
	body []byte
	log  *[]int
	act  func(o *vobs, res *Response)
}

func (o *vobs) Respond(res *Response) {
	o.n++
	o.code, o.body = res.Code, res.Body
	if o.log != nil {
		*o.log = append(*o.log, o.no)
	}
	if o.act != nil {
		o.act(o, res)
	}
}

func vnewReq(r Responder) *Request {
	return &Request{Id: vfU32("id"), Msg: RequestType(vfU32("msg")), Responder: r}
}

func vis(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// vdata is request data
type vdata struct {
	msg RequestType
	x   uint32
}

func (d vdata) IMsg() RequestType        { return d.msg }
func (d vdata) IWrite(w *marshal.Writer) { w.Uint32(d.x) }

func vle(x uint32) []byte { return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)} }

// the codes of the failures a request can be completed with
var vfails = []RetCode{RcCanceled, RcTimeout, RcIOError, RcShutdown}

// vfail completes a request with a failure, one of 5 ways
func vfail(r *Request, how int, code RetCode) RetCode {
	switch how {
	case 0:
		r.Cancel()
		return RcCanceled
	case 1:
		r.Expire()
		return RcTimeout
	case 2:
		r.IOError()
		return RcIOError
	case 3:
		r.ShutDown()
		return RcShutdown
	}
	r.RespondFail(code)
	return code
}

func vyield() { runtime.Gosched() }
