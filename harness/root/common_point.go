package iproto

// vpoint is an end point whose loop takes requests until it is told to exit.
type vpoint struct {
	SimplePoint
	got  []*Request
	take func(*Request)
	gate chan bool // when set, the loop waits for it before every request
	left bool
}

func (p *vpoint) Loop() {
	for {
		if p.gate != nil {
			<-p.gate
		}
		select {
		case r, ok := <-p.ReceiveChan():
			if !ok {
				return
			}
			p.got = append(p.got, r)
			if p.take != nil {
				p.take(r)
			}
		case <-p.ExitChan():
			p.left = true
			return
		}
	}
}
