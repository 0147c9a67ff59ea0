package iproto

// a service which keeps what it is sent
type vkeep struct{ got []*Request }

func (k *vkeep) serve(r *Request) { k.got = append(k.got, r) }

const vhour = int64(1) << 40 // less than the hour the heaps sleep when they are idle
