package client

// many ask for clients
// vf: preempt=1 tpreempt=2 delays=2 tdelays=3 nonative time=300
func VF_C25_auto() {
	vn = &vnet{serve: true, refuse: true}
	name := []string{"", "n"}[vfChoose("name", 2)]
	a := &Auto{Config: &ServerConfig{Connections: 1, PingInterval: -1, Name: name}}
	addrs := []string{"a:1", "b:2"}
	k := 2
	got := [3][2]*Server{}
	done := make(chan bool, k)
	same := vfChoose("same", 2)
	for i := 0; i < k; i++ {
		i := i
		go func() {
			for j := 0; j < 2; j++ {
				x := j
				if i == 1 {
					x ^= same
				}
				got[i][x] = a.Get(addrs[x])
			}
			done <- true
		}()
	}
	for i := 0; i < k; i++ {
		<-done
	}
	for x := range addrs {
		got[2][x] = a.Get(addrs[x])
		vfAssert(got[2][x] != nil && got[0][x] == got[2][x] && got[1][x] == got[2][x], "the same address gives the same client")
	}
	vfAssert(got[0][0] != got[0][1], "different addresses give different clients")
	vfAssert(a.Config.Address == "" && got[0][0].Runned() && got[0][1].Runned(), "a client is running, and the configuration is not changed")
	vfQuiesce()
	n := [2]int{}
	for _, d := range vn.addrs {
		for x := range addrs {
			if d == "tcp!"+addrs[x] {
				n[x]++
			}
		}
	}
	vfAssert(n[0] == 1 && n[1] == 1 && len(vn.addrs) == 2, "one client is made for an address")
	a.Stop()
	vfQuiesce()
	vfAssert(vfLive() == 0, "stopping ends every client")
	again := a.Get(addrs[0])
	vfAssert(again != nil && again != got[0][0] && again.Runned(), "a client is made anew")
	vfAssert(a.Get(addrs[0]) == again, "the same address gives the same client")
	a.Stop()
	vfQuiesce()
	vfAssert(vfLive() == 0, "stopping ends every client")
	vfReach("end")
}
