package main

import (
	"fmt"
	"time"

	"github.com/sisu-network/dheart/zzsim/world"
)

// ---------------------------------------------------------------------------- C18

// sisuMode puts a Sisu server into one of the states of an outage.
func sisuMode(s *world.RPCServer, mode int) string {
	s.Unhang()
	s.Down, s.PFail, s.PLost, s.PSlow = false, 0, 0, 0
	switch mode {
	case 0:
	case 1:
		s.Down = true
	case 2:
		s.Hang = true
	case 3:
		s.HangRep = true
	case 4:
		s.PFail = 1
	case 5:
		s.PLost = 1
	case 6:
		s.PFail, s.PLost, s.PSlow = 0.4, 0.3, 0.5
	default:
		s.PSlow = 1
	}
	return [...]string{"up", "down", "hang", "hangreply", "fail", "lost", "flaky", "slow"}[mode]
}

func outageMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, nil)
	fail := func(class, f string, a ...interface{}) { r.Fail("C18", class, f, a...) }
	r.W.Net.PDelay = 0.15
	// while the nodes start, their Sisus come and go
	reach := make([]time.Duration, c.n)
	lastAt := 5 * sec
	oneWay, oneWayTill := -1, time.Duration(0) // a node that its Sisu reaches, but not the other way round
	if r.Chance("oneway", 0.25) {
		oneWay, oneWayTill = r.Pick("onewaynode", c.n), 40*sec+r.pickTime("onewayfor", 200*sec)
	}
	for i, n := range c.nodes {
		if i == oneWay {
			n := n
			n.eager, n.rpc.PFail = true, 1
			c.after(oneWayTill, func() { sisuMode(n.rpc, 0) })
			c.after(r.pickTime("bootat", 5*sec), n.boot)
			r.W.Count("sisu.oneway")
			continue
		}
		n.rpc.PLate = 0.5
		at := time.Duration(0)
		i, n := i, n
		phases := r.Pick("phases", 5)
		for k := 0; k < phases; k++ {
			mode := []int{1, 2, 4, 1, 3, 0}[r.Pick("startmode", 6)]
			if k == phases-1 && mode == 0 {
				mode = 1
			}
			c.after(at, func() { r.W.Count("sisu." + sisuMode(n.rpc, mode)) })
			at += 200*ms + r.pickTime("phase", 40*sec)
		}
		c.after(at, func() { sisuMode(n.rpc, 0); reach[i] = r.S.Now() })
		if at > lastAt {
			lastAt = at
		}
		c.after(r.pickTime("bootat", 5*sec), n.boot)
	}
	waited := r.Until(700*sec, func() bool { return r.S.Now() > lastAt+25*sec && c.allUp() })
	for i, n := range c.nodes {
		r.Count("checked")
		if !n.initDone || r.S.Runaway != "" || i == oneWay {
			continue
		}
		from := reach[i]
		if n.initAt > from {
			from = n.initAt
		}
		if len(n.rpc.Answered) == 0 {
			fail("never-connected", "node %d has not reached its Sisu, which is up since %.1fs, by %.1fs", i, reach[i].Seconds(), r.S.Now().Seconds())
			continue
		}
		first := n.rpc.Answered[0]
		if first > from+10*sec+1500*ms {
			fail("late", "node %d reached its Sisu at %.1fs, %.1fs after that was reachable for good", i, first.Seconds(), (first - from).Seconds())
		}
		for k := 1; k < len(n.rpc.Attempts) && n.rpc.Attempts[k] <= first; k++ {
			if d := n.rpc.Attempts[k] - n.rpc.Attempts[k-1]; d < 8*sec {
				fail("dials-too-often", "node %d dials its Sisu again %.2fs after an attempt", i, d.Seconds())
				break
			}
		}
	}
	if !waited || len(r.Viol) > 0 {
		if r.S.Runaway == "" && len(r.Viol) == 0 {
			fail("not-up", "Sisu is reachable and the nodes are not up")
		}
		return
	}
	r.sleep(25 * sec)
	pings := make([]int, c.n)
	for i, n := range c.nodes {
		pings[i] = n.rpc.Count("tss_ping")
	}
	// outages while works run
	hit := map[int]bool{}
	var ends time.Duration
	for i, n := range c.nodes {
		if i == oneWay {
			hit[i] = true
			if d := oneWayTill - r.S.Now(); d > ends {
				ends = d
			}
			continue
		}
		if !r.Chance("hit", 0.5) {
			continue
		}
		hit[i] = true
		n := n
		for k := 0; k <= r.Pick("outages", 2); k++ {
			at := r.pickTime("outat", 30*sec)
			dur := 5*sec + r.pickTime("outfor", 100*sec)
			mode := 1 + r.Pick("outmode", 7)
			if mode == 7 || mode == 1 {
				mode = 2
			}
			c.after(at, func() { r.W.Count("sisu." + sisuMode(n.rpc, mode)) })
			c.after(at+dur, func() { sisuMode(n.rpc, 0) })
			if at+dur > ends {
				ends = at + dur
			}
		}
	}
	t0 := r.S.Now()
	var reqs []*Req
	used := map[string]bool{}
	doomed := map[*Req]bool{} // nobody can sign these: their participants report a failure
	badly := []int{0, 30, 70}[r.Pick("doomed", 3)]
	burst := 0 // so many of the next requests come right after each other
	for j := 0; j < 2+r.Pick("reqs", 7); j++ {
		if burst == 0 && r.Chance("burst", 0.15) {
			burst = 3 + r.Pick("burstof", 2)
		}
		kind := signKinds[r.Pick("kind", 2)]
		if r.Pick("kg", 5) == 4 && burst == 0 {
			if k := []string{"eckg", "edkg"}[r.Pick("kgkind", 2)]; !used[k] {
				kind, used[k] = k, true
			}
		}
		var q *Req
		if kind == "eckg" || kind == "edkg" {
			q = c.newReq(kind, nil)
		} else if burst == 0 && r.Pick("bad", 100) < badly {
			kind = "ecsign"
			q = c.newReq(kind, [][]byte{make([]byte, 32)})
			doomed[q] = true
		} else {
			q = c.newReq(kind, [][]byte{plainBytes(r)})
		}
		if besides(kind, reqs) != kind { // a key generation changes the key signings of its type use
			r.sleep(25 * sec)
		}
		reqs = append(reqs, q)
		if burst > 0 {
			r.Count("burst")
			c.submitAll(q, all(c.n), 0)
			if burst--; burst > 0 {
				r.sleep(150*ms + r.pickTime("gap", 150*ms))
				continue
			}
		} else {
			c.submitAll(q, all(c.n), r.pickTime("skew", 500*ms))
		}
		burst = 0
		r.sleep(4*sec + r.pickTime("gap", 6*sec))
	}
	if d := ends - (r.S.Now() - t0); d > 0 {
		r.sleep(d)
	}
	r.sleep(50 * sec)
	for i, n := range c.nodes {
		if i == oneWay {
			if len(n.rpc.Answered) == 0 {
				fail("never-connected", "node %d has not reached its Sisu, which is up since %.1fs, by %.1fs", i, oneWayTill.Seconds(), r.S.Now().Seconds())
			}
		} else if n.rpc.Count("tss_ping") > pings[i] {
			fail("pings-after-success", "node %d, which reached its Sisu long ago, pings it again", i)
		}
		for _, k := range n.calls {
			if !k.Done {
				fail("call-blocks", "%s on node %d has not returned %.0fs after it was called", k.Name, i, (r.S.Now() - k.At).Seconds())
			}
		}
	}
	for _, q := range reqs {
		if len(r.Viol) > 0 || r.S.Runaway != "" {
			break
		}
		r.Count("checked.work")
		a := q.announced()
		if a == nil {
			fail("work-blocked", "request %d (%s) was not run: its leader %d announced no participants while the Sisus of nodes %v had an outage", q.N, q.Kind, q.Leader, sortedInts(keysOf(hit)))
			continue
		}
		for i := range c.nodes {
			s := q.Subs[i]
			if !s.Accepted() {
				if s.Call.Done {
					fail("request-refused", "node %d refuses request %d: %v %s", i, q.N, s.Call.Err, s.Call.Panic)
				}
				continue
			}
			sel := a[c.mat.Vals[i].ID]
			if sel && q.exec[i] == nil && !doomed[q] {
				fail("work-blocked", "node %d does not execute request %d (%s) while the Sisus of nodes %v have an outage", i, q.N, q.Kind, sortedInts(keysOf(hit)))
			}
			if hit[i] {
				continue
			}
			want := 2
			if sel {
				want = 0
				if doomed[q] {
					want = 1
				}
			}
			if len(s.Reports) == 0 {
				fail("no-answer", "node %d, whose Sisu is well, has not answered request %d", i, q.N)
			} else if o := s.Reports[0].Outcome; o != want {
				fail(fmt.Sprintf("outcome-%d-instead-of-%d", o, want), "node %d reports outcome %d for request %d (%s); nothing failed but the Sisus of nodes %v", i, o, q.N, q.Kind, sortedInts(keysOf(hit)))
			}
		}
	}
	if len(r.Viol) > 0 {
		return
	}
	// after the outage results arrive again
	for _, kind := range signKinds {
		q := c.newReq(kind, [][]byte{plainBytes(r)})
		c.submitAll(q, all(c.n), 0)
		c.settleReq(q)
		if r.S.Runaway == "" {
			c.mustSucceed("C18", q, "all Sisus are back")
		}
	}
	c.agreement(false)
	c.finish()
}

func keysOf(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	return l
}

var pOutage = &Prof{Name: "outage", Prep: prepGroup(2, 3, 3, 4), Main: outageMain, Stall: 100 * time.Millisecond}
