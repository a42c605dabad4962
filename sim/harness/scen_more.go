package main

import (
	"fmt"
	"time"

	"github.com/sisu-network/dheart/db"
	common "github.com/sisu-network/dheart/types/common"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	ecsigning "github.com/sisu-network/dheart/zzsim/tss/ecdsa/signing"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
)

var (
	sec = time.Second
	ms  = time.Millisecond
)

// pickTime is a planned instant in [0, max).
func (r *Run) pickTime(name string, max time.Duration) time.Duration {
	return max * time.Duration(r.Pick(name, 256)) / 256
}

// sleep waits on the main goroutine.
func (r *Run) sleep(d time.Duration) {
	if d > 0 && r.S.Runaway == "" {
		rt.Sleep(d)
	}
}

// keyShares checks the stored shares of every key generation that was reported successful.
func (c *Cluster) keyShares() {
	for _, q := range c.reqs {
		if !q.isKeygen() {
			continue
		}
		var who []int
		var pub []byte
		for i := 0; i < c.n; i++ {
			if s := q.Subs[i]; s != nil {
				for _, rep := range s.Reports {
					if rep.Outcome == 0 {
						who = append(who, i)
						pub = rep.PubKey
						break
					}
				}
			}
		}
		if len(who) < q.quorum() {
			continue
		}
		for k := 0; k < 3; k++ {
			sub := c.r.subset(who, q.quorum())
			c.r.Count("checked.shares")
			if bad := c.sharesSign(q, sub, pub); bad != "" {
				c.r.Fail("C02", "shares-unusable", "%s, nodes %v: %s", q.ID, sub, bad)
				c.r.Fail("C08", "shares-unusable", "%s, nodes %v: %s", q.ID, sub, bad)
				c.r.Fail("C22", "shares-unusable", "%s, nodes %v: %s", q.ID, sub, bad)
				break
			}
			if few := sub[1:]; len(few) > 0 && c.sharesSign(q, few, pub) == "" {
				c.r.Fail("C02", "too-few-shares", "%s: the shares of nodes %v are enough to compute the key, it should take %d", q.ID, few, q.quorum())
				break
			}
		}
	}
}

// subset draws k elements.
func (r *Run) subset(from []int, k int) []int {
	l := append([]int(nil), from...)
	for i := range l {
		j := i + r.Rng.Intn(len(l)-i)
		l[i], l[j] = l[j], l[i]
	}
	return l[:k]
}

// quiet ends all injected faults.
func (c *Cluster) quiet() {
	c.fate = nil
	net := c.r.W.Net
	net.PReset, net.PConnFail, net.PFrag, net.PDelay = 0, 0, 0, 0.1
	net.Quiet = true
	for i := range c.nodes {
		for j := range c.nodes {
			if i != j {
				net.Partition(c.nodes[i].val.Peer, c.nodes[j].val.Peer, false)
			}
		}
	}
	for _, n := range c.nodes {
		s := n.store
		s.Down, s.Quiet, s.Script = false, true, nil
		n.rpc.Down, n.rpc.Quiet = false, true
		n.rpc.Unhang()
	}
}

// healthy waits until every node serves again, booting dead ones.
func (c *Cluster) healthy(d time.Duration) bool {
	for _, n := range c.nodes {
		n.down = false
		if n.node.Dead {
			n.boot()
		}
	}
	return c.r.Until(d, c.allUp)
}

func (q *Req) successes() int {
	k := 0
	for _, s := range q.Subs {
		for _, rep := range s.Reports {
			if rep.Outcome == 0 {
				k++
				break
			}
		}
	}
	return k
}

// serves checks that a quiet group with an existing key completes new signing requests. The first attempts may
// meet connections that broke unnoticed.
func (c *Cluster) serves(props []string, kinds ...string) bool {
	r := c.r
	for _, kind := range kinds {
		ok := false
		for try := 0; try < 4 && !ok && r.S.Runaway == ""; try++ {
			q := c.newReq(kind, [][]byte{plainBytes(r)})
			for c.rogues[q.Leader] {
				c.dropReq(q)
				q = c.newReq(kind, [][]byte{plainBytes(r)})
			}
			c.submitAll(q, all(c.n), 0)
			c.settleReq(q)
			ok = q.successes() >= c.t+1
			if !ok {
				r.sleep(5 * sec)
			}
		}
		if r.S.Runaway != "" {
			return false
		}
		r.Count("checked.serves")
		if !ok {
			for _, p := range props {
				r.Fail(p, "does-not-serve-"+kind, "after all faults stopped, 4 signing requests in a row failed")
			}
			return false
		}
	}
	return true
}

// settleReq waits until a request is answered everywhere it was accepted.
func (c *Cluster) settleReq(q *Req) {
	c.r.Until(260*sec, func() bool {
		for _, s := range q.Subs {
			if s.Alive() && (!s.Call.Done || s.Accepted() && len(s.Reports) == 0) {
				return false
			}
		}
		return true
	})
	c.r.sleep(2 * sec)
}

// executing reports whether every node the leader announced executes the request.
func (q *Req) executing(c *Cluster) bool {
	a := q.announced()
	if a == nil {
		return false
	}
	for i, v := range c.mat.Vals {
		if a[v.ID] && q.exec[i] == nil {
			return false
		}
		if s := q.Subs[i]; !a[v.ID] && (s == nil || len(s.Reports) == 0) {
			return false // it has not heard that it is not needed
		}
	}
	return true
}

// mustSucceed checks that every announced participant reported success and the others "not selected".
func (c *Cluster) mustSucceed(prop string, q *Req, why string) {
	r := c.r
	r.Count("checked.success")
	a := q.announced()
	if a == nil {
		r.Fail(prop, "not-selected-anybody", "request %d (%s): the leader, node %d, announced no participants although %s", q.N, q.Kind, q.Leader, why)
		return
	}
	for i, s := range q.Subs {
		if !s.Alive() || !s.Accepted() || !q.names(i) {
			continue
		}
		if len(s.Reports) == 0 {
			r.Fail(prop, "no-answer", "node %d has not answered request %d (%s) although %s", i, q.N, q.Kind, why)
			continue
		}
		rep := s.Reports[0]
		sel := a[c.mat.Vals[i].ID]
		if sel && rep.Outcome != 0 {
			r.Fail(prop, "failed", "node %d reports outcome %d for request %d (%s, %d messages) %.1fs after it was submitted although %s", i, rep.Outcome, q.N, q.Kind, len(q.Msgs),
				(rep.At - s.At).Seconds(), why)
		}
		if !sel && rep.Outcome != 2 {
			r.Fail(prop, "unselected-failed", "node %d, which was available and not needed, reports outcome %d for request %d (%s) although %s", i, rep.Outcome, q.N, q.Kind, why)
		}
	}
}

// ---------------------------------------------------------------------------- C02

func (n *CNode) dbFaults(r *Run) {
	s := n.store
	s.Quiet = false
	p := func(name string, max float64) float64 { return max * float64(r.Pick("db."+name, 5)) / 4 }
	s.PErr, s.PLost, s.PLostReq = p("err", 0.2), p("lost", 0.15), p("lostreq", 0.15)
	s.PSlow, s.PConn, s.PBad, s.PRows = p("slow", 0.3), p("conn", 0.2), p("bad", 0.2), p("rows", 0.1)
}

// keygenMain: a fresh group generates its keys under faults, then uses them.
func keygenMain(r *Run) {
	c := newCluster(r, r.Mat)
	for _, n := range c.nodes {
		n.preSlow = 2 * sec
		n.store.Quiet = true
	}
	if !c.start() {
		return
	}
	var kinds []string
	switch r.Pick("kinds", 4) {
	case 0:
		kinds = []string{"eckg"}
	case 1:
		kinds = []string{"edkg"}
	case 2:
		kinds = []string{"eckg", "edkg"}
	default:
		kinds = []string{"edkg", "eckg", []string{"edkg", "eckg"}[r.Pick("again", 2)]}
	}
	now := r.S.Now()
	clean := false
	switch r.Pick("mode", 7) {
	case 0:
		clean = true
	case 1:
		(&wireFaults{c: c, from: now, until: now + 60*sec, loss: 0.05 + 0.25*float64(r.Pick("loss", 8))/8, dup: 0.1, delay: 0.2, maxDelay: 10 * sec, types: roundTypes}).install()
	case 2:
		(&wireFaults{c: c, from: now, until: now + 300*sec, loss: 0.02 + 0.2*float64(r.Pick("loss", 8))/8, dup: 0.1, delay: 0.2, maxDelay: 40 * sec}).install()
	case 3, 4:
		for k := 0; k <= r.Pick("dbnodes", c.n); k++ {
			c.nodes[r.Pick("dbnode", c.n)].dbFaults(r)
		}
	case 5:
		v := r.Pick("victim", c.n)
		at := r.pickTime("killat", 30*sec)
		back := 5*sec + r.pickTime("back", 60*sec)
		c.nodes[v].down = true
		c.after(at, func() { c.nodes[v].kill("planned") })
		c.after(at+back, func() { c.nodes[v].down = false; c.nodes[v].boot() })
	default:
		v := r.Pick("victim", c.n)
		at := r.pickTime("cutat", 10*sec)
		c.after(at, func() { c.isolate(v, true) })
		c.after(at+r.pickTime("cutfor", 100*sec), func() { c.isolate(v, false) })
	}
	last := map[string]*Req{}
	for k, kind := range kinds {
		q := c.newReq(kind, nil)
		d := time.Duration(0)
		if k > 0 {
			d = r.pickTime("at", 40*sec)
		}
		if p := last[kind]; p != nil {
			// reports name only the key type, so two overlapping generations of one type cannot be told apart
			r.sleep(50 * sec)
			c.settle()
			c.submitAll(q, all(c.n), 8*sec)
			continue
		}
		last[kind] = q
		c.after(d, func() { c.submitAll(q, all(c.n), 8*sec) })
	}
	r.sleep(50 * sec)
	c.settle()
	c.keyShares()
	c.agreement(false)
	c.quiet()
	if clean {
		for _, q := range c.reqs {
			c.mustSucceed("C02", q, "nothing went wrong")
		}
	}
	if !c.healthy(500 * sec) {
		r.Count("not_healthy")
		c.finish()
		return
	}
	c.keyShares()
	var sk []string
	for _, kt := range []string{"ecdsa", "eddsa"} {
		full := len(c.keys[kt]) > 0
		for _, n := range c.nodes { // every node has the same newest key
			rows, _ := n.store.Rows("SELECT work_id FROM keygen WHERE key_type=?", kt)
			full = full && len(rows) == 1 && len(c.keys[kt]) == 1
			_ = rows
		}
		if full {
			sk = append(sk, map[string]string{"ecdsa": "ecsign", "eddsa": "edsign"}[kt])
		}
	}
	c.serves([]string{"C02"}, sk...)
	c.finish()
}

// ---------------------------------------------------------------------------- C04

// besides replaces a kind of request that cannot run next to those drawn already: signings use whichever key of
// their type is the newest at each node, so none runs next to a generation of that type.
func besides(kind string, reqs []*Req) string {
	kt := func(k string) string { return k[:2] }
	for _, q := range reqs {
		if kt(q.Kind) == kt(kind) && (q.isKeygen() || kind == "eckg" || kind == "edkg") {
			if q.isKeygen() {
				other := map[string]string{"ec": "edsign", "ed": "ecsign"}[kt(kind)]
				for _, p := range reqs {
					if kt(p.Kind) == kt(other) && p.isKeygen() {
						return "" // both types are being generated
					}
				}
				return other
			}
			return map[string]string{"ec": "ecsign", "ed": "edsign"}[kt(kind)]
		}
	}
	return kind
}

// recoverMain: recoverable faults while a work runs.
func recoverMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, nil)
	if !c.start() {
		return
	}
	now := r.S.Now()
	r.W.Net.PDelay = 0.3
	kinds := []string{"ecsign", "edsign", "eckg", "edkg"}
	nreq := 1 + r.Pick("two", 2)
	var reqs []*Req
	for k := 0; k < nreq; k++ {
		kind := kinds[r.Pick("kind", 4)]
		if k == 1 {
			kind = besides(kind, reqs)
		}
		var msgs [][]byte
		if kind == "ecsign" || kind == "edsign" {
			for i := 0; i <= r.Pick("batch", 4); i++ {
				msgs = append(msgs, soundBytes(r, kind))
			}
		}
		reqs = append(reqs, c.newReq(kind, msgs))
	}
	faultsFor := 20*sec + r.pickTime("faultsfor", 40*sec)
	mode := r.Pick("mode", 5)
	loss := 0.0
	if mode != 4 {
		loss = 0.02 + 0.5*float64(r.Pick("loss", 12))/12
	}
	w := &wireFaults{c: c, from: now, until: now + faultsFor, loss: loss, dup: 0.1, delay: 0.2, maxDelay: 8 * sec, types: roundTypes}
	if mode == 1 { // everything one node sends, or everything sent to it, for a while
		v := r.Pick("victim", c.n)
		in := r.Chance("inbound", 0.5)
		w.when = func(o *Obs) bool { return in && o.To == v || !in && o.From == v }
		w.loss, w.dup, w.delay = 0.9, 0, 0
	}
	if mode == 2 { // one kind of round message is lost at first
		k := r.Pick("round", 14)
		w.when = func(o *Obs) bool { return int(rt.HashString(round(o.Msg))%14) == k }
		w.loss, w.dup, w.delay = 0.9, 0, 0
	}
	w.install()
	r.Count("mode." + fmt.Sprint(mode))
	for _, q := range reqs {
		q := q
		c.submitAll(q, all(c.n), 9*sec)
	}
	// connections only break once the participants are chosen
	if mode >= 3 {
		r.Until(30*sec, func() bool {
			for _, q := range reqs {
				if !q.executing(c) {
					return false
				}
			}
			return true
		})
		run := true
		for _, q := range reqs {
			run = run && q.executing(c)
		}
		if run {
			switch r.Pick("conn", 4) {
			case 3:
				r.sleep(r.pickTime("freezeat", 2*sec))
				c.freeze(r.Pick("victim", c.n), sec+r.pickTime("freezefor", 40*sec))
			case 0:
				r.W.Net.PReset = 0.03
				r.W.Net.PFrag = 0.2
			case 1:
				a, b := r.Pick("a", c.n), r.Pick("b", c.n)
				if a != b {
					r.sleep(r.pickTime("breakat", 2*sec))
					r.W.Net.Break(c.nodes[a].val.Peer, c.nodes[b].val.Peer)
				}
			default:
				v := r.Pick("victim", c.n)
				r.sleep(r.pickTime("cutat", 2*sec))
				c.isolate(v, true)
				d := 5*sec + r.pickTime("cutfor", 40*sec)
				c.after(d, func() { c.isolate(v, false) })
			}
		}
	}
	if d := now + faultsFor - r.S.Now(); d > 0 {
		r.sleep(d)
	}
	r.W.Net.PReset, r.W.Net.PFrag = 0, 0
	c.settle()
	for _, q := range reqs {
		c.mustSucceed("C04", q, fmt.Sprintf("only round messages and connections were lost, until %.0fs after the submission", faultsFor.Seconds()))
	}
	c.agreement(mode < 3)
	c.keyShares()
	c.finish()
}

// ---------------------------------------------------------------------------- C06

// dupMain: requests are submitted several times.
func dupMain(faults bool) func(r *Run) {
	return func(r *Run) {
		c := newCluster(r, r.Mat)
		c.prefill(true, true, nil)
		if !c.start() {
			return
		}
		if faults {
			c.drawFaults(worksOpt{faults: true, noConn: true})
		} else {
			r.W.Net.PDelay = 0.3
		}
		k := 1 + r.Pick("reqs", 4)
		late := 0
		for j := 0; j < k; j++ {
			kind := []string{"ecsign", "edsign", "ecsign", "edsign", "eckg", "edkg"}[r.Pick("kind", 6)]
			if kind = besides(kind, c.reqs); kind == "" {
				continue
			}
			var msgs [][]byte
			if kind == "ecsign" || kind == "edsign" {
				for i := 0; i <= r.Pick("batch", 3); i++ {
					msgs = append(msgs, plainBytes(r))
				}
			}
			q := c.newReq(kind, msgs)
			at := r.pickTime("at", 3*sec)
			for _, n := range c.nodes {
				n := n
				base := at + r.pickTime("skew", 2*sec)
				c.after(base, func() { c.submit(n, q) })
				for d := r.Pick("dups", 4); d > 0; d-- {
					extra := time.Duration(0)
					switch r.Pick("dupwhen", 3) {
					case 1:
						extra = r.pickTime("dupat", 200*ms)
					case 2:
						extra = r.pickTime("dupat", 12*sec)
					}
					c.after(base+extra, func() {
						if s := q.Subs[n.i]; s != nil && len(s.Reports) > 0 {
							late++ // answered meanwhile: would be a new work
							return
						}
						c.submit(n, q)
						r.Count("dup_submissions")
					})
				}
				if !faults && r.Chance("vary", 0.2) {
					c.after(base+r.pickTime("varyat", 300*ms), func() { c.vary(n, q) })
				}
			}
		}
		r.sleep(18 * sec)
		c.settle()
		for _, q := range c.reqs {
			amb := false
			for _, s := range q.Subs {
				if len(s.Dups) > 0 && len(s.Reports) > 0 && (!s.Call.Done || s.Call.End >= s.Reports[0].At) {
					amb = true
				}
				for _, d := range s.Dups {
					if len(s.Reports) > 0 && (!d.Done || d.End >= s.Reports[0].At) {
						amb = true
					}
				}
				if len(s.Dups) > 0 {
					r.Count("checked.dup")
				}
			}
			// a node runs two works at a time, and of more some may wait too long for their turn
			if !amb && !faults && len(c.reqs) <= 2 {
				c.mustSucceed("C06", q, "it was only submitted repeatedly")
			}
		}
		c.agreement(true)
		c.finish()
	}
}

// ---------------------------------------------------------------------------- C07

// presignSets draws pools of presignatures: result[j] = subset of validators, one presignature each.
func presignSets(r *Run, pools, per int) [][]int {
	var l [][]int
	n := r.Mat.N
	t := threshold(n)
	for p := 0; p < pools; p++ {
		sub := append([]int(nil), all(n)...)
		for i := range sub {
			j := i + r.Grp.Intn(n-i)
			sub[i], sub[j] = sub[j], sub[i]
		}
		k := t + 1 // the library makes presignatures with exactly these
		sub = sub[:k]
		for q := 0; q < per; q++ {
			l = append(l, sub)
		}
	}
	return l
}

// prepPresign draws the group and computes presignatures before the run starts.
func prepPresign(pools, per int, sizes ...int) func(r *Run) {
	g := prepGroup(sizes...)
	return func(r *Run) {
		g(r)
		r.Presign = presignSets(r, 1+r.Grp.Intn(pools), 1+r.Grp.Intn(per))
		cnt := map[string]int{}
		for _, s := range r.Presign {
			k := fmt.Sprint(sortedInts(s))
			cnt[k]++
			r.PresignData = append(r.PresignData, r.Mat.presigns(sortedInts(s), cnt[k])[cnt[k]-1])
		}
	}
}

func sortedInts(s []int) []int {
	l := append([]int(nil), s...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func (c *Cluster) presignPrefill() func(i int, d db.Database) {
	r := c.r
	return func(i int, d db.Database) {
		for j, s := range r.Presign {
			data := r.PresignData[j][i]
			if data == nil {
				continue
			}
			pids, _ := c.mat.pids(s)
			if err := d.SavePresignData(fmt.Sprintf("presign-earlier-%d", j), []*tss.PartyID(pids), []*ecsigning.SignatureData_OneRoundData{data}); err != nil {
				panic(err)
			}
		}
	}
}

// twins submits two signings at once that one node leads and that compete for its presignatures: the leader
// decides about both in the same instant.
func (c *Cluster) twins(batch int, at time.Duration) {
	r := c.r
	var qs []*Req
	for len(qs) < 2 {
		var msgs [][]byte
		for i := 0; i < batch; i++ {
			msgs = append(msgs, plainBytes(r))
		}
		q := c.newReq("ecsign", msgs)
		if len(qs) > 0 && q.Leader != qs[0].Leader || c.rogues[q.Leader] {
			c.dropReq(q)
			continue
		}
		qs = append(qs, q)
	}
	lead := time.Duration(r.Pick("leadby", 3)) * 500 * ms
	c.after(at, func() {
		for i, n := range c.nodes {
			for _, q := range qs {
				n, q := n, q
				d := 500 * ms
				if i == q.Leader {
					d = lead
				}
				c.after(d, func() { c.submit(n, q) })
			}
		}
	})
}

// contendMain: pairs of signings compete for the last presignatures.
func contendMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, c.presignPrefill())
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.05
	for ph := 1 + r.Pick("phases", 4); ph > 0 && r.S.Runaway == ""; ph-- {
		c.twins(1+r.Pick("twinbatch", 2), 0)
		r.sleep(2 * sec)
		c.settle()
	}
	c.agreement(false)
	c.finish()
}

var pContend = &Prof{Name: "contend", Keen: true, Prep: prepPresign(2, 2, 2, 2, 3), Main: contendMain}

// presignMain: concurrent signings share a pool of presignatures.
func presignMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, c.presignPrefill())
	if !c.start() {
		return
	}
	net := r.W.Net
	net.PDelay = 0.3
	now := r.S.Now()
	mode := r.Pick("mode", 6)
	switch mode {
	case 1:
		(&wireFaults{c: c, from: now, until: now + 200*sec, loss: 0.02 + 0.2*float64(r.Pick("loss", 8))/8, dup: 0.1, delay: 0.3, maxDelay: 20 * sec}).install()
	case 2, 3:
		for k := 0; k <= r.Pick("dbnodes", c.n); k++ {
			c.nodes[r.Pick("dbnode", c.n)].dbFaults(r)
		}
	}
	phases := 1 + r.Pick("phases", 4)
	for ph := 0; ph < phases && r.S.Runaway == ""; ph++ {
		k := 1 + r.Pick("reqs", 3)
		if r.Chance("twins", 0.5) {
			c.twins(1+r.Pick("twinbatch", 2), r.pickTime("at", 1*sec))
			k--
		}
		for j := 0; j < k; j++ {
			kind := "ecsign"
			if r.Chance("ed", 0.15) {
				kind = "edsign"
			}
			var msgs [][]byte
			for i := 0; i <= r.Pick("batch", 3); i++ {
				msgs = append(msgs, plainBytes(r))
			}
			q := c.newReq(kind, msgs)
			d := r.pickTime("at", 1*sec)
			skip := -1
			if r.Chance("absent", 0.2) {
				skip = r.Pick("who", c.n)
			}
			c.after(d, func() {
				for i, n := range c.nodes {
					if i != skip {
						n := n
						c.after(r.pickTime("skew", 500*ms), func() { c.submit(n, q) })
					}
				}
			})
		}
		if mode >= 3 {
			v := r.Pick("victim", c.n)
			at := r.pickTime("killat", 6*sec)
			c.after(at, func() {
				if c.nodes[v].up() {
					c.nodes[v].kill("planned")
					c.after(2*sec, func() {
						if c.nodes[v].node.Dead {
							c.nodes[v].boot()
						}
					})
				}
			})
		}
		r.sleep(12 * sec)
		c.settle()
		if !c.r.Until(300*sec, c.allUp) {
			break
		}
	}
	c.agreement(false)
	c.finish()
}

// ---------------------------------------------------------------------------- C20

// tolerateMain: fewer nodes than all, but enough, are available.
func tolerateMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, nil)
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	spare := c.n - (c.t + 1)
	nreq := 1 + r.Pick("reqs", 2)
	var reqs []*Req
	leads := map[int]bool{}
	for j := 0; j < nreq; j++ {
		kind := signKinds[r.Pick("kind", 2)]
		var msgs [][]byte
		for i := 0; i <= r.Pick("batch", 3); i++ {
			msgs = append(msgs, soundBytes(r, kind))
		}
		q := c.newReq(kind, msgs)
		reqs = append(reqs, q)
		leads[q.Leader] = true
	}
	gone := map[int]bool{}
	want := r.Pick("gone", spare+1)
	skip := map[int]bool{}
	var late []int
	for tries := 0; len(gone) < want && tries < 20; tries++ {
		v := r.Pick("who", c.n)
		if leads[v] || gone[v] {
			continue
		}
		gone[v] = true
		n := c.nodes[v]
		switch r.Pick("how", 6) {
		case 4, 5: // asked so late that its answer reaches the leaders around the end of their window
			skip[v] = true
			late = append(late, v)
		case 0: // crashed
			n.down = true
			n.abrupt = r.Chance("abrupt", 0.5)
			n.kill("planned")
		case 1: // cut off, or its process does not run
			if r.Chance("freeze", 0.5) {
				c.freeze(v, 100*sec+r.pickTime("freezefor", 60*sec))
				skip[v] = true
				break
			}
			c.isolate(v, true)
			if r.Chance("heals", 0.3) {
				c.after(25*sec+r.pickTime("healat", 60*sec), func() { c.isolate(v, false) })
			}
		case 2: // never asked
			skip[v] = true
		default: // asked much too late
			skip[v] = true
			d := 40*sec + r.pickTime("lateby", 60*sec)
			for _, q := range reqs {
				q := q
				c.after(d, func() { c.submit(n, q) })
			}
		}
	}
	r.Count(fmt.Sprintf("gone.%d", len(gone)))
	r.sleep(r.pickTime("settle", 50*sec))
	for _, q := range reqs {
		var who []int
		for i := range c.nodes {
			if !skip[i] && !c.nodes[i].node.Dead {
				who = append(who, i)
			}
		}
		skew := r.pickTime("skew", 3*sec)
		if len(late) > 0 {
			skew = 0
		}
		c.submitAll(q, who, skew)
		for _, v := range late {
			q, n := q, c.nodes[v]
			c.after(14700*time.Millisecond+r.pickTime("lateby", 350*time.Millisecond), func() { c.submit(n, q) })
		}
	}
	r.sleep(100 * sec)
	c.settle()
	for _, q := range reqs {
		r.Count("checked.success")
		a := q.announced()
		if a == nil {
			r.Fail("C20", "nobody-selected", "request %d (%s): %d of %d nodes unavailable, its leader %d announced no participants", q.N, q.Kind, len(gone), c.n, q.Leader)
			continue
		}
		for i := range c.nodes {
			s := q.Subs[i]
			if gone[i] || s == nil || !s.Accepted() {
				continue
			}
			if len(s.Reports) == 0 {
				r.Fail("C20", "no-answer", "node %d has not answered request %d (%s)", i, q.N, q.Kind)
				continue
			}
			want := 2
			if a[c.mat.Vals[i].ID] {
				want = 0
			}
			if o := s.Reports[0].Outcome; o != want {
				r.Fail("C20", fmt.Sprintf("outcome-%d-instead-of-%d", o, want), "node %d reports %d for request %d (%s) %.1fs after its submission; %d of %d nodes are unavailable, its leader %d is not",
					i, o, q.N, q.Kind, (s.Reports[0].At - s.At).Seconds(), len(gone), c.n, q.Leader)
			}
		}
	}
	c.agreement(false)
	c.finish()
}

// ---------------------------------------------------------------------------- C22

// dbMain: the databases of running nodes fail.
func dbMain(r *Run) {
	c := newCluster(r, r.Mat)
	pre := c.presignPrefill()
	if len(r.Presign) == 0 {
		pre = nil
	}
	c.prefill(true, true, pre)
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	// a work that needs the database no more
	first := c.newReq("edsign", [][]byte{plainBytes(r), plainBytes(r)})
	c.submitAll(first, all(c.n), 500*ms)
	r.Until(30*sec, func() bool {
		for i := range c.nodes {
			if s := first.Subs[i]; s == nil || !s.Accepted() {
				return false
			}
		}
		return true
	})
	accepted := len(first.Subs) == c.n
	for _, s := range first.Subs {
		accepted = accepted && s.Accepted()
	}
	// the faults
	until := r.S.Now() + 20*sec + r.pickTime("faultsfor", 150*sec)
	for k := 0; k <= r.Pick("dbnodes", c.n); k++ {
		n := c.nodes[r.Pick("dbnode", c.n)]
		switch r.Pick("dbmode", 4) {
		case 0: // unreachable for a while
			at := r.pickTime("downat", 40*sec)
			c.after(at, func() { n.store.Down = true; r.W.Count("db.outage") })
			c.after(at+5*sec+r.pickTime("downfor", 100*sec), func() { n.store.Down = false })
		case 1: // very slow
			n.store.Quiet = false
			n.store.PSlow = 0.9
		default:
			n.dbFaults(r)
		}
	}
	k := 1 + r.Pick("reqs", 4)
	kg := map[string]bool{}
	for j := 0; j < k; j++ {
		kind := []string{"ecsign", "edsign", "eckg", "edkg", "ecsign"}[r.Pick("kind", 5)]
		if kg[kind] && (kind == "eckg" || kind == "edkg") {
			kind = "ecsign"
		}
		kg[kind] = true
		var msgs [][]byte
		if kind == "ecsign" || kind == "edsign" {
			for i := 0; i <= r.Pick("batch", 3); i++ {
				msgs = append(msgs, plainBytes(r))
			}
		}
		q := c.newReq(kind, msgs)
		c.after(r.pickTime("at", 60*sec), func() { c.submitAll(q, all(c.n), 4*sec) })
	}
	r.sleep(70 * sec)
	if d := until - r.S.Now(); d > 0 {
		r.sleep(d)
	}
	c.quiet()
	c.settle()
	if accepted {
		c.mustSucceed("C22", first, "it was accepted everywhere before the database failed and needs it no more")
	}
	c.keyShares()
	if !c.healthy(400 * sec) {
		r.Fail("C22", "not-up", "not every node came up after the databases were back")
	}
	// groups whose members hold different newest keys cannot sign with them
	var sk []string
	for _, kt := range []string{"ecdsa", "eddsa"} {
		same := true
		for _, n := range c.nodes {
			rows, _ := n.store.Rows("SELECT work_id FROM keygen WHERE key_type=?", kt)
			same = same && len(rows) == 1
		}
		if same {
			sk = append(sk, map[string]string{"ecdsa": "ecsign", "eddsa": "edsign"}[kt])
		}
	}
	c.serves([]string{"C22"}, sk...)
	c.agreement(false)
	c.finish()
}

// ---------------------------------------------------------------------------- C08

// crashMain: nodes crash at any instant of their life.
func crashMain(r *Run) {
	c := newCluster(r, r.Mat)
	for _, n := range c.nodes {
		n.preSlow = time.Duration(1+r.Pick("preslow", 30)) * sec
		n.store.Quiet = true
		if r.Chance("dbdown", 0.25) {
			n := n
			n.store.Down, n.noDB = true, true
			d := r.pickTime("dbup", 60*sec)
			if r.Chance("dblong", 0.3) {
				d *= 6
			}
			c.after(1*sec+d, func() {
				if n.initDone || n.pinged == n.gen && n.gen > 0 {
					r.Fail("C08", "runs-without-database", "node %d finished its start-up while its database was unreachable", n.i)
				}
				n.store.Down, n.noDB = false, false
			})
		}
		if r.Chance("dbfaults", 0.25) {
			n.dbFaults(r)
		}
		if r.Chance("prefail", 0.1) {
			n.preFail = 1
		}
	}
	// pre-parameters, once stored, never change
	first := map[int]string{}
	gens := map[int]int{}
	params := func() {
		for _, n := range c.nodes {
			rows, err := n.store.Rows("SELECT preparams FROM preparams")
			if err != nil || len(rows) == 0 {
				if first[n.i] != "" {
					r.Fail("C08", "preparams-lost", "the pre-parameters of node %d are gone", n.i)
				}
				continue
			}
			v := string(toBytes(rows[0][0]))
			r.Count("checked.preparams")
			if first[n.i] == "" {
				first[n.i] = v
				gens[n.i] = n.genCount
			} else if first[n.i] != v || len(rows) > 1 {
				r.Fail("C08", "preparams-changed", "the pre-parameters of node %d changed", n.i)
			}
			if n.genCount > gens[n.i] {
				r.Fail("C08", "preparams-generated-again", "node %d generated pre-parameters again although it has stored some", n.i)
			}
		}
	}
	crash := func(name string, window time.Duration) {
		for k := r.Pick(name, 3); k > 0; k-- {
			v := r.Pick("victim", c.n)
			at := r.pickTime("killat", window)
			back := 1*sec + r.pickTime("back", 10*sec)
			c.after(at, func() {
				n := c.nodes[v]
				if n.node.Dead {
					return
				}
				n.abrupt = r.Chance("abrupt", 0.5)
				n.kill("planned")
				c.after(back, func() {
					if n.node.Dead {
						n.boot()
					}
				})
			})
		}
	}
	c.restartMax = 60
	crash("early", 60*sec)
	for _, n := range c.nodes {
		n.boot()
	}
	r.Until(600*sec, func() bool { params(); return c.allUp() })
	for _, n := range c.nodes {
		n.store.Quiet = true
	}
	if !c.healthy(900 * sec) {
		r.Fail("C08", "does-not-start", "a node does not finish its start-up after the faults stopped")
		c.finish()
		return
	}
	params()
	crash("mid", 25*sec)
	if r.Chance("dbfaults2", 0.3) {
		c.nodes[r.Pick("dbnode", c.n)].dbFaults(r)
	}
	kinds := [][]string{{"eckg"}, {"edkg"}, {"eckg", "edkg"}}[r.Pick("kinds", 3)]
	for _, k := range kinds {
		q := c.newReq(k, nil)
		c.submitAll(q, all(c.n), 3*sec)
	}
	r.sleep(40 * sec)
	c.settle()
	c.quiet()
	for _, n := range c.nodes {
		n.store.Quiet = true
	}
	c.healthy(900 * sec)
	params()
	c.keyShares()
	// the client repeats key generations that did not succeed everywhere
	for _, k := range kinds {
		kt := map[string]string{"eckg": "ecdsa", "edkg": "eddsa"}[k]
		done := func() bool {
			for _, q := range c.reqs {
				if q.Kind == k && q.successes() == c.n {
					return true
				}
			}
			return false
		}
		for try := 0; try < 4 && !done(); try++ {
			q := c.newReq(k, nil)
			c.submitAll(q, all(c.n), 0)
			c.settleReq(q)
		}
		if !done() {
			r.Fail("C08", "cannot-generate-"+kt, "after all faults stopped, 4 key generations in a row failed")
			c.finish()
			return
		}
	}
	c.keyShares()
	// crash some nodes and sign with what they stored
	for k := 1 + r.Pick("crashes", c.n); k > 0; k-- {
		n := c.nodes[r.Pick("victim2", c.n)]
		if !n.node.Dead {
			n.abrupt = r.Chance("abrupt2", 0.5)
			n.kill("planned")
			if r.Chance("early2", 0.5) {
				n.boot()
			}
		}
	}
	if !c.healthy(900 * sec) {
		r.Fail("C08", "does-not-start", "a node does not start again")
		c.finish()
		return
	}
	params()
	var sk []string
	for _, k := range kinds {
		sk = append(sk, map[string]string{"eckg": "ecsign", "edkg": "edsign"}[k])
	}
	c.serves([]string{"C08"}, sk...)
	c.finish()
}

var _ = common.TssMessage_UPDATE_MESSAGES
