package main

import (
	"bytes"
	"time"

	common "github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/zzsim/world"
)

// prepGroup draws the group from the seed: its size and the type of the validator keys.
func prepGroup(sizes ...int) func(r *Run) {
	return func(r *Run) {
		n := sizes[r.Grp.Intn(len(sizes))]
		kind := "ed25519"
		if r.Grp.Intn(2) == 0 {
			kind = "secp256k1"
		}
		r.Mat = material(n, kind)
	}
}

// signBytes draws bytes to sign.
func signBytes(r *Run, kind string) []byte {
	g := r.Rng
	switch r.Pick("bytes", 12) {
	case 0, 1, 2, 3, 4, 5:
		b := g.Bytes(32)
		b[0] |= 1
		return b
	case 6, 7: // leading zero bytes
		b := g.Bytes(32)
		for i := 0; i < 1+g.Intn(3); i++ {
			b[i] = 0
		}
		return b
	case 8:
		return []byte{byte(1 + g.Intn(255))}
	case 9:
		b := g.Bytes(33 + g.Intn(64))
		b[0] |= 0x10
		return b
	case 10:
		b := g.Bytes(1 + g.Intn(31))
		b[0] |= 1
		return b
	default:
		if kind == "edsign" {
			b := g.Bytes(200 + g.Intn(400))
			b[0] |= 1
			return b
		}
		return bytes.Repeat([]byte{0xff}, 32) // beyond the curve order
	}
}

// soundBytes are any bytes that a validator group is able to sign: the EdDSA side loses leading zero bytes, the
// ECDSA side refuses numbers beyond the order of the curve, and both report a failure.
func soundBytes(r *Run, kind string) []byte {
	b := signBytes(r, kind)
	if kind == "edsign" && b[0] == 0 || b[0] == 0xff {
		b[0] = 1
	}
	return b
}

func plainBytes(r *Run) []byte {
	b := r.Rng.Bytes(32)
	b[0] = b[0]&0x7f | 1
	return b
}

var signKinds = []string{"ecsign", "edsign"}

// Faults of the wire during [from, until).
type wireFaults struct {
	c        *Cluster
	from     time.Duration
	until    time.Duration
	loss     float64
	dup      float64
	delay    float64
	maxDelay time.Duration
	types    map[common.TssMessage_Type]bool // nil: all
	when     func(o *Obs) bool
}

func (w *wireFaults) install() {
	s := w.c.r.S
	w.c.fate = func(o *Obs) world.Action {
		now := s.Now()
		if now < w.from || now >= w.until || (w.types != nil && !w.types[o.Msg.Type]) || (w.when != nil && !w.when(o)) {
			return world.Action{}
		}
		p := w.loss + w.dup + w.delay
		if p <= 0 || o.From < 0 {
			return world.Action{}
		}
		name := "msg:" + w.c.nodes[o.From].node.Name
		k := s.Decide(name, 61, p) // 1..60
		if k == 0 {
			return world.Action{}
		}
		x := float64(k-1) / 60 * p
		switch {
		case x < w.loss:
			return world.Action{Drop: true}
		case x < w.loss+w.dup:
			return world.Action{Dup: true}
		default:
			d := s.Decide(name+":d", 50, 0.98)
			return world.Action{Delay: w.maxDelay * time.Duration(d+1) / 50}
		}
	}
}

var roundTypes = map[common.TssMessage_Type]bool{common.TssMessage_UPDATE_MESSAGES: true, common.TssMessage_ASK_MESSAGE_REQUEST: true}

// worksOpt shapes the "works" family: an established group gets a mixed bag of requests.
type worksOpt struct {
	maxReqs int
	spread  time.Duration // requests are submitted within this time
	keygens bool
	faults  bool // draw one of the fault modes
	noConn  bool // no connection faults
	plain   bool // only ordinary message bytes
	skew    time.Duration
	absent  bool // some nodes do not get the request
	minReqs int
	batch   int
	dups    bool
}

func worksMain(o worksOpt) func(r *Run) {
	return func(r *Run) {
		c := newCluster(r, r.Mat)
		c.prefill(true, true, nil)
		if !c.start() {
			return
		}
		exact := c.drawFaults(o)
		k := o.minReqs + r.Pick("reqs", o.maxReqs-o.minReqs+1)
		if k == 0 {
			k = 1
		}
		kg := map[string]bool{}
		for j := 0; j < k; j++ {
			kind := signKinds[r.Pick("kind", 2)]
			if o.keygens && r.Chance("keygen", 0.3) {
				x := []string{"eckg", "edkg"}[r.Pick("kgkind", 2)]
				if !kg[x] {
					kg[x] = true
					kind = x
				}
			}
			var msgs [][]byte
			if kind == "ecsign" || kind == "edsign" {
				nb := 1
				if o.batch > 1 && r.Chance("batch", 0.4) {
					nb = 1 + r.Pick("nbatch", o.batch)
				}
				for i := 0; i < nb; i++ {
					if o.plain {
						msgs = append(msgs, plainBytes(r))
					} else {
						msgs = append(msgs, signBytes(r, kind))
					}
				}
			}
			q := c.newReq(kind, msgs)
			at := o.spread * time.Duration(r.Pick("at", 64)) / 64
			skip := -1
			if o.absent && r.Chance("absent", 0.3) {
				skip = r.Pick("who", c.n)
			}
			var who []int
			for i := 0; i < c.n; i++ {
				if i != skip {
					who = append(who, i)
				}
			}
			c.after(at, func() { c.submitAll(q, who, o.skew) })
		}
		r.Until(o.spread+o.skew+time.Second, func() bool { return false })
		c.settle()
		c.order()
		c.agreement(exact)
		c.refusals()
		c.finish()
	}
}

// refusals: a node that never went down has no reason to refuse a proper request.
func (c *Cluster) refusals() {
	for _, q := range c.reqs {
		for i, n := range c.nodes {
			s := q.Subs[i]
			if s == nil || q.raw != nil || n.node.Dead || s.Gen != n.gen || n.gen > 1 || !s.Call.Done {
				continue
			}
			c.r.Count("checked.refusals")
			if s.Call.Err != nil {
				c.r.Fail("C03", "refused", "node %d refuses request %d (%s, %d messages), which it could serve: %v", i, q.N, q.Kind, len(q.Msgs), s.Call.Err)
			}
		}
	}
}

// drawFaults plans the faults of a run and reports whether connections stay intact.
func (c *Cluster) drawFaults(o worksOpt) bool {
	r := c.r
	net := r.W.Net
	net.PDelay = 0.3
	if !o.faults {
		return true
	}
	now := r.S.Now()
	switch r.Pick("mode", 6) {
	case 0:
		return true
	case 1: // losses of protocol messages
		(&wireFaults{c: c, from: now, until: now + 200*time.Second, loss: 0.02 + 0.2*float64(r.Pick("loss", 8))/8, dup: 0.05, delay: 0.1,
			maxDelay: 10 * time.Second, types: roundTypes}).install()
		return true
	case 2: // losses of any message
		(&wireFaults{c: c, from: now, until: now + 300*time.Second, loss: 0.02 + 0.3*float64(r.Pick("loss", 8))/8, dup: 0.1, delay: 0.2,
			maxDelay: 40 * time.Second}).install()
		return true
	case 3: // reordering and duplication only
		(&wireFaults{c: c, from: now, until: now + 300*time.Second, dup: 0.2, delay: 0.4, maxDelay: 25 * time.Second}).install()
		return true
	case 4: // connections break
		net.PFrag = 0.2
		if o.noConn {
			return true
		}
		net.PReset = 0.01
		net.PConnFail = 0.05
		c.after(120*time.Second, func() { net.PReset, net.PConnFail = 0, 0 })
		return false
	default: // a node is cut off or dies for a while
		if o.noConn {
			return true
		}
		v := r.Pick("victim", c.n)
		at := time.Duration(r.Pick("cutat", 64)) * 500 * time.Millisecond
		dur := time.Duration(1+r.Pick("cutfor", 16)) * 8 * time.Second
		if r.Chance("kill", 0.5) {
			c.nodes[v].abrupt = r.Chance("abrupt", 0.5)
			c.after(at, func() { c.nodes[v].kill("planned") })
			c.after(at+dur, func() { c.nodes[v].boot() })
		} else if r.Chance("freeze", 0.4) {
			c.after(at, func() { c.freeze(v, dur/2) })
		} else {
			c.after(at, func() { c.isolate(v, true) })
			c.after(at+dur, func() { c.isolate(v, false) })
		}
		return false
	}
}

// freeze stalls the process of a node: its machine still accepts what fits into the buffers of its connections.
func (c *Cluster) freeze(i int, d time.Duration) {
	n := c.nodes[i]
	if n.node.Dead {
		return
	}
	n.frozen += d
	c.r.W.Net.Window = []int{256 << 10, 32 << 10, 16 << 10}[c.r.Pick("window", 3)]
	c.r.W.Count("node.freeze")
	c.r.Event(n.node.Name, "freeze")
	c.r.S.StallNode(n.node, d)
}

// isolate cuts a node off from the others.
func (c *Cluster) isolate(i int, cut bool) {
	for j := range c.nodes {
		if j != i {
			c.r.W.Net.Partition(c.nodes[i].val.Peer, c.nodes[j].val.Peer, cut)
		}
	}
	c.r.Event(c.nodes[i].node.Name, "isolate")
}
