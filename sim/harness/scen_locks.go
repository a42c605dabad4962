package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/sisu-network/dheart/server"
)

// ---------------------------------------------------------------------------- C15

// races turns unsynchronised map accesses into violations.
func (r *Run) races() {
	for _, x := range r.S.Races {
		if strings.HasPrefix(x.Node, "n") {
			a, b := siteFunc(x.A), siteFunc(x.B)
			if a > b {
				a, b = b, a
			}
			r.Fail("C15", "map-race@"+a+"|"+b, "unsynchronised map access on %s: %s at %s and %s at %s", x.Node, x.AOp, x.A, x.BOp, x.B)
		}
	}
}

// raced is a run family with race detection and a heavy schedule.
func raced(p *Prof) *Prof {
	q := *p
	q.Name, q.Race = "raced-"+p.Name, true
	return &q
}

// locksMain storms the API of every node from many goroutines while works run and faults happen; afterwards no
// goroutine may be blocked for ever, every call must have returned and the group must serve.
func locksMain(r *Run) {
	c := newCluster(r, r.Mat)
	pre := c.presignPrefill()
	c.prefill(true, true, pre)
	early := r.Chance("early", 0.3) // calls while the nodes still start
	if early {
		for _, n := range c.nodes {
			n.boot()
		}
		r.sleep(r.pickTime("head", 5*sec))
	} else if !c.start() {
		return
	}
	c.drawFaults(worksOpt{faults: r.Chance("faults", 0.7)})
	if r.Chance("slowdb", 0.3) {
		c.nodes[r.Pick("slow", c.n)].store.PSlow = 0.3
	}
	r.W.Net.PDelay = 0.3
	bursts := 2 + r.Pick("bursts", 4)
	span := 40 * sec
	kg := map[string]bool{}
	for b := 0; b < bursts; b++ {
		at := span * time.Duration(r.Pick("at", 64)) / 64
		var qs []*Req
		for k := 1 + r.Pick("reqs", 4); k > 0; k-- {
			kind := signKinds[r.Pick("kind", 2)]
			if r.Chance("keygen", 0.15) {
				x := []string{"eckg", "edkg"}[r.Pick("kgkind", 2)]
				if !kg[x] {
					kg[x], kind = true, x
				}
			}
			var msgs [][]byte
			if kind == "ecsign" || kind == "edsign" {
				msgs = [][]byte{plainBytes(r)}
			}
			qs = append(qs, c.newReq(kind, msgs))
		}
		if r.Chance("twins", 0.4) {
			c.twins(1+r.Pick("twinbatch", 2), at)
		}
		spread := r.pickTime("spread", 3*sec)
		if r.Chance("tight", 0.6) {
			spread = 0
		}
		copies := 1
		if r.Chance("copies", 0.3) {
			copies = 2 + r.Pick("ncopies", 3)
		}
		others := r.Pick("others", 5)
		c.after(at, func() {
			for _, q := range qs {
				for k := 0; k < copies; k++ {
					c.submitAll(q, all(c.n), spread)
				}
			}
			for k := 0; k < others; k++ {
				n := c.nodes[r.Pick("callee", c.n)]
				switch r.Pick("what", 6) {
				case 0:
					enc := seal(n.val.Priv.Bytes(), r.Rng.Bytes(12))
					n.call("SetPrivKey", func(a server.Api) error { return a.SetPrivKey(enc, n.val.Type) })
				case 1:
					off := r.Chance("off", 0.2)
					n.call(fmt.Sprint("SetSisuReady ", !off), func(a server.Api) error { a.SetSisuReady(!off); return nil })
					if off {
						c.after(r.pickTime("offfor", 5*sec), func() {
							n.call("SetSisuReady true", func(a server.Api) error { a.SetSisuReady(true); return nil })
						})
					}
				case 2:
					n.call("BlockEnd", func(a server.Api) error { return a.BlockEnd(int64(r.Pick("height", 1000))) })
				case 3:
					n.call("Ping", func(a server.Api) error { a.Ping("sisu"); return nil })
				default:
					q := qs[0]
					c.submit(n, q)
				}
			}
		})
	}
	r.Until(span+20*sec, func() bool { return false })
	c.settle()
	c.quiet()
	if !c.healthy(400 * sec) {
		if r.S.Runaway == "" {
			r.Fail("C15", "never-ready", "with all faults over, a node does not become ready within 400 s")
		}
		c.finish()
		return
	}
	for _, n := range c.nodes {
		n.call("SetSisuReady true", func(a server.Api) error { a.SetSisuReady(true); return nil })
	}
	r.sleep(5 * sec)
	for i, kind := range signKinds { // a key generation that only some nodes finished leaves no common newest key
		if !kg[[]string{"eckg", "edkg"}[i]] {
			c.serves([]string{"C15"}, kind)
		}
	}
	r.sleep(210 * sec) // whatever still blocks now blocks for ever
	c.finish()
}

var pLocks = &Prof{Name: "locks", Prep: prepPresign(1, 2, 2, 3, 3), Main: locksMain, Race: true}
