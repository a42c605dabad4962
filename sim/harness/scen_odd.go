package main

import (
	"strings"
	"time"

	"github.com/sisu-network/dheart/server"
	htypes "github.com/sisu-network/dheart/types"
)

// Requests that no correct client sends: each must be refused or answered like any other, and must harm nobody.

var oddKinds = []string{"no-validators", "short-key", "wrong-key", "unknown-validator-type", "unknown-type", "no-messages", "nil-message",
	"nil-bytes", "empty-bytes", "big-batch", "no-request", "same-ids", "empty-ids", "long-id", "long-message", "missing-key"}

func oddMain(r *Run) {
	c := newCluster(r, r.Mat)
	ec, ed := true, true
	if r.Chance("nokey", 0.4) {
		if r.Chance("which", 0.5) {
			ec = false
		} else {
			ed = false
		}
	}
	c.prefill(ec, ed, nil)
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	calm := true
	if r.Chance("faults", 0.2) {
		calm = false
		c.drawFaults(worksOpt{faults: true})
	}
	have := map[string]bool{"ecdsa": ec, "eddsa": ed}
	used := false
	k := 1 + r.Pick("odd", 5)
	for j := 0; j < k && r.S.Runaway == ""; j++ {
		kind := []string{"ecsign", "edsign", "ecsign", "edsign", "eckg", "edkg"}[r.Pick("kind", 6)]
		sign := !strings.HasSuffix(kind, "kg")
		odd := oddKinds[r.Pick("odd", len(oddKinds))]
		if odd == "empty-ids" {
			if used {
				odd = "nil-bytes"
			}
			used = true
		}
		var msgs [][]byte
		if sign {
			nb := 1 + r.Pick("batch", 2)
			if odd == "big-batch" {
				nb = 10 + r.Pick("big", 30)
				if kind == "ecsign" {
					nb = 6 + r.Pick("big", 6)
				}
			}
			for i := 0; i < nb; i++ {
				msgs = append(msgs, plainBytes(r))
			}
			switch odd {
			case "empty-bytes":
				msgs[r.Pick("which", len(msgs))] = []byte{}
			case "long-message":
				b := make([]byte, 1000+r.Pick("len", 200000))
				r.Rng.Read(b)
				msgs[r.Pick("which", len(msgs))] = b
			}
		}
		q := c.newReq(kind, msgs)
		if sign && (odd == "same-ids" || odd == "empty-ids") {
			for _, m := range q.Msgs {
				m.Id = q.Msgs[0].Id
				if odd == "empty-ids" {
					m.Id = ""
				}
			}
			c.renamed(q)
		}
		if !sign && odd == "long-id" {
			q.Keygen += strings.Repeat("x", 200+r.Pick("len", 200))
			c.renamed(q)
		}
		at := r.Pick("at", 8)
		q.raw = func(keys []htypes.PubKeyWrapper) func(a server.Api) error {
			typ, w := q.keyType(), q.wire()
			switch odd {
			case "no-validators":
				keys = nil
			case "short-key":
				keys[at%len(keys)].Key = keys[at%len(keys)].Key[:at*4]
			case "wrong-key":
				for i := range keys[at%len(keys)].Key {
					keys[at%len(keys)].Key[i] ^= 0x5a
				}
			case "unknown-validator-type":
				keys[at%len(keys)].KeyType = "sr25519"
			case "unknown-type":
				typ = []string{"", "ECDSA", "schnorr", "ecdsa "}[at%4]
			}
			if !sign {
				return func(a server.Api) error { return a.KeyGen(q.Keygen, typ, keys) }
			}
			w.KeyType = typ
			i := at % len(w.KeysignMessages)
			switch odd {
			case "no-messages":
				w.KeysignMessages = nil
			case "nil-message":
				w.KeysignMessages[i] = nil
			case "nil-bytes":
				w.KeysignMessages[i].BytesToSign = nil
			case "no-request":
				w = nil
			}
			return func(a server.Api) error { return a.KeySign(w, keys) }
		}
		r.Count("odd." + odd)
		who := all(c.n)
		if r.Chance("one", 0.3) {
			who = r.subset(who, 1)
		}
		c.submitAll(q, who, r.pickTime("skew", 3*sec))
		if !r.Chance("overlap", 0.3) || !sign {
			r.sleep(4 * sec)
			c.settle()
		}
	}
	r.sleep(4 * sec)
	c.settle()
	c.agreement(false)
	// nobody is harmed
	c.quiet()
	if !c.healthy(400 * sec) {
		r.Fail("C03", "not-up", "not every node is up at the end")
	}
	var kinds []string
	if have["ecdsa"] && !c.hadKeygen("eckg") {
		kinds = append(kinds, "ecsign")
	}
	if have["eddsa"] && !c.hadKeygen("edkg") {
		kinds = append(kinds, "edsign")
	}
	if calm {
		c.serves([]string{"C03", "C10"}, kinds...)
	}
	c.finish()
}

func (c *Cluster) hadKeygen(kind string) bool {
	for _, q := range c.reqs {
		if q.Kind == kind {
			return true
		}
	}
	return false
}

var pOdd = &Prof{Name: "odd", Prep: prepGroup(2, 3, 3, 4), Main: oddMain, Stall: 100 * time.Millisecond}
