package main

import (
	"time"
)

// The set of validators changes: requests name a part of the validators, validators that hold no share of the
// key, or lists that no client should send. Keys are generated by parts of the group and replaced by later ones.

func prepMembers(r *Run) {
	prepGroup(3, 4, 4, 5, 6)(r)
	n := r.Mat.N
	r.Keys = material(2+r.Grp.Intn(n-2), r.Mat.Vals[0].Type)
}

// holders tells which nodes would sign with which key of a type: the work id of the newest key of each node.
func (c *Cluster) holders(keyType string) map[int]string {
	h := map[int]string{}
	for _, n := range c.nodes {
		rows, _ := n.store.Rows("SELECT work_id FROM keygen WHERE key_type=? ORDER BY created_time DESC", keyType)
		if len(rows) > 0 {
			h[n.i] = string(toBytes(rows[0][0]))
		}
	}
	return h
}

func membersMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.keyMat = r.Keys
	for _, n := range c.nodes {
		n.preSlow = 2 * sec
	}
	group := map[string][]int{"ecdsa": all(r.Keys.N), "eddsa": all(r.Keys.N)} // who generated the newest key
	c.prefill(true, true, nil)
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	calm := true
	if r.Chance("faults", 0.3) {
		calm = false
		c.drawFaults(worksOpt{faults: true})
	}
	k := 2 + r.Pick("reqs", 4)
	for j := 0; j < k && r.S.Runaway == ""; j++ {
		kind := []string{"ecsign", "edsign", "ecsign", "edsign", "eckg", "edkg"}[r.Pick("kind", 6)]
		sign := kind == "ecsign" || kind == "edsign"
		kt := map[string]string{"eckg": "ecdsa", "ecsign": "ecdsa", "edkg": "eddsa", "edsign": "eddsa"}[kind]
		g := group[kt]
		list := append([]int(nil), g...)
		mode := r.Pick("list", 10)
		if !sign {
			mode = []int{0, 5, 6, 6, 6, 6, 6, 6, 8, 9}[mode]
		}
		out := c.without(list)
		switch {
		case mode <= 4: // the group of the key
		case mode == 5: // everybody
			list = all(c.n)
		case mode == 6: // anybody
			list = r.subset(all(c.n), 1+r.Rng.Intn(c.n))
			if len(list) == 1 && !r.Chance("alone", 0.2) {
				list = r.subset(all(c.n), 2)
			}
		case mode == 7: // a validator more
			if len(out) > 0 {
				list = append(list, out[r.Rng.Intn(len(out))])
			}
		case mode == 8: // a validator less
			if len(list) > 2 {
				list = r.subset(list, len(list)-1)
			}
		default: // a validator in the place of another
			if len(out) > 0 {
				list[r.Rng.Intn(len(list))] = out[r.Rng.Intn(len(out))]
			}
		}
		order := r.subset(list, len(list))
		list = sortedInts(list)
		if r.Chance("twice", 0.04) { // a list that names a validator twice
			order = append(order, order[0])
			calm = false
			r.Count("lists with duplicates")
		}
		var msgs [][]byte
		if sign {
			for i := 0; i <= r.Pick("batch", 2); i++ {
				msgs = append(msgs, soundBytes(r, kind))
			}
		}
		q := c.newReqFor(kind, msgs, list)
		q.order = order
		who := list
		everybody := r.Chance("others", 0.2) // nodes that the list does not name get the request, too
		if everybody {
			who = all(c.n)
			r.Count("requests to others")
		}
		// is the list the group that has the newest key?
		same := len(order) == len(list)
		if sign {
			h := c.holders(kt)
			for _, i := range list {
				same = same && h[i] != "" && h[i] == h[list[0]]
			}
			same = same && len(list) == len(g) && len(c.without(list)) == len(c.without(append(list, g...)))
		}
		if same {
			r.Count("lists of the group")
		} else {
			r.Count("other lists")
		}
		c.submitAll(q, who, r.pickTime("skew", 3*sec))
		overlap := r.Chance("overlap", 0.15) && sign
		r.sleep(4 * sec)
		if overlap {
			calm = false
		} else {
			c.settle()
		}
		if calm && same && len(list) > 1 {
			for _, i := range list {
				if s := q.Subs[i]; s == nil || !s.Accepted() {
					r.Fail("C03", "refused", "node %d refuses request %d (%s) for the %d validators that can serve it: %v", i, q.N, q.Kind, len(list), s.Call.Err)
				}
			}
			why := "every validator that it names is up and holds what it needs"
			c.membersSucceed(q, why)
		}
		if !sign && q.successes() > 0 {
			group[kt] = list
			r.sleep(2 * sec) // keys of one second cannot be told apart
		}
	}
	c.settle()
	c.keyShares()
	c.agreement(false)
	// nobody is harmed: the group of the newest key still signs
	c.quiet()
	if !c.healthy(400 * sec) {
		r.Fail("C03", "not-up", "not every node is up at the end")
	}
	c.finish()
}

func (c *Cluster) membersSucceed(q *Req, why string) {
	p := "C02"
	c.mustSucceed(p, q, why)
	c.mustSucceed("C20", q, why)
}

// without lists the nodes that are not in the list.
func (c *Cluster) without(l []int) (o []int) {
	in := map[int]bool{}
	for _, i := range l {
		in[i] = true
	}
	for i := range c.nodes {
		if !in[i] {
			o = append(o, i)
		}
	}
	return
}

var pMembers = &Prof{Name: "members", Prep: prepMembers, Main: membersMain, Stall: 100 * time.Millisecond}
