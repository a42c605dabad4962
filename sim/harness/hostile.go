package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/libp2p/go-libp2p/core/network"
	ma "github.com/multiformats/go-multiaddr"

	"github.com/sisu-network/dheart/p2p"
	common "github.com/sisu-network/dheart/types/common"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
	"github.com/sisu-network/dheart/zzsim/world"
)

// rogue is a hostile peer: a validator of the group that does not run dheart, or a stranger.
type rogue struct {
	c       *Cluster
	i       int // validator index, -1 for a stranger
	val     *Val
	node    *rt.Node
	h       *world.Host
	streams map[int]network.Stream
	seen    []*common.SignedMessage // what honest nodes sent lately
	absent  int                     // honest validator that takes part in nothing, -1
	joins   map[string]bool         // works it takes part in
	kicks   int
	acts    int
	reads   bool
}

var tssRounds = []string{"SignRound1Message1", "SignRound1Message2", "SignRound2Message", "SignRound3Message", "SignRound4Message", "SignRound5Message",
	"SignRound6Message", "SignRound7Message", "SignRound1Message", "SignRound3Message", "KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"}

func newRogue(c *Cluster, i int) *rogue {
	x := &rogue{c: c, i: i, node: c.r.S.NewNode("rogue"), streams: map[int]network.Stream{}, absent: -1, joins: map[string]bool{}}
	if i >= 0 {
		x.val = c.mat.Vals[i]
		c.nodes[i].down = true
		c.rogues[i] = true
	} else {
		x.val = newVal(77, c.kind)
	}
	x.reads = c.r.Chance("rogue.reads", 0.6)
	c.hooks = append(c.hooks, x.watch)
	return x
}

// start opens the host of the peer.
func (x *rogue) start() {
	r := x.c.r
	ok := false
	r.S.Spawn(x.node, func() {
		k := x.i + 1
		if x.i < 0 {
			k = 200
		}
		a, _ := ma.NewMultiaddr(fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300", k))
		h, err := r.W.Net.NewHost(x.val.Peer, []ma.Multiaddr{a})
		if err != nil {
			return
		}
		h.Raw = true
		for j, n := range x.c.nodes {
			if j != x.i {
				b, _ := ma.NewMultiaddr(fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300", j+1))
				h.Learn(n.val.Peer, []ma.Multiaddr{b})
			}
		}
		h.SetStreamHandler(p2p.TSSProtocolID, func(s network.Stream) {
			b := make([]byte, 4000)
			for x.reads {
				if _, err := s.Read(b); err != nil {
					return
				}
			}
		})
		x.h = h
		ok = true
	})
	r.Until(sec, func() bool { return ok })
}

// honest are the validators that run dheart.
func (x *rogue) honest() []int {
	var l []int
	for i := range x.c.nodes {
		if i != x.i {
			l = append(l, i)
		}
	}
	return l
}

// watch is told of every message an honest node sends.
func (x *rogue) watch(o *Obs) {
	if len(x.seen) > 80 {
		x.seen = x.seen[40:]
	}
	x.seen = append(x.seen, o.Signed)
	if x.kicks > 0 && x.h != nil && o.Msg.Type != common.TssMessage_ASK_MESSAGE_REQUEST && x.c.r.Chance("rogue.kick", 0.3) {
		x.kicks--
		x.c.r.S.Spawn(x.node, func() { x.act(o) })
	}
}

func (x *rogue) write(to int, b []byte) {
	r := x.c.r
	s := x.streams[to]
	if s == nil || r.Chance("rogue.newstream", 0.1) {
		var err error
		s, err = x.h.NewStream(context.Background(), x.c.nodes[to].val.Peer, p2p.TSSProtocolID)
		if err != nil {
			return
		}
		x.streams[to] = s
	}
	s.SetWriteDeadline(rt.WallNow().Add(10 * sec))
	if _, err := s.Write(b); err != nil {
		s.Reset()
		if x.streams[to] == s {
			delete(x.streams, to)
		}
	}
}

func (x *rogue) send(to int, sm *common.SignedMessage) {
	bz, _ := json.Marshal(sm)
	x.write(to, frame(bz))
}

func (x *rogue) sign(m *common.TssMessage) *common.SignedMessage {
	bz, _ := json.Marshal(m)
	sig, _ := x.val.Priv.Sign(bz)
	return &common.SignedMessage{From: x.val.ID, TssMessage: m, Signature: sig}
}

func cloneMsg(m *common.TssMessage) *common.TssMessage {
	bz, _ := json.Marshal(m)
	y := &common.TssMessage{}
	json.Unmarshal(bz, y)
	return y
}

// a work it may talk about
func (x *rogue) work(about *Obs) string {
	r := x.c.r
	if about != nil && r.Chance("rogue.about", 0.8) {
		return about.Msg.WorkId
	}
	k := r.Pick("rogue.work", len(x.c.reqs)+1)
	if k == len(x.c.reqs) {
		return fmt.Sprintf("no-such-work-%d", r.Rng.Intn(3))
	}
	return x.c.reqs[k].ID
}

// somebody names a party: honest, absent, itself or unknown.
func (x *rogue) somebody() string {
	r := x.c.r
	switch k := r.Pick("rogue.who", x.c.n+3); {
	case k < x.c.n:
		return x.c.mat.Vals[k].ID
	case k == x.c.n:
		return ""
	case k == x.c.n+1 && x.absent >= 0:
		return x.c.mat.Vals[x.absent].ID
	default:
		return newVal(88, x.c.kind).ID
	}
}

// update is a protocol message, recorded or made up.
func (x *rogue) update(work string) *common.TssMessage {
	r := x.c.r
	var l []*common.TssMessage
	for _, s := range x.seen {
		if s.TssMessage.Type == common.TssMessage_UPDATE_MESSAGES {
			l = append(l, s.TssMessage)
		}
	}
	m := &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, WorkId: work}
	if len(l) > 0 && r.Chance("rogue.recorded", 0.7) {
		m = cloneMsg(l[len(l)-1-r.Rng.Intn(len(l))])
		m.WorkId = work
	} else {
		for k := r.Pick("rogue.batch", 6); k >= 0; k-- {
			m.UpdateMessages = append(m.UpdateMessages, &common.UpdateMessage{Data: r.Rng.Bytes(r.Rng.Intn(200)), SerializedMessageRouting: []byte(`{}`),
				Round: tssRounds[r.Rng.Intn(len(tssRounds))]})
		}
	}
	if len(m.UpdateMessages) > 0 {
		switch r.Pick("rogue.content", 9) {
		case 0:
			m.UpdateMessages[0].Data = nil
		case 1:
			m.UpdateMessages = append(m.UpdateMessages, m.UpdateMessages...)
		case 2:
			m.UpdateMessages = m.UpdateMessages[:len(m.UpdateMessages)-1]
		case 3:
			m.UpdateMessages[0].SerializedMessageRouting = []byte("[}")
		case 4:
			m.UpdateMessages[0].Round = ""
		case 5:
			m.UpdateMessages[r.Rng.Intn(len(m.UpdateMessages))] = nil
		case 6:
			for _, u := range m.UpdateMessages {
				if len(u.Data) > 0 {
					u.Data[r.Rng.Intn(len(u.Data))] ^= byte(1 + r.Rng.Intn(255))
				}
			}
		}
	}
	switch r.Pick("rogue.to", 3) {
	case 0:
		m.To = ""
	case 1:
		m.To = x.somebody()
	}
	return m
}

// outcomeMsg is a selection outcome.
func (x *rogue) outcomeMsg(work string) *common.TssMessage {
	r := x.c.r
	o := &common.PreExecOutputMessage{Success: r.Chance("rogue.success", 0.7)}
	for i := range x.c.nodes {
		if r.Chance("rogue.in", 0.7) {
			o.Pids = append(o.Pids, x.c.mat.Vals[i].ID)
		}
	}
	switch r.Pick("rogue.pids", 6) {
	case 0:
		o.Pids = nil
	case 1:
		o.Pids = append(o.Pids, x.somebody())
	case 2:
		o.Pids = nil
		for i := range x.c.nodes {
			o.Pids = append(o.Pids, x.c.mat.Vals[i].ID)
		}
	}
	if r.Chance("rogue.presigns", 0.2) {
		o.PresignIds = []string{"presign-earlier-0-0", "x"}[:1+r.Rng.Intn(2)]
	}
	return &common.TssMessage{Type: common.TssMessage_PRE_EXEC_OUTPUT, WorkId: work, PreExecOutputMessage: o}
}

// act does one hostile thing; about is a message it reacts to.
func (x *rogue) act(about *Obs) {
	r := x.c.r
	c := x.c
	x.acts++
	h := x.honest()
	to := h[r.Pick("rogue.target", len(h))]
	w := x.work(about)
	q := c.byWork[w]
	kind := r.Pick("rogue.act", 22)
	r.W.Count(fmt.Sprintf("hostile.%02d", kind))
	leader := c.mat.Vals[h[0]].ID
	if q != nil {
		leader = c.mat.Vals[q.Leader].ID
	}
	switch kind {
	case 0: // no JSON
		x.write(to, frame(r.Rng.Bytes(r.Rng.Intn(300))))
	case 1: // JSON of another shape
		l := []string{`null`, `{}`, `[]`, `{"from":1}`, `{"tssMessage":null}`, `{"tssMessage":[]}`, `{"from":"` + x.val.ID + `","tssMessage":{}}`, `{"tssMessage":{"updateMessages":[null]}}`,
			`{"tssMessage":{"type":1e99}}`, `"x"`, strings.Repeat("[", 5000), `{"from":"` + x.val.ID + `","tssMessage":{"from":"` + x.val.ID + `","type":7},"signature":null}`}
		x.write(to, frame([]byte(l[r.Pick("rogue.json", len(l))])))
	case 2: // framing
		l := make([]byte, 4)
		binary.LittleEndian.PutUint32(l, []uint32{20000001, 0xffffffff, 0x7fffffff, 500}[r.Pick("rogue.len", 4)])
		x.write(to, append(l, r.Rng.Bytes(100)...))
		if s := x.streams[to]; s != nil {
			if r.Chance("rogue.reset", 0.5) {
				s.Reset()
			}
			delete(x.streams, to)
		}
	case 3: // every type without content
		m := &common.TssMessage{Type: common.TssMessage_Type([]int32{0, 1, 2, 3, 4, 5, 99, -1}[r.Pick("rogue.type", 8)]), From: x.val.ID, To: x.somebody(), WorkId: w}
		if r.Chance("rogue.empty", 0.5) {
			m.UpdateMessages = []*common.UpdateMessage{}
			m.AvailabilityResponseMessage = &common.AvailabilityResponseMessage{Answer: 55, MaxJob: -1}
			m.PreExecOutputMessage = &common.PreExecOutputMessage{}
			m.AskRequestMessage = &common.AskRequestMessage{}
			if x.joinsNot(w) {
				m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
			}
		}
		if m.Type == common.TssMessage_AVAILABILITY_RESPONSE && m.AvailabilityResponseMessage != nil && x.joinsNot(w) {
			m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_NO
		}
		x.send(to, x.sign(m))
	case 4, 5: // protocol messages in its own name
		m := x.update(w)
		m.From = x.val.ID
		x.send(to, x.sign(m))
	case 6: // what others said, altered
		if len(x.seen) > 0 {
			s := x.seen[r.Rng.Intn(len(x.seen))]
			m := cloneMsg(s.TssMessage)
			switch r.Pick("rogue.alter", 4) {
			case 0:
				m.WorkId = w
			case 1:
				m.To = x.somebody()
			case 2:
				if len(m.UpdateMessages) > 0 && m.UpdateMessages[0] != nil && len(m.UpdateMessages[0].Data) > 0 {
					d := m.UpdateMessages[0].Data
					d[r.Rng.Intn(len(d))] ^= 1
				} else {
					m.WorkId += "x"
				}
			default:
				m.From = x.somebody()
			}
			x.send(to, &common.SignedMessage{From: []string{s.From, m.From}[r.Rng.Intn(2)], TssMessage: m, Signature: s.Signature})
		}
	case 7, 8: // protocol messages in the name of others
		m := x.update(w)
		m.From = x.other()
		x.forge(to, m)
	case 9: // a selection outcome in its own name
		m := x.outcomeMsg(w)
		m.From = x.val.ID
		if q == nil || q.Leader != x.i {
			for _, i := range h {
				x.send(i, x.sign(m))
			}
		}
	case 10, 11: // a selection outcome in the name of the leader
		m := x.outcomeMsg(w)
		m.From = leader
		for _, i := range h {
			x.forge(i, m)
		}
	case 12, 13: // availability of those that said nothing
		m := &common.TssMessage{Type: common.TssMessage_AVAILABILITY_RESPONSE, From: x.other(), To: leader, WorkId: w,
			AvailabilityResponseMessage: &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_YES, MaxJob: 1}}
		if x.absent >= 0 && r.Chance("rogue.absent", 0.8) {
			m.From = c.mat.Vals[x.absent].ID
		}
		if q != nil && q.Leader != x.i {
			to = q.Leader
		}
		x.forge(to, m)
	case 14: // availability requests
		m := &common.TssMessage{Type: common.TssMessage_AVAILABILITY_REQUEST, From: x.val.ID, To: c.mat.Vals[to].ID, WorkId: w}
		x.send(to, x.sign(m))
	case 15, 16: // asks for messages, of others too
		for k := 0; k < 6; k++ {
			a, b := h[r.Rng.Intn(len(h))], h[r.Rng.Intn(len(h))]
			round := x.roundName(q)
			toID := c.mat.Vals[b].ID
			if r.Chance("rogue.askall", 0.2) {
				toID = ""
			}
			m := &common.TssMessage{Type: common.TssMessage_ASK_MESSAGE_REQUEST, From: x.val.ID, To: c.mat.Vals[a].ID, WorkId: w,
				AskRequestMessage: &common.AskRequestMessage{MsgKey: common.GetMessageKey(w, c.mat.Vals[a].ID, toID, round)}}
			if r.Chance("rogue.askas", 0.35) {
				m.From = x.other()
				if r.Chance("rogue.askthird", 0.7) { // what a third party broadcast: it has that in its cache
					m.AskRequestMessage.MsgKey = common.GetMessageKey(w, x.other(), "", round)
				}
				x.forge(a, m)
				continue
			}
			x.send(a, x.sign(m))
		}
	case 17: // nonsense keys
		keys := []string{"", "__", "______", "a__b__c__d", w + "__" + x.val.ID + "__" + "__" + "z", strings.Repeat("__", 3000), w + "__" + x.somebody()}
		m := &common.TssMessage{Type: common.TssMessage_ASK_MESSAGE_REQUEST, From: x.val.ID, WorkId: w, AskRequestMessage: &common.AskRequestMessage{MsgKey: keys[r.Pick("rogue.key", len(keys))]}}
		x.send(to, x.sign(m))
	case 18: // floods
		m := x.update(w)
		m.From = x.val.ID
		if r.Chance("rogue.floodout", 0.3) && (q == nil || q.Leader != x.i) {
			m = x.outcomeMsg(w)
			m.From = x.val.ID
		}
		sm := x.sign(m)
		for k := 50 + r.Pick("rogue.flood", 150); k > 0; k-- {
			x.send(to, sm)
		}
	case 19: // replays
		for k := 0; k < 5 && len(x.seen) > 0; k++ {
			x.send(to, x.seen[r.Rng.Intn(len(x.seen))])
		}
	case 20: // streams that are opened and left alone
		for k := 0; k < 10; k++ {
			if s, err := x.h.NewStream(context.Background(), c.nodes[to].val.Peer, p2p.TSSProtocolID); err == nil {
				s.Write([]byte{1, 0})
			}
		}
	default: // bad signatures
		m := x.update(w)
		m.From = x.other()
		sm := x.sign(m)
		sm.From = m.From
		sm.Signature = [][]byte{nil, {}, {1}, r.Rng.Bytes(64), r.Rng.Bytes(65), r.Rng.Bytes(3000)}[r.Pick("rogue.sig", 6)]
		x.send(to, sm)
	}
}

func (x *rogue) joinsNot(w string) bool { return !x.joins[w] }

// other is a party it is not.
func (x *rogue) other() string {
	l := x.honest()
	return x.c.mat.Vals[l[x.c.r.Pick("rogue.other", len(l))]].ID
}

// forge sends a message in somebody else's name.
func (x *rogue) forge(to int, m *common.TssMessage) {
	r := x.c.r
	sm := x.sign(m)
	switch r.Pick("rogue.forge", 5) {
	case 0, 1: // signed by the peer, labelled with the other's name
		sm.From = m.From
	case 2: // signed and labelled by the peer, the content speaks for the other
	case 3: // labelled, with a signature of the other over something else
		sm.From = m.From
		for _, s := range x.seen {
			if s.From == m.From {
				sm.Signature = s.Signature
			}
		}
	default:
		sm.From = m.From
		sm.Signature = r.Rng.Bytes(64)
	}
	x.send(to, sm)
}

// roundName is the name of a round of the work's protocol.
func (x *rogue) roundName(q *Req) string {
	r := x.c.r
	for k := 0; k < 4; k++ {
		if len(x.seen) == 0 {
			break
		}
		s := x.seen[r.Rng.Intn(len(x.seen))]
		if u := s.TssMessage.UpdateMessages; len(u) > 0 && u[0] != nil && (q == nil || s.TssMessage.WorkId == q.ID) {
			return u[0].Round
		}
	}
	p := "binance.tsslib.ecdsa.signing."
	if q != nil && q.Kind == "edsign" {
		p = "binance.tsslib.eddsa.signing."
	}
	return p + tssRounds[r.Rng.Intn(len(tssRounds))]
}

// campaign performs k hostile acts within d.
func (x *rogue) campaign(k int, d time.Duration) {
	r := x.c.r
	r.S.Spawn(x.node, func() {
		for ; k > 0; k-- {
			rt.Sleep(d * time.Duration(r.Pick("rogue.pause", 64)) / 64 * 2 / time.Duration(k+1))
			x.act(nil)
		}
	})
}

// dropReq forgets a request that was not submitted.
func (c *Cluster) dropReq(q *Req) {
	delete(c.byWork, q.ID)
	for i, o := range c.reqs {
		if o == q {
			c.reqs = append(c.reqs[:i:i], c.reqs[i+1:]...)
		}
	}
}

// hostileMain: a validator or a stranger says anything to the honest nodes while they sign without it.
func hostileMain(r *Run) {
	c := newCluster(r, r.Mat)
	nreq := 1 + r.Pick("reqs", 2)
	stranger := r.Chance("stranger", 0.25)
	var reqs []*Req
	leads := map[int]bool{}
	free := func() (l []int) {
		for i := range c.nodes {
			if !leads[i] {
				l = append(l, i)
			}
		}
		return
	}
	for j := 0; j < nreq; j++ {
		kind := signKinds[r.Pick("kind", 2)]
		var msgs [][]byte
		for i := 0; i <= r.Pick("batch", 3); i++ {
			msgs = append(msgs, plainBytes(r))
		}
		q := c.newReq(kind, msgs)
		if !leads[q.Leader] && len(free()) < 2 {
			c.dropReq(q)
			continue
		}
		leads[q.Leader] = true
		reqs = append(reqs, q)
	}
	var x *rogue
	if stranger {
		x = newRogue(c, -1)
	} else {
		f := free()
		x = newRogue(c, f[r.Pick("rogue", len(f))])
	}
	// one more node that takes no part
	out := 0
	if x.i >= 0 {
		out++
	}
	if r.Chance("absentee", 0.6) {
		var l []int
		for _, i := range free() {
			if i != x.i {
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			x.absent = l[r.Pick("absent", len(l))]
			out++
		}
	}
	enough := c.n-out >= c.t+1
	pre := c.presignPrefill()
	nec := 0
	for _, q := range reqs {
		if q.Kind == "ecsign" {
			nec++
		}
	}
	if nec > 1 { // two leaders may choose the same presignature
		pre = nil
	}
	c.prefill(true, true, pre)
	x.start()
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	if x.absent >= 0 && r.Chance("kill", 0.4) {
		n := c.nodes[x.absent]
		n.down = true
		n.kill("planned")
	}
	x.kicks = r.Pick("kicks", 30)
	x.campaign(r.Pick("early", 30), 10*sec)
	r.sleep(r.pickTime("settle", 12*sec))
	var who []int
	for i := range c.nodes {
		if i != x.i && i != x.absent {
			who = append(who, i)
		}
	}
	for _, q := range reqs {
		q := q
		c.after(r.pickTime("at", 3*sec), func() { c.submitAll(q, who, r.pickTime("skew", 5*sec)) })
	}
	x.campaign(5+r.Pick("acts", 60), 40*sec)
	r.sleep(60 * sec)
	c.settle()
	out0 := fmt.Sprintf("the %d other nodes are up, took it and only a peer that takes no part in it misbehaves", len(who))
	for _, q := range reqs {
		if len(who) < c.n && q.announced() != nil {
			for p := range q.announced() {
				in := false
				for _, i := range who {
					in = in || c.mat.Vals[i].ID == p
				}
				r.Count("checked.selected")
				if !in {
					r.Fail("C11", "absent-party-selected", "request %d (%s) runs with %s, which never said that it is available", q.N, q.Kind, tailOf(p))
				}
			}
		}
		if enough {
			c.mustSucceed("C10", q, out0)
			c.mustSucceed("C11", q, out0)
			continue
		}
		if q.announced() != nil {
			r.Fail("C11", "runs-without-quorum", "request %d (%s) runs although only %d of the %d nodes it needs are available", q.N, q.Kind, len(who), c.t+1)
		}
		for i, s := range q.Subs {
			if s.Alive() && s.Accepted() && len(s.Reports) > 0 && s.Reports[0].Outcome != 1 {
				r.Fail("C11", "outcome-without-quorum", "node %d reports outcome %d for request %d (%s) although only %d of the %d nodes it needs are available", i, s.Reports[0].Outcome, q.N, q.Kind,
					len(who), c.t+1)
			}
		}
	}
	if r.S.Runaway == "" && c.n-1 >= c.t+1 {
		x.kicks = 0
		if x.absent >= 0 {
			c.nodes[x.absent].down = false
			if c.nodes[x.absent].node.Dead {
				c.nodes[x.absent].boot()
				r.Until(400*sec, c.allUp)
			}
		}
		c.serves([]string{"C10"}, signKinds[r.Pick("again", 2)])
	}
	c.agreement(false)
	c.finish()
}

var pHostile = &Prof{Name: "hostile", Prep: prepPresign(1, 2, 3, 4, 4, 5, 6), Main: hostileMain, Stall: 100 * time.Millisecond}

var _ = tss.SortPartyIDs

// ---------------------------------------------------------------------------- a leader that misbehaves

// leaderCase is what the hostile leader tells the nodes about one work.
type leaderCase struct {
	q     *Req
	kind  int
	tell  map[int][]*common.PreExecOutputMessage // per honest node
	equiv bool
}

// verdict is what a node must make of an outcome: the outcomes it may report, and whether it may execute.
func (c *Cluster) verdict(q *Req, i int, o *common.PreExecOutputMessage) (ok []int, exec bool) {
	if !o.Success {
		return []int{1}, false
	}
	seen := map[string]bool{}
	for _, p := range o.Pids {
		if seen[p] || c.nodes[0].idx(p) < 0 {
			return []int{1}, false
		}
		seen[p] = true
	}
	if len(seen) < c.t+1 || q.isKeygen() && len(seen) != c.n {
		return []int{1}, false
	}
	if !seen[c.mat.Vals[i].ID] {
		return []int{2}, false
	}
	if len(o.PresignIds) > 0 && !q.isKeygen() {
		if q.Kind == "edsign" { // it has no use for them
			return []int{0, 1}, true
		}
		ids := map[string]bool{}
		for _, p := range o.PresignIds {
			rows, _ := c.nodes[i].store.Rows("SELECT presign_id FROM presign WHERE presign_id=?", p)
			if len(rows) == 0 || ids[p] {
				return []int{1}, false
			}
			ids[p] = true
		}
		if len(o.PresignIds) != len(q.Msgs) {
			return []int{1}, false
		}
	}
	return []int{0, 1}, true
}

// leaderMain: the leader of some works announces whatever it likes.
func leaderMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.silent = true
	first := c.newReq(signKinds[r.Pick("kind0", 2)], [][]byte{plainBytes(r)})
	x := newRogue(c, first.Leader)
	c.dropReq(first)
	pre := c.presignPrefill()
	if len(r.Presign) == 0 {
		pre = nil
	}
	c.prefill(true, true, pre)
	x.start()
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	h := x.honest()
	presignOf := func(j int) string { return fmt.Sprintf("presign-earlier-%d-0", j) }
	var cases []*leaderCase
	nreq := 1 + r.Pick("reqs", 2)
	used := 0
	for j := 0; j < nreq; j++ {
		kind := []string{"ecsign", "edsign", "ecsign", "eckg", "edkg"}[r.Pick("kind", 5)]
		nb := 1 + r.Pick("batch", 2)
		var q *Req
		for k := 0; k < 200; k++ {
			var msgs [][]byte
			if kind == "ecsign" || kind == "edsign" {
				for i := 0; i < nb; i++ {
					msgs = append(msgs, plainBytes(r))
				}
			}
			q = c.newReq(kind, msgs)
			if q.Leader == x.i {
				break
			}
			c.dropReq(q)
			q = nil
		}
		if q == nil {
			continue
		}
		lc := &leaderCase{q: q, kind: r.Pick("case", 14), tell: map[int][]*common.PreExecOutputMessage{}}
		cases = append(cases, lc)
		r.W.Count(fmt.Sprintf("hostile.leader.%02d", lc.kind))
		ids := func(l []int) (s []string) {
			for _, i := range l {
				s = append(s, c.mat.Vals[i].ID)
			}
			return
		}
		o := &common.PreExecOutputMessage{Success: true, Pids: ids(all(c.n))}
		switch lc.kind {
		case 0: // some honest nodes, as many as needed
			o.Pids = ids(r.subset(all(c.n), c.t+1))
		case 1: // fewer than needed, repeated to look like enough
			o.Pids = ids(r.subset(all(c.n), 1+r.Rng.Intn(c.t)))
			for len(o.Pids) < c.n {
				o.Pids = append(o.Pids, o.Pids[0])
			}
		case 2: // all but one, and one of them twice
			l := r.subset(all(c.n), c.n-1)
			o.Pids = append(ids(l), ids(l)[0])
		case 3: // a stranger
			o.Pids[r.Rng.Intn(len(o.Pids))] = newVal(88, c.kind).ID
		case 4: // one more, a stranger
			o.Pids = append(o.Pids, []string{"", newVal(88, c.kind).ID}[r.Rng.Intn(2)])
		case 5: // too few
			o.Pids = ids(r.subset(all(c.n), r.Rng.Intn(c.t+1)))
		case 6:
			o.Pids = nil
		case 7:
			o.Success = false
		case 8: // nobody is told
			o = nil
		case 9: // presignatures that nobody has
			o.PresignIds = []string{"no-such-presign", "nor-this-one"}[:len(q.Msgs)%3]
		case 10: // the wrong number
			o.PresignIds = []string{presignOf(0), presignOf(1), presignOf(2)}[:1+r.Rng.Intn(3)]
		case 11: // the same one twice, or one that another work had
			o.PresignIds = nil
			for range q.Msgs {
				o.PresignIds = append(o.PresignIds, presignOf(used))
			}
		case 12: // honest nodes only
			o.Pids = ids(h)
		default: // different things to different nodes, and more than one
			lc.equiv = true
		}
		for _, i := range h {
			if lc.equiv {
				for k := 1 + r.Rng.Intn(2); k > 0; k-- {
					lc.tell[i] = append(lc.tell[i], x.outcomeMsg(q.ID).PreExecOutputMessage)
				}
			} else if o != nil && !r.Chance("untold", 0.1) {
				lc.tell[i] = append(lc.tell[i], o)
			}
		}
		if o != nil && !lc.equiv {
			q.outcome = append(q.outcome, &Obs{From: x.i, Msg: &common.TssMessage{PreExecOutputMessage: o}})
		}
	}
	// an unaffected work at the same time
	var by *Req
	if c.n-1 >= c.t+1 && len(cases) < 2 {
		for k := 0; k < 50 && by == nil; k++ {
			by = c.newReq("edsign", [][]byte{plainBytes(r)})
			if by.Leader == x.i {
				c.dropReq(by)
				by = nil
			}
		}
	}
	for _, lc := range cases {
		lc := lc
		spread := r.pickTime("skew", 3*sec)
		at := r.pickTime("at", 2*sec)
		c.after(at, func() { c.submitAll(lc.q, h, spread) })
		d := r.pickTime("tellat", 12*sec)
		for _, i := range h {
			i := i
			for _, o := range lc.tell[i] {
				o := o
				times := 1
				if r.Chance("tellagain", 0.3) {
					times += 1 + r.Pick("tellmore", 8)
				}
				for ; times > 0; times-- {
					r.S.At(d+r.pickTime("tellskew", 2*sec), func() {
						r.S.Spawn(x.node, func() {
							x.send(i, x.sign(&common.TssMessage{Type: common.TssMessage_PRE_EXEC_OUTPUT, From: x.val.ID, WorkId: lc.q.ID, PreExecOutputMessage: o}))
						})
					})
				}
			}
		}
	}
	if by != nil {
		c.submitAll(by, h, sec)
	}
	r.sleep(40 * sec)
	c.settle()
	for _, lc := range cases {
		q := lc.q
		for _, i := range h {
			s := q.Subs[i]
			if s == nil || !s.Accepted() || !s.Alive() {
				continue
			}
			r.Count("checked.verdict")
			ok, exec := []int{1}, false
			for k, o := range lc.tell[i] {
				a, e := c.verdict(q, i, o)
				if k == 0 {
					ok = nil
				}
				ok = append(ok, a...)
				exec = exec || e
			}
			what := fmt.Sprintf("after its leader announced %s", outcomeText(c, lc.tell[i]))
			if len(s.Reports) == 0 {
				r.Fail("C09", "no-answer", "node %d has not answered request %d (%s) %s", i, q.N, q.Kind, what)
				continue
			}
			good := false
			for _, v := range ok {
				good = good || v == s.Reports[0].Outcome
			}
			if !good {
				r.Fail("C09", fmt.Sprintf("unacceptable-reported-%d", s.Reports[0].Outcome), "node %d reports outcome %d for request %d (%s) %s", i, s.Reports[0].Outcome, q.N, q.Kind, what)
			}
			if !exec && q.exec[i] != nil {
				r.Fail("C09", "unacceptable-executed", "node %d executes request %d (%s) %s", i, q.N, q.Kind, what)
			}
		}
	}
	if by != nil {
		c.silent = false
		c.mustSucceed("C10", by, "the nodes that take part in it behave")
	}
	if r.S.Runaway == "" && c.n-1 >= c.t+1 {
		same := true
		for _, lc := range cases {
			same = same && !lc.q.isKeygen()
		}
		if same {
			c.serves([]string{"C10"}, signKinds[r.Pick("again", 2)])
		}
	}
	c.finish()
	if r.Prop == "C09" {
		r.Stats["checked"] += r.Stats["checked.verdict"]
	}
}

func outcomeText(c *Cluster, l []*common.PreExecOutputMessage) string {
	var s []string
	for _, o := range l {
		if !o.Success {
			s = append(s, "a failure")
			continue
		}
		var p []string
		for _, id := range o.Pids {
			p = append(p, fmt.Sprint(c.nodes[0].idx(id)))
		}
		s = append(s, fmt.Sprintf("participants [%s] presigns %v", strings.Join(p, " "), o.PresignIds))
	}
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, ", then ")
}

var pLeader = &Prof{Name: "hostile-leader", Prep: prepPresign(3, 2, 3, 3, 4, 5), Main: leaderMain, Stall: 100 * time.Millisecond}

// ---------------------------------------------------------------------------- a participant whose messages are altered

// mutMain: one validator takes part in works with altered messages, signed with its own key.
func mutMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.silent = true
	v := r.Pick("rogue", c.n)
	c.rogues[v] = true
	pre := c.presignPrefill()
	if len(r.Presign) == 0 {
		pre = nil
	}
	c.prefill(true, true, pre)
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.3
	c.expectCrash = func(n *CNode, cr rt.Crash) bool { return n.i == v }
	rate := []float64{0.02, 0.1, 0.4, 1}[r.Pick("rate", 4)]
	val := c.mat.Vals[v]
	only := r.Pick("only", 3)
	var old []*common.TssMessage
	c.fate = func(o *Obs) world.Action {
		if o.From != v || !o.Own {
			return world.Action{}
		}
		m := cloneMsg(o.Msg)
		if m.Type == common.TssMessage_UPDATE_MESSAGES && len(old) < 100 {
			old = append(old, o.Msg)
		}
		if only == 1 && m.Type != common.TssMessage_UPDATE_MESSAGES || !r.Chance("mut", rate) {
			return world.Action{}
		}
		c.mutate(m, old)
		bz, _ := json.Marshal(m)
		sig, _ := val.Priv.Sign(bz)
		f, _ := json.Marshal(&common.SignedMessage{From: val.ID, TssMessage: m, Signature: sig})
		return world.Action{Replace: f}
	}
	var with, without []*Req
	kinds := []string{"ecsign", "edsign", "eckg", "edkg"}
	nreq := 1 + r.Pick("reqs", 2)
	for j := 0; j < nreq; j++ {
		kind := kinds[r.Pick("kind", 4)]
		var msgs [][]byte
		if kind == "ecsign" || kind == "edsign" {
			for i := 0; i <= r.Pick("batch", 3); i++ {
				msgs = append(msgs, plainBytes(r))
			}
		}
		with = append(with, c.newReq(kind, msgs))
	}
	if c.n-1 >= c.t+1 && len(with) < 2 {
		used := with[0]
		for k := 0; k < 50 && len(without) == 0; k++ {
			kind := "edsign"
			if used.keyType() == "eddsa" {
				kind = "ecsign"
			}
			if kind == "ecsign" && used.Kind == "ecsign" {
				break
			}
			q := c.newReq(kind, [][]byte{plainBytes(r)})
			if q.Leader == v {
				c.dropReq(q)
				continue
			}
			without = append(without, q)
		}
	}
	for _, q := range with {
		q := q
		c.after(r.pickTime("at", 5*sec), func() { c.submitAll(q, all(c.n), 3*sec) })
	}
	var who []int
	for i := range c.nodes {
		if i != v {
			who = append(who, i)
		}
	}
	for _, q := range without {
		q := q
		c.after(r.pickTime("at", 5*sec), func() { c.submitAll(q, who, sec) })
	}
	r.sleep(40 * sec)
	c.settle()
	for _, q := range without {
		if a := q.announced(); a != nil && !a[val.ID] {
			c.mustSucceed("C10", q, "the nodes that take part in it behave")
		}
	}
	c.finish()
	r.Stats["checked"] += r.Stats["checked.answer"]
}

// mutate alters a message of a participant.
func (c *Cluster) mutate(m *common.TssMessage, old []*common.TssMessage) {
	r := c.r
	g := r.Rng
	r.W.Count("hostile.mutation")
	switch g.Intn(10) {
	case 0:
		m.To = []string{"", c.mat.Vals[g.Intn(c.n)].ID, m.To}[g.Intn(3)]
		return
	case 1:
		if len(c.reqs) > 1 {
			m.WorkId = c.reqs[g.Intn(len(c.reqs))].ID
		}
		return
	}
	switch m.Type {
	case common.TssMessage_AVAILABILITY_RESPONSE:
		if m.AvailabilityResponseMessage != nil {
			m.AvailabilityResponseMessage.MaxJob = -5
			m.AvailabilityResponseMessage.Answer = common.AvailabilityResponseMessage_ANSWER(g.Intn(4))
		}
	case common.TssMessage_PRE_EXEC_OUTPUT:
		if o := m.PreExecOutputMessage; o != nil {
			switch g.Intn(4) {
			case 0:
				o.Success = !o.Success
			case 1:
				o.Pids = append(o.Pids, c.mat.Vals[g.Intn(c.n)].ID)
			case 2:
				if len(o.Pids) > 0 {
					o.Pids = o.Pids[1:]
				}
			default:
				o.PresignIds = append(o.PresignIds, "presign-earlier-0-0")
			}
		}
	case common.TssMessage_UPDATE_MESSAGES:
		l := m.UpdateMessages
		switch k := g.Intn(12); {
		case len(l) == 0:
		case k == 0: // another number of messages
			if g.Intn(2) == 0 {
				m.UpdateMessages = l[:len(l)-1]
			} else {
				m.UpdateMessages = append(l, l[0])
			}
		case k == 1:
			l[g.Intn(len(l))] = nil
		case k == 2: // the content of another message of this node
			if len(old) > 0 {
				o := old[g.Intn(len(old))]
				for i := range l {
					if len(o.UpdateMessages) > 0 {
						l[i].Data = o.UpdateMessages[i%len(o.UpdateMessages)].Data
					}
				}
			}
		case k == 3:
			l[g.Intn(len(l))].Round = tssRounds[g.Intn(len(tssRounds))]
		case k == 4:
			l[g.Intn(len(l))].SerializedMessageRouting = [][]byte{nil, []byte("{}"), []byte("null"), []byte("[1]")}[g.Intn(4)]
		case k == 5:
			d := &l[g.Intn(len(l))].Data
			*d = (*d)[:g.Intn(len(*d)+1)]
		case k == 6:
			l[0], l[len(l)-1] = l[len(l)-1], l[0]
		default: // fields of the protocol message
			u := l[g.Intn(len(l))]
			u.Data = mutateWire(g, u.Data)
		}
	}
}

// mutateWire alters length-delimited fields of a protobuf message inside the wire envelope.
func mutateWire(g *prng, b []byte) []byte {
	f := protoFields(b)
	if len(f) == 0 {
		if len(b) > 0 {
			b = append([]byte(nil), b...)
			b[g.Intn(len(b))] ^= byte(1 + g.Intn(255))
		}
		return b
	}
	k := g.Intn(len(f))
	// prefer the innermost: the largest field usually is the payload
	for i := range f {
		if len(f[i].val) > len(f[k].val) && g.Intn(4) > 0 {
			k = i
		}
	}
	v := append([]byte(nil), f[k].val...)
	if sub := protoFields(v); len(sub) > 0 && len(v) > 40 && g.Intn(5) > 0 {
		v = mutateWire(g, v)
	} else {
		switch g.Intn(9) {
		case 0:
			v = nil
		case 1:
			v = []byte{0}
		case 2:
			v = []byte{1}
		case 3:
			for i := range v {
				v[i] = 0xff
			}
		case 4:
			for i := range v {
				v[i] = 0
			}
		case 5:
			v = append(v, v...)
		case 6:
			if len(v) > 0 {
				v = v[:g.Intn(len(v))]
			}
		default:
			if len(v) > 0 {
				v[g.Intn(len(v))] ^= byte(1 + g.Intn(255))
			}
		}
	}
	if g.Intn(12) == 0 { // leave the field out
		f = append(f[:k:k], f[k+1:]...)
	} else if g.Intn(12) == 0 { // repeat it
		f = append(f, f[k])
	} else {
		f[k].val = v
	}
	var out []byte
	for _, x := range f {
		out = appendUvarint(out, x.tag)
		if x.tag&7 == 2 {
			out = appendUvarint(out, uint64(len(x.val)))
		}
		out = append(out, x.val...)
	}
	return out
}

type protoField struct {
	tag uint64
	val []byte
}

func appendUvarint(b []byte, v uint64) []byte {
	var t [10]byte
	return append(b, t[:binary.PutUvarint(t[:], v)]...)
}

// protoFields splits a message into its fields, nil if it is none.
func protoFields(b []byte) []protoField {
	var l []protoField
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 || tag>>3 == 0 || tag>>3 > 64 {
			return nil
		}
		b = b[n:]
		switch tag & 7 {
		case 0:
			_, n := binary.Uvarint(b)
			if n <= 0 {
				return nil
			}
			l = append(l, protoField{tag, b[:n]})
			b = b[n:]
		case 2:
			k, n := binary.Uvarint(b)
			if n <= 0 || k > uint64(len(b)-n) {
				return nil
			}
			l = append(l, protoField{tag, b[n : n+int(k)]})
			b = b[n+int(k):]
		default:
			return nil
		}
	}
	return l
}

var pMutate = &Prof{Name: "hostile-participant", Prep: prepPresign(1, 2, 3, 3, 4), Main: mutMain, Stall: 100 * time.Millisecond}
var pMutateReal = &Prof{Name: "real-hostile-participant", Prep: prepPresign(1, 1, 2, 3), Main: mutMain, Real: true}
