package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/sisu-network/dheart/blame"
	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/store"
	htypes "github.com/sisu-network/dheart/types"
	common "github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
	"github.com/sisu-network/dheart/zzsim/world"
)

// ---------------------------------------------------------------------------- common

// bench runs parts of the system on one node without the rest of the process.
type bench struct {
	r     *Run
	node  *rt.Node
	prop  string
	seq   int64 // logical time: every call and return of an operation
	ops   int
	stuck bool
	hang  []string // further properties that callers which never return break
}

func newBench(r *Run, prop string) *bench {
	b := &bench{r: r, prop: prop, node: r.S.NewNode("n0")}
	r.S.OnCrash = func(c rt.Crash) {
		if c.Node != b.node {
			r.Fail("HARNESS", "harness-crash", "%s at %s", c.Val, rt.CrashSite(c.Stack))
			return
		}
		r.Fail(prop, "crash@"+siteFunc(rt.CrashSite(c.Stack)), "%s at %s", c.Val, rt.CrashSite(c.Stack))
	}
	return b
}

func (b *bench) tick() int64 { b.seq++; return b.seq }

// all runs the functions concurrently and waits for them.
func (b *bench) all(d time.Duration, fs ...func()) bool {
	left := len(fs)
	for _, f := range fs {
		f := f
		b.r.S.Spawn(b.node, func() { f(); left-- })
	}
	ok := b.r.Until(d, func() bool { return left == 0 || b.node.Dead })
	if b.node.Dead {
		return false
	}
	if !ok && b.r.S.Runaway == "" {
		b.stuck = true
		b.r.Fail("C15", "blocked", "%d of %d concurrent callers have not returned after %v: %v", left, len(fs), d, b.r.S.Stuck(b.node, 0))
		for _, p := range append([]string{b.prop}, b.hang...) {
			b.r.Fail(p, "blocked", "%d of %d concurrent callers have not returned after %v: %v", left, len(fs), d, b.r.S.Stuck(b.node, 0))
		}
	}
	return ok
}

func (b *bench) checked() { b.r.Stats["checked"]++ }

// try runs an operation that must not panic, and returns its panic.
func try(f func()) (p interface{}) {
	defer func() {
		if v := recover(); v != nil {
			if fmt.Sprintf("%T", v) != "string" && fmt.Sprintf("%T", v) != "runtime.boundsError" && fmt.Sprintf("%T", v) != "runtime.plainError" {
				if _, ok := v.(error); !ok {
					panic(v) // the simulator's own
				}
			}
			p = v
		}
	}()
	f()
	return nil
}

// ---------------------------------------------------------------------------- C12

type cmsg struct {
	id       int
	from     string
	work     string
	typ      common.TssMessage_Type
	inv, ret int64 // of AddMessage
	popInv   int64 // invocation of the earliest pop that could have taken it
	popped   int
}

// cacheMain: the cache of early messages, alone, under concurrent use.
func cacheMain(r *Run) {
	b := newBench(r, "C12")
	limit := 0
	probe := func() {
		c := cache.NewMessageCache()
		for i := 0; i < 600; i++ {
			c.AddMessage(&common.TssMessage{From: "p", WorkId: "w", To: fmt.Sprint(i), Type: common.TssMessage_UPDATE_MESSAGES})
		}
		l := c.GetAllMessages("w")
		limit = len(l)
		if limit >= 600 {
			r.Fail("C12", "unbounded", "the cache keeps %d messages of one sender", limit)
		}
		if limit < 2 {
			r.Fail("C12", "keeps-nothing", "the cache keeps %d messages of one sender", limit)
		}
		for i, m := range l { // the youngest are kept
			if m.To != fmt.Sprint(600-limit+i) {
				r.Fail("C12", "not-the-oldest-dropped", "after 600 messages of one sender the cache keeps message %s", m.To)
				break
			}
		}
	}
	if !b.all(600*sec, probe) || len(r.Viol) > 0 {
		return
	}
	for round := 0; round < 4 && r.S.Runaway == "" && len(r.Viol) == 0; round++ {
		if r.Chance("sequential", 0.4) {
			b.all(600*sec, func() { b.cacheSequential(limit) })
		} else {
			b.cacheConcurrent(limit)
		}
	}
}

var cacheTypes = []common.TssMessage_Type{common.TssMessage_UPDATE_MESSAGES, common.TssMessage_AVAILABILITY_REQUEST,
	common.TssMessage_AVAILABILITY_RESPONSE, common.TssMessage_PRE_EXEC_OUTPUT, common.TssMessage_ASK_MESSAGE_REQUEST}

func (b *bench) cacheMsg(id int, senders, works int) *cmsg {
	r := b.r
	return &cmsg{id: id, from: fmt.Sprint("s", r.Pick("sender", senders)), work: fmt.Sprint("w", r.Pick("work", works)), typ: cacheTypes[r.Pick("type", 5)]}
}

func (m *cmsg) wire() *common.TssMessage {
	return &common.TssMessage{From: m.from, WorkId: m.work, To: fmt.Sprint(m.id), Type: m.typ}
}

// filter draws the types a pop asks for; nil stands for all.
func (b *bench) filter() map[common.TssMessage_Type]bool {
	k := b.r.Pick("filter", 8)
	if k < 2 {
		return nil
	}
	f := map[common.TssMessage_Type]bool{}
	for i, t := range cacheTypes {
		if b.r.Chance("f"+fmt.Sprint(i), 0.4) {
			f[t] = true
		}
	}
	return f
}

// cacheSequential compares the cache with its specification, call by call.
func (b *bench) cacheSequential(limit int) {
	r := b.r
	c := cache.NewMessageCache()
	senders, works := 1+r.Pick("senders", 4), 1+r.Pick("works", 4)
	model := map[string][]*cmsg{}
	byID := map[string]*cmsg{}
	check := func(what string, got []*common.TssMessage, work string, f map[common.TssMessage_Type]bool, remove bool) {
		want := map[string]bool{}
		for _, s := range sortedKeys(model) {
			var keep []*cmsg
			for _, m := range model[s] {
				if m.work == work && (f == nil || f[m.typ]) {
					want[fmt.Sprint(m.id)] = true
				} else {
					keep = append(keep, m)
				}
			}
			if remove {
				model[s] = keep
			}
		}
		b.checked()
		for _, g := range got {
			m := byID[g.To]
			if m == nil || g.From != m.from || g.WorkId != m.work || g.Type != m.typ {
				r.Fail("C12", "altered", "%s(%s) returns a message that was never added: %v", what, work, g)
				return
			}
			if !want[g.To] {
				r.Fail("C12", what+"-extra", "%s(%s) returns message %s of sender %s for work %s, which was taken, displaced or not asked for", what, work, g.To, g.From, g.WorkId)
				return
			}
			delete(want, g.To)
		}
		for _, id := range sortedKeys(want) {
			r.Fail("C12", what+"-missing", "%s(%s) does not return message %s of sender %s", what, work, id, byID[id].from)
			return
		}
	}
	n := 20 + r.Pick("ops", 12)*40
	burst, who := 0, 0
	for i := 0; i < n && len(r.Viol) == 0; i++ {
		op := r.Pick("op", 10)
		if burst > 0 {
			op = 0
			burst--
		}
		switch {
		case op < 7:
			m := b.cacheMsg(i, senders, works)
			if burst > 0 {
				m.from = fmt.Sprint("s", who)
			} else if r.Chance("burst", 0.03) {
				burst, who = limit+r.Pick("burstlen", 10), r.Pick("burster", senders)
				n += burst
			}
			byID[fmt.Sprint(m.id)] = m
			c.AddMessage(m.wire())
			l := append(model[m.from], m)
			if len(l) > limit {
				l = l[len(l)-limit:]
			}
			model[m.from] = l
		case op < 9:
			w, f := fmt.Sprint("w", r.Pick("work", works)), b.filter()
			check("pop", c.PopAllMessages(w, f), w, f, true)
		default:
			w := fmt.Sprint("w", r.Pick("work", works))
			check("get", c.GetAllMessages(w), w, nil, false)
		}
	}
	for i := 0; i < works && len(r.Viol) == 0; i++ {
		w := fmt.Sprint("w", i)
		check("pop", c.PopAllMessages(w, nil), w, nil, true)
	}
}

// cacheConcurrent lets senders and starting works use the cache at the same time.
func (b *bench) cacheConcurrent(limit int) {
	r := b.r
	c := cache.NewMessageCache()
	senders, works := 2+r.Pick("senders", 4), 1+r.Pick("works", 4)
	var msgs []*cmsg
	byID := map[string]*cmsg{}
	perSender := map[string][]*cmsg{}
	flooder := -1
	if r.Chance("flood", 0.5) {
		flooder = r.Pick("flooder", senders)
	}
	type pop struct {
		work     string
		f        map[common.TssMessage_Type]bool
		inv, ret int64
	}
	var pops []*pop
	bad := func(class, f string, a ...interface{}) { r.Fail("C12", class, f, a...) }
	take := func(p *pop, get bool) {
		p.inv = b.tick()
		var got []*common.TssMessage
		if get {
			got = c.GetAllMessages(p.work)
		} else {
			pops = append(pops, p)
			got = c.PopAllMessages(p.work, p.f)
		}
		p.ret = b.tick()
		b.checked()
		seen := map[string]bool{}
		for _, g := range got {
			m := byID[g.To]
			switch {
			case m == nil || g.From != m.from || g.WorkId != m.work || g.Type != m.typ:
				bad("altered", "a message that was never added is returned: %v", g)
			case m.work != p.work || (p.f != nil && !p.f[m.typ]):
				bad("not-asked-for", "message %d of work %s, type %v, is returned for work %s", m.id, m.work, m.typ, p.work)
			case seen[g.To]:
				bad("twice", "message %d is returned twice by one call", m.id)
			case get && m.popped > 0 && false:
			}
			seen[g.To] = true
			if m != nil && !get {
				m.popped++
				if m.popped > 1 {
					bad("twice", "message %d of sender %s was handed out twice", m.id, m.from)
				}
			}
		}
		if !get {
			return
		}
		for _, m := range msgs { // what is certainly there must be seen
			if m.work != p.work || m.ret == 0 || m.ret > p.inv || m.popped > 0 || seen[fmt.Sprint(m.id)] {
				continue
			}
			maybe := false
			for _, q := range pops {
				if q.work == m.work && (q.f == nil || q.f[m.typ]) && q.inv < p.ret && (q.ret == 0 || q.ret > m.inv) {
					maybe = true
				}
			}
			if !maybe && displacers(perSender[m.from], m, limit, p.ret) < limit {
				bad("lost", "message %d of sender %s is not there any more although nobody took it and its sender sent too few to displace it", m.id, m.from)
			}
		}
	}
	var fs []func()
	id := 0
	for s := 0; s < senders; s++ {
		n := 3 + r.Pick("msgs", 30)
		if s == flooder {
			n = limit*2 + r.Pick("floodmsgs", 60)
		}
		for part := 0; part < 1+r.Pick("threads", 2); part++ {
			s, n := s, n/(part+1)
			fs = append(fs, func() {
				for i := 0; i < n && len(r.Viol) == 0; i++ {
					id++
					m := b.cacheMsg(id, senders, works)
					m.from = fmt.Sprint("s", s)
					byID[fmt.Sprint(m.id)] = m
					msgs = append(msgs, m)
					perSender[m.from] = append(perSender[m.from], m)
					m.inv = b.tick()
					c.AddMessage(m.wire())
					m.ret = b.tick()
					if r.Chance("pause", 0.1) {
						rt.Sleep(ms)
					}
				}
			})
		}
	}
	for t := 0; t < 1+r.Pick("takers", 4); t++ {
		fs = append(fs, func() {
			for i := 0; i < 2+r.Pick("takes", 8) && len(r.Viol) == 0; i++ {
				rt.Sleep(r.pickTime("takeat", 3*ms))
				p := &pop{work: fmt.Sprint("w", r.Pick("work", works))}
				get := r.Chance("get", 0.25)
				if !get {
					p.f = b.filter()
				}
				take(p, get)
			}
		})
	}
	if !b.all(3000*sec, fs...) || len(r.Viol) > 0 {
		return
	}
	b.all(600*sec, func() {
		for i := 0; i < works; i++ {
			take(&pop{work: fmt.Sprint("w", i)}, true)
		}
		for i := 0; i < works; i++ {
			take(&pop{work: fmt.Sprint("w", i)}, false)
		}
	})
	if len(r.Viol) > 0 {
		return
	}
	end := b.tick()
	for _, m := range msgs {
		if m.popped == 0 && displacers(perSender[m.from], m, limit, end) < limit {
			bad("lost", "message %d of sender %s for work %s was never handed out although its sender sent too few to displace it", m.id, m.from, m.work)
			return
		}
	}
}

// displacers counts the messages of the same sender that may have arrived after m.
func displacers(l []*cmsg, m *cmsg, limit int, until int64) int {
	k := 0
	for _, x := range l {
		if x != m && x.inv < until && (x.ret == 0 || x.ret > m.inv) {
			k++
		}
	}
	return k
}

// earlyMain: nothing but re-send requests is lost, so what arrives early must be kept for the work.
func earlyMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, nil)
	if !c.start() {
		return
	}
	r.W.Net.PDelay = 0.5
	now := r.S.Now()
	w := &wireFaults{c: c, from: now, until: now + 1000*sec, delay: 0.3 * float64(r.Pick("delay", 3)), maxDelay: 3 * sec}
	w.install()
	inner := c.fate
	c.fate = func(o *Obs) world.Action {
		if o.Msg.Type == common.TssMessage_ASK_MESSAGE_REQUEST {
			return world.Action{Drop: true}
		}
		return inner(o)
	}
	n := 1 + r.Pick("reqs", 2)
	kinds := []string{"eckg", "edkg", "ecsign", "edsign", "eckg", "edkg"} // a key generation needs every node's messages
	for k := 0; k < n; k++ {
		kind := kinds[r.Pick("kind", 6)]
		if kind = besides(kind, c.reqs); kind == "" {
			continue
		}
		var msgs [][]byte
		if kind == "ecsign" || kind == "edsign" {
			for i := 0; i <= r.Pick("batch", 3); i++ {
				msgs = append(msgs, plainBytes(r))
			}
		}
		q := c.newReq(kind, msgs)
		// the leader's messages come long before, or just when the others are told of the work
		spread := []time.Duration{9 * sec, 120 * ms, 60 * ms, 30 * ms}[r.Pick("spread", 4)]
		c.submitAll(q, all(c.n), spread)
	}
	r.sleep(60 * sec)
	c.settle()
	for _, q := range c.reqs {
		c.mustSucceed("C12", q, "every protocol message arrived, some before the work started there, and only re-send requests were lost")
	}
	c.agreement(true)
	c.finish()
}

// ---------------------------------------------------------------------------- C23

// blameMain: the blame bookkeeping under concurrent use.
func blameMain(r *Run) {
	b := newBench(r, "C23")
	for trial := 0; trial < 4 && len(r.Viol) == 0 && r.S.Runaway == ""; trial++ {
		b.blame()
	}
}

type brec struct {
	who, key string
	inv, ret int64
}

func (b *bench) blame() {
	r := b.r
	m := blame.NewManager()
	n := 2 + r.Pick("parties", 5)
	var pids []*tss.PartyID
	for i := 0; i < n; i++ {
		pids = append(pids, tss.NewPartyID(fmt.Sprint("p", i), "", partyKey(i)))
	}
	works := []string{"w", "w1", "w:1", "w1:1", ""}
	rounds := []uint32{1, 11, 2, 0, 111}
	nw, nr := 1+r.Pick("works", len(works)), 1+r.Pick("rounds", len(rounds))
	type key struct {
		w string
		r uint32
	}
	name := func(k key) string { return fmt.Sprintf("%q/%d", k.w, k.r) }
	pick := func() key { return key{works[r.Pick("work", nw)], rounds[r.Pick("round", nr)]} }
	var sent, caught, pre []*brec
	query := func(k key) {
		ps := map[string]*tss.PartyID{} // the parties of the work
		for i, p := range pids {
			if i == 0 || r.Chance("party", 0.8) {
				ps[p.Id] = p
			}
		}
		inv := b.tick()
		got := m.GetRoundCulprits(k.w, k.r, ps)
		ret := b.tick()
		b.checked()
		seen := map[string]bool{}
		for _, g := range got {
			if g == nil || ps[g.Id] == nil {
				r.Fail("C23", "stranger-blamed", "a culprit of %s is %v, which is no party of the work", name(k), g)
				return
			}
			if seen[g.Id] {
				r.Fail("C23", "named-twice", "%s is named twice for %s", g.Id, name(k))
				return
			}
			seen[g.Id] = true
		}
		for id := range ps {
			sentMaybe, sentSure, caughtMaybe, caughtSure := false, false, false, false
			for _, x := range sent {
				if x.who == id && x.key == name(k) {
					sentMaybe = sentMaybe || x.inv < ret
					sentSure = sentSure || x.ret != 0 && x.ret < inv
				}
			}
			for _, x := range caught {
				if x.who == id && x.key == name(k) {
					caughtMaybe = caughtMaybe || x.inv < ret
					caughtSure = caughtSure || x.ret != 0 && x.ret < inv
				}
			}
			if seen[id] && sentSure && !caughtMaybe {
				r.Fail("C23", "innocent-blamed", "%s is blamed for %s although it sent and was not caught", id, name(k))
				return
			}
			if !seen[id] && (!sentMaybe || caughtSure) {
				r.Fail("C23", "culprit-missed", "%s is not blamed for %s (sent: %v, caught: %v)", id, name(k), sentMaybe, caughtSure)
				return
			}
		}
	}
	var fs []func()
	for t := 0; t < 1+r.Pick("threads", 5); t++ {
		k := 3 + r.Pick("ops", 20)
		fs = append(fs, func() {
			for i := 0; i < k && len(r.Viol) == 0; i++ {
				switch op := r.Pick("op", 10); {
				case op < 4:
					k := pick()
					x := &brec{who: pids[r.Pick("who", n)].Id, key: name(k), inv: b.tick()}
					sent = append(sent, x)
					m.AddSender(k.w, k.r, x.who)
					x.ret = b.tick()
				case op < 6:
					k := pick()
					var l []*tss.PartyID
					var xs []*brec
					for j := 0; j <= r.Pick("many", 3); j++ {
						p := pids[r.Pick("who", n)]
						l = append(l, p)
						x := &brec{who: p.Id, key: name(k), inv: b.tick()}
						xs = append(xs, x)
						caught = append(caught, x)
					}
					m.AddCulpritByRound(k.w, k.r, l)
					for _, x := range xs {
						x.ret = b.tick()
					}
				case op < 7:
					p := pids[r.Pick("who", n)]
					x := &brec{who: p.Id, inv: b.tick()}
					pre = append(pre, x)
					m.AddPreExecutionCulprit([]*tss.PartyID{p})
					x.ret = b.tick()
				case op < 8:
					inv := b.tick()
					got := map[string]int{}
					for _, p := range m.GetPreExecutionCulprits() {
						got[p.Id]++
					}
					ret := b.tick()
					for _, p := range pids {
						sure, maybe := 0, 0
						for _, x := range pre {
							if x.who == p.Id && x.ret != 0 && x.ret < inv {
								sure = 1
							}
							if x.who == p.Id && x.inv < ret {
								maybe++
							}
						}
						b.checked()
						if got[p.Id] < sure || got[p.Id] > maybe {
							r.Fail("C23", "pre-execution", "%s is named %d times before the execution, recorded between %d and %d times", p.Id, got[p.Id], sure, maybe)
							return
						}
					}
				default:
					query(pick())
				}
			}
		})
	}
	if !b.all(600*sec, fs...) || len(r.Viol) > 0 {
		return
	}
	b.all(600*sec, func() {
		for i := 0; i < nw; i++ {
			for j := 0; j < nr && len(r.Viol) == 0; j++ {
				query(key{works[i], rounds[j]})
			}
		}
	})
}

// ---------------------------------------------------------------------------- C21

// secretsMain: the encrypted store and the decryption of values received from outside.
func secretsMain(r *Run) {
	b := newBench(r, "C21")
	disk := r.W.Disk("/secrets")
	disk.PErr = []float64{0, 0.1, 0.3}[r.Pick("perr", 3)]
	disk.PFull = []float64{0, 0.2}[r.Pick("pfull", 2)]
	key := r.Rng.Bytes([]int{16, 24, 32}[r.Pick("keylen", 3)])
	type val struct {
		v  []byte
		ok bool
	}
	model := map[string][]val{} // what may be stored; the last acknowledged one comes first
	lives := 1 + r.Pick("lives", 4)
	value := func() []byte {
		switch r.Pick("size", 6) {
		case 0:
			return []byte{}
		case 1:
			return r.Rng.Bytes(1)
		case 2:
			return r.Rng.Bytes(16)
		case 3:
			return r.Rng.Bytes(4096)
		default:
			return r.Rng.Bytes(1 + r.Rng.Intn(200))
		}
	}
	fail := func(class, f string, a ...interface{}) { r.Fail("C21", class, f, a...) }
	for life := 0; life < lives && len(r.Viol) == 0; life++ {
		b.all(600*sec, func() {
			var s store.Store
			var err error
			for i := 0; i < 50; i++ {
				if s, err = store.NewStore("/secrets", key); err == nil {
					break
				}
			}
			if err != nil {
				return
			}
			for i := 0; i < 10+r.Pick("ops", 20) && len(r.Viol) == 0; i++ {
				k := fmt.Sprint("k", r.Pick("key", 4))
				switch op := r.Pick("op", 10); {
				case op < 4:
					v := value()
					w := append([]byte(nil), v...)
					if err := s.PutEncrypted([]byte(k), w); err == nil {
						model[k] = []val{{v, true}}
						raw := disk.KV[k]
						if len(v) >= 12 && bytes.Contains(raw, v) {
							fail("plain", "the value is stored unencrypted")
						}
					} else {
						model[k] = append(model[k], val{v, false})
					}
					if !bytes.Equal(w, v) {
						fail("argument-altered", "the value given to the store was changed")
					}
				case op < 8:
					got, err := s.GetEncrypted([]byte(k))
					b.checked()
					if err != nil {
						if disk.PErr == 0 && len(model[k]) > 0 && model[k][0].ok {
							fail("not-readable", "a stored value of %d bytes cannot be read: %v", len(model[k][0].v), err)
						}
						continue
					}
					found := false
					for _, m := range model[k] {
						found = found || bytes.Equal(m.v, got)
					}
					if !found {
						fail("wrong-value", "a value of %d bytes is read that was not stored under this key", len(got))
					}
				default: // damage
					raw, ok := disk.KV[k]
					if !ok {
						continue
					}
					saved := append([]byte(nil), raw...)
					disk.KV[k] = b.damage(saved)
					if bytes.Equal(disk.KV[k], saved) {
						continue
					}
					b.checked()
					var got []byte
					var err error
					if p := try(func() { got, err = s.GetEncrypted([]byte(k)) }); p != nil {
						fail("crash-on-damaged", "reading a damaged value of %d bytes panics: %v", len(disk.KV[k]), p)
					} else if err == nil {
						fail("damaged-accepted", "a damaged stored value is read without an error as %d bytes", len(got))
					}
					disk.KV[k] = saved
				}
			}
		})
		if r.Chance("wrongkey", 0.4) && len(disk.KV) > 0 {
			r.S.Kill(b.node)
			r.S.Revive(b.node)
			other := append([]byte(nil), key...)
			switch r.Pick("how", 3) {
			case 0:
				other[r.Pick("byte", len(other))] ^= 1 << uint(r.Pick("bit", 8))
			case 1:
				other = r.Rng.Bytes(32)
			default:
				other = r.Rng.Bytes(r.Pick("badlen", 40)) // mostly no AES key at all
			}
			b.all(600*sec, func() {
				s, err := store.NewStore("/secrets", other)
				if err != nil || s == nil {
					return
				}
				for _, k := range disk.Keys() {
					var got []byte
					var err error
					b.checked()
					if p := try(func() { got, err = s.GetEncrypted([]byte(k)) }); p != nil {
						fail("crash-on-wrong-key", "reading with another key panics: %v", p)
					} else if err == nil {
						fail("wrong-key-accepted", "a value is read with another key as %d bytes", len(got))
					}
				}
				if n := len(other); n != 16 && n != 24 && n != 32 {
					if err := s.PutEncrypted([]byte("kx"), []byte("value")); err == nil {
						fail("bad-key-accepted", "a value is stored with a key of %d bytes", n)
					}
				}
			})
		}
		// the process ends; a machine crash may lose the latest writes
		r.S.Kill(b.node)
		if r.Chance("power", 0.3) {
			before := map[string][]byte{}
			for k, v := range disk.KV {
				before[k] = v
			}
			disk.PowerLoss(r.Pick("keep", disk.Unsynced()+1))
			for k := range before {
				if !bytes.Equal(disk.KV[k], before[k]) {
					model[k] = nil // rolled back to something older: judged by damage checks only
					delete(disk.KV, k)
				}
			}
			r.W.Count("disk.powerloss")
		}
		r.S.Revive(b.node)
	}
	b.all(600*sec, func() { b.decrypt() })
}

// damage truncates, extends or alters bytes.
func (b *bench) damage(v []byte) []byte {
	r := b.r
	v = append([]byte(nil), v...)
	switch r.Pick("damage", 5) {
	case 0:
		b.r.W.Count("disk.truncated")
		return v[:r.Pick("cut", len(v)+1)]
	case 1:
		if len(v) > 0 {
			v[r.Pick("at", len(v))] ^= 1 << uint(r.Pick("bit", 8))
		}
		b.r.W.Count("disk.bitflip")
	case 2:
		v = append(v, r.Rng.Bytes(1+r.Pick("more", 20))...)
		b.r.W.Count("disk.extended")
	case 3:
		if len(v) > 0 {
			v = v[1+r.Pick("head", len(v)):]
		}
		b.r.W.Count("disk.truncated")
	default:
		n := r.Pick("len", 40)
		v = r.Rng.Bytes(n)
		b.r.W.Count("disk.garbage")
	}
	return v
}

// decrypt exercises the helper that opens payloads received from outside.
func (b *bench) decrypt() {
	r := b.r
	for i := 0; i < 20 && len(r.Viol) == 0; i++ {
		key := r.Rng.Bytes([]int{16, 24, 32}[r.Pick("keylen", 3)])
		msg := r.Rng.Bytes([]int{0, 1, 32, 33, 200}[r.Pick("msglen", 5)])
		enc, err := utils.AESDEncrypt(msg, key)
		if err != nil {
			r.Fail("C21", "cannot-encrypt", "%v", err)
			return
		}
		b.checked()
		got, err := utils.AESDecrypt(append([]byte(nil), enc...), key)
		if err != nil || !bytes.Equal(got, msg) {
			r.Fail("C21", "helper-round-trip", "a payload of %d bytes is not opened again: %v", len(msg), err)
			return
		}
		bad := b.damage(enc)
		k2 := key
		if bytes.Equal(bad, enc) || r.Chance("otherkey", 0.2) {
			bad = enc
			k2 = r.Rng.Bytes([]int{0, 15, 16, 24, 32, 33}[r.Pick("k2", 6)])
		}
		if bytes.Equal(k2, key) && bytes.Equal(bad, enc) {
			continue
		}
		if p := try(func() { got, err = utils.AESDecrypt(bad, k2) }); p != nil {
			r.Fail("C21", "helper-crash", "opening a damaged payload of %d bytes panics: %v", len(bad), p)
		} else if err == nil {
			r.Fail("C21", "helper-accepts", "a damaged payload of %d bytes is opened as %d bytes", len(bad), len(got))
		}
	}
}

// ---------------------------------------------------------------------------- C19

type singleCall struct {
	kind     string // keygen keysign
	keyType  string
	id       string
	msgs     [][]byte
	inv, ret time.Duration
	err      error
	panicked bool
	reports  int
}

// singleMain: the single-node mode.
func singleMain(r *Run) {
	b := newBench(r, "C19")
	sisu := r.S.NewNode("sisu")
	type key struct {
		typ string
		pub []byte
		at  time.Duration
	}
	var keys []key
	var calls []*singleCall
	byID := map[string]*singleCall{}
	fail := func(class, f string, a ...interface{}) { r.Fail("C19", class, f, a...) }
	kgReports := map[string]int{}
	type sigRep struct {
		c    *singleCall
		at   time.Duration
		sigs [][]byte
	}
	var sigReps []sigRep
	rpc := r.W.RPC.Serve("http://sisu:1", sisu, func(method string, params []json.RawMessage) (interface{}, error) {
		now := r.S.Now()
		switch method {
		case "tss_keygenResult":
			var v struct {
				KeyType     string
				PubKeyBytes []byte
				Outcome     int
			}
			json.Unmarshal(params[0], &v)
			b.checked()
			kgReports[v.KeyType]++
			if v.Outcome == 0 {
				switch v.KeyType {
				case "ecdsa":
					if _, err := crypto.UnmarshalPubkey(v.PubKeyBytes); err != nil {
						fail("bad-key", "the reported ecdsa key is not valid: %v", err)
					}
				case "eddsa":
					if _, err := edwards.ParsePubKey(v.PubKeyBytes); err != nil {
						fail("bad-key", "the reported eddsa key is not valid: %v", err)
					}
				default:
					fail("unknown-type-success", "a key of type %q is reported as generated", v.KeyType)
				}
				for _, k := range keys {
					if bytes.Equal(k.pub, v.PubKeyBytes) {
						fail("same-key", "the same key is reported by two key generations")
					}
				}
				keys = append(keys, key{v.KeyType, v.PubKeyBytes, now})
			}
		case "tss_keysignResult":
			var v struct {
				Outcome    int
				Request    *htypes.KeysignRequest
				Signatures [][]byte
			}
			json.Unmarshal(params[0], &v)
			b.checked()
			if v.Request == nil {
				fail("no-request", "a signing result carries no request")
				return nil, nil
			}
			id := ""
			if len(v.Request.KeysignMessages) > 0 && v.Request.KeysignMessages[0] != nil {
				id = v.Request.KeysignMessages[0].Id
			}
			c := byID[id]
			if c == nil {
				if len(v.Request.KeysignMessages) > 0 {
					fail("unknown-request", "a result is posted for a request nobody made")
				}
				return nil, nil
			}
			c.reports++
			if v.Outcome == 0 {
				sigReps = append(sigReps, sigRep{c, now, v.Signatures})
			}
		}
		return nil, nil
	})
	faults := r.Chance("faults", 0.4)
	if faults {
		rpc.PSlow = 0.5
		rpc.PFail = []float64{0, 0.2}[r.Pick("pfail", 2)]
		rpc.PLost = []float64{0, 0.2}[r.Pick("plost", 2)]
	}
	var api server.Api
	up := false
	r.S.Spawn(b.node, func() {
		cl := client.NewClient("http://sisu:1")
		api = server.GetApi(config.HeartConfig{UseOnMemory: true}, cl)
		api.Init()
		rt.Go(cl.TryDial)
		up = true
	})
	r.sleep(15 * sec)
	if !up {
		fail("not-up", "the single-node mode does not start")
		return
	}
	var fs []func()
	for t := 0; t < 1+r.Pick("clients", 3); t++ {
		k := 2 + r.Pick("calls", 8)
		fs = append(fs, func() {
			for i := 0; i < k; i++ {
				c := &singleCall{kind: "keysign", keyType: []string{"ecdsa", "eddsa", "ecdsa", "eddsa", "unknown", ""}[r.Pick("type", 6)]}
				if r.Chance("keygen", 0.4) {
					c.kind = "keygen"
				}
				calls = append(calls, c)
				c.inv = r.S.Now()
				var req *htypes.KeysignRequest
				c.id = fmt.Sprint("call-", len(calls))
				if c.kind == "keysign" {
					req = &htypes.KeysignRequest{KeyType: c.keyType}
					for j := 0; j < r.Pick("batch", 5); j++ {
						m := r.Rng.Bytes(32)
						if c.keyType == "eddsa" || r.Chance("oddlen", 0.05) {
							m = r.Rng.Bytes(r.Pick("len", 80))
						}
						c.msgs = append(c.msgs, m)
						req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: c.id, BytesToSign: append([]byte(nil), m...), Bytes: m, OutChain: "eth"})
					}
					byID[c.id] = c
				}
				done := false
				g := r.S.Spawn(b.node, func() {
					if c.kind == "keygen" {
						c.err = api.KeyGen(c.id, c.keyType, nil)
					} else {
						c.err = api.KeySign(req, nil)
					}
					done = true
				})
				g.OnPanic = func(v interface{}, stack string) { c.panicked, done = true, true }
				for !done {
					rt.Sleep(ms)
				}
				c.ret = r.S.Now()
				rt.Sleep([]time.Duration{0, ms, 500 * ms, 3 * sec, 4 * sec, 10 * sec}[r.Pick("pause", 6)])
			}
		})
	}
	if !b.all(3000*sec, fs...) {
		return
	}
	r.sleep(60 * sec)
	if len(r.Viol) > 0 {
		return
	}
	accepted := map[string]int{}
	for _, c := range calls {
		ok := c.err == nil && !c.panicked
		b.checked()
		if c.panicked {
			fail("call-panics", "%s of type %q panics", c.kind, c.keyType)
			return
		}
		if c.kind == "keygen" {
			if ok {
				accepted[c.keyType]++
			}
			continue
		}
		if len(c.msgs) == 0 {
			continue // nothing to tell its reports apart by
		}
		lost := rpc.PFail > 0
		switch {
		case ok && c.reports == 0 && !lost:
			fail("not-answered", "an accepted signing request of type %q is not answered", c.keyType)
		case c.reports > 1:
			fail("answered-twice", "a signing request is answered %d times", c.reports)
		}
	}
	for t, n := range accepted {
		if kgReports[t] > n || (kgReports[t] < n && rpc.PFail == 0) {
			fail("keygen-answers", "%d key generations of type %q were accepted and %d answered", n, t, kgReports[t])
		}
	}
	for t, n := range kgReports {
		if accepted[t] == 0 && n > 0 {
			fail("keygen-answers", "key generation of type %q was refused and answered %d times", t, n)
		}
	}
	for _, s := range sigReps {
		if len(s.sigs) != len(s.c.msgs) {
			fail("signature-count", "%d signatures are reported for %d messages", len(s.sigs), len(s.c.msgs))
			return
		}
		// the keys that may have been the newest while the request was served
		var cand [][]byte
		var newest *key
		for i := range keys {
			k := &keys[i]
			if k.typ != s.c.keyType {
				continue
			}
			if k.at < s.c.inv {
				if !faults {
					newest = k
				} else {
					cand = append(cand, k.pub)
				}
			} else if k.at <= s.at+sec || faults {
				cand = append(cand, k.pub)
			}
		}
		if newest != nil {
			cand = append(cand, newest.pub)
		}
		for i, m := range s.c.msgs {
			ok := false
			for _, p := range cand {
				ok = ok || singleVerify(s.c.keyType, p, m, s.sigs[i])
			}
			if rpc.PFail > 0 && !ok {
				continue // the report of the key may have been lost
			}
			if !ok {
				fail("bad-signature", "signature %d of %d (%s) does not verify under the key reported last", i, len(s.sigs), s.c.keyType)
				return
			}
		}
	}
}

func singleVerify(kt string, pub, msg, sig []byte) bool {
	if kt == "ecdsa" {
		if len(sig) != 65 {
			return false
		}
		p, err := crypto.SigToPub(msg, sig)
		return err == nil && bytes.Equal(crypto.FromECDSAPub(p), pub)
	}
	p, err := edwards.ParsePubKey(pub)
	if err != nil {
		return false
	}
	s, err := edwards.ParseSignature(sig)
	return err == nil && edwards.Verify(p, msg, s.R, s.S)
}

var _ *ecdsa.PublicKey

func partyKey(i int) *big.Int { return big.NewInt(int64(1000 + i)) }

var pCache = &Prof{Name: "message-cache", Main: cacheMain}
var pEarly = &Prof{Name: "early", Keen: true, Prep: prepGroup(2, 3, 3, 4), Main: earlyMain, Stall: 100 * time.Millisecond}
var pBlame = &Prof{Name: "blame", Main: blameMain, Race: true}
var pSecrets = &Prof{Name: "secrets", Main: secretsMain}
var pSingle = &Prof{Name: "single-node", Main: singleMain, Race: true}
