package main

import (
	"encoding/hex"
	"fmt"
	"time"

	"github.com/sisu-network/dheart/server"
)

// ---------------------------------------------------------------------------- C17

// identity is what the node under test was told, according to the answers it gave.
type identity struct {
	c     *Cluster
	n     *CNode
	key   string // "", "own" or "other"
	sisu  bool   // Sisu said it is ready
	refd  []*Req // requests that had to be refused
	other []byte // some other valid private key
}

func (m *identity) ready() bool { return m.key != "" && m.sisu }

func (m *identity) fail(class, f string, a ...interface{}) { m.c.r.Fail("C17", class, f, a...) }

// wait waits for calls to return.
func (m *identity) wait(ks ...*Call) bool {
	ok := m.c.r.Until(200*sec, func() bool {
		for _, k := range ks {
			if !k.Done {
				return false
			}
		}
		return true
	})
	if !ok && m.c.r.S.Runaway == "" {
		m.fail("call-blocks", "%s has not returned after 200 s", ks[0].Name)
	}
	return ok
}

// badKey draws an input SetPrivKey must refuse whatever happened before.
func (m *identity) badKey() (what, enc, typ string) {
	r := m.c.r
	own := m.n.val.Priv.Bytes()
	typ = m.n.val.Type
	good, _ := hex.DecodeString(seal(own, r.Rng.Bytes(12)))
	switch r.Pick("badkey", 10) {
	case 0:
		return "no hex", "zz" + hex.EncodeToString(good), typ
	case 1:
		return "odd hex", hex.EncodeToString(good)[1:], typ
	case 2:
		return "nothing", "", typ
	case 3:
		return "too short", hex.EncodeToString(good[:r.Rng.Intn(12)]), typ
	case 4:
		return "truncated", hex.EncodeToString(good[:12+r.Rng.Intn(len(good)-12)]), typ
	case 5:
		good[r.Rng.Intn(len(good))] ^= 1 << uint(r.Rng.Intn(8))
		return "altered", hex.EncodeToString(good), typ
	case 6:
		good = append(good, byte(r.Rng.Intn(256)))
		return "extended", hex.EncodeToString(good), typ
	case 7: // decrypts to something that is no key
		return "no key", seal(own[:r.Rng.Intn(len(own)-1)], r.Rng.Bytes(12)), typ
	case 8: // a decoder that stops at the first bad digit has the whole key by then
		return "no hex at the end", hex.EncodeToString(good) + []string{"zz", "0", " ", "g0"}[r.Rng.Intn(4)], typ
	default:
		return "random", hex.EncodeToString(r.Rng.Bytes(20 + r.Rng.Intn(100))), typ
	}
}

func (m *identity) setKey(plain []byte, typ string) *Call {
	enc := seal(plain, m.c.r.Rng.Bytes(12))
	return m.n.call("SetPrivKey", func(a server.Api) error { return a.SetPrivKey(enc, typ) })
}

func (m *identity) setReady(b bool) *Call {
	return m.n.call(fmt.Sprint("SetSisuReady ", b), func(a server.Api) error { a.SetSisuReady(b); return nil })
}

// startup boots the node and waits until its API is there.
func (m *identity) startup() bool {
	m.key, m.sisu = "", false
	m.n.boot()
	return m.c.r.Until(200*sec, func() bool { return m.n.initDone })
}

func (m *identity) request() *Req {
	r := m.c.r
	if r.Pick("keygen", 6) == 5 {
		return m.c.newReq([]string{"eckg", "edkg"}[r.Pick("kgkind", 2)], nil)
	}
	return m.c.newReq(signKinds[r.Pick("kind", 2)], [][]byte{plainBytes(r)})
}

func identityMain(r *Run) {
	c := newCluster(r, r.Mat)
	c.prefill(true, true, nil)
	x := r.Pick("x", c.n)
	m := &identity{c: c, n: c.nodes[x]}
	m.n.noAuto = true
	r.W.Net.PDelay = 0.2
	for i, n := range c.nodes {
		if i != x {
			n.boot()
		}
	}
	if !m.startup() {
		r.Count("not_started")
		return
	}
	m.other = newVal(40+r.Grp.Intn(3), m.n.val.Type).Priv.Bytes()
	positive := 0
	for step := 0; step < 4+r.Pick("steps", 9) && len(r.Viol) == 0 && r.S.Runaway == ""; step++ {
		r.Count("checked")
		r.sleep(r.pickTime("pause", 3*sec))
		switch op := r.Pick("op", 12); op {
		case 0, 1, 2: // the node's own key, possibly while something fails
			fault := m.key == "" && r.Chance("fault", 0.4)
			if fault {
				switch r.Pick("faultkind", 4) {
				case 0:
					m.n.store.Down = true
				case 1:
					r.W.Net.FailListen[m.n.node.Name]++
				case 2:
					r.W.Net.FailFind[m.n.node.Name] = 1 + r.Pick("faultdht", 2)
				default:
					m.n.store.Quiet = false
					m.n.store.PErr, m.n.store.PLost = 0.5, 0.2
				}
			}
			k := m.setKey(m.n.val.Priv.Bytes(), m.n.val.Type)
			if !m.wait(k) {
				return
			}
			if fault {
				m.n.store.Down, m.n.store.Quiet = false, true
				m.n.store.PErr, m.n.store.PLost = 0, 0
				r.W.Net.FailListen[m.n.node.Name] = 0
				r.W.Net.FailFind[m.n.node.Name] = 0
				r.W.Count("api.fault")
			}
			switch {
			case m.key == "other" && k.Err == nil:
				m.fail("second-identity", "a second, different private key is accepted")
			case m.key == "own" && k.Err != nil:
				m.fail("same-key-refused", "setting the same private key again fails: %v", k.Err)
			case m.key == "" && k.Err != nil && !fault:
				m.fail("key-refused", "the node's private key is refused: %v %s", k.Err, k.Panic)
			case m.key == "" && k.Err == nil:
				m.key = "own"
			}
		case 3: // some other valid key
			if m.key == "" && !r.Chance("takeover", 0.15) {
				continue
			}
			k := m.setKey(m.other, m.n.val.Type)
			if !m.wait(k) {
				return
			}
			switch {
			case m.key == "own" && k.Err == nil:
				m.fail("second-identity", "a second, different private key is accepted")
			case m.key == "other" && k.Err != nil:
				m.fail("same-key-refused", "setting the same private key again fails: %v", k.Err)
			case m.key == "" && k.Err != nil:
				m.fail("key-refused", "a valid private key is refused: %v %s", k.Err, k.Panic)
			case m.key == "":
				m.key = "other"
			}
		case 4, 5: // an input that is no key
			what, enc, typ := m.badKey()
			k := m.n.call("SetPrivKey bad", func(a server.Api) error { return a.SetPrivKey(enc, typ) })
			if !m.wait(k) {
				return
			}
			if k.Err == nil {
				m.fail("bad-key-accepted", "a private key that is unusable (%s) is accepted", what)
			}
		case 6: // key type unknown or of another kind
			if m.key != "" {
				continue
			}
			typ := []string{"", "ed25519", "secp256k1", "sr25519"}[r.Pick("keytype", 4)]
			if typ == m.n.val.Type {
				typ = "multisig"
			}
			k := m.setKey(m.n.val.Priv.Bytes(), typ)
			if !m.wait(k) {
				return
			}
			if k.Err == nil {
				m.fail("bad-key-accepted", "a private key of type %q instead of %q is accepted", typ, m.n.val.Type)
			}
		case 7, 8:
			b := r.Chance("ready", 0.75)
			if !m.wait(m.setReady(b)) {
				return
			}
			m.sisu = b
		case 9: // two at once
			m.pair()
		case 10:
			if !r.Chance("restart", 0.5) {
				continue
			}
			m.n.kill("planned")
			r.sleep(r.pickTime("downfor", 10*sec))
			if !m.startup() {
				m.fail("no-restart", "the node does not start again")
				return
			}
		default:
			if m.ready() && m.key == "own" && positive < 2 {
				positive++
				m.serve(r.Chance("meanwhile", 0.6))
			} else {
				m.refuse()
			}
		}
		if m.ready() {
			m.n.ready = m.n.gen
		} else {
			m.n.ready = 0
			if r.Chance("probe", 0.3) {
				m.refuse()
			}
		}
	}
	if len(r.Viol) > 0 || r.S.Runaway != "" {
		return
	}
	// in the end it can be brought into service
	if m.key == "other" {
		m.n.kill("planned")
		if !m.startup() {
			m.fail("no-restart", "the node does not start again")
			return
		}
	}
	k := m.setKey(m.n.val.Priv.Bytes(), m.n.val.Type)
	if !m.wait(k) {
		return
	}
	if k.Err != nil {
		m.fail("key-refused", "the node's private key is refused: %v %s", k.Err, k.Panic)
		return
	}
	m.key = "own"
	if !m.wait(m.setReady(true)) {
		return
	}
	m.sisu = true
	m.n.ready = m.n.gen
	m.serve(r.Chance("meanwhile", 0.5))
	c.settle()
	for _, q := range m.refd {
		s := q.Subs[x]
		if len(s.Reports) > 0 {
			m.fail("refused-but-answered", "node %d refused request %d and reported outcome %d for it later", x, q.N, s.Reports[0].Outcome)
		}
		if q.exec[x] != nil || q.first[x] > 0 {
			m.fail("refused-but-executed", "node %d refused request %d and takes part in it", x, q.N)
		}
	}
	c.agreement(false)
	c.finish()
}

// refuse submits a request that must be refused.
func (m *identity) refuse() {
	if m.ready() {
		return
	}
	q := m.request()
	k := m.c.submit(m.n, q)
	if !m.wait(k) {
		return
	}
	m.c.r.Count("checked.refused")
	m.refd = append(m.refd, q)
	if k.Err == nil {
		m.fail("accepted-unready", "the node accepts a request (%s) although its private key is %s and Sisu's readiness %v", q.Kind, map[string]string{"": "not set"}[m.key], m.sisu)
	}
}

// serve submits a request to all nodes that must succeed, whatever else the API is asked meanwhile.
func (m *identity) serve(meanwhile bool) {
	c, r := m.c, m.c.r
	if !r.Until(400*sec, c.allUp) {
		if r.S.Runaway == "" {
			m.fail("not-up", "the other nodes do not come up")
		}
		return
	}
	r.sleep(45 * sec) // connections that broke are noticed
	q := m.request()
	lost := r.W.Net.WriteErrs
	c.submitAll(q, all(c.n), r.pickTime("skew", 2*sec))
	if meanwhile {
		n := 1 + r.Pick("meanwhile", 3)
		for i := 0; i < n; i++ {
			r.sleep(r.pickTime("meanwhileat", 1*sec))
			switch r.Pick("meanwhileop", 4) {
			case 0:
				k := m.setKey(m.n.val.Priv.Bytes(), m.n.val.Type)
				if m.wait(k) && k.Err != nil {
					m.fail("same-key-refused", "setting the same private key again fails: %v", k.Err)
				}
			case 1:
				k := m.setKey(m.other, m.n.val.Type)
				if m.wait(k) && k.Err == nil {
					m.fail("second-identity", "a second, different private key is accepted")
				}
			case 2:
				_, enc, typ := m.badKey()
				k := m.n.call("SetPrivKey bad", func(a server.Api) error { return a.SetPrivKey(enc, typ) })
				if m.wait(k) && k.Err == nil {
					m.fail("bad-key-accepted", "a private key that is unusable is accepted")
				}
			default:
				m.wait(m.setReady(true))
			}
		}
	}
	r.sleep(3 * sec)
	for i, s := range q.Subs {
		if m.wait(s.Call) && s.Call.Err != nil && i == m.n.i {
			m.fail("ready-refused", "the node refuses a request (%s) although its key is set and Sisu is ready: %v %s", q.Kind, s.Call.Err, s.Call.Panic)
			return
		}
	}
	c.settleReq(q)
	if r.W.Net.WriteErrs != lost { // the first message after a restart of its addressee may be lost
		r.Count("excused")
		return
	}
	if r.S.Runaway == "" {
		c.mustSucceed("C17", q, "the node's key is set, Sisu is ready and nothing fails")
	}
}

// pair makes two calls at once.
func (m *identity) pair() {
	r := m.c.r
	own := func() *Call { return m.setKey(m.n.val.Priv.Bytes(), m.n.val.Type) }
	switch r.Pick("pair", 4) {
	case 0: // the same key twice
		if m.key == "other" {
			return
		}
		a := own()
		r.sleep(r.pickTime("apart", 20*ms))
		b := own()
		if !m.wait(a, b) {
			return
		}
		if a.Err != nil || b.Err != nil {
			m.fail("same-key-refused", "setting the same private key twice at once fails: %v, %v", a.Err, b.Err)
			return
		}
		m.key = "own"
	case 1: // two keys
		if m.key == "" && !r.Chance("takeover", 0.4) {
			return
		}
		was := m.key
		var a, b *Call
		o := func() *Call {
			return m.setKey(m.other, m.n.val.Type)
		}
		if r.Chance("order", 0.5) {
			a = own()
			b = o()
		} else {
			b = o()
			a = own()
		}
		if !m.wait(a, b) {
			return
		}
		if was == "" && a.Err == nil && b.Err == nil || was != "" && b.Err == nil && was == "own" || was == "other" && a.Err == nil {
			m.fail("second-identity", "two different private keys are accepted")
			return
		}
		if was == "" && a.Err != nil && b.Err != nil {
			m.fail("key-refused", "two private keys set at once are both refused: %v, %v", a.Err, b.Err)
			return
		}
		if was == "" {
			m.key = "own"
			if a.Err != nil { // the other one, which this scenario cannot use: start over
				m.n.kill("planned")
				m.startup()
			}
		}
	case 2: // becoming ready while the key is set
		if m.key == "other" {
			return
		}
		a := own()
		r.sleep(r.pickTime("apart", 20*ms))
		b := m.setReady(true)
		if !m.wait(a, b) {
			return
		}
		if a.Err != nil {
			m.fail("key-refused", "the node's private key is refused: %v", a.Err)
			return
		}
		m.key, m.sisu = "own", true
	default: // a request while the key is set
		if m.key != "" || m.sisu {
			return
		}
		a := own()
		r.sleep(r.pickTime("apart", 10*ms))
		m.refuse() // Sisu is not ready in any case
		if !m.wait(a) {
			return
		}
		if a.Err != nil {
			m.fail("key-refused", "the node's private key is refused: %v", a.Err)
			return
		}
		m.key = "own"
	}
}

var pIdentity = &Prof{Name: "identity", Prep: prepGroup(2, 2, 3), Main: identityMain, Stall: 100 * time.Millisecond}
