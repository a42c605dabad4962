package main

import (
	"bytes"
	"crypto/ed25519"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/secp256k1"

	common "github.com/sisu-network/dheart/types/common"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	eckeygen "github.com/sisu-network/dheart/zzsim/tss/ecdsa/keygen"
	edkeygen "github.com/sisu-network/dheart/zzsim/tss/eddsa/keygen"
)

func ecPubBytes(x, y *big.Int) []byte {
	b := make([]byte, 65)
	b[0] = 4
	x.FillBytes(b[1:33])
	y.FillBytes(b[33:65])
	return b
}
func edPubBytes(x, y *big.Int) []byte { return edwards.NewPublicKey(x, y).Serialize() }

// ecDigest is the documented mapping of bytes to sign to an ECDSA digest.
func ecDigest(b []byte) []byte {
	if len(b) > 32 {
		b = b[:32]
	}
	d := make([]byte, 32)
	copy(d[32-len(b):], b)
	return d
}

// verifySig returns "" if sig is what a client may expect for the message.
func verifySig(keyType string, pub, msg, sig []byte) string {
	if keyType == "ecdsa" {
		if len(sig) != 65 {
			return fmt.Sprintf("signature has %d bytes", len(sig))
		}
		if sig[64] > 1 {
			return fmt.Sprintf("recovery id %d", sig[64])
		}
		p, err := crypto.SigToPub(ecDigest(msg), sig)
		if err != nil {
			return "not recoverable: " + err.Error()
		}
		if !bytes.Equal(crypto.FromECDSAPub(p), pub) {
			return "recovers to another key"
		}
		return ""
	}
	if len(sig) != 64 {
		return fmt.Sprintf("signature has %d bytes", len(sig))
	}
	if !ed25519.Verify(ed25519.PublicKey(pub), msg, sig) {
		return "does not verify"
	}
	return ""
}

// ---------------------------------------------------------------------------- reports

func (c *Cluster) report(rep *Report) {
	r := c.r
	n := rep.N
	rep.At, rep.Gen = r.S.Now(), n.gen
	n.reports = append(n.reports, rep)
	r.Event(n.node.Name, fmt.Sprint("report", rep.Kind, rep.Outcome))
	r.Count(fmt.Sprintf("report.%s.%d", rep.Kind, rep.Outcome))
	r.S.Logf("n%d REPORT %s outcome=%d err=%q", n.i, rep.Kind, rep.Outcome, rep.Err)
	// which request does it answer?
	var sub *Sub
	if rep.Kind == "keysign" {
		if rep.Req == nil {
			r.Fail("C03", "report-without-request", "node %d reported a signing with outcome %d that names no request", n.i, rep.Outcome)
			if rep.Outcome == 0 {
				r.Fail("C01", "report-without-request", "node %d reported a successful signing that names no request", n.i)
			}
		} else {
			for _, s := range n.subs {
				if s.Gen == n.gen && !s.Req.isKeygen() && sameIDs(s.Req.Msgs, rep.Req.KeysignMessages) {
					sub = s
				}
			}
			if sub == nil {
				r.Fail("C03", "report-unknown-request", "node %d reported a signing nobody asked it for", n.i)
			} else if rep.Req.KeyType != sub.Req.keyType() {
				r.Fail("C03", "report-wrong-request", "the request carried by the report of node %d has key type %q", n.i, rep.Req.KeyType)
			} else {
				for j, m := range rep.Req.KeysignMessages {
					if !bytes.Equal(m.BytesToSign, sub.Req.Msgs[j].BytesToSign) {
						r.Fail("C03", "report-wrong-request", "the request carried by the report of node %d was altered", n.i)
						if rep.Outcome == 0 {
							r.Fail("C01", "report-wrong-request", "the successful report of node %d carries another request than the one it was given", n.i)
						}
					}
				}
			}
		}
	} else {
		for _, s := range n.subs {
			if s.Gen == n.gen && !s.Refused() && s.Req.isKeygen() && s.Req.keyType() == rep.KeyType && (sub == nil || len(s.Reports) == 0) {
				if sub == nil || len(sub.Reports) > 0 {
					sub = s
				}
			}
		}
		if sub == nil {
			r.Fail("C03", "report-unknown-keygen", "node %d reported a key generation of type %q nobody asked it for", n.i, rep.KeyType)
		}
	}
	rep.Sub = sub
	if sub == nil {
		return
	}
	open := false
	for _, k := range sub.Vary {
		if k.Done && k.Err == nil {
			c.varied(sub, k)
		}
		open = open || !k.Done
	}
	if open && len(sub.Reports) > 0 {
		r.mute = true
	}
	if open {
		defer func() { r.mute = true }()
	}
	sub.Reports = append(sub.Reports, rep)
	if len(sub.Reports) > 1 {
		c.secondReport(sub, rep)
	}
	if rep.Outcome == 0 {
		if rep.Kind == "keysign" {
			c.checkSigs(rep)
		} else {
			c.checkKeygen(rep)
		}
	} else if rep.Outcome != 1 && rep.Outcome != 2 {
		r.Fail("C03", "unknown-outcome", "outcome %d", rep.Outcome)
	}
	if rep.Outcome == 2 && sub.Req.exec[n.i] != nil {
		r.Fail("C09", "not-selected-but-executed", "node %d reports not selected but sent round messages", n.i)
	}
	for _, h := range c.onRepHooks() {
		h(n, rep)
	}
}

func (c *Cluster) onRepHooks() []func(n *CNode, rep *Report) { return c.onRep }

func (c *Cluster) secondReport(sub *Sub, rep *Report) {
	first := sub.Reports[0]
	// submissions that began after the first report are new works
	fresh := 0
	amb := false
	for _, d := range sub.Dups {
		switch {
		case d.At > first.At:
			fresh++
		case !d.Done || d.End >= first.At:
			amb = true
		}
	}
	if len(sub.Dups) > 0 && (!sub.Call.Done || sub.Call.End >= first.At) {
		amb = true
	}
	if amb || len(sub.Reports)-1 <= fresh {
		return
	}
	what := fmt.Sprintf("node %d reported %d outcomes (%d then %d) for request %d (%s), submitted %d times", sub.N.i, len(sub.Reports), first.Outcome, rep.Outcome,
		sub.Req.N, sub.Req.Kind, len(sub.Dups)+1)
	if len(sub.Dups) > 0 {
		c.r.Fail("C06", "answered-twice", "%s", what)
		return
	}
	c.r.Fail("C03", "answered-twice", "%s", what)
	c.r.Fail("C18", "answered-twice", "%s", what)
	c.r.Fail("C18", "answered-twice", "%s", what)
}

// keyRec is a group key: of an earlier life of the group or generated in this run.
type keyRec struct {
	pub   []byte
	work  string
	of    int           // nodes that took part in its generation
	nodes map[int]bool  // nodes that reported it
	at    time.Duration // when the last one did
}

// held tells whether all of the nodes reported the key.
func (k *keyRec) held(nodes []int) bool {
	for _, i := range nodes {
		if !k.nodes[i] {
			return false
		}
	}
	return true
}

func (c *Cluster) addKey(keyType string, pub []byte, work string, node int) {
	for _, k := range c.keys[keyType] {
		if bytes.Equal(k.pub, pub) {
			if node >= 0 && !k.nodes[node] {
				k.nodes[node], k.at = true, c.r.S.Now()
			}
			return
		}
	}
	k := &keyRec{pub: pub, work: work, nodes: map[int]bool{}, at: c.r.S.Now(), of: c.n}
	if q := c.byWork[work]; q != nil {
		k.of = len(q.Parties)
	}
	if node >= 0 {
		k.nodes[node] = true
	}
	c.keys[keyType] = append(c.keys[keyType], k)
}

// groupKeys lists the keys a signature for the request may verify under. When every node reported a newer
// key before the request was first submitted, that is the newer key only. (A request does not name a key: each
// node uses the newest one it holds.)
func (c *Cluster) groupKeys(q *Req) [][]byte {
	first := time.Duration(1 << 62)
	for _, s := range q.Subs {
		if s.At < first {
			first = s.At
		}
	}
	var l [][]byte
	for _, k := range c.keys[q.keyType()] {
		if (k.work == "" || len(k.nodes) == k.of && k.held(q.Parties)) && k.at < first {
			l = nil
		}
		l = append(l, k.pub)
	}
	// keys that are stored but not reported yet
	for _, n := range c.nodes {
		rows, _ := n.store.Rows("SELECT keygen_output, work_id FROM keygen WHERE key_type=?", q.keyType())
		for _, row := range rows {
			w := string(toBytes(row[1]))
			known := strings.HasPrefix(w, "keygen-earlier")
			for _, k := range c.keys[q.keyType()] {
				known = known || k.work == w
			}
			if !known {
				if pub, _, _, err := shareOf(q.keyType(), toBytes(row[0])); err == nil {
					l = append(l, pub)
				}
			}
		}
	}
	return l
}

func (c *Cluster) checkSigs(rep *Report) {
	q := rep.Sub.Req
	c.r.Count("success.sign")
	if len(rep.Sigs) != len(q.Msgs) {
		c.r.Fail("C01", "wrong-count", "%d signatures for %d messages", len(rep.Sigs), len(q.Msgs))
		return
	}
	pubs := c.groupKeys(q)
	if len(pubs) == 0 {
		c.r.Fail("C01", "signed-without-key", "a signing succeeded before any key was generated")
		return
	}
	bad, at := "", 0
	for _, pub := range pubs {
		bad = ""
		for j, m := range q.Msgs {
			if b := verifySig(q.keyType(), pub, m.BytesToSign, rep.Sigs[j]); b != "" {
				bad, at = b, j
				break
			}
		}
		if bad == "" {
			break
		}
	}
	if bad != "" {
		c.r.Fail("C01", "bad-"+q.keyType()+"-signature", "node %d, message %d of %d (%x): %s", rep.N.i, at, len(q.Msgs), q.Msgs[at].BytesToSign, bad)
		c.r.Fail("C11", "bad-signature", "node %d, message %d of %d: %s", rep.N.i, at, len(q.Msgs), bad)
		c.r.Fail("C22", "bad-signature", "node %d, message %d of %d: %s", rep.N.i, at, len(q.Msgs), bad)
		c.r.Fail("C08", "bad-signature", "node %d, message %d of %d: %s", rep.N.i, at, len(q.Msgs), bad)
	}
	for j := range q.Msgs {
		if q.keyType() == "ecdsa" && len(rep.Sigs[j]) == 65 {
			c.nonce(string(rep.Sigs[j][:32]), fmt.Sprintf("%s/%d", q.ID, j))
		}
	}
}

// nonce detects a signature nonce, and so a presignature, that appears in two different signings.
func (c *Cluster) nonce(r, where string) {
	p := c.presig["r:"+r]
	if p == nil {
		c.presig["r:"+r] = &preRec{work: where}
		return
	}
	if p.work != where {
		c.r.Fail("C07", "nonce-reuse", "signatures %s and %s share a nonce", p.work, where)
	}
}

// ---------------------------------------------------------------------------- key generation

func (n *CNode) keygenRow(keyType, work string) ([]byte, error) {
	var rows [][]driver.Value
	var err error
	if work != "" {
		rows, err = n.store.Rows("SELECT keygen_output FROM keygen WHERE key_type=? AND work_id=?", keyType, work)
	} else {
		rows, err = n.store.Rows("SELECT keygen_output FROM keygen WHERE key_type=?", keyType)
	}
	if err != nil || len(rows) == 0 {
		return nil, err
	}
	return toBytes(rows[0][0]), nil
}

func toBytes(v driver.Value) []byte {
	switch x := v.(type) {
	case []byte:
		return x
	case string:
		return []byte(x)
	}
	return nil
}

func (c *Cluster) checkKeygen(rep *Report) {
	r := c.r
	q := rep.Sub.Req
	r.Count("success.keygen")
	if q.keyType() == "ecdsa" {
		if _, err := crypto.UnmarshalPubkey(rep.PubKey); err != nil {
			r.Fail("C02", "malformed-key", "node %d: %v", rep.N.i, err)
			return
		}
	} else if len(rep.PubKey) != 32 {
		r.Fail("C02", "malformed-key", "node %d: %d bytes", rep.N.i, len(rep.PubKey))
		return
	}
	for _, s := range q.Subs {
		for _, o := range s.Reports {
			if o.Outcome == 0 && !bytes.Equal(o.PubKey, rep.PubKey) {
				r.Fail("C02", "keys-differ", "nodes %d and %d report different keys for %s", rep.N.i, s.N.i, q.ID)
			}
		}
	}
	c.addKey(q.keyType(), rep.PubKey, q.ID, rep.N.i)
	row, err := rep.N.keygenRow(q.keyType(), q.ID)
	if err != nil || row == nil {
		r.Fail("C02", "reported-before-stored", "node %d reports %s but has stored nothing (%v)", rep.N.i, q.ID, err)
		r.Fail("C08", "reported-before-stored", "node %d reports %s but has stored nothing (%v)", rep.N.i, q.ID, err)
		r.Fail("C22", "reported-before-stored", "node %d reports %s but has stored nothing (%v)", rep.N.i, q.ID, err)
		return
	}
	pub, _, _, err := shareOf(q.keyType(), row)
	if err != nil {
		r.Fail("C02", "stored-share-unreadable", "node %d: %v", rep.N.i, err)
		return
	}
	if !bytes.Equal(pub, rep.PubKey) {
		r.Fail("C02", "stored-share-of-other-key", "node %d stored a share of another key than it reports", rep.N.i)
	}
}

// shareOf decodes a stored share: group key, share id and secret share.
func shareOf(keyType string, row []byte) (pub []byte, id, x *big.Int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	if keyType == "ecdsa" {
		d := &eckeygen.LocalPartySaveData{}
		if err = json.Unmarshal(row, d); err != nil {
			return
		}
		return ecPubBytes(d.ECDSAPub.X(), d.ECDSAPub.Y()), d.ShareID, d.Xi, nil
	}
	d := &edkeygen.LocalPartySaveData{}
	if err = json.Unmarshal(row, d); err != nil {
		return
	}
	return edPubBytes(d.EDDSAPub.X(), d.EDDSAPub.Y()), d.ShareID, d.Xi, nil
}

// sharesSign checks that the stored shares of the nodes determine the reported secret key.
func (c *Cluster) sharesSign(q *Req, nodes []int, pub []byte) string {
	order := secp256k1.S256().Params().N
	if q.keyType() == "eddsa" {
		order = edwards.Edwards().Params().N
	}
	ids := make([]*big.Int, len(nodes))
	xs := make([]*big.Int, len(nodes))
	for k, i := range nodes {
		row, err := c.nodes[i].keygenRow(q.keyType(), q.ID)
		if err != nil || row == nil {
			return fmt.Sprintf("node %d has no stored share", i)
		}
		_, id, x, err := shareOf(q.keyType(), row)
		if err != nil {
			return err.Error()
		}
		ids[k], xs[k] = id, x
	}
	secret := new(big.Int)
	for a := range nodes {
		num, den := big.NewInt(1), big.NewInt(1)
		for b := range nodes {
			if a == b {
				continue
			}
			num.Mul(num, ids[b]).Mod(num, order)
			den.Mul(den, new(big.Int).Mod(new(big.Int).Sub(ids[b], ids[a]), order)).Mod(den, order)
		}
		if den.Sign() == 0 {
			return "share ids collide"
		}
		l := num.Mul(num, den.ModInverse(den, order))
		secret.Add(secret, l.Mul(l, xs[a])).Mod(secret, order)
	}
	var got []byte
	if q.keyType() == "ecdsa" {
		x, y := secp256k1.S256().ScalarBaseMult(secret.Bytes())
		got = ecPubBytes(x, y)
	} else {
		x, y := edwards.Edwards().ScalarBaseMult(secret.Bytes())
		got = edPubBytes(x, y)
	}
	if !bytes.Equal(got, pub) {
		return "the shares do not add up to the reported key"
	}
	return ""
}

// ---------------------------------------------------------------------------- wire oracles

type preRec struct {
	work string
	used map[int]string // node -> work
}

type exclState struct{}

func (c *Cluster) observe(o *Obs) {
	r := c.r
	m := o.Msg
	n := c.nodes[o.From]
	q := o.Req
	if m.Type == common.TssMessage_UPDATE_MESSAGES && m.To != "" {
		r.Count("checked.private")
		if o.To < 0 || c.mat.Vals[o.To].ID != m.To {
			r.Fail("C13", "private-message-misdirected", "node %d sent a message for party %s (work %.8s, %s) to %s", o.From, tailOf(m.To), m.WorkId, round(m), r.who(o.Peer))
		}
	}
	if m.Type == common.TssMessage_UPDATE_MESSAGES && !c.rogues[o.From] {
		// The routing inside says for whom the content is, whatever the envelope says.
		for _, u := range m.UpdateMessages {
			var rt struct{ To []struct{ ID string } }
			if u == nil || json.Unmarshal(u.SerializedMessageRouting, &rt) != nil || len(rt.To) == 0 || !o.Own {
				continue
			}
			if o.To < 0 || len(rt.To) > 1 || c.mat.Vals[o.To].ID != rt.To[0].ID {
				r.Fail("C13", "private-content-misdirected", "node %d sent content for party %s (work %.8s, %s) to %s", o.From, tailOf(rt.To[0].ID), m.WorkId, round(m), r.who(o.Peer))
			}
			r.Count("checked.routing")
		}
	}
	if o.To == o.From {
		r.Fail("C13", "sent-to-itself", "node %d sent a message to itself", o.From)
	}
	if m.Type == common.TssMessage_ASK_MESSAGE_REQUEST && m.AskRequestMessage != nil && o.Own {
		c.asked[fmt.Sprint(o.From, m.AskRequestMessage.MsgKey)] = true
	}
	if m.Type == common.TssMessage_UPDATE_MESSAGES && !o.Own && o.To >= 0 && !c.rogues[o.To] {
		if key, err := m.GetMessageKey(); err == nil {
			r.Count("checked.resent")
			if !c.asked[fmt.Sprint(o.To, key)] {
				r.Fail("C11", "sent-without-request", "node %d passes a message of party %s (work %.8s, %s) on to node %d, which never asked for it", o.From, tailOf(m.From), m.WorkId, round(m), o.To)
			}
		}
	}
	if q == nil || !o.Own {
		return
	}
	sub := q.Subs[o.From]
	if sub != nil && sub.Gen == n.gen && sub.FirstMsg == 0 && len(sub.Reports) == 0 && m.Type != common.TssMessage_ASK_MESSAGE_REQUEST {
		sub.FirstMsg = r.S.Now() + 1
		c.started(n, sub)
	}
	switch m.Type {
	case common.TssMessage_PRE_EXEC_OUTPUT:
		c.outcome(o, q)
	case common.TssMessage_UPDATE_MESSAGES:
		key := fmt.Sprintf("%d/%d/%s/%s", o.From, n.gen, round(m), m.To)
		h := payloadHash(m)
		if old, ok := q.upd[key]; ok && old != h && (sub == nil || len(sub.Reports) == 0) {
			r.Fail("C06", "executed-twice", "node %d sent two different %s messages for work %.8s", o.From, round(m), q.ID)
		}
		q.upd[key] = h
		if m.To == "" {
			e := q.exec[o.From]
			if e == nil {
				e = map[string]bool{c.mat.Vals[o.From].ID: true}
				q.exec[o.From] = e
				c.executes(o, q, n)
			}
			if o.To >= 0 && !c.rogues[o.To] {
				e[c.mat.Vals[o.To].ID] = true
			}
			if !c.hostile() {
				if a := q.announced(); a != nil && o.To >= 0 && !a[c.mat.Vals[o.To].ID] && !c.rogues[o.To] {
					r.Fail("C13", "broadcast-outside-work", "node %d sent a round message of work %.8s to node %d, which does not take part", o.From, q.ID, o.To)
				}
			}
		} else if q.exec[o.From] == nil {
			q.exec[o.From] = map[string]bool{c.mat.Vals[o.From].ID: true}
			c.executes(o, q, n)
		}
	}
}

func (c *Cluster) hostile() bool { return c.silent }

// announced is the participant set the leader's (first) outcome message names.
func (q *Req) announced() map[string]bool {
	for _, o := range q.outcome {
		if o.Msg.PreExecOutputMessage.Success {
			a := map[string]bool{}
			for _, p := range o.Msg.PreExecOutputMessage.Pids {
				a[p] = true
			}
			return a
		}
	}
	return nil
}

func pidKey(l []string) string {
	s := append([]string(nil), l...)
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (c *Cluster) outcome(o *Obs, q *Req) {
	r := c.r
	x := o.Msg.PreExecOutputMessage
	if x == nil {
		return
	}
	if o.From != q.Leader {
		r.Fail("C09", "outcome-from-non-leader", "node %d announces an outcome for work %.8s led by node %d", o.From, q.ID, q.Leader)
		return
	}
	r.Count("checked.outcome")
	for _, p := range q.outcome {
		if p.Msg.PreExecOutputMessage.Success != x.Success || pidKey(p.Msg.PreExecOutputMessage.Pids) != pidKey(x.Pids) ||
			pidKey(p.Msg.PreExecOutputMessage.PresignIds) != pidKey(x.PresignIds) {
			if s := q.Subs[o.From]; s == nil || len(s.Reports) == 0 && len(s.Dups) == 0 {
				r.Fail("C09", "contradicting-outcomes", "the leader of work %.8s announced two different outcomes", q.ID)
			}
		}
	}
	q.outcome = append(q.outcome, o)
	if !x.Success {
		return
	}
	seen := map[string]bool{}
	for _, p := range x.Pids {
		if i := c.nodes[0].idx(p); i < 0 || !q.names(i) {
			r.Fail("C09", "stranger-selected", "%s is no party of the request", p)
		}
		if seen[p] {
			r.Fail("C09", "selected-twice", "%s is selected twice", p)
		}
		seen[p] = true
	}
	if !seen[c.mat.Vals[o.From].ID] {
		r.Count("leader_left_out")
		if len(x.PresignIds) == 0 {
			r.Fail("C09", "leader-not-selected", "the leader of work %.8s is not among the participants it announces", q.ID)
		}
	}
	if len(x.Pids) < q.quorum() {
		r.Fail("C09", "too-few", "%d participants selected, %d needed", len(x.Pids), q.quorum())
	}
	if q.isKeygen() && len(x.Pids) != len(q.Parties) {
		r.Fail("C09", "keygen-subset", "%d of %d nodes selected for key generation", len(x.Pids), len(q.Parties))
	}
	if len(x.PresignIds) > 0 {
		r.Count("presign_works")
		if len(x.PresignIds) != len(q.Msgs) {
			r.Fail("C07", "wrong-number-of-presigns", "%d presignatures for %d messages", len(x.PresignIds), len(q.Msgs))
		}
		s := map[string]bool{}
		for _, p := range x.PresignIds {
			if s[p] {
				r.Fail("C07", "presign-twice-in-work", "presignature %s used twice in one work", p)
			}
			s[p] = true
		}
	}
}

// executes is called at the first round message of a node in a work.
func (c *Cluster) executes(o *Obs, q *Req, n *CNode) {
	r := c.r
	r.Count("checked.exec")
	a := q.announced()
	me := c.mat.Vals[n.i].ID
	if a != nil && !a[me] {
		r.Fail("C09", "executes-unselected", "node %d executes work %.8s although it was not selected", n.i, q.ID)
	}
	if n.i != q.Leader && len(q.outcome) == 0 && !c.hostile() {
		r.Fail("C09", "executes-without-outcome", "node %d executes work %.8s although its leader announced nothing", n.i, q.ID)
	}
	for _, s := range q.Subs {
		if s.N == n && s.Gen == n.gen && len(s.Reports) > 0 && s.Reports[0].Outcome == 2 {
			r.Fail("C09", "not-selected-but-executed", "node %d reported not selected and then sent round messages", n.i)
		}
	}
	// presignatures
	if len(q.outcome) > 0 && len(q.Msgs) > 0 && !strings.HasPrefix(round(o.Msg), "SignRound1") {
		for _, id := range q.outcome[0].Msg.PreExecOutputMessage.PresignIds {
			p := c.presig[id]
			if p == nil {
				p = &preRec{used: map[int]string{}}
				c.presig[id] = p
			}
			if w, ok := p.used[n.i]; ok && w != q.ID {
				r.Fail("C07", "presign-reused", "node %d takes part in works %.8s and %.8s with the same presignature %s", n.i, w, q.ID, id)
			}
			p.used[n.i] = q.ID
			r.Count("checked.presign")
			rows, err := n.store.Rows("SELECT status FROM presign WHERE presign_id=?", id)
			if err == nil && len(rows) > 0 && string(toBytes(rows[0][0])) != "used" {
				r.Fail("C07", "not-durably-taken", "node %d sends a message of work %.8s that depends on presignature %s, which its database still lists as %s", n.i, q.ID, id, toBytes(rows[0][0]))
			}
		}
	}
}

// started is called when a node sends its first message of a work.
func (c *Cluster) started(n *CNode, sub *Sub) {
	c.r.Event(n.node.Name, "start"+sub.Req.Kind)
	c.r.Count("started")
	k := 0
	for _, s := range n.subs {
		if s.Gen == n.gen && s.FirstMsg > 0 && len(s.Reports) == 0 {
			k++
		}
	}
	if k == 2 {
		c.r.Count("two_running")
	}
}

// concurrency counts the works a node executed at once. A work ends some time before its report arrives.
func (c *Cluster) concurrency() {
	const m = 1500 * time.Millisecond
	for _, n := range c.nodes {
		for _, y := range n.subs {
			if y.FirstMsg == 0 || len(y.Dups) > 0 {
				continue
			}
			var l []string
			for _, x := range n.subs {
				if x.Gen != y.Gen || x.FirstMsg == 0 || x.FirstMsg > y.FirstMsg || len(x.Dups) > 0 {
					continue
				}
				if len(x.Reports) > 0 && x.Reports[0].At-m < y.FirstMsg {
					continue
				}
				l = append(l, fmt.Sprint(x.Req.N))
			}
			if len(l) > 2 {
				c.r.Fail("C05", "more-than-two", "node %d executes %d works at once (requests %s)", n.i, len(l), strings.Join(l, ","))
			}
		}
	}
}

func (c *Cluster) nodeDied(n *CNode) {}

// ---------------------------------------------------------------------------- end of run

func prio(q *Req) int {
	if q.isKeygen() {
		return 100
	}
	return 80
}

// bound is how long a node may take for everything it accepted.
func (c *Cluster) bound(n *CNode) time.Duration {
	k := 0
	for _, s := range n.subs {
		if s.Gen == n.gen {
			k++
		}
	}
	return time.Duration(k)*225*time.Second + 30*time.Second + n.frozen
}

// settle waits until every accepted request is answered, or its time is over, and checks that it is.
func (c *Cluster) settle() {
	last := time.Duration(0)
	for _, n := range c.nodes {
		for _, s := range n.subs {
			if s.At > last {
				last = s.At
			}
		}
	}
	lim := time.Duration(0)
	for _, n := range c.nodes {
		if b := c.bound(n); b > lim {
			lim = b
		}
	}
	end := last + lim
	pending := func() *Sub {
		for _, n := range c.nodes {
			for _, s := range n.subs {
				if s.Alive() && (!s.Call.Done || s.Accepted() && len(s.Reports) == 0) {
					return s
				}
			}
		}
		return nil
	}
	if d := end - c.r.S.Now(); d > 0 {
		c.r.Until(d, func() bool { return pending() == nil })
	}
	if c.r.S.Runaway != "" {
		return
	}
	rt.Sleep(20 * time.Second) // late second answers
	for _, n := range c.nodes {
		for _, s := range n.subs {
			if !s.Accepted() || !s.Alive() {
				continue
			}
			c.r.Count("checked.answer")
			if len(s.Reports) == 0 {
				d := fmt.Sprintf("node %d accepted request %d (%s, %d messages) at %.1fs and reported nothing until %.1fs", n.i, s.Req.N, s.Req.Kind, len(s.Req.Msgs),
					s.At.Seconds(), c.r.S.Now().Seconds())
				if !c.dbFaulty() {
					c.r.Fail("C03", "never-answered", "%s", d)
				}
				c.r.Fail("C22", "never-answered", "%s", d)
				c.r.Fail("C10", "never-answered", "%s", d)
				if s.FirstMsg == 0 {
					c.r.Fail("C05", "never-started", "%s", d)
				}
			}
		}
	}
}

func (c *Cluster) dbFaulty() bool { return false }

// order checks that waiting works start by priority and then by submission.
func (c *Cluster) order() {
	c.concurrency()
	const m = 1500 * time.Millisecond
	for _, n := range c.nodes {
		for _, x := range n.subs {
			for _, y := range n.subs {
				if x == y || x.Gen != y.Gen || !x.Accepted() || !y.Accepted() || y.FirstMsg == 0 || len(x.Dups)+len(y.Dups) > 0 {
					continue
				}
				if !(prio(x.Req) > prio(y.Req) || prio(x.Req) == prio(y.Req) && x.Call.End+m < y.Call.At) {
					continue
				}
				xs := x.FirstMsg
				if xs == 0 {
					if len(x.Reports) == 0 {
						continue
					}
					xs = x.Reports[0].At
				}
				c.r.Count("checked.order")
				if x.Call.End+m < y.FirstMsg && y.FirstMsg+m < xs {
					c.r.Fail("C05", "out-of-order", "node %d starts request %d (%s) at %.2fs although request %d (%s), accepted at %.2fs, is waiting (it starts at %.2fs)", n.i,
						y.Req.N, y.Req.Kind, y.FirstMsg.Seconds(), x.Req.N, x.Req.Kind, x.Call.End.Seconds(), xs.Seconds())
				}
			}
		}
	}
}

// agreement checks the participant sets of runs without broken connections.
func (c *Cluster) agreement(exact bool) {
	r := c.r
	for _, q := range c.reqs {
		var ref map[string]bool
		refN := -1
		a := q.announced()
		for i := 0; i < c.n; i++ {
			e := q.exec[i]
			if e == nil {
				continue
			}
			r.Count("checked.agreement")
			if a != nil {
				for p := range e {
					if !a[p] {
						r.Fail("C09", "participants-differ", "node %d executes request %d with %s, which the leader did not select", i, q.N, tailOf(p))
					}
				}
			}
			s := q.Subs[i]
			if s == nil || !s.Alive() || len(s.Dups) > 0 {
				continue
			}
			if !exact {
				continue
			}
			if a != nil && len(e) != len(a) {
				r.Fail("C09", "participants-differ", "node %d executes request %d with %d parties, the leader selected %d", i, q.N, len(e), len(a))
			}
			if ref == nil {
				ref, refN = e, i
				continue
			}
			if fmt.Sprint(sortedKeys(ref)) != fmt.Sprint(sortedKeys(e)) {
				r.Fail("C09", "participants-differ", "nodes %d and %d execute request %d with different parties", refN, i, q.N)
			}
		}
		for i, s := range q.Subs {
			if len(s.Reports) == 0 {
				continue
			}
			if s.Reports[0].Outcome == 0 && a != nil && !a[c.mat.Vals[i].ID] && s.Gen == c.nodes[i].gen {
				r.Fail("C09", "success-unselected", "node %d reports success for request %d without having been selected", i, q.N)
			}
			if s.Reports[0].Outcome == 2 && a != nil && a[c.mat.Vals[i].ID] && len(s.Dups) == 0 {
				r.Fail("C09", "selected-reports-unselected", "node %d reports not selected for request %d although the leader selected it", i, q.N)
			}
		}
	}
}

// finish applies the checks every run ends with.
func (c *Cluster) finish() {
	r := c.r
	if r.S.Runaway != "" {
		return
	}
	for _, n := range c.nodes {
		if n.node.Dead {
			continue
		}
		if l := r.S.Stuck(n.node, 60*time.Second); len(l) > 0 {
			r.Fail("C15", "blocked-on-lock", "node %d has %d goroutines that wait for a lock for ever: %s", n.i, len(l), l[0])
		}
		for _, k := range n.calls {
			if !k.Done && k.Gen == n.gen && r.S.Now()-k.At > 200*time.Second {
				r.Fail("C15", "call-never-returns", "%s called on node %d at %.1fs has not returned at %.1fs", k.Name, n.i, k.At.Seconds(), r.S.Now().Seconds())
			}
		}
		if r.Prop == "C15" && len(r.S.Sending(n.node, 0)) > 0 {
			r.sleep(200 * sec)
		}
		if l := r.S.Sending(n.node, 200*time.Second); len(l) > 0 {
			r.Fail("C15", "blocked-on-send", "node %d has %d goroutines that wait for a reader of a channel for ever: %s", n.i, len(l), l[0])
		}
		r.Count("checked.locks")
	}
	if r.S.Err != "" {
		r.Fail("HARNESS", "sim-error", "%s", r.S.Err)
	}
	switch r.Prop {
	case "C01":
		r.Stats["checked"] = r.Stats["success.sign"]
	case "C02":
		r.Stats["checked"] = r.Stats["success.keygen"]
	case "C05":
		r.Stats["checked"] = r.Stats["started"]
	case "C07":
		r.Stats["checked"] = r.Stats["checked.presign"]
	case "C09":
		r.Stats["checked"] = r.Stats["checked.agreement"]
	case "C13":
		r.Stats["checked"] = r.Stats["checked.private"]
	case "C15":
		r.Stats["checked"] += r.Stats["checked.locks"]
	default:
		r.Stats["checked"] += r.Stats["checked.answer"]
	}
}

// siteFunc strips file and line from a code location.
func siteFunc(x string) string {
	if i := strings.Index(x, " "); i >= 0 {
		return x[:i]
	}
	return x
}
