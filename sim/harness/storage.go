package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/crypto/paillier"
	eckeygen "github.com/sisu-network/dheart/zzsim/tss/ecdsa/keygen"
	ecsigning "github.com/sisu-network/dheart/zzsim/tss/ecdsa/signing"
	edkeygen "github.com/sisu-network/dheart/zzsim/tss/eddsa/keygen"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
	"github.com/sisu-network/dheart/zzsim/world"
)

// ---------------------------------------------------------------------------- C16

// storeBench compares the storage interface with its specification.
type storeBench struct {
	*bench
	st  *world.Store
	cfg config.DbConfig
	d   db.Database
	cnt int

	taken map[string]int // successful UpdatePresignStatus calls per presignature
}

func (b *storeBench) fail(class, f string, a ...interface{}) { b.r.Fail("C16", class, f, a...) }

func js(v interface{}) string {
	bz, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(bz)
}

// clean reports whether nothing can be wrong with the database.
func (b *storeBench) clean() bool {
	s := b.st
	return s.Quiet || s.PErr+s.PLost+s.PLostReq+s.PRows+s.PConn+s.PBad+s.PTorn == 0 && !s.Down
}

// open opens the storage, repeatedly if it fails.
func (b *storeBench) open() bool {
	for i := 0; i < 40; i++ {
		cfg := b.cfg
		d := db.NewDatabase(&cfg)
		err := d.Init()
		if err == nil {
			b.d = d
			return true
		}
		if b.clean() {
			b.fail("init", "the storage of a healthy database cannot be opened: %v", err)
			return false
		}
		if i > 20 {
			b.st.Quiet = true
		}
		rt.Sleep(sec)
	}
	return false
}

// storageMain: the storage layer on a database with faults.
func storageMain(r *Run) {
	b := &storeBench{bench: newBench(r, "C16"), taken: map[string]int{}}
	b.st = r.W.Store("db0:3306")
	b.cfg = config.DbConfig{Host: "db0", Port: 3306, Username: "root", Password: "password", Schema: "dheart"}
	faults := func() {
		s := b.st
		p := func(name string, max float64) float64 { return max * float64(r.Pick("db."+name, 5)) / 4 }
		s.PErr, s.PLost, s.PLostReq = p("err", 0.25), p("lost", 0.15), p("lostreq", 0.15)
		s.PSlow, s.PConn, s.PBad, s.PRows = p("slow", 0.2), p("conn", 0.15), p("bad", 0.2), p("rows", 0.25)
		if r.Chance("db.torn", 0.5) {
			s.PTorn = p("cut", 0.25)
		}
	}
	if r.Chance("faults", 0.7) {
		faults()
	}
	m := newStoreModel(b, "")
	lives := 1 + r.Pick("lives", 3)
	for life := 0; life < lives && len(r.Viol) == 0; life++ {
		ok := false
		b.all(600*sec, func() { ok = b.open() })
		if !ok {
			return
		}
		if r.Chance("concurrent", 0.5) {
			var fs []func()
			for t := 0; t < 2+r.Pick("threads", 12); t++ {
				m := newStoreModel(b, fmt.Sprintf("-%d-%d", life, t))
				fs = append(fs, func() { m.ops(2 + r.Pick("ops", 10)); m.verify() })
			}
			for t := 0; t < r.Pick("takers", 4); t++ {
				fs = append(fs, func() { b.takeSome() })
			}
			b.all(3000*sec, fs...)
		} else {
			b.all(3000*sec, func() { m.ops(5 + r.Pick("ops", 25)); m.verify() })
		}
		if len(r.Viol) > 0 || b.stuck {
			return
		}
		// the faults stop: nothing may be left over from them
		if r.Chance("quiet", 0.5) {
			b.st.Quiet = true
			b.idle()
			b.all(600*sec, func() { m.verify() })
			b.st.Quiet = false
		}
		if r.Chance("kill", 0.5) {
			r.S.Kill(b.node)
			r.W.NodeDied()
			r.W.Count("crash.planned")
			r.S.Revive(b.node)
		} else {
			b.all(600*sec, func() {
				if err := b.d.Close(); err != nil && b.clean() {
					b.fail("close", "closing a healthy database fails: %v", err)
				}
			})
		}
	}
	b.st.Quiet = true
	ok := false
	b.all(600*sec, func() { ok = b.open() })
	if ok {
		b.all(600*sec, func() { m.verify() })
		b.idle()
	}
}

// idle checks that many calls at once are served by a healthy database: no connection is lost to earlier faults.
func (b *storeBench) idle() {
	var fs []func()
	done := 0
	for i := 0; i < 25; i++ {
		i := i
		fs = append(fs, func() {
			var err error
			switch i % 3 {
			case 0:
				_, err = b.d.LoadEcKeygen("ecdsa")
			case 1:
				_, _, err = b.d.GetAvailablePresignShortForm()
			default:
				_, err = b.d.LoadPreparams()
				if errors.Is(err, db.ErrNotFound) {
					err = nil
				}
			}
			b.checked()
			if err != nil {
				b.fail("does-not-recover", "a load fails although the database is healthy again: %v", err)
			}
			done++
		})
	}
	for _, f := range fs {
		b.r.S.Spawn(b.node, f)
	}
	if !b.r.Until(120*sec, func() bool { return done == len(fs) || b.node.Dead }) && b.r.S.Runaway == "" {
		b.fail("connections-leaked", "with the database healthy again %d of %d simultaneous loads have not returned after 2 minutes", len(fs)-done, len(fs))
		b.stuck = true
	}
}

// takeSome marks presignatures of everybody as used; each must be obtained once.
func (b *storeBench) takeSome() {
	r := b.r
	for i := 0; i < 3; i++ {
		rt.Sleep(r.pickTime("takeat", sec))
		ids, _, err := b.d.GetAvailablePresignShortForm()
		if err != nil {
			continue
		}
		var mine []string
		for _, id := range ids {
			if strings.HasPrefix(id, "pool") && r.Chance("take", 0.5) {
				mine = append(mine, id)
			}
		}
		if len(mine) > 0 {
			b.take(mine)
		}
		rt.Sleep(ms)
		b.cnt++
		b.d.SavePresignData(fmt.Sprint("pool", b.cnt), somePids(2), []*ecsigning.SignatureData_OneRoundData{b.presign()})
	}
}

func (b *storeBench) take(ids []string) error {
	err := b.d.UpdatePresignStatus(ids)
	b.checked()
	if err == nil {
		for _, id := range ids {
			b.taken[id]++
			if b.taken[id] > 1 {
				b.r.Fail("C07", "taken-twice", "presignature %s was taken twice from the storage", id)
				b.fail("taken-twice", "presignature %s was marked as used twice, both times with success", id)
			}
		}
	}
	return err
}

func somePids(n int) []*tss.PartyID {
	var l []*tss.PartyID
	for i := 0; i < n; i++ {
		l = append(l, tss.NewPartyID(fmt.Sprint("party", n-i), "", partyKey(i)))
	}
	return l
}

func (b *storeBench) number(bits int) *big.Int {
	v := new(big.Int).SetBytes(b.r.Rng.Bytes(bits / 8))
	return v.SetBit(v, bits-1, 1)
}

func (b *storeBench) presign() *ecsigning.SignatureData_OneRoundData {
	b.cnt++
	return &ecsigning.SignatureData_OneRoundData{T: 1, PartyId: fmt.Sprint("party-", b.cnt), KI: b.r.Rng.Bytes(32), RSigmaI: b.r.Rng.Bytes(1 + b.r.Rng.Intn(40))}
}

// storeModel is what one caller may expect to find.
type storeModel struct {
	b   *storeBench
	sfx string

	pre     []string // possible pre-parameters, "" = none
	preOn   bool
	keys    map[string][]kentry // by key type, oldest first
	saved   map[string]bool     // works that were saved
	lastKey time.Duration
	pres    map[string]*pentry
	batches [][]string
	unsure  map[string]bool // batches whose save failed: whether they exist is decided at the first sight
	peers   map[string]string
	peerOn  bool
}

type kentry struct {
	val   string
	maybe bool
}

type pentry struct {
	val    string
	pids   string
	status map[string]bool // possible
	batch  int
	maybe  bool // the save failed
}

func newStoreModel(b *storeBench, sfx string) *storeModel {
	return &storeModel{b: b, sfx: sfx, pre: []string{""}, preOn: sfx == "", peerOn: sfx == "", keys: map[string][]kentry{}, saved: map[string]bool{},
		pres: map[string]*pentry{}, peers: map[string]string{}}
}

func (m *storeModel) ops(n int) {
	b, r := m.b, m.b.r
	for i := 0; i < n && len(r.Viol) == 0; i++ {
		switch r.Pick("op", 10) {
		case 0:
			if m.preOn {
				m.savePre()
			}
		case 1, 2:
			m.saveKey()
		case 3, 4, 5:
			m.savePres()
		case 6, 7:
			m.use()
		case 8:
			if m.peerOn {
				m.savePeers()
			}
		default:
			m.verify()
		}
		_ = b
	}
}

func (m *storeModel) savePre() {
	b := m.b
	v := preparams(b.r.Pick("pre", 6))
	err := b.d.SavePreparams(v)
	if err == nil {
		m.pre = []string{js(v)}
	} else {
		if b.clean() && len(m.pre) == 1 && m.pre[0] == "" {
			b.fail("save-preparams", "saving pre-parameters in a healthy database fails: %v", err)
		}
		m.pre = append(m.pre, js(v))
	}
}

func (m *storeModel) saveKey() {
	b, r := m.b, m.b.r
	ec := r.Chance("ec", 0.5)
	kt := "eddsa"
	if ec {
		kt = "ecdsa"
	}
	kt += m.sfx
	// the newest is told by a time stamp of one second
	if d := m.lastKey + 2100*ms - r.S.Now(); m.lastKey > 0 && d > 0 {
		rt.Sleep(d)
	}
	b.cnt++
	work := fmt.Sprint("keygen", b.cnt)
	n := 2
	if r.Chance("group", 0.2) {
		n = 3 + r.Pick("parties", 58)
	}
	var err error
	var val string
	if ec {
		v := eckeygen.NewLocalPartySaveData(n)
		v.LocalPreParams = *preparams(r.Pick("pre", 6))
		v.ShareID = partyKey(b.cnt)
		if n > 2 {
			// as large as the numbers of a real group are
			for i := 0; i < n; i++ {
				v.Ks[i] = b.number(256)
				v.NTildej[i], v.H1j[i], v.H2j[i] = b.number(2048), b.number(2048), b.number(2048)
				v.PaillierPKs[i] = &paillier.PublicKey{N: b.number(2048)}
			}
			r.Count("group.big")
		}
		err = b.d.SaveEcKeygen(kt, work, somePids(n), &v)
		val = js(&v)
	} else {
		v := edkeygen.NewLocalPartySaveData(n)
		v.ShareID = partyKey(b.cnt)
		for i := 0; n > 2 && i < n; i++ {
			v.Ks[i] = b.number(253)
		}
		err = b.d.SaveEdKeygen(kt, work, somePids(n), &v)
		val = js(&v)
	}
	m.lastKey = r.S.Now()
	if err == nil {
		m.keys[kt] = append(m.keys[kt], kentry{val, false})
	} else {
		if b.clean() {
			b.fail("save-key", "saving a key share in a healthy database fails: %v", err)
		}
		m.keys[kt] = append(m.keys[kt], kentry{val, true})
	}
}

func (m *storeModel) savePres() {
	b, r := m.b, m.b.r
	b.cnt++
	work := fmt.Sprintf("presign%s-w%d", m.sfx, b.cnt)
	n := 1 + r.Pick("batch", 5)
	pids := somePids(1 + r.Pick("pids", 4))
	var ids, names []string
	for _, p := range pids {
		names = append(names, p.Id)
	}
	sort.Strings(names)
	var data []*ecsigning.SignatureData_OneRoundData
	for i := 0; i < n; i++ {
		d := b.presign()
		data = append(data, d)
		id := fmt.Sprintf("%s-%d", work, i)
		ids = append(ids, id)
		m.pres[id] = &pentry{val: js(d), pids: strings.Join(names, ","), status: map[string]bool{"not_used": true}, batch: len(m.batches)}
	}
	m.batches = append(m.batches, ids)
	err := b.d.SavePresignData(work, pids, data)
	if err != nil {
		if b.clean() {
			b.fail("save-presigns", "saving %d presignatures in a healthy database fails: %v", n, err)
		}
		for _, id := range ids {
			m.pres[id].maybe = true
		}
	}
}

// some draws ids, most of them known.
func (m *storeModel) some(max int) []string {
	r := m.b.r
	known := sortedKeys(m.pres)
	var l []string
	seen := map[string]bool{}
	for i := 0; i < 1+r.Pick("many", max); i++ {
		id := "unknown-0"
		if len(known) > 0 && !r.Chance("unknown", 0.05) {
			id = known[r.Pick("which", len(known))]
		}
		if !seen[id] {
			seen[id] = true
			l = append(l, id)
		}
	}
	return l
}

func (m *storeModel) use() {
	b := m.b
	ids := m.some(4)
	err := b.take(ids)
	allFree := true
	for _, id := range ids {
		p := m.pres[id]
		if p == nil || p.maybe || !p.status["not_used"] || len(p.status) > 1 {
			allFree = false
		}
		if p == nil {
			if err == nil {
				b.fail("used-unknown", "a presignature that was never saved was marked as used")
			}
			continue
		}
		if err == nil {
			if !p.status["not_used"] {
				b.fail("used-again", "presignature %s was marked as used again with success", id)
			}
			p.status = map[string]bool{"used": true}
			m.exists(p.batch)
		} else if p.status["not_used"] {
			p.status["used"] = true
		}
	}
	if err != nil && allFree && b.clean() {
		b.fail("cannot-use", "unused presignatures %v of a healthy database cannot be marked as used: %v", ids, err)
	}
}

// exists notes that a batch whose save had failed is there after all: then all of it is.
func (m *storeModel) exists(batch int) {
	for _, id := range m.batches[batch] {
		m.pres[id].maybe = false
	}
}

// gone notes that a batch whose save failed is not there: then none of it is.
func (m *storeModel) gone(batch int) {
	for _, id := range m.batches[batch] {
		delete(m.pres, id)
	}
}

func (m *storeModel) savePeers() {
	b, r := m.b, m.b.r
	var l []*p2ptypes.Peer
	for i := 0; i <= r.Pick("peers", 3); i++ {
		b.cnt++
		l = append(l, &p2ptypes.Peer{Address: fmt.Sprint("/ip4/10.0.0.", b.cnt), PubKey: fmt.Sprint("pub", b.cnt), PubKeyType: []string{"ed25519", "secp256k1"}[r.Pick("kt", 2)]})
	}
	err := b.d.SavePeers(l)
	for _, p := range l {
		s := js(p)
		if err == nil {
			m.peers[s] = "there"
		} else {
			m.peers[s] = fmt.Sprint("maybe", b.cnt)
		}
	}
	if err != nil && b.clean() {
		b.fail("save-peers", "saving peers in a healthy database fails: %v", err)
	}
}

// verify reads everything back.
func (m *storeModel) verify() {
	b, r := m.b, m.b.r
	if len(r.Viol) > 0 {
		return
	}
	clean := b.clean()
	if m.preOn {
		v, err := b.d.LoadPreparams()
		b.checked()
		got := ""
		if err == nil {
			got = js(v)
		}
		possible := false
		for _, p := range m.pre {
			possible = possible || p == got
		}
		switch {
		case err == nil || errors.Is(err, db.ErrNotFound):
			if !possible {
				b.fail("wrong-preparams", "pre-parameters are loaded that were not the last saved ones (nothing found: %v)", err != nil)
				return
			}
			m.pre = []string{got}
		case clean:
			b.fail("load-preparams", "pre-parameters cannot be loaded from a healthy database: %v", err)
			return
		}
	}
	for _, kt := range []string{"ecdsa" + m.sfx, "eddsa" + m.sfx} {
		var got string
		var err error
		if strings.HasPrefix(kt, "ec") {
			var v *eckeygen.LocalPartySaveData
			if v, err = b.d.LoadEcKeygen(kt); v != nil {
				got = js(v)
			}
		} else {
			var v *edkeygen.LocalPartySaveData
			if v, err = b.d.LoadEdKeygen(kt); v != nil {
				got = js(v)
			}
		}
		b.checked()
		if err != nil {
			if clean {
				b.fail("load-key", "a key share cannot be loaded from a healthy database: %v", err)
				return
			}
			continue
		}
		l := m.keys[kt]
		ok := false
		i := len(l) - 1
		for ; i >= 0; i-- {
			if l[i].val == got {
				ok = true
				break
			}
			if !l[i].maybe {
				break
			}
		}
		if i < 0 && got == "" {
			ok = true
		}
		if !ok {
			b.fail("wrong-key", "the %s share that is loaded (nothing: %v) is not the last saved one of %d", kt, got == "", len(l))
			return
		}
		if i >= 0 {
			m.keys[kt] = []kentry{{got, false}}
		} else {
			m.keys[kt] = nil
		}
	}
	// presignatures
	for k := 0; k < 2; k++ {
		ids := m.some(5)
		vals, err := b.d.LoadPresign(ids)
		b.checked()
		if m.judge("LoadPresign", ids, err, len(vals), clean, func(i int, p *pentry) string {
			if vals[i] == nil || js(vals[i]) != p.val {
				return "its data is not what was saved"
			}
			return ""
		}) {
			return
		}
		ids = m.some(5)
		st, err := b.d.LoadPresignStatus(ids)
		b.checked()
		if m.judge("LoadPresignStatus", ids, err, len(st), clean, func(i int, p *pentry) string {
			if !p.status[st[i]] {
				return fmt.Sprintf("its status is %q", st[i])
			}
			p.status = map[string]bool{st[i]: true}
			return ""
		}) {
			return
		}
	}
	ids, pids, err := b.d.GetAvailablePresignShortForm()
	b.checked()
	if err != nil {
		if clean {
			b.fail("short-form", "the available presignatures cannot be listed: %v", err)
			return
		}
	} else {
		if len(ids) != len(pids) {
			b.fail("short-form", "%d ids and %d party lists are returned", len(ids), len(pids))
			return
		}
		there := map[string]bool{}
		for i, id := range ids {
			if there[id] {
				b.fail("short-form", "%s is listed twice", id)
				return
			}
			there[id] = true
			p := m.pres[id]
			if p == nil {
				if m.sfx == "" && !strings.HasPrefix(id, "pool") && strings.HasPrefix(id, "presign-w") {
					b.fail("batch-partial", "%s is listed although it was not saved, or not all of its batch is there", id)
					return
				}
				continue
			}
			if !p.status["not_used"] {
				b.fail("used-listed", "%s is listed as available although it was used", id)
				return
			}
			if pids[i] != p.pids {
				b.fail("wrong-parties", "the parties of %s are given as %q, saved were %q", id, pids[i], p.pids)
				return
			}
			p.status = map[string]bool{"not_used": true}
			m.exists(p.batch)
		}
		for _, id := range sortedKeys(m.pres) {
			p := m.pres[id]
			if p == nil || there[id] || p.status["used"] {
				continue
			}
			if p.maybe {
				m.gone(p.batch)
				continue
			}
			b.fail("not-listed", "%s was saved and not used but is not listed as available", id)
			return
		}
	}
	if m.peerOn {
		got := map[string]bool{}
		for _, p := range b.d.LoadPeers() {
			if got[js(p)] {
				b.fail("peers", "a peer is loaded twice")
				return
			}
			got[js(p)] = true
		}
		b.checked()
		if len(got) == 0 && !clean {
			return // how this call tells of an error
		}
		groups := map[string]int{}
		for _, p := range sortedKeys(m.peers) {
			st := m.peers[p]
			if st == "there" && !got[p] {
				b.fail("peers", "a saved peer is not loaded (%d of %d are)", len(got), len(m.peers))
				return
			}
			if st != "there" {
				if groups[st] == 0 {
					groups[st] = 1
					if got[p] {
						groups[st] = 2
					}
				} else if (groups[st] == 2) != got[p] {
					b.fail("peers-partial", "only a part of the peers saved together is there")
					return
				}
			}
			delete(got, p)
		}
		if len(got) > 0 {
			b.fail("peers", "peers are loaded that were not saved")
		}
	}
}

// judge checks the answer of a load of presignatures by id.
func (m *storeModel) judge(what string, ids []string, err error, n int, clean bool, check func(i int, p *pentry) string) bool {
	b := m.b
	missing, maybe := false, false
	for _, id := range ids {
		p := m.pres[id]
		missing = missing || p == nil
		maybe = maybe || p != nil && p.maybe
	}
	if err != nil {
		if clean && !missing && !maybe {
			b.fail(what+"-error", "%s(%v) fails in a healthy database: %v", what, ids, err)
			return true
		}
		return false
	}
	if missing {
		b.fail(what+"-unknown", "%s(%v) succeeds although one of them does not exist", what, ids)
		return true
	}
	if n != len(ids) {
		b.fail(what+"-count", "%s returns %d entries for %d ids", what, n, len(ids))
		return true
	}
	for i, id := range ids {
		p := m.pres[id]
		if bad := check(i, p); bad != "" {
			b.fail(what+"-wrong", "%s(%v): entry %d: %s", what, ids, i, bad)
			return true
		}
		if p.maybe {
			m.exists(p.batch)
		}
	}
	return false
}

var pStorage = &Prof{Name: "storage", Main: storageMain}
