package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"

	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/server"
	htypes "github.com/sisu-network/dheart/types"
	common "github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	eckeygen "github.com/sisu-network/dheart/zzsim/tss/ecdsa/keygen"
	ecsigning "github.com/sisu-network/dheart/zzsim/tss/ecdsa/signing"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
	"github.com/sisu-network/dheart/zzsim/world"
)

// Cluster is a group of real dheart nodes, each with its own simulated Sisu, database and host.
type Cluster struct {
	r      *Run
	n, t   int
	kind   string
	mat    *Material
	keyMat *Material // of the group that has the earlier keys, when it is not everybody
	nodes  []*CNode
	reqs   []*Req
	hooks  []func(o *Obs) // called for every message a node hands to the network
	onRep  []func(n *CNode, rep *Report)
	byWork map[string]*Req

	// BootPeers: wait for Sisu readiness of these nodes only
	keys         map[string][]*keyRec // group keys by key type, oldest first
	fate         func(o *Obs) world.Action
	strictCrash  bool
	expectCrash  func(n *CNode, c rt.Crash) bool
	restartAfter time.Duration
	restartMax   int
	silent       bool
	sync         bool
	presig       map[string]*preRec
	lastDB       map[int]bool
	seq          int
	asked        map[string]bool // node and key of every re-send it requested
	rogues       map[int]bool    // validators that do not behave
}

// CNode is one dheart node of the cluster.
type CNode struct {
	c     *Cluster
	i     int
	val   *Val
	node  *rt.Node
	sisu  *rt.Node
	url   string
	rpc   *world.RPCServer
	store *world.Store
	cfg   config.HeartConfig

	api      server.Api
	initDone bool
	gen      int // number of boots
	pinged   int // boot that pinged last
	ready    int // boot that was made ready last
	keyErr   int
	noDB     bool // the database is unreachable since before the process was started
	noAuto   bool // Sisu does not set the key by itself
	eager    bool // Sisu does not wait for a ping before it sets the key
	crashes  int
	down     bool // kept down
	abrupt   bool
	frozen   time.Duration // how long the process was stalled altogether
	bootAt   time.Duration
	initAt   time.Duration
	calls    []*Call
	reports  []*Report
	subs     []*Sub
	pings    []time.Duration
	genCount int // pre-parameter generations
	preFail  int // pre-parameter generations that are to fail
	preSlow  time.Duration
	excl     *exclState
}

// Call is one API call.
type Call struct {
	N     *CNode
	Name  string
	Gen   int
	At    time.Duration
	End   time.Duration
	Done  bool
	Err   error
	Panic string
}

// Req is one client request, the same for all nodes.
type Req struct {
	Kind    string // eckg edkg ecsign edsign
	ID      string // work id
	Keygen  string
	Msgs    []*htypes.KeysignMessage
	Subs    map[int]*Sub
	N       int
	Leader  int
	Parties []int                                                      // validators that the client names
	raw     func(keys []htypes.PubKeyWrapper) func(a server.Api) error // how to submit it, when not as usual
	order   []int                                                      // as the client names them, when not in the order of their indexes
	dup     bool
	// observation
	exec    map[int]map[string]bool // node -> recipients of its broadcast round messages and itself
	execPre map[int][]string
	outcome []*Obs // outcome messages of the leader
	first   map[int]time.Duration
	upd     map[string]uint64
}

// Sub is one submission of a request to a node.
type Sub struct {
	Req      *Req
	N        *CNode
	Gen      int
	At       time.Duration
	Call     *Call
	Dups     []*Call
	Vary     []*Call // other requests under the same work id
	Reports  []*Report
	FirstMsg time.Duration // first own message of the work
	Bound    time.Duration
}

func (s *Sub) Accepted() bool {
	if s.Call.Done && s.Call.Err == nil {
		return true
	}
	for _, d := range s.Dups {
		if d.Done && d.Err == nil {
			return true
		}
	}
	return false
}

// Refused reports whether every attempt to submit it was refused.
func (s *Sub) Refused() bool {
	if !s.Call.Done || s.Call.Err == nil {
		return false
	}
	for _, d := range s.Dups {
		if !d.Done || d.Err == nil {
			return false
		}
	}
	return true
}

// Alive reports whether the process that took the submission still runs.
func (s *Sub) Alive() bool { return !s.N.node.Dead && s.N.gen == s.Gen }

// Report is one result a node posted to its Sisu.
type Report struct {
	N       *CNode
	Sub     *Sub
	At      time.Duration
	Gen     int
	Kind    string // keygen keysign
	KeyType string
	Outcome int
	PubKey  []byte
	Sigs    [][]byte
	HasReq  bool
	Req     *htypes.KeysignRequest
	Err     string
}

// Obs is one message on the wire.
type Obs struct {
	From, To int // validator index, -1 for others
	Peer     peer.ID
	Msg      *common.TssMessage
	Signed   *common.SignedMessage
	At       time.Duration
	Own      bool // sent by the node in whose name it speaks
	Req      *Req
}

func newCluster(r *Run, mat *Material) *Cluster {
	c := &Cluster{r: r, n: mat.N, t: threshold(mat.N), mat: mat, byWork: map[string]*Req{}, restartAfter: 3 * time.Second,
		restartMax: 5, presig: map[string]*preRec{}, rogues: map[int]bool{}, keys: map[string][]*keyRec{}, asked: map[string]bool{}}
	c.kind = mat.Vals[0].Type
	net := r.W.Net
	idx := map[peer.ID]int{}
	for i, v := range mat.Vals {
		idx[v.Peer] = i
	}
	net.Tap = func(from, to peer.ID, p protocol.ID, frame []byte) { c.tap(idx, from, to, frame) }
	net.Filter = func(from, to peer.ID, p protocol.ID, frame []byte) world.Action {
		if c.fate == nil {
			return world.Action{}
		}
		o := c.parse(idx, from, to, frame)
		if o == nil {
			return world.Action{}
		}
		return c.fate(o)
	}
	for i := 0; i < c.n; i++ {
		c.addNode(i)
	}
	r.S.OnCrash = func(cr rt.Crash) {
		n, ok := cr.Node.Data.(*CNode)
		if !ok {
			r.Fail("HARNESS", "harness-crash", "harness goroutine crashed: %s at %s", cr.Val, rt.CrashSite(cr.Stack))
			return
		}
		c.crashed(n, cr)
	}
	eckeygen.PreParamsHook = func(timeout time.Duration) (*eckeygen.LocalPreParams, error) {
		n := rt.Cur().Node.Data.(*CNode)
		d := n.preSlow
		rt.Sleep(d)
		if n.preFail > 0 {
			n.preFail--
			return nil, fmt.Errorf("timeout or error while generating the safe primes")
		}
		n.genCount++
		return preparams(n.i), nil
	}
	return c
}

var aesKey = sha256.Sum256([]byte("dheart aes key"))

func (c *Cluster) addNode(i int) {
	r := c.r
	n := &CNode{c: c, i: i, val: c.mat.Vals[i], node: r.S.NewNode(fmt.Sprint("n", i)), sisu: r.S.NewNode(fmt.Sprint("sisu", i)),
		url: fmt.Sprintf("http://sisu%d:25456", i), preSlow: 20 * time.Second}
	n.node.Data = n
	n.store = r.W.Store(fmt.Sprintf("db%d:3306", i))
	var peers []*p2ptypes.Peer
	for j, v := range c.mat.Vals {
		if j != i {
			peers = append(peers, &p2ptypes.Peer{Address: fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300/p2p/%s", j+1, v.ID),
				PubKey: hex.EncodeToString(v.Pub.Bytes()), PubKeyType: v.Type})
		}
	}
	n.cfg = config.HeartConfig{
		HomeDir: "/nowhere", SisuServerUrl: n.url, Port: 5678, AesKey: aesKey[:],
		Db:         config.DbConfig{Host: fmt.Sprintf("db%d", i), Port: 3306, Username: "root", Password: "password", Schema: "dheart"},
		Connection: p2ptypes.ConnectionsConfig{Host: fmt.Sprintf("10.0.0.%d", i+1), Port: 28300, Rendezvous: "rendezvous", Peers: peers},
	}
	n.rpc = r.W.RPC.Serve(n.url, n.sisu, n.handle)
	c.nodes = append(c.nodes, n)
}

func seal(plain []byte, rnd []byte) string {
	b, _ := aes.NewCipher(aesKey[:])
	g, _ := cipher.NewGCM(b)
	nonce := rnd[:g.NonceSize()]
	return hex.EncodeToString(g.Seal(append([]byte(nil), nonce...), nonce, plain, nil))
}

// ---------------------------------------------------------------------------- life cycle

// boot starts a process for the node; the node's Sisu then gives it its key and makes it ready.
func (n *CNode) boot() {
	if n.gen > 0 && !n.node.Dead {
		return // already restarted by something else
	}
	n.c.r.S.Revive(n.node)
	n.gen++
	n.initDone, n.api = false, nil
	gen := n.gen
	n.bootAt = n.c.r.S.Now()
	n.c.r.Event(n.node.Name, "boot")
	n.c.r.S.Spawn(n.node, func() {
		cl := client.NewClient(n.url)
		api := server.GetApi(n.cfg, cl)
		api.Init()
		n.api = api
		n.initDone = true
		n.initAt = n.c.r.S.Now()
		rt.Go(cl.TryDial)
	})
	if n.noAuto {
		return
	}
	n.c.r.S.Spawn(n.sisu, func() {
		for n.gen == gen && !n.node.Dead {
			if (n.pinged == gen || n.eager) && n.initDone {
				k := n.call("SetPrivKey", func(a server.Api) error {
					return a.SetPrivKey(seal(n.val.Priv.Bytes(), n.c.r.Rng.Bytes(12)), n.val.Type)
				})
				for !k.Done && n.gen == gen && !n.node.Dead {
					rt.Sleep(300 * time.Millisecond)
				}
				if k.Done && k.Err == nil {
					k = n.call("SetSisuReady", func(a server.Api) error { a.SetSisuReady(true); return nil })
					for !k.Done && n.gen == gen && !n.node.Dead {
						rt.Sleep(100 * time.Millisecond)
					}
					if k.Done && k.Err == nil {
						n.ready = gen
					}
					return
				}
				n.keyErr++
				rt.Sleep(2 * time.Second)
			}
			rt.Sleep(300 * time.Millisecond)
		}
	})
}

// up reports whether the node's process runs and serves requests.
func (n *CNode) up() bool { return !n.node.Dead && n.initDone && n.ready == n.gen }

// kill ends the process; only its database survives.
func (n *CNode) kill(why string) {
	if n.node.Dead {
		return
	}
	n.c.r.S.Kill(n.node)
	n.c.r.W.Count("crash." + why)
	n.died()
}

func (n *CNode) died() {
	n.c.r.Event(n.node.Name, "death")
	n.c.r.W.NodeDied()
	n.c.r.W.Net.HostDied(n.val.Peer, n.abrupt)
	n.c.nodeDied(n)
}

// crashed is told that a goroutine of the node panicked.
func (c *Cluster) crashed(n *CNode, cr rt.Crash) {
	n.crashes++
	n.died()
	site := rt.CrashSite(cr.Stack)
	if !n.initDone {
		c.r.Count("boot_failstop")
		if n.noDB {
			c.r.Fail("C08", "gives-up-without-database", "node %d, whose database is unreachable since it was started, gives up %.1fs after its start: %s at %s", n.i,
				(c.r.S.Now() - n.bootAt).Seconds(), cr.Val, site)
		}
	} else if c.expectCrash == nil || !c.expectCrash(n, cr) {
		for _, p := range crashProps {
			c.r.Fail(p, "crash@"+siteFunc(site), "the process of node %d died: %s at %s", n.i, cr.Val, site)
		}
	}
	if n.down || n.crashes > c.restartMax {
		return
	}
	c.r.S.At(c.restartAfter, func() {
		if !n.down && n.node.Dead {
			n.boot()
		}
	})
}

// properties for which a process that dies unexpectedly is a violation
var crashProps = []string{"C03", "C04", "C05", "C06", "C10", "C15", "C17", "C18", "C20", "C22", "C08"}

// call performs an API call on its own goroutine of the node, like the RPC server does.
func (n *CNode) call(name string, f func(api server.Api) error) *Call {
	k := &Call{N: n, Name: name, Gen: n.gen, At: n.c.r.S.Now()}
	n.calls = append(n.calls, k)
	fin := func(err error) {
		k.Done, k.Err, k.End = true, err, n.c.r.S.Now()
		n.c.r.S.Logf("n%d %s -> %v", n.i, name, err)
	}
	if n.node.Dead || !n.initDone {
		fin(fmt.Errorf("connection refused"))
		return k
	}
	api := n.api
	n.c.r.S.Logf("n%d %s called", n.i, name)
	n.c.r.Event(n.node.Name, name)
	g := n.c.r.S.Spawn(n.node, func() { fin(f(api)) })
	if g != nil {
		g.OnPanic = func(v interface{}, stack string) { // the RPC server turns a panicking handler into an error
			k.Panic = fmt.Sprint(v) + " at " + rt.CrashSite(stack)
			fin(fmt.Errorf("method handler crashed"))
			n.c.r.Event(n.node.Name, "apipanic")
		}
	}
	return k
}

// start boots every node and waits until all are ready.
func (c *Cluster) start() bool {
	for _, n := range c.nodes {
		if !n.down {
			n.boot()
		}
	}
	ok := c.r.Until(400*time.Second, func() bool { return c.allUp() })
	if !ok {
		c.r.Count("not_started")
	}
	return ok
}

func (c *Cluster) allUp() bool {
	for _, n := range c.nodes {
		if !n.down && !n.up() {
			return false
		}
	}
	return true
}

// prefill writes the state of an earlier life of the group into the databases.
func (c *Cluster) prefill(ec, ed bool, presign func(i int, d db.Database)) {
	c.r.W.Net.Quiet = true
	done := 0
	k := c.mat
	if c.keyMat != nil {
		k = c.keyMat
	}
	for _, n := range c.nodes {
		n := n
		c.r.S.Spawn(n.node, func() {
			cfg := n.cfg.Db
			d := db.NewDatabase(&cfg)
			check := func(err error) {
				if err != nil {
					panic(fmt.Sprint("prefill: ", err))
				}
			}
			check(d.Init())
			check(d.SavePreparams(preparams(n.i)))
			pids, _ := k.pids(all(k.N))
			if ec && n.i < k.N {
				check(d.SaveEcKeygen("ecdsa", "keygen-earlier-ec", pids, k.Ec[n.i]))
			}
			if ed && n.i < k.N {
				check(d.SaveEdKeygen("eddsa", "keygen-earlier-ed", pids, k.Ed[n.i]))
			}
			if presign != nil {
				presign(n.i, d)
			}
			d.Close()
			done++
		})
	}
	c.r.Until(60*time.Second, func() bool { return done == c.n })
	if done != c.n {
		c.r.Fail("HARNESS", "prefill", "prefill did not finish")
	}
	for _, n := range c.nodes {
		c.r.S.Kill(n.node)
	}
	c.r.W.NodeDied()
	if ec {
		p := k.Ec[0].ECDSAPub
		c.addKey("ecdsa", ecPubBytes(p.X(), p.Y()), "", -1)
	}
	if ed {
		p := k.Ed[0].EDDSAPub
		c.addKey("eddsa", edPubBytes(p.X(), p.Y()), "", -1)
	}
	c.r.W.Net.Quiet = false
}

// ---------------------------------------------------------------------------- requests

// pubKeys lists the validators that the client names in the request.
func (c *Cluster) pubKeys(q *Req) []htypes.PubKeyWrapper {
	var l []htypes.PubKeyWrapper
	order := q.order
	if order == nil {
		order = q.Parties
	}
	for _, i := range order {
		v := c.mat.Vals[i]
		l = append(l, htypes.PubKeyWrapper{KeyType: v.Type, Key: append([]byte(nil), v.Pub.Bytes()...)})
	}
	return l
}

func workIDOf(msgs []*htypes.KeysignMessage) string {
	w := ""
	for _, m := range msgs {
		w = hex.EncodeToString(crypto.Keccak256([]byte(w + m.Id)))[:32]
	}
	return w
}

// keygenID makes the id of a key generation, which the client chooses freely.
func (c *Cluster) keygenID(kind string, n int) string {
	plain := fmt.Sprintf("keygen-%s-%d", kind, n)
	if !c.r.Chance("kgid", 0.4) {
		return plain
	}
	c.r.Count("unusual keygen ids")
	switch c.r.Pick("kgform", 8) {
	case 0:
		return fmt.Sprintf("keygen__%s__%d", kind, n)
	case 1:
		return fmt.Sprintf("%d__", n)
	case 2:
		return fmt.Sprintf("__%d_", n)
	case 3:
		return fmt.Sprintf("%d___", n)
	case 4:
		return fmt.Sprintf("<%d>&\"%s\"\u2028\u00e9 %%s", n, kind)
	case 5:
		return fmt.Sprintf("%d%s", n, strings.Repeat("x", 240))
	case 6:
		return fmt.Sprintf("w__%s__%s__KGRound1Message-%d", c.nodes[0].val.ID, c.nodes[c.n-1].val.ID, n)
	default:
		return fmt.Sprintf("%d", n)
	}
}

func (c *Cluster) newReq(kind string, msgs [][]byte) *Req { return c.newReqFor(kind, msgs, all(c.n)) }

// quorum is how many of the named validators a request needs.
func (q *Req) quorum() int { return threshold(len(q.Parties)) + 1 }

func (q *Req) names(i int) bool {
	for _, k := range q.Parties {
		if k == i {
			return true
		}
	}
	return false
}

// newReqFor makes a request that names the given validators.
func (c *Cluster) newReqFor(kind string, msgs [][]byte, parties []int) *Req {
	q := &Req{Kind: kind, Subs: map[int]*Sub{}, N: c.seq, Leader: -1, Parties: parties, exec: map[int]map[string]bool{}, execPre: map[int][]string{},
		first: map[int]time.Duration{}, upd: map[string]uint64{}}
	if kind == "eckg" || kind == "edkg" {
		q.Keygen = c.keygenID(kind, q.N)
		q.ID = q.Keygen
	} else {
		for j, m := range msgs {
			q.Msgs = append(q.Msgs, &htypes.KeysignMessage{Id: fmt.Sprintf("msg-%d-%d-%d", c.r.Seed, q.N, j), InChain: "sisu", OutChain: "ganache1",
				OutHash: hex.EncodeToString(sum32(m)), Bytes: m, BytesToSign: m})
		}
		c.overlap(q)
		q.ID = workIDOf(q.Msgs)
	}
	pids, by := c.mat.pids(q.Parties)
	q.Leader = by[worker.ChooseLeader(q.ID, pids).Id]
	c.seq++
	c.reqs = append(c.reqs, q)
	c.byWork[q.ID] = q
	return q
}

// overlap makes some requests share a message with an earlier one, or sign the same messages in another order: they
// are different works all the same.
func (c *Cluster) overlap(q *Req) {
	r := c.r
	var l []*Req
	for _, o := range c.reqs {
		if o.Kind == q.Kind && len(o.Msgs) > 0 {
			l = append(l, o)
		}
	}
	if len(l) == 0 || !r.Chance("overlap", 0.2) {
		return
	}
	o := l[r.Pick("overlapwith", len(l))]
	was := q.Msgs
	switch n := len(q.Msgs); {
	case len(o.Msgs) == n && n > 1 && r.Chance("reversed", 0.3):
		q.Msgs = nil
		for i := range o.Msgs {
			q.Msgs = append(q.Msgs, o.Msgs[n-1-i])
		}
	case n > 1 || len(o.Msgs) > 1:
		q.Msgs = append(was[:0:0], was...)
		q.Msgs[[]int{0, n - 1}[r.Pick("overlapat", 2)]] = o.Msgs[[]int{0, len(o.Msgs) - 1}[r.Pick("overlapfrom", 2)]]
	default:
		return
	}
	if c.byWork[workIDOf(q.Msgs)] != nil {
		q.Msgs = was
		return
	}
	r.Count("overlapping requests")
}

// renamed registers a request whose ids were changed.
func (c *Cluster) renamed(q *Req) {
	delete(c.byWork, q.ID)
	if q.isKeygen() {
		q.ID = q.Keygen
	} else {
		q.ID = workIDOf(q.Msgs)
	}
	pids, by := c.mat.pids(q.Parties)
	q.Leader = by[worker.ChooseLeader(q.ID, pids).Id]
	c.byWork[q.ID] = q
}

func sum32(b []byte) []byte { s := sha256.Sum256(b); return s[:] }

func (q *Req) isKeygen() bool { return q.Kind == "eckg" || q.Kind == "edkg" }
func (q *Req) keyType() string {
	if q.Kind == "eckg" || q.Kind == "ecsign" {
		return "ecdsa"
	}
	return "eddsa"
}

// wire returns a private copy of the request, as the RPC codec would produce.
func (q *Req) wire() *htypes.KeysignRequest {
	bz, _ := json.Marshal(&htypes.KeysignRequest{KeyType: q.keyType(), KeysignMessages: q.Msgs})
	r := &htypes.KeysignRequest{}
	json.Unmarshal(bz, r)
	return r
}

// submit hands the request to a node; repeated submissions count as duplicates.
func (c *Cluster) submit(n *CNode, q *Req) *Call {
	var k *Call
	keys := c.pubKeys(q)
	if q.raw != nil {
		k = n.call("odd", q.raw(keys))
	} else if q.isKeygen() {
		k = n.call("KeyGen", func(a server.Api) error { return a.KeyGen(q.Keygen, q.keyType(), keys) })
	} else {
		k = n.call("KeySign", func(a server.Api) error { return a.KeySign(q.wire(), keys) })
	}
	if s := q.Subs[n.i]; s != nil && s.Gen == n.gen {
		s.Dups = append(s.Dups, k)
		return k
	}
	s := &Sub{Req: q, N: n, Gen: n.gen, At: c.r.S.Now(), Call: k}
	q.Subs[n.i] = s
	n.subs = append(n.subs, s)
	c.r.Count("submissions")
	return k
}

// vary submits another request that has the work id of one that the node accepted and did not answer yet.
func (c *Cluster) vary(n *CNode, q *Req) {
	r := c.r
	s := q.Subs[n.i]
	if s == nil || s.Gen != n.gen || !s.Alive() || !s.Call.Done || s.Call.Err != nil || len(s.Reports) > 0 {
		return
	}
	other := map[string]string{"ecdsa": "eddsa", "eddsa": "ecdsa"}[q.keyType()]
	keys := c.pubKeys(q)
	var k *Call
	fewer := len(keys) > 2 && r.Chance("varyparties", 0.35)
	if fewer { // the same work among other parties
		i := r.Pick("varyparty", len(keys))
		if r.Chance("varyswap", 0.4) {
			v := newVal(66, c.kind)
			keys[i] = htypes.PubKeyWrapper{KeyType: v.Type, Key: append([]byte(nil), v.Pub.Bytes()...)}
		} else {
			keys = append(append(keys[:0:0], keys[:i]...), keys[i+1:]...)
		}
		other = q.keyType()
	}
	if q.isKeygen() {
		k = n.call("KeyGen", func(a server.Api) error { return a.KeyGen(q.Keygen, other, keys) })
	} else {
		w := q.wire()
		if fewer {
		} else if r.Chance("varytype", 0.3) {
			w.KeyType = other
		} else {
			m := w.KeysignMessages[r.Pick("varymsg", len(w.KeysignMessages))]
			m.BytesToSign = append([]byte{1}, m.BytesToSign...)
		}
		k = n.call("KeySign", func(a server.Api) error { return a.KeySign(w, keys) })
	}
	s.Vary = append(s.Vary, k)
	r.Count("conflicting submissions")
	r.S.Spawn(r.S.Root(), func() {
		r.Until(200*time.Second, func() bool { return k.Done || !s.Alive() })
		if k.Done && k.Err == nil && s.Alive() {
			c.varied(s, k)
		}
	})
}

// varied is called when a request was accepted whose work id another one has.
func (c *Cluster) varied(s *Sub, k *Call) {
	if len(s.Reports) == 0 || k.End < s.Reports[0].At {
		c.r.Fail("C03", "accepted-conflict", "node %d accepted a different request that has the work id of request %d, which it had not answered: it can only answer one of them",
			s.N.i, s.Req.N)
		return
	}
	c.r.mute = true // a second work with the same id may be running now
}

// submitAll hands the request to the given nodes within the spread.
func (c *Cluster) submitAll(q *Req, nodes []int, spread time.Duration) {
	for _, i := range nodes {
		n := c.nodes[i]
		d := time.Duration(0)
		if spread > 0 {
			d = spread * time.Duration(c.r.Pick("skew", 64)) / 64
		}
		c.after(d, func() { c.submit(n, q) })
	}
}

// after runs f on a harness goroutine.
func (c *Cluster) after(d time.Duration, f func()) {
	if d <= 0 {
		f()
		return
	}
	c.r.S.At(d, func() { c.r.S.Spawn(c.r.S.Root(), f) })
}

// ---------------------------------------------------------------------------- Sisu

func (n *CNode) handle(method string, params []json.RawMessage) (interface{}, error) {
	switch method {
	case "tss_ping":
		n.pings = append(n.pings, n.c.r.S.Now())
		n.pinged = n.gen
		n.c.r.Event(n.node.Name, "ping")
		return nil, nil
	case "tss_keygenResult":
		var v struct {
			KeyType     string
			PubKeyBytes []byte
			Outcome     int
		}
		if err := json.Unmarshal(params[0], &v); err != nil {
			return nil, err
		}
		n.c.report(&Report{N: n, Kind: "keygen", KeyType: v.KeyType, Outcome: v.Outcome, PubKey: v.PubKeyBytes})
		return nil, nil
	case "tss_keysignResult":
		var v struct {
			Outcome    int
			Request    *htypes.KeysignRequest
			ErrMesage  string
			Signatures [][]byte
		}
		if err := json.Unmarshal(params[0], &v); err != nil {
			return nil, err
		}
		n.c.report(&Report{N: n, Kind: "keysign", Outcome: v.Outcome, Req: v.Request, HasReq: v.Request != nil, Sigs: v.Signatures, Err: v.ErrMesage})
		return nil, nil
	}
	return nil, fmt.Errorf("the method %s does not exist/is not available", method)
}

func sameIDs(a, b []*htypes.KeysignMessage) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || a[i].Id != b[i].Id {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------- wire

func (c *Cluster) parse(idx map[peer.ID]int, from, to peer.ID, frame []byte) *Obs {
	sm := &common.SignedMessage{}
	if err := json.Unmarshal(frame, sm); err != nil || sm.TssMessage == nil {
		return nil
	}
	o := &Obs{From: -1, To: -1, Peer: to, Msg: sm.TssMessage, Signed: sm, At: c.r.S.Now()}
	if i, ok := idx[from]; ok {
		o.From = i
		o.Own = sm.TssMessage.From == c.mat.Vals[i].ID
	}
	if i, ok := idx[to]; ok {
		o.To = i
	}
	o.Req = c.byWork[sm.TssMessage.WorkId]
	return o
}

var msgNames = map[common.TssMessage_Type]string{
	common.TssMessage_UPDATE_MESSAGES: "update", common.TssMessage_AVAILABILITY_REQUEST: "availreq", common.TssMessage_AVAILABILITY_RESPONSE: "availresp",
	common.TssMessage_PRE_EXEC_OUTPUT: "outcome", common.TssMessage_ASK_MESSAGE_REQUEST: "ask",
}

func round(m *common.TssMessage) string {
	if len(m.UpdateMessages) == 0 || m.UpdateMessages[0] == nil {
		return ""
	}
	s := m.UpdateMessages[0].Round
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}

func (c *Cluster) tap(idx map[peer.ID]int, from, to peer.ID, frame []byte) {
	if c.r.S.Runaway != "" {
		return
	}
	o := c.parse(idx, from, to, frame)
	if o == nil || o.From < 0 {
		return
	}
	if h := c.r.W.Net.HostOf(from); h != nil && h.Raw {
		return // a hostile peer using a member's identity
	}
	if c.rogues[o.From] {
		return
	}
	name := msgNames[o.Msg.Type]
	if c.r.S.Cfg.KeepLog {
		c.r.S.Logf("n%d => %s %s work=%.8s to=%.6s %s own=%v", o.From, c.r.who(o.Peer), name, o.Msg.WorkId, tailOf(o.Msg.To), round(o.Msg), o.Own)
	}
	c.r.Event(c.nodes[o.From].node.Name, name+round(o.Msg))
	c.r.Count("msg." + name)
	c.observe(o)
	for _, h := range c.hooks {
		h(o)
	}
}

func tailOf(s string) string {
	if len(s) > 6 {
		return s[len(s)-6:]
	}
	return s
}

func (r *Run) who(p peer.ID) string {
	if h := r.W.Net.HostOf(p); h != nil {
		return h.Name()
	}
	return "?"
}

// digest of the protocol payload of an update message
func payloadHash(m *common.TssMessage) uint64 {
	var b bytes.Buffer
	for _, u := range m.UpdateMessages {
		if u != nil {
			b.Write(u.Data)
		}
		b.WriteByte(0)
	}
	return rt.HashString(b.String())
}

func (n *CNode) idx(id string) int {
	for i, v := range n.c.mat.Vals {
		if v.ID == id {
			return i
		}
	}
	return -1
}

var _ = ecsigning.SignatureData_OneRoundData{}
var _ = tss.SortPartyIDs
