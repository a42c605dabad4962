// Package rt is the simulator runtime: a deterministic scheduler for goroutines, virtual time,
// channels, locks, map iteration and named streams of seeded decisions. The code under test is
// source-transformed so that it calls this package instead of the Go runtime.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------------- decisions

// Decision is one recorded non-default choice.
type Decision struct {
	S string `json:"s"` // stream
	I int    `json:"i"` // index in the stream
	V int    `json:"v"` // value (0 is the default and never recorded)
}

type stream struct {
	state uint64
	idx   int
	over  map[int]int
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(seed uint64, s string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return mix(h)
}

func (st *stream) next() uint64 {
	st.state += 0x9e3779b97f4a7c15
	return mix(st.state)
}

// ---------------------------------------------------------------------------------- nodes, Gs

type Node struct {
	Name   string
	ID     int
	Gen    int
	Dead   bool
	Offset time.Duration // wall clock skew
	Data   interface{}

	gs       []*G // live goroutines in creation order
	spawned  int
	slots    int
	stallTil time.Duration
	stallQ   []*G
}

type G struct {
	id     int
	Node   *Node
	name   string
	kids   int
	wake   chan struct{}
	done   chan struct{}
	dead   bool
	exited bool
	y      int // countdown to the next slow yield
	yAt    int // yields consumed so far at the next slow yield
	ySt    *stream
	yOver  []Decision
	yAct   bool // the next slow yield is a recorded action

	ready bool
	sel   *selWait
	// lock diagnostics
	waitKind  string
	waitSince time.Duration
	waitPC    [12]uintptr
	waitN     int
	waitObj   interface{}

	slot    int
	vc      []uint32
	OnPanic func(v interface{}, stack string)
	Tag     string
}

// ---------------------------------------------------------------------------------- simulation

type Config struct {
	Seed        uint64
	Replay      bool       // use Over instead of drawing
	Over        []Decision // overrides for replay
	PSched      float64    // probability that the scheduler does not take the queue head
	SyncWeight  int        // a synchronisation operation counts for so many statements
	PreemptMean int        // mean number of statements between forced yields (0 = never)
	Focus       uint64     // if not 0: preempt often at one class of call sites of synchronisation operations
	PStall      float64    // share of forced yields that stall the goroutine for a while
	StallMax    time.Duration
	PSelect     float64
	PMap        float64
	Race        bool
	MaxSteps    int64 // cap on scheduler switches plus yields/64
	Trace       bool
	KeepLog     bool
}

type Crash struct {
	Node  *Node
	Gen   int
	Val   string
	Stack string
	At    time.Duration
}

type Race struct {
	Node     string
	A, B     string // sites
	AOp, BOp string
	At       time.Duration
}

type Sim struct {
	Cfg      Config
	now      time.Duration
	seq      uint64
	gid      int
	runq     []*G
	tm       timerHeap
	strs     map[string]*stream
	sched    *stream
	Decs     []Decision
	over     map[string]map[int]int
	yover    map[string][]Decision
	nodes    []*Node
	root     *Node
	evG      *G
	main     *G
	mainDone chan struct{}
	ended    bool

	chans map[uintptrKey]*chanState
	maps  map[uintptrKey]*mapState
	atoms map[uintptrKey]*hb
	races map[string]bool
	Races []Race

	Switches, Yields, Steps, Preempts, Stalls, Spawned, Timers int64
	MapShuffles                                                int64
	SelectChoices, SchedChoices                                int64
	hash                                                       uint64
	stateHash                                                  map[uint64]struct{}
	Log                                                        []string
	Crashes                                                    []Crash
	OnCrash                                                    func(c Crash)
	Runaway                                                    string
	lastAdv                                                    int64 // step count at last virtual time advance
	Err                                                        string
	lockWaits                                                  int64
}

var S *Sim
var cur *G

// Cur returns the running goroutine (nil outside a run).
func Cur() *G { return cur }

// Active reports whether code runs inside a simulation.
func Active() bool { return cur != nil }

func New(cfg Config) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4000000
	}
	if cfg.SyncWeight < 1 {
		cfg.SyncWeight = 1
	}
	s := &Sim{Cfg: cfg, strs: map[string]*stream{}, over: map[string]map[int]int{}, yover: map[string][]Decision{},
		chans: map[uintptrKey]*chanState{}, maps: map[uintptrKey]*mapState{}, atoms: map[uintptrKey]*hb{},
		races: map[string]bool{}, stateHash: map[uint64]struct{}{}, mainDone: make(chan struct{})}
	for _, d := range cfg.Over {
		if strings.HasPrefix(d.S, "y:") {
			s.yover[d.S[2:]] = append(s.yover[d.S[2:]], d)
			continue
		}
		m := s.over[d.S]
		if m == nil {
			m = map[int]int{}
			s.over[d.S] = m
		}
		m[d.I] = d.V
	}
	s.sched = s.stream("sched")
	s.root = s.NewNode("harness")
	s.evG = &G{id: -1, Node: s.root, name: "ev", y: 1 << 60}
	return s
}

func (s *Sim) NewNode(name string) *Node {
	n := &Node{Name: name, ID: len(s.nodes)}
	s.nodes = append(s.nodes, n)
	return n
}

func (s *Sim) Root() *Node { return s.root }

func (s *Sim) stream(name string) *stream {
	st := s.strs[name]
	if st == nil {
		st = &stream{state: hashStr(s.Cfg.Seed, name), over: s.over[name]}
		s.strs[name] = st
	}
	return st
}

func (s *Sim) dec(st *stream, name string, n int, p float64) int {
	st.idx++
	if s.Cfg.Replay {
		v := st.over[st.idx]
		if v <= 0 {
			return 0
		}
		if v >= n {
			v = 1 + (v-1)%(n-1)
		}
		return v
	}
	if n <= 1 || p <= 0 {
		return 0
	}
	r := st.next()
	if float64(r>>11)/(1<<53) >= p {
		return 0
	}
	v := 1 + int(st.next()%uint64(n-1))
	s.Decs = append(s.Decs, Decision{name, st.idx, v})
	return v
}

// Decide returns a value in [0,n): non-zero with probability p.
func (s *Sim) Decide(name string, n int, p float64) int {
	if n <= 1 {
		return 0
	}
	return s.dec(s.stream(name), name, n, p)
}

// Chance is Decide with a boolean outcome.
func (s *Sim) Chance(name string, p float64) bool { return s.Decide(name, 2, p) == 1 }

// ---------------------------------------------------------------------------------- time

type timer struct {
	at   time.Duration
	seq  uint64
	f    func()
	vc   []uint32
	node *Node
	idx  int
	off  bool
}

type timerHeap []*timer

func (h timerHeap) less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h *timerHeap) push(t *timer) {
	*h = append(*h, t)
	i := len(*h) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			break
		}
		(*h)[i], (*h)[p] = (*h)[p], (*h)[i]
		i = p
	}
}
func (h *timerHeap) pop() *timer {
	t := (*h)[0]
	n := len(*h) - 1
	(*h)[0] = (*h)[n]
	(*h)[n] = nil
	*h = (*h)[:n]
	i := 0
	for {
		l := 2*i + 1
		if l >= n {
			break
		}
		if l+1 < n && h.less(l+1, l) {
			l++
		}
		if !h.less(l, i) {
			break
		}
		(*h)[i], (*h)[l] = (*h)[l], (*h)[i]
		i = l
	}
	return t
}

// Base is the wall clock time at the start of a run.
var Base = time.Date(2022, 10, 1, 0, 0, 0, 0, time.UTC)

func (s *Sim) Now() time.Duration { return s.now }

// WallNow is what time.Now returns to the running goroutine.
func WallNow() time.Time {
	if cur == nil {
		return time.Now()
	}
	return Base.Add(S.now + cur.Node.Offset)
}

// Timer handle.
type Timer struct{ t *timer }

// Stop cancels; reports whether it had not fired.
func (t Timer) Stop() bool {
	if t.t == nil || t.t.off {
		return false
	}
	t.t.off = true
	t.t.f = nil
	return true
}

// At schedules an event callback (runs on the scheduler, must not block).
func (s *Sim) At(d time.Duration, f func()) Timer { return s.after(d, nil, f) }

func (s *Sim) after(d time.Duration, node *Node, f func()) Timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, f: f, node: node}
	if s.Cfg.Race && cur != nil && cur != s.evG {
		t.vc = cur.snap()
	}
	s.tm.push(t)
	return Timer{t}
}

// AfterNode schedules an event that dies with the current node.
func AfterNode(d time.Duration, f func()) Timer {
	if cur == nil || cur.dead {
		return Timer{}
	}
	gen := cur.Node.Gen
	n := cur.Node
	return S.after(d, n, func() {
		if n.Gen == gen && !n.Dead {
			f()
		}
	})
}

func (s *Sim) fire(t *timer) {
	if t.off {
		return
	}
	t.off = true
	s.Timers++
	save := cur
	cur = s.evG
	s.evG.vc = t.vc
	if t.node != nil {
		s.evG.Node = t.node
	} else {
		s.evG.Node = s.root
	}
	t.f()
	s.evG.Node = s.root
	cur = save
}

// Sleep blocks the current goroutine for d of virtual time.
func Sleep(d time.Duration) {
	g := cur
	if g == nil {
		return
	}
	s := S
	if g.dead {
		runtime.Goexit()
	}
	if d <= 0 {
		s.yield(g)
		return
	}
	s.after(d, nil, func() { s.Ready(g) })
	g.waitKind = "sleep"
	s.park(g)
}

// ---------------------------------------------------------------------------------- scheduling

// Ready makes a parked goroutine runnable.
func (s *Sim) Ready(g *G) {
	if g.dead || g.exited || g.ready {
		return
	}
	g.ready = true
	if g.Node.stallTil > s.now {
		g.Node.stallQ = append(g.Node.stallQ, g)
		return
	}
	s.runq = append(s.runq, g)
}

// StallNode freezes all goroutines of a node for d.
func (s *Sim) StallNode(n *Node, d time.Duration) {
	til := s.now + d
	if til <= n.stallTil {
		return
	}
	n.stallTil = til
	keep := s.runq[:0]
	for _, g := range s.runq {
		if g.Node == n {
			n.stallQ = append(n.stallQ, g)
		} else {
			keep = append(keep, g)
		}
	}
	s.runq = keep
	s.At(d, func() {
		if n.stallTil <= s.now {
			q := n.stallQ
			n.stallQ = nil
			for _, g := range q {
				if !g.dead && !g.exited {
					s.runq = append(s.runq, g)
				}
			}
		}
	})
}

func (s *Sim) pick() *G {
	for {
		for len(s.tm) > 0 && (s.tm[0].at <= s.now || s.tm[0].off) {
			s.fire(s.tm.pop())
		}
		n := len(s.runq)
		if n > 0 {
			i := 0
			if n > 1 {
				i = s.dec(s.sched, "sched", n, s.Cfg.PSched)
				if i > 0 {
					s.SchedChoices++
				}
			}
			g := s.runq[i]
			copy(s.runq[i:], s.runq[i+1:])
			s.runq[n-1] = nil
			s.runq = s.runq[:n-1]
			g.ready = false
			return g
		}
		if len(s.tm) == 0 {
			return nil
		}
		if s.tm[0].at > s.now {
			s.now = s.tm[0].at
			s.lastAdv = s.Steps
		}
	}
}

func (s *Sim) step(n int64) {
	s.Steps += n
	if s.Steps > s.Cfg.MaxSteps && s.Runaway == "" {
		s.Runaway = "run exceeded its step budget"
	}
	if s.Steps-s.lastAdv > 400000 && s.Runaway == "" {
		g := cur
		s.Runaway = fmt.Sprintf("no virtual time progress in 400000 steps (goroutine %s of %s)", g.name, g.Node.Name)
	}
}

// park gives up the processor; the caller has arranged for somebody to call Ready(g).
func (s *Sim) park(g *G) {
	if s.Runaway != "" && !s.ended {
		s.abort(g)
	}
	s.Switches++
	s.step(1)
	next := s.pick()
	if next == g {
		g.waitKind = ""
		s.note(g)
		return
	}
	if next == nil {
		s.idleEnd()
		next = s.main
		if next == g {
			return
		}
	}
	s.resume(next)
	<-g.wake
	if g.dead {
		runtime.Goexit()
	}
	g.waitKind = ""
}

func (s *Sim) note(g *G) {
	s.now += 1000 // every slice costs one simulated microsecond
	s.hash = mix(s.hash ^ uint64(g.id)<<20 ^ uint64(s.now))
	if s.Cfg.Trace {
		s.Log = append(s.Log, fmt.Sprintf("%d run %s %s", s.now, g.Node.Name, g.name))
	}
}

func (s *Sim) resume(g *G) {
	s.note(g)
	cur = g
	g.wake <- struct{}{}
}

func (s *Sim) idleEnd() {
	s.Err = "simulation has nothing left to run"
	if s.main.exited {
		panic("rt: main exited but scheduler still running")
	}
}

// abort stops a runaway run: the main goroutine is told through Runaway.
func (s *Sim) abort(g *G) {
	if g == s.main {
		return
	}
	if s.main.exited {
		return
	}
	// hand over to main, whatever it is waiting for
	rq := s.runq[:0]
	for _, x := range s.runq {
		if x != s.main {
			rq = append(rq, x)
		}
	}
	s.runq = rq
	s.main.ready = false
	if s.main.sel != nil {
		s.main.sel.fired = true
	}
	s.ended = true
	s.resume(s.main)
	<-g.wake
	if g.dead {
		runtime.Goexit()
	}
}

// yield puts the current goroutine at the back of the queue.
func (s *Sim) yield(g *G) {
	if g == s.evG {
		return
	}
	if g.dead {
		runtime.Goexit()
	}
	s.Ready(g)
	s.park(g)
}

// Yield is a voluntary reschedule.
func Yield() {
	if g := cur; g != nil && !g.dead {
		S.yield(g)
	}
}

// Y is the statement-level preemption point.
func Y() {
	if g := cur; g != nil {
		g.y--
		if g.y <= 0 {
			ySlow(g)
		}
	}
}

// P is the preemption point inside synchronisation operations. It weighs more than a statement, because what
// goes wrong between threads mostly goes wrong there.
func P() {
	if g := cur; g != nil {
		g.y -= S.Cfg.SyncWeight
		if g.y <= 0 {
			ySlow(g)
		} else if S.Cfg.Focus != 0 {
			S.focus(g)
		}
	}
}

var siteHashes = map[uintptr]uint64{} // 0: a frame of the simulator itself

// site identifies the code that performs the synchronisation operation.
func site() uint64 {
	var pcs [8]uintptr
	n := runtime.Callers(4, pcs[:])
	for _, pc := range pcs[:n] {
		h, ok := siteHashes[pc]
		if !ok {
			f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
			if !strings.Contains(f.Function, "/zzsim/") {
				h = hashStr(1, f.Function+fmt.Sprint(f.Line)) | 1
			}
			siteHashes[pc] = h
		}
		if h != 0 {
			return h
		}
	}
	return 1
}

// focus preempts the goroutine with probability 1/2 if the call site is of the class this run concentrates on.
func (s *Sim) focus(g *G) {
	if s.Cfg.Replay || g.ySt == nil || g.dead || g == s.evG {
		return
	}
	if (site()^s.Cfg.Focus)*0x9e3779b97f4a7c15>>60 != 0 || g.ySt.next()>>63 == 0 {
		return
	}
	g.yAt -= g.y
	g.y, g.yAct = 0, true
	ySlow(g)
}

const yChunk = 1 << 14

func (s *Sim) armY(g *G) {
	if g == s.evG {
		g.y = 1 << 60
		return
	}
	over := g.y // what the last operation counted beyond its preemption point
	if over > 0 {
		over = 0
	}
	if s.Cfg.Replay {
		if len(g.yOver) > 0 {
			d := g.yOver[0]
			gap := d.I - g.yAt
			if gap < 1 {
				gap = 1
			}
			if gap <= yChunk {
				g.y, g.yAct = gap+over, true
				g.yAt += gap
				return
			}
		}
		g.y, g.yAct = yChunk+over, false
		g.yAt += yChunk
		return
	}
	if s.Cfg.PreemptMean <= 0 {
		g.y, g.yAct = yChunk+over, false
		g.yAt += yChunk
		return
	}
	if g.ySt == nil {
		g.ySt = &stream{state: hashStr(s.Cfg.Seed, "y:"+g.name)}
	}
	r := g.ySt.next()
	gap := 1 + int(r%uint64(2*s.Cfg.PreemptMean))
	if r>>60 == 0 { // sometimes preempt very soon again
		gap = 1 + int((r>>32)%3)
	}
	if gap > yChunk {
		gap = yChunk
	}
	g.y, g.yAct = gap+over, true
	g.yAt += gap
}

func ySlow(g *G) {
	s := S
	if g.dead || g == s.evG {
		g.y = 1 << 60
		return
	}
	s.Yields++
	act, at := g.yAct, g.yAt
	v := 0
	if act {
		s.step(1)
		if s.Cfg.Replay {
			v = g.yOver[0].V
			g.yOver = g.yOver[1:]
		} else {
			v = 1
			if r := g.ySt.next(); float64(r>>11)/(1<<53) < s.Cfg.PStall || s.Cfg.Focus != 0 && r&7 == 0 {
				v = 2 + int(g.ySt.next()%64)
			}
			s.Decs = append(s.Decs, Decision{"y:" + g.name, at, v})
		}
	} else {
		s.step(yChunk / 64)
	}
	s.armY(g)
	if s.Runaway != "" && !s.ended {
		s.abort(g)
		return
	}
	switch {
	case v == 1:
		s.Preempts++
		s.yield(g)
	case v > 1:
		s.Stalls++
		f := float64(v-1) / 64
		d := time.Duration(float64(s.Cfg.StallMax) * f * f * f)
		if d < time.Microsecond {
			d = time.Microsecond
		}
		s.after(d, nil, func() { s.Ready(g) })
		g.waitKind = "stall"
		s.park(g)
	}
}

// Go starts a goroutine on the current node.
func Go(f func()) {
	g := cur
	if g == nil {
		panic("rt.Go outside a simulation")
	}
	if g.dead {
		return
	}
	S.Spawn(g.Node, f)
	if g != S.evG {
		P()
	}
}

// Spawn starts a goroutine on a node.
func (s *Sim) Spawn(n *Node, f func()) *G {
	if n.Dead {
		return nil
	}
	par := cur
	if par == nil {
		par = s.evG
	}
	s.gid++
	par.kids++
	n.spawned++
	name := ""
	if par.Node == n && par != s.evG && len(par.name) < 60 {
		name = par.name + "." + strconv.Itoa(par.kids)
	} else {
		name = strconv.Itoa(n.ID) + "." + strconv.Itoa(n.Gen) + "/" + strconv.Itoa(n.spawned)
	}
	g := &G{id: s.gid, Node: n, name: name, wake: make(chan struct{}, 1), done: make(chan struct{})}
	if s.Cfg.Replay {
		g.yOver = append([]Decision(nil), s.yover[name]...)
	}
	s.armY(g)
	if s.Cfg.Race {
		g.slot = n.slots
		n.slots++
		if par.Node == n {
			g.acq(par.vc)
			par.tick()
		}
		g.tick()
	}
	s.Spawned++
	n.gs = append(n.gs, g)
	if len(n.gs) > 64 && len(n.gs)&63 == 0 {
		keep := n.gs[:0]
		for _, x := range n.gs {
			if !x.exited {
				keep = append(keep, x)
			}
		}
		n.gs = keep
	}
	go s.body(g, f)
	s.Ready(g)
	return g
}

func (s *Sim) body(g *G, f func()) {
	<-g.wake
	ok := false
	defer func() {
		if g.dead {
			recover()
			g.exited = true
			close(g.done)
			return
		}
		if !ok {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if g == s.main {
					s.Err = fmt.Sprintf("harness panic: %v\n%s", r, st)
				} else if g.OnPanic != nil {
					g.OnPanic(r, st)
				} else {
					s.crash(g, fmt.Sprint(r), st)
				}
			}
		}
		g.exited = true
		s.leave(g)
	}()
	if !g.dead {
		f()
	}
	ok = true
}

// leave ends a goroutine and passes control on.
func (s *Sim) leave(g *G) {
	if g.ready {
		for i, x := range s.runq { // somebody woke it once too often: a simulator error
			if x == g {
				s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
				if s.Err == "" {
					s.Err = "stale wake-up of goroutine " + g.name
				}
				break
			}
		}
	}
	if g == s.main {
		close(s.mainDone)
		return
	}
	s.Switches++
	s.step(1)
	if s.Runaway != "" && !s.ended && !s.main.exited {
		s.ended = true
		rq := s.runq[:0]
		for _, x := range s.runq {
			if x != s.main {
				rq = append(rq, x)
			}
		}
		s.runq = rq
		s.main.ready = false
		s.resume(s.main)
		return
	}
	next := s.pick()
	if next == nil {
		s.idleEnd()
		next = s.main
	}
	s.resume(next)
}

// CrashSite extracts the interesting frame of a panic stack.
func CrashSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		f := l
		if k := strings.LastIndex(f, "("); k > 0 {
			f = f[:k]
		}
		loc := strings.TrimSpace(lines[i+1])
		if k := strings.Index(loc, " "); k > 0 {
			loc = loc[:k]
		}
		if k := strings.LastIndex(loc, "/"); k >= 0 {
			loc = loc[k+1:]
		}
		if k := strings.LastIndex(f, "/"); k >= 0 {
			f = f[k+1:]
		}
		return f + " " + loc
	}
	return "?"
}

func (s *Sim) crash(g *G, val, stack string) {
	c := Crash{Node: g.Node, Gen: g.Node.Gen, Val: val, Stack: stack, At: s.now}
	s.Crashes = append(s.Crashes, c)
	s.Logf("CRASH node=%s: %s at %s", g.Node.Name, val, CrashSite(stack))
	s.Kill(g.Node)
	if s.OnCrash != nil {
		s.OnCrash(c)
	}
}

// Fatal emulates an unrecoverable runtime error of the process the goroutine belongs to.
func Fatal(msg string) { panic("fatal error: " + msg) }

// Kill ends every goroutine of a node at once; only durable state outside the process survives.
func (s *Sim) Kill(n *Node) {
	if n.Dead {
		return
	}
	n.Dead = true
	self := cur
	keep := s.runq[:0]
	for _, g := range s.runq {
		if g.Node != n {
			keep = append(keep, g)
		}
	}
	for i := len(keep); i < len(s.runq); i++ {
		s.runq[i] = nil
	}
	s.runq = keep
	n.stallQ = nil
	n.stallTil = 0
	gs := n.gs
	n.gs = nil
	for _, g := range gs {
		if g.exited || g == self {
			continue
		}
		g.dead = true
		g.y = 1 << 60
		cur = g
		g.wake <- struct{}{}
		<-g.done
		cur = self
	}
	n.Gen++
}

// Exit ends the current goroutine if its node was killed by itself.
func (s *Sim) ExitIfDead() {
	if g := cur; g != nil && g != s.evG && g.Node.Dead && !g.exited {
		runtime.Goexit()
	}
}

// Revive lets a killed node run again (a new process).
func (s *Sim) Revive(n *Node) { n.Dead = false }

// Run executes main as the first goroutine and returns when it finishes; everything still running
// is then torn down.
func (s *Sim) Run(main func()) {
	if S != nil {
		panic("rt: nested simulation")
	}
	S = s
	s.main = s.Spawn(s.root, main)
	s.main.y = 1 << 60
	s.runq = nil
	s.main.ready = false
	cur = s.main
	s.main.wake <- struct{}{}
	<-s.mainDone
	s.ended = true
	cur = s.evG
	for _, n := range s.nodes {
		if !n.Dead {
			s.Kill(n)
		}
	}
	cur = nil
	S = nil
}

// Settle state for waiting harness code: a condition variable on the scheduler.

// Logf adds a line to the event log (and its hash).
func (s *Sim) Logf(f string, a ...interface{}) {
	l := fmt.Sprintf("%11.6f ", float64(s.now)/1e9) + fmt.Sprintf(f, a...)
	s.hash = hashStr(s.hash, l)
	if s.Cfg.KeepLog {
		s.Log = append(s.Log, l)
	}
}

// Hash is the digest of everything that happened.
func (s *Sim) Hash() uint64 { return s.hash }

// State records an abstract state for the coverage measure.
func (s *Sim) State(h uint64) { s.stateHash[h] = struct{}{} }

// StateHashes returns the distinct abstract states seen.
func (s *Sim) StateHashes() map[uint64]struct{} { return s.stateHash }

// HashString is a helper for coverage measures.
func HashString(x string) uint64 { return hashStr(0, x) }

// Stuck describes goroutines that have waited for a lock for at least d.
func (s *Sim) Stuck(n *Node, d time.Duration) []string {
	var out []string
	for _, g := range n.gs {
		if g.exited || g.dead || g == cur {
			continue
		}
		if strings.HasPrefix(g.waitKind, "lock:") && s.now-g.waitSince >= d {
			out = append(out, fmt.Sprintf("%s waits for %s since %v at %s", g.name, g.waitKind[5:], g.waitSince, frames(g.waitPC[:g.waitN])))
		}
	}
	return out
}

// Sending lists the goroutines of a node that have waited to send to a channel for at least d.
func (s *Sim) Sending(n *Node, d time.Duration) []string {
	var out []string
	for _, g := range n.gs {
		if !g.exited && !g.dead && g != cur && s.now-g.waitSince >= d && strings.HasPrefix(g.waitKind, "chan send") {
			out = append(out, fmt.Sprintf("%s since %v at %s", g.name, g.waitSince, frames(g.waitPC[:g.waitN])))
		}
	}
	return out
}

// Live counts the goroutines of a node.
func (s *Sim) Live(n *Node) int {
	c := 0
	for _, g := range n.gs {
		if !g.exited && !g.dead {
			c++
		}
	}
	return c
}

func frames(pcs []uintptr) string {
	fr := runtime.CallersFrames(pcs)
	out := ""
	n := 0
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.Contains(f.Function, "zzsim/") {
			fn := f.Function
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			if n > 0 {
				out += " < "
			}
			out += fn
			n++
			if n == 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	return out
}

func (s *Sim) waitLock(g *G, kind string, obj interface{}) {
	g.waitKind = "lock:" + kind
	g.waitSince = s.now
	g.waitObj = obj
	g.waitN = runtime.Callers(3, g.waitPC[:])
	s.lockWaits++
	s.park(g)
}

// Park blocks the current goroutine until somebody calls Ready for it.
func Park(kind string) {
	g := cur
	if g.dead {
		runtime.Goexit()
	}
	if g == S.evG {
		panic("rt: event blocks (" + kind + ")")
	}
	g.waitKind = kind
	S.park(g)
}

// FastCrypto selects the cheap stand-ins of the expensive number theory in the threshold library.
var FastCrypto bool
