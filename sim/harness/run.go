package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	ecsigning "github.com/sisu-network/dheart/zzsim/tss/ecdsa/signing"
	"github.com/sisu-network/dheart/zzsim/world"
)

// Violation of one property in one run.
type Violation struct {
	Prop   string        `json:"prop"`
	Class  string        `json:"class"` // stable name of what failed
	Detail string        `json:"detail"`
	At     time.Duration `json:"at"`
}

// Run is one simulated execution.
type Run struct {
	S    *rt.Sim
	W    *world.World
	Prop string
	Prof *Prof
	Seed uint64
	Rng  *prng

	Viol  []Violation
	seen  map[string]bool
	mute  bool             // what follows cannot be judged
	Stats map[string]int64 // what happened (works, reports, ...)
	Feat  map[string]bool
	last  map[string]string
	Mat   *Material
	Keys  *Material
	Grp   *prng // choices made before the run

	Presign     [][]int // presignatures of an earlier life: their validators
	PresignData []map[int]*ecsigning.SignatureData_OneRoundData
}

// Fail records a violation.
func (r *Run) Fail(prop, class, format string, a ...interface{}) {
	k := prop + "/" + class
	if r.seen[k] || r.mute {
		return
	}
	r.seen[k] = true
	v := Violation{Prop: prop, Class: class, Detail: fmt.Sprintf(format, a...), At: r.S.Now()}
	r.S.Logf("VIOLATION %s %s: %s", prop, class, v.Detail)
	r.Viol = append(r.Viol, v)
}

func (r *Run) Count(k string)      { r.Stats[k]++ }
func (r *Run) Is(prop string) bool { return r.Prop == prop }

// Event logs and feeds the coverage measure: the last three event kinds of each place.
func (r *Run) Event(place, kind string) {
	l := r.last[place]
	parts := strings.SplitN(l, "|", 4)
	if len(parts) > 3 {
		l = strings.Join(parts[:3], "|")
	}
	l = kind + "|" + l
	r.last[place] = l
	r.S.State(rt.HashString(l))
}

// Pick returns a planned choice in [0,n), uniformly, recorded so that the minimiser can reset it to 0.
func (r *Run) Pick(name string, n int) int {
	return r.S.Decide("plan."+name, n, 1-1/float64(n))
}

// Chance is a planned coin.
func (r *Run) Chance(name string, p float64) bool { return r.S.Chance("plan."+name, p) }

// Until waits for cond, polling, for at most d of simulated time.
func (r *Run) Until(d time.Duration, cond func() bool) bool {
	end := r.S.Now() + d
	step := time.Millisecond
	for {
		if cond() {
			return true
		}
		if r.S.Now() >= end || r.S.Runaway != "" {
			return false
		}
		if left := end - r.S.Now(); step > left {
			step = left
		}
		rt.Sleep(step)
		if step < 200*time.Millisecond {
			step = step * 3 / 2
		}
	}
}

// Prof is one family of simulated runs.
type Prof struct {
	Name  string
	Main  func(r *Run)
	Prep  func(r *Run) // before the simulation starts (key material)
	Real  bool         // real cryptography instead of the fast stand-ins
	Race  bool
	Keen  bool   // most runs concentrate on one class of call sites
	Sched string // "calm", "light", "heavy", "" = drawn from the seed
	Stall time.Duration
	Steps int64
}

var runDone bool // no simulation is running (watchdog)

// RunResult summarises one run.
type RunResult struct {
	Seed    uint64
	Prof    string
	Hash    uint64
	Sim     time.Duration
	Viol    []Violation
	Stats   map[string]int64
	Faults  map[string]int64
	States  map[uint64]struct{}
	Decs    []rt.Decision
	Log     []string
	Err     string
	Runaway string
	Sched   map[string]int64
}

func (p *Prof) config(seed uint64) rt.Config {
	g := newRng(seed, "config")
	kind := p.Sched
	if kind == "" {
		switch x := g.Intn(10); {
		case x < 3:
			kind = "calm"
		case x < 8:
			kind = "light"
		default:
			kind = "heavy"
		}
	}
	c := rt.Config{Seed: seed, Race: p.Race, PMap: 1, PSelect: 1, MaxSteps: p.Steps}
	if c.MaxSteps == 0 {
		c.MaxSteps = 6000000
	}
	st := p.Stall
	if st == 0 {
		st = 300 * time.Millisecond
	}
	switch kind {
	case "calm":
		c.PSched = 0.05
		c.PSelect, c.PMap = 0.5, 0.5
	case "light":
		c.PSched = 0.05 + 0.3*g.Float()
		c.PreemptMean = 1 << (7 + g.Intn(6))
		c.SyncWeight = []int{1, 4, 16}[g.Intn(3)]
		if g.Intn(3) == 0 || p.Keen {
			c.Focus = g.next() | 1
		}
		c.PStall = 0.02
		c.StallMax = st
	case "heavy":
		c.PSched = 0.2 + 0.6*g.Float()
		c.PreemptMean = 1 << (3 + g.Intn(5))
		c.SyncWeight = []int{1, 4, 16, 64}[g.Intn(4)]
		if g.Intn(4) > 0 || p.Keen {
			c.Focus = g.next() | 1
		}
		c.PStall = 0.05 * g.Float()
		c.StallMax = st
	}
	return c
}

// execute performs one run; over != nil replays a decision list.
func execute(prop string, p *Prof, seed uint64, replay bool, over []rt.Decision, keepLog bool) *RunResult {
	r := &Run{Prop: prop, Prof: p, Seed: seed, Rng: newRng(seed, "data"), seen: map[string]bool{},
		Stats: map[string]int64{}, Feat: map[string]bool{}, last: map[string]string{}}
	rt.FastCrypto = !p.Real
	r.Grp = newRng(seed, "group")
	if p.Prep != nil {
		p.Prep(r)
	}
	cfg := p.config(seed)
	cfg.Replay, cfg.Over = replay, over
	cfg.KeepLog = keepLog || showLog
	seedEnv(seed)
	s := rt.New(cfg)
	r.S = s
	r.W = world.New(s)
	runDone = false
	s.Run(func() { p.Main(r) })
	runDone = true
	r.races()
	if s.Runaway != "" && survives(prop) {
		r.Fail(prop, "runaway", "%s", s.Runaway)
	}
	r.W.CloseAll()
	res := &RunResult{Seed: seed, Prof: p.Name, Hash: s.Hash(), Sim: s.Now(), Viol: r.Viol, Stats: r.Stats, Faults: r.W.Stats,
		States: s.StateHashes(), Decs: s.Decs, Log: s.Log, Err: s.Err, Runaway: s.Runaway,
		Sched: map[string]int64{"switches": s.Switches, "yields": s.Yields, "preempts": s.Preempts, "stalls": s.Stalls, "goroutines": s.Spawned,
			"timers": s.Timers, "map_shuffles": s.MapShuffles, "select_choices": s.SelectChoices, "sched_choices": s.SchedChoices, "steps": s.Steps}}
	return res
}

// verdicts returns the violations of the property (and only those) of a run.
func (res *RunResult) verdicts(prop string, known map[string]string) []Violation {
	var out []Violation
	for _, v := range res.Viol {
		if _, listed := known[v.Class]; v.Prop == prop && !listed {
			out = append(out, v)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
