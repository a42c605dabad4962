package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

func say(f string, a ...interface{}) { fmt.Fprintf(realStdout, f+"\n", a...) }

func main() {
	debug.SetGCPercent(300)
	debug.SetMaxStack(128 << 20)
	runtime.GOMAXPROCS(2)
	initEnv()
	if len(os.Args) < 2 {
		say("usage: h check|work|one|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "survey":
		cmdSurvey(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "work":
		if f := os.Getenv("SIM_PROF"); f != "" {
			if w, err := os.Create(f); err == nil {
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		cmdWork(os.Args[2:])
	case "one":
		cmdOne(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "min":
		cmdMin(os.Args[2:])
	case "list":
		for _, k := range sortedKeys(props) {
			l := ""
			for _, w := range props[k].Profs {
				l += fmt.Sprintf(" %s*%d", w.P.Name, w.N)
			}
			say("%s%s", k, l)
		}
	default:
		say("unknown command")
		os.Exit(2)
	}
}

// ---------------------------------------------------------------------------- properties

type weighted struct {
	P *Prof
	N int
}

// PropDef says which run families decide a property.
type PropDef struct {
	Profs []weighted
	Real  []string // components that ran real code
	Stub  []string
}

func (d *PropDef) prof(seed uint64) *Prof {
	t := 0
	for _, w := range d.Profs {
		t += w.N
	}
	k := newRng(seed, "prof").Intn(t)
	for _, w := range d.Profs {
		if k < w.N {
			return w.P
		}
		k -= w.N
	}
	panic("prof")
}

// realProf picks one of the profiles that run real cryptography (weight 0), nil if there is none.
func (d *PropDef) realProf(seed uint64) *Prof {
	var l []*Prof
	for _, w := range d.Profs {
		if w.N == 0 {
			l = append(l, w.P)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[newRng(seed, "prof").Intn(len(l))]
}

func profByName(prop, name string) *Prof {
	for _, w := range props[prop].Profs {
		if w.P.Name == name {
			return w.P
		}
	}
	return nil
}

// ---------------------------------------------------------------------------- worker

// WorkerOut is what a worker process reports.
type WorkerOut struct {
	Runs      int64
	SimSec    float64
	Stats     map[string]int64
	Faults    map[string]int64
	Sched     map[string]int64
	Profs     map[string]int64
	Hashes    []uint64
	States    []uint64
	Known     map[string]int64
	Errs      map[string]int64
	Viol      *ReplayFile
	Sample    []string
	NonTriv   int64
	PeakSteps int64
}

// ReplayFile reproduces one violation exactly.
type ReplayFile struct {
	Prop   string        `json:"property"`
	Prof   string        `json:"profile"`
	Seed   uint64        `json:"seed"`
	Class  string        `json:"class"`
	Detail string        `json:"detail"`
	AtSec  float64       `json:"at_simulated_seconds"`
	Hash   string        `json:"run_digest"`
	Full   int           `json:"decisions_before_minimisation"`
	Whole  bool          `json:"whole_run,omitempty"` // the seed alone fixes the run: it cannot be minimised
	Decs   []rt.Decision `json:"decisions"`
	Trace  []string      `json:"trace"`
}

// survives says whether the property promises that the process stays alive and responsive.
func survives(prop string) bool {
	for _, p := range crashProps {
		if p == prop {
			return true
		}
	}
	return map[string]bool{"C12": true, "C14": true, "C16": true, "C19": true, "C21": true, "C23": true}[prop]
}

// watchdog calls hung when the simulation has made no step for d of real time: the code under test spins
// without passing any point where the simulator could take over.
func watchdog(d time.Duration, hung func(where string)) {
	go func() {
		var last int64 = -1
		var sim *rt.Sim
		at := time.Now()
		for {
			time.Sleep(time.Second)
			s := rt.S
			if s == nil || s != sim || s.Steps != last {
				sim, at = s, time.Now()
				if s != nil {
					last = s.Steps
				}
				continue
			}
			if s.Steps > 0 && !runDone && time.Since(at) > d {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				hung(spinning(string(buf)))
			}
		}
	}()
}

const hangAfter = 180 * time.Second

// topFrame names the innermost function of a goroutine's stack.
func topFrame(g string) string {
	if i := strings.Index(g, "]:\n"); i >= 0 {
		g = g[i+3:]
	}
	return rt.CrashSite("panic(\n" + g)
}

// spinning finds the running goroutine of a stack dump.
func spinning(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		if (strings.Contains(g, "[running]") || strings.Contains(g, "[runnable]")) && !strings.Contains(g, "main.watchdog") {
			return topFrame(g)
		}
	}
	return "unknown"
}

// loadKnown returns the recorded findings of the property: class -> what fails.
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	bz, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(bz), "\n") {
		// finding: property=C99 class=<class> -- text
		if !strings.HasPrefix(l, "finding: property="+prop+" class=") {
			continue
		}
		c := strings.TrimPrefix(l, "finding: property="+prop+" class=")
		text := ""
		if i := strings.Index(c, " -- "); i >= 0 {
			c, text = c[:i], c[i+4:]
		}
		m[strings.TrimSpace(c)] = text
	}
	return m
}

func cmdWork(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	idx := fs.Int("idx", 0, "")
	step := fs.Int("step", 1, "")
	secs := fs.Float64("time", 60, "")
	maxRuns := fs.Int64("max", 1<<40, "")
	known := fs.String("known", "", "")
	outf := fs.String("out", "", "")
	minSecs := fs.Float64("min", 25, "")
	only := fs.String("prof", "", "")
	real := fs.Bool("real", false, "run the profiles with real cryptography")
	fs.Parse(args)
	def := props[*prop]
	kn := loadKnown(*known, *prop)
	o := &WorkerOut{Stats: map[string]int64{}, Faults: map[string]int64{}, Sched: map[string]int64{}, Profs: map[string]int64{},
		Known: map[string]int64{}, Errs: map[string]int64{}}
	states := map[uint64]struct{}{}
	hashes := map[uint64]struct{}{}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	stop := *outf + ".stop"
	var curSeed uint64
	var curProf string
	var curFile *os.File
	if *outf != "" {
		curFile, _ = os.Create(*outf + ".cur")
	}
	watchdog(hangAfter, func(where string) {
		if survives(*prop) {
			o.Viol = &ReplayFile{Prop: *prop, Prof: curProf, Seed: curSeed, Class: "hang", Whole: true,
				Detail: fmt.Sprintf("a goroutine runs for ever without letting anything else run: %s", where)}
		} else {
			o.Errs["hang in "+where]++
		}
		finishWork(o, states, hashes, *outf)
		os.Exit(0)
	})
	for i := *idx; time.Now().Before(end) && o.Runs < *maxRuns; i += *step {
		if _, err := os.Stat(filepath.Join(filepath.Dir(stop), "stop")); err == nil {
			break
		}
		seed := seedOf(*prop, *base, i)
		pr := def.prof(seed)
		if *only != "" {
			pr = profByName(*prop, *only)
		} else if *real && def.realProf(seed) != nil {
			pr = def.realProf(seed)
		}
		curSeed, curProf = seed, pr.Name
		if curFile != nil {
			curFile.WriteAt([]byte(fmt.Sprintf("%-40s %20d\n", pr.Name, seed)), 0)
		}
		t0 := time.Now()
		res := execute(*prop, pr, seed, false, nil, false)
		if os.Getenv("SIM_SLOW") != "" {
			if d := time.Since(t0); d > time.Second {
				say("slow: %s seed %d %v steps %d", pr.Name, seed, d, res.Sched["steps"])
			}
		}
		o.Runs++
		o.SimSec += res.Sim.Seconds()
		o.Profs[pr.Name]++
		for k, v := range res.Stats {
			o.Stats[k] += v
		}
		for k, v := range res.Faults {
			o.Faults[k] += v
		}
		for k, v := range res.Sched {
			o.Sched[k] += v
		}
		if s := res.Sched["steps"]; s > o.PeakSteps {
			o.PeakSteps = s
		}
		for h := range res.States {
			states[h] = struct{}{}
		}
		if _, dup := hashes[res.Hash]; !dup && res.Stats["checked"] > 0 {
			o.NonTriv++
		}
		hashes[res.Hash] = struct{}{}
		if res.Err != "" || res.Runaway != "" {
			o.Errs[firstLine(res.Err+" "+res.Runaway)]++
			if os.Getenv("SIM_ERRS") != "" {
				say("err prof=%s seed=%d: %s %s", pr.Name, seed, res.Err, res.Runaway)
			}
		}
		for _, v := range res.Viol {
			if _, listed := kn[v.Class]; v.Prop == *prop && listed {
				o.Known[v.Class]++
			}
		}
		if len(o.Sample) < 3 {
			o.Sample = append(o.Sample, sample(res))
		}
		if vs := res.verdicts(*prop, kn); len(vs) > 0 {
			o.Viol = minimise(*prop, pr, seed, vs[0], res, time.Duration(*minSecs*float64(time.Second)))
			if o.Viol != nil {
				break
			}
			o.Errs["violation did not replay: "+vs[0].Class]++
		}
	}
	finishWork(o, states, hashes, *outf)
}

func finishWork(o *WorkerOut, states, hashes map[uint64]struct{}, outf string) {
	for h := range states {
		o.States = append(o.States, h)
	}
	for h := range hashes {
		o.Hashes = append(o.Hashes, h)
	}
	bz, _ := json.Marshal(o)
	if outf != "" {
		os.WriteFile(outf, bz, 0644)
		if o.Viol != nil {
			os.WriteFile(filepath.Join(filepath.Dir(outf), "stop"), nil, 0644)
		}
	} else {
		say("runs=%d sim=%.0fs hashes=%d states=%d errs=%v known=%v", o.Runs, o.SimSec, len(o.Hashes), len(o.States), o.Errs, o.Known)
		say("stats=%v", o.Stats)
		say("faults=%v", o.Faults)
		say("sched=%v profs=%v", o.Sched, o.Profs)
		if o.Viol != nil {
			say("VIOL class=%s seed=%d prof=%s decs=%d/%d: %s", o.Viol.Class, o.Viol.Seed, o.Viol.Prof, len(o.Viol.Decs), o.Viol.Full, o.Viol.Detail)
		}
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func sample(res *RunResult) string {
	st, _ := json.Marshal(res.Stats)
	fa, _ := json.Marshal(res.Faults)
	return fmt.Sprintf("profile=%s seed=%d simulated=%.1fs digest=%016x happened=%s faults=%s goroutine switches=%d preemptions=%d",
		res.Prof, res.Seed, res.Sim.Seconds(), res.Hash, st, fa, res.Sched["switches"], res.Sched["preempts"])
}

func seedOf(prop string, base uint64, i int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", prop, base, i)))
	v := uint64(0)
	for _, b := range h[:7] {
		v = v<<8 | uint64(b)
	}
	return v
}

// ---------------------------------------------------------------------------- minimiser

func hasClass(res *RunResult, prop, class string) *Violation {
	for i := range res.Viol {
		if res.Viol[i].Prop == prop && res.Viol[i].Class == class {
			return &res.Viol[i]
		}
	}
	return nil
}

func minimise(prop string, p *Prof, seed uint64, v Violation, res *RunResult, budget time.Duration) *ReplayFile {
	end := time.Now().Add(budget)
	cur := res.Decs
	full := len(cur)
	test := func(d []rt.Decision) bool {
		r := execute(prop, p, seed, true, d, false)
		return hasClass(r, prop, v.Class) != nil
	}
	if !test(cur) {
		return nil
	}
	// whole streams first, by kind
	groups := map[string][]int{}
	var names []string
	key := func(d rt.Decision) string {
		if i := strings.IndexAny(d.S, ":."); i >= 0 {
			return d.S[:i]
		}
		return d.S
	}
	for i, d := range cur {
		k := key(d)
		if _, ok := groups[k]; !ok {
			names = append(names, k)
		}
		groups[k] = append(groups[k], i)
	}
	drop := func(f func(i int, d rt.Decision) bool) bool {
		var keep []rt.Decision
		for i, d := range cur {
			if !f(i, d) {
				keep = append(keep, d)
			}
		}
		if len(keep) == len(cur) || time.Now().After(end) {
			return false
		}
		if test(keep) {
			cur = keep
			return true
		}
		return false
	}
	if !drop(func(int, rt.Decision) bool { return true }) {
		for _, k := range names {
			drop(func(_ int, d rt.Decision) bool { return key(d) == k })
		}
		ss := map[string]bool{}
		var sl []string
		for _, d := range cur {
			if !ss[d.S] {
				ss[d.S] = true
				sl = append(sl, d.S)
			}
		}
		if len(sl) < 400 {
			for _, s := range sl {
				drop(func(_ int, d rt.Decision) bool { return d.S == s })
			}
		}
		// ddmin on what is left
		n := 2
		for len(cur) > 1 && time.Now().Before(end) {
			sz := (len(cur) + n - 1) / n
			ok := false
			for a := 0; a < len(cur) && time.Now().Before(end); a += sz {
				b := a + sz
				if drop(func(i int, _ rt.Decision) bool { return i >= a && i < b }) {
					ok = true
					n--
					if n < 2 {
						n = 2
					}
					break
				}
			}
			if !ok {
				if sz == 1 {
					break
				}
				n *= 2
				if n > len(cur) {
					n = len(cur)
				}
			}
		}
	}
	r := execute(prop, p, seed, true, cur, true)
	w := hasClass(r, prop, v.Class)
	if w == nil {
		return nil
	}
	return &ReplayFile{Prop: prop, Prof: p.Name, Seed: seed, Class: v.Class, Detail: w.Detail, AtSec: w.At.Seconds(),
		Hash: fmt.Sprintf("%016x", r.Hash), Full: full, Decs: cur, Trace: tail(r.Log, 400)}
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return append([]string{fmt.Sprintf("... %d earlier events", len(l)-n)}, l[len(l)-n:]...)
	}
	return l
}

// ---------------------------------------------------------------------------- single runs

func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	prof := fs.String("prof", "", "")
	logf := fs.Bool("log", false, "")
	twice := fs.Bool("twice", false, "")
	trace := fs.Int("tail", 1<<30, "")
	fs.Parse(args)
	p := props[*prop].prof(*seed)
	if *prof != "" {
		p = profByName(*prop, *prof)
	}
	t := time.Now()
	res := execute(*prop, p, *seed, false, nil, *logf)
	d := time.Since(t)
	if *logf {
		for _, l := range tail(res.Log, *trace) {
			say("%s", l)
		}
	}
	say("%s wall=%v decs=%d steps=%d err=%s runaway=%s", sample(res), d, len(res.Decs), res.Sched["steps"], res.Err, res.Runaway)
	for _, v := range res.Viol {
		say("  viol %s %s at %.3f: %s", v.Prop, v.Class, v.At.Seconds(), v.Detail)
	}
	if *twice {
		r2 := execute(*prop, p, *seed, false, nil, *logf)
		say("again: digest=%016x same=%v", r2.Hash, r2.Hash == res.Hash)
		r3 := execute(*prop, p, *seed, true, res.Decs, *logf)
		say("replay: digest=%016x same=%v", r3.Hash, r3.Hash == res.Hash)
		if *logf && (r2.Hash != res.Hash || r3.Hash != res.Hash) {
			if r2.Hash == res.Hash {
				r2 = r3
			}
			for i := range res.Log {
				if i >= len(r2.Log) || res.Log[i] != r2.Log[i] {
					say("diverges at %d:\n  %s", i, res.Log[i])
					if i < len(r2.Log) {
						say("  %s", r2.Log[i])
					}
					break
				}
			}
		}
	}
}

// dies repeats a run in a process of its own and says how the Go runtime ended that process, if it did.
func dies(prop, prof string, seed uint64) string {
	self, _ := os.Executable()
	c := exec.Command(self, "one", "-prop", prop, "-prof", prof, "-seed", fmt.Sprint(seed))
	var sb strings.Builder
	c.Stderr = &limited{sb: &sb}
	if err := c.Run(); err == nil {
		return ""
	}
	for _, l := range strings.Split(sb.String(), "\n") {
		if strings.Contains(l, "fatal error: stack overflow") || strings.Contains(l, "goroutine stack exceeds") {
			return strings.TrimSpace(l) + " at " + topFrame(sb.String())
		}
	}
	return ""
}

func cmdReplay(args []string) int {
	var rf ReplayFile
	bz, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(bz, &rf)
	}
	if err != nil {
		say("cannot read replay file: %v", err)
		return 2
	}
	if props[rf.Prop] == nil || profByName(rf.Prop, rf.Prof) == nil {
		say("replay file names unknown property or profile")
		return 2
	}
	watchdog(hangAfter, func(where string) {
		if rf.Class == "hang" {
			say("REPRODUCED property=%s class=%s: %s", rf.Prop, rf.Class, where)
			os.Exit(1)
		}
		say("hang in %s", where)
		os.Exit(2)
	})
	if rf.Class == "fatal" {
		if why := dies(rf.Prop, rf.Prof, rf.Seed); why != "" {
			say("REPRODUCED property=%s class=%s: %s", rf.Prop, rf.Class, why)
			return 1
		}
		say("not reproduced")
		return 0
	}
	res := execute(rf.Prop, profByName(rf.Prop, rf.Prof), rf.Seed, !rf.Whole, rf.Decs, true)
	for _, l := range res.Log {
		say("%s", l)
	}
	say("digest %016x (recorded %s)", res.Hash, rf.Hash)
	if v := hasClass(res, rf.Prop, rf.Class); v != nil {
		say("REPRODUCED property=%s class=%s: %s", rf.Prop, rf.Class, v.Detail)
		return 1
	}
	say("not reproduced")
	return 0
}

func cmdMin(args []string) {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	prof := fs.String("prof", "", "")
	of := fs.String("viol", "", "property of the violation")
	secs := fs.Float64("time", 30, "")
	fs.Parse(args)
	p := props[*prop].prof(*seed)
	if *prof != "" {
		p = profByName(*prop, *prof)
	}
	res := execute(*prop, p, *seed, false, nil, false)
	for _, v := range res.Viol {
		if *of == "" && v.Prop == *prop || v.Prop == *of || v.Class == *of {
			rf := minimise(v.Prop, p, *seed, v, res, time.Duration(*secs)*time.Second)
			if rf == nil {
				say("does not replay")
				return
			}
			for _, l := range rf.Trace {
				say("%s", l)
			}
			say("%s: %s  decisions %d of %d", rf.Class, rf.Detail, len(rf.Decs), rf.Full)
			for _, d := range rf.Decs {
				say("   %s[%d]=%d", d.S, d.I, d.V)
			}
			return
		}
	}
	say("no violation")
}

// ---------------------------------------------------------------------------- check

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	secs := fs.Float64("time", 50, "")
	workers := fs.Int("workers", 8, "")
	known := fs.String("known", "", "")
	evid := fs.String("evidence", "", "")
	rdir := fs.String("replays", "", "")
	setup := fs.Float64("setup", 0, "seconds already spent")
	fs.Parse(args)
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "dhwork")
	if err != nil {
		say("%v", err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	var wg sync.WaitGroup
	outs := make([]*WorkerOut, *workers)
	errs := make([]string, *workers)
	fatals := make([]*ReplayFile, *workers)
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f := filepath.Join(dir, fmt.Sprint("w", i))
			tmp := filepath.Join(dir, fmt.Sprint("tmp", i))
			os.MkdirAll(tmp, 0755)
			c := exec.Command(self, "work", "-prop", *prop, "-base", fmt.Sprint(*base), "-idx", fmt.Sprint(i), "-step", fmt.Sprint(*workers),
				"-time", fmt.Sprint(*secs), "-known", *known, "-out", f)
			if i == *workers-1 {
				c.Args = append(c.Args, "-real")
			}
			c.Env = append(os.Environ(), "TMPDIR="+tmp)
			var sb strings.Builder
			c.Stderr = &limited{sb: &sb}
			err := c.Run()
			bz, e2 := os.ReadFile(f)
			if err != nil || e2 != nil {
				var pr string
				var seed uint64
				if cz, e := os.ReadFile(f + ".cur"); e == nil {
					fmt.Sscan(string(cz), &pr, &seed)
				}
				if pr != "" && survives(*prop) {
					if why := dies(*prop, pr, seed); why != "" {
						os.WriteFile(filepath.Join(dir, "stop"), nil, 0644)
						fatals[i] = &ReplayFile{Prop: *prop, Prof: pr, Seed: seed, Class: "fatal", Whole: true, Detail: "the run ends the process: " + why}
					}
				}
				errs[i] = fmt.Sprintf("worker %d: %v %v\n%s", i, err, e2, sb.String())
				return
			}
			o := &WorkerOut{}
			if e := json.Unmarshal(bz, o); e != nil {
				errs[i] = e.Error()
				return
			}
			outs[i] = o
		}(i)
	}
	wg.Wait()
	tot := &WorkerOut{Stats: map[string]int64{}, Faults: map[string]int64{}, Sched: map[string]int64{}, Profs: map[string]int64{}, Known: map[string]int64{}, Errs: map[string]int64{}}
	states := map[uint64]struct{}{}
	hashes := map[uint64]struct{}{}
	var viol *ReplayFile
	ok := 0
	add := func(a, b map[string]int64) {
		for k, v := range b {
			a[k] += v
		}
	}
	for i, o := range outs {
		if fatals[i] != nil {
			viol = fatals[i]
		}
		if o == nil {
			fmt.Fprintln(os.Stderr, errs[i])
			continue
		}
		ok++
		tot.Runs += o.Runs
		tot.SimSec += o.SimSec
		tot.NonTriv += o.NonTriv
		add(tot.Stats, o.Stats)
		add(tot.Faults, o.Faults)
		add(tot.Sched, o.Sched)
		add(tot.Profs, o.Profs)
		add(tot.Known, o.Known)
		add(tot.Errs, o.Errs)
		for _, h := range o.States {
			states[h] = struct{}{}
		}
		for _, h := range o.Hashes {
			hashes[h] = struct{}{}
		}
		if len(tot.Sample) < 4 && len(o.Sample) > 0 {
			tot.Sample = append(tot.Sample, o.Sample[0])
		}
		if o.Viol != nil && (viol == nil || len(o.Viol.Decs) < len(viol.Decs)) {
			viol = o.Viol
		}
	}
	wall := time.Since(t0).Seconds() + *setup
	nv := 0
	replay := ""
	if viol != nil {
		nv = 1
		os.MkdirAll(*rdir, 0755)
		replay = filepath.Join(*rdir, fmt.Sprintf("%s-%d.json", *prop, viol.Seed))
		bz, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replay, bz, 0644)
	}
	if *evid != "" {
		def := props[*prop]
		per := wall - *setup
		ev := map[string]interface{}{
			"property": *prop, "tier": *tier, "seed": *base, "level": "exploration", "wall_s": wall, "violations": nv,
			"coverage": map[string]interface{}{
				"evaluations":         tot.Runs,
				"distinct_nontrivial": tot.NonTriv,
				"rule": "one evaluation is one simulated run: a seed fixes the profile, the plan (group, workload, faults) and every scheduling, network, storage and map-order choice; " +
					"a run is non-trivial when it reached at least one decision point of the property's oracle (counter 'checked'), distinct by the digest of its complete event history",
				"samples":                   tot.Sample,
				"runs_per_hour":             int64(float64(tot.Runs) / per * 3600),
				"simulated_seconds":         int64(tot.SimSec),
				"simulated_per_wall_second": int64(tot.SimSec / per),
				"distinct_histories":        len(hashes),
				"distinct_abstract_states":  len(states),
				"abstract_state_measure":    "hash of the last four observable event kinds at one node (calls, frames, reports, crashes)",
				"profiles":                  tot.Profs,
				"faults_injected":           tot.Faults,
				"workload":                  tot.Stats,
				"scheduler":                 tot.Sched,
				"run_errors":                tot.Errs,
				"known_findings_hit":        tot.Known,
				"real_components":           def.Real,
				"stub_components":           def.Stub,
				"workers":                   ok,
			},
			"assumptions": assumptions,
		}
		bz, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evid), 0755)
		if err := os.WriteFile(*evid, bz, 0644); err != nil {
			say("%v", err)
			return 2
		}
	}
	say("%s: %d runs, %.0f simulated seconds, %d distinct histories, %d abstract states, %.0f s", *prop, tot.Runs, tot.SimSec, len(hashes), len(states), wall)
	kn := loadKnown(*known, *prop)
	for _, k := range sortedKeys(kn) {
		say("KNOWN-FINDING: property=%s %s (class %s, met in %d runs)", *prop, kn[k], k, tot.Known[k])
	}
	for _, k := range sortedKeys(tot.Errs) {
		say("note: %d x %s", tot.Errs[k], k)
	}
	if viol != nil {
		say("class %s, seed %d, profile %s, %d of %d decisions kept: %s", viol.Class, viol.Seed, viol.Prof, len(viol.Decs), viol.Full, viol.Detail)
		say("VIOLATION property=%s replay=%s", *prop, replay)
		return 1
	}
	if ok == 0 || tot.Runs == 0 {
		say("no simulation could be run")
		return 2
	}
	return 0
}

type limited struct{ sb *strings.Builder }

func (l *limited) Write(b []byte) (int, error) {
	if l.sb.Len() < 8000 {
		l.sb.Write(b)
	}
	return len(b), nil
}
