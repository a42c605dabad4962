package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/core/config"
	ecsigning "github.com/sisu-network/dheart/zzsim/tss/ecdsa/signing"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
)

// ---------------------------------------------------------------------------- C07, the pool alone

// poolBench compares the pool of presignatures with what it is for: whatever is put into it can be taken from it, once.
type poolBench struct {
	*storeBench
	pool    components.AvailablePresigns
	parties []*tss.PartyID
	added   map[string]string // presignature id -> ids of its parties, for each one whose AddPresign was called
	kept    map[string]bool   // certainly in the pool: added without faults, not taken
	pooled  map[string]int    // how often it was handed out
}

func (b *poolBench) bad(class, f string, a ...interface{}) { b.r.Fail("C07", class, f, a...) }

func ids(l []*tss.PartyID) string {
	var s []string
	for _, p := range l {
		if p == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, p.Id)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (b *poolBench) some(min int) []*tss.PartyID {
	var l []*tss.PartyID
	for _, i := range b.r.subset(all(len(b.parties)), min) {
		l = append(l, b.parties[i])
	}
	return l
}

func (b *poolBench) add() {
	b.cnt++
	work := fmt.Sprint("work", b.cnt)
	who := b.some(2)
	var out []*ecsigning.SignatureData_OneRoundData
	for k := 1 + b.r.Pick("batch", 4); k > 0; k-- {
		b.added[fmt.Sprint(work, "-", len(out))] = ids(who)
		out = append(out, b.presign())
	}
	b.pool.AddPresign(work, tss.SortPartyIDs(who), out)
	b.checked()
	for i := range out {
		if id := fmt.Sprint(work, "-", i); b.pooled[id] == 0 {
			b.kept[id] = true
		}
	}
}

func (b *poolBench) take(batch int, who []*tss.PartyID) int {
	m := map[string]*tss.PartyID{}
	for _, p := range who {
		m[p.Id] = p
	}
	got, pids := b.pool.GetAvailablePresigns(batch, len(m), m)
	b.checked()
	if len(got) == 0 {
		return 0
	}
	if len(got) != batch {
		b.bad("batch", "%d presignatures were asked for and %d taken", batch, len(got))
	}
	for _, id := range got {
		b.pooled[id]++
		delete(b.kept, id)
		switch {
		case b.pooled[id] > 1:
			b.bad("taken-twice", "presignature %s was taken from the pool twice", id)
		case b.added[id] == "":
			b.bad("unknown", "presignature %s was taken but never made", id)
		case b.added[id] != ids(pids):
			b.bad("parties", "presignature %s belongs to %s, it was taken for %s", id, b.added[id], ids(pids))
		}
	}
	for _, p := range pids {
		if p == nil || m[p.Id] == nil {
			b.bad("parties", "a presignature was taken for parties that are not available")
		}
	}
	// taking is durable before the caller can use it
	rows, err := b.st.Rows("SELECT presign_id, status FROM presign")
	if err != nil {
		return len(got)
	}
	for _, row := range rows {
		for _, id := range got {
			if fmt.Sprint(row[0]) == id && fmt.Sprint(row[1]) != "used" {
				b.bad("not-durable", "presignature %s was taken but its row says %v", id, row[1])
			}
		}
	}
	return len(got)
}

// drain takes what is left, one by one.
func (b *poolBench) drain(sure bool) {
	for b.take(1, b.parties) > 0 {
	}
	if sure {
		var lost []string
		for id := range b.kept {
			lost = append(lost, id)
		}
		sort.Strings(lost)
		if len(lost) > 0 {
			b.bad("lost", "presignatures %v are neither used nor available in a healthy pool", lost)
		}
	}
}

func poolMain(r *Run) {
	b := &poolBench{storeBench: &storeBench{bench: newBench(r, "C07"), taken: map[string]int{}}, added: map[string]string{}, kept: map[string]bool{}, pooled: map[string]int{}}
	b.st = r.W.Store("db0:3306")
	b.cfg = config.DbConfig{Host: "db0", Port: 3306, Username: "root", Password: "password", Schema: "dheart"}
	b.parties = somePids(3 + r.Pick("n", 2))
	b.hang = []string{"C03"} // the work that asked the pool would not end either
	calm := !r.Chance("faults", 0.4)
	if !calm {
		b.hang = append(b.hang, "C22")
		s := b.st
		p := func(name string, max float64) float64 { return max * float64(r.Pick("db."+name, 5)) / 4 }
		s.PErr, s.PLost, s.PLostReq, s.PSlow, s.PConn, s.PBad = p("err", 0.25), p("lost", 0.15), p("lostreq", 0.15), p("slow", 0.2), p("conn", 0.15), p("bad", 0.2)
	} else if r.Chance("slowdb", 0.3) {
		b.st.PSlow = 0.3
	}
	lives := 1 + r.Pick("lives", 3)
	for life := 0; life < lives && len(r.Viol) == 0; life++ {
		up := false
		b.all(600*sec, func() {
			if !b.open() {
				return
			}
			b.pool = components.NewAvailPresignManager(b.d)
			for i := 0; i < 60 && !up; i++ {
				up = b.pool.Load() == nil
				if !up && i > 40 {
					b.st.Quiet = true
				}
			}
			b.st.Quiet = false
		})
		if !up {
			return
		}
		var fs []func()
		for t := r.Pick("adders", 4); t >= 0; t-- {
			fs = append(fs, func() {
				for i := 1 + r.Pick("adds", 5); i > 0; i-- {
					b.add()
				}
			})
		}
		for t := r.Pick("takers", 5); t > 0; t-- {
			fs = append(fs, func() {
				for i := 1 + r.Pick("takes", 6); i > 0; i-- {
					b.take(1+r.Pick("want", 3), b.some(2))
				}
			})
		}
		if r.Chance("kill", 0.3) {
			done := false
			for _, f := range fs {
				r.S.Spawn(b.node, f)
			}
			r.Until(r.pickTime("killat", 60*ms), func() bool { return done })
			// what was being added or taken is unknown
			b.kept = map[string]bool{}
		} else {
			b.all(3000*sec, fs...)
			if r.Chance("drain", 0.4) {
				b.all(3000*sec, func() { b.drain(calm) })
			}
		}
		if len(r.Viol) > 0 || b.stuck {
			return
		}
		r.S.Kill(b.node)
		r.W.NodeDied()
		r.W.Count("crash.planned")
		r.S.Revive(b.node)
	}
	b.st.Quiet = true
	b.all(600*sec, func() {
		if !b.open() {
			return
		}
		b.pool = components.NewAvailPresignManager(b.d)
		if err := b.pool.Load(); err != nil {
			b.bad("load", "the pool of a healthy database does not load: %v", err)
			return
		}
		b.drain(calm)
	})
}

var pPool = &Prof{Name: "pool", Keen: true, Main: poolMain}
