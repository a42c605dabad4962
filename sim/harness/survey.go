package main

import (
	"flag"
	"os"
	"syscall"
	"time"
)

// cmdSurvey runs all properties' profiles in turn until the first violation that a check would report. It is used to
// see whether a change of the code is noticed at all; no check uses it.
func cmdSurvey(args []string) {
	fs := flag.NewFlagSet("survey", flag.ExitOnError)
	base := fs.Uint64("base", 1, "")
	secs := fs.Float64("time", 60, "")
	fs.Parse(args)
	names := sortedKeys(props)
	cpu := func() float64 { // seconds of processor time, other programs may have slowed this one down
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return float64(u.Utime.Nano()+u.Stime.Nano()) / 1e9
	}
	t0 := time.Now()
	var cur string
	watchdog(60*time.Second, func(where string) { say("FOUND hang in %s (%s)", where, cur); os.Exit(0) })
	runs := 0
	for i := 0; cpu() < *secs; i++ {
		seed := seedOf("survey", *base, i)
		prop := names[newRng(seed, "prop").Intn(len(names))]
		pr := props[prop].prof(seed)
		cur = pr.Name
		res := execute(prop, pr, seed, false, nil, false)
		runs++
		for _, v := range res.Viol {
			if d := props[v.Prop]; d != nil {
				for _, w := range d.Profs {
					if w.P.Name == pr.Name && w.N > 0 {
						say("FOUND %s %s prof=%s seed=%d after %d runs %.0f s: %.150s", v.Prop, v.Class, pr.Name, seed, runs, time.Since(t0).Seconds(), v.Detail)
						return
					}
				}
			}
		}
	}
	say("SURVIVED %d runs", runs)
}
