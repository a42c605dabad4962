package main

import (
	crand "crypto/rand"
	"fmt"
	mrand "math/rand"
	"os"
	"strings"

	ipfslog "github.com/ipfs/go-log/v2"
	"github.com/sisu-network/lib/log"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/sql"
	"github.com/sisu-network/dheart/zzsim/world"
)

// ---------------------------------------------------------------------------- randomness

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// prng is the harness' own generator for data that is not a scheduling decision.
type prng struct{ s uint64 }

func newRng(seed uint64, name string) *prng { return &prng{rt.HashString(fmt.Sprint(seed, "/", name))} }
func (p *prng) next() uint64                { p.s += 0x9e3779b97f4a7c15; return mix(p.s) }
func (p *prng) Intn(n int) int              { return int(p.next() % uint64(n)) }
func (p *prng) Float() float64              { return float64(p.next()>>11) / (1 << 53) }
func (p *prng) Bytes(n int) []byte {
	b := make([]byte, n)
	p.Read(b)
	return b
}
func (p *prng) Read(b []byte) (int, error) {
	for i := 0; i < len(b); i += 8 {
		v := p.next()
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
	return len(b), nil
}

// simReader replaces crypto/rand.Reader: one deterministic stream per node.
type simReader struct {
	seed uint64
	m    map[int]*prng
}

func (r *simReader) Read(b []byte) (int, error) {
	if len(b) == 1 { // randutil.MaybeReadByte must not shift the stream
		b[0] = 0x5a
		return 1, nil
	}
	id := -1
	if g := rt.Cur(); g != nil {
		id = g.Node.ID
	}
	p := r.m[id]
	if p == nil {
		p = newRng(r.seed, fmt.Sprint("rand", id))
		r.m[id] = p
	}
	return p.Read(b)
}

func seedEnv(seed uint64) {
	crand.Reader = &simReader{seed: seed, m: map[int]*prng{}}
	mrand.Seed(int64(seed))
}

// ---------------------------------------------------------------------------- logging

type nolog struct{}

var logCount = map[string]int64{}
var showLog = os.Getenv("SIM_LOG") != ""

func out(level, s string) {
	if !showLog || rt.S == nil {
		return
	}
	n := ""
	if g := rt.Cur(); g != nil {
		n = g.Node.Name
	}
	rt.S.Log = append(rt.S.Log, fmt.Sprintf("%11.6f    [%s] %s %s", float64(rt.S.Now())/1e9, n, level, strings.TrimSpace(s)))
}
func f(level, format string, a []interface{}) {
	if showLog {
		out(level, fmt.Sprintf(format, a...))
	}
}
func p(level string, a []interface{}) {
	if showLog {
		out(level, fmt.Sprint(a...))
	}
}

func (nolog) Critical(a ...interface{})               { p("CRIT", a) }
func (nolog) Error(a ...interface{})                  { p("ERR", a) }
func (nolog) Errorf(s string, a ...interface{})       { f("ERR", s, a) }
func (nolog) Warn(a ...interface{})                   { p("WARN", a) }
func (nolog) Warnf(s string, a ...interface{})        { f("WARN", s, a) }
func (nolog) Info(a ...interface{})                   { p("INFO", a) }
func (nolog) Infof(s string, a ...interface{})        { f("INFO", s, a) }
func (nolog) Debug(a ...interface{})                  { p("DBG", a) }
func (nolog) Debugf(s string, a ...interface{})       { f("DBG", s, a) }
func (nolog) Verbose(a ...interface{})                { p("VRB", a) }
func (nolog) Verbosef(s string, a ...interface{})     { f("VRB", s, a) }
func (nolog) HighVerbose(a ...interface{})            { p("HVB", a) }
func (nolog) HighVerbosef(s string, a ...interface{}) { f("HVB", s, a) }

var realStdout = os.Stdout

func initEnv() {
	log.SetLogger(nolog{})
	ipfslog.SetAllLoggers(ipfslog.LevelFatal)
	sql.Register("mysql", world.Driver{})
	// the code under test prints here and there
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
}
