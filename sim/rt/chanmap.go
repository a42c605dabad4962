package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------------------------- channels

type selWait struct {
	fired bool
	idx   int
	val   interface{}
	ok    bool
	q     []*chanState
}

type waiter struct {
	g   *G
	sw  *selWait
	idx int
	val interface{}
}

type chanState struct {
	seq    int
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	h      hb
}

func (w *waiter) stale() bool { return w.sw.fired || w.g.dead || w.g.exited }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if !w.stale() {
			return w
		}
	}
	return nil
}

func trimWaiters(q *[]*waiter) {
	k := (*q)[:0]
	for _, w := range *q {
		if !w.stale() {
			k = append(k, w)
		}
	}
	for i := len(k); i < len(*q); i++ {
		(*q)[i] = nil
	}
	*q = k
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		if !(*q)[0].stale() {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func chState(p unsafe.Pointer, c int) *chanState {
	if p == nil {
		return nil
	}
	st := S.chans[p]
	if st == nil {
		st = &chanState{cap: c, seq: len(S.chans)}
		S.chans[p] = st
	}
	return st
}

func ptrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (st *chanState) canSend() bool {
	return st.closed || len(st.buf) < st.cap || hasWaiter(&st.recvq)
}
func (st *chanState) canRecv() bool {
	return st.closed || len(st.buf) > 0 || hasWaiter(&st.sendq)
}

func wakeSel(w *waiter, val interface{}, ok bool) {
	w.sw.fired = true
	w.sw.idx = w.idx
	w.sw.val = val
	w.sw.ok = ok
	w.g.sel = nil
	S.Ready(w.g)
}

func (st *chanState) doSend(v interface{}) {
	if st.closed {
		panic("send on closed channel")
	}
	st.h.acquire()
	st.h.release()
	if w := popWaiter(&st.recvq); w != nil {
		wakeSel(w, v, true)
		return
	}
	st.buf = append(st.buf, v)
}

func (st *chanState) doRecv() (interface{}, bool) {
	st.h.acquire()
	st.h.release()
	if len(st.buf) > 0 {
		v := st.buf[0]
		st.buf[0] = nil
		st.buf = st.buf[1:]
		if w := popWaiter(&st.sendq); w != nil {
			st.buf = append(st.buf, w.val)
			wakeSel(w, nil, true)
		}
		return v, true
	}
	if w := popWaiter(&st.sendq); w != nil {
		v := w.val
		wakeSel(w, nil, true)
		return v, true
	}
	return nil, false // closed
}

func blockForever(g *G, what string) {
	g.waitSince, g.waitN = S.now, runtime.Callers(2, g.waitPC[:])
	for {
		g.waitKind = what
		S.park(g)
	}
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		g := cur
		if g == nil { // outside a simulation: only buffered use
			select {
			case ch <- v:
			default:
				panic("rt: channel send outside simulation")
			}
			return
		}
		if g.dead {
			return
		}
		P()
		st := chState(ptrS(ch), cap(ch))
		if st == nil {
			blockForever(g, "chan send (nil)")
		}
		if st.canSend() {
			st.doSend(v)
			return
		}
		if g == S.evG {
			panic("rt: event blocks on channel send")
		}
		sw := &selWait{}
		st.h.release()
		trimWaiters(&st.sendq)
		st.sendq = append(st.sendq, &waiter{g: g, sw: sw, val: v})
		g.sel = sw
		g.waitSince, g.waitN = S.now, runtime.Callers(2, g.waitPC[:])
		for !sw.fired {
			g.waitKind = "chan send"
			S.park(g)
		}
		st.h.acquire()
		if !sw.ok {
			panic("send on closed channel")
		}
	}
}

// TrySend is a non-blocking send used by shims.
func TrySend[T any](ch chan<- T, v T) bool {
	if S == nil {
		return false
	}
	st := chState(ptrS(ch), cap(ch))
	if st.closed || !st.canSend() {
		return false
	}
	st.doSend(v)
	return true
}

func recv[T any](ch <-chan T) (r T, ok bool) {
	g := cur
	if g == nil {
		select {
		case r, ok = <-ch:
			return
		default:
			panic("rt: channel receive outside simulation")
		}
	}
	if g.dead {
		runtime.Goexit()
	}
	P()
	st := chState(ptrR(ch), cap(ch))
	if st == nil {
		blockForever(g, "chan receive (nil)")
	}
	var v interface{}
	if st.canRecv() {
		v, ok = st.doRecv()
	} else {
		if g == S.evG {
			panic("rt: event blocks on channel receive")
		}
		sw := &selWait{}
		trimWaiters(&st.recvq)
		st.recvq = append(st.recvq, &waiter{g: g, sw: sw})
		g.sel = sw
		for !sw.fired {
			g.waitKind = "chan receive"
			S.park(g)
		}
		st.h.acquire()
		v, ok = sw.val, sw.ok
	}
	if v != nil {
		r = v.(T)
	}
	return
}

func Recv[T any](ch <-chan T) T          { v, _ := recv(ch); return v }
func Recv2[T any](ch <-chan T) (T, bool) { return recv(ch) }

func Close[T any](ch chan<- T) {
	if cur == nil {
		close(ch)
		return
	}
	if cur.dead {
		return
	}
	CloseP(ptrS(ch), cap(ch))
	P()
}

func CloseP(p unsafe.Pointer, c int) {
	st := chState(p, c)
	if st == nil {
		panic("close of nil channel")
	}
	if st.closed {
		panic("close of closed channel")
	}
	st.h.release()
	st.closed = true
	for {
		w := popWaiter(&st.recvq)
		if w == nil {
			break
		}
		wakeSel(w, nil, false)
	}
	for {
		w := popWaiter(&st.sendq)
		if w == nil {
			break
		}
		wakeSel(w, nil, false)
	}
}

func ChLen[T any](ch <-chan T) int {
	if cur == nil || ch == nil {
		return len(ch)
	}
	return len(chState(ptrR(ch), cap(ch)).buf)
}

type ChIt[T any] struct{ ch <-chan T }

func ChIter[T any](ch <-chan T) *ChIt[T]            { return &ChIt[T]{ch} }
func ChIterK[T any](ch <-chan T) (r T, it *ChIt[T]) { return r, &ChIt[T]{ch} }
func (c *ChIt[T]) Next() bool                       { _, ok := recv(c.ch); return ok }
func (c *ChIt[T]) NextK(v *T) bool {
	x, ok := recv(c.ch)
	if ok {
		*v = x
	}
	return ok
}

// ---- select

type SelOp struct {
	p    unsafe.Pointer
	cap  int
	send bool
	val  interface{}
}

type Sel struct {
	val interface{}
	ok  bool
}

func NewSel() *Sel { return &Sel{} }

func SelR[T any](ch <-chan T) SelOp { return SelOp{p: ptrR(ch), cap: cap(ch)} }
func SelS[T any](ch chan<- T) func(T) SelOp {
	return func(v T) SelOp { return SelOp{p: ptrS(ch), cap: cap(ch), send: true, val: v} }
}
func SelV[T any](s *Sel, ch <-chan T) (r T) {
	if s.val != nil {
		r = s.val.(T)
	}
	return
}
func SelV2[T any](s *Sel, ch <-chan T) (r T, ok bool) { return SelV(s, ch), s.ok }

func (s *Sel) Do(hasDefault bool, ops ...SelOp) int {
	g := cur
	if g == nil {
		if hasDefault {
			return -1
		}
		panic("rt: select outside simulation")
	}
	if g.dead {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	P()
	var rdy [16]int
	n := 0
	for i := range ops {
		if ops[i].p == nil {
			continue
		}
		st := chState(ops[i].p, ops[i].cap)
		if ops[i].send && st.canSend() || !ops[i].send && st.canRecv() {
			if n < len(rdy) {
				rdy[n] = i
				n++
			}
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			k = S.Decide("select", n, S.Cfg.PSelect)
			S.SelectChoices++
		}
		i := rdy[k]
		st := chState(ops[i].p, ops[i].cap)
		if ops[i].send {
			st.doSend(ops[i].val)
		} else {
			s.val, s.ok = st.doRecv()
		}
		return i
	}
	if hasDefault {
		return -1
	}
	if g == S.evG {
		panic("rt: event blocks in select")
	}
	sw := &selWait{}
	for i := range ops {
		if ops[i].p == nil {
			continue
		}
		st := chState(ops[i].p, ops[i].cap)
		w := &waiter{g: g, sw: sw, idx: i, val: ops[i].val}
		if ops[i].send {
			st.h.release()
			trimWaiters(&st.sendq)
			st.sendq = append(st.sendq, w)
		} else {
			trimWaiters(&st.recvq)
			st.recvq = append(st.recvq, w)
		}
	}
	g.sel = sw
	for !sw.fired {
		g.waitKind = "select"
		S.park(g)
	}
	st := chState(ops[sw.idx].p, ops[sw.idx].cap)
	st.h.acquire()
	if ops[sw.idx].send && !sw.ok {
		panic("send on closed channel")
	}
	s.val, s.ok = sw.val, sw.ok
	return sw.idx
}

// ---------------------------------------------------------------------------------- maps

type mapAcc struct {
	slot  int
	clock uint32
	pc    [6]uintptr
	n     int
}

type mapState struct {
	node  *Node
	gen   int
	write *mapAcc
	reads []mapAcc
}

func (s *Sim) access(p unsafe.Pointer, write bool) {
	g := cur
	if p == nil || g == s.evG || g.Node == s.root {
		return
	}
	st := s.maps[p]
	if st == nil || st.node != g.Node || st.gen != g.Node.Gen {
		st = &mapState{node: g.Node, gen: g.Node.Gen}
		s.maps[p] = st
	}
	me := mapAcc{slot: g.slot}
	g.tick()
	me.clock = g.vc[g.slot]
	me.n = runtime.Callers(3, me.pc[:])
	ordered := func(a *mapAcc) bool {
		return a.slot == g.slot || a.slot < len(g.vc) && g.vc[a.slot] >= a.clock
	}
	if st.write != nil && !ordered(st.write) {
		s.report(g, st.write, &me, true, write)
	}
	if write {
		for i := range st.reads {
			if !ordered(&st.reads[i]) {
				s.report(g, &st.reads[i], &me, false, true)
			}
		}
		st.reads = nil
		st.write = &me
		return
	}
	for i := range st.reads {
		if st.reads[i].slot == g.slot {
			st.reads[i] = me
			return
		}
	}
	st.reads = append(st.reads, me)
}

func (s *Sim) report(g *G, a, b *mapAcc, aw, bw bool) {
	name := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	r := Race{Node: g.Node.Name, A: frames(a.pc[:a.n]), B: frames(b.pc[:b.n]), AOp: name(aw), BOp: name(bw), At: s.now}
	key := r.A + "|" + r.B
	if s.races[key] {
		return
	}
	s.races[key] = true
	s.Races = append(s.Races, r)
	s.Logf("RACE %s: %s %s / %s %s", r.Node, r.AOp, r.A, r.BOp, r.B)
}

func MR[M ~map[K]V, K comparable, V any](m M) M {
	if cur != nil && S.Cfg.Race && !cur.dead {
		S.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M) M {
	if cur != nil && S.Cfg.Race && !cur.dead {
		S.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true)
	}
	return m
}

type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// order compares two map keys by content, so that an iteration does not depend on addresses: 0 means that they
// cannot be told apart.
func order(a, b reflect.Value, depth int) int {
	sign := func(lt, gt bool) int {
		switch {
		case lt:
			return -1
		case gt:
			return 1
		}
		return 0
	}
	switch a.Kind() {
	case reflect.String:
		return sign(a.String() < b.String(), a.String() > b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return sign(a.Int() < b.Int(), a.Int() > b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return sign(a.Uint() < b.Uint(), a.Uint() > b.Uint())
	case reflect.Float32, reflect.Float64:
		return sign(a.Float() < b.Float(), a.Float() > b.Float())
	case reflect.Bool:
		return sign(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := order(a.Field(i), b.Field(i), depth); c != 0 {
				return c
			}
		}
	case reflect.Array, reflect.Slice:
		if a.Kind() == reflect.Slice && a.Len() != b.Len() {
			return sign(a.Len() < b.Len(), true)
		}
		for i := 0; i < a.Len(); i++ {
			if c := order(a.Index(i), b.Index(i), depth); c != 0 {
				return c
			}
		}
	case reflect.Map:
		return sign(a.Len() < b.Len(), a.Len() > b.Len())
	case reflect.Chan:
		x, y := S.chans[a.UnsafePointer()], S.chans[b.UnsafePointer()]
		if x != nil && y != nil {
			return sign(x.seq < y.seq, x.seq > y.seq)
		}
		return sign(x != nil && y == nil, x == nil && y != nil)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return sign(a.IsNil() && !b.IsNil(), b.IsNil() && !a.IsNil())
		}
		if x, y := a.Elem().Type().String(), b.Elem().Type().String(); x != y {
			return sign(x < y, true)
		}
		return order(a.Elem(), b.Elem(), depth)
	case reflect.Ptr:
		if a.Pointer() == b.Pointer() {
			return 0
		}
		if a.IsNil() || b.IsNil() {
			return sign(a.IsNil(), b.IsNil())
		}
		if a.CanInterface() {
			if x, ok := a.Interface().(fmt.Stringer); ok { // such as party ids
				x, y := x.String(), b.Interface().(fmt.Stringer).String()
				return sign(x < y, x > y)
			}
		}
		if depth > 3 {
			return 0
		}
		return order(a.Elem(), b.Elem(), depth+1)
	}
	return 0
}

func newIt[K comparable, V any](m map[K]V) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	if cur == nil || len(m) == 0 {
		for k := range m {
			it.keys = append(it.keys, k)
		}
		return it
	}
	if S.Cfg.Race && !cur.dead {
		S.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	n := len(it.keys)
	if n > 1 {
		sortable := true
		switch ks := any(it.keys).(type) {
		case []string:
			sort.Strings(ks)
		case []int:
			sort.Ints(ks)
		default:
			vs := make([]reflect.Value, n)
			for i := range it.keys {
				vs[i] = reflect.ValueOf(&it.keys[i]).Elem()
			}
			sort.SliceStable(it.keys, func(i, j int) bool { return order(vs[i], vs[j], 0) < 0 })
			for i := 1; i < n; i++ {
				if order(vs[i-1], vs[i], 0) == 0 {
					sortable = false
				}
			}
		}
		if !sortable {
			S.Err = fmt.Sprintf("map with unorderable keys is iterated: %T", m)
		}
		if S.Cfg.PMap > 0 || S.Cfg.Replay {
			k := S.Decide("map", 2*n, S.Cfg.PMap)
			if k > 0 {
				S.MapShuffles++
				rot := k % n
				ks := append(append([]K(nil), it.keys[rot:]...), it.keys[:rot]...)
				if k >= n {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						ks[i], ks[j] = ks[j], ks[i]
					}
				}
				it.keys = ks
			}
		}
	}
	return it
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] { return newIt(map[K]V(m)) }
func MapIterK[M ~map[K]V, K comparable, V any](m M) (k K, it *MapIt[K, V]) {
	return k, newIt(map[K]V(m))
}
func MapIterV[M ~map[K]V, K comparable, V any](m M) (v V, it *MapIt[K, V]) {
	return v, newIt(map[K]V(m))
}
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIt[K, V]) {
	return k, v, newIt(map[K]V(m))
}

func (it *MapIt[K, V]) step(k *K, v *V) bool {
	if it.i > 0 {
		MR(it.m)
	}
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func (it *MapIt[K, V]) Next() bool             { return it.step(nil, nil) }
func (it *MapIt[K, V]) NextK(k *K) bool        { return it.step(k, nil) }
func (it *MapIt[K, V]) NextV(v *V) bool        { return it.step(nil, v) }
func (it *MapIt[K, V]) NextKV(k *K, v *V) bool { return it.step(k, v) }

var _ = strings.Contains
