package world

import (
	"context"
	"encoding/json"
	"errors"
	"time"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

// RPC is the world of JSON-RPC servers (the Sisu side).
type RPC struct {
	w       *World
	servers map[string]*RPCServer
}

// RPCServer is one simulated server. Handle runs on the server's own goroutine.
type RPCServer struct {
	URL      string
	Node     *rt.Node
	Down     bool    // connection refused
	Hang     bool    // accepts and never answers while set
	HangRep  bool    // processes requests and does not answer while set
	PLate    float64 // a request the caller gave up on during a hang is processed when the hang ends
	Handle   func(method string, params []json.RawMessage) (interface{}, error)
	PFail    float64 // request lost before it is processed
	PLost    float64 // reply lost after it was processed
	PSlow    float64
	Quiet    bool
	FailNext int
	Attempts []time.Duration // when calls arrived or were refused
	Answered []time.Duration // when a caller got an answer
	Methods  []string        // of the Attempts
	late     []func()
}

func (r *RPC) Serve(url string, node *rt.Node, h func(string, []json.RawMessage) (interface{}, error)) *RPCServer {
	s := &RPCServer{URL: url, Node: node, Handle: h}
	r.servers[url] = s
	return s
}

func (r *RPC) Server(url string) *RPCServer { return r.servers[url] }

var errConn = errors.New("dial tcp: connect: connection refused")

// Count is the number of calls of a method so far, including those that failed.
func (s *RPCServer) Count(method string) (k int) {
	for _, m := range s.Methods {
		if m == method {
			k++
		}
	}
	return k
}

// Unhang ends a hang.
func (s *RPCServer) Unhang() {
	s.Hang, s.HangRep = false, false
	l := s.late
	s.late = nil
	for _, f := range l {
		rt.S.Spawn(s.Node, f)
	}
}

// stuck waits while the server hangs and the caller's context lasts.
func stuck(ctx context.Context, hang *bool) error {
	for *hang {
		if err := sleepCtx(ctx, 200*time.Millisecond); err != nil {
			return err
		}
	}
	return nil
}

// Call performs one round trip.
func (r *RPC) Call(ctx context.Context, url, method string, args []interface{}) (json.RawMessage, error) {
	rt.P()
	params := make([]json.RawMessage, len(args))
	for i, a := range args {
		bz, err := json.Marshal(a)
		if err != nil {
			return nil, err
		}
		params[i] = bz
	}
	s := r.servers[url]
	if err := sleepCtx(ctx, time.Millisecond); err != nil {
		return nil, err
	}
	if s != nil {
		s.Attempts = append(s.Attempts, r.w.S.Now())
		s.Methods = append(s.Methods, method)
	}
	if s == nil || s.Down {
		return nil, errConn
	}
	S := r.w.S
	if !s.Quiet {
		if s.FailNext > 0 {
			s.FailNext--
			r.w.Count("rpc.fail")
			return nil, errors.New("read: connection reset by peer")
		}
		if k := S.Decide("rpc.slow:"+url, 32, s.PSlow); k > 0 {
			r.w.Count("rpc.slow")
			if err := sleepCtx(ctx, time.Duration(k)*100*time.Millisecond); err != nil {
				return nil, err
			}
		}
		if S.Chance("rpc.fail:"+url, s.PFail) {
			r.w.Count("rpc.fail")
			return nil, errors.New("read: connection reset by peer")
		}
	}
	if s.Hang {
		r.w.Count("rpc.hang")
		if err := stuck(ctx, &s.Hang); err != nil {
			r.w.Count("rpc.timeout")
			if S.Chance("rpc.late:"+url, s.PLate) {
				r.w.Count("rpc.late")
				s.late = append(s.late, func() { s.Handle(method, params) })
			}
			return nil, err
		}
	}
	if s.Down {
		return nil, errConn
	}
	var res interface{}
	var herr error
	done := false
	me := rt.Cur()
	g := S.Spawn(s.Node, func() {
		res, herr = s.Handle(method, params)
		done = true
		S.Ready(me)
	})
	if g == nil {
		return nil, errConn
	}
	for !done {
		rt.Park("rpc reply")
	}
	if !s.Quiet && S.Chance("rpc.lost:"+url, s.PLost) {
		r.w.Count("rpc.lostreply")
		return nil, errors.New("unexpected EOF")
	}
	if s.HangRep {
		r.w.Count("rpc.hangreply")
		if err := stuck(ctx, &s.HangRep); err != nil {
			r.w.Count("rpc.timeout")
			return nil, err
		}
	}
	rt.Sleep(time.Millisecond)
	s.Answered = append(s.Answered, r.w.S.Now())
	if herr != nil {
		return nil, herr
	}
	return json.Marshal(res)
}
