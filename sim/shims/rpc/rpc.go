// Package rpc replaces the go-ethereum RPC client by the simulated one.
package rpc

import (
	"context"
	"encoding/json"
	"errors"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/world"
)

type Client struct{ url string }

func Dial(url string) (*Client, error) { return DialContext(context.Background(), url) }

// DialContext only prepares an HTTP client in the real library; it fails for malformed URLs.
func DialContext(ctx context.Context, url string) (*Client, error) {
	rt.P()
	if url == "" {
		return nil, errors.New("no known transport for URL scheme \"\"")
	}
	if world.W.RPC.Server(url) != nil && world.W.S.Chance("rpc.dial:"+url, dialFail(url)) {
		world.W.Count("rpc.dialfail")
		return nil, errors.New("dial failed")
	}
	return &Client{url: url}, nil
}

func dialFail(url string) float64 {
	s := world.W.RPC.Server(url)
	if s.Quiet {
		return 0
	}
	return s.PFail
}

func (c *Client) Call(result interface{}, method string, args ...interface{}) error {
	return c.CallContext(context.Background(), result, method, args...)
}

func (c *Client) CallContext(ctx context.Context, result interface{}, method string, args ...interface{}) error {
	bz, err := world.W.RPC.Call(ctx, c.url, method, args)
	if err != nil {
		return err
	}
	if result == nil || len(bz) == 0 {
		return nil
	}
	return json.Unmarshal(bz, result)
}

func (c *Client) Close() {}
