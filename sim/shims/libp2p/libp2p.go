// Package libp2p replaces github.com/libp2p/go-libp2p by the simulated network.
package libp2p

import (
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/peer"
	ma "github.com/multiformats/go-multiaddr"

	"github.com/sisu-network/dheart/zzsim/world"
)

type Config struct {
	addrs []ma.Multiaddr
	key   crypto.PrivKey
}

type Option func(*Config) error

func ListenAddrs(a ...ma.Multiaddr) Option {
	return func(c *Config) error { c.addrs = append(c.addrs, a...); return nil }
}

func ListenAddrStrings(s ...string) Option {
	return func(c *Config) error {
		for _, x := range s {
			a, err := ma.NewMultiaddr(x)
			if err != nil {
				return err
			}
			c.addrs = append(c.addrs, a)
		}
		return nil
	}
}

func Identity(k crypto.PrivKey) Option { return func(c *Config) error { c.key = k; return nil } }

func New(opts ...Option) (host.Host, error) {
	c := &Config{}
	for _, o := range opts {
		if err := o(c); err != nil {
			return nil, err
		}
	}
	id, err := peer.IDFromPrivateKey(c.key)
	if err != nil {
		return nil, err
	}
	h, err := world.W.Net.NewHost(id, c.addrs)
	if err != nil {
		return nil, err
	}
	return h, nil
}
