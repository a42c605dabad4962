// Package dht replaces the Kademlia DHT; discovery finds nothing new in the simulated network.
package dht

import (
	"context"
	"errors"

	"github.com/libp2p/go-libp2p/core/host"

	"github.com/sisu-network/dheart/zzsim/world"
)

type IpfsDHT struct{}
type Option struct{}

func New(ctx context.Context, h host.Host, o ...Option) (*IpfsDHT, error) {
	if world.W.Net.FailDHT(false) {
		return nil, errors.New("failed to create the routing table")
	}
	return &IpfsDHT{}, nil
}

func (d *IpfsDHT) Bootstrap(ctx context.Context) error {
	if world.W.Net.FailDHT(true) {
		return errors.New("failed to bootstrap")
	}
	return nil
}

func (d *IpfsDHT) Close() error { return nil }
