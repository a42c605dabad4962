// Package routing replaces libp2p's routing discovery.
package routing

import (
	"context"
	"time"

	"github.com/sisu-network/dheart/zzsim/dht"
)

type RoutingDiscovery struct{}

func NewRoutingDiscovery(d *dht.IpfsDHT) *RoutingDiscovery { return &RoutingDiscovery{} }
func (r *RoutingDiscovery) Advertise(ctx context.Context, ns string, o ...interface{}) (time.Duration, error) {
	return time.Hour, nil
}
