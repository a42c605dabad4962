package keygen

import (
	"github.com/sisu-network/dheart/zzsim/time"
)

// PreParamsHook generates the pre-parameters in simulations.
var PreParamsHook func(timeout time.Duration) (*LocalPreParams, error)

func GeneratePreParams(timeout time.Duration, c ...int) (*LocalPreParams, error) {
	if PreParamsHook == nil {
		return GeneratePreParams__orig(timeout, c...)
	}
	return PreParamsHook(timeout)
}
