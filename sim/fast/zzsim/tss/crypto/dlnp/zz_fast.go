package dlnp

import (
	"math/big"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/common"
)

func NewProof(h1, h2, x, p, q, N *big.Int) *Proof {
	if !rt.FastCrypto {
		return NewProof__orig(h1, h2, x, p, q, N)
	}
	pf := &Proof{}
	for i := range pf.Alpha {
		pf.Alpha[i], pf.T[i] = big.NewInt(1), big.NewInt(1)
	}
	pf.Alpha[0] = common.SHA512_256i(h1, h2, N)
	return pf
}

func (p *Proof) Verify(h1, h2, N *big.Int) bool {
	if !rt.FastCrypto {
		return p.Verify__orig(h1, h2, N)
	}
	return p != nil && p.Alpha[0] != nil && p.Alpha[0].Cmp(common.SHA512_256i(h1, h2, N)) == 0
}
