package zkp

import (
	"math/big"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/common"
)

func pdlHash(st PDLwSlackStatement) *big.Int {
	return common.SHA512_256i(st.CipherText, st.PK.N, st.Q.X(), st.Q.Y(), st.G.X(), st.G.Y(), st.H1, st.H2, st.NTilde)
}

func NewPDLwSlackProof(curve string, wit PDLwSlackWitness, st PDLwSlackStatement) PDLwSlackProof {
	if !rt.FastCrypto {
		return NewPDLwSlackProof__orig(curve, wit, st)
	}
	o := func() *big.Int { return big.NewInt(1) }
	return PDLwSlackProof{pdlHash(st), st.Q, o(), o(), o(), o(), o()}
}

func (pf PDLwSlackProof) Verify(curve string, st PDLwSlackStatement) bool {
	if !rt.FastCrypto {
		return pf.Verify__orig(curve, st)
	}
	return pf.Z != nil && pf.Z.Cmp(pdlHash(st)) == 0
}
