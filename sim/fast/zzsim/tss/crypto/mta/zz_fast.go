package mta

// Fast stand-ins of the zero-knowledge proofs: a hash of the public statement.

import (
	"math/big"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/common"
	"github.com/sisu-network/dheart/zzsim/tss/crypto"
	"github.com/sisu-network/dheart/zzsim/tss/crypto/paillier"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
)

func one() *big.Int { return big.NewInt(1) }

func bobHash(pk *paillier.PublicKey, NTilde, h1, h2, c1, c2 *big.Int, X *crypto.ECPoint) *big.Int {
	l := []*big.Int{pk.N, NTilde, h1, h2, c1, c2}
	if X != nil {
		l = append(l, X.X(), X.Y())
	}
	return common.SHA512_256i(l...)
}

func ProveBobWC(curve string, pk *paillier.PublicKey, NTilde, h1, h2, c1, c2, x, y, r *big.Int, X *crypto.ECPoint) (*ProofBobWC, error) {
	if !rt.FastCrypto {
		return ProveBobWC__orig(curve, pk, NTilde, h1, h2, c1, c2, x, y, r, X)
	}
	pf := &ProofBob{Z: bobHash(pk, NTilde, h1, h2, c1, c2, X), ZPrm: one(), T: one(), V: one(), W: one(), S: one(), S1: one(), S2: one(), T1: one(), T2: one()}
	u := X
	if u == nil {
		u = crypto.ScalarBaseMult(tss.EC(curve), one())
	}
	return &ProofBobWC{ProofBob: pf, U: u}, nil
}

func (pf *ProofBobWC) Verify(curve string, pk *paillier.PublicKey, NTilde, h1, h2, c1, c2 *big.Int, X *crypto.ECPoint) bool {
	if !rt.FastCrypto {
		return pf.Verify__orig(curve, pk, NTilde, h1, h2, c1, c2, X)
	}
	return pf != nil && pf.ProofBob != nil && pf.Z.Cmp(bobHash(pk, NTilde, h1, h2, c1, c2, X)) == 0
}

func aliceHash(pk *paillier.PublicKey, c, NTilde, h1, h2 *big.Int) *big.Int {
	return common.SHA512_256i(pk.N, c, NTilde, h1, h2)
}

func ProveRangeAlice(curve string, pk *paillier.PublicKey, c, NTilde, h1, h2, m, r *big.Int) (*RangeProofAlice, error) {
	if !rt.FastCrypto {
		return ProveRangeAlice__orig(curve, pk, c, NTilde, h1, h2, m, r)
	}
	return &RangeProofAlice{Z: aliceHash(pk, c, NTilde, h1, h2), U: one(), W: one(), S: one(), S1: one(), S2: one()}, nil
}

func (pf *RangeProofAlice) Verify(curve string, pk *paillier.PublicKey, NTilde, h1, h2, c *big.Int) bool {
	if !rt.FastCrypto {
		return pf.Verify__orig(curve, pk, NTilde, h1, h2, c)
	}
	return pf != nil && pf.Z.Cmp(aliceHash(pk, c, NTilde, h1, h2)) == 0
}
