package paillier

// Fast replacements of the Paillier operations: the "ciphertext" is the plaintext. They keep the
// homomorphism, so everything the protocol computes with them is unchanged.

import (
	"math/big"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/tss/common"
	crypto2 "github.com/sisu-network/dheart/zzsim/tss/crypto"
)

func (pk *PublicKey) EncryptWithChosenRandomness(m, x *big.Int) (*big.Int, error) {
	if !rt.FastCrypto {
		return pk.EncryptWithChosenRandomness__orig(m, x)
	}
	if m.Sign() < 0 || m.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Set(m), nil
}

func (pk *PublicKey) EncryptAndReturnRandomness(m *big.Int) (*big.Int, *big.Int, error) {
	if !rt.FastCrypto {
		return pk.EncryptAndReturnRandomness__orig(m)
	}
	c, err := pk.EncryptWithChosenRandomness(m, nil)
	return c, big.NewInt(1), err
}

func (pk *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if !rt.FastCrypto {
		return pk.HomoMult__orig(m, c1)
	}
	if m.Sign() < 0 || m.Cmp(pk.N) != -1 || c1.Sign() < 0 || c1.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	r := new(big.Int).Mul(m, c1)
	return r.Mod(r, pk.N), nil
}

func (pk *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	if !rt.FastCrypto {
		return pk.HomoAdd__orig(c1, c2)
	}
	if c1.Sign() < 0 || c1.Cmp(pk.N) != -1 || c2.Sign() < 0 || c2.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	r := new(big.Int).Add(c1, c2)
	return r.Mod(r, pk.N), nil
}

func (sk *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	if !rt.FastCrypto {
		return sk.Decrypt__orig(c)
	}
	if c.Sign() < 0 || c.Cmp(sk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Set(c), nil
}

func (sk *PrivateKey) DecryptAndRecoverRandomness(c *big.Int) (*big.Int, *big.Int, error) {
	if !rt.FastCrypto {
		return sk.DecryptAndRecoverRandomness__orig(c)
	}
	m, err := sk.Decrypt(c)
	return m, big.NewInt(1), err
}

func fastProof(n, k *big.Int, pub *crypto2.ECPoint) (pf Proof) {
	h := common.SHA512_256i(n, k, pub.X(), pub.Y())
	for i := range pf {
		pf[i] = new(big.Int).Add(h, big.NewInt(int64(i+1)))
	}
	return
}

func (sk *PrivateKey) Proof(k *big.Int, ecdsaPub *crypto2.ECPoint) Proof {
	if !rt.FastCrypto {
		return sk.Proof__orig(k, ecdsaPub)
	}
	return fastProof(sk.N, k, ecdsaPub)
}

func (pf Proof) Verify(pkN, k *big.Int, ecdsaPub *crypto2.ECPoint) (bool, error) {
	if !rt.FastCrypto {
		return pf.Verify__orig(pkN, k, ecdsaPub)
	}
	e := fastProof(pkN, k, ecdsaPub)
	for i := range pf {
		if pf[i] == nil || pf[i].Cmp(e[i]) != 0 {
			return false, nil
		}
	}
	return true, nil
}
