package tss

import (
	"crypto/elliptic"
	"math/big"

	"filippo.io/edwards25519"
	"github.com/decred/dcrd/dcrec/edwards/v2"
)

// fastEd computes exactly what the edwards curve of the decred library computes, without converting to
// affine coordinates after every step.
type fastEd struct{ elliptic.Curve }

func init() { ed = &fastEd{edwards.Edwards()} }

func point(x, y *big.Int) *edwards25519.Point {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > 255 || y.BitLen() > 255 {
		return nil
	}
	var b, le [32]byte
	y.FillBytes(b[:])
	for i := range b {
		le[31-i] = b[i]
	}
	le[31] |= byte(x.Bit(0)) << 7
	p, err := new(edwards25519.Point).SetBytes(le[:])
	if err != nil {
		return nil
	}
	if gx, gy := affine(p); gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
		return nil
	}
	return p
}

var fieldP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func affine(p *edwards25519.Point) (*big.Int, *big.Int) {
	X, Y, Z, _ := p.ExtendedCoordinates()
	Z.Invert(Z)
	X.Multiply(X, Z)
	Y.Multiply(Y, Z)
	return le(X.Bytes()), le(Y.Bytes())
}

func (c *fastEd) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	a, b := point(x1, y1), point(x2, y2)
	if a == nil || b == nil {
		return c.Curve.Add(x1, y1, x2, y2)
	}
	return affine(a.Add(a, b))
}

func (c *fastEd) Double(x, y *big.Int) (*big.Int, *big.Int) { return c.Add(x, y, x, y) }

func (c *fastEd) ScalarMult(x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	p := point(x, y)
	if p == nil {
		return c.Curve.ScalarMult(x, y, k)
	}
	s := new(big.Int).SetBytes(k)
	q := edwards25519.NewIdentityPoint()
	for i := s.BitLen() - 1; i >= 0; i-- {
		q.Add(q, q)
		if s.Bit(i) == 1 {
			q.Add(q, p)
		}
	}
	return affine(q)
}

func (c *fastEd) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	return c.ScalarMult(c.Params().Gx, c.Params().Gy, k)
}
