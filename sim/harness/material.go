package main

import (
	"crypto/sha256"
	"embed"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/peer"

	rt "github.com/sisu-network/dheart/zzsim/rt"
	eckeygen "github.com/sisu-network/dheart/zzsim/tss/ecdsa/keygen"
	ecsigning "github.com/sisu-network/dheart/zzsim/tss/ecdsa/signing"
	edkeygen "github.com/sisu-network/dheart/zzsim/tss/eddsa/keygen"
	"github.com/sisu-network/dheart/zzsim/tss/tss"
)

//go:embed fixtures/*.json
var fixtures embed.FS

func preparams(i int) *eckeygen.LocalPreParams {
	bz, err := fixtures.ReadFile(fmt.Sprintf("fixtures/preparams_data_%d.json", i%15))
	if err != nil {
		panic(err)
	}
	p := &eckeygen.LocalPreParams{}
	if err := json.Unmarshal(bz, p); err != nil {
		panic(err)
	}
	return p
}

// Val is one validator identity.
type Val struct {
	Priv ctypes.PrivKey
	Pub  ctypes.PubKey
	Peer peer.ID
	ID   string
	Type string
}

func newVal(i int, kind string) *Val {
	seed := sha256.Sum256([]byte(fmt.Sprintf("validator %s %d", kind, i)))
	v := &Val{Type: kind}
	var p2p crypto.PubKey
	var err error
	if kind == "ed25519" {
		k := ed25519.GenPrivKeyFromSecret(seed[:])
		v.Priv, v.Pub = k, k.PubKey()
		p2p, err = crypto.UnmarshalEd25519PublicKey(v.Pub.Bytes())
	} else {
		k := secp256k1.GenPrivKeyFromSecret(seed[:])
		v.Priv, v.Pub = k, k.PubKey()
		p2p, err = crypto.UnmarshalSecp256k1PublicKey(v.Pub.Bytes())
	}
	if err != nil {
		panic(err)
	}
	v.Peer, err = peer.IDFromPublicKey(p2p)
	if err != nil {
		panic(err)
	}
	v.ID = v.Peer.String()
	return v
}

func (v *Val) partyID() *tss.PartyID {
	return tss.NewPartyID(v.ID, "", new(big.Int).SetBytes(v.Pub.Bytes()))
}

// threshold is the documented rule: two thirds of the parties, minus one.
func threshold(n int) int { return (n+1)*2/3 - 1 }

// Material is group key material made by driving the threshold library directly.
type Material struct {
	N    int
	Vals []*Val
	Ec   []*eckeygen.LocalPartySaveData // by validator index
	Ed   []*edkeygen.LocalPartySaveData
	pre  map[string][]*ecsigning.SignatureData_OneRoundData // subset -> per member, one batch entry per call
}

var materials = map[string]*Material{}

func materialKey(n int, kind string) string { return fmt.Sprint(n, kind, rt.FastCrypto) }

// material returns (and caches) the key material of a group.
func material(n int, kind string) *Material {
	k := materialKey(n, kind)
	if m := materials[k]; m != nil {
		return m
	}
	m := &Material{N: n, pre: map[string][]*ecsigning.SignatureData_OneRoundData{}}
	for i := 0; i < n; i++ {
		m.Vals = append(m.Vals, newVal(i, kind))
	}
	outsideSim(func() { m.keygen() })
	materials[k] = m
	return m
}

// outsideSim runs library code in a private simulation before the real run starts.
func outsideSim(f func()) {
	if rt.S != nil {
		panic("material requested inside a run")
	}
	seedEnv(4711)
	s := rt.New(rt.Config{Seed: 4711, MaxSteps: 1 << 40})
	s.Run(f)
	if s.Err != "" || s.Runaway != "" {
		panic("material: " + s.Err + s.Runaway)
	}
}

func (m *Material) pids(idx []int) (tss.SortedPartyIDs, map[string]int) {
	var l []*tss.PartyID
	by := map[string]int{}
	for _, i := range idx {
		l = append(l, m.Vals[i].partyID())
		by[m.Vals[i].ID] = i
	}
	return tss.SortPartyIDs(l), by
}

func all(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// drive delivers messages between parties until done says so.
func drive(parties []tss.Party, out chan tss.Message, done func() bool) error {
	for _, p := range parties {
		if err := p.Start(); err != nil {
			return fmt.Errorf("party start: %v", err)
		}
	}
	for k := 0; k < 100000; k++ {
		if done() {
			return nil
		}
		if rt.ChLen[tss.Message](out) == 0 {
			rt.Sleep(time.Millisecond)
			continue
		}
		msg := rt.Recv[tss.Message](out)
		for _, p := range parties {
			if p.PartyID().Id == msg.GetFrom().Id {
				continue
			}
			if to := msg.GetTo(); to != nil && to[0].Id != p.PartyID().Id {
				continue
			}
			bz, _, err := msg.WireBytes()
			if err != nil {
				return err
			}
			pm, err := tss.ParseWireMessage(bz, msg.GetFrom(), msg.IsBroadcast())
			if err != nil {
				return err
			}
			if _, err := p.Update(pm); err != nil {
				return fmt.Errorf("update: %v", err)
			}
		}
	}
	return fmt.Errorf("no progress")
}

func (m *Material) keygen() {
	ids, by := m.pids(all(m.N))
	ctx := tss.NewPeerContext(ids)
	out := make(chan tss.Message, 10000)
	// ecdsa
	m.Ec = make([]*eckeygen.LocalPartySaveData, m.N)
	m.Ed = make([]*edkeygen.LocalPartySaveData, m.N)
	ends := make([]chan eckeygen.LocalPartySaveData, m.N)
	edends := make([]chan edkeygen.LocalPartySaveData, m.N)
	var ps, eds []tss.Party
	for i, id := range ids {
		params := tss.NewParameters(ctx, id, m.N, threshold(m.N))
		ends[i] = make(chan eckeygen.LocalPartySaveData, 4)
		edends[i] = make(chan edkeygen.LocalPartySaveData, 4)
		ps = append(ps, eckeygen.NewLocalParty(params, out, ends[i], *preparams(by[id.Id])))
		eds = append(eds, edkeygen.NewLocalParty(params, out, edends[i]))
	}
	err := drive(ps, out, func() bool {
		for i, e := range ends {
			if rt.ChLen[eckeygen.LocalPartySaveData](e) > 0 {
				d := rt.Recv[eckeygen.LocalPartySaveData](e)
				m.Ec[by[ids[i].Id]] = &d
			}
		}
		for _, d := range m.Ec {
			if d == nil {
				return false
			}
		}
		return true
	})
	if err != nil {
		panic(err)
	}
	for rt.ChLen[tss.Message](out) > 0 {
		rt.Recv[tss.Message](out)
	}
	err = drive(eds, out, func() bool {
		for i, e := range edends {
			if rt.ChLen[edkeygen.LocalPartySaveData](e) > 0 {
				d := rt.Recv[edkeygen.LocalPartySaveData](e)
				m.Ed[by[ids[i].Id]] = &d
			}
		}
		for _, d := range m.Ed {
			if d == nil {
				return false
			}
		}
		return true
	})
	if err != nil {
		panic(err)
	}
}

// SignEc signs directly with the given shares (by validator index); used as an oracle for stored
// shares and to make presignatures (hash == nil).
func (m *Material) signEc(shares map[int]*eckeygen.LocalPartySaveData, t int, hash *big.Int) (map[int]*ecsigning.SignatureData, error) {
	var idx []int
	for i := range shares {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	ids, by := m.pids(idx)
	ctx := tss.NewPeerContext(ids)
	out := make(chan tss.Message, 10000)
	ends := make([]chan *ecsigning.SignatureData, len(ids))
	var ps []tss.Party
	for i, id := range ids {
		params := tss.NewParameters(ctx, id, len(ids), t)
		ends[i] = make(chan *ecsigning.SignatureData, 4)
		ps = append(ps, ecsigning.NewLocalParty(hash, params, *shares[by[id.Id]], nil, out, ends[i]))
	}
	res := map[int]*ecsigning.SignatureData{}
	err := drive(ps, out, func() bool {
		for i, e := range ends {
			if rt.ChLen[*ecsigning.SignatureData](e) > 0 {
				res[by[ids[i].Id]] = rt.Recv[*ecsigning.SignatureData](e)
			}
		}
		return len(res) == len(ids)
	})
	return res, err
}

// presigns returns k presignatures for a subset of validators: result[j][i] is entry j of validator i.
func (m *Material) presigns(subset []int, k int) []map[int]*ecsigning.SignatureData_OneRoundData {
	key := fmt.Sprint(subset)
	cache := presignCache[m]
	if cache == nil {
		cache = map[string][]map[int]*ecsigning.SignatureData_OneRoundData{}
		presignCache[m] = cache
	}
	for len(cache[key]) < k {
		outsideSim(func() {
			seedEnv(rt.HashString(fmt.Sprint(key, len(cache[key]))))
			sh := map[int]*eckeygen.LocalPartySaveData{}
			for _, i := range subset {
				sh[i] = m.Ec[i]
			}
			r, err := m.signEc(sh, threshold(m.N), nil)
			if err != nil {
				panic(err)
			}
			e := map[int]*ecsigning.SignatureData_OneRoundData{}
			for i, d := range r {
				e[i] = d.OneRoundData
			}
			cache[key] = append(cache[key], e)
		})
	}
	return cache[key][:k]
}

var presignCache = map[*Material]map[string][]map[int]*ecsigning.SignatureData_OneRoundData{}
