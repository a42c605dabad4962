package main

import "time"

var realAll = []string{"server", "core", "core/cache", "core/components", "core/message", "core/signer", "worker", "worker/components", "worker/helper", "client", "p2p", "db", "utils", "types", "database/sql", "tss-lib protocol rounds"}
var stubAll = []string{"libp2p host and streams (simulated network)", "go-ethereum rpc client transport (simulated Sisu)", "MySQL server (SQL statements run by SQLite behind a simulated connection)", "golang-migrate (same migration files, own runner)", "goroutine scheduler, channels, locks, clocks, map iteration order (simulated)", "crypto/rand (seeded)", "expensive zero-knowledge proofs and Paillier arithmetic of tss-lib (cheap stand-ins, except in the profiles named real-*)"}

var assumptions = []string{
	"a sequentially consistent memory model: goroutines interleave at synchronisation, channel, map, I/O and function-entry points, not between arbitrary machine instructions",
	"the simulated network keeps TCP's guarantees within one stream; loss of single protocol messages is injected at message boundaries",
	"MySQL is represented by its documented behaviour for the statements the repository uses",
}

var pWorks = &Prof{Name: "works", Prep: prepGroup(3, 3, 4, 4, 2, 5),
	Main: worksMain(worksOpt{maxReqs: 4, minReqs: 1, spread: 20 * time.Second, skew: 6 * time.Second, keygens: true, faults: true, absent: true, batch: 4})}
var pWorksReal = &Prof{Name: "real-works", Prep: prepGroup(2, 3), Real: true,
	Main: worksMain(worksOpt{maxReqs: 2, minReqs: 1, spread: 20 * time.Second, skew: 6 * time.Second, faults: true, batch: 2})}
var pKeygenReal = &Prof{Name: "real-keygen", Prep: prepGroup(2, 2, 3), Main: keygenMain, Real: true}
var pQueue = &Prof{Name: "queue", Prep: prepGroup(2, 3, 3), Stall: 100 * time.Millisecond,
	Main: worksMain(worksOpt{maxReqs: 10, minReqs: 4, spread: 4 * time.Second, skew: 3 * time.Second, keygens: true, noConn: true, faults: true, absent: true, plain: true, batch: 2})}

// pLong: many works in one life of the processes.
var pLong = &Prof{Name: "long", Prep: prepGroup(2, 3, 3), Steps: 40_000_000,
	Main: worksMain(worksOpt{maxReqs: 30, minReqs: 14, spread: 500 * time.Second, skew: 3 * time.Second, keygens: true, faults: true, absent: true, batch: 3})}

var pKeygen = &Prof{Name: "keygen", Prep: prepGroup(2, 3, 3, 4, 4, 5), Main: keygenMain}
var pRecover = &Prof{Name: "recover", Prep: prepGroup(2, 3, 3, 4, 4, 5), Main: recoverMain, Stall: 100 * time.Millisecond}
var pDup = &Prof{Name: "dup", Keen: true, Prep: prepGroup(2, 3, 3, 4), Main: dupMain(false), Stall: 100 * time.Millisecond}
var pDupFaults = &Prof{Name: "dup-faults", Prep: prepGroup(2, 3, 3, 4), Main: dupMain(true)}
var pPresign = &Prof{Name: "presign", Prep: prepPresign(3, 4, 2, 3, 3, 4), Main: presignMain}
var pTolerate = &Prof{Name: "tolerate", Prep: prepGroup(3, 3, 4, 5, 6), Main: tolerateMain, Stall: 100 * time.Millisecond}
var pDb = &Prof{Name: "database", Prep: prepPresign(2, 2, 2, 3, 3, 4), Main: dbMain}
var pCrash = &Prof{Name: "crash", Prep: prepGroup(2, 3, 3, 4), Main: crashMain}

var props = map[string]*PropDef{
	"C01": {Profs: []weighted{{pWorks, 5}, {pMembers, 1}, {pRecover, 1}, {pPresign, 2}, {pDup, 1}, {pTolerate, 1}, {pWorksReal, 0}}},
	"C02": {Profs: []weighted{{pKeygen, 4}, {pMembers, 2}, {pDb, 1}, {pRecover, 1}, {pKeygenReal, 0}}},
	"C03": {Profs: []weighted{{pDup, 2}, {pMembers, 1}, {pWorks, 3}, {pQueue, 2}, {pPresign, 1}, {pDb, 2}, {pTolerate, 1}, {pLong, 1}, {pOdd, 2}, {pPool, 1}}},
	"C04": {Profs: []weighted{{pRecover, 1}}},
	"C05": {Profs: []weighted{{pQueue, 1}}},
	"C06": {Profs: []weighted{{pDup, 2}, {pDupFaults, 1}}},
	"C07": {Profs: []weighted{{pPresign, 5}, {pContend, 5}, {pLeader, 1}, {pPool, 1}}},
	"C08": {Profs: []weighted{{pCrash, 1}}},
	"C09": {Profs: []weighted{{pWorks, 3}, {pMembers, 1}, {pPresign, 2}, {pTolerate, 1}, {pLeader, 2}}},
	"C10": {Profs: []weighted{{pHostile, 4}, {pMembers, 1}, {pLeader, 1}, {pMutate, 3}, {pMutateReal, 0}}},
	"C11": {Profs: []weighted{{pHostile, 1}}},
	"C12": {Profs: []weighted{{pCache, 1}, {pEarly, 2}}},
	"C13": {Profs: []weighted{{pWorks, 2}, {pRecover, 2}, {pPresign, 1}, {pHostile, 3}}},
	"C20": {Profs: []weighted{{pTolerate, 3}, {pMembers, 1}}},
	"C14": {Profs: []weighted{{pTransport, 1}}},
	"C15": {Profs: []weighted{{pLocks, 8}, {pLeader, 2}, {pHostile, 1}, {pPool, 1}, {raced(pWorks), 3}, {raced(pHostile), 3}, {raced(pRecover), 1}, {raced(pDb), 1}, {raced(pPresign), 1}, {raced(pContend), 2}, {raced(pCrash), 1},
		{raced(pStorage), 1}, {raced(pCache), 1}, {raced(pIdentity), 1}, {raced(pOutage), 1}, {raced(pBlame), 1}, {raced(pSingle), 1}, {raced(pPool), 1}}},
	"C16": {Profs: []weighted{{pStorage, 1}}},
	"C17": {Profs: []weighted{{pIdentity, 1}}},
	"C18": {Profs: []weighted{{pOutage, 1}}},
	"C19": {Profs: []weighted{{pSingle, 1}}},
	"C21": {Profs: []weighted{{pSecrets, 1}}},
	"C22": {Profs: []weighted{{pDb, 5}, {pPool, 1}}},
	"C23": {Profs: []weighted{{pBlame, 1}}},
}

func init() {
	for _, d := range props {
		if d.Real == nil {
			d.Real, d.Stub = realAll, stubAll
		}
	}
}
