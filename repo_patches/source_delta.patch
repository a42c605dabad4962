From 579d0d6492ef28ddf3b469013bd27c9731ca164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 01/62] fix: report "not selected" for EdDSA signing works too

---
 core/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..a9ebcb8 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -442,10 +442,10 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From 8f624717bed38eccb6f82df668fe901ee02ee226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 02/62] fix: release the node lock on every path of
 sendSignMessaged and do not take it twice

---
 core/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index a9ebcb8..004c872 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -363,9 +363,10 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 			continue
 		}
 
-		node := engine.getNodeFromPeerId(pid.Id)
+		node := engine.nodes[pid.Id]
 
 		if node == nil {
+			engine.nodeLock.RUnlock()
 			log.Errorf("Cannot find node with party key %s", pid.Id)
 			return
 		}
-- 
2.43.0


From f68a200bfb70fc95e48b8624ca480e151263072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 03/62] fix: do not take the work lock twice in
 ProcessNewMessage

---
 core/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index 004c872..622d74d 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -194,7 +194,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
-- 
2.43.0


From a6ee5a27a9583a51f19b489947dfa356cda91493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 04/62] fix: pop and start works under one lock, so that at
 most MaxWorker run and no slot stays free

---
 core/engine.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 622d74d..6797f6f 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -148,7 +148,7 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold the work lock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +165,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +172,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -250,13 +246,13 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
+	engine.workLock.Unlock()
 	log.Verbosef(s)
 
 	// Start next work
@@ -267,20 +263,18 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
 	engine.workLock.Lock()
-	if len(engine.workers) >= MaxWorker {
-		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
-		return
-	}
+	defer engine.workLock.Unlock()
 
-	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
+	for len(engine.workers) < MaxWorker {
+		nextWork := engine.requestQueue.Pop()
+		if nextWork == nil {
+			return
+		}
 
-	if nextWork == nil {
-		return
+		engine.startWork(nextWork)
 	}
 
-	engine.startWork(nextWork)
+	log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
 }
 
 func (engine *defaultEngine) getNodeFromPeerId(peerId string) *Node {
-- 
2.43.0


From 3dca3be44ee8c71aa66671146b0fd64db3ca6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 05/62] fix: do not queue a work that is already running

---
 core/engine.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index 6797f6f..f316b13 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -141,7 +141,14 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 		}
 	}
 
-	if engine.requestQueue.AddWork(request) {
+	engine.workLock.RLock()
+	added := false
+	if _, running := engine.workers[request.WorkId]; !running {
+		added = engine.requestQueue.AddWork(request)
+	}
+	engine.workLock.RUnlock()
+
+	if added {
 		engine.startNextWork()
 	}
 
-- 
2.43.0


From 5d9ba3f76e7733ed791c2eb1898759bbac97e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 06/62] fix: do not overwrite a waiting work when another one
 is inserted before it

---
 core/request_queue.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..7bf54b5 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -50,12 +50,11 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		// Add this to the front of the queue
 		q.queue = append([]*types.WorkRequest{work}, q.queue...)
 	} else {
-		// Insert into the middle of the queue
-		first := q.queue[:position+1]
-		second := q.queue[position+1:]
-
-		q.queue = append(first, work)
-		q.queue = append(q.queue, second...)
+		// Insert into the middle of the queue. The new queue must not share memory with the old one.
+		queue := make([]*types.WorkRequest, 0, len(q.queue)+1)
+		queue = append(queue, q.queue[:position+1]...)
+		queue = append(queue, work)
+		q.queue = append(queue, q.queue[position+1:]...)
 	}
 
 	return true
-- 
2.43.0


From e93de5def6ec692c4392b831c2455c789fdb7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 07/62] fix: let members wait for the selection outcome longer
 than the leader takes to decide

---
 core/config/timeout.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..d1760e8 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,8 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		// Members must wait longer than the leader since they wait for the leader's decision.
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From a9dd4db4025f49aa8d8115bd8540eddef06c8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 08/62] fix: guard the client requests of running signings and
 remember them before the work starts

---
 core/heart.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..c224172 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -6,6 +6,7 @@ import (
 
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -52,6 +53,7 @@ type Heart struct {
 	aesKey     []byte
 
 	keysignRequests map[string]*htypes.KeysignRequest
+	requestLock     sync.Mutex
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
@@ -187,21 +189,27 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	// Get and remove this request.
+	result.Request = h.takeKeysignRequest(request.WorkId)
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
+}
+
+// takeKeysignRequest returns the client's request of a work and removes it from the list.
+func (h *Heart) takeKeysignRequest(workId string) *htypes.KeysignRequest {
+	h.requestLock.Lock()
+	defer h.requestLock.Unlock()
+
+	request := h.keysignRequests[workId]
+	delete(h.keysignRequests, workId)
 
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
+	return request
 }
 
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
-
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		result := htypes.KeygenResult{
@@ -213,7 +221,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  clientRequest,
+			Request:  h.takeKeysignRequest(request.WorkId),
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -371,9 +379,22 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := h.engine.AddRequest(workRequest)
-
+	// Remember the client's request before the work starts, the work can finish at any time.
+	h.requestLock.Lock()
+	old := h.keysignRequests[workRequest.WorkId]
 	h.keysignRequests[workRequest.WorkId] = req
+	h.requestLock.Unlock()
+
+	err := h.engine.AddRequest(workRequest)
+	if err != nil {
+		h.requestLock.Lock()
+		if old != nil {
+			h.keysignRequests[workRequest.WorkId] = old
+		} else {
+			delete(h.keysignRequests, workRequest.WorkId)
+		}
+		h.requestLock.Unlock()
+	}
 
 	return err
 }
-- 
2.43.0


From dbb4b73cd3bce02bd78de3782e5f5f84039dacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 09/62] fix: refuse requests with an unknown key type or for a
 key that does not exist

---
 core/heart.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index c224172..23f676d 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -317,6 +317,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEcKeygenRequest(keyType, workId, sorted, utils.GetThreshold(n), nil)
 	case libchain.KEY_TYPE_EDDSA:
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
+	default:
+		return fmt.Errorf("Unsupported keygen type: %s", keyType)
 	}
 
 	return h.engine.AddRequest(request)
@@ -361,6 +363,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		if err != nil {
 			return err
 		}
+		if presignInput == nil {
+			return fmt.Errorf("There is no key for type %s", req.KeyType)
+		}
 		workRequest = types.NewEcSigningRequest(
 			workId,
 			pids,
@@ -372,11 +377,17 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
+		}
+		if keygenData == nil {
+			return fmt.Errorf("There is no key for type %s", req.KeyType)
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+
+	default:
+		return fmt.Errorf("Unsupported signing type: %s", req.KeyType)
 	}
 
 	// Remember the client's request before the work starts, the work can finish at any time.
-- 
2.43.0


From e646225ae74ba975b56ce39f794666c280ee339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 10/62] fix: refuse signing requests without messages or
 without bytes to sign

---
 core/heart.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/heart.go b/core/heart.go
index 23f676d..c5c2ec4 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -333,6 +333,15 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return ErrDheartNotReady
 	}
 
+	if len(req.KeysignMessages) == 0 {
+		return fmt.Errorf("There is no message to sign")
+	}
+	for _, msg := range req.KeysignMessages {
+		if msg == nil || msg.BytesToSign == nil {
+			return fmt.Errorf("There is a message without bytes to sign")
+		}
+	}
+
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
 	pids := make([]*tss.PartyID, n)
-- 
2.43.0


From 7b0c0353b36d8aecf73769c4459ba745b4136c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 11/62] fix: refuse key generation requests with an unknown
 validator key type

---
 server/tss_api.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..81167fb 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
-- 
2.43.0


From bf1b175d1b7fb23451264b035a07decc24f3a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 12/62] fix: follow Sisu's ready state, and keep a private key
 only when its setup succeeded

---
 core/heart.go | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index c5c2ec4..50eecea 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -47,8 +47,10 @@ type Heart struct {
 	client     client.Client
 	valPubkeys []ctypes.PubKey
 
-	ready atomic.Value
+	ready atomic.Value // true when the private key is set and Sisu is ready
 
+	keyLock    sync.Mutex // protects privateKey & sisuReady
+	sisuReady  bool
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
@@ -112,15 +114,15 @@ func (h *Heart) Start() error {
 	return nil
 }
 
-func (h *Heart) initConnectionManager() error {
+func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	log.Info("Creating connection manager")
 
 	// Connection manager
 	h.cm = p2p.NewConnectionManager(h.config.Connection)
 
 	// Engine
-	myNode := NewNode(h.privateKey.PubKey())
-	h.engine = NewEngine(myNode, h.cm, h.db, h, h.privateKey, config.NewDefaultTimeoutConfig())
+	myNode := NewNode(privateKey.PubKey())
+	h.engine = NewEngine(myNode, h.cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
 
 	if h.valPubkeys != nil {
 		h.engine.AddNodes(NewNodes(h.valPubkeys))
@@ -134,7 +136,7 @@ func (h *Heart) initConnectionManager() error {
 	h.loadPeers(h.engine)
 
 	// Start connection manager.
-	err = h.cm.Start(h.privateKey.Bytes(), h.privateKey.Type())
+	err = h.cm.Start(privateKey.Bytes(), privateKey.Type())
 	if err != nil {
 		log.Error("Cannot start connection manager. err =", err)
 		return err
@@ -236,10 +238,22 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	h.keyLock.Lock()
+	defer h.keyLock.Unlock()
 
-	// Sisu is ready, we are now ready to process messages from network.
-	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	h.sisuReady = isReady
+	h.updateReady()
+}
+
+// updateReady must be called with the key lock held.
+func (h *Heart) updateReady() {
+	ready := h.sisuReady && h.privateKey != nil
+	if ready {
+		// Sisu is ready, we are now ready to process messages from network.
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	}
+
+	h.ready.Store(ready)
 }
 
 // TODO: remove this function
@@ -264,6 +278,9 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return err
 	}
 
+	h.keyLock.Lock()
+	defer h.keyLock.Unlock()
+
 	if h.privateKey != nil {
 		if bytes.Compare(decrypted, h.privateKey.Bytes()) != 0 {
 			return fmt.Errorf("The private key has been set!")
@@ -273,20 +290,25 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return nil
 	}
 
+	var privateKey ctypes.PrivKey
 	switch tendermintKeyType {
 	case "ed25519":
-		h.privateKey = &ed25519.PrivKey{Key: decrypted}
+		privateKey = &ed25519.PrivKey{Key: decrypted}
 	case "secp256k1":
-		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
+		privateKey = &secp256k1.PrivKey{Key: decrypted}
 	default:
 		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
 	}
 
-	err = h.initConnectionManager()
+	err = h.initConnectionManager(privateKey)
 	if err != nil {
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
 
+	// Keep the key only now so that a failed attempt can be repeated.
+	h.privateKey = privateKey
+	h.updateReady()
+
 	return nil
 }
 
-- 
2.43.0


From 8ef7bf7bbc258c844912a41f6d3770ddce208de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 13/62] fix: close the host when the connection manager cannot
 start

---
 p2p/connection_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..a1a7533 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -127,6 +127,7 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 	// Advertise this node and discover other nodes
 	if err := cm.discover(ctx, host); err != nil {
 		log.Critical("Failed to advertise and discover other nodes. err = ", err)
+		host.Close() // release the port so that the start can be repeated
 		return err
 	}
 
-- 
2.43.0


From 09c6fd2361abcfe82354736889bfaec0415bfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 14/62] fix: return errors for short ciphertexts and unknown
 public key types

---
 utils/crypto.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..f65c776 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,9 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("encrypted data is too short, length = %d", len(encrypted))
+	}
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
@@ -76,7 +79,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From fc6df581ee71354c36783dae7aa691e761f5f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 15/62] fix: return an error for stored values too short to be
 encrypted ones

---
 store/store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/store.go b/store/store.go
index 4a97b4a..ac3bf96 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, errors.New("encrypted value is too short")
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
-- 
2.43.0


From efa462b77cab7e2fe0d2ebbc5d2c3961d9aec6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 16/62] fix: report failed database migrations

---
 db/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..2df527f 100644
--- a/db/database.go
+++ b/db/database.go
@@ -170,7 +170,9 @@ func (d *SqlDatabase) doSqlMigration() error {
 	}
 
 	m.Log = &dbLogger{}
-	m.Up()
+	if err := m.Up(); err != nil && err != migrate.ErrNoChange {
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From e70f0e943556106d70f4855646f1d52d69ee574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 17/62] fix: report errors that end a result set early

---
 db/database.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/db/database.go b/db/database.go
index 2df527f..1205a9f 100644
--- a/db/database.go
+++ b/db/database.go
@@ -264,6 +264,10 @@ func (d *SqlDatabase) LoadPreparams() (*eckeygen.LocalPreParams, error) {
 	defer rows.Close()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
+
 		return nil, ErrNotFound
 	}
 
@@ -311,6 +315,8 @@ func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData
 			log.Error("Cannot unmarshal result", err)
 			return nil, err
 		}
+	} else if err := rows.Err(); err != nil {
+		return nil, err
 	} else {
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
@@ -348,6 +354,8 @@ func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData
 			log.Error("Cannot unmarshal result", err)
 			return nil, err
 		}
+	} else if err := rows.Err(); err != nil {
+		return nil, err
 	} else {
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
@@ -428,6 +436,10 @@ func (d *SqlDatabase) GetAvailablePresignShortForm() ([]string, []string, error)
 		pids = append(pids, pid)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, nil, err
+	}
+
 	return presignIds, pids, nil
 }
 
@@ -479,6 +491,10 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 		results = append(results, &data)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return results, nil
 }
 
@@ -510,6 +526,10 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 		results = append(results, status)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return results, nil
 }
 
-- 
2.43.0


From d412f42c698e55a3cbc498a0ab116ddd9e5875a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 18/62] fix: load the key share that was saved last

---
 db/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index 1205a9f..68b8d04 100644
--- a/db/database.go
+++ b/db/database.go
@@ -291,7 +291,7 @@ func (d *SqlDatabase) SaveEcKeygen(keyType string, workId string, pids []*tss.Pa
 }
 
 func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData, error) {
-	query := "SELECT keygen_output FROM keygen WHERE key_type=?"
+	query := "SELECT keygen_output FROM keygen WHERE key_type=? ORDER BY created_time DESC LIMIT 1"
 	params := []interface{}{
 		keyType,
 	}
@@ -330,7 +330,7 @@ func (d *SqlDatabase) SaveEdKeygen(keyType string, workId string, pids []*tss.Pa
 }
 
 func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData, error) {
-	query := "SELECT keygen_output FROM keygen WHERE key_type=?"
+	query := "SELECT keygen_output FROM keygen WHERE key_type=? ORDER BY created_time DESC LIMIT 1"
 	params := []interface{}{
 		keyType,
 	}
-- 
2.43.0


From 01e788bae00c9a104cfe9adfdcdccca14a2edbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 19/62] fix: save the peers and load their key types

---
 db/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index 68b8d04..df6f879 100644
--- a/db/database.go
+++ b/db/database.go
@@ -551,10 +551,19 @@ func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
+	if len(peers) == 0 {
+		return nil
+	}
+
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0, 3*len(peers))
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -584,7 +593,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 8a8460683881d1e71040df282b6deec030d985ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 20/62] fix: load presigns in the order of the requested ids
 and fail when one is missing

---
 db/database.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/db/database.go b/db/database.go
index df6f879..90c797b 100644
--- a/db/database.go
+++ b/db/database.go
@@ -459,7 +459,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -474,10 +474,11 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	defer rows.Close()
 
 	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -488,20 +489,28 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
 	}
 
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
 
+	// 3. Return the presigns in the order of the ids.
+	results := make([]*ecsigning.SignatureData_OneRoundData, len(presignIds))
+	for i, presignId := range presignIds {
+		if results[i] = loaded[presignId]; results[i] == nil {
+			return nil, fmt.Errorf("cannot find presign %s", presignId)
+		}
+	}
+
 	return results, nil
 }
 
 func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT status FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, status FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -516,20 +525,30 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	defer rows.Close()
 
 	// 2. Scan every rows and save it to loaded array
-	results := make([]string, 0)
+	loaded := make(map[string]string)
 	for rows.Next() {
-		var status string
-		if err := rows.Scan(&status); err != nil {
+		var presignId, status string
+		if err := rows.Scan(&presignId, &status); err != nil {
 			log.Error("Cannot load status", err)
 			return nil, err
 		}
-		results = append(results, status)
+		loaded[presignId] = status
 	}
 
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
 
+	// 3. Return the statuses in the order of the ids.
+	results := make([]string, len(presignIds))
+	for i, presignId := range presignIds {
+		status, ok := loaded[presignId]
+		if !ok {
+			return nil, fmt.Errorf("cannot find presign %s", presignId)
+		}
+		results[i] = status
+	}
+
 	return results, nil
 }
 
-- 
2.43.0


From 0c8ce124451d7c435800ef2372681add7eb0ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 21/62] fix: fail when a presign to consume is missing or
 already used

---
 db/database.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/db/database.go b/db/database.go
index 90c797b..df4bbec 100644
--- a/db/database.go
+++ b/db/database.go
@@ -555,18 +555,32 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 	presignString := getQueryQuestionMark(1, len(presignIds))
 	query := fmt.Sprintf( //nolint
-		"UPDATE presign SET status = ? WHERE presign_id IN %s",
+		"UPDATE presign SET status = ? WHERE status = ? AND presign_id IN %s",
 		presignString,
 	)
 
-	interfaceArr := make([]interface{}, len(presignIds)+1)
+	interfaceArr := make([]interface{}, len(presignIds)+2)
 	interfaceArr[0] = PresignStatusUsed
+	interfaceArr[1] = PresignStatusNotUsed
 	for i, presignId := range presignIds {
-		interfaceArr[i+1] = presignId
+		interfaceArr[i+2] = presignId
 	}
 
-	_, err := d.db.Exec(query, interfaceArr...)
-	return err
+	result, err := d.db.Exec(query, interfaceArr...)
+	if err != nil {
+		return err
+	}
+
+	count, err := result.RowsAffected()
+	if err != nil {
+		return err
+	}
+
+	if count != int64(len(presignIds)) {
+		return fmt.Errorf("only %d of the presigns %v could be marked as used", count, presignIds)
+	}
+
+	return nil
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
-- 
2.43.0


From 185efcaabe33d4f64e0b2b270dc59886921b692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 22/62] fix: do not return a truncated peer list

---
 db/database.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/database.go b/db/database.go
index df4bbec..6638c58 100644
--- a/db/database.go
+++ b/db/database.go
@@ -631,5 +631,10 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peers = append(peers, peer)
 	}
 
+	if err := rows.Err(); err != nil {
+		log.Error("LoadPeers: cannot read all peers, err = ", err)
+		return make([]*p2ptypes.Peer, 0)
+	}
+
 	return peers
 }
-- 
2.43.0


From 1f265f92ede138b0632ddd2d8a5c75fee3ae415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 23/62] fix: release the lock when the selected presigns are
 consumed by another work

---
 core/components/available_presign_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..895d8d1 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -142,6 +142,7 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 				delete(m.available, selectedPidstring)
 			}
 		} else {
+			m.lock.Unlock()
 			return []string{}, []*tss.PartyID{}
 		}
 	}
-- 
2.43.0


From 665c75163103151e79cd82d8b6912bf5db476b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 24/62] fix: mark presigns as used on the members of a signing
 work too

---
 worker/prework_selection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..6f4359e 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -369,7 +369,14 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 			if s.request.IsSigning() && len(msg.PresignIds) > 0 {
 				// Check if the leader is giving us a valid presign id set.
 				signingInput, err := s.db.LoadPresign(msg.PresignIds)
-				if err != nil || len(signingInput) == 0 {
+				if err == nil && len(signingInput) == 0 {
+					err = errors.New("there is no such presign")
+				}
+				if err == nil {
+					// Consume the presigns so that no other work uses them.
+					err = s.db.UpdatePresignStatus(msg.PresignIds)
+				}
+				if err != nil {
 					log.Error("Cannot load presign, err =", err, " len(signingInput) = ", len(signingInput))
 					s.broadcastResult(SelectionResult{
 						Success: false,
-- 
2.43.0


From 3db90c6d8a086b480137390e47c525f52977a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 25/62] fix: verify every EdDSA signature and report an invalid
 one as a failure

---
 core/engine_eddsa.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..6665dbb 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sisu-network/lib/log"
 	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
 	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
+	"github.com/sisu-network/tss-lib/tss"
 )
 
 func (engine *defaultEngine) onEdKeygenFinished(request *wtypes.WorkRequest, output *edkeygen.LocalPartySaveData) {
@@ -37,9 +38,13 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 
 	myKeygen := request.EdSigningInput
 	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+	for i := range data {
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From e5c08f42d23ed3168b6bc4490ba12a425fec7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 26/62] fix: do not end a signing job before its last message
 is sent

---
 core/message/tss_phase_messages.go |  2 +-
 worker/job.go                      | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..5b6d801 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -85,7 +85,7 @@ func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
 			return 1
 		}
 
-		return 7
+		return 8
 	case wtypes.EdKeygen:
 		return 3
 	case wtypes.EdSigning:
diff --git a/worker/job.go b/worker/job.go
index b95e382..32e613d 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	isPresign      bool // a job without a message to sign, it has no message for the last round.
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.isPresign = msg == nil
 
 	return job
 }
@@ -157,7 +159,7 @@ func NewEdSigningJob(
 
 	party := edsigning.NewLocalParty(new(big.Int).SetBytes(msg), params, signingInput, outCh, endCh)
 
-	job := baseJob(workId, index, party, wTypes.EdKeygen, callback, outCh, timeOut)
+	job := baseJob(workId, index, party, wTypes.EdSigning, callback, outCh, timeOut)
 	job.edEndSigningCh = endCh
 
 	return job
@@ -300,7 +302,12 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	total := message.GetMessageCountByWorkType(job.jobType, job.hasPresignData)
+	if job.isPresign {
+		total--
+	}
+
+	if count == total {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From 230ba072264006668519affe16349e3430c45bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 27/62] fix: recover missing messages of EdDSA works too

---
 core/message/tss_phase_messages.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 5b6d801..620a7de 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -117,6 +117,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -133,7 +147,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
-- 
2.43.0


From 908384ba74b26626b2e8f80a5dc320fdca1ec94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 28/62] fix: verify the signatures of network messages

---
 core/engine.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index f316b13..f0ae87c 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -403,6 +403,29 @@ func (engine *defaultEngine) getSignedMessageBytes(tssMessage *common.TssMessage
 	return signedMessage, nil
 }
 
+// verifySignature checks that a message is signed by the node that it claims to be from.
+func (engine *defaultEngine) verifySignature(signedMessage *common.SignedMessage) error {
+	if signedMessage.From != signedMessage.TssMessage.From {
+		return fmt.Errorf("message from %s is signed by %s", signedMessage.TssMessage.From, signedMessage.From)
+	}
+
+	signerNode := engine.getNodeFromPeerId(signedMessage.From)
+	if signerNode == nil {
+		return fmt.Errorf("cannot find the signer %s", signedMessage.From)
+	}
+
+	serialized, err := json.Marshal(signedMessage.TssMessage)
+	if err != nil {
+		return fmt.Errorf("error when marshalling message %w", err)
+	}
+
+	if !signerNode.PubKey.VerifySignature(serialized, signedMessage.Signature) {
+		return fmt.Errorf("invalid signature of %s", signedMessage.From)
+	}
+
+	return nil
+}
+
 // OnNetworkMessage implements P2PDataListener interface.
 func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 	node := engine.getNodeFromPeerId(message.FromPeerId)
@@ -423,7 +446,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	// TODO: Check message signature here.
+	if err := engine.verifySignature(signedMessage); err != nil {
+		log.Error("Invalid message from peer ", message.FromPeerId, " err = ", err)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
-- 
2.43.0


From 511d92651aec8d09b0b65dc580e5d5217194e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 29/62] fix: ignore network messages without content instead of
 crashing

---
 core/engine.go              | 30 +++++++++++++++++++++++++++++-
 types/common/tss_message.go |  3 ---
 worker/worker_executor.go   |  4 ++++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f0ae87c..78d8fa2 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -187,6 +187,10 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		return nil
 	}
 
+	if err := validateContent(tssMsg); err != nil {
+		return err
+	}
+
 	switch tssMsg.Type {
 	case common.TssMessage_ASK_MESSAGE_REQUEST:
 		if err := engine.OnAskMessage(tssMsg); err != nil {
@@ -215,6 +219,30 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 	return nil
 }
 
+// validateContent checks that a message has the content that its type requires.
+func validateContent(tssMsg *commonTypes.TssMessage) error {
+	ok := true
+	switch tssMsg.Type {
+	case common.TssMessage_UPDATE_MESSAGES:
+		ok = len(tssMsg.UpdateMessages) > 0
+		for _, updateMsg := range tssMsg.UpdateMessages {
+			ok = ok && updateMsg != nil
+		}
+	case common.TssMessage_AVAILABILITY_RESPONSE:
+		ok = tssMsg.AvailabilityResponseMessage != nil
+	case common.TssMessage_PRE_EXEC_OUTPUT:
+		ok = tssMsg.PreExecOutputMessage != nil
+	case common.TssMessage_ASK_MESSAGE_REQUEST:
+		ok = tssMsg.AskRequestMessage != nil
+	}
+
+	if !ok {
+		return fmt.Errorf("message of type %s from %s has no content", tssMsg.Type, tssMsg.From)
+	}
+
+	return nil
+}
+
 func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error {
 	msgKey := tssMsg.AskRequestMessage.MsgKey
 	keys, err := commonTypes.ExtractMessageKey(msgKey)
@@ -451,7 +479,7 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
+	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && validateContent(tssMessage) == nil &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
 	}
diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..99f61b4 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,9 +115,6 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
 	keys := strings.Split(msgKey, "__")
 	if len(keys) < 4 {
 		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..f2a0522 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -346,6 +346,10 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(jobs) != len(msgs) || len(tssMsg.UpdateMessages) != len(msgs) {
+		return fmt.Errorf("expected %d update messages, got %d", len(msgs), len(tssMsg.UpdateMessages))
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
-- 
2.43.0


From 499578e5560b348713564f2053457e098c8ea782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 30/62] fix: read the node list under its lock in OnAskMessage

---
 core/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/engine.go b/core/engine.go
index 78d8fa2..b263b5f 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -262,11 +262,13 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
+	engine.nodeLock.RLock()
 	for _, node := range engine.nodes {
 		if node.PartyId.Id == tssMsg.From {
 			dest = node.PartyId
 		}
 	}
+	engine.nodeLock.RUnlock()
 
 	if dest != nil {
 		log.Verbose("Replying request message: ", msgKey, " dest = ", dest)
-- 
2.43.0


From 18e9e10fffbfd99592ebdd9ed018d7e699e27342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 31/62] fix: accept the selection outcome from the leader only

---
 worker/prework_selection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 6f4359e..351c40e 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -303,7 +303,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.From == leader.Id {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -444,6 +444,10 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 			return fmt.Errorf("error when processing execution response %w", err)
 		}
 	case common.TssMessage_PRE_EXEC_OUTPUT:
+		if tssMsg.From != s.leader.Id {
+			return fmt.Errorf("%s is not the leader of work %s", tssMsg.From, s.request.WorkId)
+		}
+
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
 		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
-- 
2.43.0


From 9925e5ff30aa50435adbf32051ca3eae7580535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 32/62] fix: do not block on selection messages after the
 selection is finished

---
 worker/prework_selection.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 351c40e..9ff8804 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 	"time"
 
 	enginecache "github.com/sisu-network/dheart/core/cache"
@@ -62,6 +63,9 @@ type PreworkSelection struct {
 
 	// Cache all tss update messages when some parties start executing while this node has not.
 	stopped *atomic.Bool
+	// Closed when the selection has its result and nobody reads the message channels anymore.
+	done     chan struct{}
+	doneOnce *sync.Once
 }
 
 func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID, myPid *tss.PartyID,
@@ -82,6 +86,8 @@ func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID,
 		memberResponseCh: make(chan *commonTypes.TssMessage, len(allParties)),
 		callback:         callback,
 		stopped:          atomic.NewBool(false),
+		done:             make(chan struct{}),
+		doneOnce:         &sync.Once{},
 		cfg:              cfg,
 	}
 }
@@ -429,6 +435,7 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
 	s.stopped.Store(true)
+	s.doneOnce.Do(func() { close(s.done) })
 
 	s.callback(result)
 }
@@ -450,7 +457,10 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		select {
+		case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+		case <-s.done:
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -479,8 +489,9 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	select {
+	case s.memberResponseCh <- tssMsg:
+	case <-s.done: // We have finished selection process.
+	}
 	return nil
 }
-- 
2.43.0


From 8b7b5192ddec27159296d1b7950852065b99c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 33/62] fix: read the executor and the selection of a worker
 under its lock

---
 worker/default_worker.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index e6e0992..ca239e2 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -260,7 +260,8 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 	case common.TssMessage_UPDATE_MESSAGES:
 		w.lock.RLock()
 
-		if w.executor == nil {
+		executor := w.executor
+		if executor == nil {
 			// We have not started execution yet.
 			w.preExecutionCache.AddMessage(msg)
 			addToCache = true
@@ -269,8 +270,8 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 		w.lock.RUnlock()
 
-		if !addToCache && w.executor != nil {
-			err := w.executor.ProcessUpdateMessage(msg)
+		if !addToCache {
+			err := executor.ProcessUpdateMessage(msg)
 			if err != nil {
 				log.Errorf("Failed to process update message %s, %s, err = %s", w.workId,
 					msg.UpdateMessages[0].Round, err)
@@ -279,7 +280,8 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 	case common.TssMessage_AVAILABILITY_REQUEST, common.TssMessage_AVAILABILITY_RESPONSE, common.TssMessage_PRE_EXEC_OUTPUT:
 		w.lock.RLock()
-		if w.preworkSelection == nil {
+		preworkSelection := w.preworkSelection
+		if preworkSelection == nil {
 			// Add this to cache
 			log.Verbose("PreExecution is nil, adding this message to cache, msg type = ", msg.Type)
 			w.preExecutionCache.AddMessage(msg)
@@ -288,7 +290,7 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 		w.lock.RUnlock()
 
 		if !addToCache {
-			return w.preworkSelection.ProcessNewMessage(msg)
+			return preworkSelection.ProcessNewMessage(msg)
 		}
 
 	default:
-- 
2.43.0


From f71d1885162be6d32f3303eb76a0646ece4963e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 34/62] fix: do not share the party indexes between works

---
 worker/default_worker.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index ca239e2..f3f8fd6 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -179,7 +179,7 @@ func (w *DefaultWorker) onSelectionResult(result SelectionResult) {
 }
 
 func (w *DefaultWorker) startEcExecution(result SelectionResult) {
-	sortedPids := tss.SortPartyIDs(result.SelectedPids)
+	sortedPids := tss.SortPartyIDs(copyPartyIds(result.SelectedPids))
 
 	// We need to load the set of presigns data
 	var ecSigningPresign []*ecsigning.SignatureData_OneRoundData
@@ -197,7 +197,7 @@ func (w *DefaultWorker) startEcExecution(result SelectionResult) {
 }
 
 func (w *DefaultWorker) startEdExecution(result SelectionResult) {
-	sortedPids := tss.SortPartyIDs(result.SelectedPids)
+	sortedPids := tss.SortPartyIDs(copyPartyIds(result.SelectedPids))
 
 	w.lock.Lock()
 	defer w.lock.Unlock()
@@ -207,6 +207,17 @@ func (w *DefaultWorker) startEdExecution(result SelectionResult) {
 	w.runExecutor(w.executor)
 }
 
+// copyPartyIds makes a copy of party ids. Sorting sets their indexes, which differ between works, and
+// the original ids are shared by all works.
+func copyPartyIds(pids []*tss.PartyID) []*tss.PartyID {
+	ret := make([]*tss.PartyID, len(pids))
+	for i, pid := range pids {
+		ret[i] = tss.NewPartyID(pid.Id, pid.Moniker, pid.KeyInt())
+	}
+
+	return ret
+}
+
 func (w *DefaultWorker) getEcExecutor(selectedPids []*tss.PartyID, ecSigningPresign []*ecsigning.SignatureData_OneRoundData) *WorkerExecutor {
 	return NewWorkerExecutor(w.request, w.curWorkType, w.myPid, selectedPids, w.dispatcher,
 		w.db, ecSigningPresign, w.onJobExecutionResult, w.cfg)
-- 
2.43.0


From f63338283b0c71ed9ee481f7a1a074682ee0a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 35/62] fix: fail the work when its preparams or presigns
 cannot be loaded

---
 worker/default_worker.go  | 13 ++++++++++++-
 worker/worker_executor.go |  4 +++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index f3f8fd6..0d90910 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -185,6 +185,11 @@ func (w *DefaultWorker) startEcExecution(result SelectionResult) {
 	var ecSigningPresign []*ecsigning.SignatureData_OneRoundData
 	if w.request.IsSigning() && len(result.PresignIds) > 0 {
 		ecSigningPresign = w.callback.GetPresignOutputs(result.PresignIds)
+		if len(ecSigningPresign) != w.request.BatchSize {
+			log.Errorf("Cannot load all presigns, got %d of %d", len(ecSigningPresign), w.request.BatchSize)
+			w.callback.OnWorkFailed(w.request)
+			return
+		}
 	}
 
 	// Handle success case
@@ -229,7 +234,13 @@ func (w *DefaultWorker) getEdExecutor(selectedPids []*tss.PartyID) *WorkerExecut
 }
 
 func (w *DefaultWorker) runExecutor(executor *WorkerExecutor) {
-	executor.Init()
+	if err := executor.Init(); err != nil {
+		log.Error("Cannot init the executor, err = ", err)
+		executor.broadcastResult(ExecutionResult{
+			Success: false,
+		})
+		return
+	}
 
 	cacheMsgs := w.preExecutionCache.PopAllMessages(w.workId, commonTypes.GetUpdateMessageType())
 	go executor.Run(cacheMsgs)
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index f2a0522..ee3f774 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -121,7 +121,9 @@ func NewWorkerExecutor(
 func (w *WorkerExecutor) Init() (err error) {
 	if w.workType == wTypes.EcKeygen {
 		if w.request.EcKeygenInput == nil {
-			err = w.loadPreparams()
+			if err = w.loadPreparams(); err != nil {
+				return err
+			}
 		} else {
 			w.ecKeygenInput = w.request.EcKeygenInput
 		}
-- 
2.43.0


From 3205483ecd2f63305f65305ba8fc44f6ec771890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 36/62] fix: do not mix the cached messages of different
 senders

---
 core/cache/message_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..57ec3a1 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,13 +60,14 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
 
+		newList := make([]*commonTypes.TssMessage, 0)
+
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
 				result = append(result, msg)
-- 
2.43.0


From 221a1e28fab2b0ecbde6aee1f7b4bbb085da1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 37/62] fix: keep the newer entry when an older one with the
 same key is evicted

---
 tools/circular_queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..bca39d5 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,9 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		if oldest := q.queue[q.head%q.size]; q.m[oldest.key] == oldest {
+			delete(q.m, oldest.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From 32a071a8145c61d1b53e98c6989767e70912739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 38/62] fix: do not lose messages that arrive together with an
 earlier one

---
 p2p/helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..2041193 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,9 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Read from the stream directly. A buffered reader would swallow the beginning of the next message.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +29,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
-- 
2.43.0


From 045603a73e3792ab36b129d40a4c359b847d2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 39/62] fix: keep reading a stream whose first messages have no
 listener yet

---
 p2p/connection_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index a1a7533..90fb1eb 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -182,7 +182,7 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 			listener := cm.getListener(protocol)
 			if listener == nil {
 				// No listener. Ignore the message
-				return
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
-- 
2.43.0


From ab9a376a7b7693d049e4195e2ef2305bffb951ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 40/62] fix: guard the stream map of a connection

---
 p2p/connection.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..bb04310 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -18,9 +18,10 @@ type Connection struct {
 	addr   maddr.Multiaddr
 	host   *host.Host
 
-	streams map[protocol.ID]network.Stream
-	lock    sync.RWMutex
-	status  int
+	streams     map[protocol.ID]network.Stream
+	streamsLock sync.RWMutex // guards the streams map
+	lock        sync.RWMutex // serializes writes
+	status      int
 }
 
 func NewConnection(pID peer.ID, addr maddr.Multiaddr, host *host.Host) *Connection {
@@ -33,6 +34,9 @@ func NewConnection(pID peer.ID, addr maddr.Multiaddr, host *host.Host) *Connecti
 }
 
 func (con *Connection) ReleaseStream() {
+	con.streamsLock.RLock()
+	defer con.streamsLock.RUnlock()
+
 	for _, stream := range con.streams {
 		if stream != nil {
 			stream.Reset()
@@ -49,13 +53,24 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 		return nil, fmt.Errorf("fail to create new stream to peer: %s, %w", con.peerId, err)
 	}
 
+	con.streamsLock.Lock()
+	defer con.streamsLock.Unlock()
+
+	if current := con.streams[protocolId]; current != nil {
+		// Another routine has created a stream at the same time.
+		stream.Reset()
+		return current, nil
+	}
 	con.streams[protocolId] = stream
 
 	return stream, nil
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	con.streamsLock.RLock()
 	stream := con.streams[protocolId]
+	con.streamsLock.RUnlock()
+
 	if stream == nil {
 		var err error
 		stream, err = con.createStream(protocolId)
-- 
2.43.0


From 85e7e078f25a66d97a478aa95acb425b3c020bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 41/62] fix: replace a broken stream

---
 p2p/connection.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index bb04310..9abbe8c 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -83,5 +83,17 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 	con.lock.Lock()
 	defer con.lock.Unlock()
 
-	return WriteStreamWithBuffer(msg, stream)
+	err := WriteStreamWithBuffer(msg, stream)
+	if err != nil {
+		// This stream is broken. Remove it so that the next message is sent through a new one.
+		stream.Reset()
+
+		con.streamsLock.Lock()
+		if con.streams[protocolId] == stream {
+			delete(con.streams, protocolId)
+		}
+		con.streamsLock.Unlock()
+	}
+
+	return err
 }
-- 
2.43.0


From 88311a9770d3c70a387a5a85216c749618d3af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 42/62] fix: limit the time that a write to a peer can take

---
 p2p/helper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/helper.go b/p2p/helper.go
index 2041193..f64ea1d 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -41,6 +41,11 @@ func WriteStreamWithBuffer(msg []byte, stream network.Stream) error {
 	lengthBytes := make([]byte, HeaderLength)
 	binary.LittleEndian.PutUint32(lengthBytes, length)
 
+	// A peer that does not read must not block this node.
+	if err := stream.SetWriteDeadline(time.Now().Add(TimeoutWritePayload)); err != nil {
+		return fmt.Errorf("fail to set the write deadline: %w", err)
+	}
+
 	streamWrite := bufio.NewWriter(stream)
 	n, err := streamWrite.Write(lengthBytes)
 	if n != HeaderLength || err != nil {
-- 
2.43.0


From a142383409d4383a1491605acaa25e4e5ee5d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 43/62] fix: do not wait forever for an answer of Sisu

---
 client/client.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..2c254c1 100644
--- a/client/client.go
+++ b/client/client.go
@@ -11,7 +11,8 @@ import (
 )
 
 const (
-	RetryTime = 10 * time.Second
+	RetryTime   = 10 * time.Second
+	CallTimeout = 30 * time.Second
 )
 
 var (
@@ -58,9 +59,17 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+// call calls a method of Sisu server. The call fails when Sisu does not answer in time.
+func (c *DefaultClient) call(method string, timeout time.Duration, params ...interface{}) error {
+	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	defer cancel()
+
+	var r interface{}
+	return c.client.CallContext(ctx, &r, method, params...)
+}
+
 func (c *DefaultClient) Ping(source string) error {
-	var result interface{}
-	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
+	err := c.call("tss_ping", RetryTime, source)
 	if err != nil {
 		log.Error("Cannot ping sisu, err = ", err)
 		return err
@@ -70,8 +79,7 @@ func (c *DefaultClient) Ping(source string) error {
 }
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
-	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := c.call("tss_keygenResult", CallTimeout, result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -99,8 +107,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 }
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
-	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := c.call("tss_keysignResult", CallTimeout, result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 0fc629b46f82308c33dabcdbdff255dd33b75cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 44/62] fix: do not crash on results that are posted before
 Sisu is dialed

---
 client/client.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/client/client.go b/client/client.go
index 2c254c1..794414a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -29,6 +30,7 @@ type Client interface {
 // A client that connects to Sisu server
 type DefaultClient struct {
 	client *rpc.Client
+	lock   sync.RWMutex // guards the client, which is nil until Sisu is dialed.
 	url    string
 }
 
@@ -43,9 +45,12 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		client, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.lock.Lock()
+			c.client = client
+			c.lock.Unlock()
+
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -64,8 +69,15 @@ func (c *DefaultClient) call(method string, timeout time.Duration, params ...int
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 
+	c.lock.RLock()
+	client := c.client
+	c.lock.RUnlock()
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
 	var r interface{}
-	return c.client.CallContext(ctx, &r, method, params...)
+	return client.CallContext(ctx, &r, method, params...)
 }
 
 func (c *DefaultClient) Ping(source string) error {
@@ -95,8 +107,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 		return nil
 	}
 
-	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_presignResult", result)
+	err := c.call("tss_presignResult", CallTimeout, result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post presign result, err = ", err)
-- 
2.43.0


From 0ba6dd576a4eaeb6c331a813bd19baddb6e94d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 45/62] fix: refuse an unknown key type in the single node
 keygen

---
 server/single_node_api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..2bbe4d1 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -56,6 +56,10 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	if keyType != libchain.KEY_TYPE_ECDSA && keyType != libchain.KEY_TYPE_EDDSA {
+		return fmt.Errorf("unknown key type: %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
-- 
2.43.0


From 43008e0332d9de129ea6ab80e1293ecb5c0b16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 46/62] fix: guard the keys of the single node API and fail
 when there is no key to sign with

---
 server/single_node_api.go | 45 +++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index 2bbe4d1..efe87a6 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -2,7 +2,9 @@ package server
 
 import (
 	"crypto/ecdsa"
+	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -26,6 +28,7 @@ type SingleNodeApi struct {
 
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
+	keyLock   sync.RWMutex // guards the private keys
 }
 
 func NewSingleNodeApi(c client.Client) *SingleNodeApi {
@@ -68,13 +71,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
+			ecPrivate, err := crypto.GenerateKey()
 			if err != nil {
 				panic(err)
 			}
 
-			pubKey := api.ecPrivate.Public()
+			api.keyLock.Lock()
+			api.ecPrivate = ecPrivate
+			api.keyLock.Unlock()
+
+			pubKey := ecPrivate.Public()
 			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
 			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
 
@@ -84,8 +90,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 				PubKeyBytes: publicKeyBytes,
 			}
 		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+			edPrivate, err := edwards.GeneratePrivateKey()
+			if err != nil {
+				panic(err)
+			}
+
+			api.keyLock.Lock()
+			api.edPrivate = edPrivate
+			api.keyLock.Unlock()
+
+			pubKeyBytes := edPrivate.PubKey().Serialize()
 
 			result = types.KeygenResult{
 				KeyType:     keyType,
@@ -107,15 +121,32 @@ func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.keyLock.RLock()
 	privateKey := api.ecPrivate
+	api.keyLock.RUnlock()
+	if privateKey == nil {
+		return nil, errors.New("there is no ecdsa key")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.keyLock.RLock()
+	privateKey := api.edPrivate
+	api.keyLock.RUnlock()
+	if privateKey == nil {
+		return nil, errors.New("there is no eddsa key")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
-- 
2.43.0


From 7becee34154dfc7215a4951f8b0aad9ca75056db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 47/62] fix: an unreachable peer does not delay the messages to
 the other peers

---
 core/engine.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index b263b5f..ea44203 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -406,10 +406,16 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 	}
 	engine.nodeLock.RUnlock()
 
-	// Write to stream
+	// Write to the streams. A peer that is not reachable must not delay the message to the others.
+	wg := &sync.WaitGroup{}
 	for _, peerId := range peerIds {
-		engine.cm.WriteToStream(peerId, p2p.TSSProtocolID, bz)
+		wg.Add(1)
+		go func(peerId peer.ID) {
+			defer wg.Done()
+			engine.cm.WriteToStream(peerId, p2p.TSSProtocolID, bz)
+		}(peerId)
 	}
+	wg.Wait()
 }
 
 // getSignedMessageBytes signs a tss message and returns serialized bytes of the signed message.
-- 
2.43.0


From f87aabbb19b766931ddbaaf76c7fc7c131e61256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 48/62] fix: repeat a migration that a previous start did not
 finish

---
 db/database.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/db/database.go b/db/database.go
index 6638c58..5c748a1 100644
--- a/db/database.go
+++ b/db/database.go
@@ -170,7 +170,21 @@ func (d *SqlDatabase) doSqlMigration() error {
 	}
 
 	m.Log = &dbLogger{}
-	if err := m.Up(); err != nil && err != migrate.ErrNoChange {
+	err = m.Up()
+	if dirty, ok := err.(migrate.ErrDirty); ok {
+		// A previous start was interrupted in the middle of this migration. All migrations can be repeated safely.
+		version := dirty.Version - 1
+		if version == 0 {
+			version = -1 // no migration has been applied
+		}
+		if err := m.Force(version); err != nil {
+			return err
+		}
+
+		err = m.Up()
+	}
+
+	if err != nil && err != migrate.ErrNoChange {
 		return err
 	}
 
-- 
2.43.0


From 1aa209a030f970c0cf63b03cb9602bf15327b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 49/62] fix: key the presign table by presign id

A batch of presigns is saved as several rows with the same work id, which was the primary key. So
no batch with more than one presign could ever be saved.
---
 db/migrations/002_create_presign_table.up.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/migrations/002_create_presign_table.up.sql b/db/migrations/002_create_presign_table.up.sql
index 2149182..1ebd037 100644
--- a/db/migrations/002_create_presign_table.up.sql
+++ b/db/migrations/002_create_presign_table.up.sql
@@ -5,5 +5,5 @@ CREATE TABLE IF NOT EXISTS presign(
   status VARCHAR(64),
   presign_output BLOB,
   created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
-  PRIMARY KEY (work_id)
+  PRIMARY KEY (presign_id)
 );
-- 
2.43.0


From bc9fa9b4ac8e249f288d5eeffb38ef531cdc8a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 50/62] fix: report keys of the single node mode in the order
 they take effect

Two keygens of the same type at the same time could report their keys in one order and put them to use
in the other. Sisu then got signatures that do not verify under the key reported last.
---
 server/single_node_api.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index efe87a6..44735cb 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -29,6 +29,10 @@ type SingleNodeApi struct {
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
 	keyLock   sync.RWMutex // guards the private keys
+
+	// Held from the moment a new key takes effect until it is reported, so that keys are reported in the
+	// order they take effect.
+	keygenLock sync.Mutex
 }
 
 func NewSingleNodeApi(c client.Client) *SingleNodeApi {
@@ -68,6 +72,9 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		time.Sleep(time.Second * 3)
 		log.Info("Sending keygen to Sisu")
 
+		api.keygenLock.Lock()
+		defer api.keygenLock.Unlock()
+
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-- 
2.43.0


From 2007836fe8ce55f8491d2d3ea86fb3b91042f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 51/62] fix: a work whose result is being reported no longer
 holds a worker slot

---
 core/engine.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index ea44203..ab1f7b8 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -76,6 +76,7 @@ type defaultEngine struct {
 	// Mutable data. Any data change requires a lock operation.
 	///////////////////////
 	workers      map[string]worker.Worker
+	reporting    map[string]bool // works in workers that are over and whose result is being reported
 	requestQueue *requestQueue
 
 	workLock *sync.RWMutex
@@ -95,6 +96,7 @@ func NewEngine(myNode *Node, cm p2p.ConnectionManager, db db.Database, callback
 		db:              db,
 		cm:              cm,
 		workers:         make(map[string]worker.Worker),
+		reporting:       make(map[string]bool),
 		requestQueue:    NewRequestQueue(),
 		workLock:        &sync.RWMutex{},
 		preworkCache:    cache.NewMessageCache(),
@@ -279,10 +281,23 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	return nil
 }
 
+// releaseSlot lets the next work start while the result of a finished work is being reported, which can take long
+// when Sisu does not answer. The work stays known until then so that it is not added again.
+func (engine *defaultEngine) releaseSlot(workId string) {
+	engine.workLock.Lock()
+	if _, running := engine.workers[workId]; running {
+		engine.reporting[workId] = true
+	}
+	engine.workLock.Unlock()
+
+	engine.startNextWork()
+}
+
 // finishWorker removes a worker from the current worker pool.
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
+	delete(engine.reporting, workId)
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
@@ -302,7 +317,7 @@ func (engine *defaultEngine) startNextWork() {
 	engine.workLock.Lock()
 	defer engine.workLock.Unlock()
 
-	for len(engine.workers) < MaxWorker {
+	for len(engine.workers)-len(engine.reporting) < MaxWorker {
 		nextWork := engine.requestQueue.Pop()
 		if nextWork == nil {
 			return
@@ -501,11 +516,13 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 	engine.workLock.RLock()
 	defer engine.workLock.RUnlock()
 
-	return len(engine.workers)
+	return len(engine.workers) - len(engine.reporting)
 }
 
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
+	engine.releaseSlot(request.WorkId)
+
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
@@ -533,6 +550,7 @@ func (engine *defaultEngine) OnWorkFailed(request *types.WorkRequest) {
 	}
 
 	culprits := worker.GetCulprits()
+	engine.releaseSlot(request.WorkId)
 	engine.callback.OnWorkFailed(request, culprits)
 
 	// Finish this worker and start the next one (if any).
@@ -555,6 +573,8 @@ func (engine *defaultEngine) GetPresignOutputs(presignIds []string) []*ecsigning
 }
 
 func (engine *defaultEngine) OnWorkerResult(request *types.WorkRequest, result *worker.WorkerResult) {
+	engine.releaseSlot(request.WorkId)
+
 	switch request.WorkType {
 	// Ecdsa
 	case types.EcKeygen:
-- 
2.43.0


From 0977e89e77a19e8408cbbbf8b5e81201d90f0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 52/62] fix: ignore messages that are addressed to another
 party

---
 core/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/engine.go b/core/engine.go
index ab1f7b8..2d3ffb1 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -502,6 +502,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
+	if !tssMessage.IsBroadcast() && tssMessage.To != engine.myPid.Id {
+		log.Warn("Message from peer ", message.FromPeerId, " is addressed to ", tssMessage.To)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && validateContent(tssMessage) == nil &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
-- 
2.43.0


From c41c5f78294d143a8b8a1bc7fae7de91dfbeec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 53/62] fix: refuse a leader's participant list that names a
 party twice

---
 worker/prework_selection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 9ff8804..47f4393 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -423,11 +423,13 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	seen := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || seen[pid] {
 			return false
 		}
+		seen[pid] = true
 	}
 
 	return true
-- 
2.43.0


From dfdc76c42b6b5f64e5d3fe8d940467f60f3eefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 54/62] fix: find messages of works whose id contains the
 separator of message keys

---
 types/common/tss_message.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 99f61b4..4160701 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,12 +115,21 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	keys := strings.Split(msgKey, "__")
-	if len(keys) < 4 {
-		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
-		log.Error(err)
-		return nil, err
+	// Split from the end, the work id (and only the work id) can contain the separator.
+	keys := make([]string, 4)
+	rest := msgKey
+	for i := 3; i > 0; i-- {
+		index := strings.LastIndex(rest, "__")
+		if index < 0 {
+			err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
+			log.Error(err)
+			return nil, err
+		}
+
+		keys[i] = rest[index+2:]
+		rest = rest[:index]
 	}
+	keys[0] = rest
 
 	return keys, nil
 }
-- 
2.43.0


From 18d2122c78b9289abf75dccc11345ca2d675a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 55/62] fix: refuse a request whose work id is in use by a
 different request

---
 core/engine.go               | 18 ++++++++++++++----
 core/heart.go                |  5 +++++
 worker/types/work_request.go | 27 +++++++++++++++++++++++++++
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 2d3ffb1..76c6c6b 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -76,7 +76,8 @@ type defaultEngine struct {
 	// Mutable data. Any data change requires a lock operation.
 	///////////////////////
 	workers      map[string]worker.Worker
-	reporting    map[string]bool // works in workers that are over and whose result is being reported
+	requests     map[string]*types.WorkRequest // requests of all works that wait or run
+	reporting    map[string]bool               // works in workers that are over and whose result is being reported
 	requestQueue *requestQueue
 
 	workLock *sync.RWMutex
@@ -96,6 +97,7 @@ func NewEngine(myNode *Node, cm p2p.ConnectionManager, db db.Database, callback
 		db:              db,
 		cm:              cm,
 		workers:         make(map[string]worker.Worker),
+		requests:        make(map[string]*types.WorkRequest),
 		reporting:       make(map[string]bool),
 		requestQueue:    NewRequestQueue(),
 		workLock:        &sync.RWMutex{},
@@ -143,12 +145,19 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 		}
 	}
 
-	engine.workLock.RLock()
+	engine.workLock.Lock()
+	if current := engine.requests[request.WorkId]; current != nil && !current.IsSameWork(request) {
+		engine.workLock.Unlock()
+		return fmt.Errorf("work id %s is in use by another request", request.WorkId)
+	}
+
 	added := false
 	if _, running := engine.workers[request.WorkId]; !running {
-		added = engine.requestQueue.AddWork(request)
+		if added = engine.requestQueue.AddWork(request); added {
+			engine.requests[request.WorkId] = request
+		}
 	}
-	engine.workLock.RUnlock()
+	engine.workLock.Unlock()
 
 	if added {
 		engine.startNextWork()
@@ -297,6 +306,7 @@ func (engine *defaultEngine) releaseSlot(workId string) {
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
+	delete(engine.requests, workId)
 	delete(engine.reporting, workId)
 
 	// fmt.Println
diff --git a/core/heart.go b/core/heart.go
index 50eecea..00e5f1d 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 
 	"fmt"
+	"reflect"
 	"strconv"
 	"sync"
 	"sync/atomic"
@@ -424,6 +425,10 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	// Remember the client's request before the work starts, the work can finish at any time.
 	h.requestLock.Lock()
 	old := h.keysignRequests[workRequest.WorkId]
+	if old != nil && !reflect.DeepEqual(old, req) {
+		h.requestLock.Unlock()
+		return fmt.Errorf("the ids of the messages are in use by another request")
+	}
 	h.keysignRequests[workRequest.WorkId] = req
 	h.requestLock.Unlock()
 
diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index b87f7c9..9b28369 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"bytes"
 	"errors"
 
 	"github.com/sisu-network/lib/log"
@@ -103,6 +104,32 @@ func (request *WorkRequest) Validate() error {
 	return nil
 }
 
+// IsSameWork checks if another request asks for the same work among the same parties.
+func (request *WorkRequest) IsSameWork(other *WorkRequest) bool {
+	if request.WorkId != other.WorkId || request.WorkType != other.WorkType ||
+		len(request.Messages) != len(other.Messages) || len(request.AllParties) != len(other.AllParties) {
+		return false
+	}
+
+	for i := range request.Messages {
+		if !bytes.Equal(request.Messages[i], other.Messages[i]) {
+			return false
+		}
+	}
+
+	parties := make(map[string]bool)
+	for _, party := range request.AllParties {
+		parties[party.Id] = true
+	}
+	for _, party := range other.AllParties {
+		if !parties[party.Id] {
+			return false
+		}
+	}
+
+	return true
+}
+
 // GetMinPartyCount returns the minimum number of parties needed to do this job.
 func (request *WorkRequest) GetMinPartyCount() int {
 	if request.IsKeygen() {
-- 
2.43.0


From 2273ac7151c2e07fcab87f8b0c66834ae15ef62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 56/62] fix: fail a signing whose parties have no share in the
 key instead of crashing

---
 worker/worker_executor.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index ee3f774..28f09ae 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math/big"
 	"sync"
 
 	"github.com/sisu-network/dheart/core/config"
@@ -129,6 +130,10 @@ func (w *WorkerExecutor) Init() (err error) {
 		}
 	}
 
+	if err = w.checkSigners(); err != nil {
+		return err
+	}
+
 	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
 	go w.messageMonitor.Start()
 
@@ -210,6 +215,36 @@ func (w *WorkerExecutor) Run(cachedMsgs []*commonTypes.TssMessage) {
 	}
 }
 
+// checkSigners checks that every party of a signing has a share in the key to sign with. A party
+// could be named in the request without being in the group which generated the key.
+func (w *WorkerExecutor) checkSigners() error {
+	var ks []*big.Int
+	switch {
+	case w.workType == wTypes.EcSigning && w.request.EcSigningInput != nil:
+		ks = w.request.EcSigningInput.Ks
+	case w.workType == wTypes.EdSigning && w.request.EdSigningInput != nil:
+		ks = w.request.EdSigningInput.Ks
+	default:
+		return nil
+	}
+
+	for _, pid := range w.pIDs {
+		found := false
+		for _, k := range ks {
+			if k != nil && k.Cmp(pid.KeyInt()) == 0 {
+				found = true
+				break
+			}
+		}
+
+		if !found {
+			return fmt.Errorf("party %s has no share in the signing key", pid.Id)
+		}
+	}
+
+	return nil
+}
+
 func (w *WorkerExecutor) loadPreparams() error {
 	// Check if we have generated preparams
 	var err error
-- 
2.43.0


From bff4d3012dd72ba1dd7bac59e1b05ec1f994d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 57/62] fix: settle for the available parties also when the
 selection window ends while an answer is processed

---
 worker/prework_selection.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 47f4393..96b3913 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -180,14 +180,8 @@ func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, er
 	// Wait for everyone to reply or timeout.
 	end := time.Now().Add(s.cfg.SelectionLeaderTimeout)
 	for {
-		now := time.Now()
-		if now.After(end) {
-			break
-		}
-
-		timeDiff := end.Sub(now)
 		select {
-		case <-time.After(timeDiff):
+		case <-time.After(end.Sub(time.Now())): // Fires at once when the end has passed.
 			if s.request.IsSigning() && s.availableParties.Length() >= s.request.Threshold+1 {
 				log.Info("Wait timeouted for signing but we got enough participants for presign.")
 				// We have enough online participants but cannot find a presign set for all of them. This
@@ -232,8 +226,6 @@ func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, er
 			}
 		}
 	}
-
-	return nil, nil, errors.New("cannot find enough members for this work")
 }
 
 // checkEnoughParticipants is a function called by the leader in the election to see if we have
-- 
2.43.0


From cbe6ba1f8ddfbf256ec3d2d17a70386311718c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 58/62] fix: fail the signing of a zero message instead of
 crashing

---
 worker/job.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/worker/job.go b/worker/job.go
index 32e613d..1899c3d 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -60,6 +60,7 @@ type Job struct {
 	// Ecdsa
 	hasPresignData bool
 	isPresign      bool // a job without a message to sign, it has no message for the last round.
+	ecMsg          *big.Int
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -121,6 +122,7 @@ func NewEcSigningJob(
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
 	job.isPresign = msg == nil
+	job.ecMsg = msgInt
 
 	return job
 }
@@ -205,6 +207,11 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 }
 
 func (job *Job) Start() error {
+	if job.ecMsg != nil && new(big.Int).Mod(job.ecMsg, tss.EC(tss.EcdsaScheme).Params().N).Sign() == 0 {
+		// tss-lib multiplies a curve point with the message and cannot handle the point at infinity.
+		return fmt.Errorf("a message that is zero modulo the order of the curve cannot be signed")
+	}
+
 	if err := job.party.Start(); err != nil {
 		return fmt.Errorf("error when starting party %w", err)
 	}
-- 
2.43.0


From 6a3070cfd9f799bd96fbe3be9a21f0ea041db76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 59/62] fix: refuse a signing request without parties, it
 blocked the engine for ever

---
 worker/types/work_request.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index 9b28369..e756f0d 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -101,6 +101,11 @@ func (request *WorkRequest) Validate() error {
 	default:
 		return errors.New("Invalid request type")
 	}
+
+	if len(request.AllParties) == 0 {
+		return errors.New("Request has no parties")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4fe0c7f27958c0493118874cbc09593fec6f38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 60/62] fix: room for the ECDSA key share of a group with more
 than 21 validators

The share holds about 2.7 kB per validator and did not fit a BLOB.
---
 db/migrations/001_create_keygen_table.up.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/migrations/001_create_keygen_table.up.sql b/db/migrations/001_create_keygen_table.up.sql
index b6bd72a..6aebf54 100644
--- a/db/migrations/001_create_keygen_table.up.sql
+++ b/db/migrations/001_create_keygen_table.up.sql
@@ -2,7 +2,7 @@ CREATE TABLE IF NOT EXISTS keygen(
   key_type VARCHAR(256),
   work_id VARCHAR(256),
   pids_string TEXT,
-  keygen_output BLOB,
+  keygen_output MEDIUMBLOB,
   created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
   PRIMARY KEY (key_type, work_id))
 ;
-- 
2.43.0


From 1663a6277651c5df94cdbca7a2be62df1d00c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 61/62] fix: report a signing with the request it carries out

The client's request was looked up by work id and forgotten when a work ended, so a
request which was submitted again at that moment was run and reported without it.
---
 core/heart.go                | 50 +++++-------------------------------
 worker/types/work_request.go |  9 +++++--
 2 files changed, 14 insertions(+), 45 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 00e5f1d..3e7049f 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -5,7 +5,6 @@ import (
 	"encoding/hex"
 
 	"fmt"
-	"reflect"
 	"strconv"
 	"sync"
 	"sync/atomic"
@@ -54,17 +53,13 @@ type Heart struct {
 	sisuReady  bool
 	privateKey ctypes.PrivKey
 	aesKey     []byte
-
-	keysignRequests map[string]*htypes.KeysignRequest
-	requestLock     sync.Mutex
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
 	return &Heart{
-		config:          config,
-		aesKey:          config.AesKey,
-		client:          client,
-		keysignRequests: make(map[string]*htypes.KeysignRequest),
+		config: config,
+		aesKey: config.AesKey,
+		client: client,
 	}
 }
 
@@ -192,8 +187,7 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	// Get and remove this request.
-	result.Request = h.takeKeysignRequest(request.WorkId)
+	result.Request = request.ClientRequest
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
@@ -201,17 +195,6 @@ func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes
 	}
 }
 
-// takeKeysignRequest returns the client's request of a work and removes it from the list.
-func (h *Heart) takeKeysignRequest(workId string) *htypes.KeysignRequest {
-	h.requestLock.Lock()
-	defer h.requestLock.Unlock()
-
-	request := h.keysignRequests[workId]
-	delete(h.keysignRequests, workId)
-
-	return request
-}
-
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
@@ -224,7 +207,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  h.takeKeysignRequest(request.WorkId),
+			Request:  request.ClientRequest,
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -422,28 +405,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return fmt.Errorf("Unsupported signing type: %s", req.KeyType)
 	}
 
-	// Remember the client's request before the work starts, the work can finish at any time.
-	h.requestLock.Lock()
-	old := h.keysignRequests[workRequest.WorkId]
-	if old != nil && !reflect.DeepEqual(old, req) {
-		h.requestLock.Unlock()
-		return fmt.Errorf("the ids of the messages are in use by another request")
-	}
-	h.keysignRequests[workRequest.WorkId] = req
-	h.requestLock.Unlock()
+	workRequest.ClientRequest = req
 
-	err := h.engine.AddRequest(workRequest)
-	if err != nil {
-		h.requestLock.Lock()
-		if old != nil {
-			h.keysignRequests[workRequest.WorkId] = old
-		} else {
-			delete(h.keysignRequests, workRequest.WorkId)
-		}
-		h.requestLock.Unlock()
-	}
-
-	return err
+	return h.engine.AddRequest(workRequest)
 }
 
 // Called at the end of Sisu's block. This could be a time when we can check our CPU resource and
diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index e756f0d..3bd653a 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -3,7 +3,9 @@ package types
 import (
 	"bytes"
 	"errors"
+	"reflect"
 
+	htypes "github.com/sisu-network/dheart/types"
 	"github.com/sisu-network/lib/log"
 	"github.com/sisu-network/tss-lib/ecdsa/keygen"
 	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
@@ -34,6 +36,9 @@ type WorkRequest struct {
 	// Used for signing
 	Messages [][]byte // TODO: Make this a byte array
 	Chains   []string
+
+	// The client's request which this work carries out. It is sent back with the result.
+	ClientRequest *htypes.KeysignRequest
 }
 
 func NewEcKeygenRequest(keyType, workId string, pIds tss.SortedPartyIDs, threshold int, keygenInput *keygen.LocalPreParams) *WorkRequest {
@@ -109,7 +114,7 @@ func (request *WorkRequest) Validate() error {
 	return nil
 }
 
-// IsSameWork checks if another request asks for the same work among the same parties.
+// IsSameWork checks if another request asks for the same work among the same parties, for the same client request.
 func (request *WorkRequest) IsSameWork(other *WorkRequest) bool {
 	if request.WorkId != other.WorkId || request.WorkType != other.WorkType ||
 		len(request.Messages) != len(other.Messages) || len(request.AllParties) != len(other.AllParties) {
@@ -132,7 +137,7 @@ func (request *WorkRequest) IsSameWork(other *WorkRequest) bool {
 		}
 	}
 
-	return true
+	return reflect.DeepEqual(request.ClientRequest, other.ClientRequest)
 }
 
 // GetMinPartyCount returns the minimum number of parties needed to do this job.
-- 
2.43.0


From 632e6c141ce0e90ca5827e45d7c476376f615199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 62/62] fix: remove the copies of the party ids that f71d188
 added

Every request has its own copies already: there was nothing to repair.
---
 worker/default_worker.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index 0d90910..c652382 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -179,7 +179,7 @@ func (w *DefaultWorker) onSelectionResult(result SelectionResult) {
 }
 
 func (w *DefaultWorker) startEcExecution(result SelectionResult) {
-	sortedPids := tss.SortPartyIDs(copyPartyIds(result.SelectedPids))
+	sortedPids := tss.SortPartyIDs(result.SelectedPids)
 
 	// We need to load the set of presigns data
 	var ecSigningPresign []*ecsigning.SignatureData_OneRoundData
@@ -202,7 +202,7 @@ func (w *DefaultWorker) startEcExecution(result SelectionResult) {
 }
 
 func (w *DefaultWorker) startEdExecution(result SelectionResult) {
-	sortedPids := tss.SortPartyIDs(copyPartyIds(result.SelectedPids))
+	sortedPids := tss.SortPartyIDs(result.SelectedPids)
 
 	w.lock.Lock()
 	defer w.lock.Unlock()
@@ -212,17 +212,6 @@ func (w *DefaultWorker) startEdExecution(result SelectionResult) {
 	w.runExecutor(w.executor)
 }
 
-// copyPartyIds makes a copy of party ids. Sorting sets their indexes, which differ between works, and
-// the original ids are shared by all works.
-func copyPartyIds(pids []*tss.PartyID) []*tss.PartyID {
-	ret := make([]*tss.PartyID, len(pids))
-	for i, pid := range pids {
-		ret[i] = tss.NewPartyID(pid.Id, pid.Moniker, pid.KeyInt())
-	}
-
-	return ret
-}
-
 func (w *DefaultWorker) getEcExecutor(selectedPids []*tss.PartyID, ecSigningPresign []*ecsigning.SignatureData_OneRoundData) *WorkerExecutor {
 	return NewWorkerExecutor(w.request, w.curWorkType, w.myPid, selectedPids, w.dispatcher,
 		w.db, ecSigningPresign, w.onJobExecutionResult, w.cfg)
-- 
2.43.0

