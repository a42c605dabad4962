#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; the checks never run it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "A signing reported successful carries valid signatures of what was asked",
  "Whenever a node reports a signing request to its client as successful, the report carries exactly one signature per requested message, in the order of the request, and every signature verifies under the group public key for exactly the bytes requested. An ECDSA signature is 65 bytes r||s||recovery-id that recovers to the group key; an EdDSA signature is a 64-byte Ed25519 signature. The report also carries the request it answers.",
  ["schedules", "fault_sequences", "inputs"],
  "For every batch of messages (any size, any bytes), every interleaving of the works and goroutines of all nodes, and every pattern of message loss, duplication, delay, corruption and node failure.",
  "The tests sign fixed messages once on a fault-free in-process bus with all parties honest; batching, concurrent works, losses and corrupted messages, and messages with unusual bytes are never combined.",
  ["core/engine_ecdsa.go", "core/engine_eddsa.go", "core/heart.go", "worker/job.go", "worker/worker_executor.go", "worker/helper.go"],
  [("result assembly", "core/engine_ecdsa.go:onEcSigningFinished, core/engine_eddsa.go:onEdSigningFinished"), ("per-message jobs collected by index", "worker/worker_executor.go:OnJobResult")],
  [("jobResults", "result of each message of the batch, by position", "worker/worker_executor.go")],
  ["tss_keysignResult RPC received by the client"])

p("C02", "Keygen: all nodes report one key, and a usable share is stored before that",
  "All nodes that report the same key generation as successful report the same, well-formed public key. Before a node reports success it has durably stored a share of exactly that key, and the shares so stored by any threshold+1 of the reporting nodes determine that key, and fewer do not.",
  ["schedules", "fault_sequences", "crash_points"],
  "For every group size, key type, interleaving, message loss/duplication/corruption, database error and crash during the key generation.",
  "The tests check that keygen ends on a clean network; no test crosses nodes' outputs after losses, database errors or a crash, nor relates the report to what is on disk.",
  ["core/engine_ecdsa.go", "core/engine_eddsa.go", "worker/default_worker.go", "db/database.go", "core/heart.go"],
  [("save before the result callback", "worker/default_worker.go:onJobExecutionResult"), ("keygen table", "db/database.go:saveKeygen")],
  [("keygen table", "durable shares", "db/migrations/001_create_keygen_table.up.sql")],
  ["tss_keygenResult RPC", "keygen rows in the node's database"])

p("C03", "Every accepted request is answered exactly once, in bounded time",
  "For every key generation or signing request that a node accepts (returns no error for) and while that node keeps running, the node reports exactly one outcome for it to its client - success, failure or not selected - within the configured selection and job timeouts plus queueing time. A report about a signing carries the request it belongs to and a report about a key generation its key type. A request the node cannot carry out is either refused with an error or answered with a failure, never dropped silently: unknown key types, missing keys, empty batches, lists of parties that hold no share, a work id that a different running request uses.",
  ["schedules", "fault_sequences", "inputs"],
  "For every mix of requests (ECDSA/EdDSA, batches, empty batches, unknown or missing keys, key types), every interleaving and every pattern of lost messages, dead peers, partitions and database errors.",
  "Unit tests wait for the one callback they expect on the happy path; absence of an answer, double answers and answers to the wrong request only show under losses, timeouts racing with results, and concurrent requests.",
  ["core/heart.go", "core/engine.go", "worker/default_worker.go", "worker/prework_selection.go", "worker/worker_executor.go", "worker/job.go", "core/config/timeout.go"],
  [("engine callbacks to the client", "core/heart.go:OnWorkSigningFinished/OnWorkFailed/OnWorkKeygenFinished"), ("selection and job timeouts", "worker/prework_selection.go, worker/job.go"), ("single result broadcast", "worker/worker_executor.go:broadcastResult")],
  [("keysignRequests", "client request of each running signing work", "core/heart.go")],
  ["return value of tss_keyGen / tss_keySign", "tss_keygenResult / tss_keysignResult RPCs"])

p("C04", "Lost messages are recovered: recoverable faults end in success",
  "If every node of a group is up and the same request is submitted to all of them within the selection window, then any loss of protocol round messages, and any broken connections or short partitions that begin once the participants are settled, which stop well before the job timeout, do not prevent the request from completing: once the faults stop, every participating node reports success within the job timeout. In particular a message that was lost on its way to a node is re-sent when that node asks for it, and messages that arrive before a node has started the work are not lost.",
  ["schedules", "fault_sequences"],
  "For every set of protocol messages lost, duplicated, reordered or delayed, every connection break and short partition, every start skew smaller than the selection window, for ECDSA and EdDSA keygen and signing.",
  "The tests use one artificial delay or drop exactly one chosen message in one work type; the recovery protocol's behaviour depends on which of dozens of messages is lost at which moment on which link.",
  ["worker/components/message_monitor.go", "worker/worker_executor.go", "core/engine.go", "core/cache/message_cache.go", "core/cache/work_message_cache.go", "core/message/tss_phase_messages.go", "p2p/connection.go"],
  [("missing message monitor and re-request", "worker/components/message_monitor.go, worker/worker_executor.go:OnMissingMesssageDetected"), ("reply from the work message cache", "core/engine.go:OnAskMessage"), ("early message cache", "core/cache/message_cache.go")],
  [("workCache", "signed messages sent or received, per sender", "core/cache/work_message_cache.go")],
  ["tss_*Result RPCs after the faults stopped"])

p("C05", "At most two works run at once; the queue is priority-FIFO and drains",
  "A node never executes more than two works at the same time. Waiting works are started in priority order - key generation before signing - and in order of submission within one priority. Whenever a work ends, however it ends, its slot is freed and the next waiting work starts, so every waiting work eventually runs.",
  ["schedules", "histories"],
  "For every arrival order of requests, every interleaving of arrivals with works finishing, failing, timing out or not being selected.",
  "The queue test inserts a few works single-threaded; the limit and the hand-over to the next work are check-then-act sequences that only fail when arrivals and completions interleave.",
  ["core/engine.go", "core/request_queue.go", "worker/types/work_request.go"],
  [("worker limit", "core/engine.go:startNextWork"), ("priority insertion", "core/request_queue.go:AddWork"), ("slot release", "core/engine.go:finishWorker")],
  [("workers", "running works", "core/engine.go"), ("requestQueue", "waiting works", "core/engine.go")],
  ["first selection message a node sends for a work, and its outcome report"])

p("C06", "Submitting the same request again does not run or answer it twice",
  "If a request identical to one that is waiting or running on a node is submitted again, the node does not start a second execution for it, the running execution is not disturbed, and the client receives one outcome for the work, not two.",
  ["schedules", "histories"],
  "For every number of repeated submissions, at every point of the waiting and running phases, from any number of concurrent callers.",
  "No test submits a request twice; whether the duplicate is noticed depends on whether the first is queued, being started or running at that instant.",
  ["core/engine.go", "core/request_queue.go", "core/heart.go"],
  [("duplicate detection", "core/request_queue.go:AddWork, core/engine.go:AddRequest")],
  [("workers / requestQueue", "works known to the node", "core/engine.go")],
  ["tss_keysignResult / tss_keygenResult RPC count per submitted request"])

p("C07", "A presignature is used for at most one signing, across works and restarts",
  "One node never takes part in two different signing works with the same presignature, no matter which nodes lead them, whether the works run concurrently, fail half-way, or are separated by a crash and restart of any node. Taking a presignature is durable before any message that depends on it leaves the node, and concurrent takers never receive the same one.",
  ["schedules", "crash_points", "fault_sequences"],
  "For every interleaving of concurrent signing works with a shared presignature pool, every choice of leaders, every crash point and database error while a presignature is being taken.",
  "Tests take presignatures once from a mocked database in one goroutine; reuse needs two works with different leaders, a race, or a crash between taking and recording.",
  ["core/components/available_presign_manager.go", "worker/prework_selection.go", "db/database.go", "core/engine.go"],
  [("consume then record as used", "core/components/available_presign_manager.go:GetAvailablePresigns"), ("status column", "db/database.go:UpdatePresignStatus")],
  [("available", "in-memory pool of unused presignatures", "core/components/available_presign_manager.go")],
  ["presignature ids in the leader's outcome message and the final-round messages each node sends", "status rows in the database"])

p("C08", "Keys and pre-parameters survive a crash at any point",
  "A crash and restart of any node at any instant, with only its database surviving, loses no key share the node has reported: after the restart it takes part in signing with the same group key. Pre-parameters are generated once and reused unchanged after every restart, a half-finished first start can be repeated, and a node whose database is unreachable at start keeps retrying rather than running without it.",
  ["crash_points", "fault_sequences", "histories"],
  "For every crash instant (during start, pre-parameter generation, key generation, database writes, signing) and any sequence of restarts and database outages.",
  "No test restarts a node; durability relates what was reported before a crash to what works after it.",
  ["core/heart.go", "db/database.go", "db/migrations.go", "worker/default_worker.go"],
  [("start-up: open with retry, migrate, load or generate pre-parameters", "core/heart.go:Start"), ("keygen and preparams tables", "db/migrations")],
  None, ["tss_keysignResult after restart", "preparams and keygen rows before and after the crash"])

p("C09", "All participants of one work agree on who participates",
  "In one execution of a work, all nodes that go on to execute the protocol do so with the same set of participants, which is a subset of the parties of the request, contains at least threshold+1 of them including every executing node itself, and for key generation is all of them. A node left out of the set executes no protocol round for that work and reports 'not selected'; a node that gets no selection outcome in time, or an unacceptable one - too small, naming strangers or a party twice, with presignatures it does not have - reports failure, also when the leader is dishonest.",
  ["schedules", "fault_sequences"],
  "For every order and loss of availability requests, responses and outcome messages, every outcome a dishonest leader announces, every start skew, late and duplicated messages, and every set of reachable nodes.",
  "The selection tests feed a scripted cache to one instance; agreement is a relation between instances on different nodes under message reordering and timeouts.",
  ["worker/prework_selection.go", "worker/available_parties.go", "worker/default_worker.go", "core/engine.go"],
  [("leader decides and broadcasts", "worker/prework_selection.go:leaderFinalized"), ("member validates", "worker/prework_selection.go:validateLeaderSelection"), ("not-selected report", "core/engine.go:OnNodeNotSelected")],
  [("availableParties", "parties that answered the leader", "worker/available_parties.go")],
  ["outcome messages on the wire, protocol messages each node sends, outcome reports"])

p("C10", "No message from a peer can crash a node or disturb unrelated works",
  "Whatever bytes a peer sends - malformed, truncated or oversized frames, invalid or unexpected fields, wrong rounds, wrong batch sizes, messages for unknown, not yet started or finished works, floods - the receiving process does not crash or stop serving, and works in which that peer does not take part complete as they would have without those bytes.",
  ["inputs", "schedules", "fault_sequences"],
  "For every byte sequence and message a peer can send, at every point in the life of the works running on the receiver.",
  "Tests only ever deliver well-formed messages produced by honest code.",
  ["core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "worker/prework_selection.go", "types/common/tss_message.go", "p2p/helper.go", "p2p/connection_manager.go", "core/cache/message_cache.go", "core/cache/work_message_cache.go"],
  [("decoding and validation on receipt", "core/engine.go:OnNetworkMessage, worker/worker_executor.go:ProcessUpdateMessage")],
  None, ["liveness of the process, results of the other works"])

p("C11", "A peer can speak only for itself",
  "A message counts as coming from a party only if that party's key signed it, and a message that names an addressee counts only at that addressee: no peer can make a node accept a protocol message, an availability answer, a re-send request or a selection outcome in the name of another party. Only the leader of a work can decide its participants: an outcome message from any other party has no effect.",
  ["inputs", "schedules", "fault_sequences"],
  "For every forged, altered, re-routed or replayed message a peer can produce without the other parties' keys, at every point of a work.",
  "No test contains a dishonest peer.",
  ["core/engine.go", "core/signer/signer.go", "worker/prework_selection.go", "types/common/tss_message.go"],
  [("message signing", "core/engine.go:getSignedMessageBytes"), ("sender lookup on receipt", "core/engine.go:OnNetworkMessage"), ("choice of the leader", "worker/prework_selection.go:ChooseLeader")],
  None, ["effects of forged messages: selection outcomes, failures, availability"])

p("C12", "Early messages are kept per sender, bounded, and handed over exactly once",
  "Messages for a work that has not started are kept until it starts and are then handed to it exactly once, grouped by nothing but their own sender: taking the messages of one work never loses, duplicates or re-attributes messages of other works or senders. At most a fixed number of messages is kept per sender, the oldest of that sender giving way first, so that no amount of traffic from one sender displaces messages of another.",
  ["schedules", "histories", "inputs"],
  "For every interleaving of arrivals from any number of senders with works being started, and every volume of traffic.",
  "The cache has no test with two senders and two works; end-to-end tests never reach the bound.",
  ["core/cache/message_cache.go", "core/engine.go", "worker/default_worker.go"],
  [("per-sender lists with a cap", "core/cache/message_cache.go")],
  [("cache", "messages kept, by sender", "core/cache/message_cache.go")],
  ["messages returned when a work's messages are taken"])

p("C13", "Private protocol messages only ever travel to their addressee",
  "A protocol message addressed to a single party is transmitted to that party only, in the first transmission and in every re-transmission, whoever asks for it and in whoever's name. Messages for all are sent to the participants of the work - and again to parties of the group that ask for them - and never to the sending node itself.",
  ["schedules", "fault_sequences", "inputs"],
  "For every loss pattern that triggers re-transmission and every honest or dishonest re-send request.",
  "Tests check one rejected request on one engine; the guarantee is about every frame on every link under losses and hostile requests.",
  ["core/engine.go", "core/cache/work_message_cache.go", "worker/worker_executor.go"],
  [("addressee check on re-send requests", "core/engine.go:OnAskMessage"), ("unicast/broadcast dispatch", "worker/worker_executor.go:OnJobMessage")],
  None, ["destination and content of every frame on the simulated network"])

p("C14", "Transport: whole, intact messages, and recovery after broken connections",
  "Every message handed to the transport arrives at the remote listener byte-for-byte as one message or not at all, however the stream fragments it and however many writers send concurrently. After a connection breaks or a peer restarts, messages sent later get through again without restarting the sender; frames above the size limit are refused and never crash or block the receiver, and traffic that arrives before a listener is registered does not disable the link for traffic that arrives after.",
  ["schedules", "fault_sequences", "inputs", "crash_points"],
  "For every fragmentation, interleaving of writers, reset, partition, stall and peer restart, and every message size.",
  "There is no test of the p2p package; only the happy path is run by hand-started programs.",
  ["p2p/connection.go", "p2p/connection_manager.go", "p2p/helper.go"],
  [("length-prefixed framing", "p2p/helper.go"), ("per-connection write lock", "p2p/connection.go"), ("initial connection with retries", "p2p/connection_manager.go:createConnections")],
  [("streams", "open stream per protocol", "p2p/connection.go")],
  ["messages delivered to the registered listener"])

p("C15", "Concurrent use never deadlocks the node or races on shared maps",
  "Under any interleaving of API calls, network messages, timers and finishing works, no goroutine of a node stays blocked for ever on a lock or on sending to a channel, every API call returns, and no two goroutines access the same map without synchronisation (which the Go runtime punishes by killing the process).",
  ["schedules", "fault_sequences"],
  "For every schedule of the node's goroutines.",
  "Ordinary runs almost never hit the window between a nested read lock and a waiting writer or between two map accesses; tests with the race detector see only the schedules that happened.",
  ["core/engine.go", "core/heart.go", "core/request_queue.go", "worker/default_worker.go", "worker/worker_executor.go", "core/components/available_presign_manager.go", "p2p/connection.go", "p2p/connection_manager.go"],
  [("locks around shared state", "core/engine.go, worker/*.go, core/cache/*.go")],
  None, ["return of API calls, goroutines blocked on locks at the end of a run, unsynchronised map accesses"])

p("C16", "Storage: what was saved is loaded back, whole, in order, or an error is returned",
  "Loading returns exactly what was last acknowledged as saved: pre-parameters, key shares, peers, and for presignatures one entry per requested id in the order requested. Saving a batch is all or nothing. A storage fault at any point surfaces as an error to the caller - never as success, as partial or wrong data, as a crash, or as connections that are never returned to the pool.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "For every sequence and interleaving of storage calls, every id list, and every query, row or commit that fails.",
  "The database tests save and load one or two rows in sequence with no error anywhere.",
  ["db/database.go", "db/database_helper.go", "db/migrations"],
  [("SQL statements and scanning", "db/database.go")],
  None, ["return values of the storage interface, rows in the database"])

p("C17", "The node works only for its configured identity and only while Sisu is ready",
  "A node accepts key generation and signing requests only after it was given its private key and told that Sisu is ready, and refuses them with an error otherwise, also after being told that Sisu is no longer ready. Once a private key is set, an attempt to set a different one is refused and has no effect, setting the same one again succeeds without effect, and an attempt that failed can be repeated; a key that cannot be decrypted is refused with an error.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "For every order and interleaving of readiness, key and work calls and every failure while the key is being set.",
  "There is no test of these calls in combination; failed or concurrent attempts are not exercised at all.",
  ["core/heart.go", "server/tss_api.go", "utils/crypto.go"],
  [("ready flag", "core/heart.go:SetSisuReady"), ("key comparison", "core/heart.go:SetPrivKey")],
  [("ready / privateKey", "readiness and identity", "core/heart.go")],
  ["return values of tss_setPrivKey, tss_setSisuReady, tss_keyGen, tss_keySign"])

p("C18", "The node keeps dialling Sisu until it answers, and survives Sisu's outages",
  "At start-up the node dials Sisu and pings it at a fixed interval until a ping succeeds, never gives up and never stops after a failed dial or ping; it becomes connected within one interval after Sisu becomes reachable. Failing or slow result posts during an outage of Sisu never crash the node, never block other works from running, and never cause a result to be posted twice.",
  ["fault_sequences", "schedules"],
  "For every sequence of failed, hanging and successful dials, pings and posts.",
  "No test makes Sisu unreachable.",
  ["client/client.go", "core/heart.go"],
  [("dial loop", "client/client.go:TryDial")],
  None, ["dials, pings and posts seen by the simulated Sisu"])

p("C19", "Single-node mode answers every request once, with valid keys and signatures",
  "In single-node mode every accepted key generation is answered by one result with the new public key, and every accepted signing by one result whose signatures, one per message in order, verify under the key most recently reported for that key type. Requests it cannot serve (unknown key type, no key yet) are refused or answered as failure, never as success.",
  ["schedules", "histories", "inputs"],
  "For every order and interleaving of key generation and signing calls of both key types.",
  "There is no test; the mode is exercised by a hand-run program with one request of each kind.",
  ["server/single_node_api.go", "server/api.go"],
  [("delayed result goroutines", "server/single_node_api.go")],
  [("ecPrivate / edPrivate", "current keys", "server/single_node_api.go")],
  ["results posted to the client"])

p("C20", "Signing tolerates unavailable nodes up to the threshold",
  "If a group key exists and at least threshold+1 of the nodes, including the leader of the work, are up and connected, a signing request submitted to them succeeds even though the other nodes are crashed, partitioned away or never start it: within the selection window the leader settles for available nodes, and all selected nodes report success while available nodes that were not needed report 'not selected'.",
  ["fault_sequences", "schedules"],
  "For every set of unavailable non-leader nodes that leaves threshold+1, every moment before the selection at which they fail, ECDSA and EdDSA, with the shipped timeouts.",
  "Tests run with all parties present and with test-specific timeouts; the shipped timeout configuration is never exercised.",
  ["worker/prework_selection.go", "core/config/timeout.go", "worker/available_parties.go", "utils/misc.go"],
  [("leader and member selection timeouts", "core/config/timeout.go"), ("fallback to threshold+1 parties", "worker/prework_selection.go:waitForMemberResponse")],
  None, ["tss_keysignResult RPCs of all live nodes"])

p("C21", "Encrypted values are read back intact or refused",
  "A value stored encrypted is read back exactly as written under the same key; a stored value that was truncated or altered, or read with another key, and an encrypted payload of any length or content received from outside, yields an error - never a crash and never a wrong value.",
  ["inputs", "fault_sequences"],
  "For every value, every truncation or bit flip of the stored bytes, and every ciphertext length down to zero.",
  "One store test round-trips one value; decryption of damaged data is not tested.",
  ["store/store.go", "utils/crypto.go"],
  [("AES-GCM seal/open", "store/store.go, utils/crypto.go")],
  None, ["return values of the encrypted store and of the decryption helper"])

p("C22", "Database faults on a running node end in failures, not wrong results",
  "If the database of a running node fails, stalls or loses connections at any moment, the process stays alive, a work whose durable step failed is reported as failure rather than success, other works are not affected, and once the database is back the node serves new requests normally.",
  ["fault_sequences", "schedules"],
  "For every point at which a database call of a running node fails or stalls, in every kind of work.",
  "No test injects a database error into a running node.",
  ["core/heart.go", "core/engine.go", "worker/default_worker.go", "worker/worker_executor.go", "worker/prework_selection.go", "core/components/available_presign_manager.go", "db/database.go"],
  [("error returns of the storage interface", "db/database.go"), ("failure outcome when saving fails", "worker/default_worker.go:onJobExecutionResult")],
  None, ["outcome reports, liveness of the process, rows in the database"])

p("C23", "Blame bookkeeping names exactly the silent or faulty parties",
  "Under concurrent recording, the culprits named for a round are exactly the parties of the work that sent nothing in that round plus those recorded as faulty in it, each once; recordings for other works or rounds have no influence, and none is lost.",
  ["schedules", "histories"],
  "For every interleaving of recordings and queries by any number of goroutines.",
  "The one test records and queries sequentially.",
  ["blame/manager.go"],
  [("lock around the maps", "blame/manager.go")],
  [("sentNodes / roundCulprits", "who sent, who was caught", "blame/manager.go")],
  ["return values of the query"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties", max(len(x["title"]) for x in P))
