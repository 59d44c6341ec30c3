SEQ = "Sequential histories up to the bound in each harness; exact 64-bit wrap-around semantics. Trusted: the SSA encoder, the models of sync/atomic/time listed in DESIGN.md, z3/cvc5. "
CONC = "Interleavings: every order of atomic steps and lock sections of the stated threads is a solver variable (sequential consistency, as Go's memory model gives for sync/atomic and mutexes). "

P("P01", "Exact accounting of a VSA instance",
  "After any sequence of updates, consumes, refunds and commits on one instance, the reported scalar and vector equal the ones an exact single-counter accumulator would hold, whatever the striping, grouping, hierarchical or fast-path options. Availability is always scalar minus the vector's magnitude, and CheckCommit reports a due commit exactly when that magnitude reaches the threshold.",
  ["inputs", "histories", "configurations"], "every amount in +-2^50 and every order of 2 operations (thorough: 3) from a fresh instance in 10 configurations, and every operation from a state built by 4 others in 7 configurations",
  "The tests run a handful of fixed amounts on two option sets; a slip in one stripe, group or option combination, or near a boundary amount, is not sampled.",
  ["vsa.go"], [("Update", "vsa.go Update"), ("net reading", "vsa.go currentVector"), ("CheckCommit", "vsa.go CheckCommit")],
  note=SEQ)
P("P02", "Committing never changes what is available",
  "Folding any committed amount into the scalar leaves availability unchanged, moves exactly min(|k|, |vector|) from the vector into the scalar and never flips the vector's sign. Committing the reported vector zeroes it, and no commit ever lets more be consumed than the same history without commits.",
  ["inputs", "histories", "configurations"], "every committed amount (all int64 but the minimum), every pre-state built from updates, a consume and earlier commits in +-2^60, in 6 configurations",
  "Tests commit the exact vector they just read, with small positive amounts; stale, oversized, negative or opposite-signed commits are not enumerated.",
  ["vsa.go"], [("Commit", "vsa.go Commit")], note=SEQ)
P("P03", "A request is admitted exactly when enough is available",
  "With no concurrent activity, TryConsume(n) succeeds exactly when n is positive and at most the availability just before it, under the exact, grouped-scan and fast-path gates; the cached gate may additionally deny, with a fresh cache only within its slack, but never admits more. A success reserves exactly n and a denial changes nothing.",
  ["inputs", "histories", "configurations"], "every int64 request from every state reachable with two updates, a consume and a commit in +-2^59, with symbolic guard and slack values",
  "Option tests use one guard, slack and group count each; the estimate, cache and fast-path gates differ from the exact gate only for amounts and states between their margins.",
  ["vsa.go"], [("admission gate", "vsa.go TryConsume"), ("cached gate", "vsa.go runAggregator")], note=SEQ)
P("P04", "Refunds never mint capacity",
  "A refund returns exactly min(n, vector) when the vector is positive and otherwise changes nothing, so it never drives the vector below zero. Consume followed by refund of the same amount restores the state, and no sequence of refunds raises availability above the scalar.",
  ["inputs", "histories", "configurations"], "every int64 refund amount from every pre-state of two updates and commits in +-2^60, in 4 configurations",
  "Tests refund at most what they consumed or one fixed excess amount.",
  ["vsa.go"], [("TryRefund", "vsa.go TryRefund")], note=SEQ)
P("P05", "No oversubscription under any interleaving",
  "When several callers consume, refund and commit the same instance concurrently, the total admitted never exceeds what was available, whatever the interleaving and the gating option. At quiescence no admitted unit has been lost or counted twice.",
  ["schedules", "inputs", "configurations"], "every interleaving of the atomic steps of 2-3 concurrent operations with symbolic amounts, for the exact, grouped, fast-path and cached gates",
  "The tests run goroutine storms with unit amounts: the scheduler shows a few of the interleavings, and the races between the lock-free gate and a commit need a specific one.",
  ["vsa.go"], [("critical section", "vsa.go TryConsume/Commit/TryRefund tryMu"), ("fast path", "vsa.go TryConsume fastPathGuard")],
  note=CONC + "Threads: 2-3 with one operation each (thorough: two). Fast path: overlapping operations are assumed to total at most FastPathGuard, the margin the option documents.")
P("P06", "Concurrent updates, refunds and commits conserve every unit",
  "Once concurrent operations have finished, scalar minus the vector's magnitude reflects each completed operation exactly once: no update is lost, duplicated or applied to a commit twice, and concurrent refunds together never return more than was consumed. Commits running concurrently with updates fold each unit at most once.",
  ["schedules", "inputs", "configurations"], "every interleaving of 2-3 concurrent operations with symbolic amounts over 3 option sets",
  "Race tests compare totals after random schedules of unit operations; a lost update in one window is not forced.",
  ["vsa.go"], [("striped counters", "vsa.go Update"), ("Commit", "vsa.go Commit"), ("TryRefund", "vsa.go TryRefund")], note=CONC)
P("P07", "Closing an instance is safe, final and idempotent",
  "Close stops the background aggregator whatever the timing, may be called any number of times and concurrently, never panics or blocks, and leaves accounting and admission exact afterwards. Instances without an aggregator behave the same.",
  ["schedules", "configurations"], "every interleaving of two Close calls with the aggregator's ticks and a consume",
  "Tests call Close once at the end; double and concurrent closes and ticks racing with close are not controlled.",
  ["vsa.go"], [("Close", "vsa.go Close"), ("aggregator", "vsa.go runAggregator")], note=CONC)
P("P08", "Every option combination yields a correct instance",
  "For any values of the options - zero, negative or oversized - construction succeeds, no operation panics or indexes out of range, and accounting, admission and refunds stay exact. Option values influence performance only.",
  ["configurations", "inputs"], "every int value of Stripes, GroupCount, GroupSlack, HierarchicalGroups, CacheSlack, CacheInterval; FastPathGuard up to 2^61; GOMAXPROCS 1..256",
  "Tests construct four fixed option sets; stride and clamping arithmetic breaks only for specific counts that do not divide the stripe count.",
  ["vsa.go"], [("option clamping", "vsa.go NewWithOptions"), ("grouped scan", "vsa.go TryConsume"), ("hierarchical groups", "vsa.go Update/currentVector")], note=SEQ)
STORE = "Trusted in addition: the models of sync.Map, time (an arbitrary non-decreasing clock) and the Prometheus client. "
P("P10", "One key, one instance",
  "A key maps to one live instance and distinct keys never share one, however many callers look the key up first at the same time. A discarded, deleted or closed instance leaves no background goroutine behind, and a recreated key starts from the configured scalar.",
  ["inputs", "schedules", "configurations"], "every pair of keys of up to 2 bytes; every interleaving (up to 2 preemptions) of 2-3 lookups and deletes",
  "The creation race between Load and LoadOrStore and the delete/lookup race need one particular interleaving that goroutine storms do not control.",
  ["internal/ratelimiter/core/store.go"], [("GetOrCreate", "store.go GetOrCreate"), ("Delete/CloseAll", "store.go Delete")], note=CONC + STORE)
P("P11", "A commit cycle persists exactly the keys that are due",
  "A cycle persists a key exactly when its net vector has reached the commit threshold while the key is armed, or it has been idle for the maximum age with something left; each due key goes out once, with its whole vector, in one batch, and an idle cycle writes nothing. With a low watermark, a key committed by threshold is not committed by threshold again until a cycle has seen it at or below that mark.",
  ["inputs", "histories", "configurations"], "every pair of vectors, thresholds, watermarks and maximum ages in +-2^50; 3 cycles with any update between them and persist success or failure",
  "The tests use one threshold and three scripted cycles; boundary values, negative vectors and combinations of age and watermark are not sampled.",
  ["internal/ratelimiter/core/worker.go"], [("commit rule", "worker.go runCommitCycle"), ("hysteresis", "store.go managedVSA.armed")], note=SEQ + STORE)
P("P12", "Durable plus in-memory state equals what happened",
  "For every key, after any history of traffic, commit cycles, evictions and shutdown, the persisted amounts plus what memory still holds equal what was consumed and refunded, and the final flush makes all of it durable. Consumption that arrives while a batch is being written is neither lost nor written twice.",
  ["histories", "inputs", "crash_points"], "every history of 3 (thorough 5) operations and cycles over 2 keys with any amounts and watermarks; any operation landing during the write of any kind of cycle",
  "Tests check one commit and one flush with fixed amounts; operations that land between reading a vector and folding it are not scheduled.",
  ["internal/ratelimiter/core/worker.go", "vsa.go"], [("read-persist-fold", "worker.go runCommitCycle"), ("final flush", "worker.go runFinalFlush")], note=SEQ + STORE)
P("P13", "A failed write loses nothing and is tried again",
  "When persisting a batch fails nothing is folded, so no unit is forgotten; the same units go out again in a later cycle or in the final flush, an eviction whose write fails keeps the key, and failures of one write never corrupt other keys.",
  ["crash_points", "histories", "inputs"], "every pattern of write failures over the cycles of a bounded history, with any amounts",
  "The test suite fails one commit once; failures in the eviction and shutdown paths and in sequences are not covered.",
  ["internal/ratelimiter/core/worker.go"], [("error paths", "worker.go runCommitCycle/runFinalFlush/runEvictionCycle")], note=SEQ + STORE)
P("P14", "Eviction only removes keys that are idle and durable",
  "A key leaves memory only when it has been idle longer than the eviction age and everything it held has been persisted; a key used meanwhile stays and loses nothing, and a key that comes back after eviction starts fresh with nothing of its history forgotten or persisted twice.",
  ["histories", "schedules", "inputs"], "every combination of 3 idle or fresh keys with any vector, eviction age and write failure; any use of the key during the eviction write; up to 2 preemptions of a racing request",
  "Tests evict one idle key and keep one fresh key; use of a key during its own eviction needs a particular schedule.",
  ["internal/ratelimiter/core/worker.go"], [("eviction", "worker.go runEvictionCycle"), ("recency", "store.go GetOrCreate lastAccessed")], note=CONC + STORE)
P("P15", "Overlapping cycles and shutdown persist each unit once",
  "However commit cycles, evictions, the final flush and traffic overlap, each unit is persisted exactly once. Stop may be called repeatedly and concurrently; when it has returned, both background goroutines have ended and every remainder is durable.",
  ["schedules", "inputs"], "every interleaving (up to 2 preemptions) of two cycles of any kinds, or a cycle and a consume; a worker with up to one tick before Stop",
  "Tests run one cycle at a time or stop a quiet worker; overlaps between the two background loops depend on the scheduler.",
  ["internal/ratelimiter/core/worker.go"], [("cycle exclusion", "worker.go cycleMu"), ("shutdown", "worker.go Stop/commitLoop")], note=CONC + STORE)
P("P16", "Process totals count every request exactly once",
  "The attempt, admit and refund totals equal the number of checks, of admitted checks and of releases that returned a unit, however requests interleave; captured configuration values are the last ones set and a snapshot never changes afterwards. The final report prints these totals, the rows and batches the demo adapter took, and the fraction of writes avoided, exactly.",
  ["inputs", "schedules", "histories"], "every sequence of 4 requests over 2 keys; every interleaving of 3 recorders with any amounts; reports after up to 6 events and 2 batches, also concurrent",
  "Tests add fixed numbers from one goroutine and look at the report of one history.",
  ["internal/ratelimiter/core/metrics.go", "internal/ratelimiter/core/persistence.go", "internal/ratelimiter/api/server.go"], [("totals", "metrics.go RecordAttempt/RecordAdmit/RecordRefund"), ("call sites", "server.go handleCheckRateLimit/handleRelease"), ("report", "persistence.go PrintFinalMetrics")], note=CONC + STORE)
P("P20", "The HTTP API enforces the limit per key and reports it exactly",
  "A check is answered 200 exactly when its key had a unit available and then consumes exactly one; otherwise it is answered 429 and consumes nothing. The limit and remaining headers are exact, a release returns at most one consumed unit, keys never affect each other, and a request without a key is refused and touches nothing. Concurrent requests together never exceed the limit.",
  ["inputs", "histories", "schedules"], "every state of a key reachable with an update and a commit; every sequence of 5 (thorough 8) checks and releases over 2 keys with limits -2..4; two concurrent requests, up to 2 preemptions",
  "The tests send a few requests to one key with one limit; denial at the exact boundary, refunds at zero, key separation and simultaneous requests are sampled once.",
  ["internal/ratelimiter/api/server.go"], [("check", "server.go handleCheckRateLimit"), ("release", "server.go handleRelease")], note=SEQ + CONC + STORE)
P("P30", "Classification is safe: only plain additive updates take the scalar lane",
  "An operation is classified scalar exactly when it is a conservative delta on a single key and none of the ordering flags (backdated, cross-key, policy change, external decision, global) is set; every doubt goes to the vector lane. An operation without a key is refused, and the footprint and delta always describe the operation itself: its key and bucket, the whole key when it has no bucket, and its exact amount.",
  ["inputs"], "every combination of the flags with any amount and sequence number, keys and buckets of 0-2 arbitrary bytes",
  "The tests classify five hand-written operations of the 2^7 flag combinations.",
  ["plugin/tfd/classifier.go", "plugin/tfd/types.go"], [("rules", "classifier.go Classify"), ("ids", "types.go HashKey")], note=SEQ)
P("P31", "Operations declared parallel never touch the same cell",
  "Two footprints are disjoint exactly when both are scalar and no (key, bucket) cell is covered by both, an all-buckets footprint covering every cell of its key. The relation is symmetric and a footprint that covers something is never disjoint from itself; vector footprints are never disjoint from anything.",
  ["inputs"], "every pair of footprints (any 64-bit ids, scopes and all-flags) and every cell",
  "The tests compare four fixed pairs.",
  ["plugin/tfd/types.go"], [("Disjoint", "types.go Footprint.Disjoint")], note=SEQ)
P("P32", "The scalar accumulator coalesces without losing or mixing cells",
  "Every scalar delta is added to exactly its own (key, bucket) cell, whatever the ids hash to and however many cells there are. A flush emits each written cell once with its exact sum and latest sequence number and then forgets it; flushing one key emits exactly that key's cells; vector envelopes never enter.",
  ["inputs", "histories", "configurations"], "every sequence of 3 (thorough 4) deltas to 6 easily confused cells, pairs of cells with any 64-bit bucket, 6 cells in a table of 2 slots, 1-2 shards; deltas in +-2^60",
  "Tests use distinct small ids in large tables; packed-id collisions, the id that packs to the empty marker and a full table need particular values.",
  ["plugin/tfd/saccumulator.go", "plugin/tfd/saccumulator_wrap.go"], [("table", "saccumulator.go probe/Ingest/Flush/FlushKey"), ("sharding", "saccumulator_wrap.go shardIndex")], note=SEQ)
P("P33", "The vector lane keeps every key's operations in order, with an audit link",
  "Vector envelopes of a key wait in arrival order, unchanged except for their audit link, and are drained exactly once; keys have separate queues and scalar envelopes never enter. The link is the 128-bit hash of key and sequence number and tells different ones apart.",
  ["inputs", "histories"], "every sequence of 3 (thorough 4) envelopes of either lane over 3 keys with a drain anywhere; links of ids differing in any one byte",
  "Tests enqueue two envelopes with ascending sequence numbers on one key.",
  ["plugin/tfd/vactors.go", "plugin/tfd/types.go", "plugin/tfd/pipeline.go"], [("queue", "vactors.go VActor"), ("routing", "vactors.go VRouter"), ("link", "types.go Hash128")], note=SEQ)
P("P34", "The pipeline routes each operation to its lane, also under concurrency",
  "A scalar envelope reaches the batch sink and never the vector log; a vector envelope is queued and handed to the persistence callback exactly once, with its audit link, and never reaches the batch sink. When several callers handle and drain at once, each key's queue and its persisted log hold the same envelopes in the same order, and nothing is lost, repeated or corrupted.",
  ["schedules", "inputs"], "every interleaving (up to 2 preemptions) of 2 (thorough 3) vector hand-overs, or a hand-over and two drains; accesses that are not ordered by synchronisation are violations; 2 envelopes of either lane through start and stop",
  "The tests call the pipeline from one goroutine, and the race between queueing and persisting needs a particular schedule.",
  ["plugin/tfd/pipeline.go", "plugin/tfd/vactors.go"], [("routing", "pipeline.go Handle"), ("vector lock", "pipeline.go vMu")], note=CONC)
P("P35", "Replaying the two logs reproduces the state",
  "Applying all scalar batches in any order and then the vector envelopes in any order they were read gives the same cells as applying every operation in its original order, and each cell holds exactly the sum of its deltas. Coalescing, compressing and flushing in any portions in between changes nothing.",
  ["histories", "inputs"], "every sequence of 4 (thorough 5) operations of either lane to 3 cells, every permutation of either log, every flush point, deltas in +-2^60",
  "The tests replay one scripted history in one shuffled order.",
  ["plugin/tfd/reconstruct.go", "plugin/tfd/saccumulator.go", "plugin/tfd/vsa_integration.go"], [("replay", "reconstruct.go Reconstruct/BaselineApply")], note=SEQ)
P("P36", "The scalar service delivers everything it accepted exactly once",
  "Every scalar envelope accepted before a flush or stop has reached the sink, exactly once, when that call returns; a refused one never does. Stop and Flush may be called repeatedly and concurrently and always return, Stop ends the service goroutine, ticks change nothing but timing, and the sink is never called with nothing.",
  ["schedules", "inputs", "configurations"], "every interleaving (up to 2 preemptions) of two producers, two flushes, or two of Stop and Flush with the service goroutine; a ticker firing; buffers of 1, 2 or default",
  "The tests stop or flush a quiet service once; a flush racing a stop, or a hand-over racing a drain, needs a particular schedule.",
  ["plugin/tfd/sservice.go"], [("service loop", "sservice.go run"), ("flush", "sservice.go Flush"), ("stop", "sservice.go Stop")], note=CONC)
P("P37", "Compression preserves every cell",
  "Compressing a set of batches yields each cell at most once, with the exact sum of its deltas and its latest sequence number, drops exactly the cells whose deltas cancel out, and invents nothing, however many batches there are and whatever their ids hash to.",
  ["inputs"], "every list of up to 4 (thorough 5) batches for 5 easily confused cells; 63 to 67 batches with 2 symbolic ones; pairs with any 64-bit bucket; deltas in +-2^60",
  "The tests compress one list of three batches and one of eighty with distinct ascending values.",
  ["plugin/tfd/vsa_integration.go"], [("Compress", "vsa_integration.go SimpleVSA.Compress")], note=SEQ)
P("P21", "Redis adapter applies each commit exactly once",
  "However Redis calls fail before or after taking effect and however often a batch is retried, the durable counter of every key ends up lowered by each commit's vector exactly once; keys and commit ids never interfere with each other. A batch reports an error exactly when one of its calls failed, and a commit without an id is refused before anything is sent for it. Markers live for the configured time, a day by default.",
  ["inputs", "fault_sequences", "histories"], "batches of 2 (thorough 3) commits with any vector in +-2^53, every failure pattern over 2 (thorough 3) attempts",
  "The tests use a fake client that never runs the script; only executing the script against a store under failures shows what is applied.",
  ["internal/ratelimiter/persistence/redis.go"], [("script", "redis.go redisLua"), ("batch", "redis.go RedisPersister.CommitBatch")],
  note=SEQ + "The Lua script is read from the source and run by an interpreter of the Lua and Redis subset it uses; scripts outside the subset are not judged. Vectors beyond +-2^53 (Lua number precision) are outside the bound. ")
P("P22", "Postgres adapter applies each commit exactly once, fenced and atomically",
  "However statements, begin and commit fail (including a commit whose acknowledgement is lost) and however often a batch is retried, each commit lowers its counter exactly once; a failed batch changes nothing and leaves no transaction open. A commit with a fencing token lower than one already seen for its key is refused and has no effect; missing counters are created when configured.",
  ["inputs", "fault_sequences", "histories"], "batches of 2 commits with any vector in +-2^60 and any tokens, every single-failure pattern per attempt over 2 (thorough 3) attempts",
  "The tests check the text of the statements with a mock driver; only evaluating the statements shows their effect together.",
  ["internal/ratelimiter/persistence/postgres.go"], [("transaction", "postgres.go CommitBatch"), ("fencing", "postgres.go last_token update")],
  note=SEQ + "The SQL text runs through the real database/sql into an evaluator of the SQL subset (insert/update/delete/select, on conflict, subqueries, returning, with); statements outside it are not judged. Concurrent transactions are not modelled. ")
P("P23", "Kafka adapter publishes every commit, in order and deduplicable",
  "A batch that reports success has published each of its commits, in order, as one message keyed by the commit id whose payload decodes to exactly that commit, fencing token included. A batch stops at its first failure and reports it, a commit without an id is refused, and after any retries a consumer that applies each id once reaches the exact state.",
  ["inputs", "fault_sequences"], "any int64 vector or token, any ASCII key byte; batches of 3 with any failure per message (delivered or not) over 2 (thorough 3) attempts",
  "The tests inspect one message of one successful batch; retries after a partial failure and the round trip of extreme values are not exercised.",
  ["internal/ratelimiter/persistence/kafka.go"], [("batch", "kafka.go CommitBatch"), ("payload", "kafka.go CommitMessage")],
  note=SEQ + "encoding/json is modelled byte for byte (one symbolic byte per digit). ")
P("P24", "The worker's commits reach an adapter unchanged, each with its own id",
  "Every commit of a worker batch is handed to the adapter once, in order and unchanged, with a fresh id that can only repeat if the random bytes it is drawn from do; the adapter's verdict is returned, and an empty batch is not sent. An adapter is chosen by its exact name and works with the topic and marker life configured, or the documented defaults; unknown and unavailable names are errors with nothing to write to.",
  ["inputs"], "batches of 0-3 commits with any vectors and one-byte keys, any random bytes, any name of up to 5 bytes",
  "The tests map one fixed batch and try the listed names.",
  ["internal/ratelimiter/persistence/shim.go", "internal/ratelimiter/persistence/factory.go"], [("mapping", "shim.go IdemShim.CommitBatch"), ("ids", "shim.go randomID"), ("selection", "factory.go BuildPersister")],
  note=SEQ)
FILES = "Files are modelled as byte sequences (models/os.go); encoding/json byte for byte; bufio and the scanner are the real code with buffers clamped to 4096 bytes. A crash cuts the file at an arbitrary byte; reordering of blocks by a filesystem is outside the model. "
P("P40", "The scalar batch log survives crashes and concurrent writers exactly",
  "Batches written to the log are read back exactly and in order after a flush or close, across reopening; a flush or close leaves nothing behind in memory, and a write long after the last flush puts everything on disk. After a crash that cuts the file anywhere, exactly the complete records are read, and records appended after reopening follow them intact. Concurrent writers never garble, lose, double or reorder each other's records.",
  ["inputs", "crash_points", "schedules", "histories"], "every field any 64-bit value; every cut offset; every interleaving (up to 2 preemptions) of 2 writers and a flusher",
  "The tests write and read a few fixed records in one go; torn lines need a crash at a particular byte.",
  ["internal/sinks/sbatch_file_sink.go"], [("append", "sbatch_file_sink.go OnSBatches"), ("reopen", "sbatch_file_sink.go NewSBatchFileSink"), ("read", "sbatch_file_sink.go ReadAllSLog")], note=FILES + CONC)
P("P41", "The vector envelope log survives crashes and concurrent writers exactly",
  "Envelopes appended to the log, one by one or together, are read back exactly and in order, audit link included, after a flush or close and across reopening; a write long after the last flush puts everything on disk. After a crash that cuts the file anywhere, exactly the complete records are read, and records appended after reopening follow them intact. Concurrent writers never garble, lose, double or reorder each other's records.",
  ["inputs", "crash_points", "schedules", "histories"], "every field any value of its type; every cut offset; every interleaving (up to 2 preemptions) of 2 writers and a flusher",
  "The tests write and read a few fixed envelopes in one go; torn lines need a crash at a particular byte.",
  ["internal/sinks/venv_file_sink.go"], [("append", "venv_file_sink.go Append/AppendAll"), ("reopen", "venv_file_sink.go NewVEnvFileSink"), ("read", "venv_file_sink.go ReadAllVLog")], note=FILES + CONC)
MAINS = "The whole program runs: main with flags, HTTP routing, worker or pipeline goroutines, signal handling. HTTP transport and signals are modelled (models/net.go: a request is served in the requesting goroutine, Shutdown waits for served requests, without its time-out); natively the counterexamples run over loopback TCP with real signals. Ticks are events of the schedule, their intervals are ignored. "
P("P17", "ratelimiter-api enforces its limit and loses nothing on a graceful stop",
  "The running program admits exactly up to the configured limit per key, whichever engine configuration its flags select. When it ends after SIGTERM, exactly what was admitted minus what was released has been handed to the persistence adapter, once, including for requests in flight during the stop; afterwards nothing is served, and a client that never finishes its request does not keep the program from ending or its final flush from happening. Below the commit threshold nothing is written before the stop, and what the worker writes is a key's whole net amount.",
  ["schedules", "histories", "configurations"], "up to 2 (thorough 3) requests over 2 keys before the stop; a request in flight during SIGTERM in every interleaving with main, worker and server; mock and Kafka adapters; 6 engine configurations; limits 2-3",
  "No test runs main; the loss needs a request that is admitted between the final flush and the end of the server.",
  ["cmd/ratelimiter-api/main.go", "internal/ratelimiter/core/worker.go", "internal/ratelimiter/persistence/factory.go"], [("shutdown order", "cmd/ratelimiter-api/main.go main"), ("final flush", "worker.go runFinalFlush")], note=MAINS)
P("P42", "tfd-proxy: the reported state and the logs are exactly what was accepted",
  "After any accepted requests, /state reports exactly their sums per key and bucket, in every form, and after SIGTERM the two logs (consumption in the scalar log; reversals and limit changes, in sequence and with their audit link, in the vector log, as each answer says) replay to exactly the accepted operations, including requests in flight during the stop. Concurrent requests all count; an amount defaults to 1 and may be negative; a request without a key is refused and leaves no trace. A restart continues from the logs, of which a torn last line costs only that line.",
  ["inputs", "histories", "schedules", "crash_points"], "up to 2 requests over 2 keys and 2 buckets with any one- or two-digit amounts; two concurrent requests, and a request during SIGTERM, in every interleaving with 1 preemption; logs torn at their end before a restart",
  "No test runs the proxy; wiring errors, shutdown order and mixed S/V histories only show end to end.",
  ["cmd/tfd-proxy/main.go", "plugin/tfd/pipeline.go", "internal/sinks/sbatch_file_sink.go", "internal/sinks/venv_file_sink.go"], [("handlers", "cmd/tfd-proxy/main.go main"), ("lanes", "pipeline.go Handle"), ("shutdown order", "cmd/tfd-proxy/main.go main")], note=MAINS + FILES)
P("P43", "tfd-sim: every operation it counts or accepts is in its logs",
  "When a run of the simulator ends, by SIGTERM or by its duration, its S log sums to exactly the scalar operations its metrics count as generated plus the amounts its endpoint accepted, per key and bucket, and its V log holds exactly the vector operations counted, including a burst or a request in progress at the end. Each generated operation goes to one lane, at S share 0 or 1 always the same one. The batch counter equals the batches written and the flush intervals it reports lie within the run.",
  ["schedules", "inputs", "histories", "configurations"], "up to 2 (thorough 3) ticks, each a flush, a burst or the end of the run; any random choices; S share 0, 1/2, 1; 2 requests of one-digit amounts or one in flight during SIGTERM",
  "No test runs the simulator; what is lost when it ends depends on where the generator, a request and the flush stand at that moment.",
  ["cmd/tfd-sim/main.go", "plugin/tfd/pipeline.go", "internal/sinks/sbatch_file_sink.go"], [("generator", "cmd/tfd-sim/main.go main"), ("end of the run", "cmd/tfd-sim/main.go main"), ("metrics", "cmd/tfd-sim/main.go metricSink")], note=MAINS + FILES + "The random source may return any value (S share decisions: any multiple of 1/2). ")
P("P50", "Churn telemetry counts exactly and samples deterministically",
  "While enabled, the exported counters equal the requests the API admitted, the rows and batches the worker persisted by whichever loop, and its failed attempts, also under concurrency; while disabled nothing is recorded. Sampling depends on key and rate alone, covers the rate's share of the FNV-1a hash space (0 none, 1 all) and nests, the gauges are the documented ratios over the window, the top key reported is a busiest one, and a key is tracked until idle for more than twice the window. Reconfiguring at any moment leaves at most one reporting loop and disabling none, and a line rewritten in place leaves nothing of the one before.",
  ["inputs", "schedules", "histories", "configurations"], "3 calls of every kind; every key of up to 4 bytes at 8 rates; 3 snapshots any time apart; 2 observers in every interleaving, with a snapshot up to 1 (thorough 2) preemptions; 2 concurrent reconfigurations",
  "The tests bump each counter once and only ask the gauges to be finite; windows, idleness, sampling of arbitrary keys and reconfiguration races are not sampled.",
  ["internal/ratelimiter/telemetry/churn/prom_counters.go", "internal/ratelimiter/telemetry/churn/exporter.go", "internal/ratelimiter/core/worker.go"], [("counters", "prom_counters.go Observe*"), ("sampling", "prom_counters.go sampled"), ("window", "exporter.go publishSnapshot"), ("loop", "exporter.go startOrUpdateExporter")], note=SEQ + CONC + "Prometheus metrics are modelled as atomic numbers (models/prom.go); in the window and idle harnesses the clock moves only between calls; counts and sizes are enumerated small values because floating point is concrete. ")
