From 24294627a2e7ebc467553ba0e6a0e85735731ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 01/19] fix: TryConsume fast path must not pair a pre-commit
 scalar with a post-commit net

---
 vsa.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vsa.go b/vsa.go
index 035f2cd..0fc601a 100644
--- a/vsa.go
+++ b/vsa.go
@@ -326,9 +326,11 @@ func (v *VSA) TryConsume(n int64) bool {
 	}
 	// 1) Lock-free fast path when we are far from the limit.
 	if v.fastPathGuard > 0 {
-		s := v.scalar.Load()
+		// Load approxNet before scalar: Commit lowers scalar before approxNet, so reading in
+		// this order can only under-estimate what is available, never double-count a commit.
 		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
+		s := v.scalar.Load()
+		if s-abs(approx)-v.fastPathGuard >= n {
 			// Reserve without taking the lock; bounded risk thanks to guard.
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
-- 
2.43.0


From ba962ba16256ae7eae6e196d056010552dd76fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 02/19] fix: cached gate must confirm an admission with the
 exact net

---
 vsa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vsa.go b/vsa.go
index 0fc601a..2dafd5b 100644
--- a/vsa.go
+++ b/vsa.go
@@ -351,6 +351,10 @@ func (v *VSA) TryConsume(n int64) bool {
 		if avail < n {
 			return false
 		}
+		// The cache lags behind recent reservations: it may deny, but only the exact sum admits.
+		if v.scalar.Load()-abs(v.currentVector()) < n {
+			return false
+		}
 	} else if v.groupCount > 1 {
 		// Grouped scan estimate; if estimate denies, fall back to exact.
 		start := (int(v.groupRR) * v.groupStride) % len(v.stripes)
-- 
2.43.0


From a230573b251380738ed9fd27b9acdfd572da14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 03/19] fix: grouped-scan estimate must not admit what the
 exact net denies

---
 vsa.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/vsa.go b/vsa.go
index 2dafd5b..555846a 100644
--- a/vsa.go
+++ b/vsa.go
@@ -355,29 +355,9 @@ func (v *VSA) TryConsume(n int64) bool {
 		if v.scalar.Load()-abs(v.currentVector()) < n {
 			return false
 		}
-	} else if v.groupCount > 1 {
-		// Grouped scan estimate; if estimate denies, fall back to exact.
-		start := (int(v.groupRR) * v.groupStride) % len(v.stripes)
-		v.groupRR++
-		var partial int64
-		end := start + v.groupStride
-		if end > len(v.stripes) {
-			end = len(v.stripes)
-		}
-		for i := start; i < end; i++ {
-			partial += v.stripes[i].val.Load()
-		}
-		est := partial * int64(len(v.stripes)) / int64(end-start)
-		netEst := est - v.committedOffset.Load()
-		avail := v.scalar.Load() - abs(netEst) - v.cacheSlack
-		if avail < n {
-			// Exact check
-			avail = v.scalar.Load() - abs(v.currentVector())
-			if avail < n {
-				return false
-			}
-		}
 	} else {
+		// Also with grouped scans: one stripe group says nothing about reservations held by the
+		// others, so an estimate extrapolated from it must not admit; the exact sum decides.
 		avail := v.scalar.Load() - abs(v.currentVector())
 		if avail < n {
 			return false
-- 
2.43.0


From b1470c79e74ccee6273d9f96de00aff5ba3e1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 04/19] fix: GetOrCreate closes the instance that lost the
 creation race

---
 internal/ratelimiter/core/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..3ba2e21 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,7 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		inst.Close() // lost the race: stop the discarded instance's background work
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From 590a4c154cbb22c13da59f1153a305f58185dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 05/19] fix: serialize the worker's commit, eviction and
 final-flush cycles

---
 internal/ratelimiter/core/worker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..832d15a 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -42,6 +42,9 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+	// cycleMu serializes commit, eviction and final-flush cycles: each persists a vector it has
+	// read and then folds it in, so two overlapping cycles would persist the same units twice.
+	cycleMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,6 +116,8 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -183,6 +188,8 @@ func (w *Worker) runCommitCycle() {
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -233,6 +240,8 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var keysToEvict []string
 	now := time.Now()
 
-- 
2.43.0


From 24aba111bc0c239fb23e947877d6ec892438ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 06/19] fix: eviction keeps a key whose vector changed while it
 was being persisted

---
 internal/ratelimiter/core/worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 832d15a..4de2d42 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -274,6 +274,9 @@ func (w *Worker) runEvictionCycle() {
 					continue
 				}
 				managed.instance.Commit(vector)
+				if _, rest := managed.instance.State(); rest != 0 {
+					continue // units arrived while persisting; evict on a later cycle
+				}
 			}
 			w.store.Delete(key)
 		}
-- 
2.43.0


From 924eefcc79a4a545b98c7c474ce9e428c51119eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 07/19] fix: Postgres adapter applies a commit's counter update
 and rejects stale fencing tokens

---
 internal/ratelimiter/persistence/postgres.go | 46 ++++++++++++--------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..4893b55 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,8 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
-//   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//   -- If no row was inserted the commit was applied before: skip the counter update.
+//   UPDATE counters SET scalar = scalar - $2 WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -106,27 +102,41 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 		if e.CommitID == "" {
 			return errors.New("CommitEntry.CommitID must be set")
 		}
-		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		// Applied marker first: it is inserted exactly once per commit id.
+		res, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		inserted, err := res.RowsAffected()
+		if err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
 		}
+		if inserted == 0 {
+			continue // already applied; no-op
+		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
-			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+			res, err := tx.ExecContext(ctx,
+				`UPDATE counters SET last_token = $2
+                  WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
+				e.Key, *e.FencingToken)
+			if err != nil {
+				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
+			}
+			n, err := res.RowsAffected()
+			if err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
+			if n == 0 {
+				return fmt.Errorf("fencing token %d rejected for key %s", *e.FencingToken, e.Key)
+			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply scalar update.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2 WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From 27a46be31df63d52bd3c280e347a4a638e5b3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:38 +0000
Subject: [PATCH 08/19] fix: S-lane shard keeps distinct cells apart and grows
 instead of probing a full table forever

---
 plugin/tfd/saccumulator.go | 51 ++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..a2e2cb7 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -57,26 +57,63 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
+// packSlot is packKeyBucket with 0 (the empty-slot marker) mapped to 1.
+func packSlot(keyID, bucketID uint64) uint64 {
+	if k := packKeyBucket(keyID, bucketID); k != 0 {
+		return k
+	}
+	return 1
+}
+
+// probe finds the slot of a cell, or the empty slot where it belongs. The packed id is only a
+// hash: a slot matches when the ids themselves do. At least one slot is always empty.
+func (s *SShard) probe(keyID, bucketID uint64) int {
+	k := packSlot(keyID, bucketID)
 	// simple linear probing
 	i := int(k & s.mask)
 	for {
 		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		if kk == 0 || (kk == k && s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
 	}
 }
 
+// grow doubles the table.
+func (s *SShard) grow() {
+	old := *s
+	n := 2 * len(old.keys)
+	s.keys = make([]uint64, n)
+	s.keyIDs = make([]uint64, n)
+	s.bucketIDs = make([]uint64, n)
+	s.sums = make([]int64, n)
+	s.seqEnds = make([]uint64, n)
+	s.mask = uint64(n - 1)
+	for j, k := range old.keys {
+		if k == 0 {
+			continue
+		}
+		i := s.probe(old.keyIDs[j], old.bucketIDs[j])
+		s.keys[i] = k
+		s.keyIDs[i] = old.keyIDs[j]
+		s.bucketIDs[i] = old.bucketIDs[j]
+		s.sums[i] = old.sums[j]
+		s.seqEnds[i] = old.seqEnds[j]
+	}
+}
+
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
-	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+	keyID, bucketID := env.Footprint.KeyID, env.Footprint.Time.BucketID
+	if s.used+1 >= len(s.keys) {
+		s.grow() // keep an empty slot so that probing terminates
+	}
+	i := s.probe(keyID, bucketID)
 	if s.keys[i] == 0 {
-		s.keys[i] = k
-		s.keyIDs[i] = env.Footprint.KeyID
-		s.bucketIDs[i] = env.Footprint.Time.BucketID
+		s.keys[i] = packSlot(keyID, bucketID)
+		s.keyIDs[i] = keyID
+		s.bucketIDs[i] = bucketID
 		s.used++
 	}
 	s.sums[i] += env.Delta
-- 
2.43.0


From 4337d9138c43cf150800cb3850070e0048b46dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 09/19] fix: the V-lane of a pipeline is safe for concurrent
 callers and persists the audit link

---
 plugin/tfd/pipeline.go | 23 +++++++++++++++++------
 plugin/tfd/vactors.go  |  7 ++++---
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..dbafc91 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -16,7 +16,10 @@
 
 package tfd
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // Pipeline is a small façade that wires together the S-lane (accumulator +
 // background service + optional VSA compression) and the V-lane (per-key
@@ -40,7 +43,9 @@ import "time"
 //   - All options are explicit to avoid hidden global defaults.
 type Pipeline struct {
 	s *SService
-	v *VRouter
+
+	vMu sync.Mutex // guards v and keeps queueing and persisting in one order
+	v   *VRouter
 }
 
 // PipelineOptions configures the S-lane and integrations. V-lane persistence is
@@ -79,7 +84,8 @@ func (p *Pipeline) FlushS() { p.s.Flush() }
 
 // Handle routes an already classified envelope to the appropriate lane.
 // For Vector envelopes, an optional persistV callback can be provided to
-// synchronously persist the event (e.g., append to a log). For Scalar, the
+// synchronously persist the event (e.g., append to a log); it receives the
+// envelope with its audit link and must not call back into the V-lane. For Scalar, the
 // envelope is ingested into the S-lane service (TryIngest first, then Ingest).
 func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 	if env.Channel == ChannelScalar {
@@ -88,8 +94,9 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		}
 		return
 	}
-	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
+	p.vMu.Lock()
+	defer p.vMu.Unlock()
+	env = p.v.Route(env.Footprint.KeyID).Enqueue(env)
 	if persistV != nil {
 		persistV(env)
 	}
@@ -97,4 +104,8 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 
 // DrainV returns (and clears) all queued Vector envelopes for a given key in
 // FIFO order, suitable for persistence or replay.
-func (p *Pipeline) DrainV(keyID uint64) []Envelope { return p.v.Route(keyID).Drain() }
+func (p *Pipeline) DrainV(keyID uint64) []Envelope {
+	p.vMu.Lock()
+	defer p.vMu.Unlock()
+	return p.v.Route(keyID).Drain()
+}
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..0133618 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -31,15 +31,16 @@ func newVActor(keyID uint64) *VActor {
 	return &VActor{keyID: keyID, queue: list.New()}
 }
 
-// Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+// Enqueue appends a V-envelope, updates the prev-hash link and returns the linked envelope.
+func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
-		return
+		return env
 	}
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	return env
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
-- 
2.43.0


From 9179bcd5ab8aca6883cc4418bb4365625acf7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 10/19] fix: SService.Flush returns when the service stops and
 Stop may be repeated

---
 plugin/tfd/sservice.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 9b211ee..8116461 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -49,6 +49,7 @@ type SService struct {
 	doneCh chan struct{}
 	opts   SServiceOptions
 	once   sync.Once
+	stop   sync.Once
 	// flushReqCh allows external callers to request an immediate flush on the service goroutine and wait for completion
 	flushReqCh chan chan struct{}
 }
@@ -82,8 +83,9 @@ func (s *SService) Start() {
 }
 
 // Stop asks the worker to stop, performs a final flush, and waits for completion.
+// It may be called more than once.
 func (s *SService) Stop() {
-	close(s.stopCh)
+	s.stop.Do(func() { close(s.stopCh) })
 	<-s.doneCh
 }
 
@@ -92,9 +94,17 @@ func (s *SService) Stop() {
 // time-capped batching and log inspection.
 func (s *SService) Flush() {
 	done := make(chan struct{})
-	// Send a synchronous flush request and wait for completion
-	s.flushReqCh <- done
-	<-done
+	// Send a synchronous flush request and wait for completion; a service that has stopped
+	// has already flushed and answers no requests.
+	select {
+	case s.flushReqCh <- done:
+	case <-s.doneCh:
+		return
+	}
+	select {
+	case <-done:
+	case <-s.doneCh:
+	}
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
-- 
2.43.0


From 554c39ade18ebe36c7604d5f96f977c197fd9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 11/19] fix: a log reopened after a crash does not glue the
 next record to a torn line

---
 internal/sinks/sbatch_file_sink.go | 35 +++++++++++++++++++++++++++++-
 internal/sinks/venv_file_sink.go   |  2 +-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..fbbfef7 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -37,10 +37,43 @@ type SBatchFileSink struct {
 	lastFlush time.Time
 }
 
+// openLog opens (or creates) a JSONL log for appending. A last line torn by a crash is
+// terminated first, so that the next record starts on a line of its own.
+func openLog(path string) (*os.File, error) {
+	torn := tornTail(path)
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	if err != nil {
+		return nil, err
+	}
+	if torn {
+		if _, err := f.Write([]byte{'\n'}); err != nil {
+			_ = f.Close()
+			return nil, err
+		}
+	}
+	return f, nil
+}
+
+// tornTail reports whether the file at path ends in the middle of a line.
+func tornTail(path string) bool {
+	st, err := os.Stat(path)
+	if err != nil || !st.Mode().IsRegular() || st.Size() == 0 {
+		return false
+	}
+	f, err := os.Open(path)
+	if err != nil {
+		return false
+	}
+	defer f.Close()
+	last := make([]byte, 1)
+	_, err = f.ReadAt(last, st.Size()-1)
+	return err == nil && last[0] != '\n'
+}
+
 // NewSBatchFileSink opens (or creates) the file at path in append mode with
 // a buffered writer. Call Close() when done.
 func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openLog(path)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..82f64b9 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -37,7 +37,7 @@ type VEnvFileSink struct {
 }
 
 func NewVEnvFileSink(path string) (*VEnvFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openLog(path)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0e5629f8d283004016152e070953b2528fcde5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:47 +0000
Subject: [PATCH 12/19] fix: ratelimiter-api stops serving before the final
 flush

---
 cmd/ratelimiter-api/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..145dd96 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,16 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout, so that no request is
+	// admitted after the final flush. Even if requests are still running when the timeout
+	// expires, go on to the flush.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := httpServer.Shutdown(ctx); err != nil {
+		log.Printf("Server shutdown failed: %v", err)
+	}
+
+	// 8. Now stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,12 +241,5 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
-	}
-
 	fmt.Println("Server gracefully stopped.")
 }
-- 
2.43.0


From d6179d34e661085a9b951b6bc1e52381b7384d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:27 +0000
Subject: [PATCH 13/19] fix: tfd-proxy stops serving before closing the
 pipeline and its logs

---
 cmd/tfd-proxy/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index eb94b4c..e540b7c 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -337,9 +338,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(st.Cells())
 	})
 
+	server := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
-		if err := http.ListenAndServe(*addr, nil); err != nil {
+		if err := server.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -348,4 +350,12 @@ func main() {
 	sigCh := make(chan os.Signal, 1)
 	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
+
+	// Stop serving before the pipeline and the sinks are closed (see the defers above), so
+	// that every accepted operation reaches the logs.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := server.Shutdown(ctx); err != nil {
+		log.Printf("server shutdown: %v", err)
+	}
 }
-- 
2.43.0


From b4f6020b3473a54d031976d5ecbe5edfde2c27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:17 +0000
Subject: [PATCH 14/19] fix: tfd-proxy /state without a key reports every cell

---
 cmd/tfd-proxy/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index e540b7c..5eb095c 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -334,8 +334,12 @@ func main() {
 			_ = json.NewEncoder(w).Encode(m)
 			return
 		}
-		// dump everything
-		_ = json.NewEncoder(w).Encode(st.Cells())
+		// dump everything, in the same format (JSON object names are strings)
+		m := map[string]int64{}
+		for kb, v := range st.Cells() {
+			m[fmt.Sprintf("%d:%d", kb[0], kb[1])] = v
+		}
+		_ = json.NewEncoder(w).Encode(m)
 	})
 
 	server := &http.Server{Addr: *addr}
-- 
2.43.0


From 445e0299d56b32b8061addbf66cd368760152f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 15/19] fix: churn exporter loop uses the interval it was
 started with

The loop read the interval from the shared config, so reconfiguring right
after Enable could hand it a zero interval and panic the process.
---
 internal/ratelimiter/telemetry/churn/exporter.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index c5f7b34..35265b4 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -88,15 +88,13 @@ func startOrUpdateExporter(cfg Config) {
 	// Start new loop
 	exporterStop = make(chan struct{})
 	exporterDone = make(chan struct{})
-	go exporterLoop(exporterStop, exporterDone)
+	go exporterLoop(cfg.LogInterval, exporterStop, exporterDone)
 }
 
-func exporterLoop(stop <-chan struct{}, done chan<- struct{}) {
+func exporterLoop(interval time.Duration, stop <-chan struct{}, done chan<- struct{}) {
 	defer close(done)
-	cfgAny := currCfg.Load()
-	cfg, _ := cfgAny.(Config)
-	// cfg.LogInterval is guaranteed > 0 by the starter
-	ticker := time.NewTicker(cfg.LogInterval)
+	// interval is guaranteed > 0 by the starter; currCfg may already hold a later config
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 	for {
 		select {
-- 
2.43.0


From 8dfb274e2cb80643e9a929431e6b12969298e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 16/19] fix: count rows and failures of eviction commits in
 churn telemetry

vsa_commits_rows_total, vsa_rows_per_batch and vsa_commit_errors_total left
out the writes done by the eviction cycle.
---
 internal/ratelimiter/core/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 4de2d42..837e926 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -271,8 +271,12 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				// Telemetry: an eviction writes a row too
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, vector)
 				managed.instance.Commit(vector)
 				if _, rest := managed.instance.State(); rest != 0 {
 					continue // units arrived while persisting; evict on a later cycle
-- 
2.43.0


From c22c4d424a9c06982fb5a9ce8094a14ed3c96f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:15 +0000
Subject: [PATCH 17/19] fix: tfd-sim: measure the first flush interval from the
 start of the run

---
 cmd/tfd-sim/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index c608672..b5d261e 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -62,9 +62,9 @@ type metricSink struct {
 }
 
 func (m *metricSink) OnSBatches(b []tfd.SBatch) {
-	prev := time.Unix(0, m.last.Swap(time.Now().UnixNano()))
-	if !prev.IsZero() && m.flushHist != nil {
-		m.flushHist.Observe(time.Since(prev).Seconds())
+	prev := m.last.Swap(time.Now().UnixNano())
+	if prev != 0 && m.flushHist != nil { // the first write has no interval
+		m.flushHist.Observe(time.Since(time.Unix(0, prev)).Seconds())
 	}
 	m.inner.OnSBatches(b)
 }
-- 
2.43.0


From e490455635d03724fcfa9c01581403b5aab55637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:15 +0000
Subject: [PATCH 18/19] fix: tfd-sim: stop the server and the generator before
 closing the logs

---
 cmd/tfd-sim/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index b5d261e..44fa8af 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"flag"
 	"fmt"
 	"log"
@@ -266,9 +267,10 @@ func main() {
 		}
 		w.WriteHeader(202)
 	})
+	server := &http.Server{Addr: *httpAddr}
 	go func() {
 		log.Printf("tfd-sim listening on %s", *httpAddr)
-		if err := http.ListenAndServe(*httpAddr, nil); err != nil {
+		if err := server.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -276,7 +278,9 @@ func main() {
 	// Generator loop
 	rng := rand.New(rand.NewSource(time.Now().UnixNano()))
 	stop := make(chan struct{})
+	stopped := make(chan struct{})
 	go func() {
+		defer close(stopped)
 		interval := time.Second / time.Duration(max(1, *qps))
 		ticker := time.NewTicker(interval)
 		defer ticker.Stop()
@@ -338,6 +342,14 @@ func main() {
 	case <-endTimer:
 	}
 	close(stop)
+	// No source of operations may outlive the service and the sinks, which are closed by the
+	// defers above: wait for the generator's last burst and stop serving.
+	<-stopped
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := server.Shutdown(ctx); err != nil {
+		log.Printf("server shutdown: %v", err)
+	}
 	// allow some time to flush
 	time.Sleep(200 * time.Millisecond)
 }
-- 
2.43.0


From 7398b5f3cda8a49031ea525132b7abb245704c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:04 +0000
Subject: [PATCH 19/19] fix: fencing a key keeps the S-lane cells behind it in
 the probe chain reachable

---
 plugin/tfd/saccumulator.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index a2e2cb7..2b9855a 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -80,10 +80,9 @@ func (s *SShard) probe(keyID, bucketID uint64) int {
 	}
 }
 
-// grow doubles the table.
-func (s *SShard) grow() {
+// rehash moves the cells to a fresh table of n slots.
+func (s *SShard) rehash(n int) {
 	old := *s
-	n := 2 * len(old.keys)
 	s.keys = make([]uint64, n)
 	s.keyIDs = make([]uint64, n)
 	s.bucketIDs = make([]uint64, n)
@@ -107,7 +106,7 @@ func (s *SShard) grow() {
 func (s *SShard) Ingest(env Envelope) {
 	keyID, bucketID := env.Footprint.KeyID, env.Footprint.Time.BucketID
 	if s.used+1 >= len(s.keys) {
-		s.grow() // keep an empty slot so that probing terminates
+		s.rehash(2 * len(s.keys)) // keep an empty slot so that probing terminates
 	}
 	i := s.probe(keyID, bucketID)
 	if s.keys[i] == 0 {
@@ -164,6 +163,7 @@ func (s *SShard) FlushKey(keyID uint64, out *[]SBatch) {
 	if s.used == 0 {
 		return
 	}
+	before := s.used
 	for i := range s.keys {
 		if s.keys[i] == 0 || s.keyIDs[i] != keyID {
 			continue
@@ -183,4 +183,8 @@ func (s *SShard) FlushKey(keyID uint64, out *[]SBatch) {
 		s.seqEnds[i] = 0
 		s.used--
 	}
+	// cells that were probed past a cleared slot would no longer be found
+	if s.used > 0 && s.used < before {
+		s.rehash(len(s.keys))
+	}
 }
-- 
2.43.0

