From 0e857c47e9058569db7877a6a65d98852c61638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 01/41] fix: do not send fetched records on the closed input of
 a revoked partition

add() may have passed its revocation check while the worker shuts down and
closes partitionInput, which panics the polling goroutine (or blocks it for
good when the input is full). Give up the send once the worker is revoked and
leave partitionInput open.
---
 streams/partition_worker.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..cebf8e1 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -123,7 +123,10 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done(): // revoked while waiting, nobody is going to read from partitionInput
+	}
 }
 
 func (pw *partitionWorker[T]) revoke() {
@@ -151,7 +154,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
-			close(pw.partitionInput)
+			// partitionInput is not closed: the consumer may still be in the process of adding to it
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
-- 
2.43.0


From 7136f872d0681cd45548570fae036c64466ebfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 02/41] fix: commit accepted events before a revoked partition
 is given up

Events already handed to a producer when the partition is revoked keep being
processed and committed, but the revocation callback returned immediately: the
next owner could read the committed offset before these transactions ended and
process the same events again, and the state store was told Revoked() while
events were still being handled with it. Wait for the worker to close first.
---
 streams/partition_worker.go | 16 ++++++++++++++++
 streams/source_consumer.go  | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index cebf8e1..e70863b 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -69,6 +69,7 @@ type partitionWorker[T StateStore] struct {
 	stopSignal             chan struct{}
 	revokedSignal          chan struct{}
 	stopped                chan struct{}
+	closed                 chan struct{}
 	changeLog              changeLogPartition[T]
 	eventSource            *EventSource[T]
 	runStatus              sak.RunStatus
@@ -98,6 +99,7 @@ func newPartitionWorker[T StateStore](
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
 		stopped:        make(chan struct{}),
+		closed:         make(chan struct{}),
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
@@ -133,6 +135,19 @@ func (pw *partitionWorker[T]) revoke() {
 	pw.runStatus.Halt()
 }
 
+// waitForClose blocks until the transactions of all events which were handed to a producer before revocation have ended.
+// Gives up if the EventSource is halted, or once any such transaction must have timed out.
+func (pw *partitionWorker[T]) waitForClose() {
+	timer := time.NewTimer(30 * time.Second)
+	defer timer.Stop()
+	select {
+	case <-pw.closed:
+	case <-pw.eventSource.runStatus.Done():
+	case <-timer.C:
+		log.Warnf("revoking %+v while there are uncommitted events", pw.topicPartition)
+	}
+}
+
 type sincer struct {
 	then time.Time
 }
@@ -157,6 +172,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			// partitionInput is not closed: the consumer may still be in the process of adding to it
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
+			close(pw.closed)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..b65ba51 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -229,12 +229,23 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 		return
 	}
 
+	revoked := make([]*partitionWorker[T], 0, len(partitions))
 	for _, p := range partitions {
 		sc.source.onPartitionWillRevoke(p)
 		if worker, ok := sc.workers[p]; ok {
 			worker.revoke()
 			delete(sc.workers, p)
+			revoked = append(revoked, worker)
 		}
+	}
+	// the next owner of a partition starts at the committed offset, and our accepted events still use the state store.
+	// do not let go of either until these events are commited
+	sc.workerMux.Unlock()
+	for _, worker := range revoked {
+		worker.waitForClose()
+	}
+	sc.workerMux.Lock()
+	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
-- 
2.43.0


From a483e909ca809ae92641b6fb093844f123c6f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 03/41] fix: do not strand a job that was enqueued after its
 queue had drained

---
 streams/async_item_queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..e985421 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// a blocked enqueue may have finished after the last dequeue
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From ca586fc2ef6a836d2530df36b1b8f792ba307eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 04/41] fix: keep pending jobs when the concurrent key limit is
 lowered and raised again

---
 streams/async_scheduler.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..ea7c02a 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -312,17 +312,17 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
 	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
 
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
 	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	ap.ensureWorkerChannelCapacity(size)
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize int) {
+	// after the limit was lowered, there may still be more pending workers than it allows
+	if newSize >= cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
-- 
2.43.0


From d2cba73990bbed42c95f6ec5334c0662200fa91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 05/41] fix: release all callers of Schedule when the scheduler
 is halted

---
 streams/async_scheduler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index ea7c02a..1d8a990 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -349,7 +349,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize int) {
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
-- 
2.43.0


From 5fda52bdf6859a40bd1c27f8b49e94e9045198f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 06/41] fix: complete events without batch items in order with
 the other events of their key

---
 streams/async_batcher.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..78abb0f 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -123,29 +123,28 @@ const (
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
 	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
+	pending    []*BatchItem[K, V] // items and placeholders in the order they were added
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.pending = append(b.pending, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
+	for i, item := range b.pending {
 		delete(assignments, item.key)
-		b.items[i] = nil
+		b.pending[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i := range b.items {
+		b.items[i] = nil
 	}
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
+	b.pending = b.pending[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.pending) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -270,18 +269,20 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 
 func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
 	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	ab.completeBatchItems(executor.pending)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0


From a4692b6c9b791062177878df1cbaa040910e10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 07/41] fix: keep scheduling a periodic interjection which
 completes asynchronously

---
 streams/partition_worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index e70863b..0517713 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -278,6 +278,9 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.IsInterjection() {
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
-- 
2.43.0


From 652823f93616cba9babce0462845f3745e7acf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 08/41] fix: answer one-off interjections which are pending
 when their partition is revoked

---
 streams/partition_worker.go | 13 +++++++++++++
 streams/source_consumer.go  | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 0517713..ce7af7c 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -172,6 +172,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			// partitionInput is not closed: the consumer may still be in the process of adding to it
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
+			pw.dropInterjections()
 			close(pw.closed)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
@@ -179,6 +180,18 @@ func (pw *partitionWorker[T]) pushRecords() {
 	}
 }
 
+// dropInterjections answers the interjections nobody is going to read from interjectionInput anymore, once we're revoked
+func (pw *partitionWorker[T]) dropInterjections() {
+	for {
+		select {
+		case ij := <-pw.interjectionInput:
+			pw.scheduleInterjection(ij)
+		default:
+			return
+		}
+	}
+}
+
 func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 	if pw.isRevoked() {
 		return
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index b65ba51..2a9014b 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -310,15 +310,26 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
+	ij := &interjection[T]{
 		isOneOff:       true,
 		topicPartition: w.topicPartition,
+		callback: func() {
+			c <- ErrPartitionNotAssigned // revoked before cmd could be executed
+		},
 		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
 			state := cmd(ec, t)
 			close(c)
 			return state
 		},
 	}
+	select {
+	case w.interjectionInput <- ij:
+		if w.isRevoked() {
+			w.dropInterjections()
+		}
+	case <-w.runStatus.Done():
+		ij.callback()
+	}
 	return c
 }
 
-- 
2.43.0


From b7714befeb479d8f2b8e8fe0c2847af229789a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 09/41] fix: leave room for the async job of every pending
 event

---
 streams/partition_worker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index ce7af7c..34905f0 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -90,7 +90,9 @@ func newPartitionWorker[T StateStore](
 	eosConfig := eventSource.source.config.EosConfig
 
 	recordsInputSize := sak.Max(eosConfig.MaxBatchSize/10, 100)
-	asyncSize := recordsInputSize * 4
+	// there must be room for a job of every pending event. otherwise an event handler which is waiting on
+	// an AsyncJobScheduler or AsyncBatcher could never proceed, as nobody is reading from asyncJobs in the meantime
+	asyncSize := sak.Max(recordsInputSize*4, eosProducer.maxPendingItems())
 	pw := &partitionWorker[T]{
 		eventSource:    eventSource,
 		topicPartition: topicPartition,
-- 
2.43.0


From ccf0442847944b2e675251b31c3e3761ed872dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 10/41] fix: keep preparation, cancellation and activation of a
 state store partition apart

---
 streams/source_consumer.go      |  16 +++-
 streams/state_store_consumer.go | 159 +++++++++++++++++++++-----------
 2 files changed, 119 insertions(+), 56 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 2a9014b..e5177f0 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -137,9 +137,15 @@ func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
 // Needed to fulfill the IncrRebalanceInstructionHandler interface defined by IncrementalGroupRebalancer.
 // Should NOT be invoked directly.
 func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
 	partition := tp.Partition
+	if _, ok := sc.workers[partition]; ok {
+		// it was assigned before we had a chance to prepare for it, the store is in use
+		return
+	}
 	if _, ok := sc.prepping[partition]; !ok {
 		store := sc.partitionedStore.assign(partition)
 
@@ -149,7 +155,9 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			start := time.Now()
 			log.Debugf("prepping %+v", tp)
 
-			ssp.sync()
+			if !ssp.sync(false) {
+				return // forgotten, or assigned in the meantime
+			}
 			processed := ssp.processed()
 			duration := time.Since(start)
 
@@ -180,6 +188,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 	if _, ok := sc.prepping[tp.Partition]; ok {
 		sc.stateStoreConsumer.cancelPartition(tp.Partition)
 		delete(sc.prepping, tp.Partition)
+		// do not keep the store, it will miss changes from now on
+		sc.partitionedStore.revoke(tp.Partition)
 	} else {
 		// what to do? probably nothing, but if we have a double assignment, we could have problems
 		// need to investigate this race condition further
@@ -204,14 +214,14 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 			log.Infof("syncing prepped partition %+v", prepper.topicPartition)
 			delete(sc.prepping, p)
 			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
+				prepper.sync(true)
 				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
 			})
 		} else if _, ok := sc.workers[p]; !ok {
 			prepper = sc.stateStoreConsumer.activatePartition(p, store)
 			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
 			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
+				prepper.sync(true)
 				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
 			})
 		}
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..3a484ce 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -47,20 +47,41 @@ type StateStore interface {
 	Revoked()
 }
 
+// syncWaiter waits for its marker to be consumed. complete reports false if the population was cancelled before that.
+type syncWaiter struct {
+	done chan struct{}
+	// the partition is being activated, stop consuming once the marker is reached
+	activating bool
+	complete   bool
+}
+
 type stateStorePartition[T StateStore] struct {
 	buffer         chan []*kgo.Record
+	stop           chan struct{} // closed when the current populator must stop
+	stopped        chan struct{} // closed once the current populator has stopped
 	client         *kgo.Client
-	waiters        map[string]chan struct{}
+	waiters        map[string]*syncWaiter
 	topicPartition TopicPartition
 	state          partitionState
 	count          uint64
 	byteCount      uint64
-	waiterLock     sync.Mutex
+	mux            sync.Mutex // guards state transitions, the current populator and waiters
 	highWatermark  int64
 }
 
 func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+	ssp.mux.Lock()
+	if ssp.partitionState() == paused {
+		ssp.pause()
+		ssp.mux.Unlock()
+		return
+	}
+	buffer, stop := ssp.buffer, ssp.stop
+	ssp.mux.Unlock()
+	select {
+	case buffer <- ftp.FetchPartition.Records:
+	case <-stop:
+	}
 }
 
 func (ssp *stateStorePartition[T]) pause() {
@@ -73,42 +94,58 @@ func (ssp *stateStorePartition[T]) pause() {
 
 }
 
+// stops the current populator
 func (ssp *stateStorePartition[T]) kill() {
-	if ssp.buffer != nil {
-		close(ssp.buffer)
-		ssp.buffer = nil
+	if ssp.stop != nil {
+		close(ssp.stop)
+		ssp.stop = nil
+	}
+}
+
+// releases everyone who is waiting for a marker nobody is going to see anymore
+func (ssp *stateStorePartition[T]) releaseWaiters() {
+	for mark, waiter := range ssp.waiters {
+		delete(ssp.waiters, mark)
+		close(waiter.done)
 	}
 }
 
+// cancels population and waits until the store is no longer written to.
 func (ssp *stateStorePartition[T]) cancel() {
+	ssp.mux.Lock()
 	ssp.pause()
 	ssp.kill()
+	ssp.releaseWaiters()
+	stopped := ssp.stopped
+	ssp.mux.Unlock()
+	if stopped != nil {
+		<-stopped
+	}
 }
 
-func (ssp *stateStorePartition[T]) addWaiter() (c chan struct{}, mark []byte) {
-	ssp.waiterLock.Lock()
-	defer ssp.waiterLock.Unlock()
-	c = make(chan struct{})
+func (ssp *stateStorePartition[T]) addWaiter(activating bool) (waiter *syncWaiter, mark []byte) {
+	ssp.mux.Lock()
+	defer ssp.mux.Unlock()
+	waiter = &syncWaiter{done: make(chan struct{}), activating: activating}
+	if ssp.stop == nil && !activating { // already cancelled, nobody is going to see the marker
+		close(waiter.done)
+		return
+	}
 	s := uuid.NewString()
 	mark = []byte(s)
-	ssp.waiters[s] = c
+	ssp.waiters[s] = waiter
 	return
 }
 
-func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (chan struct{}, bool) {
-	ssp.waiterLock.Lock()
-	defer ssp.waiterLock.Unlock()
-	if c, ok := ssp.waiters[string(mark)]; ok {
-		delete(ssp.waiters, string(mark))
-		return c, true
+// sync blocks until everything which is in the change log by now is consumed. If `activating`, nothing after that will be.
+// Returns false if population was cancelled in the meantime.
+func (ssp *stateStorePartition[T]) sync(activating bool) bool {
+	waiter, mark := ssp.addWaiter(activating)
+	if mark != nil {
+		sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
 	}
-	return nil, false
-}
-
-func (ssp *stateStorePartition[T]) sync() {
-	c, mark := ssp.addWaiter()
-	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	<-c
+	<-waiter.done
+	return waiter.complete
 }
 
 func (ssp *stateStorePartition[T]) processed() uint64 {
@@ -128,10 +165,16 @@ func (ssp *stateStorePartition[T]) setState(state partitionState) {
 }
 
 func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
+	ssp.mux.Lock()
+	defer ssp.mux.Unlock()
+	ssp.kill()
+	ssp.releaseWaiters()
 	ssp.setState(intitialState)
-	ssp.count = 0
-	ssp.byteCount = 0
+	atomic.StoreUint64(&ssp.count, 0)
+	atomic.StoreUint64(&ssp.byteCount, 0)
 	ssp.buffer = make(chan []*kgo.Record, 1024)
+	ssp.stop = make(chan struct{})
+	ssp.stopped = make(chan struct{})
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
@@ -140,42 +183,56 @@ func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store chan
 	ssp.client.ResumeFetchPartitions(map[string][]int32{
 		topic: {partition},
 	})
-	go ssp.populate(store)
+	go ssp.populate(store, ssp.buffer, ssp.stop, ssp.stopped)
 }
 
-func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool) {
-	var waiter chan struct{}
-	var ok bool
-	if waiter, ok = ssp.removeWaiterForMark(val); !ok {
-		return
+func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte, stop chan struct{}) (complete bool) {
+	ssp.mux.Lock()
+	defer ssp.mux.Unlock()
+	waiter, ok := ssp.waiters[string(val)]
+	if !ok || stop != ssp.stop {
+		return false
 	}
-	switch ssp.partitionState() {
-	case prepping:
-		log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
-		ssp.setState(ready)
-	case ready:
+	delete(ssp.waiters, string(val))
+	waiter.complete = true
+	if waiter.activating {
 		log.Debugf("transitioning from ready to paused for %+v", ssp.topicPartition)
 		complete = true
-		ssp.cancel()
+		ssp.pause()
+		ssp.kill()
+	} else if ssp.partitionState() == prepping {
+		log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
+		ssp.setState(ready)
 	}
-	close(waiter)
+	close(waiter.done)
 	return
 }
 
-func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
+func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T], buffer chan []*kgo.Record, stop, stopped chan struct{}) {
 	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
-			log.Debugf("closed populator for %+v", ssp.topicPartition)
+	defer close(stopped)
+	for {
+		select {
+		case records := <-buffer:
+			if !ssp.handleRecordsAndContinue(records, store, stop) {
+				log.Debugf("closed populator for %+v", ssp.topicPartition)
+				return
+			}
+		case <-stop:
 			return
 		}
 	}
 }
 
-func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Record, store changeLogPartition[T]) bool {
+func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Record, store changeLogPartition[T], stop chan struct{}) bool {
 	for _, record := range records {
+		select {
+		case <-stop:
+			return false
+		default:
+		}
 		if isMarkerRecord(record) {
-			if ssp.isCompletionMarker(record.Value) {
+			if ssp.isCompletionMarker(record.Value, stop) {
 				return false
 			}
 		} else {
@@ -229,10 +286,9 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 	for i := int32(0); i < partitionCount; i++ {
 		stateStorePartitions[i] = &stateStorePartition[T]{
 			topicPartition: TopicPartition{Partition: i, Topic: topic},
-			waiters:        make(map[string]chan struct{}, 2),
+			waiters:        make(map[string]*syncWaiter, 2),
 			client:         client,
 			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
 			highWatermark:  -1,
 		}
 	}
@@ -261,12 +317,7 @@ func (ssc *stateStoreConsumer[T]) consume() {
 			}
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
-			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
-				ssp.add(partitionFetch)
-			}
+			ssc.partitions[partitionFetch.Partition].add(partitionFetch)
 		})
 	}
 	ssc.stop()
@@ -301,7 +352,9 @@ func (ssc *stateStoreConsumer[T]) stop() {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
 	for _, ssp := range ssc.partitions {
+		ssp.mux.Lock()
 		ssp.kill()
+		ssp.mux.Unlock()
 	}
 }
 
-- 
2.43.0


From eec8e627bb4361244bd8bd59e019da181baac747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 11/41] fix: do not hand records of an earlier assignment to
 the next partitionWorker

---
 streams/partition_worker.go |  1 +
 streams/source_consumer.go  | 49 ++++++++++++++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 34905f0..7a1ff22 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -75,6 +75,7 @@ type partitionWorker[T StateStore] struct {
 	runStatus              sak.RunStatus
 	ready                  int64
 	highestOffset          int64
+	lastStalePoll          int64 // what was polled up to here belongs to a previous assignment of this partition
 	topicPartition         TopicPartition
 	revocationWaiter       sync.WaitGroup
 }
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index e5177f0..94561c9 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -34,6 +34,7 @@ type eventSourceConsumer[T StateStore] struct {
 	prepping           map[int32]*stateStorePartition[T]
 	workerMux          sync.Mutex
 	preppingMux        sync.Mutex
+	poll               pollTracker
 	incrBalancer       IncrementalGroupRebalancer
 	eventSource        *EventSource[T]
 	source             *Source
@@ -43,6 +44,40 @@ type eventSourceConsumer[T StateStore] struct {
 	// prepping           map[int32]*partitionPrepper[T]
 }
 
+// Numbers the polls of a client, so that records which were polled before a partition was assigned can be told from those which were polled after.
+type pollTracker struct {
+	mux    sync.Mutex
+	latest int64 // the number of polls started so far
+	done   chan struct{}
+	cancel context.CancelFunc
+}
+
+func (pt *pollTracker) fetch(client *kgo.Client) (ctx context.Context, f kgo.Fetches, poll int64) {
+	ctx, cancel := context.WithTimeout(context.Background(), consumerPollFetchTimeout)
+	done := make(chan struct{})
+	pt.mux.Lock()
+	pt.latest++
+	poll = pt.latest
+	pt.done, pt.cancel = done, cancel
+	pt.mux.Unlock()
+	f = client.PollFetches(ctx)
+	close(done)
+	cancel()
+	return
+}
+
+// interrupt returns the number of the last poll, once that poll has returned.
+func (pt *pollTracker) interrupt() int64 {
+	pt.mux.Lock()
+	poll, done, cancel := pt.latest, pt.done, pt.cancel
+	pt.mux.Unlock()
+	if done != nil {
+		cancel()
+		<-done
+	}
+	return poll
+}
+
 // Creates a new eventSourceConsumer.
 // `eventSource` must be a fully initialized EventSource.
 func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additionalClientOptions ...kgo.Opt) (*eventSourceConsumer[T], error) {
@@ -198,6 +233,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 }
 
 func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []int32) {
+	// what was polled so far belongs to previous assignments of these partitions. fetching for this one starts after we return
+	lastPoll := sc.poll.interrupt()
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
@@ -217,6 +254,7 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 				prepper.sync(true)
 				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
 			})
+			sc.workers[p].lastStalePoll = lastPoll
 		} else if _, ok := sc.workers[p]; !ok {
 			prepper = sc.stateStoreConsumer.activatePartition(p, store)
 			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
@@ -224,6 +262,7 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 				prepper.sync(true)
 				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
 			})
+			sc.workers[p].lastStalePoll = lastPoll
 		}
 
 	}
@@ -276,11 +315,11 @@ func (sc *eventSourceConsumer[T]) partitionsRevoked(ctx context.Context, _ *kgo.
 	}
 }
 
-func (sc *eventSourceConsumer[T]) receive(p kgo.FetchTopicPartition) {
+func (sc *eventSourceConsumer[T]) receive(p kgo.FetchTopicPartition, poll int64) {
 	sc.workerMux.Lock()
 	worker, ok := sc.workers[p.Partition]
 	sc.workerMux.Unlock()
-	if !ok || len(p.Records) == 0 {
+	if !ok || len(p.Records) == 0 || poll <= worker.lastStalePoll {
 		return
 	}
 	worker.add(p.Records)
@@ -292,7 +331,7 @@ func (sc *eventSourceConsumer[T]) start() {
 	go sc.commitLog.Start()
 	sc.commitLog.syncAll()
 	for {
-		ctx, f := pollConsumer(sc.client)
+		ctx, f, poll := sc.poll.fetch(sc.client)
 		if f.IsClientClosed() {
 			log.Infof("client closed for group: %v", sc.source.GroupId())
 			return
@@ -302,7 +341,9 @@ func (sc *eventSourceConsumer[T]) start() {
 				log.Errorf("%v", err)
 			}
 		}
-		f.EachPartition(sc.receive)
+		f.EachPartition(func(p kgo.FetchTopicPartition) {
+			sc.receive(p, poll)
+		})
 	}
 }
 
-- 
2.43.0


From 7d19c78c3d73a6f027e790d01aae21dd85226f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 12/41] fix: a member that has finished leaving is not an
 active group member

A Defunct member which is still in the group was treated as an active one, so the balancer could give it
partitions, or instruct it to prepare some, after it was told that it may shut down.
---
 streams/group_state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..4943df8 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,7 +120,7 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
+		if incrMem.meta.Status != ActiveMember {
 			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		} else {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
-- 
2.43.0


From 8078b4e4321c9a4c20caee752d581a63f23b291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 13/41] fix: ignore the report of a preparation that has been
 superseded

If a partition was assigned to us (or forgotten) just before PartitionPrepared was called, it ended up as Ready
for good: the partition stayed in receivership, and the group never moved a partition again.
---
 streams/incr_rebalancer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..c54853a 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -295,7 +295,9 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 func (ir *incrementalRebalancer) PartitionPrepared(tp TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	ir.preparing.Remove(tp)
+	if !ir.preparing.Remove(tp) {
+		return // it was assigned or forgotten in the meantime
+	}
 	ir.ready.Insert(tp)
 	go ir.client().ForceRebalance()
 }
-- 
2.43.0


From df6a37d63a81fdc05cdffbe7860141b93c1420b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 14/41] fix: rebalance again once unprepared partitions have
 been assigned

Unassigned partitions use up the budget for moves of a rebalance, but nobody triggered another one after they were
assigned: the group stayed unbalanced, and a member that wanted to leave never got to.
---
 streams/incr_rebalancer.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index c54853a..be77e53 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -322,16 +322,12 @@ func (ir *incrementalRebalancer) PartitionPreparationFailed(tp TopicPartition) {
 func (ir *incrementalRebalancer) PartitionsAssigned(tps ...TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	rebalance := false
 	for _, tp := range tps {
-		if ir.preparing.Remove(tp) {
-			rebalance = true
-		}
-		if ir.ready.Remove(tp) {
-			rebalance = true
-		}
+		ir.preparing.Remove(tp)
+		ir.ready.Remove(tp)
 	}
-	if rebalance {
+	if len(tps) > 0 {
+		// prepared or not, assigned partitions used up the budget of this rebalance. there may be more to move
 		go ir.client().ForceRebalance()
 	}
 }
-- 
2.43.0


From 755652c3fd2743b69f48fc3d493e703ca466c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 15/41] fix: forget every partition we are instructed to forget

The goroutines shared the loop variable, so with more than one instruction some were executed twice, others never.
---
 streams/incr_rebalancer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index be77e53..4df3258 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -408,10 +408,10 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-				go func() {
+				go func(tp TopicPartition) {
 					ir.instructionHandler.ForgetPreparedTopicPartition(tp)
 					wg.Done()
-				}()
+				}(tp)
 			} else {
 				wg.Done()
 			}
-- 
2.43.0


From bb49f809c4f3ac44d2325e5bbf25173c231c7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 16/41] fix: no group callbacks before the consumer is complete

The client joins its group as soon as it is created, and could call PrepareTopicPartition or assignPartitions
before the state store consumer, the producer pool and the rebalancer were in place (nil dereference).
---
 streams/source_consumer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 94561c9..0969cda 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -123,6 +123,9 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	} else {
 		opts = append(opts, kgo.DisableAutoCommit())
 	}
+	// the client joins its group right away. do not let the group call us back before we are complete
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
 	client, err := NewClient(
 		source.config.SourceCluster, opts...)
 
-- 
2.43.0


From 16d4588f0edbe277b59c0f7b5f032997d2c37e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 17/41] fix: MinMaxHeap.Push records the position of the item

An item which never had to move up kept index 0, so Remove and Update of it acted upon another item.
---
 streams/stores/min_max_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..9d66925 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -128,6 +128,7 @@ func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
 }
 
 func (pq *MinMaxHeap[T]) push(item *PrioritizedItem[T]) {
+	item.index = len(pq.items)
 	pq.items = append(pq.items, item)
 }
 
-- 
2.43.0


From 70d188ba5fc56bf4672481c6698a38123784bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 18/41] fix: MinMaxHeap Update and Remove keep the heap in
 order

An element that moved down was never compared with its ancestors.
---
 streams/stores/min_max_heap.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 9d66925..0beb625 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -311,9 +311,7 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		fixN(h, i, n)
 	}
 	return h.pop()
 }
@@ -324,7 +322,12 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	fixN(h, i, h.Len())
+}
+
+// the element at index i has to be compared with its ancestors before it may move down. otherwise it could come to rest
+// on a level where it is out of order with respect to those
+func fixN[T Prioritizable[T]](h *MinMaxHeap[T], i, n int) {
+	up(h, i)
+	down(h, i, n)
 }
-- 
2.43.0


From c4171656ee815479eb64562186eb360368edcbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 19/41] fix: MinMaxHeap.Max leaves the heap as it is

It moved the maximum to the end and kept that for later, so that the next Push, Update, Remove or PopMin worked on something that was not a heap.
---
 streams/stores/min_max_heap.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 0beb625..0b7a6b9 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,14 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	// do not reorder anything here, the other operations rely on the heap being intact
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,10 +104,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
+	setMax(pq)
 	return pq.pop()
 }
 
@@ -264,9 +253,9 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element (according to Less), h must not be empty.
+// The complexity is O(1).
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -279,7 +268,14 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
+	return i
+}
 
+// setMax moves the maximum element (according to Less) to the end of the heap, from where it can be popped.
+// The complexity is O(log n) where n = h.Len().
+func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+	n := h.Len()
+	i := maxIndex(h)
 	h.swap(i, n-1)
 	down(h, i, n-1)
 }
-- 
2.43.0


From 9984bbb91da3f5af321d86b96036b89294d12639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 20/41] fix: SimpleStore.ReceiveChange stores what it could
 decode

It stored only what it could not decode, so a store was empty after a bootstrap.
---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From 6c77ded0280fbef3597d9e8eba2a3d1920923502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 21/41] fix: ToKafkaRecord copies topic, partition, headers and
 record type

They were lost, and the record type header was added to the source instead of the copy.
---
 streams/record.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..a534642 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -256,7 +256,12 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
-	record := new(kgo.Record)
+	record := &kgo.Record{
+		Topic:     r.kRecord.Topic,
+		Partition: r.kRecord.Partition,
+		Timestamp: r.kRecord.Timestamp,
+	}
+	record.Headers = append(record.Headers, r.kRecord.Headers...)
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -264,7 +269,7 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From f463a87b2d1db04393d0f48822a835374edc6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 22/41] fix: LexoInt64Codec sorts

The integer was encoded in little endian, which sorts by the least significant byte first, and math.MinInt64 sorted last.
---
 streams/codec.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..c8af143 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -18,7 +18,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"math"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -101,14 +100,18 @@ type lexoInt64Codec struct{}
 
 const LexInt64Size = int(unsafe.Sizeof(uint64(1))) + 1
 
+// maps math.MinInt64 to 0, so that the encoded values of negative integers are in order
+const lexoOffset = uint64(1) << 63
+
 // Encodes the provided value. Will never induce an error unless there is an OOM condition, so it should be safe to ignore.
 func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
+	// big endian, as the most significant byte has to be compared first
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i)+lexoOffset)
 	}
 	buf.Write(b[:])
 	return nil
@@ -120,11 +123,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := binary.BigEndian.Uint64(b[1:])
 	if sign == 1 {
-		return val, nil
+		return int64(val), nil
 	}
-	return val - math.MaxInt64, nil
+	return int64(val - lexoOffset), nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From efdd26c7bac973e6f31dad270fefb8db0f5f7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 23/41] fix: accept assignments without an incremental balancer

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 0969cda..da69e8e 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -269,7 +269,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil { // nil if BalanceStrategies does not include IncrementalBalanceStrategy
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
-- 
2.43.0


From 42ad0a07ae939bd814657172dd1c0c01e9a3a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 24/41] fix: Done releases everyone who waits for it

---
 streams/event_source.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..5c82f16 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -44,6 +44,7 @@ type EventSource[T StateStore] struct {
 	done              chan struct{}
 	metrics           chan Metric
 	stopOnce          sync.Once
+	doneOnce          sync.Once
 }
 
 /*
@@ -80,7 +81,7 @@ func NewEventSource[T StateStore](sourceConfig EventSourceConfig, stateStoreFact
 		stateStoreFactory: stateStoreFactory,
 		source:            source,
 		runStatus:         sak.NewRunStatus(context.Background()),
-		done:              make(chan struct{}, 1),
+		done:              make(chan struct{}),
 		metrics:           metrics,
 	}
 	es.consumer, err = newEventSourceConsumer(es, additionalClientOptions...)
@@ -264,10 +265,7 @@ func (es *EventSource[T]) Stop() {
 		go func() {
 			<-es.consumer.leave()
 			es.runStatus.Halt() // will close all sub processes (commitLog, stateStoreConsumer)
-			select {
-			case es.done <- struct{}{}:
-			default:
-			}
+			es.signalDone()
 		}()
 	})
 }
@@ -282,10 +280,12 @@ func (es *EventSource[T]) ForkRunStatus() sak.RunStatus {
 func (es *EventSource[T]) StopNow() {
 	es.runStatus.Halt()
 	es.consumer.stop()
-	select {
-	case es.done <- struct{}{}:
-	default:
-	}
+	es.signalDone()
+}
+
+// releases everyone who is waiting for Done, now and later
+func (es *EventSource[T]) signalDone() {
+	es.doneOnce.Do(func() { close(es.done) })
 }
 
 /*
-- 
2.43.0


From ed5950e6fd2be7154b9dcde355ba5a3c06af0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 25/41] fix: do not commit a transaction without the records
 that failed

---
 streams/eos_producer.go | 45 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..22bbfc3 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -16,6 +16,7 @@ package streams
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -30,6 +31,9 @@ const (
 	noPendingDuration = time.Minute
 )
 
+// returned by producerNode.commit if the transaction must not be committed due to an error which has been dealt with already
+var errTxnFailed = errors.New("txn failed")
+
 type partitionOwners[T any] struct {
 	owners map[int32]*producerNode[T]
 	mux    *sync.Mutex
@@ -212,25 +216,30 @@ func (pp *eosProducerPool[T]) commitLoop() {
 			err = pp.commit(p)
 		case err = <-pp.errorChannel:
 		}
-		if err != nil {
-			if instructions := pp.source.eosErrorHandler()(err); instructions != Continue {
-				pp.source.fail(err)
-				switch instructions {
-				case FailConsumer:
-					return
-				case FatallyExit:
-					panic(err)
-				}
-			}
+		if err == errTxnFailed || (err != nil && !pp.handleError(err)) {
+			return
 		}
 	}
 }
 
+// handleError returns true if we're instructed to continue regardless of err
+func (pp *eosProducerPool[T]) handleError(err error) bool {
+	instructions := pp.source.eosErrorHandler()(err)
+	if instructions == Continue {
+		return true
+	}
+	pp.source.fail(err)
+	if instructions == FatallyExit {
+		panic(err)
+	}
+	return false
+}
+
 func (pp *eosProducerPool[T]) commit(p *producerNode[T]) error {
 	if pp.startTime.IsZero() {
 		pp.startTime = time.Now()
 	}
-	err := p.commit()
+	err := p.commit(pp.handleError)
 	if err != nil {
 		log.Errorf("txn commit error: %v", err)
 		return err
@@ -356,7 +365,7 @@ func (p *producerNode[T]) finalizeEventContexts(first, last *EventContext[T]) er
 	return nil
 }
 
-func (p *producerNode[T]) commit() error {
+func (p *producerNode[T]) commit(handleError func(error) bool) error {
 	commitStart := time.Now()
 	p.commitWaiter.Lock()
 	defer p.commitWaiter.Unlock()
@@ -378,6 +387,18 @@ func (p *producerNode[T]) commit() error {
 		log.Errorf("eos producer error: %v", err)
 		return err
 	}
+	// all records have been produced or have reported an error by now.
+	// do not commit a transaction which lacks some of its records, unless we're instructed to
+	for failed := true; failed; {
+		select {
+		case err := <-p.errorChannel:
+			if !handleError(err) {
+				return errTxnFailed
+			}
+		default:
+			failed = false
+		}
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
-- 
2.43.0


From b2c3463793c62a4b3fd3e19735c2cb3e54f408db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 26/41] fix: StopNow does not leave the group while
 transactions may still be committed

---
 streams/eos_producer.go | 38 +++++++++++++++++++++++++++++++++++---
 streams/event_source.go |  2 ++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 22bbfc3..b8c4b24 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -65,6 +65,27 @@ func (po partitionOwners[T]) clear(p int32) {
 	po.mux.Unlock()
 }
 
+// Once closed, no further transaction is committed.
+type commitGate struct {
+	closed bool
+	mux    sync.Mutex
+}
+
+func (g *commitGate) close() {
+	g.mux.Lock()
+	g.closed = true
+	g.mux.Unlock()
+}
+
+func (g *commitGate) pass(commit func() error) error {
+	g.mux.Lock()
+	defer g.mux.Unlock()
+	if g.closed {
+		return errTxnFailed
+	}
+	return commit()
+}
+
 // a container that allows to know who produced the records
 // needed for txn error conditions while there are revoked partitions
 // allows us to filter recordsToProduce on a retry and exclude partitions that have been revoked
@@ -96,6 +117,7 @@ type eosProducerPool[T StateStore] struct {
 	startTime         time.Time
 	errorChannel      chan error
 	commitClient      *kgo.Client
+	commitGate        *commitGate
 }
 
 func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, cfg EosConfig, commitClient *kgo.Client, metrics chan Metric) *eosProducerPool[T] {
@@ -108,6 +130,7 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 		errorChannel:      make(chan error, 1024), //giving this some size so we don't block on errors in other go routines
 		source:            source,
 		commitClient:      commitClient,
+		commitGate:        &commitGate{},
 		partitionOwners: partitionOwners[T]{
 			owners: make(map[int32]*producerNode[T]),
 			mux:    new(sync.Mutex),
@@ -118,7 +141,7 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 	var prev *producerNode[T]
 	var last *producerNode[T]
 	for i := 0; i < cfg.PoolSize; i++ {
-		p := newProducerNode(i, source, commitLog, pp.partitionOwners, commitClient, metrics, pp.errorChannel)
+		p := newProducerNode(i, source, commitLog, pp.partitionOwners, commitClient, metrics, pp.errorChannel, pp.commitGate)
 		pp.producerNodes = append(pp.producerNodes, p)
 		if first == nil {
 			first = p
@@ -136,6 +159,11 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 	return pp
 }
 
+// halt prevents further commits. If there is one under way, blocks until it is finished.
+func (pp *eosProducerPool[T]) halt() {
+	pp.commitGate.close()
+}
+
 // buffer the event context until a producer node is available
 func (pp *eosProducerPool[T]) addEventContext(ec *EventContext[T]) {
 	pp.buffer <- ec
@@ -275,10 +303,11 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
+	commitGate        *commitGate
 	// errs                  []error
 }
 
-func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, metrics chan Metric, errorChannel chan error) *producerNode[T] {
+func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, metrics chan Metric, errorChannel chan error, gate *commitGate) *producerNode[T] {
 	client := sak.Must(NewClient(
 		source.stateCluster(),
 		kgo.RecordPartitioner(NewOptionalPartitioner(kgo.StickyKeyPartitioner(nil))),
@@ -292,6 +321,7 @@ func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitL
 		commitClient:      commitClient,
 		source:            source,
 		errorChannel:      errorChannel,
+		commitGate:        gate,
 		id:                id,
 		commitLog:         commitLog,
 		shouldMarkCommit:  source.shouldMarkCommit(),
@@ -403,7 +433,9 @@ func (p *producerNode[T]) commit(handleError func(error) bool) error {
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
 	}
-	err = p.client.EndTransaction(p.txnContext, action)
+	err = p.commitGate.pass(func() error {
+		return p.client.EndTransaction(p.txnContext, action)
+	})
 	if err != nil {
 		log.Errorf("eos producer txn error: %v", err)
 		return err
diff --git a/streams/event_source.go b/streams/event_source.go
index 5c82f16..75730f1 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -279,6 +279,8 @@ func (es *EventSource[T]) ForkRunStatus() sak.RunStatus {
 // If you are using an IncrementalGroupRebalancer, this can be used as a force quit.
 func (es *EventSource[T]) StopNow() {
 	es.runStatus.Halt()
+	// the next owners of our partitions start at what is committed once we have left the group
+	es.consumer.producerPool.halt()
 	es.consumer.stop()
 	es.signalDone()
 }
-- 
2.43.0


From e7371db1204902b9ed890581887042080c0917fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 27/41] fix: metrics neither block nor panic when nobody takes
 them

---
 streams/eos_producer.go    |  4 ++--
 streams/event_source.go    | 11 ++++++++---
 streams/source_consumer.go |  4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index b8c4b24..e3f05a2 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -461,7 +461,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
 	if p.metrics != nil && p.produceCnt > 0 {
-		p.metrics <- Metric{
+		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -472,7 +472,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(p.byteCount),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	p.produceCnt = 0
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 75730f1..6706e92 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -118,9 +118,14 @@ func (es *EventSource[T]) closeOnFail() {
 }
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
-	if es.metrics != nil {
+	emitMetric(es.metrics, m)
+}
+
+// Drops the metric if the channel is full.
+func emitMetric(metrics chan Metric, m Metric) {
+	if metrics != nil {
 		select {
-		case es.metrics <- m:
+		case metrics <- m:
 		default:
 			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
 		}
@@ -140,7 +145,7 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
+			// the channel is not closed: transactions may still be finishing, and the application may call EmitMetric
 			return
 		}
 	}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index da69e8e..f08f5eb 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -203,7 +203,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
 			sc.incrBalancer.PartitionPrepared(tp)
 			if sc.metrics != nil {
-				sc.metrics <- Metric{
+				emitMetric(sc.metrics, Metric{
 					Operation:      PartitionPreppedOperation,
 					StartTime:      start,
 					EndTime:        time.Now(),
@@ -212,7 +212,7 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 					Count:          int(processed),
 					Bytes:          int(ssp.processedBytes()),
 					GroupId:        sc.source.GroupId(),
-				}
+				})
 			}
 		}()
 	}
-- 
2.43.0


From c38a6442d289ef6c2395bafad40491c9cc19a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 28/41] fix: use the configured DeserializationErrorHandler

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 236c86b..5b726c9 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -148,7 +148,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
-- 
2.43.0


From 612cfd6040254c9ff99cee1d87811709c8ca1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 29/41] fix: fail the consumer if the
 DeserializationErrorHandler demands it

---
 streams/event_source.go | 13 ++++++++++---
 streams/source.go       |  7 +++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 6706e92..3e84357 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -377,7 +377,7 @@ func (es *EventSource[T]) handleEvent(ctx *EventContext[T], record IncomingRecor
 // Registers eventType with a transformer (usuall a codec.Codec) with the supplied EventProcessor.
 // Must not be called after `EventSource.ConsumeEvents()`
 func RegisterEventType[T StateStore, V any](es *EventSource[T], transformer IncomingRecordDecoder[V], eventProcessor EventProcessor[T, V], eventType string) {
-	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler())
+	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler(), es.source.fail)
 	if es.rootProcessor == nil {
 		es.rootProcessor, es.tailProcessor = ep, ep
 	} else {
@@ -411,27 +411,34 @@ type eventProcessorExecutor[T any, V any] struct {
 	process                    EventProcessor[T, V]
 	decode                     IncomingRecordDecoder[V]
 	handleDeserializationError DeserializationErrorHandler
+	fail                       func(error)
 }
 
 func (epe *eventProcessorExecutor[T, V]) Exec(ec *EventContext[T], record IncomingRecord) ExecutionState {
 	if event, err := epe.decode(record); err == nil {
 		return epe.process(ec, event)
 	} else {
-		if epe.handleDeserializationError(ec, record.RecordType(), err) == Continue {
+		switch epe.handleDeserializationError(ec, record.RecordType(), err) {
+		case Continue:
 			return Complete
+		case FatallyExit:
+			panic(err)
 		}
+		// the event is never completed, so nothing from here on is committed
+		epe.fail(err)
 		return Incomplete
 	}
 }
 
 func newEventProcessorWrapper[T any, V any](eventType string, decoder IncomingRecordDecoder[V],
-	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler) *eventProcessorWrapper[T] {
+	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler, fail func(error)) *eventProcessorWrapper[T] {
 	return &eventProcessorWrapper[T]{
 		eventType: eventType,
 		eventExecutor: &eventProcessorExecutor[T, V]{
 			process:                    eventProcessor,
 			decode:                     decoder,
 			handleDeserializationError: deserializationErrorHandler,
+			fail:                       fail,
 		},
 	}
 }
diff --git a/streams/source.go b/streams/source.go
index 5b726c9..07517c6 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -108,7 +108,7 @@ type Source struct {
 }
 
 func newSource(config EventSourceConfig) *Source {
-	return &Source{state: uint64(Healthy), config: config, failure: make(chan error)}
+	return &Source{state: uint64(Healthy), config: config, failure: make(chan error, 1)}
 }
 
 // A convenience method for creating a [Destination] form your Source. Can be used for creating a [Producer] or [BatchProducer] which publishes to your [EventSource].
@@ -168,7 +168,10 @@ func (s *Source) State() EventSourceState {
 
 func (s *Source) fail(err error) {
 	atomic.StoreUint64(&s.state, uint64(Unhealthy))
-	s.failure <- err
+	select {
+	case s.failure <- err:
+	default: // failing already
+	}
 }
 
 func (s *Source) Topic() string {
-- 
2.43.0


From 036d375c69bddf78ccba090be9d3de0df4017ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 30/41] fix: BatchProducer completes events whose batch is
 empty

---
 streams/producer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..9cc968b 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -162,6 +162,11 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 }
 
 func (p *BatchProducer[S]) produceBatch(b *produceBatcher[S]) {
+	if len(b.records) == 0 && b.callback != nil {
+		// nothing will be produced, so no record will ever complete the batch
+		b.ctx.AsyncJobComplete(b.executeCallback)
+		return
+	}
 	for _, record := range b.records {
 		if len(record.kRecord.Topic) == 0 {
 			record = record.WithTopic(p.destination.DefaultTopic)
-- 
2.43.0


From 3b0dd283379e2a3797d2b8b9ee2678532eb32f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 31/41] fix: a transaction beyond MaxBatchSize accepts no
 further events

---
 streams/eos_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index e3f05a2..0d95c7d 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -207,7 +207,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From 6e66c3b273d827a5bced927f59aa05b8ebba3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 32/41] fix: CreateSource returns errors that are not network
 errors

---
 streams/topics.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..e61486b 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -194,9 +194,8 @@ func isNetworkError(err error) bool {
 	if errors.As(err, &opError) {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
-	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
 	}
+	log.Errorf("non network error: %v", err)
 	return false
 }
 
-- 
2.43.0


From 90eb3ba56f3e23ed5b55f83e150a22997a3af51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 33/41] fix: CreateSource reports topics it could not create,
 and resolves those created by others

---
 streams/topics.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index e61486b..4608cab 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,15 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, r := range res {
+		if r.Err != nil {
+			return r.Err
+		}
+	}
+	return nil
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
@@ -216,7 +225,8 @@ func CreateSource(sourceConfig EventSourceConfig) (resolved *Source, err error)
 	source := newSource(sourceConfig)
 	for retryCount := 0; retryCount < 15; retryCount++ {
 		resolved, err = createSource(source)
-		if isNetworkError(err) {
+		// if a topic has been created by another process in the meantime, we need to resolve again
+		if isNetworkError(err) || errors.Is(err, kerr.TopicAlreadyExists) {
 			time.Sleep(time.Second)
 		} else {
 			break
-- 
2.43.0


From 103c008b660b35beadd3d14bc9b827612d6bc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 34/41] fix: MinInSync defaults to 1

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 07517c6..1e736d9 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -217,7 +217,7 @@ func (s *Source) stateCluster() Cluster {
 
 func minInSyncConfig(source *Source) int {
 	factor := replicationFactorConfig(source)
-	if factor <= 1 {
+	if factor <= 1 || source.config.MinInSync <= 0 {
 		return 1
 	}
 	if source.config.MinInSync >= int(factor) {
-- 
2.43.0


From 7a54b2917dbe402d9bac71d2f38f23c2ef9579b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 35/41] fix: CreateDestination creates the topic, once, and
 reports failures

---
 streams/topics.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index 4608cab..514eb6b 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -155,14 +155,18 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	adminClient := kadm.NewClient(client)
+	minInSync := fmt.Sprintf("%d", sak.Max(destination.MinInSync, 1))
+	err = createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
+		"min.insync.replicas": sak.Ptr(minInSync),
+	}, destination.DefaultTopic)
+	if errors.Is(err, kerr.TopicAlreadyExists) {
+		err = nil
+	}
 	return destination, err
 }
 
@@ -171,6 +175,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
-- 
2.43.0


From 2ae53f110de8fb7808e7d092992150d7eb8e12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 36/41] fix: SaslIam authenticates with the credentials
 retrieved

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..7b93f35 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -168,7 +168,7 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From 3c1a24349afa30c4575d199d30ffb936bb7c9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 37/41] fix: MskCluster connects to the cluster of exactly the
 given name

---
 msk/cluster.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 7b93f35..c3c96d2 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -216,21 +216,30 @@ func (c *MskCluster) getBootstrapBrokers() (brokers []string, err error) {
 }
 
 func (c *MskCluster) getClusterArn() (arn string, err error) {
-	var res *kafka.ListClustersOutput
-	if res, err = c.client.ListClusters(context.TODO(), &kafka.ListClustersInput{
+	input := &kafka.ListClustersInput{
 		ClusterNameFilter: aws.String(c.clusterName),
-	}); err != nil {
-		return
-	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
 	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
-		return
+	for {
+		var res *kafka.ListClustersOutput
+		if res, err = c.client.ListClusters(context.TODO(), input); err != nil {
+			return
+		}
+		for _, ci := range res.ClusterInfoList {
+			// ClusterNameFilter is a prefix, there may be other clusters which match
+			if aws.ToString(ci.ClusterName) != c.clusterName {
+				continue
+			}
+			if ci.ClusterArn == nil {
+				err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+				return
+			}
+			arn = *ci.ClusterArn
+			return
+		}
+		if len(aws.ToString(res.NextToken)) == 0 {
+			err = fmt.Errorf("cluster not found: %s", c.clusterName)
+			return
+		}
+		input.NextToken = res.NextToken
 	}
-	arn = *ci.ClusterArn
-	return
 }
-- 
2.43.0


From 52b565ed33f2fed56f8021501f6131a98c26aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 38/41] fix: report a partition assigned before it can be
 reported activated

---
 streams/source_consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index f08f5eb..ec586b8 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -242,6 +242,8 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
+	// notify observers. a partition may be activated as soon as its worker exists
+	sc.source.onPartitionsAssigned(partitions)
 	for _, p := range partitions {
 		tp := TopicPartition{Partition: p, Topic: topic}
 		store := sc.partitionedStore.assign(p)
@@ -272,8 +274,6 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	if sc.incrBalancer != nil { // nil if BalanceStrategies does not include IncrementalBalanceStrategy
 		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
 	}
-	// notify observers
-	sc.source.onPartitionsAssigned(partitions)
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-- 
2.43.0


From 220a952619a4ccd25bcc43c37d7aee926a870c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 39/41] fix: answer interjections when the producers have
 stopped

---
 streams/eos_producer.go     | 30 ++++++++++++++++++++++++++----
 streams/partition_worker.go |  2 ++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 0d95c7d..006720f 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -118,6 +118,7 @@ type eosProducerPool[T StateStore] struct {
 	errorChannel      chan error
 	commitClient      *kgo.Client
 	commitGate        *commitGate
+	closed            chan struct{} // closed once there will be no more commits
 }
 
 func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, cfg EosConfig, commitClient *kgo.Client, metrics chan Metric) *eosProducerPool[T] {
@@ -131,6 +132,7 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 		source:            source,
 		commitClient:      commitClient,
 		commitGate:        &commitGate{},
+		closed:            make(chan struct{}),
 		partitionOwners: partitionOwners[T]{
 			owners: make(map[int32]*producerNode[T]),
 			mux:    new(sync.Mutex),
@@ -174,7 +176,7 @@ func (pp *eosProducerPool[T]) maxPendingItems() int {
 }
 
 func (pp *eosProducerPool[T]) doForwardExecutionContexts(ec *EventContext[T]) {
-	if ec.isRevoked() {
+	if ec.isRevoked() || pp.isClosed() {
 		// if we're revoked, don't even add this to the onDeck producer
 		ec.producerChan <- nil
 		ec.revocationWaiter.Done()
@@ -214,15 +216,18 @@ func (pp *eosProducerPool[T]) tryFlush() {
 	if pp.shouldForceFlush() {
 		// the onDeck producer is full
 		// force a swap, blocking until successful
-		pp.commitQueue <- pp.onDeck
-		pp.onDeck = <-pp.producerNodeQueue
+		select {
+		case pp.commitQueue <- pp.onDeck:
+			pp.nextOnDeck()
+		case <-pp.closed:
+		}
 	} else if pp.onDeck.eventContextCnt > 0 {
 		// the committing channel is full, reset the purge timer
 		// to push any lingering items.
 		select {
 		// try to swap so we can commit as fast as possible
 		case pp.commitQueue <- pp.onDeck:
-			pp.onDeck = <-pp.producerNodeQueue
+			pp.nextOnDeck()
 		default:
 			// we have pending items, try again in 5ms
 			// if new items come in during this interval, this timer may get reset
@@ -236,7 +241,24 @@ func (pp *eosProducerPool[T]) tryFlush() {
 
 }
 
+func (pp *eosProducerPool[T]) nextOnDeck() {
+	select {
+	case pp.onDeck = <-pp.producerNodeQueue:
+	case <-pp.closed: // no producer is ever going to be returned
+	}
+}
+
+func (pp *eosProducerPool[T]) isClosed() bool {
+	select {
+	case <-pp.closed:
+		return true
+	default:
+		return false
+	}
+}
+
 func (pp *eosProducerPool[T]) commitLoop() {
+	defer close(pp.closed)
 	for {
 		var err error
 		select {
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 7a1ff22..668e12f 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -170,6 +170,8 @@ func (pw *partitionWorker[T]) pushRecords() {
 			pw.scheduleInterjection(ij)
 		case <-pw.runStatus.Done():
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
+			// answer right away, our accepted events may never finish if we're halted
+			pw.dropInterjections()
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
 			// partitionInput is not closed: the consumer may still be in the process of adding to it
-- 
2.43.0


From 6b9f626275710f4cdacfee4349a805b796bccb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 40/41] fix: handle events and interjections in the order of
 their producers

---
 streams/partition_worker.go | 60 +++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 668e12f..ffa8c50 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -59,25 +59,24 @@ func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
 }
 
 type partitionWorker[T StateStore] struct {
-	eosProducer            *eosProducerPool[T]
-	partitionInput         chan []*kgo.Record
-	maxPending             chan struct{}
-	interjectionInput      chan *interjection[T]
-	eventInput             chan *EventContext[T]
-	interjectionEventInput chan *EventContext[T]
-	asyncCompleter         asyncCompleter[T]
-	stopSignal             chan struct{}
-	revokedSignal          chan struct{}
-	stopped                chan struct{}
-	closed                 chan struct{}
-	changeLog              changeLogPartition[T]
-	eventSource            *EventSource[T]
-	runStatus              sak.RunStatus
-	ready                  int64
-	highestOffset          int64
-	lastStalePoll          int64 // what was polled up to here belongs to a previous assignment of this partition
-	topicPartition         TopicPartition
-	revocationWaiter       sync.WaitGroup
+	eosProducer       *eosProducerPool[T]
+	partitionInput    chan []*kgo.Record
+	maxPending        chan struct{}
+	interjectionInput chan *interjection[T]
+	eventInput        chan *EventContext[T]
+	asyncCompleter    asyncCompleter[T]
+	stopSignal        chan struct{}
+	revokedSignal     chan struct{}
+	stopped           chan struct{}
+	closed            chan struct{}
+	changeLog         changeLogPartition[T]
+	eventSource       *EventSource[T]
+	runStatus         sak.RunStatus
+	ready             int64
+	highestOffset     int64
+	lastStalePoll     int64 // what was polled up to here belongs to a previous assignment of this partition
+	topicPartition    TopicPartition
+	revocationWaiter  sync.WaitGroup
 }
 
 func newPartitionWorker[T StateStore](
@@ -107,12 +106,11 @@ func newPartitionWorker[T StateStore](
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
 		},
-		partitionInput:         make(chan []*kgo.Record, 4),
-		eventInput:             make(chan *EventContext[T], recordsInputSize),
-		interjectionInput:      make(chan *interjection[T], 1),
-		interjectionEventInput: make(chan *EventContext[T], 1),
-		runStatus:              eventSource.runStatus.Fork(),
-		highestOffset:          -1,
+		partitionInput:    make(chan []*kgo.Record, 4),
+		eventInput:        make(chan *EventContext[T], recordsInputSize),
+		interjectionInput: make(chan *interjection[T], 1),
+		runStatus:         eventSource.runStatus.Fork(),
+		highestOffset:     -1,
 	}
 
 	go pw.work(pw.eventSource.interjections, waiter, commitLog)
@@ -237,7 +235,9 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	ec := newInterjectionContext(pw.runStatus.Ctx(), inter, pw.topicPartition, pw.changeLog.changeLogData(), pw)
 	pw.maxPending <- struct{}{}
 	pw.eosProducer.addEventContext(ec)
-	pw.interjectionEventInput <- ec
+	// events and interjections must be handled in the order their producers are assigned.
+	// otherwise we could be waiting for a producer which is not available before the other one is done
+	pw.eventInput <- ec
 }
 
 func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
@@ -270,9 +270,11 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	for {
 		select {
 		case ec := <-pw.eventInput:
-			pw.handleEvent(ec)
-		case ec := <-pw.interjectionEventInput:
-			pw.handleInterjection(ec)
+			if ec.IsInterjection() {
+				pw.handleInterjection(ec)
+			} else {
+				pw.handleEvent(ec)
+			}
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
 		case <-pw.stopSignal:
-- 
2.43.0


From e16eb4f22ac85e973561c539e417187a2c98461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 41/41] fix: assigning partitions without an owner does not use
 up the budget for moves

It left a group unbalanced, or a member that wanted to leave waiting forever, until the next rebalance. Requesting
another rebalance after every assignment (as we did since df6a37d) never ends if a member also supports an eager
balancer: it has all its partitions assigned anew in every rebalance.
---
 streams/group_state.go     |  5 ++---
 streams/incr_rebalancer.go | 12 ++++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index 4943df8..f8620ed 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -235,9 +235,6 @@ func (gs groupState) assignToActiveMember(partition int32, recipient *incrGroupM
 	recipient.meta.Ready = withoutPartition(recipient.meta.Ready, partition)
 	recipient.instructions.Prepare = withoutPartition(recipient.instructions.Prepare, partition)
 	gs.activeMembers.ReplaceOrInsert(recipient)
-
-	gs.inReceivership.ReplaceOrInsert(partition)
-	gs.inTransition.ReplaceOrInsert(partition)
 }
 
 func (gs groupState) instructActiveMemberToPrepareFor(partition int32, recipient *incrGroupMember) {
@@ -296,6 +293,8 @@ func (gs groupState) deliverScheduledPartitionMoves() {
 		if donor, ok := gs.assigned[partition]; ok {
 			gs.unassignFromDonor(partition, donor)
 			gs.assignToActiveMember(partition, recipient)
+			gs.inReceivership.ReplaceOrInsert(partition)
+			gs.inTransition.ReplaceOrInsert(partition)
 		}
 	}
 }
diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 4df3258..78a662b 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -322,12 +322,16 @@ func (ir *incrementalRebalancer) PartitionPreparationFailed(tp TopicPartition) {
 func (ir *incrementalRebalancer) PartitionsAssigned(tps ...TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
+	rebalance := false
 	for _, tp := range tps {
-		ir.preparing.Remove(tp)
-		ir.ready.Remove(tp)
+		if ir.preparing.Remove(tp) {
+			rebalance = true
+		}
+		if ir.ready.Remove(tp) {
+			rebalance = true
+		}
 	}
-	if len(tps) > 0 {
-		// prepared or not, assigned partitions used up the budget of this rebalance. there may be more to move
+	if rebalance {
 		go ir.client().ForceRebalance()
 	}
 }
-- 
2.43.0

