SMC = 'stateless model checking of the real code: enumeration of schedules, clock steps and environment answers under a controlled scheduler'
ENUM = 'exhaustive enumeration of operation sequences on the real code, compared with a reference model at every step'
BFS = 'explicit-state search: all reachable group states under the real balancing code'
NOTE = 'Every execution of the listed closed systems with at most the stated number of departures from the default schedule; systems have 1-3 partitions, 1-3 producers and up to 6 events.'

PROPS = [
dict(id='C01', title='Exactly-once: outputs, state changes and offsets commit atomically',
 statement='What a read-committed reader can see is, at every moment, exactly the effect of the events below the committed offset of each input partition: every output record and state change of every such event, each exactly once, and nothing of any other event. This holds through a crash of the process at any point and its replacement by another process.',
 over=['schedules', 'crash_points', 'histories'],
 quant='For every input, every interleaving of consumer, partition workers, producer pool and broker acknowledgements, and a crash at every step.',
 why='The tests check a handful of end-to-end runs against a live broker (skipped without one) or call single functions; they never crash the process and see one schedule each.',
 files=['streams/eos_producer.go', 'streams/event_context.go', 'streams/partition_worker.go', 'streams/commit_log.go', 'streams/source_consumer.go'],
 mech=[('event contexts added to a producer before anything of them is produced', 'streams/eos_producer.go:addEventContext'), ('offset record written into the same transaction after all outputs', 'streams/eos_producer.go:commit'), ('restart from the commit log', 'streams/commit_log.go:Watermark')],
 technique=SMC, note=NOTE),
dict(id='C02', title='Committed offsets never overtake unfinished events and never go back',
 statement='The committed offset of an input partition only ever covers events whose processing is complete, asynchronous parts included. It never moves backwards and never passes the end of the input, and a replacement process starts exactly there.',
 over=['schedules', 'crash_points', 'histories'],
 quant='For every completion order of asynchronous events, every distribution of events over pooled transactions, every crash point.',
 why='The tests complete events in one order; an offset that overtakes needs a late completion, or two transactions whose order flips.',
 files=['streams/eos_producer.go', 'streams/partition_worker.go', 'streams/commit_log.go', 'streams/event_context.go'],
 mech=[('a transaction waits for all its events', 'streams/eos_producer.go:commit'), ('transactions commit in the order they were started', 'streams/eos_producer.go:commitLoop'), ('highest offset of a transaction', 'streams/eos_producer.go:commit')],
 technique=SMC, note=NOTE),
dict(id='C03', title='Outputs of a partition appear in the order they were forwarded',
 statement='The records one input partition forwards to one output partition become visible in the order they were forwarded within a transaction, and transactions of a partition become visible in the order of their input. Pooling producers must not reorder them.',
 over=['schedules', 'histories'],
 quant='For every interleaving of pooled producers, commits and partition hand-over between producers.',
 why='With a real broker the transactions of the pool nearly always finish in the order started; the tests do not steer it.',
 files=['streams/eos_producer.go', 'streams/partition_worker.go'],
 mech=[('a partition stays with one producer until that one must commit', 'streams/eos_producer.go:producerNode'), ('commits are serialised in order', 'streams/eos_producer.go:commitLoop')],
 technique=SMC, note=NOTE),
dict(id='C04', title='The producer pool always makes progress',
 statement='For every legal pool, batch and delay setting, every event that was accepted is committed within bounded time without further input, provided the broker answers. No setting or timing makes the pool stop or lose a producer, and no transaction covers more events than MaxBatchSize.',
 over=['schedules', 'configurations'],
 quant='For every schedule of the pool, its timers and the broker, over pool sizes 1-3, pending transactions 1-2, target and maximum batch sizes 1-4.',
 why='A lost wake-up or a lost producer needs one particular order of timer, completion and commit; the tests run one.',
 files=['streams/eos_producer.go', 'streams/eos_config.go', 'streams/partition_worker.go'],
 mech=[('producers return to the queue after commit', 'streams/eos_producer.go:commitLoop'), ('forced flush', 'streams/eos_producer.go:shouldForceFlush'), ('timed flush', 'streams/eos_producer.go:forwardExecutionContexts')],
 technique=SMC, note=NOTE),
dict(id='C05', title='Revoking a partition finishes accepted work and stops cleanly',
 statement='When a partition is revoked at any moment, no event of it is handled with a state store that has been revoked, what was handled completely before is still committed, and nothing of it is handled afterwards. The process survives, its other partitions go on, and the partition can be assigned to it again.',
 over=['schedules', 'histories'],
 quant='For a revocation at every point of a run, every interleaving with fetching, handling, asynchronous completion, committing.',
 why='The tests never revoke a partition while it is being worked on.',
 files=['streams/partition_worker.go', 'streams/source_consumer.go', 'streams/partitioned_store.go'],
 mech=[('revocation', 'streams/source_consumer.go:revokePartitions'), ('worker shutdown', 'streams/partition_worker.go:pushRecords'), ('store release', 'streams/partitioned_store.go:revoke')],
 technique=SMC, note=NOTE),
dict(id='C06', title='A partition moves between processes without loss or duplication',
 statement='When a partition moves from one process to another at any moment, every event of it takes effect exactly once, and the new owner starts with the state store the committed events produce.',
 over=['schedules', 'histories'],
 quant='For a move at every point of a run and every interleaving of both processes.',
 why='Needs two processes and a hand-over in the middle of transactions in flight; the tests use one process.',
 files=['streams/partition_worker.go', 'streams/source_consumer.go', 'streams/state_store_consumer.go', 'streams/commit_log.go'],
 mech=[('sync marker in the commit log', 'streams/commit_log.go:syncAll'), ('sync marker in the change log', 'streams/state_store_consumer.go:sync'), ('revocation waits for the worker', 'streams/source_consumer.go:revokePartitions')],
 technique=SMC, note=NOTE),
dict(id='C07', title='A state store is complete, current and exclusive before its partition is used',
 statement='Before the first event of an assigned partition is handled, its state store holds exactly the result of replaying the committed change log of the partition: all changes, in order, none of an aborted transaction. This holds whether the partition was prepared beforehand or not, and whatever order Prepare, Forget, assignment and revocation arrive in while replay is under way. Once the partition is active no replayed change is applied to the store any more, a store of a forgotten preparation is never used again, and the bootstrap always ends, also when single fetches fail.',
 over=['schedules', 'histories'],
 quant='For every interleaving of replay, marker, preparation, cancellation, assignment and revocation, with a live or a dead previous owner.',
 why='The tests bootstrap one partition once; a stale preparation or two overlapping replays need instructions to arrive in the middle of a replay.',
 files=['streams/state_store_consumer.go', 'streams/source_consumer.go', 'streams/partitioned_store.go', 'streams/partition_worker.go'],
 mech=[('replay up to the marker', 'streams/state_store_consumer.go:sync'), ('preparation', 'streams/source_consumer.go:PrepareTopicPartition'), ('cancelled preparation', 'streams/source_consumer.go:ForgetPreparedTopicPartition'), ('store per partition', 'streams/partitioned_store.go:assign')],
 technique=SMC, note=NOTE),
dict(id='C08', title='Per partition: each event handled in order, once, by one goroutine at a time',
 statement='An event source delivers the events of a partition to application code in offset order, without gaps or repeats while the partition stays assigned, starting at the committed offset. Offsets without records (compaction, control records) are skipped; a partition whose fetch fails costs none of the records that come with it. Handlers, interjections and asynchronous finalizers of one partition never run concurrently, with each event carrying its own key, value, offset and the store of its partition.',
 over=['schedules', 'histories', 'inputs'],
 quant='For every interleaving of fetching, pausing, handling, asynchronous completion, interjection, revocation, crash and restart, and every fetch size.',
 why='Two goroutines in the handlers of one partition at the same time, or a stale fetch delivered twice, show only in rare interleavings that a test does not produce at will.',
 files=['streams/partition_worker.go', 'streams/source_consumer.go', 'streams/commit_log.go', 'streams/interjection.go', 'streams/event_context.go'],
 mech=[('one goroutine per partition runs all application code', 'streams/partition_worker.go:work'), ('fetched records handed to their worker', 'streams/source_consumer.go:receive'), ('stale records dropped', 'streams/partition_worker.go:scheduleTxnAndExecution')],
 technique=SMC, note=NOTE),
dict(id='C09', title='Interjections run inside the transaction stream and always answer',
 statement='An interjection runs with the store of its active partition, between events, and its outputs and changes are committed exactly once. Scheduled interjections keep being called at their interval (within the jitter) as long as the partition is assigned, and never overlap themselves. Interject, InterjectAll and InterjectAllSync always return: after the interjection has run, or with an error or callback if the partition is missing, revoked or halted.',
 over=['schedules', 'histories'],
 quant='For every interleaving of interjections with events, asynchronous completion, assignment, revocation and halt, and every firing time of the timers within bounds.',
 why='Interjections race with every other activity of the partition through timers; the tests use none of these schedules.',
 files=['streams/interjection.go', 'streams/partition_worker.go', 'streams/source_consumer.go', 'streams/event_source.go'],
 mech=[('timer of a scheduled interjection', 'streams/interjection.go:tick'), ('one-off interjections', 'streams/source_consumer.go:interject'), ('interjection handling in the worker', 'streams/partition_worker.go:handleInterjection')],
 technique=SMC, note=NOTE),
dict(id='C10', title='AsyncJobScheduler: per key order, exactly one processor and finalizer call',
 statement='For every job scheduled, the processor and then the finalizer are called exactly once, with the key, input and result of that job. Jobs of one key are processed one after another in the order they were scheduled; their finalizers follow. Different keys may run concurrently.',
 over=['schedules', 'configurations'],
 quant='For every interleaving of scheduling goroutines, workers and finalizers, over key sequences with repeats and small concurrency, queue depth and key limits.',
 why='The existing test schedules one workload once; a broken hand-over between the end of one job and the arrival of the next needs an exact interleaving.',
 files=['streams/async_scheduler.go', 'streams/async_item_queue.go', 'streams/event_context.go', 'streams/partition_worker.go'],
 mech=[('per key queue', 'streams/async_item_queue.go:asyncItemQueue'), ('drain of a key', 'streams/async_scheduler.go:process'), ('completion handed to the worker', 'streams/event_context.go:AsyncJobComplete')],
 technique=SMC, note='Every schedule with at most the stated number of departures from the default one; up to 6 jobs, 3 keys, 2 workers.'),
dict(id='C11', title='AsyncJobScheduler: never stuck, bounded, resizable, stops cleanly',
 statement='At most Concurrency processors run at the same time and at most MaxConcurrentKeys keys are active, and under every sequence of resizing and queue depth changes every scheduled job still finishes and Schedule returns. When the scheduler is halted, blocked callers of Schedule are released, later calls return at once, and no worker is left behind. A full scheduler delays an event handler but never deadlocks its partition.',
 over=['schedules', 'histories', 'configurations'],
 quant='For every interleaving of Schedule, worker steps, resizing and halting, over small limits.',
 why='Lost wake-ups and stuck callers appear only when a limit is reached in the same instant another goroutine releases it.',
 files=['streams/async_scheduler.go', 'streams/partition_worker.go'],
 mech=[('limit on keys', 'streams/async_scheduler.go:grabWorker'), ('resize', 'streams/async_scheduler.go:SetMaxConcurrentKeys'), ('shutdown', 'streams/async_scheduler.go:Schedule')],
 technique=SMC, note='Every schedule with at most the stated number of departures from the default one; up to 6 jobs, 3 keys, 2 workers.'),
dict(id='C12', title='AsyncBatcher: every item in exactly one batch, events complete in order',
 statement='Each item added is given to the batch executor in exactly one batch, of its own executor kind, with at most the configured maximum of items, and per key in the order added; a key is in at most one executing batch at a time, and concurrent batches stay within the configured maximum. No item waits longer than the configured delay for its batch while an executor is free. The callback of an event runs once, after all its items are done, and events of one key complete in order, including those without items.',
 over=['schedules', 'histories', 'configurations'],
 quant='For every interleaving of adds, timers and batch completions, over key sequences with repeats, batch sizes, pending limits and delays.',
 why='The tests run a few workloads and count results; order and exclusiveness per key need the batch to end in the instant the next item of the key arrives.',
 files=['streams/async_batcher.go', 'streams/partition_worker.go'],
 mech=[('batch assembly', 'streams/async_batcher.go:addToExecutor'), ('pending per key', 'streams/async_batcher.go:asyncExecutorFor'), ('flush timer', 'streams/async_batcher.go:flushPendingItems')],
 technique=SMC, note='Every schedule with at most the stated number of departures from the default one; up to 6 items, 3 keys, 2 executors.'),
dict(id='C13', title='Incremental rebalancer: one owner per partition, no move without preparation',
 statement='Under the incremental rebalancer every rebalance of a group gives each partition to at most one member, never to another member while its present owner has not let go of it, and at once to some member, one that prepared for it if there is one, when it has no owner. A partition with an owner is taken away only for an active member that has reported it prepared, at most one such move is under way at a time, and a leaving member is given nothing. A member carries out every instruction once, and is told that it may leave only when it owns nothing.',
 over=['histories', 'schedules', 'crash_points'],
 quant='For every reachable state of a group: joins, graceful leaves, crashes and preparation failures before, during and after any rebalance, late reports, every random choice.',
 why='There are no tests of the balancer with state stores; unsafe plans come from states that need a member to crash or leave in the middle of a move.',
 files=['streams/incr_rebalancer.go', 'streams/group_state.go', 'streams/source_consumer.go'],
 mech=[('group state from the metadata of all members', 'streams/group_state.go:newGroupState'), ('unowned partitions', 'streams/group_state.go:distributeUnassigned'), ('moves', 'streams/group_state.go:deliverScheduledPartitionMoves'), ('instructions', 'streams/incr_rebalancer.go:ParseSyncAssignment')],
 technique=BFS + '; ' + SMC, note='States are restored through the public API and compared with their metadata; every random pick, map orders with at most one departure. Whole applications: schedules with at most the stated number of departures.'),
dict(id='C14', title='Incremental rebalancer: groups settle, balanced, and leavers get away',
 statement='After any history of joins, graceful leaves, crashes and failed preparations, a group using the incremental rebalancer stops rebalancing after finitely many rounds without outside help. Then every partition has exactly one owner, members own the same number give or take one, nobody keeps a preparation, and each member that asked to leave has handed over all its partitions, is done and gone. Applications go on consuming all the time.',
 over=['histories', 'schedules', 'crash_points'],
 quant='For every reachable state of a group, every continuation without outside events ends in a good state.',
 why='Convergence is a property of infinite histories; a group stuck with a blocked move needs a particular crash or leave in a particular round.',
 files=['streams/incr_rebalancer.go', 'streams/group_state.go', 'streams/source_consumer.go', 'streams/event_source.go'],
 mech=[('choice of moves', 'streams/group_state.go:schedulePartitionMoves'), ('imbalance', 'streams/group_state.go:isImbalanced'), ('further rebalances', 'streams/incr_rebalancer.go:PartitionsAssigned'), ('graceful leave', 'streams/source_consumer.go:leave')],
 technique=BFS + ' (deadlock and cycle search); ' + SMC, note='States are restored through the public API and compared with their metadata; every random pick, map orders with at most one departure. Whole applications: schedules with at most the stated number of departures.'),
dict(id='C15', title='Stopping, failing and exiting end a consumer cleanly and lose nothing',
 statement='After Stop (or WaitForChannel or WaitForSignals, which call it), at any moment, everything handled is committed, the consumer leaves its group, then Done fires for everyone waiting, and nothing is handled any more. StopNow and a transaction or deserialization failure answered with FailConsumer end the same way, save that unfinished work is left to the next owner; the failed transaction is never committed without its failed records and the state is Unhealthy, FatallyExit panics, and no failure is ignored. A rejected record answered with Continue is the only thing lost. Whoever takes over completes all events exactly once.',
 over=['schedules', 'crash_points', 'faults', 'histories'],
 quant='For every point at which Stop or StopNow is called, every request of a transaction that fails, before or after it takes effect, every schedule.',
 why='The tests never let a transaction fail, and stop an event source at one quiet moment with one goroutine waiting.',
 files=['streams/event_source.go', 'streams/source_consumer.go', 'streams/eos_producer.go', 'streams/source.go'],
 mech=[('stop and leave', 'streams/source_consumer.go:leave'), ('immediate stop', 'streams/source_consumer.go:stop'), ('failure reports', 'streams/source.go:fail'), ('end of an event source', 'streams/event_source.go:Done'), ('failed transactions', 'streams/eos_producer.go:commit')],
 technique=SMC, note=NOTE + ' The broker rejects a record, a batch, or the end of a transaction at most once per execution.'),
dict(id='C16', title='Producer and BatchProducer: each record is sent, each outcome reported once',
 statement='Producer.Produce returns and ProduceAsync calls back exactly once, with an error exactly if the record is not in the topic; the records one goroutine produces keep their order; the default topic applies exactly to records without a topic. A BatchProducer calls its callback exactly once per Produce, serially with the events of its partition, with the same records and user data, after each record is produced or has its error; the event is committed only after that. Empty batches too; through revocation and crash no record of a committed event is missing.',
 over=['schedules', 'crash_points', 'faults'],
 quant='For every schedule of callers, broker answers and partition workers, every rejected record or batch, a crash or revocation at every step.',
 why='No test covers the producers; a lost completion needs acknowledgements that arrive in a particular order or an unusual batch.',
 files=['streams/producer.go', 'streams/event_context.go', 'streams/partition_worker.go'],
 mech=[('completion counting', 'streams/producer.go:recordComplete'), ('callback as a finished job', 'streams/producer.go:executeCallback'), ('blocking produce', 'streams/producer.go:Produce'), ('default topic', 'streams/producer.go:ProduceAsync')],
 technique=SMC, note=NOTE),
dict(id='C17', title='Codecs and records give back exactly what was put in; encoded order holds',
 statement='Every codec decodes what it encoded to the same value, whatever was in the buffer before, and LexoInt64Codec encodes in LexInt64Size bytes that compare like the integers, over the whole int64 range. A Record or ChangeLogEntry holds the concatenation of all writes to its key and value, its headers in order, topic, partition and record type; copies of it carry all of these and do not change when the record is reused, and one taken from the pool is blank, with partition AutoAssign. What is forwarded arrives at the consumer unchanged: key, value, headers, type, partition and timestamp.',
 over=['inputs', 'histories'],
 quant='For every value of the codecs over exhaustive ranges and boundary neighbourhoods, every sequence of writes to a record up to a depth, every reuse.',
 why='The tests encode four integers; order, boundary values, invalid UTF-8 and reuse of pooled buffers are not sampled.',
 files=['streams/codec.go', 'streams/record.go', 'streams/commit_log.go', 'streams/eos_producer.go'],
 mech=[('ordered integers', 'streams/codec.go:LexoInt64Codec'), ('record pool', 'streams/record.go:recordPool'), ('copies', 'streams/record.go:ToKafkaRecord'), ('integers', 'streams/commit_log.go:writeSignedIntToByteArray')],
 technique=ENUM + '; ' + SMC, note='Integers: whole ranges around zero and around every power of two; strings over a small alphabet; write sequences up to a depth.'),
dict(id='C18', title='MinMaxHeap is a double-ended priority queue under every operation sequence',
 statement='After any sequence of Push, Update, Remove, Min, Max, PopMin and PopMax, on a heap made from any list, Min and PopMin give an item no other has priority over, Max and PopMax one that has priority over no other, Remove removes exactly the given item, Update makes a changed priority count, Len is the number of items, nothing is lost or duplicated, and looking at Min or Max changes nothing. An empty heap answers nil.',
 over=['histories', 'inputs'],
 quant='For all heaps reachable with a few items, and all heaps of every size up to four or five levels built by pushes, every operation on every item, emptied from either end.',
 why='There is no test of the heap; wrong order arises only for particular shapes of four levels and more, or after particular pairs of operations.',
 files=['streams/stores/min_max_heap.go'],
 mech=[('sift', 'streams/stores/min_max_heap.go:down'), ('bubble', 'streams/stores/min_max_heap.go:up'), ('arbitrary removal', 'streams/stores/min_max_heap.go:remove'), ('item position', 'streams/stores/min_max_heap.go:swap')],
 technique='explicit-state search over the real heap (private state included in the state), compared with a set; exhaustive enumeration of build-up sequences', note='Up to 7 items of 3 priorities to a fixed point; sizes up to 14 (two priorities) with every single operation, more in thorough.'),
dict(id='C19', title='SimpleStore and its change log agree; ShardedTree finds every key again',
 statement='A SimpleStore returns the last value put under a key and nothing after its deletion. Applying the change log entries of Put and Delete, in order, to another store yields the same content at every point; a change that cannot be decoded is reported and changes nothing. A ShardedTree always uses the same tree for a key, one of 2<<exponent trees selected by all of the hash range, and Len is the number of items.',
 over=['histories', 'inputs'],
 quant='For every sequence of operations up to a depth over a few keys and values, both codecs; every residue of the hash for every exponent.',
 why='Replay after a rebalance is not tested at all for these stores; the property is about every history.',
 files=['streams/stores/simple_store.go', 'streams/stores/sharded_tree.go', 'streams/record.go'],
 mech=[('bootstrap', 'streams/stores/simple_store.go:ReceiveChange'), ('tombstone', 'streams/stores/simple_store.go:Delete'), ('shard of a key', 'streams/stores/sharded_tree.go:For')],
 technique=ENUM, note='Sequences of 5 operations over 3 keys and 2 values; exponents up to 8.'),
dict(id='C20', title='sak: lists, pools, run statuses and sets behave as documented',
 statement='sak.List is a doubly linked list under every operation sequence, also with elements of other lists and removed ones; TopicPartitionSet is an ordered set; the numeric and copying helpers are right for all small inputs and extremes, and copies share no memory. A Pool never hands out an object that is in use, resets every released object once, prefers free objects and keeps at most its size. Halting a RunStatus stops it and its descendants and nothing else, and values are inherited.',
 over=['histories', 'inputs', 'schedules'],
 quant='For every sequence of operations up to a depth on small instances.',
 why='These are the building blocks of the producer pool and the schedulers; the tests run fixed sequences.',
 files=['streams/sak/yadll.go', 'streams/sak/pool.go', 'streams/sak/context.go', 'streams/sak/util.go', 'streams/topics.go'],
 mech=[('list', 'streams/sak/yadll.go:move'), ('pool', 'streams/sak/pool.go:Release'), ('run status', 'streams/sak/context.go:Fork'), ('set', 'streams/topics.go:TopicPartitionSet')],
 technique=ENUM + '; ' + SMC, note='Lists of up to 3 elements and 3 operations (4 in thorough), pools of up to 3, trees of up to 7 run statuses.'),
dict(id='C21', title='MskCluster connects to the named cluster, with the chosen authentication',
 statement='MskCluster.Config returns the bootstrap brokers of exactly the cluster with the given name, of the kind its AuthType needs, however many clusters have similar names and however they are paged; TLS as configured; SCRAM-SHA-512 with the user and password, or AWS IAM with the credentials of the moment of each connection, exactly for the types that need them; client options of the caller win. If the cluster, its ARN or its brokers are missing, or a call to AWS fails, it is an error; later calls retry, and AWS is not asked again after success, by concurrent callers neither.',
 over=['inputs', 'faults', 'schedules'],
 quant='For every authentication type, subset of broker lists, order and paging of clusters with similar names, failing call, and schedule of concurrent callers.',
 why='The tests mock one cluster with one broker list and never look at the options that result.',
 files=['msk/cluster.go'],
 mech=[('choice of the cluster', 'msk/cluster.go:getClusterArn'), ('choice of the brokers', 'msk/cluster.go:getBootstrapBrokers'), ('IAM credentials', 'msk/cluster.go:saslIamAuth'), ('cached options', 'msk/cluster.go:Config')],
 technique=ENUM.replace('operation sequences', 'configurations and answers of the AWS API') + '; ' + SMC, note='The AWS API is answered in memory at the HTTP level; the package is compiled against the franz-go version of the streams module (1.8.0 instead of 1.7.1). Five cluster names, up to four of them listed.'),
dict(id='C22', title='CreateSource, CreateDestination: the right topics exist afterwards, or an error',
 statement='CreateSource creates exactly the missing topics among input, commit log and change log, on the right cluster, with the configured or default partitions, replication and min.insync.replicas that can work, logs compacted; it never changes existing topics. The Source it returns agrees with the topics that exist, also when another process creates them at the same time with other settings; a change log that does not fit is an error, as is any refusal, while network failures are retried. CreateDestination does the same for its topic; DeleteSource deletes just these three.',
 over=['configurations', 'faults', 'schedules'],
 quant='For every combination of settings and existing topics, every request or answer lost or refused, every interleaving of two creating processes.',
 why='Topic creation is not tested at all without a broker, with one only in the default configuration.',
 files=['streams/topics.go', 'streams/source.go'],
 mech=[('resolution', 'streams/topics.go:resolveOrCreateTopics'), ('retries', 'streams/topics.go:CreateSource'), ('destination', 'streams/topics.go:createDestination'), ('defaults', 'streams/source.go:minInSyncConfig'), ('deletion', 'streams/topics.go:DeleteSource')],
 technique=ENUM.replace('operation sequences', 'settings, existing topics and faults').replace('compared with a reference model at every step', 'compared with the topics that must result') + '; ' + SMC, note='Topics of up to 7 partitions; at most 3 faults per execution; two processes.'),
dict(id='C23', title='Each record goes to the handler of its type; what cannot be decoded is reported',
 statement='A record whose RecordType equals the type given to RegisterEventType goes to that decoder and handler, the first registered if there are several; all others, those without a type header included, go to the default handler. When a decoder fails, the DeserializationErrorHandler of the configuration is asked, exactly once per delivery, with the event, its type and the error. Continue skips that record and its offset is committed like any other; FailConsumer and FatallyExit fail or exit without committing past it.',
 over=['inputs', 'schedules', 'histories'],
 quant='For every mix of known, unknown, missing and similar types, every answer of the handler, with and without the other handlers configured, every schedule.',
 why='The tests decode well-formed records only; the wiring of the handlers is configuration that no test varies.',
 files=['streams/event_source.go', 'streams/source.go', 'streams/partition_worker.go'],
 mech=[('choice of the handler', 'streams/event_source.go:RegisterEventType'), ('error handlers', 'streams/source.go:deserializationErrorHandler'), ('skipping', 'streams/partition_worker.go:handleEvent')],
 technique=SMC, note=NOTE),
dict(id='C24', title='Other clusters, group offsets and migrations leave exactly-once intact',
 statement='With a StateCluster, the transactions, the commit log and the state stores live there, and nothing but consumption happens on the cluster of the input; a custom StateStoreTopic is used throughout; processes that start on empty clusters at once create the topics and work. With CommitOffsets, offsets are committed on the consumer group only after the transaction that covers them, never ahead of it, and catch up with it; without CommitOffsets, never. A partition without an entry in the commit log starts at the offset its consumer group committed, with one always at that entry.',
 over=['configurations', 'schedules', 'crash_points'],
 quant='For every schedule and crash point of applications with each of these settings.',
 why='The tests that have a broker use one cluster, new groups and the default settings.',
 files=['streams/source_consumer.go', 'streams/eos_producer.go', 'streams/commit_log.go', 'streams/source.go'],
 mech=[('marks', 'streams/eos_producer.go:clearState'), ('start offsets', 'streams/source_consumer.go:adjustOffsetsBeforeAssign'), ('choice of the cluster', 'streams/source.go:stateCluster'), ('commit settings', 'streams/source_consumer.go:newEventSourceConsumer')],
 technique=SMC, note=NOTE),
dict(id='C25', title='Metrics count what was committed and never get in the way',
 statement='The MetricsHandler is called by one goroutine at a time. The records and bytes counted by the metrics of transactions add up to those that were committed, each metric with its topic, group, partitions and times in order; a finished preparation of a partition is reported with what it read. A slow or stuck handler, a full metrics channel, or metrics emitted at any time around or after Stop and StopNow never block or panic; while it runs, queued metrics are not lost.',
 over=['schedules', 'histories'],
 quant='For every schedule of transactions, emitters, the handler and the end of the event source.',
 why='The tests set no MetricsHandler; blocking and panics need a full channel or an emit that races with the end.',
 files=['streams/event_source.go', 'streams/metric.go', 'streams/eos_producer.go'],
 mech=[('emission', 'streams/event_source.go:EmitMetric'), ('delivery', 'streams/event_source.go:emitMetrics'), ('transaction metrics', 'streams/eos_producer.go:commit')],
 technique=SMC, note=NOTE),
dict(id='C26', title='The optional partitioner obeys manual partitions and agrees with Java clients',
 statement='With the optional partitioner a record with a partition set goes to that partition, one without (AutoAssign) to the partition the wrapped partitioner picks: for the default one murmur2 of the key like the Java client, for every key and number of partitions, and the same one for equal keys. Changes of state stores and commit log records therefore always reach the partition they belong to, whatever partitioner the application sets.',
 over=['inputs', 'histories'],
 quant='For all keys up to a length over a boundary alphabet, every number of partitions up to a bound, every mix of manual and automatic records over several topics.',
 why='The test hashes a few keys with one number of partitions; mixtures of manual and automatic records are not tested.',
 files=['streams/record.go', 'streams/eos_producer.go', 'streams/topics.go'],
 mech=[('manual or automatic', 'streams/record.go:OptionalPartitioner'), ('per topic', 'streams/record.go:NewOptionalPerTopicPartitioner'), ('clients of the framework', 'streams/topics.go:NewClient')],
 technique=ENUM, note='Keys up to 6 bytes over boundary alphabets, up to 64 partitions.'),
dict(id='C27', title='A GlobalChangeLog delivers every committed record, from the first, in order',
 statement='Once started, a GlobalChangeLog gives its receiver, one call at a time, every committed record of every partition of its topic, the old ones first, each once and in the order of its partition, and no record of an aborted transaction, whatever errors the receiver returns or single fetches report. After Pause or PauseAllPartitions has taken effect nothing of those partitions is delivered while others go on; ResumePartitionAt goes on with everything from the given offset. After Stop the deliveries end and the client is closed.',
 over=['schedules', 'histories', 'inputs'],
 quant='For every schedule of writers, transactions, fetches, Pause, ResumePartitionAt and Stop.',
 why='The tests never run a GlobalChangeLog of an application; the commit log of the framework and shared reference data depend on it.',
 files=['streams/global_change_log.go', 'streams/commit_log.go'],
 mech=[('delivery', 'streams/global_change_log.go:consume'), ('pause and resume', 'streams/global_change_log.go:ResumePartitionAt'), ('end', 'streams/global_change_log.go:Stop')],
 technique=SMC, note=NOTE),
dict(id='C28', title='The partition callbacks are told the truth, once each and in order',
 statement='For each assignment of a partition OnPartitionAssigned, OnPartitionActivated, OnPartitionWillRevoke and OnPartitionRevoked are called at most once each: activated only after assigned, with the state store complete and before the first event; will-revoke before the store is revoked; revoked after it, with no handler of the partition running or to come, and nothing more of that assignment after it (except after StopNow, when activation may be reported late). A partition that stays assigned gets activated. After Stop, every partition has been reported revoked when Done fires.',
 over=['schedules', 'histories', 'crash_points'],
 quant='For every schedule of assignments, preparations, revocations at any point of a bootstrap or a batch, and stops.',
 why='The callbacks are where applications open and close what belongs to a partition; the tests only look at them in one rebalance with a broker.',
 files=['streams/source_consumer.go', 'streams/source.go', 'streams/partition_worker.go'],
 mech=[('assignment', 'streams/source_consumer.go:assignPartitions'), ('activation', 'streams/partition_worker.go:work'), ('revocation', 'streams/source_consumer.go:revokePartitions'), ('callbacks', 'streams/source.go:executeHandler')],
 technique=SMC, note=NOTE),
dict(id='C29', title='Any choice of balance strategies shares the partitions and loses nothing',
 statement='The configured BalanceStrategies are offered to the group as given, in that order; by default the incremental one alone. Processes whose strategies differ but overlap (incremental, cooperative, eager or mixed) share a group: rebalancing ends, every partition has one owner, and events take effect exactly once while members join, leave, crash, or the group migrates from one strategy to another. Stop first hands the partitions over when the group is using the incremental strategy, otherwise leaves at once; either way it ends.',
 over=['configurations', 'schedules', 'crash_points', 'histories'],
 quant='For every pair of the listed strategy lists, every schedule and crash point of joining, leaving and migrating members.',
 why='The tests run the default strategy only; the others change when partitions are revoked and how a consumer leaves.',
 files=['streams/balancer_options.go', 'streams/source_consumer.go', 'streams/incr_rebalancer.go'],
 mech=[('strategies', 'streams/balancer_options.go:toGroupBalancers'), ('protocol in use', 'streams/source_consumer.go:currentProtocolIsIncremental'), ('leave', 'streams/source_consumer.go:leave')],
 technique=SMC, note=NOTE),
dict(id='C30', title='Settings are used as given, defaulted when empty, refused when impossible',
 statement='An empty EosConfig means DefaultEosConfig; one that cannot work makes NewEventSource panic before anything is consumed; any other is used exactly as given, with PoolSize transactional producers. Client options given to NewEventSource win over the defaults, and the rest stays as it was. A Cluster whose Config fails is reported by NewEventSource, never ignored. An invalid SchedulerConfig is an error; any other works, with or without a finalizer. Source reports the settings it was made with.',
 over=['configurations', 'schedules'],
 quant='For every combination of small, zero and negative values of the settings, and every request for the configuration of a cluster that fails.',
 why='The tests use the default settings.',
 files=['streams/eos_config.go', 'streams/source.go', 'streams/source_consumer.go', 'streams/async_scheduler.go', 'streams/topics.go'],
 mech=[('validation', 'streams/eos_config.go:validate'), ('defaults', 'streams/source_consumer.go:newEventSourceConsumer'), ('scheduler', 'streams/async_scheduler.go:concurrentKeys'), ('clusters', 'streams/topics.go:NewClient')],
 technique=SMC, note=NOTE),
]

NOT_APPLICABLE = []
