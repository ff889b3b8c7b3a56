D = "Samples seeds: each quick run executes tens of thousands of complete simulations of the real code under a seeded scheduler; finding nothing is evidence, not proof. Trusts: the Go runtime overlay (virtual time, seeded scheduler), the reference model in sim/props, and that statement-level interleavings on one core represent the concurrency (no weak-memory effects)."

prop("C01", "A reassembled block carries exactly what was produced",
 "For every block an application publishes, whatever order, duplication, redelivery or mixture of equivalent producers its messages arrive in, a block handed to a subscriber has the published number, hash, parent and total difficulty. Its updates (including empty values) and deletions, whether they travelled in the block header, as individual messages or in named sub-batches, are exactly the published ones under the prefixes the consumer tracks: none missing, altered or invented, also when a key is both set and deleted. A consumer that tracks only some prefixes is never made to wait for, or given, the others. A key is set, and deleted, in one part of a block only. Schemas are those whose prefixes end at a path segment of the keys (not in the middle of one) and keys those that do not start with a slash.",
 ["inputs", "schedules", "fault_sequences"],
 "all block contents, schemas, tracked-prefix sets, numbers of producers and all delivery orders with duplicates, drops followed by redelivery, and interleavings of several blocks",
 "The tests deliver a handful of fixed blocks in two or three orders; content lost only under a particular order, duplicate, empty value or schema is not reached.",
 ["delivery/consumer.go", "delivery/producer.go", "delivery/types.go"],
 [("header defines expected counts per prefix", "delivery/consumer.go ProcessMessage"), ("messages that arrive early are kept until their header", "delivery/consumer.go queueMessage, pendingMessages"), ("per-message deduplication", "delivery/consumer.go ApplyMessage"), ("splitting by schema", "delivery/producer.go AddBlock, SendBatch")], D)

prop("C02", "Each block is emitted exactly once, exactly when complete",
 "A block is handed to every subscriber at the moment the last of the messages it needs has been accepted: never earlier, not later, and in order of completion. Duplicate and late messages of a block that was already emitted never cause it to be emitted again, as long as fewer than the configured reorg threshold of other blocks completed in between.",
 ["inputs", "schedules", "fault_sequences"],
 "all contents, delivery orders, duplicates and redeliveries of several interleaved blocks, to one or more subscribers of different speed",
 "The tests count emissions for a few fixed orders only; early or repeated emission needs a specific duplicate at a specific stage of assembly.",
 ["delivery/consumer.go"],
 [("readiness over counters, sub-batch bitmaps and announced sub-batches", "delivery/consumer.go Ready"), ("recently completed blocks are remembered", "delivery/consumer.go completed LRU")], D)

prop("C03", "Redundant producers are interchangeable",
 "Several independent producers may publish the same blocks to the same partitioned topics, each crashing in the middle of blocks and restarting at any time. Consumers that read the partitions in any relative order, with rewinds, hand each block whose every message was published by at least one of them to the application exactly once and with exactly its content; a consumer needs no one producer to have completed a block.",
 ["inputs", "schedules", "crash_points", "fault_sequences"],
 "all block trees and contents, one to four producers crashing mid-block and restarting, one to three partitions per topic, and all consumer interleavings over partitions with rewinds",
 "The tests deliver one producer's messages once; no test interleaves two producers, drops one mid-block, or reads several partitions out of step.",
 ["delivery/producer.go", "delivery/consumer.go", "delivery/ordering.go"],
 [("deterministic keys and sub-batch ids, identical across producers", "delivery/producer.go AddBlock, SendBatch"), ("keyed deduplication during assembly", "delivery/consumer.go ApplyMessage, completed"), ("messages queued ahead of their header", "delivery/consumer.go queueMessage")], D)

prop("C04", "Malformed messages never crash, hang or corrupt",
 "A message that is malformed (key empty, too short or too long for its type, unknown type, truncated value, sub-batch index out of range, negative or truncated sub-batch count, truncated reorg notice, update outside everything the header announces, or beyond the number it announces once those are there) is rejected with an error or ignored. It never crashes the consumer or makes it hang, never alters or completes a block that is being assembled, never causes a reorg notice, and never keeps the valid messages of any block from being accepted afterwards: every block whose valid messages are all (re)delivered after the malformed ones is still emitted once with exactly its content. Values that declare more data than they hold are malformed; values that declare enormous lengths are outside the guarantee.",
 ["inputs", "histories", "fault_sequences"],
 "sixteen kinds of malformed messages injected at every stage of assembly of several interleaved blocks",
 "No test delivers a malformed message at all; whether one does harm depends on which block is at which stage of assembly when it arrives.",
 ["delivery/consumer.go", "delivery/types.go", "delivery/ordering.go"],
 [("key and value validation", "delivery/consumer.go ProcessMessage, checkKey; delivery/types.go unmarshal"), ("bounds of sub-batch indices", "delivery/consumer.go ApplyMessage"), ("per-message isolation of queued messages", "delivery/consumer.go ProcessMessage")], D)

prop("C05", "Resuming from a block's token loses nothing",
 "The resumption token of an emitted block names, for every partition read before the block's header was, a position no later than the first of the block's own messages and no earlier than the consumer started from. An application that stores only its last applied block and that block's token, crashes at any point, and restarts reading from the token (rolled back by enough to cover blocks that were still in flight) with that block as its starting point ends up on the heaviest chain having applied every block of it exactly once and with exactly its content, however many times it crashes.",
 ["inputs", "schedules", "crash_points", "histories"],
 "all block trees and contents, partition counts and relative reading speeds, redundant producers, and crash points, repeated",
 "The tests check one token of one block; a token that skips a message only shows after a crash at a particular point with partitions read out of step.",
 ["delivery/consumer.go", "delivery/ordering.go"],
 [("earliest offset per partition of a block's messages, defaults from when its header arrived", "delivery/consumer.go updateResumption, resumptionCopy, Resumption"), ("starting point and finished set", "delivery/ordering.go NewOrderedMessageProcessor")], D)

prop("C06", "Chain updates form one connected chain",
 "Whatever order, duplication and timing blocks arrive in, the chain updates a subscriber receives always connect: each update first removes a run of blocks ending at the subscriber's current head, oldest first and each one previously added, and then adds blocks each of which is the child of the block before it, starting at the point the removal went back to. Applying the updates in the order received therefore keeps a subscriber on a single unbroken branch starting at the block it started from.",
 ["inputs", "schedules", "histories"],
 "all block trees with forks, and all delivery orders with duplicates, replays of history and pauses; consumers with a starting block, or without one and blocks arriving parents first",
 "The ordering tests cover about ten hand-made trees in arrival orders chosen by hand.",
 ["delivery/ordering.go"],
 [("emit only children of the last emitted block", "delivery/ordering.go HandlePendingBatch"), ("walk both branches back to the common ancestor", "delivery/ordering.go prepareReorg"), ("drain queued descendants", "delivery/ordering.go prepareEmit")], D)

prop("C07", "Consumers converge to the heaviest chain",
 "Once every block of a connected block tree has been delivered at least once, in any order and with any duplicates, a consumer's head is a block of maximal total difficulty among those connected to its starting point. If blocks from before its starting point were replayed as well, it is so at the latest after two further blocks extend the heaviest chain. Forks deeper than half the reorg threshold are outside the guarantee.",
 ["inputs", "schedules", "histories"],
 "all block trees within the reorg threshold, starting points (or none, with blocks arriving parents first), and delivery orders with duplicates, replays and pauses, whole forks that come late among them",
 "Tests sample a few fork shapes; missed reorgs depend on which of several competing branches arrives first and what is queued at that moment.",
 ["delivery/ordering.go"],
 [("heaviest pending descendant selection", "delivery/ordering.go getPendingChild, getPendingChainDifficulty"), ("reorg evaluation on heavier weight", "delivery/ordering.go HandlePendingBatch"), ("finished set", "delivery/ordering.go finishSiblings, finishPendingChildren")], D)

prop("C08", "The head only moves to a heavier chain and reorgs are minimal",
 "Every chain update leaves the consumer with a head of strictly greater total difficulty than the one it replaces. No update removes a block that it also adds back: a switch between branches removes exactly the blocks above the common ancestor.",
 ["inputs", "schedules", "histories"],
 "all block trees and delivery orders with duplicates, replays and pauses; consumers with a starting block, or without one and blocks arriving parents first",
 "Tests check particular reorgs, not that no sequence of arrivals can move the head back or flap.",
 ["delivery/ordering.go"],
 [("weight comparison before a reorg", "delivery/ordering.go HandlePendingBatch"), ("common ancestor search", "delivery/ordering.go prepareReorg")], D)

prop("C09", "Whitelisted heights exclude every other branch",
 "When a consumer is configured with a required hash for a height, it never emits a different block at that height, nor any descendant of one, in whatever order blocks arrive. It still converges to the heaviest chain among the branches that remain.",
 ["inputs", "schedules", "configurations"],
 "all block trees, whitelists along one branch, and delivery orders; consumers with a starting block, or without one and blocks arriving parents first",
 "One test checks one whitelist with blocks arriving parent first.",
 ["delivery/ordering.go"],
 [("whitelist and blacklist of descendants", "delivery/ordering.go HandlePendingBatch")], D)

prop("C10", "Announced large reorgs take effect once and in order",
 "When a producer announces a reorg that goes back to an earlier block of the chain and then publishes another branch from there in order, of whatever total difficulty, every subscriber gets the blocks that preceded the announcement, then exactly one notice naming that block's number and hash, and then the blocks of the new branch as plain additions, each exactly once. This holds however slow its subscribers are, for repeated announcements, with messages of the current chain delivered repeatedly, and when parts of the new branch had been sent before.",
 ["inputs", "schedules", "histories"],
 "chains, announced rollback points of any depth and replacement branches, blocks of one or several messages, parts sent long before, duplicates, buffer sizes and subscriber speeds",
 "One test sends one announcement with nothing else going on; the order of the announcement and the blocks around it is a race between two internal channels.",
 ["delivery/ordering.go", "delivery/consumer.go", "delivery/producer.go"],
 [("announcement", "delivery/producer.go Reorg; delivery/consumer.go ProcessMessage ReorgType"), ("blocks and announcements handled in one order", "delivery/ordering.go NewOrderedMessageProcessor, HandleReorg"), ("new branch connects to the announced block", "delivery/ordering.go HandlePendingBatch")], D)

prop("C11", "Waiting for a block returns when it is applied",
 "A waiter attached to a consumer reports, for a block hash or number: Success, promptly and not before, when the application marks a block with that hash or number applied during the wait or did so in the last half minute; Timeout, when the wait's full duration passes without that; NotFound, immediately, when no such block had been announced to the consumer. This holds for any number of waits in progress, for blocks still being assembled, and for blocks delivered more than once by one or several transports. After the waiter is stopped every wait still returns in time and deliveries carry on.",
 ["inputs", "schedules", "histories"],
 "block trees, delivery in parts and repeatedly through either entry point, application speeds, skipped blocks, and waits by hash and number at any time",
 "The waiter's own tests do not compile at this commit, and cover one wait each; results depend on what arrives between the announcement of a block and its application.",
 ["waiter/waiter.go", "delivery/consumer.go", "delivery/ordering.go"],
 [("announcements of blocks", "delivery/consumer.go waitFeed, ProcessCompleteBatch"), ("channels by hash and number", "waiter/waiter.go NewOmpWaiter"), ("application of blocks", "delivery/consumer.go PendingBatch.Done")], D)

prop("C12", "Marking blocks applied is idempotent and safe to do concurrently",
 "Any number of subscribers may each mark the same chain update or block applied, at the same or different times, repeatedly, and from several goroutines. None of them crashes, blocks or changes the update, and those waiting for a block are told at the first mark.",
 ["inputs", "schedules"],
 "one to four subscribers marking every update and block up to five times from up to four goroutines, with waits in progress",
 "The tests mark each update once from one goroutine; the failure needs two marks to interleave.",
 ["delivery/consumer.go", "delivery/ordering.go", "waiter/waiter.go"],
 [("one close per block", "delivery/consumer.go PendingBatch.Done"), ("all blocks of an update", "delivery/ordering.go ChainUpdate.Done")], D)

prop("C13", "Subscribers see the same updates and closing loses none",
 "All subscribers of chain updates, and all subscribers of assembled blocks, receive one and the same sequence, from the first item after they subscribed to the last before they unsubscribed, without gaps, repetitions or later changes to what they received, however large their buffers, however slow they are, and whoever joins or leaves meanwhile. A subscriber that has stopped reading holds up others only until it unsubscribes, which never blocks. Closing the processor returns within seconds and everything delivered before is still handed out; nothing of a closed processor keeps running once it has handed out everything.",
 ["inputs", "schedules", "histories"],
 "block trees, up to five subscribers with buffers and speeds that join, stall and leave at any point, and closing while updates are outstanding",
 "Tests have one or two subscribers that are always ready, and none leaves or stalls.",
 ["delivery/ordering.go", "delivery/consumer.go"],
 [("feeds", "delivery/ordering.go Subscribe, updateFeed; delivery/consumer.go feed"), ("idle check before quitting", "delivery/ordering.go NewOrderedMessageProcessor, Close")], D)

prop("C27", "A consumer tells truthfully why a block is not there yet",
 "WhyNotReady can be asked about any hash by any goroutine at any time, whatever subscribers do, and answers without waiting for them. For a block whose header has been accepted and that is incomplete it names something that is really missing: a sub-batch's header, a message under the prefix named, or the message of the sub-batch and index named. A complete block is 'pending parent' while an earlier block of its branch is missing and 'done' once it has been handed out (a complete block on its way is 'ready' or 'not found', one of another branch than the head's is 'pending parent' or 'done'); a hash whose header has not been accepted is 'not found'.",
 ["inputs", "schedules"],
 "trees of up to six blocks with random content, schemas and tracked prefixes, messages delivered in any order with losses and duplicates, up to three goroutines asking all the time, subscribers that are fast, slow or stuck",
 "No test asks; what is answered depends on which message arrived last and on what other goroutines are doing.",
 ["delivery/consumer.go", "delivery/ordering.go"],
 [("what is missing", "delivery/consumer.go PendingBatch whyNotReady, MessageProcessor WhyNotReady"), ("order", "delivery/ordering.go WhyNotReady")], D)

prop("C28", "A consumer's memory does not grow with the length of the chain",
 "Once the chain has moved on by several reorg thresholds, a consumer holds nothing any more of the blocks before, neither the block nor its messages nor its values: not of those it handed out, not of side branches, not of blocks that never became complete, and not of blocks that never got connected because an ancestor never arrived. This is about blocks whose header arrived; hashes may be remembered.",
 ["inputs", "schedules", "histories"],
 "block trees with forks of up to half the threshold, messages lost for good, blocks never delivered, duplicates within the threshold, any starting point including none, followed by six thresholds of further blocks, with fast and slow subscribers",
 "Tests deliver a handful of blocks and look at what comes out, not at what stays; what is left behind depends on the history.",
 ["delivery/ordering.go", "delivery/consumer.go"],
 [("eviction of finished and unconnected blocks", "delivery/ordering.go NewOrderedMessageProcessor, evict, evictUnfinished"), ("eviction of incomplete blocks", "delivery/consumer.go evictOlderThan, processMessage")], D)

prop("C31", "What cannot be carried is refused and leaves no trace",
 "A block that the message format cannot carry (a sub-batch without an identifier; a sub-batch whose prefix is also a key of its own or a schema prefix in use) is refused with the error for it and without any message, in whatever order its parts are looked at, as is a sub-batch that was not announced, was sent already or belongs to a refused block. A schema with overlapping prefixes or an invalid expression and a consumer without a positive reorg threshold are refused with an error when created. After a refusal the producer goes on as if the call had not been made: blocks begun before and published after, the corrected block among them, arrive complete and exact.",
 ["inputs", "histories"],
 "one to six blocks with refused calls of some twenty combinations, unknown and repeated sub-batches and unusable configurations anywhere between their calls, for all schemas and map iteration orders",
 "The tests try two conflicts on a fresh producer; whether anything is left behind depends on the order in which maps are iterated and shows in later calls only.",
 ["delivery/producer.go", "delivery/ordering.go"],
 [("validation", "delivery/producer.go NewProducer, AddBlock"), ("announced sub-batches", "delivery/producer.go AddBlock, SendBatch"), ("configuration", "delivery/ordering.go NewOrderedMessageProcessor")], D)

K = "Samples seeds: each quick run executes hundreds to thousands of complete simulations of the real producers, consumers and Kafka client library against a simulated cluster under a seeded scheduler; finding nothing is evidence, not proof. Trusts: the Go runtime overlay (virtual time, seeded scheduler), the broker model in sim/props/kafka.go, and that statement-level interleavings on one core represent the concurrency."

prop("C14", "Blocks get through Kafka whatever the cluster goes through",
 "Real Kafka producers and consumers work on a cluster whose requests and acknowledgements get lost, whose brokers return errors, change leaders, restart and are cut off for a while. Every block given to a producer ends up in the log and is handed out by every consumer exactly once with exactly its content, and every consumer ends on the heaviest chain; disturbances of up to 300 ms lose nothing, and single messages may have almost ten megabytes. After longer outages a producer that lost something has a later call fail, and publishing the blocks again (PurgeReplayCache and the same calls) suffices, without restarting anything.",
 ["inputs", "schedules", "fault_sequences"],
 "block trees and contents, one to three producers and consumers, brokers and partitions, and all sequences of lost requests and acknowledgements, errors, leader changes, restarts, partitions, slow brokers and connection resets",
 "No test talks to a cluster: the tests stop at the in-process message processor, and the Kafka tests need a broker that is not there.",
 ["transports/kafka.go", "delivery/producer.go", "delivery/consumer.go", "delivery/ordering.go"],
 [("asynchronous producer and its errors", "transports/kafka.go KafkaProducer emit"), ("one consumer per partition, started together", "transports/kafka.go KafkaConsumer Start"), ("replay cache", "transports/kafka.go recentHashes, PurgeReplayCache")], K)

prop("C15", "A Kafka consumer resumes where its application left off",
 "An application keeps its last applied block and that block's token, and starts a new Kafka consumer from them (with a rollback that covers blocks in flight) after closing or killing the previous one at any point. It then gets every later block of the heaviest chain exactly once with exactly its content and never one from before, even where the rollback reaches beyond the oldest message the cluster still keeps. Close of a started consumer returns within seconds, whatever the consumer is doing.",
 ["inputs", "schedules", "crash_points", "fault_sequences"],
 "block trees, interleaved producers, partitions, closing and killing at any point and repeatedly, rollbacks, deletion of old messages, and short broker disturbances",
 "No test starts a Kafka consumer at all, let alone restarts one between two messages of a block.",
 ["transports/kafka.go", "delivery/consumer.go", "delivery/ordering.go"],
 [("starting offsets from the token and the rollback", "transports/kafka.go NewKafkaConsumer"), ("oldest available message", "transports/kafka.go KafkaConsumer Start"), ("Close", "transports/kafka.go KafkaConsumer Close")], K)

prop("C16", "A Kafka consumer reports ready exactly when it has caught up",
 "A Kafka consumer's Ready channel is closed once it has handed on every message that its partitions held when it was started, and not before: promptly if the partitions are empty, were emptied by retention or hold only heartbeats and messages of other kinds. It stays ready, can be asked any number of times, and hands out no block after Close returned. Messages that are no part of a block do not stop it or keep it from handing out the blocks around them.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "full, empty, emptied and growing partitions, heartbeats and foreign messages anywhere, with and without a known last block, asking for readiness early, late or repeatedly, and short broker disturbances",
 "No test starts a Kafka consumer; readiness depends on how the ends of several partitions are reached relative to each other.",
 ["transports/kafka.go"],
 [("high-water marks per partition", "transports/kafka.go KafkaConsumer Start"), ("warm-up", "transports/kafka.go KafkaConsumer Ready, WhyNotReady"), ("heartbeats among the messages", "transports/kafka.go KafkaConsumer Start")], K)

prop("C17", "Redundant Kafka producers publish a block unless another did",
 "A Kafka producer given a block publishes all its messages to the topics its schema assigns them, with exactly the keys and values produced, unless that block's header is among the last hundred messages of a partition of the default topic when it comes up, or has appeared since, in which case it publishes none of them. The sub-batches of a block it published are published when they are sent; those of a block it left out are accepted and not published; any other sub-batch is refused. After PurgeReplayCache every block is published again until it reappears.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "one to three producers starting at any time on topics with history, the same blocks and sub-batches given in any order and repeatedly, purges, unknown batches, foreign messages, and short broker disturbances",
 "No test starts a Kafka producer; what one leaves out depends on what another published moments before and on what its own reader has seen.",
 ["transports/kafka.go", "delivery/producer.go"],
 [("recent headers", "transports/kafka.go NewKafkaProducer recentHashes"), ("leaving out known blocks and their batches", "transports/kafka.go AddBlock, SendBatch skipBatches"), ("purge", "transports/kafka.go PurgeReplayCache")], K)

prop("C18", "Producer counts reflect the heartbeats of live, healthy producers",
 "Every Kafka producer that runs and is not marked unhealthy announces itself in its default topic, under an identity of its own that never changes, at least every half minute; one that is marked unhealthy falls silent until it is marked healthy again. ProducerCount(d) of a consumer is the number of distinct producers it heard from within d, and of a producer the number of others it heard from; multiplexed ones add up their feeds. Any number of goroutines may ask at any time, also before a consumer is started.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "one to four producers starting, publishing, changing health and dying at any time, consumers starting at any time, concurrent questions with windows from seconds to an hour, and short broker disturbances",
 "No test has a second producer or waits half a minute, and none asks while a heartbeat is being recorded.",
 ["transports/kafka.go"],
 [("heartbeats", "transports/kafka.go NewKafkaProducer ticker, SetHealth"), ("record of heartbeats", "transports/kafka.go pingTracker, ProducerCount"), ("heartbeats among a consumer's messages", "transports/kafka.go KafkaConsumer Start PingType")], K)

prop("C19", "A Kafka producer finds the latest block of its feed",
 "LatestBlockFromFeed returns the highest number of any block header among the last hundred messages of each partition of the default topic, or 0 if there is none, whatever else those partitions hold: other kinds of messages, headers that cannot be decoded, nothing at all, or less than a hundred messages because of retention. It returns within seconds even while messages are being added, and however often it is called it leaves no connections open.",
 ["inputs", "schedules", "configurations"],
 "partitions with any mixture of headers and other messages around the hundred-message limit, retention, growth during the call, slow brokers, and any long-polling time",
 "No test calls it; it needs a cluster with several partitions, some of which have nothing to deliver.",
 ["transports/kafka.go"],
 [("last hundred messages of each partition", "transports/kafka.go LatestBlockFromFeed")], K)

prop("C20", "A Kafka consumer starts where its token and configuration say",
 "A Kafka consumer hands out exactly once every block whose messages all lie at or after its starting points, and no other. The starting point of a partition named in its token is the token's position less the rollback (a negative rollback counts as none) but not before the oldest message; of another partition the last message there when it is started if it has no starting block and the rollback is not negative, and otherwise the oldest message; a token with a position beyond the messages, or before them though the rollback does not exceed it, is refused. A token made for a timestamp, for one or several brokers, names for each partition the first message that is not older than the timestamp, or the next message if there is none yet; if it cannot be made correctly because of the brokers it is not made.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "histories of messages over time with retention, timestamps before, within and after them, tokens made during broker disturbances, complete, partial or absent tokens, rollbacks from -1 to beyond the log, known and unknown starting blocks, single and multiplexed brokers, messages published between making the token and starting",
 "No test resolves a timestamp or starts a Kafka consumer at any position.",
 ["transports/kafka.go", "transports/resolver.go"],
 [("starting offsets", "transports/kafka.go KafkaConsumer Start"), ("token for a timestamp", "transports/kafka.go kafkaResumptionForTimestamp; transports/resolver.go ResumptionForTimestamp"), ("parsing of tokens", "transports/kafka.go kafkaConsumerWithOMP")], K)

W = "Samples seeds: each quick run executes thousands of complete simulations of the real websocket producer and consumer, the real server library and the real websocket client against each other under a seeded scheduler, with the network a simulation. Trusts: the Go runtime overlay, the network model, the harness's block database that plays the producing application's resumer, and the reference model."

prop("C21", "Websocket consumers get every block through every interruption",
 "A websocket consumer that is started at a block of the producing application's chain, and stays so while connections break, cannot be made or hang, resumptions fail, and the producer's process crashes and comes back, ends up on the producer's heaviest chain as soon as it can reach the producer again, having been handed every block of it with exactly the content published (all values, empty ones included, deletions and sub-batches). Its chain updates are connected throughout and it never has to be restarted, reset or told again. Applications store a block before they publish it, publish all blocks of a branch they switch to, and can give out the canonical chain from any block on; keys are UTF-8 text; forks are within the reorg threshold.",
 ["inputs", "schedules", "crash_points", "fault_sequences"],
 "all block trees and contents, one to three consumers starting at any time, slow and failing resumptions, connections reset, cut or refused at any point, producer crashes within a block, consumer restarts, slow subscribers, any network latency and segmentation",
 "The one websocket test sends one block over one connection that is up all the time; what gets lost depends on what is published between the end of a resumption and the beginning of the subscription.",
 ["transports/websockets.go"],
 [("resumption before live blocks without a gap", "transports/websockets.go websocketStreamsService Streams"), ("reconnecting from the last block handed out", "transports/websockets.go websocketConsumer trackEmitted, Start"), ("assembly of batches and sub-batches", "transports/websockets.go websocketConsumer Start")], W)

prop("C22", "No websocket subscriber can stop the producer or the others",
 "Whatever a websocket subscriber does - stop reading at any point, disappear without a word, hang up, send nonsense, ask for an impossible resumption, have its resumption never end - the producer accepts each block within minutes and other subscribers are handed every block and keep up. Once all subscribers have gone, no goroutine, subscription or unfinished resumption of theirs remains for longer than some minutes.",
 ["inputs", "schedules", "fault_sequences"],
 "one to three misbehaving subscribers of eight kinds, joining before, between or after more blocks than all buffers hold, with small and large network buffers, next to one or two healthy consumers",
 "No test has a second subscriber, one that stops reading, or more blocks than the buffers hold.",
 ["transports/websockets.go"],
 [("giving up a subscriber that does not take its blocks", "transports/websockets.go websocketStreamsService Streams, subscriberTimeout"), ("releasing subscriptions and resumptions", "transports/websockets.go websocketStreamsService Streams")], W)

prop("C23", "Websocket consumers can be started and closed at any time",
 "Start of a websocket consumer returns once its subscription is established, however often connecting has to be tried, or with an error once it has been closed; Close returns within a second at any time, also before Start, during it, while the producer cannot be reached, more than once and from several goroutines. Ready is signalled only after everything there was at the start has been handed out, it is signalled to everybody who asks however often and late, and after Close no block is handed out and no connection is kept or made.",
 ["schedules", "configurations", "fault_sequences"],
 "one to three consumers created, started and closed in any order and at any moment against a producer that is up, down, unreachable, hanging, slow to resume or unable to, with slow networks and large histories",
 "The tests start one consumer against a producer that is up and close it after it has everything.",
 ["transports/websockets.go"],
 [("start, reconnection and close", "transports/websockets.go websocketConsumer Start, wait, setConn, Close"), ("readiness", "transports/websockets.go websocketConsumer Start, Ready")], W)

prop("C29", "Announced reorgs reach websocket consumers once and in order",
 "A reorg that a producer announces over websockets reaches every consumer that is ready at that moment exactly once, naming the announced block, after all blocks published before and before all blocks published after. The blocks published after it are handed out as plain continuations from that block: no chain update repeats or removes the blocks the announcement did away with, and lighter branches are followed too. It stays so across connections that break before or after; a consumer started later gets the present branch.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "chains with up to four announced reorgs to near and far blocks, new branches of any length and weight, blocks with any number of sub-batches, repeated publication, one to three consumers starting at any time and taking their blocks at any speed, small buffers, connections reset between announcements",
 "No test announces a reorg over any transport; its order relative to blocks depends on what is still on its way.",
 ["transports/websockets.go", "delivery/ordering.go", "delivery/consumer.go"],
 [("announcement", "transports/websockets.go websocketProducer Reorg"), ("its place between blocks", "transports/websockets.go Streams, websocketConsumer Start"), ("handing it out", "delivery/ordering.go ProcessReorg, HandleReorg")], W)

prop("C30", "Nothing a websocket server sends can crash or mislead a consumer",
 "Whatever a websocket server sends - the messages of blocks and sub-batches in any order, repeated, interleaved, ahead of the response to the subscription; messages of other subscriptions, incomplete, malformed or senseless ones - a consumer does not crash or hang up, hands out every block whose messages all reached it validly over one connection as soon as its ancestors have, with exactly its content, hands out nothing else, and is ready when and only when told so. When a subscription is refused or answered wrongly it connects again, and it always asks to resume from the last block it handed out.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "block trees sent in any order over one to three connections, 22 kinds of nonsense anywhere between messages, 10 kinds of refused or wrongly answered subscriptions, late answers, broken connections",
 "The tests' server sends one well-formed block; the format document tells consumers not to assume order or exactly-once delivery.",
 ["transports/websockets.go"],
 [("parsing of messages", "transports/websockets.go websocketConsumer Start, resultMessage"), ("subscribing", "transports/websockets.go awaitSubscription"), ("assembly of blocks", "transports/websockets.go websocketConsumer Start")], W)

M = "Samples seeds: each quick run executes thousands of complete simulations of real multiplexed consumers or producers over the real Kafka and websocket transports at once. Trusts: the Go runtime overlay, the simulated cluster and network, and the reference model."

prop("C24", "A multiplexed consumer does as well as the best of its transports",
 "A consumer multiplexed over several transports (Kafka, the same Kafka topics split over several consumers, several websocket addresses, null) hands out every block once with exactly its content, in connected chain updates, and gets to the heaviest chain as long as any one transport delivers it, while the others lag, break, cannot be reached or never start. Start returns within a minute of a transport that works having started and without error, readiness is signalled to everyone who waits, and it can be asked why a block is not ready at any time. Close returns within half a minute and leaves no connection to any transport; transports resolve when the consumer is created.",
 ["schedules", "configurations", "fault_sequences"],
 "eleven combinations of transports, block trees published over Kafka and websockets at different paces, transports that are never there, disappear for good, or are disturbed for seconds, and consumers created, started, restarted and closed at any time",
 "No test has a second transport; what one transport does while the other is starting or has failed depends on timing between them.",
 ["transports/resolver.go", "transports/kafka.go", "transports/websockets.go", "delivery/ordering.go"],
 [("starting, readiness and closing of several transports", "transports/resolver.go muxConsumer"), ("several transports deliver to one processor", "delivery/ordering.go, delivery/consumer.go ProcessMessage"), ("one transport's starting state reaches the others", "transports/resolver.go ResolveMuxConsumer")], M)

prop("C25", "A multiplexed producer publishes on every transport",
 "A producer multiplexed over several transports (Kafka topics, other Kafka topics, websockets) gives every block, sub-batch, health change and cache purge to every one of them even while others fail or are lost, and reports an error if any of them did. Consumers of each transport receive every block with exactly its content and get to the heaviest chain; after the process is killed at any point, purging and giving the blocks in flight again completes them on all transports. LatestBlockFromFeed is the lowest answer of those transports that can tell, an error if none can, and ProducerCount is the sum; all transports resolve when the producer is created.",
 ["schedules", "crash_points", "configurations", "fault_sequences"],
 "seven combinations of transports, block trees published with kills and restarts at any scheduling step, Kafka or websockets disturbed or lost for good, redundant producers on the same topics, health changes, purges and questions at any time",
 "No test has a second transport; whether one transport's failure costs the others a block depends on where in a call it happens.",
 ["transports/resolver.go", "transports/kafka.go", "transports/websockets.go"],
 [("all transports get every call", "transports/resolver.go muxProducer"), ("each transport leaves out what it has seen", "transports/kafka.go recentHashes, skipBatches"), ("websocket subscribers", "transports/websockets.go")], M)

prop("C26", "A Kafka consumer can be created, started and closed at any time",
 "A Kafka consumer, and one multiplexed over Kafka transports, can be created, started, closed, asked and waited for by several goroutines in any order, while brokers are disturbed, restart or cannot be reached. Close returns within about ten seconds whatever the brokers do, Start returns (with an error when the consumer was closed), readiness reaches everyone who waits, no block is handed out after Close, and of a block it has handed out a consumer says 'done', of an unknown one 'not found'. Minutes later nothing is left running and no connection is open, neither of closed consumers nor of timestamp tokens, nor of consumers and producers whose creation failed; only the message processor of a consumer that was created remains.",
 ["schedules", "fault_sequences", "configurations"],
 "creation, start, close (also concurrently and repeatedly), timestamp tokens and failing creations at any scheduling step of each other, over clusters that answer slowly, fail, restart or vanish",
 "Tests start one consumer against a mock broker and never close it; whether something hangs, crashes or is left behind depends on the step at which Close and failures arrive.",
 ["transports/kafka.go", "transports/resolver.go"],
 [("closing", "transports/kafka.go KafkaConsumer.Close, Start"), ("partition consumers wait for each other", "transports/kafka.go Start"), ("creation failures", "transports/resolver.go, transports/kafka.go kafkaResumptionForTimestamp")], K)

prop("C33", "Websocket subscribers get the stream that is documented",
 "Any client of a websocket producer gets what transports/websockets.md documents. A subscription (with any number and hash, several per connection) is answered with an identifier of its own and carries exactly the blocks the resumer gives out for it, each as one complete message, then \"ready\", and between and after them every message published since the subscription was made, unaltered, in order and once; if the resumption fails there is neither a result nor a stream. cardinal_streamsBlock answers with the block of that number on the producer's chain, or an error if there is none. An unsubscribed stream is a prefix of what it would have been, and its resumption ends.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "one to three plain clients that subscribe, ask, unsubscribe, read slowly and lose connections at any time while block trees and reorgs are published, with failing, slow and buffered resumers and any network segmentation",
 "The one websocket test has the repository's own consumer at the other end, which hides the order and duplication of messages; other clients rely on the documented stream.",
 ["transports/websockets.go", "transports/websockets.md"],
 [("streams", "transports/websockets.go websocketStreamsService.Streams"), ("single blocks", "transports/websockets.go StreamsBlock"), ("message formats", "transports/websockets.go AddBlock, SendBatch, Reorg")], W)

prop("C32", "Applications can wait for blocks through any transport",
 "The waiter of a consumer of any transport, by itself or multiplexed with others, tells of a block that the consumer has handed out: Success no later than half a second after the application marked the block (or, for a number, the first block of that height) applied and not before, or at once if that was in the last half minute; Timeout only after the whole duration without that; NotFound, at once, only for blocks not handed out yet. Waits without a result end at the same time. A consumer without any transport that delivers reports NotFound.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "eleven combinations of transports, block trees published over Kafka and websockets at different paces, connections and producers that break, applications that apply blocks at once or seconds later, and waits by hash and number from several goroutines at any time",
 "The waiter's tests do not compile at this commit, and no test asks a transport's consumer for its waiter.",
 ["transports/kafka.go", "transports/websockets.go", "transports/resolver.go", "transports/null.go", "waiter/waiter.go"],
 [("one waiter for all transports", "transports/resolver.go muxConsumer.Waiter"), ("waiters of each transport", "transports/kafka.go, transports/websockets.go Waiter"), ("results", "waiter/waiter.go")], M)

prop("C34", "Kafka clients log in, encrypt and set options as their URL says",
 "A Kafka producer or consumer logs in on every connection it opens (to find brokers, to create topics, to leaders, again after faults, several at once) with the user and password of its URL, whatever characters they have, by the mechanism it names (PLAIN, SCRAM-SHA-256 or SCRAM-SHA-512), and encrypts it with tls=1; no login of a client whose URL is right fails, and every block it publishes is delivered, whichever compression, fetch size, retry and open-request options the URL sets or misspells. A client whose user, password or mechanism the brokers do not accept gets an error within minutes, and so does whoever uses a URL that cannot be parsed. With SCRAM no password is sent, and brokers that cannot prove that they know it are sent nothing but login attempts.",
 ["configurations", "inputs", "schedules", "fault_sequences"],
 "three mechanisms, awkward users and passwords, TLS, five compressions and correct and misspelt options, with producers and consumers through connection losses, restarts, leader moves and failing logins, next to clients with wrong credentials and clients that reach six kinds of impostor",
 "No test logs in or encrypts; what several connections that log in at the same time share, and what happens when one breaks half-way, depends on the interleaving.",
 ["transports/kafka.go", "transports/scram.go"],
 [("what a broker URL says", "transports/kafka.go ParseKafkaURL"), ("SCRAM conversations", "transports/scram.go"), ("connections besides the client's own", "transports/kafka.go CreateTopicIfDoesNotExist, kafkaResumptionForTimestamp")], K)

prop("C35", "Kafka consumers go through announced reorgs",
 "A Kafka consumer that meets the notice of a reorg in its default topic announces the reorg to its application after all the blocks that precede the notice, then hands out the blocks of the reorg's own topic, each on the one before it, whenever they get written there, and goes on with the default topic after the reorg's end and not before; then it leaves the reorg's topic alone. So the application of a consumer that starts with the first block gets every block and every reorg once and in the order in which they were published, and that of a consumer that starts or restarts anywhere, from a block of the present branch or from the token of the latest block it was handed out, within a reorg or not, always gets blocks that fit and ends up with the producer's chain. This does not depend on passing disturbances of the brokers, and the consumer gets ready and can be closed throughout.",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 "one to three consumers that start at any time, restart with tokens and rollback, also within a reorg, and handle blocks slowly; one to three announced reorgs of any depth, whose topics are written before, while and seconds after the notice is met, with heartbeats, duplicates and connection losses, error answers, lost requests and outages around the notice",
 "No test reads a reorg's topic; what is handed out depends on how far each topic has been written when the consumer looks at it and on what fails at that moment.",
 ["transports/kafka.go", "delivery/consumer.go", "delivery/ordering.go"],
 [("reorgs in topics of their own", "transports/kafka.go KafkaConsumer Start (ReorgType, ReorgCompleteType)"), ("where reading starts", "transports/kafka.go KafkaConsumer Start startOffset"), ("going back", "delivery/consumer.go processMessage, delivery/ordering.go HandleReorg")], K)
