HOOK_COMMITS = []
NOTES = ("Every check builds a shadow copy of /repo's working tree (tools/vb.py), runs seeded simulated executions on 8 workers, "
         "replays any violation twice in fresh processes, minimises it and writes replays/<property>-<class>.replay. "
         "Replay: python3 tools/check.py --replay <file>.")
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, how="", note="", na=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
             why_tests_cant=why, anchors=a, how=how, note=note)
    if na: d["na"] = na
    PROPS.append(d)

SAMPLE = ("A sampled, not exhaustive, guarantee: it held on every simulated run of the batch; seeds are replayable. "
          "Trusts the simulator (sim/), the harness oracle and clang. ")

P("C01", "Scheduled jobs run exactly once and waits cover them",
  "Every job handed to the thread pool (plain, attached to a completion group, or dispatched from another job) runs exactly once, on some pool thread or a thread that waits. A wait on a completion group returns only after every job attached before it has finished, always returns once they have, and everything the jobs wrote is visible to the waiter; a group's completion notification fires exactly once, after the last job.",
  ["schedules"], "for every interleaving of submitters, workers, waiters and stealers, with preemption at any memory access, spurious wake-ups and stalled threads",
  "zchk thr tests run a few fixed workloads under whatever interleavings the OS yields; lost wake-ups and steal races need particular preemptions.",
  ["src/core/thr-job.blk", "src/core/thr-evc.c", "src/thr.h"],
  [("work stealing deques", "src/core/thr-job.blk"), ("thr_syn counters and event count", "src/core/thr-job.blk")],
  how="simulated threads over the real job engine, per-job ledger oracle", note=SAMPLE)
P("C02", "Serial queues: FIFO, mutual exclusion, main-queue affinity",
  "Jobs pushed on a serial queue run exactly once, one at a time, in the order they were pushed (a push that completed before another began runs first). Jobs pushed on the main queue run on the main thread only; a synchronous submission returns only after its job has run; destroying a queue runs what was queued first.",
  ["schedules"], "for every interleaving of pushers, workers and the main loop",
  "tests use one queue and a handful of pushes; overlap and reordering need a preemption inside the push or drain protocol.",
  ["src/core/thr-job.blk", "src/core/thr-mpsc.h"],
  [("MPSC drain hand-over", "src/core/thr-mpsc.h"), ("thr_queue runner", "src/core/thr-job.blk")],
  how="simulated threads over the real queue code, overlap/order ledger oracle", note=SAMPLE)
P("C03", "Lock-free queues deliver every message exactly once, in order",
  "Every message pushed on the multi-producer queue is consumed exactly once, in FIFO order with respect to completed pushes, and exactly one producer is told to wake the consumer for each empty-to-non-empty transition, so that messages are never stranded and never drained by two consumers at once. The single-producer queue delivers every value once and in order while it grows and shrinks.",
  ["schedules"], "for every interleaving of producers and consumers, with preemption at any memory access and delayed store visibility (x86-TSO)",
  "the tests hammer the queue with real threads on a host whose timings almost never hit the two-instruction windows.",
  ["src/core/thr-mpsc.h", "src/core/thr-spsc.c", "src/core/thr-spsc.h"],
  [("exchange-then-link push", "src/core/thr-mpsc.h"), ("chunked ring", "src/core/thr-spsc.c")],
  how="simulated threads, TSO store buffers, shadow-checked heap, queue ledger oracle", note=SAMPLE)
P("C04", "Event counts never lose a wake-up",
  "A thread that takes a key, checks its condition, and waits on the event count with that key always returns when a strict signal or broadcast happens after the key was taken; a broadcast releases all such waiters and a signal of n at least min(n, waiters) of them. A timed wait returns, with a timeout report, within its delay.",
  ["schedules"], "for every interleaving of waiters and signallers, spurious wake-ups, EINTR and delayed stores included",
  "needs a preemption between the key check and the futex call; unit tests have none for it.",
  ["src/core/thr-evc.c", "src/core/thr-evc.h"],
  [("key/waiters word and futex", "src/core/thr-evc.c")],
  how="simulated futex and threads, deadlock detection and ledger oracle", note=SAMPLE)
P("C05", "Pool allocators hand out disjoint live blocks under concurrency",
  "Blocks obtained from the ring, FIFO, stack and page allocators are aligned, never overlap another live block, and keep their contents until freed or released, whatever threads allocate and release (in whatever order each pool allows) and whether or not memory is reused. Memory released is eventually reused: a bounded workload keeps a bounded footprint.",
  ["schedules", "histories"], "for every interleaving of allocating and releasing threads and every legal allocation/release order",
  "tests use short fixed sequences and one thread per pool.",
  ["src/core/mem-ring.c", "src/core/mem-fifo.c", "src/core/mem-stack.c", "src/core/mem.blk", "src/core/qpage.c"],
  [("spinlocks and block bookkeeping", "src/core/mem-*.c")],
  how="simulated threads, content-stamp and overlap oracle", note=SAMPLE)
P("C06", "Timers fire once, on time, in order, and not after cancel",
  "A one-shot timer fires exactly once, never before its delay has elapsed and by the first loop turn after it has (at the loop's millisecond resolution); a repeating timer fires again after each period; among armed high-resolution timers the earlier deadline fires first. A timer cancelled or restarted, including from another timer's callback, never fires for its old deadline, and the loop never sleeps past the next deadline.",
  ["schedules", "histories"], "for every history of arm/cancel/restart operations, from any callback, under clock jumps and late wake-ups",
  "tests use two or three timers in real time and cannot place cancellations inside callbacks at each heap position.",
  ["src/core/el.blk", "src/el.h", "src/container-qheap.h"],
  [("timer heap", "src/container-qheap.h"), ("el_timer_process", "src/core/el.blk")],
  how="simulated clock and epoll, reference timer model", note=SAMPLE)
P("C07", "Readiness reaches the right descriptor callback, and only it",
  "While a descriptor is watched for events it is ready for, its callback is called within bounded loop turns with exactly ready-and-watched events; no callback runs for an unregistered descriptor or for a stale registration of a reused descriptor number, whatever callbacks register, unregister or re-mask, even each other. Priorities and marks are honoured, inactivity watches trigger once the configured silence has elapsed and not before.",
  ["schedules", "histories", "fault_sequences"], "for every readiness order, EINTR, callback re-entrancy history",
  "tests register one or two descriptors and never unregister from siblings' callbacks.",
  ["src/core/el.blk", "src/core/el-epoll.in.c"],
  [("epoll dispatch with fired list", "src/core/el-epoll.in.c")],
  how="simulated epoll descriptors with random readiness and re-entrant callbacks, reference model", note=SAMPLE)
P("C08", "Signals, children, wakers and hooks are dispatched completely",
  "Every signal received while a handler is registered leads to a later call of it in the loop, never in signal context; every watched child that ends is reported exactly once with its status; a waker fired from any thread leads to its callback on the loop's thread; idle and before hooks run as specified and the loop ends exactly when nothing referenced remains or it is asked to stop.",
  ["schedules", "fault_sequences"], "for every arrival instant of signals, child exits and wake-ups relative to the loop",
  "tests raise one signal and fork one child.",
  ["src/core/el.blk"], [("self-pipe, waitpid loop", "src/core/el.blk")],
  how="simulated signals, children and wakers at arbitrary instants", note=SAMPLE)
P("C09", "Each RPC gets exactly one, matching completion",
  "Every query sent on an RPC channel completes exactly once: with the answer its own handler produced (payload, header and exception status intact), or with an error status when it was cancelled, timed out, or the connection ended. Handlers see each delivered query once with the arguments sent, in sending order on one connection.",
  ["schedules", "fault_sequences", "histories"], "for every segmentation, delay, reset, reconnection, short write and out-of-order reply history",
  "tests exchange few messages over a healthy loopback.",
  ["src/iop/rpc-channel.blk", "src/iop-rpc.h"], [("slot table and message framing", "src/iop/rpc-channel.blk")],
  how="simulated network, several channels, query ledger oracle", note=SAMPLE)
P("C10", "RPC channels make progress: timeouts, keep-alive, reconnection",
  "A query with a timeout completes no later than about its deadline even if the peer is silent; a silent peer is detected when watching is on; a client channel reconnects once faults stop and is then usable; closing or cancelling releases every pending query with an error, and events are reported as alternating connect/disconnect.",
  ["schedules", "fault_sequences"], "for every partition, stall, refused connection and heal sequence",
  "wall-clock tests cannot wait for timeouts nor partition the loopback.",
  ["src/iop/rpc-channel.blk"], [("timers", "src/iop/rpc-channel.blk")],
  how="simulated network and clock with partitions, bounded progress oracle", note=SAMPLE)
P("C11", "HTTP/1.1 messages survive any segmentation and pipelining",
  "The server and client sides of HTTP/1.1 interpret a byte stream identically however it is segmented: same requests, headers and bodies, one reply per request in request order, matching queries on the client. A malformed or oversized message, or a connection loss, leads to error replies or error completions for exactly the affected queries, never a hang, a crash or a mixed-up body.",
  ["inputs", "schedules", "fault_sequences"], "for every segmentation, pipelining depth, reply order and connection loss",
  "tests send whole messages in one write.",
  ["src/net/http.c", "src/http.h"], [("incremental parsers", "src/net/http.c")],
  how="simulated network, real server and client, query ledger oracle", note=SAMPLE)
P("C12", "HTTP/2 streams are multiplexed without loss or corruption",
  "Concurrent HTTP/2 requests each receive exactly their own response with intact headers and body, within the flow-control and concurrency limits the peer announced, whatever the frame interleaving and segmentation; resets, GOAWAY and connection loss complete exactly the affected requests with an error. A malformed message costs its own stream only, a protocol violation closes the connection with GOAWAY, and neither is ever provoked in a peer that follows the protocol.",
  ["inputs", "schedules", "fault_sequences"], "for every frame segmentation, window size, reset and close history",
  "tests issue few requests with default windows.",
  ["src/net/http.c", "src/net/hpack.c"], [("stream table and windows", "src/net/http.c")],
  how="simulated network; real client with real server, and each of them with a scripted HTTP/2 peer that has its own framing, HPACK and flow-control accounting", note=SAMPLE)
P("C13", "A QPS snapshot survives a crash at any point",
  "After a crash at any instant, reopening a persistent store yields exactly the state of the last snapshot reported complete, or of one that was in progress and became durable, never a mixture nor an error, with the private data given for it; modifications made while a snapshot is being written never leak into it. A snapshot is reported once, after it is durable and after the jobs it was told to wait for; a snapshotter left behind by a dead process never changes a store that was opened since; a backup opens in the state of the last complete snapshot.",
  ["crash_points", "fault_sequences", "histories"], "for every crash point, every subset of un-synced writes lost or reordered",
  "tests never crash mid-snapshot or lose un-synced writes.",
  ["src/core/qps.blk"], [("generation files, meta rename", "src/core/qps.blk")],
  how="simulated disk with crash images and forked-writer interleavings", note=SAMPLE)
P("C14", "QPS memory, tables and bitmaps behave as their models",
  "Persistent allocations and page blocks keep their contents and never overlap; tables and bitmaps stored in it behave as sparse arrays and (nullable) bit sets: lookups, removals and the values they report, enumerations from any key, upwards, without missing or inventing an entry, also when the table is changed meanwhile, all across any history of updates, deletions, snapshots, clean and unclean reopenings.",
  ["histories", "crash_points"], "for every operation history with interleaved snapshots and reopenings",
  "tests use fixed sequences without re-opening at arbitrary points.",
  ["src/core/qps.blk", "src/core/qps-hat.c", "src/core/qps-bitmap.c"], [("", "src/core/qps-*.c")],
  how="reference-model refinement across simulated restarts", note=SAMPLE)
P("C15", "Record files return what was durably appended, whatever is torn",
  "Records appended to a binary record file and flushed are read back in order and intact, forwards, from any slot, from the end (last records), and by a reader that follows the file while it is written, across slot boundaries, re-openings and truncations to an earlier end. After a crash or a power loss every record flushed (respectively synced) before it is still there, and a reader returns a prefix of what was appended. Damaged bytes cost at most the records of the slots they are in and those overlapping them: a reader skips them, resumes at a following slot, never crashes and always terminates; a writer that cannot write says so.",
  ["crash_points", "fault_sequences", "inputs"], "for every record size sequence, crash point and torn tail",
  "tests use few record sizes and one hand-made corruption.",
  ["src/core/file-bin.c", "src/file-bin.h"], [("slot headers", "src/core/file-bin.c")],
  how="simulated disk, crash images, list model", note=SAMPLE)
P("C16", "Buffered files and full-I/O helpers lose no byte silently",
  "Data written through a buffered file reaches the file completely, in order and at the right position, or an error is reported, at the latest on close; positions, seeks and truncations agree with those of a plain file, and a failing write keeps what its position says it kept. The full-read/write helpers, the whole-file helpers (write, append, copy, temporary file, read into a buffer or a string) and the JSON/YAML file writers built on them transfer exactly the requested bytes or report an error, whatever short transfers, EINTR, EAGAIN, ENOSPC, EIO or close errors occur; a failure never damages other data, leaves no descriptor open, and leaves no partial file where the helper promises to remove it.",
  ["fault_sequences", "histories"], "for every sequence of short or failing system calls",
  "tests write to a healthy file system.",
  ["src/core/file.c", "src/core/unix.blk"], [("loops around read/write", "src/core/unix.blk")],
  how="simulated disk with faults, byte-array model", note=SAMPLE)
P("C17", "Rotating log files keep every line exactly once, in order",
  "Every message accepted by a rotating log is found exactly once, whole and in order, in the file that was current when it was written, whatever rotations by size, delay or request, restarts, clock jumps and disk errors happen (after a crash or a reported error: every message flushed before). Rotations happen when the configured size or delay is reached, not otherwise; an aborted transaction leaves nothing behind; after a failed rotation later writes recover. Limits on number, age and total size are enforced at each rotation and opening, remove only the oldest files, and never the one being written; events and the symbolic link match the files.",
  ["histories", "fault_sequences"], "for every history of writes, rotations, clock jumps, restarts and disk errors",
  "tests rotate a few times on the real clock.",
  ["src/core/file-log.blk"], [("rotation", "src/core/file-log.blk")],
  how="simulated clock and disk, reference line list", note=SAMPLE)
P("C18", "Output buffers deliver every byte once, in order",
  "Bytes queued in an output buffer, whether copied, formatted, reserved, referenced, given away, mapped or read from a file, and whether queued directly or merged from another buffer, are delivered exactly once and in order, whatever short, interrupted or failing writes happen, through a descriptor or a custom writer. A failing write, file or read loses and invents nothing and can be retried; the length always matches what is left; every successful write makes progress. Memory and mappings given to a buffer stay valid until delivered and are released with it; no descriptor leaks; string buffers filled from a descriptor hold exactly what was read, and are unchanged by a failing read.",
  ["fault_sequences", "histories"], "for every sequence of additions, merges and short or failing system calls",
  "tests write a few buffers to a healthy descriptor.",
  ["src/core/str-outbuf.c", "src/str-outbuf.h", "src/core/str-buf.c"], [("partial consumption", "src/core/str-outbuf.c")],
  how="simulated disk and writers with faults, byte-stream model", note=SAMPLE)
P("C19", "Metrics lose no update and scrapes are consistent",
  "Prometheus metrics can be looked up by label values, updated, read and scraped by any threads at once: no update is lost or counted twice, and given label values always denote the same single child; a read or scrape sees every update finished before it and none begun after it; counters and buckets never go back; the buckets, count and sum shown for a histogram agree with each other. The exposition shows each child that existed before the scrape exactly once, under its metric, with its type, help and label values readable back unchanged and values with all their digits. A removed child is gone and starts from zero if created again; deleted metrics leave nothing behind; a histogram timer observes the time that went by.",
  ["schedules", "histories"], "for every interleaving of updating, creating and scraping threads, and every history of removals between",
  "the tests scrape from one thread after fixed updates.",
  ["src/prometheus-client/metrics.c", "src/prometheus-client/core.c", "src/prometheus-client.h"],
  [("per metric spin locks", "src/prometheus-client/metrics.c"), ("text exposition", "src/prometheus-client/metrics.c")],
  how="simulated threads over the real metrics, ledger of started and finished updates, own exposition parser", note=SAMPLE)
P("C20", "Loggers obey the configuration in force and lose no message",
  "Any threads may log, buffer messages, create and delete loggers of their own and read or list levels while another thread sets or resets levels, on loggers that exist or are yet to be created: a message reaches the handler (or the buffer of its own thread) exactly once, whole, with its level, the full name of its logger and its silent flag, if every configuration in force during the call lets it through, and does not if none does; there is never a level or silent flag that no configuration gave (own level, else one spread recursively from an ancestor, else its default or its parent's). All the levels of one listing are those of one configuration; a message of several lines is delivered line by line, all or none. Stopping a buffer gives exactly the messages its thread logged since it was started, in order, whatever the nesting, and a buffer without the handler hides them from it.",
  ["schedules", "histories"], "for every interleaving of logging threads with configuration changes, and every history of nested buffers",
  "the tests log from one thread.",
  ["src/core/log.c", "src/core/log-iop.c", "src/log.h"],
  [("configuration generations and update lock", "src/core/log.c"), ("buffering per thread", "src/core/log.c")],
  how="simulated threads over the real loggers, history of configurations with their intervals, model of nested buffers", note=SAMPLE)
P("C21", "Modules run exactly while required, in dependency order",
  "Whatever the graph of modules and the order of requirements and releases, made from outside or from within constructors, destructors and methods: a module is up exactly while it is required by hand more often than released or a module that is up depends on it; it is started once its dependencies are up, with the argument provided for it, and stopped before them and after all that depend on it, once per start. A constructor that fails stops the program before anything else is started; a destructor that fails does not keep its dependencies up nor its module from being started again; at exit all that is still up is stopped, in order. Running a method calls it exactly once, with its argument, in each module which implements it and is up throughout, dependencies first or last as the method says, and never in a module that is not started, even when methods load or release modules or run other methods.",
  ["histories", "fault_sequences"], "for every graph of modules, every history of requirements and releases, re-entrant or not, and every failing constructor or destructor",
  "the tests check a few fixed graphs without re-entrancy.",
  ["src/core/module.c", "src/core/module.h"],
  [("requirement counting and shutdown notification", "src/core/module.c"), ("method traversal", "src/core/module.c")],
  how="seeded graphs and histories over the real module registry, model of what must be up, checks in every constructor, destructor and method", note=SAMPLE)
P("C22", "RPCs over HTTP are answered exactly once, with their own answer",
  "Each query made on an HTTP RPC channel, from outside or from the callback of another, gets its callback exactly once, at the latest when the channel is deleted: OK with the result or EXN with the exception that its own handler gave to it, or a status which says that it failed; without a failure of the network or of a peer, a close by the user or a message too large, a query that a handler answers is not reported otherwise. Its handler runs at most once, for the right RPC, with the arguments sent and the login of the query or else of the channel, on the first remote if that was ready, and the hooks of the RPC run around it once; on a single connection queries are delivered in order. No query waits for a connection longer than the connection timeout, nor at all once the last connection attempted has failed, none is timed out earlier unless its connection is silent, and new queries are served again after the faults stop.",
  ["inputs", "schedules", "fault_sequences"], "for every mix of queries, network segmentation and delay, refused, lost, reset and closed connections, and every time at which the channel is closed or deleted",
  "the tests have no HTTP RPC client at all, and only parse fixed requests on the server side.",
  ["src/iop/rpc-http-client.c", "src/iop/rpc-http-server.c", "src/iop/rpc-http.h"],
  [("waiting queries and their timeout", "src/iop/rpc-http-client.c"), ("decoding of requests, replies and hooks", "src/iop/rpc-http-server.c")],
  how="the real HTTP RPC client and servers over the simulated network, ledger of queries as oracle", note=SAMPLE)
PROPS = [p for p in PROPS if p["statement"]]
