"""What each check runs.  prog: harness/<prog>.cpp; flavor: asan, tsan or plain; full: link all of /repo/src."""
ST = "sanitizers (ASan+UBSan, TSan) under stress; "
CHECKS = {}


def check(pid, runs, rule, technique, note, level="exploration", assumptions=(), min_distinct=2):
    CHECKS[pid] = dict(runs=runs, rule=rule, technique=technique, note=note, level=level,
                       assumptions=list(assumptions), min_distinct=min_distinct)


def R(prog, flavor, **kw):
    return dict(prog=prog, flavor=flavor, **kw)


check("C01", [R("c01_buffer_mt", "tsan", reps_thorough=2), R("c01_buffer_mt", "asan", reps_thorough=2), R("c01_buffer_mt", "plain", reps_thorough=3)],
      "each case is a randomly sized run of 1-6 producers against one consumer, with workers preempted at random "
      "instructions by signals; non-trivial and distinct = a different global delivery order of producers",
      "stress + offline history checker (exactly-once, FIFO, real-time order, conservation) + TSan/ASan",
      "Holds on the recorded executions: every add, refusal and delivery of each run is checked against a sequential "
      "specification; races and memory errors by sanitizers.")
check("C02", [R("c02_buffer_seq", "asan"), R("c02_aged", "plain", timeout=500, timeout_thorough=1500)],
      "each case is a random history of adds, peeks, consumptions and clears against a deque; distinct = a different "
      "sequence of outcomes; one more buffer is used for more than 2^31 adds", "model-based random histories + ASan/UBSan",
      "Every operation of every generated history is compared with a reference queue; releases are counted.")
check("C03", [R("c03_lock_ptr", "tsan"), R("c03_lock_ptr", "asan"), R("c03_lock_ptr", "plain")],
      "threads hammer the lock and the pointer while signals preempt them; distinct = a different order of entries",
      "stress with overlap/ownership monitors + TSan/ASan",
      "Overlap is watched inside the critical sections and ownership by object counts, on the executions run.")
check("C04", [R("c04_vector_write", "asan")],
      "each case writes random streams through a scripted writev (short counts, would-block, errors) or a real socket pair "
      "with a tiny buffer until done; distinct = a different layout and cut sequence",
      "fault injection at the system call + byte-conservation oracle + ASan/UBSan",
      "After every call: bytes accepted by the system call + bytes still in the streams = bytes given.", level="fault_enumeration")
check("C05", [R("c05_streams", "asan")],
      "each case builds random streams and applies a random history of consume, seek, append, clear; distinct = a "
      "different layout and history", "model-based random histories + ASan/UBSan",
      "Streams are compared byte for byte with a string model after each operation.")
check("C06", [R("c06_wire", "asan")],
      "each case encodes random or extreme values by the library's writers into exact-size heap blocks or streams of random "
      "block size and decodes them with protobuf and a decoder of our own; distinct = different bytes",
      "round trip through an independent decoder in exact-size buffers + ASan/UBSan",
      "Every encoding generated is decoded again and its size compared with the size computed for it.")
check("C07", [R("c07_report", "asan")],
      "each case builds a report from random options, spans of random sizes and a dropped count and checks it after "
      "several additions; distinct = different report bytes",
      "round trip through protobuf's decoder, fragment and byte accounting + ASan/UBSan",
      "Every report built is decoded and compared with what was put in.")
check("C08", [R("c08_spans", "asan")],
      "each case drives 1-4 connections over one span buffer with writers that accept random byte counts, block or fail "
      "after part of the data, plus resets and shutdowns; distinct = a different sequence of cuts",
      "fault injection in the writer + exactly-once and conservation monitors over what each connection received + ASan/UBSan",
      "All bytes each connection got are parsed as HTTP and protobuf and every span is traced.", level="fault_enumeration")
check("C09", [R("c09_metrics", "tsan"), R("c09_metrics", "asan")],
      "each case is a run of recording threads against reporters that take counts and put them back, with preemption by "
      "signals, alone and inside connections; distinct = a different sequence of counts taken",
      "stress + conservation monitor over takes, puts and observer calls + TSan/ASan",
      "At quiescence delivered + pending = recorded; each thread compares what the observer was told on it with what it did.")
check("C10", [R("c10_ids", "asan", leaks=False), R("c10_ids", "tsan"), R("c10_ids", "plain", reps=2, reps_thorough=4)],
      "each case is a random tree of forks, from main and other threads, before and after first draws, or a set of threads; "
      "distinct = a different tree", "exactly-once monitor over all ids of all processes (shared memory) + frequency monitors + TSan/ASan",
      "All ids drawn by all threads and processes of a run are compared; bit frequencies within 8 standard deviations.")
check("C11", [R("c11_random", "asan")],
      "each case draws from bounds of any magnitude and unit, or traverses n slots 30 times; distinct = different bounds or orders",
      "range and permutation monitors over draws + UBSan", "Every draw and every traversal made is checked.")
check("C14", [R("c14_ip", "asan")],
      "each case makes addresses five ways, or reads text that is valid, damaged or noise; distinct = different addresses or text",
      "round trips and comparison with a byte model + ASan/UBSan on exact-size structures", "Every address built is compared with raw bytes.")
check("C15", [R("c15_socket", "asan")],
      "each case is a random history of socket operations or a connection attempt with a system call made to fail; distinct = "
      "a different sequence of system calls", "descriptor-lifecycle monitor at the system calls with fault injection + ASan/UBSan",
      "Every socket, close, fcntl, setsockopt and connect is observed; the set of open descriptors is compared with the owners.", level="fault_enumeration")
check("C16", [R("c16_flat_map", "asan")],
      "each case is a random history of insertions and look-ups; distinct = a different sequence of keys",
      "model-based random histories + ASan/UBSan", "Every operation is compared with an ordered map.")
check("C17", [R("c17_codecs", "asan")],
      "each case writes and reads numbers in all widths and cases, or reads arbitrary, damaged or near-valid text; distinct = "
      "different numbers or text", "comparison with direct definitions on exact heap blocks + ASan/UBSan",
      "Every text generated is read by the library and by definition; out-of-bounds reads are caught by ASan.")
check("C27", [R("c27_threads", "tsan", timeout=300), R("c27_threads", "asan", timeout=300)],
      "each case lets two to six threads tag, log, rename, read, inject, refer to and finish shared spans of one tracer, over a recorder "
      "that keeps everything or over real streaming and background recorders that are flushed, closed and released meanwhile; distinct = a "
      "different delivered order of updates",
      "stress with injected preemption under TSan and ASan/UBSan + offline order checker (each delivered sequence, register and snapshot "
      "must be explained by the recorded intervals of the calls)",
      "Only relaxed counters record the intervals, so the recording hides no race.")
check("C28", [R("c28_dns", "asan", timeout=240)],
      "each case runs the real resolver on virtual time against one to three fake name servers that answer, err, truncate, answer over TCP "
      "in pieces, send nonsense, delay or stay silent, with overlapping requests, requests from callbacks and destruction at a random "
      "moment; distinct = a different sequence of queries and outcomes",
      "virtual-time fault injection at name servers + exactly-once and answer-equality monitors + ASan/UBSan",
      "Each callback's addresses are compared with what the servers gave; names that all servers answer in time must resolve.",
      level="fault_enumeration")
check("C29", [R("c29_config", "asan", timeout=240)],
      "each case is a JSON document, generated with its meaning or mutated, or a combination of options; distinct = a different document or combination",
      "generated configurations + model comparison of every option and of the reports sent + ASan/UBSan",
      "Mutated documents are judged by a separate parse with protobuf's own JSON reader.")
check("C30", [R("c30_logger", "tsan"), R("c30_logger", "asan")],
      "each case is a sequence of messages, threshold changes and throwing values and sinks, or four threads logging at once, "
      "to a sink or to the standard error stream; distinct = different messages", "exactly-once monitor at the sink + TSan/ASan",
      "Every message that arrives is compared with every message sent.")
check("C31", [R("c31_status_line", "asan")],
      "each case parses a response, valid or not, whole, in random pieces, in every two pieces and byte by byte, with new and "
      "reset parsers; distinct = a different response", "differential check over splits + a definition of the line + ASan/UBSan",
      "All splits of a response must agree with the whole and with the definition.")
check("C32", [R("c32_events", "asan")],
      "each case runs random timers, events and deferred calls on a virtual clock, acting on themselves and each other from "
      "inside callbacks, or makes allocations fail; distinct = a different sequence of firings",
      "virtual-time monitor of every firing against due times, allocation ledger, fault injection + ASan/UBSan",
      "Each firing is checked against a model of what is due; memory of the loop must return to its start.")
check("C33", [R("c33_steady", "asan", full=True, timeout=300, timeout_thorough=600)],
      "each case repeats one thing (tracers, threads, forks, propagation, configurations, batches) for rounds with satellites and transports "
      "in random moods, or runs a streaming recorder for minutes of virtual time, or overfills a buffer; distinct = a different "
      "arrangement or sequence of connections", "resource-level monitor (bytes in use, descriptors, threads, fork handlers) over repeated histories + ASan/UBSan",
      "What is held is measured between rounds; what grows in every round is reported. Spans beyond the buffer must leave memory as it was.")

check("C34", [R("c34_carriers", "asan", timeout=240)],
      "each case injects into and extracts from carriers of every format that fail or throw at every step in turn, and from "
      "streams that break at every byte; distinct = a different carrier content and point of failure",
      "systematic fault injection at every step of the carrier + error-identity and no-further-use monitors + ASan/UBSan",
      "All points of failure of each generated carrier are tried; the result is compared with the carrier's own error.",
      level="fault_enumeration")
check("C36", [R("c36_nowait", "asan", full=True, timeout=120)],
      "each case lets several threads record more spans than fit while the streaming, background or manual recorder is held inside its "
      "resolver, connect, write, event loop, logger or transport, or faces stuck, deaf, refusing or unresolved satellites, with others "
      "waiting in flushes and closes; distinct = a different sequence of span operations and point of holding",
      "progress monitor: gates inside interposed calls and scripted transports, threads that must end while the gate is shut, watch on "
      "network calls + ASan/UBSan",
      "While the gate is shut all recording threads must get through; a minute is allowed for what takes milliseconds, and no lock held in a gate ever opens.")
check("C37", [R("c37_exit", "asan", full=True, leaks=False, timeout=500, timeout_thorough=6000)],
      "each case starts a child that makes a tracer of one kind, holds it in one place, records, and ends in one way, with handlers "
      "and destructors that use it on the way out, threads that go on recording, waiters and forks; distinct = a different plan",
      "monitor of processes: exit status, time and sanitizer reports of the children, and the spans they left with satellites and "
      "transports + ASan/UBSan",
      "Every child must end by itself as it meant to, quickly and without a report; what it flushed or closed before must have arrived.")
check("C35", [R("c35_interop", "asan")],
      "each case extracts headers that an independent writer of random formats wrote, in the spellings they allow and mixed with "
      "other formats', or reads with independent readers what a random context is injected as; distinct = different headers",
      "differential monitoring against independent writers and readers of every format + ASan/UBSan",
      "Every header injected is compared with the format's own text, every context extracted with the one sent.")
check("C13", [R("c13_endpoints", "asan")],
      "each case groups a random list of satellites, or drives the endpoint manager with a resolver that answers, fails and "
      "refreshes as scripted on virtual time and asks for endpoints in between; distinct = a different sequence of endpoints",
      "fairness and membership monitors over the endpoints handed out, scripted resolver, virtual time + ASan/UBSan",
      "Every endpoint handed out is checked against the answers given so far; whole turns must be even.")
check("C12", [R("c12_times", "asan")],
      "each case converts random and extreme times, or records spans by both tracers with given or missing clock readings on a "
      "virtual clock that moves at each reading, or sets the system clock under the streaming recorder; distinct = different "
      "times", "comparison with exact arithmetic on a virtual clock + ASan/UBSan",
      "Every start, duration and log time delivered must be the given one or lie within the readings around the call.")
check("C18", [R("c18_span_content", "asan")],
      "each case is a random program on several spans of one tracer: tags, logs, names, references, sampling, finishing twice, "
      "use after finish, destruction, tracer released first; distinct = a different program",
      "model of each span compared with the delivered one through protobuf and an independent JSON reader + ASan/UBSan",
      "Every delivered span is compared field by field with what was recorded on it.")
check("C19", [R("c19_inherit", "asan")],
      "each case is a random graph of spans of both tracers and of made, extracted, null and foreign contexts, with baggage and "
      "sampling set at random moments; distinct = a different graph", "model of inheritance compared with every context and every delivered span + ASan/UBSan",
      "After every operation contexts are compared with the model, so that leaks into siblings or parents show.")
check("C20", [R("c20_propagation", "asan")],
      "each case sends a random context (from spans of both tracers, made or extracted) through a random list of formats over a "
      "text map, HTTP headers with changed case and order, a stream or a message, whole and with one format's headers only; "
      "distinct = a different configuration and shape of context", "round trip through every format and carrier in exact heap blocks + ASan/UBSan",
      "Every context that comes out is compared with the one that went in, to the width of the format.")
check("C21", [R("c21_hostile", "asan")],
      "each case extracts from noise, from valid headers of random formats, repeated, damaged, truncated or swapped, from streams of "
      "damaged messages, or from megabytes, in a random configuration; distinct = a different carrier",
      "comparison with independent parsers of every format over exact heap blocks + ASan/UBSan",
      "A context that comes out must be among those that an independent reading of the carrier finds.")
check("C22", [R("c22_manual", "asan"), R("c22_manual", "tsan")],
      "each case finishes spans, flushes and completes reports in a random order over a transport that completes late, at once, out "
      "of order, from inside its calls, fails, throws or disables, on both recorders, or from several threads at once; distinct = a "
      "different sequence of report sizes, dropped counts and outcomes",
      "conservation and exactly-once monitor over scripted transports, fault injection + ASan/UBSan and TSan",
      "At each report sent its spans and dropped count are compared with those buffered; at the end finished = delivered + dropped.")
check("C25", [R("c25_auto", "asan", full=True, timeout=240), R("c25_auto", "tsan", full=True, timeout=240)],
      "each case finishes spans, moves a virtual clock, flushes and changes the maximum while a scripted transport succeeds, fails, "
      "hangs, throws or disables, or runs threads against a failing transport in real time; distinct = a different sequence of "
      "report sizes, dropped counts and outcomes",
      "virtual-time conservation, exactly-once and timeliness monitor over a scripted transport + ASan/UBSan and TSan",
      "Each report sent is compared with what is buffered; whenever the writer sleeps nothing due may be left; at the end finished = delivered + dropped.")
check("C23", [R("c23_stream", "asan", timeout=240)],
      "each case runs the real streaming recorder on virtual time against fake satellites that read slowly, stall, reset, close, "
      "answer early, late, in pieces or with noise, refuse connections or fail to resolve, over sockets whose buffers are tiny and "
      "whose writes are cut short or fail; distinct = a different sequence of deliveries, drops and endings of connections",
      "virtual-time fault injection at satellites, sockets and resolver + exactly-once, conservation and HTTP monitors over all bytes "
      "received + ASan/UBSan",
      "All bytes of every connection are parsed as HTTP and protobuf, every span is traced, and finished = delivered + dropped at the end.",
      level="fault_enumeration")
check("C24", [R("c24_flush", "asan", timeout=240), R("c24_flush", "tsan", timeout=240)],
      "each case flushes, closes, shuts down or destroys a tracer with a streaming or background recorder in real time, from several "
      "threads, with satellites or transports in one of ten conditions from prompt to unreachable; distinct = a different sequence of "
      "finishes and flush outcomes",
      "stress with flush-truth, time-bound, no-reopening and leak monitors over fake satellites + ASan/UBSan and TSan",
      "Each flush's answer is compared with what left the buffer and what arrived, each return with its bound (5 s slack), after the "
      "end no connection or descriptor may be left.")
check("C26", [R("c26_fork", "asan", leaks=False, timeout=240), R("c26_fork", "plain", timeout=240)],
      "each case is a tree of processes, forked at random moments by the main or another thread, with one to three tracers of "
      "streaming or manual recorders each; distinct = a different tree with a different number of spans",
      "stress over fork trees + exactly-once, ownership and conservation monitors over what satellites in a process of their own received "
      "+ ASan/UBSan",
      "Every connection is attributed to the process that opened it, every span to the process that finished it.")
