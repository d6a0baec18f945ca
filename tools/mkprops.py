#!/usr/bin/env python3
"""Writes properties.jsonl (edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Concurrently buffered spans are neither lost, duplicated nor reordered",
  "When any number of threads add elements to the span buffer while one consumer drains it, every element whose add succeeded is handed to the consumer exactly once and intact, and every element whose add was refused stays with its producer and is never delivered. The elements of one producer arrive in the order in which that producer added them, and elements whose adds do not overlap in time arrive in that order too. A size that any thread reads meanwhile is never negative or more than was added, and the counts of elements added and taken never go back. None of this involves a data race, a leak or a double release, whatever the interleaving.",
  ["schedules", "histories"], "all interleavings of N producers with one consumer, all buffer sizes, all drain batch sizes",
  "The existing test runs a handful of fixed-size thread runs and compares sorted totals; the property quantifies over every interleaving of producers and consumer and over the positions where the ring wraps.",
  ["src/common/circular_buffer.h", "src/common/atomic_unique_ptr.h", "src/common/circular_buffer_range.h"],
  [("CAS on the slot, then CAS on the head; back-out swap when the head CAS fails", "src/common/circular_buffer.h:Add"),
   ("tail published with release order, read by producers", "src/common/circular_buffer.h:Consume")],
  ["return value of Add", "elements handed to the Consume callback"],
  [("head_/tail_", "monotone counters of reserved and consumed slots", "src/common/circular_buffer.h")])

p("C02", "The span buffer is a bounded FIFO with exact capacity and ownership",
  "Used by one thread, the span buffer behaves as a FIFO queue of its configured capacity: an add succeeds exactly when fewer than capacity elements are held, sizes and element counters are exact, peeking shows the held elements in order without removing them, and consuming n elements removes exactly the n oldest. The two-part views it hands out iterate, shrink and compare as the concatenation of their parts. Every element is released exactly once: on consumption, on clearing or when the buffer goes away.",
  ["histories", "inputs"], "all sequences of add, peek, consume and clear, for every capacity, across any number of wrap-arounds",
  "Tests check a few hand-written sequences on one size; the wrap-around arithmetic depends on the whole history and on the capacity.",
  ["src/common/circular_buffer.h", "src/common/circular_buffer_range.h", "src/common/atomic_unique_ptr.h"],
  [("one slot is kept empty to tell full from empty", "src/common/circular_buffer.h:Add"), ("two spans around the wrap point", "src/common/circular_buffer.h:PeekImpl")],
  ["Add, Peek, Consume, Clear, size, max_size, empty, consumption_count, production_count"],
  [("capacity_", "max_size + 1", "src/common/circular_buffer.h")])

p("C03", "The spin lock excludes and the atomic owning pointer owns",
  "At most one thread at a time is inside the region guarded by the library's spin lock and each section sees the effects of all earlier ones. The atomic owning pointer holds at most one object: a swap hands the previous object to exactly one caller, a conditional swap that reports success installed the object into an empty holder and one that reports failure left both sides as they were, and every object is deleted exactly once.",
  ["schedules", "histories"], "all interleavings of lock and unlock, and of swap, conditional swap, reset and destruction",
  "The tests take the lock from a few threads and swap pointers from one; exclusion and ownership are statements about every interleaving.",
  ["src/common/spin_lock_mutex.h", "src/common/atomic_unique_ptr.h"],
  [("atomic_flag test_and_set(acquire)/clear(release)", "src/common/spin_lock_mutex.h"), ("compare_exchange / exchange on a raw pointer", "src/common/atomic_unique_ptr.h")],
  ["a critical section's shadow state", "object construction and destruction counts"])

p("C04", "A vectored write sends exactly the bytes it reports, in order",
  "However the operating system splits, refuses or fails a vectored write, the bytes that reach the socket are exactly a prefix of the concatenated fragments of the given streams, with nothing repeated, skipped or altered, and the streams afterwards hold exactly the remaining suffix. It reports completion exactly when everything was written, and stops before that only when the system took less than it was given; would-block leaves the remainder for a later call and any other error is raised to the caller as an exception, never as a signal. This holds for any number of streams and fragments, including empty ones and more than the system's limit on fragments per call.",
  ["fault_sequences", "inputs"], "all stream and fragment layouts, all sequences of short writes, would-block results and errors",
  "There is no runnable test for it; real sockets rarely write short, so the positions at which the split can fall are never covered.",
  ["src/network/vector_write.cpp", "src/common/fragment_input_stream.cpp", "src/common/platform/network_unix.cpp"],
  [("batching of fragments up to the limit, seek by written byte count", "src/network/vector_write.cpp"), ("Consume: turns a byte count into a seek position", "src/common/fragment_input_stream.cpp")],
  ["writev/sendmsg arguments and results", "return value", "streams' remaining bytes"])

p("C05", "Fragmented streams always equal the bytes they were given",
  "A stream assembled from fragments (a span's chunked output, a fixed list of fragments, or a chain of such streams) yields exactly the bytes written to it, in order; its reported fragment count is the number of fragments it yields. Seeking or consuming any number of bytes leaves exactly the rest, in one step or in many, appending keeps what is already there, clearing leaves nothing, and copying out gives the same bytes in one piece. Chaining or destroying any number of streams of any size needs no more stack than one.",
  ["inputs", "histories"], "all write-chunk sequences, chain layouts, and sequences of partial consumption, append, clear and copy-out",
  "No runnable test covers these classes; the seek arithmetic depends on where a cut falls relative to block and stream boundaries.",
  ["src/common/chained_stream.cpp", "src/common/composable_fragment_input_stream.cpp", "src/common/fragment_array_input_stream.cpp", "src/common/fragment_input_stream.cpp", "src/common/in_memory_stream.cpp", "src/common/buffer_chain.cpp"],
  [("block list with per-block size, CloseOutput", "src/common/chained_stream.cpp"), ("SegmentSeek over linked streams", "src/common/composable_fragment_input_stream.cpp"), ("fragment index and offset", "src/common/fragment_array_input_stream.cpp")],
  ["ForEachFragment, num_fragments, Seek, Consume, Clear, Append, CopyOut"])

p("C06", "Hand-written wire encodings are valid protobuf of the computed size",
  "Every message the library encodes by hand (varints, tagged fields, strings, nested messages, key-values, the embedded internal-metrics record) occupies exactly the number of bytes computed for it in advance and decodes with a standard protobuf parser to the values that were encoded. Encoding never writes outside the buffer sized by that computation, for every value including the extremes. The dropped-span count in the metrics record is exactly the one last set.",
  ["inputs"], "all field numbers, integers of every varint length and sign, string lengths including zero and beyond one block, nested sizes",
  "Tests encode a few constants; off-by-one sizes show up only at the varint length boundaries and negative values.",
  ["src/common/serialization.h", "src/common/serialization.cpp", "src/common/direct_coded_output_stream.h", "src/common/protobuf.h", "src/common/protobuf.cpp", "src/recorder/serialization/embedded_metrics_message.cpp", "src/common/utility.h"],
  [("ComputeVarintSize and size helpers", "src/common/serialization.h"), ("direct stream writes without bounds checks", "src/common/direct_coded_output_stream.h"), ("fixed-width dropped-span varint patched in place", "src/recorder/serialization/embedded_metrics_message.cpp")],
  ["encoded bytes", "protobuf parse result", "computed sizes"])

p("C07", "A report is always one well-formed message containing exactly its spans",
  "The body of a report request parses as one report message whose spans are exactly the spans added to it, in order and unaltered, preceded by the configured reporter and credentials, and whose dropped-span metric is exactly the number of dropped spans recorded for that report. Its byte count and fragment count are those of the fragments it yields, and iterating over them, wholly or stopping early, or copying them out gives the same bytes every time.",
  ["inputs", "histories"], "all span sizes and counts, header contents, dropped counts (including zero and very large), stopping points",
  "The report-request test is not among the runnable ones and covers two spans; framing is a statement about every size combination.",
  ["src/recorder/serialization/report_request.cpp", "src/recorder/serialization/report_request_header.cpp", "src/recorder/serialization/embedded_metrics_message.cpp", "src/common/report_request_framing.cpp", "src/common/composable_fragment_input_stream.cpp"],
  [("span key and length prefix written in front of each span", "src/common/report_request_framing.cpp"), ("running byte count", "src/recorder/serialization/report_request.cpp")],
  ["BufferChain interface: num_bytes, num_fragments, ForEachFragment, CopyOut", "parsed ReportRequest"])

p("C08", "Partially sent spans are resumed by exactly the connection that began them",
  "Draining the shared span stream by any sequence of partial consumptions hands out every buffered span's bytes exactly once and in order. When a consumption stops inside a span, the rest of that span is set aside for that consumer alone and no other consumer sees any of it; a span that nobody started stays in the buffer. Spans handed out completely are counted as sent exactly once.",
  ["histories", "fault_sequences"], "all consumption lengths relative to span boundaries, interleaved with adds and any number of consumers",
  "The stream's own test cannot be run here, and it stops at a few hand-picked offsets.",
  ["src/recorder/stream_recorder/span_stream.cpp", "src/recorder/metrics_tracker.cpp", "src/common/circular_buffer.h"],
  [("Seek: consume whole spans, keep the remainder of the last", "src/recorder/stream_recorder/span_stream.cpp"), ("ConsumeRemnant", "src/recorder/stream_recorder/span_stream.cpp")],
  ["fragments yielded", "remnant handed out", "sent-span callbacks"],
  [("remnant_", "the unsent part of a span begun by the current consumer", "src/recorder/stream_recorder/span_stream.h")])

p("C09", "Dropped-span accounting never loses or invents a count",
  "Every dropped span reported to the accounting is reported to the back end or still pending: counts taken for a report and put back when it fails add up, at any moment when nothing is in flight, to exactly the drops recorded, however the recording threads and the reporter interleave. The user's metrics observer is told of every flush, sent span and dropped span that the accounting is told of, exactly once and on the thread that told it.",
  ["schedules", "histories"], "all interleavings of drop recording with taking and returning counts",
  "Only single-threaded totals can be compared in a unit test, and no runnable test covers the class.",
  ["src/recorder/metrics_tracker.cpp", "src/recorder/metrics_tracker.h"],
  [("atomic exchange with zero, add back", "src/recorder/metrics_tracker.cpp")],
  ["MetricsTracker callbacks", "ConsumeDroppedSpans/UnconsumeDroppedSpans", "MetricsObserver calls"])

p("C10", "Generated identifiers never repeat across threads or forked processes",
  "Identifiers drawn by any mix of threads, and by parent and child processes after any pattern of forks, are pairwise distinct up to the chance collision of 64 random bits, and their bits are unbiased. Drawing never blocks, races or reuses a generator state that another thread or process also uses. Several identifiers drawn in one call are as independent as those drawn one by one.",
  ["schedules", "histories"], "all thread counts and start times, all fork trees including forks from threads that have and have not drawn before",
  "The test forks once from one thread and compares one pair; seeding and fork handling are per thread.",
  ["src/common/random.cpp", "src/common/random.h", "src/common/fast_random_number_generator.h", "src/common/platform/fork_unix.cpp"],
  [("thread-local generator seeded from the random device, reseeded by a fork handler", "src/common/random.cpp")],
  ["GenerateId, GenerateIds in threads and children"])

p("C11", "Random waits stay within their bounds and random visits cover everything once",
  "A random duration lies between the two given bounds, whatever the bounds, the (integer) unit and their order of magnitude as long as they fit in nanoseconds, with no arithmetic overflow, and over many draws comes close to both ends. A random traversal of n slots visits each of them exactly once until told to stop, in an order that varies, for every n including zero.",
  ["inputs", "histories"], "all bound pairs (equal, zero, large) and units of a nanosecond or coarser, all traversal sizes and stopping points",
  "Tests draw a few values from one interval and traverse one size.",
  ["src/common/random.cpp", "src/common/random.h", "src/common/random_traverser.cpp", "src/common/random_traverser.h"],
  [("scaling a random number into the interval", "src/common/random.cpp:GenerateRandomDuration"), ("Fisher-Yates shuffle of the index array", "src/common/random_traverser.cpp")],
  ["GenerateRandomDuration, RandomTraverser"])

p("C12", "Times reported to the back end match the clocks exactly and never run backwards",
  "Start time and duration of a span are those given by the caller, converted without losing precision beyond the clock's tick or overflowing, for every time after 1970 (up to 2^62 ns, in 2116); when only one of the two clocks is given the other is derived from it. Timestamps written to the wire decode to the time that was encoded, with nanoseconds in range, and the span's duration is never negative when the clock did not go backwards.",
  ["inputs"], "all system times after the epoch, which itself means 'not given', all combinations of given and missing clock readings",
  "Tests use the current time; precision and carry errors show only at particular sub-second values.",
  ["src/common/timestamp.cpp", "src/common/timestamp.h", "src/common/protobuf.cpp", "src/tracer/utility.cpp"],
  [("seconds/nanoseconds split", "src/common/timestamp.cpp"), ("steady-to-system derivation", "src/common/timestamp.cpp:ComputeSystemSteadyTimestamps")],
  ["encoded timestamps", "ComputeStartTimestamps/ConvertClock results"])

p("C13", "Configured satellites are contacted by their right host and port, in fair turns",
  "From the configured list of satellites, names are grouped so that every (host, port) pair is kept with its own port and host header, none is lost or invented, and each distinct name is resolved once. Connection attempts rotate over all configured endpoints and over all addresses resolved for each (IPv4 ones where there are any, else IPv6), so that every endpoint is tried at each of its addresses in turn and none is starved, and each attempt goes to an address and port of the endpoint whose host name it announces.",
  ["configurations", "histories"], "all lists of host and port pairs with repetitions, all resolution results",
  "Tests separate one list; pairing errors depend on the order and repetition of entries.",
  ["src/recorder/stream_recorder/utility.cpp", "src/recorder/stream_recorder/satellite_endpoint_manager.cpp", "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp", "src/recorder/stream_recorder/host_header.cpp"],
  [("SeparateEndpoints", "src/recorder/stream_recorder/utility.cpp"), ("round-robin indices", "src/recorder/stream_recorder/satellite_endpoint_manager.cpp:RequestEndpoint")],
  ["separated host and endpoint lists", "RequestEndpoint results", "host header text"])

p("C14", "Network addresses survive parsing, copying, printing and comparison",
  "An address built from text, from a raw system address or by copying denotes the same family, address and port as its source; printing and re-parsing it is the identity; the scope of an IPv6 address from a system structure is kept. Two addresses compare equal exactly when family, address and port agree. Malformed text is rejected with an error and never accepted as a different address, and nothing outside the address structure is read.",
  ["inputs"], "all IPv4 and IPv6 addresses and ports, all well- and ill-formed texts",
  "Tests parse three constants.",
  ["src/network/ip_address.cpp", "src/network/ip_address.h"],
  [("storage copy by family size", "src/network/ip_address.cpp"), ("inet_pton/inet_ntop", "src/network/ip_address.cpp")],
  ["IpAddress accessors, comparison, stream output, thrown errors"])

p("C15", "Every socket is closed exactly once and never used after",
  "A file descriptor opened by the library is closed exactly once, by whichever object owns it last: moving a socket transfers ownership, assigning over an open one closes the old descriptor, and failures while opening, configuring or connecting leak nothing and raise an error. Sockets are set non-blocking and reuse-address as requested and a connection attempt to any address returns without blocking.",
  ["histories", "fault_sequences"], "all sequences of construction, move, assignment, connect and destruction, with a failure injected into any system call",
  "Tests move one socket; ownership errors need particular sequences and failing system calls.",
  ["src/network/socket.cpp", "src/network/socket.h", "src/common/platform/network_unix.cpp"],
  [("move nulls the source descriptor, Free closes", "src/network/socket.cpp"), ("EINPROGRESS is not an error", "src/network/socket.cpp:Connect")],
  ["socket, connect, setsockopt, fcntl and close calls"])

p("C16", "The small key-value map behaves as an ordered map",
  "The flat map used for baggage and tags behaves as a map from string to string: inserting or assigning a key keeps exactly one entry per key, with first-insert or last-write meaning as the call says, looking up finds exactly the entries inserted, and iteration visits every entry exactly once in the map's key order. Iterators, counts and emptiness agree, for any sequence of operations.",
  ["histories", "inputs"], "all sequences of insertions, assignments and lookups with equal, adjacent and extreme keys",
  "Tests insert three keys in one order; position errors depend on the order of insertion.",
  ["src/common/flat_map.h", "src/tracer/baggage_flat_map.h"],
  [("sorted vector with binary search", "src/common/flat_map.h")],
  ["insert, insert_or_assign, lookup, iteration"])

p("C17", "Hexadecimal and base64 text codecs are exact inverses and reject the rest",
  "Converting any 64- or 32-bit number to hexadecimal and back is the identity, in fixed width and without leading zeros alike, and a 128-bit text splits into the right halves. Text that is not hexadecimal, or does not fit, is rejected; letter case, surrounding blanks and leading zeros are accepted as documented. No byte outside the given text is read, for any bytes whatsoever.",
  ["inputs"], "all numbers; all byte strings including non-ASCII ones of every length",
  "Tests convert a handful of ASCII strings.",
  ["src/common/hex_conversion.cpp", "src/common/hex_conversion.h", "src/tracer/binary_carrier.cpp"],
  [("lookup tables", "src/common/hex_conversion.cpp"), ("NormalizeHex, HexToUint64, HexToUint128", "src/common/hex_conversion.cpp")],
  ["conversion results and errors", "address sanitizer"])

p("C18", "A finished span reports exactly what the program recorded on it",
  "For every span that is sampled and finished, the span delivered to the back end carries the operation name last set, the start time and duration, every tag with its last value and type, every log in order with its timestamp and fields, and its references; nothing recorded after finish changes it. It is delivered once however often it is finished, on destruction if never finished, and not at all when not sampled. Text being UTF-8, values of every kind arrive equal or, when they are nested, as JSON of the same value (numbers there to six digits), whatever the global locale.",
  ["inputs", "programs"], "all sequences of span calls with all value kinds, by both tracer implementations",
  "No tracer test can be run here; a test samples a few tags, the property covers every sequence of calls and value.",
  ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/serialization.cpp", "src/common/utility.cpp", "src/tracer/tracer_impl.cpp", "src/tracer/legacy/legacy_tracer_impl.cpp"],
  [("streaming serialization into the span's chained stream", "src/tracer/span.cpp"), ("protobuf collector::Span built under a lock", "src/tracer/legacy/legacy_span.cpp")],
  ["spans decoded from what the transport receives"])

p("C19", "Children inherit trace, baggage and sampling from their references",
  "A span started with references to other spans continues the trace of the first and names each of them with its kind of relation; without valid references it starts a new trace, under an id that nothing else has. It inherits the baggage of all its references (of equal keys, one of the values), the trace flags and the trace state of all of them, and is sampled exactly when any of them is unless its own sampling tag says otherwise; baggage set later is seen by it and its later children only, last write wins, and it never leaks into siblings or the parent.",
  ["programs", "histories"], "all trees and graphs of spans from both tracer implementations, local and extracted contexts, all orders of baggage updates",
  "Tests use one parent and one child.",
  ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/tracer_impl.cpp", "src/tracer/utility.cpp", "src/tracer/immutable_span_context.cpp"],
  [("reference handling on construction", "src/tracer/span.cpp"), ("baggage map merge", "src/tracer/legacy/legacy_span.cpp")],
  ["span contexts, baggage iteration, delivered spans"])

p("C20", "Trace context survives any supported carrier unchanged",
  "For each propagation format and carrier, and ids and baggage of UTF-8 text, injecting a span context and extracting it gives back the same span id, the same trace id to the width that format carries, the same sampling decision where the format carries one, and, where baggage is carried, exactly the same baggage, with lower-cased keys where the carrier folds case. Extracting from a carrier without a context reports that there is none, rather than an error or a made-up context. Several formats configured together each inject their own headers and any one of them suffices to extract.",
  ["inputs", "configurations"], "all contexts (ids, sampling, baggage of any size), all formats, carriers and combinations of them",
  "No propagation test can be run here; tests use a few fixed ids, and combinations of formats are hardly covered.",
  ["src/tracer/propagation/propagation.cpp", "src/tracer/propagation/multiheader_propagator.cpp", "src/tracer/propagation/trace_context_propagator.cpp", "src/tracer/propagation/trace_context.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/tracer/propagation/envoy_propagator.cpp", "src/tracer/propagation/binary_propagation.cpp", "src/tracer/propagation/baggage_propagator.cpp", "src/tracer/binary_carrier.cpp"],
  [("per-format propagator pairs", "src/tracer/propagation")],
  ["injected headers or bytes", "extracted contexts"])

p("C21", "No incoming carrier, however hostile, can crash or mislead extraction",
  "Extracting from arbitrary header names, values or binary bytes returns either a context, no context or an error, in time and memory proportional to the input, without undefined behaviour. A context is returned only when the carrier really holds well-formed ids for one of the configured formats, and then with exactly those ids.",
  ["inputs"], "all byte strings in all headers and binary carriers, in every propagation configuration",
  "Tests try a few malformed strings; the input space is unbounded and attacker-controlled.",
  ["src/tracer/propagation", "src/common/hex_conversion.cpp", "src/tracer/binary_carrier.cpp"],
  [("bounded parsers with error results", "src/tracer/propagation")],
  ["extraction results", "sanitizers", "reference parser"])

p("C22", "Manually flushed reporting conserves spans under failures and overload",
  "With an application-provided asynchronous transport, every finished span is, at any quiescent moment, in exactly one place: delivered in exactly one successful report, counted as dropped, buffered, or in a report still in flight. Failed reports and overflow turn into dropped counts that later reports carry; a flush triggered by a full buffer or an explicit call submits everything buffered then, and completion callbacks may come late, out of order or from within the call. (The deprecated transport has one report in flight at a time; a flush during it waits for the next.)",
  ["fault_sequences", "histories", "schedules"], "all sequences of span finishes, flushes and transport outcomes, including immediate and delayed completion",
  "The recorder's test cannot be run here and uses one outcome per test.",
  ["src/recorder/manual_recorder.cpp", "src/recorder/legacy_manual_recorder.cpp", "src/recorder/report_builder.cpp", "src/recorder/metrics_tracker.cpp"],
  [("swap of the pending report under a lock, restore of dropped counts on failure", "src/recorder/manual_recorder.cpp"), ("encoding sequence number", "src/recorder/legacy_manual_recorder.cpp")],
  ["transport's Send calls and their contents", "metrics observer", "FlushWithTimeout result"])

p("C23", "Streamed reports reach satellites as well-formed HTTP, each span at most once",
  "Every byte stream the streaming recorder sends on a connection is a sequence of well-formed chunked HTTP requests whose bodies parse as reports, whatever the satellite does: slow reading, early or late or malformed responses, resets, refusals. Every finished span is delivered at most once over all connections, exactly once when satellites stay up, and a span refused by the full buffer is counted as dropped and reported. After faults stop, streaming resumes within the configured reconnection delays.",
  ["fault_sequences", "schedules", "histories"], "all satellite behaviours at every byte of the exchange, any number of satellites and connections, all span rates",
  "The streaming tests need OpenTracing and cannot be run here; they use one well-behaved satellite.",
  ["src/recorder/stream_recorder/satellite_connection.cpp", "src/recorder/stream_recorder/connection_stream.cpp", "src/recorder/stream_recorder/satellite_streamer.cpp", "src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/common/chunked_http_framing.cpp", "src/network/vector_write.cpp"],
  [("connection stream composition: header, metrics, remnant, spans, terminal fragment", "src/recorder/stream_recorder/connection_stream.cpp"), ("state machine of a satellite connection", "src/recorder/stream_recorder/satellite_connection.cpp")],
  ["bytes received by fake satellites", "metrics observer", "log messages"])

p("C24", "Flush and close are truthful, bounded in time and safe at any moment",
  "A flush of a streaming or background recorder that reports success means that everything finished before it has left the buffer (handed to a connection or the transport, or dropped); a flush or close with a timeout returns within that timeout plus scheduling slack whatever the network does, and closing or destroying the tracer at any moment, from any state of its connections, neither hangs nor crashes nor touches freed memory. While satellites or transport take what they are given, a flush with time enough succeeds; once shut down, no connection is opened again. Spans finished after close, or after the tracer is gone, do no harm.",
  ["schedules", "fault_sequences"], "all moments of flush, close and destruction relative to connection states and concurrent span activity",
  "Tests flush against one responsive satellite.",
  ["src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/auto_recorder.cpp", "src/recorder/fork_aware_recorder.cpp", "src/tracer/tracer_impl.cpp", "src/tracer/legacy/legacy_tracer_impl.cpp"],
  [("condition-variable wait with a target count", "src/recorder/stream_recorder/stream_recorder.cpp:FlushWithTimeout"), ("shutdown counter", "src/recorder/stream_recorder/stream_recorder.cpp:ShutdownWithTimeout")],
  ["return values, elapsed time in generous bounds, satellites' received spans"])

p("C25", "Background reporting conserves spans through transport failures",
  "With a synchronous transport, the background recorder delivers every finished span in exactly one report or counts it as dropped: it reports at least once per reporting period while there is something to send, keeps at most the configured number of spans, and carries the dropped count of failed or overflowing periods into a later report. A failing or slow transport neither stops it nor loses accounting; a throwing transport or a collector's disable command ends reporting, and every later span counts as dropped.",
  ["fault_sequences", "schedules"], "all interleavings of span finishes, flushes and transport outcomes",
  "The recorder's test cannot be run here and scripts one schedule per case.",
  ["src/recorder/auto_recorder.cpp", "src/recorder/report_builder.cpp", "src/recorder/transporter.cpp", "src/common/condition_variable_wrapper.h"],
  [("writer thread's loop, double-buffered report builder", "src/recorder/auto_recorder.cpp")],
  ["transport's Send calls and contents", "metrics observer"])

p("C26", "Reporting survives forks of the host process",
  "With a recorder that can fork (streaming, and manual with the current transport), when the host process forks at any moment, parent and child both go on working: the parent's spans are each reported once and by the parent only, the child's own spans are reported by the child, neither reports the other's, and neither deadlocks or crashes. This holds however many times the process forks, provided that no other thread is using the tracer at the moment of the fork.",
  ["schedules", "histories"], "all fork moments relative to span activity, flushes and network activity, nested forks",
  "No runnable test forks a reporting tracer.",
  ["src/recorder/fork_aware_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp", "src/common/platform/fork_unix.cpp"],
  [("atfork handlers over the list of active recorders", "src/recorder/fork_aware_recorder.cpp"), ("recorder implementation torn down before and recreated after the fork", "src/recorder/stream_recorder/stream_recorder.cpp")],
  ["spans received by satellites, by process", "exit of both processes"])

p("C27", "The tracer may be used from any threads without data races",
  "Starting, tagging, logging, finishing, injecting and extracting spans, setting baggage, flushing and closing from any threads at once is free of data races and of memory errors, for spans shared between threads too, with every recorder that is documented for threads (not the deprecated manual one). The result of concurrent updates to one span is that of some order of them.",
  ["schedules"], "all interleavings of public calls on shared tracers and spans",
  "Unit tests are single-threaded, and no tracer test can be run here.",
  ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/tracer_impl.cpp", "src/tracer/tracer.cpp", "src/recorder"],
  [("span mutex / spin lock", "src/tracer/span.cpp"), ("lock-free span buffer", "src/common/circular_buffer.h")],
  ["thread sanitizer", "delivered spans"])

p("C28", "Name resolution calls back exactly once, with what the server answered",
  "Each resolution request calls its callback exactly once: with exactly the addresses that the server answered for that name and family, or with an error when the server refuses, answers nonsense or does not answer within the configured time. Callbacks may start further requests. Destroying the resolver at any moment, outside its callbacks, ends the outstanding requests with an error and leaks nothing.",
  ["fault_sequences", "inputs"], "all server behaviours: answers, errors, truncation, garbage, silence, delay",
  "The resolver's test needs a network name server and cannot be run here.",
  ["src/network/ares_dns_resolver/ares_dns_resolver.cpp", "src/network/ares_dns_resolver/ares_library_handle.cpp", "src/network/event_base.cpp"],
  [("c-ares channel driven by libevent sockets and a timer", "src/network/ares_dns_resolver/ares_dns_resolver.cpp")],
  ["callbacks", "queries seen by a fake server"])

p("C29", "Configuration text is applied field by field or rejected with a reason",
  "A JSON configuration either yields a tracer configuration in which every given field has its given value and every other field its default, or is rejected with a non-empty explanation; no text crashes the library or is silently half-applied. Making a tracer from an accepted configuration never throws out of the library.",
  ["inputs", "configurations"], "all JSON documents, well- and ill-formed, all field combinations and extreme values",
  "Tests load a few documents and cannot be run here.",
  ["src/tracer/json_options.cpp", "src/tracer/lightstep_tracer_factory.cpp", "src/tracer/dynamic_load.cpp", "src/tracer/tracer.cpp"],
  [("protobuf JSON parse, then field by field copy", "src/tracer/json_options.cpp")],
  ["resulting options", "error message"])

p("C30", "Log lines reach the sink whole, at the right level, and never throw",
  "A message is passed to the configured sink exactly once, whole, and with its own level, when its level is at or above the threshold, and not at all otherwise; changing the threshold takes effect for later messages. Concurrent messages are not mixed into each other, and no exception of a value being printed or of the sink escapes into the host program.",
  ["inputs", "schedules"], "all levels, thresholds, message contents and concurrent callers",
  "Only a few messages are logged by tests, and the logger's test cannot be run here.",
  ["src/common/logger.cpp", "src/common/logger.h"],
  [("level comparison, stringstream assembly", "src/common/logger.h")],
  ["sink calls"])

p("C31", "Satellite responses parse the same however the bytes arrive",
  "The parser of satellite responses gives the same status code, reason and completeness for any split of the same bytes into pieces, and, after a reset, behaves as new. The code is the number after the line's first blank and the reason what follows its second; a line without two blanks is rejected with an error. It reads nothing outside the bytes given.",
  ["inputs"], "all byte strings and all ways to split them",
  "Its test cannot be run here and uses two splits.",
  ["src/recorder/stream_recorder/status_line_parser.cpp", "src/recorder/stream_recorder/status_line_parser.h"],
  [("incremental line accumulation", "src/recorder/stream_recorder/status_line_parser.cpp")],
  ["status_code, reason, completed, thrown errors"])

p("C32", "Timers and events fire when due, only while alive, and are freed once",
  "A timer or event registered with the event loop fires for its condition or period and its owner, never after it was removed or destroyed, including from within its own callback; moving it transfers ownership. Every one is released exactly once, failures to create or add it raise an error without leaking, and deferred one-shot timers run once.",
  ["histories", "fault_sequences"], "all sequences of creation, add, remove, move, reset and destruction, inside and outside callbacks",
  "Tests arm one timer and cannot be run here.",
  ["src/network/event.cpp", "src/network/event_base.cpp", "src/network/timer_event.cpp"],
  [("event_free in the destructor, move nulls the source", "src/network/event.cpp"), ("OnTimeout: allocated callback freed when run", "src/network/event_base.cpp")],
  ["callback log", "allocation count", "sanitizers"])

p("C33", "Nothing grows, however long a program runs",
  "However often a program makes and closes tracers, starts threads that use them, forks, injects and extracts contexts, reads configurations, loses and regains connections or reports into failures, the memory, descriptors, threads and fork handlers that the library holds return to the same level: they stay bounded by the configured buffer and connections, not by how long the program has run. Spans finished beyond what the buffer holds are let go at once.",
  ["histories", "fault_sequences"], "all long histories of use, with satellites and transports that work, fail, stall or refuse",
  "Tests run for seconds and look at results, not at what is left behind.",
  ["src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/recorder/stream_recorder/satellite_connection.cpp", "src/recorder/auto_recorder.cpp", "src/recorder/manual_recorder.cpp", "src/recorder/fork_aware_recorder.cpp", "src/common/random.cpp", "src/common/circular_buffer.h", "src/tracer/tracer.cpp", "src/network/event_base.cpp"],
  [("one fork handler per process", "src/common/random.cpp"), ("a full buffer drops what is added", "src/recorder/stream_recorder/stream_recorder.cpp"), ("sockets, events and streams are released when a connection ends", "src/recorder/stream_recorder/satellite_connection.cpp")],
  ["bytes in use", "open descriptors", "threads", "registered fork handlers"])

p("C34", "A carrier's own failure comes back to the caller",
  "When the carrier that a program passes to inject or extract fails, refusing a key, failing a look-up, breaking off an iteration, throwing, or as a stream that breaks anywhere, the call returns the carrier's own error (an I/O error for a stream) or lets its exception through, uses the carrier no further, never ends the process, and leaves the span and its context as they were. A context of another tracer is refused with invalid_span_context_error and nothing is written. Carriers with and without look-up by key give the same result.",
  ["fault_sequences", "inputs"], "all carriers and all points at which they can fail, for every propagation format and both tracers",
  "Tests use carriers that always work.",
  ["src/tracer/propagation/propagation.h", "src/tracer/propagation/binary_propagation.cpp", "src/tracer/propagation/multiheader_propagator.cpp", "src/tracer/propagation/envoy_propagator.cpp", "src/tracer/propagation/baggage_propagator.cpp", "src/tracer/propagation/trace_context_propagator.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/tracer/tracer_impl.cpp", "src/tracer/legacy/legacy_tracer_impl.cpp"],
  [("first failure of Set ends the injection", "src/tracer/propagation/multiheader_propagator.cpp"), ("a stream that can't be read is an error", "src/tracer/propagation/binary_propagation.cpp"), ("look-up first, iteration where it is not supported", "src/tracer/propagation/utility.h")],
  ["error codes and exceptions", "calls on the carrier after its failure", "span contexts before and after"])

p("C35", "Headers mean what other implementations of each format take them to mean",
  "What is injected is, header by header, what the format prescribes, complete, each header once and no other: ids as lower-case hex of full width, the sampling decision where there is a header for it, a version-00 traceparent with the context's flags and its tracestate, a cloud trace context with decimal span id and option, Envoy's base64 message, and baggage under its prefix. Headers written by other implementations, in any form that the format leaves open (ids with or without leading zeros, in either case, 64- or 128-bit, no sampling decision, which counts as sampled, a cloud trace context without option or span, later traceparent versions, unknown message fields, any order and on HTTP any capitalization), are extracted to exactly the context they describe. When several formats are present the first configured one that is complete counts, Lightstep's own headers also serving where Envoy's is missing, and nothing of other formats' headers mixes in.",
  ["inputs"], "all contexts, all configurations of formats, all spellings that a format allows, all mixtures of formats in one carrier",
  "Tests round-trip the library with itself; a mistake made on both sides, or a spelling that only others use, goes unnoticed.",
  ["src/tracer/propagation/multiheader_propagator.cpp", "src/tracer/propagation/b3_propagator.cpp", "src/tracer/propagation/lightstep_propagator.cpp", "src/tracer/propagation/envoy_propagator.cpp", "src/tracer/propagation/trace_context_propagator.cpp", "src/tracer/propagation/trace_context.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/tracer/propagation/baggage_propagator.cpp", "src/tracer/propagation/propagation.cpp", "src/tracer/propagation/propagation_options.cpp", "src/tracer/propagation/binary_propagation.cpp", "src/common/hex_conversion.h"],
  [("header names and prefixes of each format", "src/tracer/propagation/b3_propagator.cpp"), ("extractors tried in the configured order", "src/tracer/propagation/propagation.cpp"), ("sampled unless a header says otherwise", "src/tracer/propagation/multiheader_propagator.cpp"), ("Envoy falls back to Lightstep's headers", "src/tracer/propagation/propagation_options.cpp")],
  ["names and values passed to the carrier's Set", "ids, flags, trace state, sampling and baggage of extracted contexts"])

p("C36", "Recording never waits for reporting",
  "Starting, tagging, logging to, propagating and finishing spans, and flushes with a short timeout, complete on any number of threads however long whatever reports them is held up: a satellite that takes or answers nothing, a name that is never resolved, a resolver, connect, write, event loop or logger that doesn't return, a transport inside its send, or other threads that wait in a flush or close. What no longer fits the buffer is dropped instead. The recording threads do no network work of their own, and a transport may itself be traced by the tracer it serves.",
  ["schedules", "fault_sequences"], "all points at which reporting can be held, all numbers of recording threads and spans beyond the buffer",
  "Tests report to a transport or satellite that goes on, so a lock held across slow work passes them.",
  ["src/recorder/auto_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/recorder/manual_recorder.cpp", "src/common/circular_buffer.h", "src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp"],
  [("the report is sent outside the lock", "src/recorder/auto_recorder.cpp"), ("a full buffer drops at once", "src/recorder/stream_recorder/stream_recorder.cpp")],
  ["completion of recording threads while a gate is shut", "network calls made by recording threads"])

p("C37", "A process may end at any moment of a tracer's life",
  "However the process ends (main returns, exit on any thread, main's thread left early, quick_exit, _exit, exec, a signal) and whatever holds the tracer then (a global or function-level static, a static destroyed after the library's own, a thread-local, a leaked pointer, spans or contexts only, threads that go on recording or wait in a flush), it ends with the exit code it meant to and in bounded time, without a crash, without touching memory or static objects that are gone, and without waiting for a recorder that never ends. Exit handlers and destructors of static objects may go on using a tracer they keep alive: finish and drop spans, record new ones, propagate, flush and close. The same holds in children of a fork. Spans that were flushed (background and manual recorders) or closed (streaming recorder) with success before the end have been delivered, once each, when the other side takes them.",
  ["schedules", "histories", "fault_sequences"], "all ways to end a process, places to hold a tracer, things done on the way out, states of recorder and satellites",
  "A unit test's process ends once, by returning from main with its tracers destroyed; what statics and threads do after that is never seen.",
  ["src/recorder/fork_aware_recorder.cpp", "src/common/random.cpp", "src/tracer/tracer.cpp", "src/recorder/stream_recorder/stream_recorder_impl.cpp", "src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/auto_recorder.cpp", "src/recorder/manual_recorder.cpp"],
  [("statics that need no destruction", "src/recorder/fork_aware_recorder.cpp:mutex_, active_recorders_"), ("the recorder's thread is told to stop and joined by its destructor", "src/recorder/stream_recorder/stream_recorder_impl.cpp")],
  ["exit status and time of processes", "sanitizer reports of processes on their way out", "spans received from processes that are gone"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
