#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only because JSON lines are hard to review).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=observe,hook_needed=None)))

p("C01","Fan-out: every event reaches exactly its configured destinations, in order",
 "Every metric, log line or raw message that a source takes in is delivered exactly once to each sink its forwards lead to (directly or through pass-through filters), unaltered and in the order the source took it in on each path, and to no other sink. This holds whether the queues between components stay in memory or spill to disk, and whatever short reads and writes and interrupted system calls the spill files meet while the disk has room.",
 ["schedules","configurations","fault_sequences","inputs"],
 "every interleaving of source, filter, sink and flush threads; every small topology of sources, filters and sinks; queue memory/disk limits from a few events upward; short and interrupted I/O on the spill files",
 "The unit tests exercise components one at a time with in-memory queues and one schedule; nothing runs the assembled topology, a spilled queue, or a failing disk.",
 ["src/util.rs","src/bin/cernan.rs","src/matrix.rs","src/filter/mod.rs","src/sink/mod.rs"],
 [("clone to every channel, retry on transient errors","src/util.rs:send"),("forward graph","src/matrix.rs"),("wiring","src/bin/cernan.rs")],
 ["bytes accepted by the simulated endpoints of each sink","scraped expositions","stdout of the console sink"])

p("C02","Graceful shutdown drains everything and terminates",
 "When cernan is told to terminate (SIGTERM or SIGINT) while its downstream endpoints are reachable, it stops in bounded time with exit status 0, and everything its sources had taken in before stopping - including events still queued in memory or on disk, held back by a filter, or aggregated but not yet flushed by a sink - has been handed to every configured destination by then. This holds however many sources and filters feed a sink and in whatever order they stop.",
 ["schedules","configurations","histories"],
 "every point in the run at which the signal lands, every shutdown order of the components, every topology with several sources and filters per sink, sinks with no source, every backlog",
 "No test starts the whole process and signals it; the drain depends on counting end-of-stream marks across threads, for which the tests only have one source and one schedule.",
 ["src/bin/cernan.rs","src/sink/mod.rs","src/filter/mod.rs","src/thread.rs","src/source/tcp.rs","src/http.rs"],
 [("one end-of-stream mark per upstream, counted by consumers","src/sink/mod.rs:consume, src/filter/mod.rs:run"),("source stop channel","src/thread.rs"),("join order","src/bin/cernan.rs:main")],
 ["exit status","data delivered to endpoints up to exit","simulated time between signal and exit"])

p("C03","TCP ingestion does not depend on how the byte stream is cut up",
 "For every source that listens on TCP (graphite lines, avro frames, native frames), what is taken in from one connection is a function of the bytes sent on it alone: each complete, well-formed line or frame is taken in exactly once and in order. Segment boundaries, pauses, short reads, interrupted system calls, other connections and several messages arriving at once make no difference.",
 ["schedules","inputs","fault_sequences"],
 "every segmentation and timing of the byte stream including cuts inside length prefixes, multi-byte characters and payloads, every interleaving of connections, every readiness-notification pattern",
 "Tests feed whole messages over real loopback sockets; the cut positions a network produces are neither controlled nor repeated.",
 ["src/source/nonblocking.rs","src/source/tcp.rs","src/source/graphite.rs","src/source/native.rs","src/source/avro.rs","src/protocols/graphite.rs","src/protocols/native.rs"],
 [("incremental length-prefixed reader","src/source/nonblocking.rs"),("buffered line reader","src/source/graphite.rs"),("edge-triggered readiness loop","src/source/tcp.rs")],
 ["events delivered to sinks, compared with a reference decoder of the sent bytes"])

p("C04","A misbehaving TCP client harms nobody but itself",
 "A client that sends malformed or oversized input, closes mid-message, resets the connection or goes silent can at most lose its own connection and its own unfinished or malformed messages: the complete, well-formed messages it sent before are still delivered, other connections (present and future) and sources keep working, and a later termination request still drains and exits with status 0. The descriptor and thread serving a connection are released when the peer goes away.",
 ["inputs","schedules","fault_sequences","histories"],
 "every malformed byte sequence from a grammar of near-misses, every position of close/reset, every interleaving with healthy clients, repeated connect/disconnect histories",
 "Tests send a fixed handful of bad inputs to a parser; none observes other connections, resource release, or a later shutdown.",
 ["src/source/tcp.rs","src/source/avro.rs","src/source/native.rs","src/source/graphite.rs","src/source/nonblocking.rs","src/thread.rs"],
 [("one thread per connection","src/source/tcp.rs"),("per-connection error handling","src/source/{avro,native,graphite}.rs"),("joining connection threads at shutdown","src/thread.rs")],
 ["deliveries of healthy clients","open descriptors and live threads in the simulated process","exit status","panic messages"])

p("C05","StatsD datagrams are taken in all or nothing",
 "Each valid UTF-8 StatsD datagram whose lines are all well-formed contributes each of its metrics exactly once with the documented type, value, sign and sample-rate meaning; a datagram with any malformed line contributes nothing at all. Neither outcome depends on other datagrams, bursts, or errors the socket reports in between, and every datagram the kernel queued is eventually read while cernan runs.",
 ["inputs","schedules","fault_sequences"],
 "every mixture of good and bad datagrams in one burst, every wake-up pattern, transient receive errors, loss/duplication/reordering before the socket",
 "Parser tests see one string at a time with a fresh result vector, never a burst through the socket loop.",
 ["src/source/statsd.rs","src/protocols/statsd.rs"],
 [("drain loop over the socket","src/source/statsd.rs:handle_datagrams"),("line parser","src/protocols/statsd.rs:parse_statsd")],
 ["values delivered to sinks versus a reference parser","packet counters in internal telemetry"])

p("C06","Tailed files: each appended line exactly once, whole and in order",
 "Every non-empty newline-terminated line appended to a watched file after cernan has begun to watch it is emitted exactly once, unbroken, with its path, and in file order; a line still being written is emitted only once its newline arrives, and bytes which are not UTF-8 are replaced rather than ending anything. This holds across partial writes, pauses, rotation (the file renamed and a new one created in its place), truncation noticed by the watcher after the content has been read, many files, read errors, short reads and a full descriptor table - as long as a file stays readable for a few polls before it is rotated again or truncated.",
 ["histories","schedules","fault_sequences"],
 "every sequence of append/partial append/rename/recreate/truncate operations by the writer, interleaved at every system call of the watcher",
 "The model test drives the watcher from one thread with whole lines; it never lets the writer act between two of the watcher's system calls.",
 ["src/source/file/file_watcher.rs","src/source/file/file_server.rs"],
 [("position and file identity tracking","src/source/file/file_watcher.rs"),("round-robin over watchers","src/source/file/file_server.rs")],
 ["log lines delivered to sinks versus the lines the simulated writer completed"])

p("C07","An avro publish is acknowledged only when Kafka concluded on that very message",
 "A client that asked for a synchronous publish receives exactly one acknowledgement carrying the id it chose, never before a Kafka sink the message is routed to concluded on that very message (stored by the broker, or given up for an unrecoverable error), and does receive it once one has. Messages that did not ask for acknowledgement never get one and never cause an earlier one for another message, even on the same connection.",
 ["schedules","histories","fault_sequences"],
 "every mixture of synchronous and asynchronous publishes per connection, every broker delay, error and reconnection schedule, one or several Kafka sinks",
 "Tests mock the completion; ordering between earlier asynchronous completions and a later synchronous wait needs particular broker timing.",
 ["src/source/avro.rs","src/metric/ackbag.rs","src/sink/kafka.rs"],
 [("acknowledgement registry","src/metric/ackbag.rs"),("acknowledge on conclusion","src/sink/kafka.rs"),("wait then reply","src/source/avro.rs")],
 ["bytes received by the avro client, in time order with the produce responses of the simulated broker"])

p("C08","Kafka sink publishes each raw message at least once, retrying transient errors",
 "Every raw message routed to a Kafka sink is stored by the broker at least once on the configured topic with its exact payload, key and headers, as long as the broker's errors are of the recoverable kind (leader changes, timeouts, connection loss) and eventually stop; a message the broker refuses for good does not stop the ones after it. The payload bytes held in flight never exceed the configured limit by more than one message.",
 ["fault_sequences","schedules","histories"],
 "every sequence of broker errors, delays, disconnections and restarts, every flush timing, every in-flight limit",
 "Tests use a mock of the producer with canned results; the real client library, its retries and its threads are never run.",
 ["src/sink/kafka.rs","src/sink/mod.rs"],
 [("retry of recoverable errors until concluded","src/sink/kafka.rs:flush"),("in-flight limit","src/sink/kafka.rs:valve_state")],
 ["produce requests accepted by the simulated broker"])

p("C09","Wavefront: every aggregated point is delivered despite proxy failures",
 "Every aggregated point is eventually sent to the Wavefront proxy as one well-formed line with the right name, value, timestamp and tags whenever the proxy becomes reachable again after refusing, closing, resetting or stalling; a batch is dropped only after all its bytes were accepted by a connection, and is otherwise sent again in full on a new connection. On a connection that stays healthy each point is sent exactly once.",
 ["fault_sequences","schedules"],
 "every placement of refused connects, resets, short writes and stalls relative to flushes",
 "Tests format points in memory and never open a connection.",
 ["src/sink/wavefront.rs","src/buckets.rs"],
 [("retry loop with reconnect","src/sink/wavefront.rs:flush")],
 ["bytes received per connection by the simulated proxy, and results of the sink's system calls"])

p("C10","Native transport carries events between cernans unchanged",
 "Counters, gauges, summaries and log lines sent by the native sink arrive at the receiving cernan's native source with the same name/path, kind, values, timestamp (seconds), persistence and tags, in order (over each connection); a batch is dropped only after all its bytes were accepted by a connection, and otherwise sent again in full on a new connection. On a connection that stays healthy each event arrives exactly once, including after idle periods.",
 ["fault_sequences","schedules","inputs"],
 "every mixture of telemetry and lines, every idle gap, every placement of connection failure relative to a flush, every segmentation of the stream",
 "Tests build one payload and decode it in memory; no connection, no failure, no idle flush.",
 ["src/sink/native.rs","src/source/native.rs","src/protocols/native.rs"],
 [("length-prefixed protobuf payloads with retry","src/sink/native.rs:flush"),("decoder","src/source/native.rs")],
 ["frames received by a simulated upstream; events re-emitted by the receiving side"])

p("C11","InfluxDB: every point is written until the server accepts it",
 "Every telemetry point routed to the InfluxDB sink is contained, with the right name, tags, value and nanosecond timestamp, in a write that the server answered with success, as soon as the server stops failing (5xx, refused or broken connections, slow replies); points are repeated only if the earlier attempt was not answered with success. Retries back off and later points wait their turn rather than being lost.",
 ["fault_sequences","schedules"],
 "every sequence of server answers and connection failures",
 "Tests only format lines; no request is ever made (the sink's tests are not even runnable here).",
 ["src/sink/influxdb.rs"],
 [("infinite report loop","src/sink/influxdb.rs:flush")],
 ["requests received and answers given by the simulated server"])

p("C12","Elasticsearch: every log line is indexed or its attempts are used up",
 "Every log line routed to the Elasticsearch sink appears in bulk requests, under one unchanging document id with its path, text, tags and time, until the server acknowledges that item; failures of a whole request never use up an item's attempts, and an item is given up only after its configured number of individual refusals (delivery_attempt_limit) is used up. An item that has been acknowledged is not sent again, and one item's fate does not affect the others.",
 ["fault_sequences","histories","schedules"],
 "every pattern of per-item errors, whole-request errors, malformed or missing answers and connection failures, including during shutdown",
 "Integration tests need a live Elasticsearch and are not in the suite.",
 ["src/sink/elasticsearch.rs"],
 [("per-line id and attempt count","src/sink/elasticsearch.rs:flush")],
 ["bulk requests and answers at the simulated server"])

p("C13","Every Prometheus scrape is a consistent snapshot of what was delivered",
 "Every successful scrape is a complete, well-formed exposition that reflects, for each metric, exactly some prefix of the points delivered to the sink: counters are the sum of it, gauges its latest value, histograms cumulative over it with matching sum and count, summaries with the sum and count of all their samples and quantiles over the samples of the configured window; successive scrapes never go backwards along it. Concurrent scrapes, slow or vanishing scrapers and concurrent deliveries lose or double nothing and block nobody, and points delivered before a scrape began by more than the queueing delay are in it. (A metric keeps the kind it was first seen with, and one name stands for one tag set.)",
 ["schedules","inputs","fault_sequences"],
 "every interleaving of scrapes, deliveries and window purges; scrapers that stall, disconnect or send malformed requests",
 "Tests call the aggregation directly from one thread, never the HTTP path.",
 ["src/sink/prometheus.rs","src/http.rs"],
 [("shared aggregation behind a lock","src/sink/prometheus.rs"),("single-threaded HTTP loop","src/http.rs")],
 ["HTTP responses received by simulated scrapers"])

p("C14","Aggregation per flush is right for every arrival order and timing",
 "For aggregating sinks, what is reported for a metric, tag set and time bin equals the aggregation of exactly the points of that bin that reached the sink: sums add, gauges keep the last value (with relative changes applied to the value in force), timers and histograms summarise exactly their samples, and distinct names and tag sets never mix. A gauge keeps its value across flushes as the starting point of relative changes and is reported again by later flushes, other metrics are reported once and not again, and no point is counted in two flushes or in none; padding between bins adds zeroes only.",
 ["inputs","schedules","histories"],
 "every sequence of points over names, tags, kinds, timestamps and bin widths, split over flushes at every position",
 "Property tests exercise the bucket structure alone, on random points without flush timing or clock.",
 ["src/buckets.rs","src/metric/telemetry.rs","src/sink/wavefront.rs","src/sink/console.rs"],
 [("binned aggregation","src/buckets.rs"),("addition of telemetry","src/metric/telemetry.rs")],
 ["lines received by the simulated Wavefront proxy and console output versus an independent model"])

p("C15","Flush cadence: buffered data leaves on time, under load and clock trouble",
 "While its downstream is healthy, a sink hands on everything it has buffered within its configured flush interval (plus a small scheduling allowance) of receiving it, at the configured pace - neither skipped nor repeated for the same pulse - no matter how many sources and filters feed it, how busy or idle they are, or whether the wall clock jumps forwards or backwards. Timestamps cernan assigns follow the wall clock within a second.",
 ["schedules","fault_sequences","configurations"],
 "every interleaving of pulses over several paths, wall-clock jumps and slews, bursts and idleness, flush intervals from 10 ms up",
 "No test runs the timer together with sinks; time is never controlled.",
 ["src/source/flush.rs","src/sink/mod.rs","src/time.rs","src/bin/cernan.rs"],
 [("numbered pulses with de-duplication","src/sink/mod.rs:consume"),("pulse source","src/source/flush.rs"),("cached clock","src/time.rs")],
 ["simulated times of intake and of delivery at the endpoint"])

p("C16","Time filters: delay drops exactly the out-of-date; flush-boundary loses none",
 "The delay filter forwards exactly those points and lines whose timestamp is within the configured tolerance of the current time, unchanged and in order, and everything else it lets pass. The flush-boundary filter forwards every event exactly once, keeping the order of those with the same timestamp, after holding points and lines back until the configured number of flush pulses has passed since the first one of their timestamp, and no longer (raw messages are not held back); none is lost, not even when cernan terminates.",
 ["inputs","schedules","fault_sequences"],
 "every timestamp (including absurd ones), every clock jump, every pulse pattern from several upstreams, termination at any point",
 "Tests call the filter functions with a fixed clock and a handful of timestamps.",
 ["src/filter/delay_filter.rs","src/filter/flush_boundary_filter.rs","src/filter/mod.rs"],
 [("tolerance test","src/filter/delay_filter.rs"),("hold buffer aged by pulses","src/filter/flush_boundary_filter.rs")],
 ["events reaching the sinks behind the filter, with times"])

p("C17","Programmable filter: scripts see each event once, failures stay contained",
 "A programmable filter applies its script to every metric and log line exactly once and in order, forwards exactly what the script left or pushed, passes pulses on and runs the script's tick once per pulse number with the state earlier calls left behind. A missing function or a script error on one event puts exactly one failure metric (cernan.filter.<path>.<function>.failure) in that event's place, a failing tick one behind the pulse (which passes all the same), costs no other event, and never stops or slows the filter, however often it happens.",
 ["inputs","histories","schedules"],
 "every sequence of events and pulses over scripts that modify, push, drop, raise errors or lack functions, for long histories",
 "Tests run a script on one event at a time; repeated errors and long histories are not reached.",
 ["src/filter/programmable_filter.rs","src/filter/mod.rs"],
 [("Lua state kept across calls","src/filter/programmable_filter.rs"),("error path returning the event","src/filter/mod.rs")],
 ["events reaching the sinks behind the filter"])

p("C18","Internal telemetry conserves counts",
 "The counts cernan reports about itself add up: over a run, the sum of the values emitted for each counter (packets, lines, messages, deliveries, failures, retries, drops) equals the number of times the thing happened up to the last report, with no increment lost or reported twice while components keep counting concurrently.",
 ["schedules","histories"],
 "every interleaving of counting and reporting threads, every report timing",
 "No test compares reported counts with real activity, let alone under concurrency.",
 ["src/source/internal.rs"],
 [("read-and-reset of shared counters on each report","src/source/internal.rs")],
 ["internal metrics delivered to a sink versus activity seen by the simulator"])

p("C19","A stalled or slow sink holds up nobody else; overflow is bounded and counted",
 "When one destination stalls, refuses or is slow, events keep flowing to all other destinations without loss, sources keep accepting, and the stalled destination's backlog waits in its bounded queue and is delivered in order once it recovers. Only when that queue's configured memory and disk capacity is used up are events dropped - the newest, for that destination only, each one counted - and disk use stays within the configured number of queue files and one more, each of the configured size plus one event.",
 ["fault_sequences","schedules","configurations"],
 "every stall pattern of every sink, every queue capacity, every mix of traffic",
 "No test has a stalled endpoint or a full queue.",
 ["src/util.rs","src/sink/mod.rs","src/bin/cernan.rs"],
 [("bounded disk-backed queue per component","src/bin/cernan.rs"),("drop and count when full","src/util.rs:send"),("valve","src/sink/mod.rs")],
 ["deliveries at healthy and stalled endpoints, size of the simulated spill directory, drop counter"])

p("C20","JSON-encode filter turns each log line into one faithful JSON message",
 "Every log line entering a JSON-encode filter leaves it as exactly one raw message whose JSON carries the line's text (or, when parsing is on and the text is a JSON object, its members), path, time, tags and fields with correct precedence and escaping, while metrics pass unchanged and the order is kept. No line content, time or tag makes the filter fail, lose or duplicate an event.",
 ["inputs","schedules"],
 "every line content including invalid JSON, nested documents, control characters, extreme times; every interleaving with other events",
 "Tests encode three fixed lines.",
 ["src/filter/json_encode_filter.rs"],
 [("line to JSON conversion","src/filter/json_encode_filter.rs:process")],
 ["messages stored by the simulated Kafka broker behind the filter"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
