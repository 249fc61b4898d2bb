#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Every emission reaches every sink exactly once, in order, unaltered",
  "Each Event/EventErr/Timing/Gauge/Complete call (with or without key-values) on a stream or on one of its jobs is delivered synchronously, exactly once, to every sink that was added before the call, in the order the sinks were added, carrying the job's name (\"general\" for calls made on the stream itself) and exactly the event name, value, nanoseconds, status and key-values of that call. A completion carries the time elapsed between the job's creation and the completion call. Sinks added later see only later emissions, several jobs of a stream never mix their names or start times, and this holds when several goroutines emit on jobs of one stream at the same time.",
  ["inputs", "histories", "schedules"], "all call sequences over streams, jobs, sinks, names, values and elapsed times; all interleavings of emitting goroutines",
  "The tests emit one call of each kind through one sink; no ordering, several sinks, several jobs, odd names or concurrent emitters are tried.",
  ["health.go"], [("the loop over sinks in each emission method", "health.go Event..CompleteKv"), ("job creation records name and start", "health.go NewJob/NewStream")],
  observe=["calls received by a user-written Sink"])
p("C02", "Key-values: call overrides job overrides stream, and nothing leaks",
  "The key-values every sink receives for an emission are exactly the union of the stream's, the job's and the call's key-values as set at that moment, where for a shared key the call's value wins over the job's and the job's over the stream's; without any key-values the sink receives none. Emitting never changes the maps the caller passed in or the stream's or job's own key-values, and key-values given to one call or one job never show up in another call or another job.",
  ["inputs", "histories"], "all histories of KeyValue calls and emissions of every kind over overlapping keys, several jobs and several sinks",
  "One test merges one key per level once; overlapping keys, repeated emissions, caller-map reuse and two jobs are not tried.",
  ["health.go"], [("merging of the three maps", "health.go mergedKeyValues")], observe=["key-values received by a Sink", "the caller's maps afterwards"])
p("C03", "Errors keep identity, message and first trace; muted errors stay muted",
  "Reporting an error returns, and hands to every sink, one error with the original message: a muted error or an error returned by an earlier report is passed through as the same value with its original stack trace, and any other error is wrapped exactly once, remembering the original error and a stack trace whose first frame is the function that called EventErr/EventErrKv. While the sinks are being called for the first report of an error it is marked as not yet emitted, and every later report of the returned error reaches the sinks marked as already emitted; muted errors never become unmuted.",
  ["inputs", "histories"], "all sequences of reports and re-reports of plain, muted, wrapped and custom error values, through jobs and streams, with and without key-values and with any number of sinks",
  "The tests check one unmuted and one muted error with one sink and one report each.",
  ["error.go", "health.go", "stack/stack.go"], [("wrapping", "error.go wrapErr"), ("emitted flag set after the sinks ran", "health.go EventErr/EventErrKv")], observe=["error received by a Sink", "returned error"])
p("C04", "Run completes the job exactly once with the status that matches the outcome",
  "Running a function as a job (from the stream or on a job) calls it exactly once and reports exactly one completion under that job's name: success when it returns nil, error when it returns an error (which is returned unchanged), panic when it panics. A panic with any non-nil value is never propagated to the caller: it is reported as one error event named \"panic\" whose key-values include the stack of the panic, followed by the panic completion, and Run returns an error whose message is the printed panic value.",
  ["inputs", "histories"], "all outcomes (nil, errors of any type including already reported ones, panics with strings, errors, runtime errors, integers, structs, pointers), nested runs, functions that emit or complete inside, concurrent runs",
  "The test runs one success, one error and one string panic.",
  ["health.go"], [("deferred recover and completion", "health.go (*Job).Run"), ("new job per run", "health.go (*Stream).Run")], observe=["calls received by a Sink", "return value of Run"])
p("C05", "The polling sink counts every emission exactly once under any schedule",
  "Whatever goroutines emit to the JSON polling sink and whenever snapshots (GetMetrics or GET /health) are taken, each snapshot equals the aggregation of some set of emissions that are consistent with each goroutine's own order: nothing is counted twice or invented, successive snapshots never lose what an earlier one of the same interval showed, and once all emitting calls have returned and the sink is idle a snapshot contains every one of them. Emitting calls, snapshots and ShutdownServer always return while the sink is running, however many emissions are queued.",
  ["schedules", "inputs"], "all interleavings of emitters, readers, the aggregation ticker and shutdown, up to a preemption bound; bursts beyond the internal queue",
  "The only concurrent test makes one emission and sleeps before reading.",
  ["json_polling_sink.go", "aggregator.go"], [("queue into a single aggregating goroutine", "aggregator.go startAggregator"), ("snapshot request over a channel of channels", "json_polling_sink.go GetMetrics")], observe=["GetMetrics", "GET /health"])
p("C06", "Interval aggregation arithmetic is exact, both overall and per job",
  "For every sequence of emissions falling in one interval, the interval's aggregation shows for each event name its number of events and of error events, the last gauge value, and count, sum, sum of squares, minimum and maximum of its timings, over all jobs and separately for each job; per job it also shows the same five statistics over completion durations and one counter per completion status, each completion counted in exactly one of them. Names that were never emitted do not appear, different kinds, names and jobs never mix, and negative, zero and very large values are handled exactly as far as the number types allow.",
  ["inputs", "histories"], "all emission sequences over small sets of kinds, jobs, names, statuses and boundary values up to a length, plus long sequences",
  "Each kind is tested with two or three fixed emissions; negative or zero timings, mixtures of kinds under one name and statuses other than success/validation error are not.",
  ["aggregator.go", "interval_aggregation.go"], [("per-kind update of interval and job maps", "aggregator.go Emit*"), ("timer/complete ingestion", "interval_aggregation.go ingest")], observe=["GetMetrics"])
p("C07", "Snapshots are a bounded, ascending, aligned window that always includes now",
  "Every snapshot of the polling sink is a non-empty list of intervals in strictly ascending order whose starts are multiples of the interval duration, whose last one contains the current time, and whose length never exceeds the retention divided by the interval duration (at least one). While the sink runs, each emission is counted in the interval containing the time at which it was processed, a completed interval keeps its contents unchanged until it is pushed out, and only the oldest interval is ever pushed out, when a newer one needs the room. The window keeps sliding also while nothing is emitted or requested: for interval durations of two seconds or more the intervals of a snapshot are consecutive, so nothing older than the retention is ever shown.",
  ["histories", "configurations", "schedules"], "all interval/retention configurations, all histories of emissions, idle periods and snapshots at any time offset, with a clock that does not run backwards",
  "One rotation test moves a mocked clock three times with one configuration, without reading snapshots in between.",
  ["aggregator.go"], [("truncation to the interval and window sliding", "aggregator.go getIntervalAggregation/createIntervalAggregation"), ("once-a-second tick", "aggregator.go startAggregator")], observe=["GetMetrics"])
p("C08", "A snapshot never changes after it was handed out",
  "The interval aggregations returned by one snapshot do not change, in any field, as a result of later emissions, the passage of time, other snapshots or HTTP requests, and modifying a snapshot's current interval never changes what later snapshots report. Two snapshots may be read and used concurrently with ongoing emissions without any interference.",
  ["schedules", "histories"], "all histories of emissions of every kind, snapshots, clock movements and interleavings of a reader with emitters",
  "Tests read a snapshot once and never look at it again after further emissions.",
  ["aggregator.go", "interval_aggregation_clone.go"], [("the current interval is cloned, completed ones are never written again", "aggregator.go memorySafeIntervals")], observe=["GetMetrics"])
p("C09", "An interval's serial number changes exactly when its content changes",
  "In the snapshots of a polling sink an interval's serial number never decreases, increases by exactly one with every emission of any kind counted in it, and stays the same as long as nothing was counted; a fresh interval starts at zero. So two snapshots of one interval with the same serial number have the same content.",
  ["histories", "schedules"], "all emission/snapshot histories, all interleavings of emitters and readers",
  "No test compares serial numbers over time except for single emissions.",
  ["aggregator.go", "interval_aggregation.go"], [("increment after each update", "aggregator.go Emit*")], observe=["GetMetrics serial numbers"])
p("C10", "GET /health returns exactly the current snapshot as JSON, for any names",
  "A request for exactly the path /health gets status 200, a JSON content type, and a valid JSON document that holds the process's instance id, the interval duration and all intervals of the current snapshot, such that decoding it gives back the same names, numbers and times whatever characters (valid UTF-8) job, event and gauge names contain (quotes, percent signs, control characters, HTML characters, non-ASCII), provided gauge values are finite; while a gauge that JSON cannot express (NaN or infinite) is retained the answer is instead status 500 with a JSON error. Any other path gets status 404 and a JSON error body.",
  ["inputs", "histories"], "all names over an alphabet of awkward characters in every position, all emission kinds, several intervals, all paths around /health; values finite",
  "The test requests /health once with a single plainly named event and only looks for one field.",
  ["json_polling_sink_http.go", "interval_aggregation.go"], [("marshalling and writing of the response", "json_polling_sink_http.go ServeHTTP")], observe=["HTTP response"])
p("C11", "Merging aggregations equals aggregating all their emissions together",
  "Merging a second aggregation into a first leaves the first with what one aggregation would show that had counted the emissions of both (counts, error counts, sums, sums of squares, minima and maxima, completion counters, per name and per job; for a gauge present in both, the merged-in value wins), and raises its serial number by one. The merged-in aggregation is left unmodified and shares nothing with the result: changing either afterwards does not affect the other.",
  ["inputs", "histories"], "all pairs and triples of aggregations produced by emission sequences, including jobs and timers that occur in only one of them or were never timed, also after a JSON round trip",
  "The merge tests use two or three fixed aggregations in which both sides carry the same kinds of data.",
  ["interval_aggregation_merge.go"], [("field-wise merge, cloning what is only on one side", "interval_aggregation_merge.go")], observe=["exported fields of IntervalAggregation after Merge"])
p("C12", "A clone is equal to its original and fully independent of it",
  "Cloning an interval, job, timer or error-counter aggregation that the library produced or decoded yields a value equal in every observable respect, including start time, serial number and JSON form, for any contents. Afterwards no change to either of them, by merging, by writing to maps or to nested values, is visible in the other.",
  ["inputs", "histories"], "all aggregations produced by emission sequences, followed by any mutation on either side",
  "The clone test compares one fixed aggregation and mutates a few entries.",
  ["interval_aggregation_clone.go"], [("copying of all maps and nested values", "interval_aggregation_clone.go")], observe=["exported fields, JSON form"])
p("C13", "StatsD lines state each emission exactly, per options",
  "For each emission the StatsD sink produces exactly these lines, in this order: for events \"1|c\", for errors \"1|c\" under the event name plus \".error\", for timings milliseconds with \"|ms\" (two decimals below 10 ms, whole milliseconds truncated from 10 ms on), for gauges the value with \"|g\" (two decimals, or the shortest exact form when between -0.1 and 0.1), once under the event name alone and once under job.event, each left out when the corresponding skip option is set; for a completion a single timing line under job.status. Names are prefixed by the configured prefix and joined by dots, empty parts are left out, and every byte of prefix, job, event and suffix other than letters, digits, underscore and dot becomes \"$\" unless a custom sanitization is configured; no line is affected by emissions before it.",
  ["inputs", "configurations", "histories"], "all emission sequences over kinds, names, values at every formatting threshold and all option combinations",
  "Each kind is tested with one or two values per option; thresholds, reuse of a name with values of different length, empty names and mixtures are not.",
  ["statsd_sink.go"], [("re-used prefix buffers", "statsd_sink.go getPrefixBuffer"), ("value formatting", "statsd_sink.go writeNanosToTimingBuf/processGauge"), ("sanitization", "statsd_sink.go sanitizeKey")], observe=["UDP payload after Drain"])
p("C14", "StatsD datagrams hold whole lines, at most 1440 bytes, none lost or repeated",
  "Every datagram the StatsD sink sends is non-empty, at most 1440 bytes long and consists of complete newline-terminated metric lines; the concatenation of all datagrams is the sequence of lines of all emissions in order, each exactly once, where only single lines longer than 1440 bytes are left out and a line that still fits into the datagram being filled is not held back to the next. A failed UDP write loses at most the datagram being written and does not disturb later ones.",
  ["inputs", "histories", "fault_sequences"], "all sequences of line lengths around the packing limits, with flushes at any point and write failures at any datagram",
  "One test sends a fixed number of equal lines; lengths at the limit, oversized lines in between and write errors are not tried.",
  ["statsd_sink.go"], [("packing into the UDP buffer", "statsd_sink.go writeStatsDMetric/flush")], observe=["UDP payloads"])
p("C15", "StatsD emission, Drain, periodic flush and Stop never lose, hang or crash",
  "Under every interleaving of emitting goroutines, Drain calls, Stop and the periodic flush: every emission that returned before a Drain call started is on the wire when that Drain returns (unless the sink was stopped meanwhile); without any Drain everything emitted is sent within a fraction of a second; nothing is sent twice or torn. Every Drain and Stop call made while the sink runs returns, also when several goroutines call them at the same time and when more emissions are pending than the internal queue holds.",
  ["schedules", "histories"], "all interleavings of several emitters, drainers, a stopper and the flush ticker up to a preemption bound; bursts beyond the queue size",
  "The tests emit and drain from one goroutine only, and never flush by time.",
  ["statsd_sink.go"], [("single command queue with drain/stop handshakes", "statsd_sink.go loop/Drain/Stop"), ("flush ticker", "statsd_sink.go loop")], observe=["UDP payloads", "return of Drain and Stop"])
p("C16", "WriterSink writes one exact, complete line per emission",
  "Each emission makes exactly one write of exactly one line: \"[\", the current UTC time in RFC 3339 with nanoseconds, \"]: job:\" and the job, then \" event:\" and the event (or \" status:\" and the status for completions), then \" err:\" and the message, \" time:\" and the duration or \" gauge:\" and the shortest exact value where applicable, then, if there are key-values (an empty map may count as either), \" kvs:[\" with all \"key:value\" pairs separated by single spaces in ascending key order and \"]\", and a newline. Durations are whole milliseconds above 2,000,000 ns, whole microseconds above 2,000 ns and nanoseconds otherwise; lines of concurrent emitters are never torn or mixed.",
  ["inputs", "schedules", "histories"], "all kinds, names, key-value sets, threshold durations, gauge values, all map iteration orders, all interleavings of emitters",
  "Regular-expression tests with one duration per unit and at most two keys.",
  ["writer_sink.go"], [("line assembled in a private buffer and written once", "writer_sink.go Emit*"), ("sorted keys", "writer_sink.go writeMapConsistently")], observe=["writes to the io.Writer"])
p("C17", "JsonWriterSink writes one complete JSON object per emission",
  "Each emission with finite values makes exactly one write holding exactly one valid JSON object with the job, the event (or for completions the status), the current UTC timestamp, the key-values (null when there are none) and, for errors, timings, completions and gauges, the message, the nanoseconds (exactly) or the value; decoding gives back exactly what was emitted, whatever characters (valid UTF-8) the names, messages and key-values contain. Objects of concurrent emitters are never torn or mixed.",
  ["inputs", "schedules"], "all kinds, names, messages, key-values and boundary values; all interleavings of emitters",
  "One fixed emission per kind.",
  ["json_writer_sink.go"], [("marshalling of a per-call struct, one write", "json_writer_sink.go Emit*")], observe=["writes to the io.Writer"])
p("C18", "Bugsnag notifies exactly the unmuted, first-time errors, with exact payloads",
  "The Bugsnag sink posts exactly one JSON notification (payload version 2), to the configured endpoint, for each reported error that is neither muted nor already emitted, and nothing for any other emission of any kind. The notification carries the API key, release stage, hostname, the job as context, the event as error class, the error message, the frames of the error's stack trace in order (file, line, package and function, and whether it belongs to the project), and the key-values as they were when the error was reported, with \"request\" and \"formdata\" also given as the request's URL and parameters.",
  ["inputs", "histories", "configurations"], "all emission sequences mixing kinds, muted, fresh and re-reported errors, key-values (changed afterwards too) and configurations",
  "One fresh and one already emitted error with nil key-values.",
  ["sinks/bugsnag/sink.go", "sinks/bugsnag/api.go"], [("selection on error type and emitted flag", "sinks/bugsnag/sink.go EmitEventErr"), ("payload construction", "sinks/bugsnag/api.go newPayload")], observe=["HTTP requests to the endpoint"])
p("C19", "Bugsnag delivery survives endpoint failures and concurrent reporting",
  "However the endpoint behaves on each notification (refused connection, error status, wrong or truncated body, slow answer), the sink goes on with the next error, delivers the notifications in the order reported by each goroutine, attempts each exactly once, never crashes, and while the sink runs, reporting goroutines and a ShutdownServer call get through as soon as the endpoint has answered, even with more errors pending than the queue holds. Sending one notification directly returns an error exactly when no complete answer with the body \"OK\" came back, and every response is closed.",
  ["schedules", "fault_sequences"], "all assignments of faults to the first notifications, all interleavings of reporters, the delivery loop and shutdown",
  "The tests use a healthy endpoint and one reporter.",
  ["sinks/bugsnag/sink.go", "sinks/bugsnag/api.go"], [("bounded queue into one delivery goroutine", "sinks/bugsnag/sink.go errorProcessingLoop"), ("error handling of the POST", "sinks/bugsnag/api.go Notify")], observe=["HTTP requests", "return of calls"])
p("C20", "Each Librato post states exactly what was emitted since the previous one",
  "Each post of the Librato sink contains, under the prefixed and sanitized names event.suffix and job.event.suffix, the number of events (\"count\") and errors (\"error.count\") and count, sum, sum of squares, minimum and maximum of timings in milliseconds (\"timing\") and of gauge values (\"gauge\"), and per job and completion status the same statistics of completion times (\"job.status.timing\"), of exactly the emissions since the previous post, and nothing else; every one asks to be aggregated, and timings have unit \"ms\" and counters \"count\". Every character of job and event names other than letters, digits, \".\", \":\", \"-\" and \"_\" becomes \"_\"; the post is authenticated JSON stating source, flush period in seconds and current time, and no post is made when nothing was emitted. This holds for values whose statistics are finite numbers.",
  ["inputs", "histories"], "all emission sequences over kinds, names and values, split over several flush periods in any way",
  "Processing is tested per kind with fixed values and without ever posting.",
  ["sinks/librato/sink.go"], [("counters and gauges keyed by name", "sinks/librato/sink.go process*/measure/inc"), ("reset after each send", "sinks/librato/sink.go purge")], observe=["HTTP requests to the metrics API"])
p("C21", "Librato delivery: one post per period, under any schedule and any answer",
  "While the Librato sink runs, it posts at the end of every flush period in which something was emitted, every emission is in exactly one post whatever goroutines emit and however emissions interleave with the flush, and a failed or rejected post neither stops nor crashes the sink nor affects what later posts contain, and its response is released. Emitting calls made while it runs and a Stop call always return once the API has answered, even when more emissions are pending than the queue holds, and nothing is posted after Stop returned.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of emitters, flush ticks and Stop; all assignments of faults to posts",
  "No test starts a flush.",
  ["sinks/librato/sink.go"], [("single goroutine multiplexing queue, ticker and stop", "sinks/librato/sink.go start")], observe=["HTTP requests", "return of calls"])
p("C22", "Runtime metrics report the enabled gauges every interval until stopped",
  "Once started, the runtime metrics reporter emits, at every interval and not before, one gauge for each metric enabled by the options and none for the others (memory: alloc, heap_objects; GC: pause_total_ns, num_gc, next_gc, gc_cpu_fraction; quantiles: gc_pause_quantile_50, gc_pause_quantile_max; num_goroutines; num_cgo_call; num_fds_used; all of them every 5 seconds without options), with the value the runtime reports at that time (quantiles in milliseconds, to the microsecond). Stopping a started reporter returns under every schedule, and nothing is emitted by it after Stop returned.",
  ["configurations", "schedules"], "all combinations of options, all interleavings of ticks, Stop and manual reports",
  "One test with a fixed option set and real time.",
  ["runtime_metrics/runtime_metrics.go", "runtime_metrics/fds_linux.go"], [("ticker loop with stop handshake", "runtime_metrics/runtime_metrics.go metricsPoller"), ("option switches", "runtime_metrics/runtime_metrics.go Report")], observe=["gauges received by the stream"])
p("C23", "Stack traces name the real call chain, innermost first",
  "A trace taken with skip n lists the functions active at that point, starting with the n-th caller of the function that took it (n=0: that function itself) and continuing outwards without gaps or repetition up to the configured maximum depth, each with the file, line of the call, package path and function name, and marked as a system package exactly when the file lies in the Go installation. Rendering a trace gives one \"file:line name\" line per frame in the same order and the same result every time, also when several goroutines render it at once.",
  ["inputs", "configurations", "schedules"], "all skip values, depths beyond and below the maximum, calls through methods, closures, generic functions and packages with dots in their path, concurrent readers",
  "Tests take one trace through three fixed functions.",
  ["stack/stack.go", "stack/frame.go"], [("program counters captured at creation, resolved on demand", "stack/stack.go NewTrace/Frames"), ("name splitting and system detection", "stack/frame.go")], observe=["Frames(), Stack()"])
p("C24", "healthd's aggregate is the merge of the latest data of every host and instance",
  "For every interval, what healthd serves is exactly the merge of the most recent data received for that interval from each monitored host and process instance, each counted once, whatever the order, duplication, lateness or partial failure of responses: hosts that fail to answer keep contributing what they last reported, two hosts or two instances never overwrite one another, and data already seen is never added twice. After a poll in which all hosts answered, the aggregate is up to date as soon as the last answer is processed, and otherwise within about two and a half seconds of an answer.",
  ["histories", "schedules", "fault_sequences"], "all sequences of per-host responses (fresh, unchanged, failing, slow, several instances, several intervals) over several polls, all interleavings of responses with recalculation and requests",
  "The tests feed a few fixed responses for one host into the aggregation functions directly.",
  ["healthd/healthd.go", "healthd/debouncer.go", "healthd/poll.go"], [("latest data per time, instance and host; intervals marked for recalculation", "healthd/healthd.go consumePollResponse/recalculateIntervals"), ("debounced recalculation", "healthd/debouncer.go")], observe=["GET /healthd/aggregations"])
p("C25", "healthd serves each interval once, ascending, bounded, whatever the time zones",
  "The intervals healthd serves are strictly ascending by start instant with every instant present at most once, also when hosts report the same instant in different time zones, and never more than two hours divided by the interval duration, the oldest being dropped first. Responses whose interval duration differs from the one in use do not contribute, and intervals that hosts stop reporting remain served unchanged until they fall out of that window.",
  ["inputs", "histories", "configurations"], "all sequences of reported interval sets, durations and time zones over several polls",
  "The tests use one zone and a handful of intervals.",
  ["healthd/healthd.go"], [("replace-or-insert and sort by start, truncation", "healthd/healthd.go setAggregation/purge")], observe=["GET /healthd/aggregations"])
p("C26", "healthd's host list shows each host's true last and best contact",
  "The host list contains every monitored host exactly once, sorted by host and port, and for each the time, duration, HTTP status, error text, instance id and interval duration of its most recent processed poll (empty error if it succeeded), the time of its first and the time of its latest successful answer, where only a status-200 answer with a decodable body is successful. Failures never alter those success times, and a host that was never polled successfully has none.",
  ["histories", "fault_sequences"], "all sequences of outcomes per host and poll: success, refused, timeout, error status, undecodable or truncated body, changed instance",
  "The tests check one success and one failure.",
  ["healthd/healthd.go", "healthd/poll.go"], [("status update per poll response", "healthd/healthd.go consumePollResponse"), ("outcome classification", "healthd/poll.go poll")], observe=["GET /healthd/hosts"])
p("C27", "healthd survives any host behaviour, keeps polling, and stops cleanly",
  "Whatever monitored hosts answer (missing, zero, negative or mismatching interval durations, null entries, wrong types, non-JSON, errors, slow or hanging connections) and however many there are, healthd never crashes or deadlocks, keeps polling every host about every ten seconds, and keeps answering API requests. Stop returns whatever is in flight, and API requests in progress during Stop get an answer.",
  ["fault_sequences", "schedules", "inputs"], "all assignments of malformed or faulty answers to hosts and polls, numbers of hosts beyond every internal queue, all interleavings of polls, API requests and Stop",
  "No test answers with anything but well-formed data, or stops a running daemon under load.",
  ["healthd/healthd.go", "healthd/poll.go", "healthd/debouncer.go", "healthd/api.go"], [("main select loop, debouncer and poll goroutines", "healthd/healthd.go pollAndAggregate"), ("per-poll timeout", "healthd/poll.go poll")], observe=["API responses", "poll requests", "return of Stop"])
p("C28", "healthd's API sorts, limits and computes exactly",
  "The overall endpoint serves the merge of all served intervals, and the jobs endpoint lists every job of it exactly once with its counters, times, mean duration and sample standard deviation, sorted by the requested key (name ascending, everything else descending; unsorted when the key is unknown or absent) and cut to the first \"limit\" of them when that is a positive integer. All endpoints answer valid JSON with a JSON content type for any job names and data, also when nothing was collected yet, and unknown paths get 404.",
  ["inputs", "configurations"], "all job sets with boundary statistics (no completions, one, equal durations, large values), all sort keys, limits around the number of jobs, awkward names",
  "The tests do not exercise the jobs endpoint's numbers, limits or ordering beyond one case.",
  ["healthd/api.go"], [("combination of intervals, statistics, sorting, limiting, rendering", "healthd/api.go")], observe=["GET /healthd/jobs, /healthd/aggregations/overall"])
p("C29", "healthtop shows what healthd answered, and survives healthd's failures",
  "'healthtop jobs' and 'healthtop hosts' ask healthd at the start and once a second, passing the sort order and, unless a name filter is given, the number of rows that fit the terminal (its height minus two, at least three). The screen always shows the most recently received good answer: one row per job (only those whose name contains the filter) or host, in the answer's order, with its counters and durations (whole ms above 2,000,000 ns, whole µs above 1,000 ns, else ns) or its status (success if it answered 200 without error, unknown if never checked, else the failure); nonzero counts of unsuccessful outcomes and unsuccessful hosts stand out in red, the counts of jobs without any and successful hosts in green. Before the first good answer it says that there is no data; while healthd is unreachable or answers with something that cannot be decoded it keeps showing the last good answer together with the error, drops the error at the next good answer, and never stops or crashes.",
  ["inputs", "schedules", "fault_sequences"], "all sequences of good, refused, failing and malformed answers arriving after all delays around the refresh period, all answer contents at the unit boundaries, terminal sizes, filters and sort orders",
  "healthtop has no tests and needs a terminal and a running healthd.",
  ["cmd/healthtop"], [("polling and display loops, request construction, rendering", "cmd/healthtop/*.go")], observe=["terminal contents", "requests to healthd"])
p("C30", "Concurrent use of the public API is free of data races",
  "Using one stream, its jobs (each from one goroutine) and its sinks from several goroutines at the same time — emitting every kind of event with shared names, original errors and key-value maps, taking and reading snapshots, serving /health, draining, flushing and stopping sinks, rendering stack traces, and running healthd with its API — involves no data race in the sense of the Go memory model, provided callers do not modify a map or job while another call is using it, do not report one already returned error from several goroutines at once, and configure sinks before using them.",
  ["schedules"], "all interleavings, up to a preemption bound, of the listed concurrent uses; happens-before computed for each",
  "Tests are single-threaded and the race detector is not part of the suite; a race run would only judge the schedules it happens to see.",
  ["health.go", "aggregator.go", "statsd_sink.go", "sinks/bugsnag/sink.go", "sinks/librato/sink.go", "runtime_metrics/runtime_metrics.go", "stack/stack.go", "healthd/healthd.go"],
  [("confinement of sink state to one goroutine, snapshots by copy", "aggregator.go, statsd_sink.go, sinks/*, healthd/healthd.go")], observe=["race detector reports on explored schedules"])
p("C31", "The healthd command follows its environment",
  "Started with HEALTHD_MONITORED_HOSTPORTS (comma-separated) and optionally HEALTH_HOSTPORT (default :5030) and HEALTHD_SERVER_HOSTPORT (default :5031), the healthd command polls exactly the listed hosts and its own health address, serves its API at the server address and its own /health at the health address, and its API shows the merge of the hosts' data and its own metrics.",
  ["configurations"], "all combinations of set and unset variables and lists of one to three hosts",
  "The command has no tests.",
  ["cmd/healthd"], [("reading the environment, wiring of stream, health server and healthd", "cmd/healthd/main.go")], observe=["polls of the hosts", "API and /health responses"])
p("C32", "healthd reports its own polls and requests on its stream",
  "On the stream healthd was started with, every finished poll of a host appears as exactly one completed job \"poll\" carrying the host and port and the time the poll took: a success if the answer was received and decoded, else an error preceded by exactly one error event naming the step that failed (poll.client.get, poll.ioutil.read_all, poll.json.unmarshall). Every answered API request under a known path appears as exactly one job named by its route with a starting_request event and a completion carrying path and status code, whose status is success below 400, validation error for 422, junk for other codes below 500 and error from 500. Each combination of new data appears as a successful job \"recalculate\", and nothing else is reported.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all sequences of answers and failures of the hosts, all sequences and interleavings of API requests, with data that can or cannot be rendered",
  "The tests look at the aggregated data only, never at what healthd emits.",
  ["healthd"], [("poll job", "healthd/poll.go poll"), ("request middleware", "healthd/api.go HealthMiddleware"), ("recalculation job", "healthd/healthd.go recalculateIntervals")], observe=["calls received by a Sink on healthd's stream"])
p("C33", "What the library holds does not grow with what is repeated",
  "A program that goes on emitting (events, errors with ever new texts, key-values, timings, jobs, panics) under a bounded set of names, asking for snapshots and answering requests, holds a bounded amount of memory and a bounded number of goroutines, whether the services it reports to answer or fail: muted and reported errors, key-values, delivered or failed notifications, flushed statistics, answered requests and intervals beyond the retention are released. So does a healthd whose hosts are polled over and over: data beyond its window, earlier answers, failed polls and answered API requests are released.",
  ["histories", "fault_sequences"], "all cycles of one to three out of eleven operations over all sinks together, with answering and failing services, and all cycles of one or two out of nine behaviours of a polled host, each repeated hundreds of times",
  "A leak shows only after many repetitions of one particular cycle; the tests run each operation a few times and never look at what is held.",
  ["aggregator.go", "interval_aggregation.go", "statsd_sink.go", "sinks/bugsnag/sink.go", "sinks/librato/sink.go", "healthd/healthd.go"],
  [("retention of intervals, ring of error samples, flushed statistics", "aggregator.go, interval_aggregation.go, sinks/librato/sink.go"), ("purging of hosts' intervals", "healthd/healthd.go")], observe=["live heap", "number of goroutines"])
p("C34", "Every process states an instance id of its own, and always the same",
  "The instance id under which a process reports (in the answers to GET /health and as the library's Identifier) is not empty, is the same from its start to its end, and differs from that of every other process, be it another process of the same host or a process of another host, whatever the host's name; where the host's name cannot be found out it still tells the processes of that host apart.",
  ["configurations"], "all pairs of 180 processes on 14 hosts and on hosts without a name, the program being started afresh as each of them",
  "healthd tells instances apart by this id; the tests run in one process and compare it with itself.",
  ["identifier.go", "json_polling_sink_http.go"],
  [("host name and process id", "identifier.go")], observe=["instance_id in GET /health"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
