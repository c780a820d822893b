"""What each check runs: the binary, the budget, what runs for real and what is a stub, and the note for MANIFEST.json."""
COMMON_ASSUMPTIONS = [
    "Threads interleave sequentially consistently: one thread runs at a time and every atomic access, lock, channel, thread, timer and clock "
    "operation of the instrumented crates is a possible switch point; effects of weak memory orderings are not explored.",
    "Search is sampled by seed, not exhaustive.",
]
BATCH_REAL = ["opentelemetry, opentelemetry_sdk (unmodified, compiled with scheduling instrumentation)", "std threads, mutexes, condvars and mpsc channels"]
BATCH_STUB = ["exporter (behaviour chosen by the seed)", "clocks, sleeps, futexes, thread scheduling, randomness (simulator)"]
CHECKS = {}


def add(ids, bin, note, real, stub, quick=20, thorough=600, **kw):
    for i in ids.split():
        CHECKS[i] = dict(bin=bin, note=note, real=real, stub=stub, quick=quick, thorough=thorough, **kw)


add("T01 L01", "core", "Random workloads of threads ending spans / emitting logs, flushing and shutting down against a seeded exporter; the full "
    "history is checked for loss outside buffer-full, duplication, invention, batch limits and unsampled items.", BATCH_REAL, BATCH_STUB)
add("T02 L02", "core", "Discrete simulated time; every hand-over latency, full-batch wait, export overlap and per-thread order is checked over the "
    "recorded history. No thread stalls are injected here, since latency bounds are about a scheduled system.", BATCH_REAL, BATCH_STUB)
add("T03 L03", "core", "Exporters that err, panic, stall and hang at seeded points, concurrent flush and shutdown calls; call durations, results, "
    "shutdown-once and silence afterwards are checked.", BATCH_REAL, BATCH_STUB)
add("T04 L04", "core", "The batching processors on real tokio runtimes (multi-thread and current-thread) under the simulated scheduler and clock: "
    "delivery, order, batch size, timeouts, error reporting, hang freedom and shutdown are checked.", BATCH_REAL + ["tokio runtime and timers"], BATCH_STUB)

API = ["opentelemetry, opentelemetry_sdk (unmodified, compiled with scheduling instrumentation)", "std threads, locks, Once and thread-locals"]
SIM = ["clocks, sleeps, futexes, thread scheduling, randomness (simulator)"]
add("T05", "core", "Threads end spans (explicitly, by drop, by dropping the guard of the attached context) or emit records through the simple processors "
    "against an exporter that is slow, fails or suspends; shutdown races. Every call is checked on return.", API, SIM + ["exporter (behaviour chosen by the seed)"])
add("T06", "core", "One span shared through context handles by several threads that modify, end, panic with and drop it; the data each processor received is "
    "checked against the interval order of all calls. System clock jumps are injected.", API, SIM + ["span processor (recorder)"])
add("T07", "core", "Threads start spans under local, remote, explicit and absent parents with every sampler; ids, parents, flags and what was recorded and "
    "exported are compared with a reference of the sampling rules.", API, SIM + ["span processor and exporter (recorders)", "custom samplers (seeded)"])
add("T08", "core", "Clones, tracers, loggers and instruments used, flushed, shut down and dropped by several threads over slow and failing processors and "
    "readers; every call result and every processor call is checked.", API, SIM + ["processors and readers (slow or failing as the seed says)"])
add("T09", "core", "Threads start, change, hand over and end spans under every sampler through chains of 1-4 processors that change the span, attach contexts and start spans "
    "of their own, with a shutdown; every call of every processor is compared with the history of the application.", API, SIM + ["span processors, exporter, samplers (recorders that re-enter the API)"])
add("C04", "core", "Threads replace the three globals while others obtain and use them, including components that use the globals themselves; checked as an "
    "atomic register over call intervals, plus deadlock freedom.", API, SIM + ["span processor, metric reader and propagator (recorders that may re-enter the globals)"])

CTX = SIM + ["values whose Drop uses the context (harness)"]
add("C01", "core", "Threads attach contexts, drop guards in any order, unwind with guards alive, keep guards in thread-locals or forget them, while values of the contexts "
    "use the context when they are dropped; a reference stack is compared after every step.", API, CTX)
add("C02", "core", "A seeded executor polls trees of bound futures, streams and sinks on several threads, cancels and panics them; also on tokio. Every poll checks its context, "
    "every return the context of the polling thread.", API + ["tokio (one scenario)"], SIM + ["seeded executor"])
add("C03", "core", "Nested suppression scopes on threads and tasks checked per emitted record, and complete log, span and metric pipelines whose exporters themselves log, trace and "
    "emit through the bridges: nothing they emit may be exported and the pipelines must come to rest.", API + ["log and tracing appenders"], SIM + ["exporters (that log)"])
add("L05", "core", "Records emitted through the API and both bridges on threads and tasks with spans active, remote, shared and being ended elsewhere; every record is compared "
    "with what the emitting thread did.", API + ["log and tracing appenders", "tokio (one scenario)"], SIM + ["log processor (recorder)"])
add("L06", "core", "Random chains of mutating, keeping, failing, simple, concurrent and batching processors with several emitting threads; each processor compares what it is given with "
    "the state the previous one left, each exporter with the state at its position.", API, SIM + ["mutating processors and exporters (seeded)"])

METRIC = ["opentelemetry, opentelemetry_sdk metrics (unmodified, compiled with scheduling instrumentation)", "std threads, locks and atomics"]
add("M01", "core", "Threads record digit-coded measurements on counters of all kinds while others collect through one or two readers of either temporality; every exported value is "
    "decoded into the set of measurements it contains and compared with the call intervals.", METRIC, SIM)
add("M02", "core", "The same for explicit and exponential histograms: each point's count, buckets, sum, minimum and maximum must describe one set of measurements, each in its bucket.", METRIC, SIM)
add("M03", "core", "The same for gauges: every exported value was recorded and not overwritten by one that completed before the collection.", METRIC, SIM)
add("M04", "core", "Start and end times of every exported stream over sequences of overlapping recordings and collections, pauses and system clock jumps.", METRIC, SIM)
add("M05", "core", "Threads race to create attribute sets around small and default limits while collections run; series counts, overflow and totals are checked per collection.", METRIC, SIM)
add("M06", "core", "Threads create instruments of equal and different identities through meters and provider clones, with views, during collections; streams and their totals are checked.", METRIC, SIM)
add("M07", "core", "Callbacks observing seeded values (shared, several per instrument, registered and used while collections by several readers run); exports are compared with what was "
    "observed for that collection.", METRIC, SIM + ["callbacks (seeded)"])
PERIODIC = ["metric exporter (behaviour chosen by the seed)"]
add("M08", "core", "Two or three manual, thread-based and runtime-based readers of any temporality on one provider; each reader's exports are decoded into measurements and checked as if it were "
    "alone, while others fail, stall, panic or are shut down; provider calls are compared with what each reader did.", METRIC + ["tokio (some runs)"], SIM + PERIODIC)
add("M09", "core", "Recording, flushing, shutdown and drop against the thread-based reader with exporters that err, panic, stall for up to 20 s; schedule of exports, completeness, results, "
    "durations and silence afterwards are checked.", METRIC, SIM + PERIODIC)
add("M10", "core", "The same for the runtime-based reader on multi-thread and current-thread tokio, with export timeouts.", METRIC + ["tokio runtime and timers"], SIM + PERIODIC)

NOT_APPLICABLE = {
    "P01": "Pure functions of their input: no schedule, clock, fault or interleaving to simulate.",
    "P02": "Pure functions of their input: no schedule, clock, fault or interleaving to simulate.",
    "P03": "Pure functions of their input: no schedule, clock, fault or interleaving to simulate. (The HTTP and gRPC checks X02, X03 decode every request the exporters really sent.)",
    "P04": "Pure functions of their input (and of the process environment at start): nothing to schedule or to fail.",
    "P05": "Pure function of the trace id and the ratio: nothing to schedule or to fail.",
}

add("X01", "core", "A stub collector answers the real polling task on tokio with seeded strategies, errors, malformed bodies, delays and hangs while threads sample; every decision "
    "is compared with the strategies that may be in effect, the limiter with an ideal token bucket, also under clock jumps.", API + ["jaeger remote sampler, tokio"], SIM + ["HTTP client (seeded collector)"])
add("X04", "core", "Threads export, read, reset and shut down clones of the in-memory exporters; the history must be linearizable to an append-only list with reset.", API, SIM)
add("X06", "core", "Threads export to and shut down the stdout exporters, whose output is captured; every item and the resource is counted in it.", API + ["opentelemetry-stdout"], SIM + ["file descriptor 1 (memory file)"])
add("X02", "core", "Threads export seeded spans, logs and metrics (binary and JSON) and Zipkin spans through a stub HTTP client that answers with every kind of status, errs, panics, "
    "delays or hangs while exports are cancelled and shutdown races; every request is decoded and compared item by item with the batch.",
    API + ["opentelemetry-otlp HTTP exporters, opentelemetry-proto transforms, opentelemetry-zipkin"], SIM + ["HTTP client (seeded collector)"])
add("X05", "core", "Threads trace (nested, across threads through propagators), log and measure with all three pipelines on threads or tokio exporting over OTLP to a stub collector that fails, "
    "delays, times out and recovers, with flushes and shutdowns; every request is decoded and matched with what the application did; after recovery everything must arrive.",
    API + ["OTLP HTTP exporters, W3C propagators, tokio (some runs)"], SIM + ["HTTP client (seeded collector)"])

NET = ["clocks, thread scheduling, randomness, TCP sockets, epoll and eventfd (simulator)", "collector (real h2 / HTTP/1 framing, seeded behaviour)"]
add("X03", "net", "Threads export seeded spans, logs and metrics with the real gRPC client over simulated TCP (delayed, split, lost and cut segments, refused and silent connections, "
    "partitions, resets, server outages) to a collector that answers with every status, goes away, resets, stalls or hangs; requests are decoded and compared, results and durations checked.",
    API + ["opentelemetry-otlp tonic exporters, tonic, hyper, h2, tokio"], NET)
add("X08", "net", "The same with the HTTP exporters and the hyper, reqwest and blocking reqwest clients, binary and JSON, against a collector that answers with every status, in chunks, partially, "
    "with garbage, late or never.", API + ["opentelemetry-otlp HTTP exporters, opentelemetry-http clients, hyper, reqwest, tokio"], NET)
add("X07", "prom", "Threads record on instruments of every kind in several scopes while others scrape, with every exporter option and shutdown; each scrape is decoded into the set of measurements "
    "it contains and compared with the call intervals and with other scrapes.", ["opentelemetry-prometheus (unmodified, compiled with scheduling instrumentation)",
    "opentelemetry 0.29 and prometheus from the registry, as the crate uses them"], SIM)
