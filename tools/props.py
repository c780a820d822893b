#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
S='opentelemetry-sdk/src/'
A='opentelemetry/src/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}), hook_needed=None)))
SF=['schedules','fault_sequences','configurations']
BSP=S+'trace/span_processor.rs'; BLP=S+'logs/batch_log_processor.rs'
ABSP=S+'trace/span_processor_with_async_runtime.rs'; ABLP=S+'logs/log_processor_with_async_runtime.rs'

# ------------------------------------------------------------------ traces
p('T01','Batched spans: nothing accepted is lost, duplicated or invented',
 'With span batching on its dedicated background thread, every sampled span that ended, and found room in the buffer, before a force-flush or shutdown begins has been passed to the exporter exactly once by the time that call reports success, or by the time the last handle of the provider has been dropped. Spans are discarded only while the configured buffer is full, unsampled spans are never exported, and no exported batch is empty or larger than the configured maximum.',
 SF,'every interleaving of threads ending spans with the batching thread, flushes and shutdown; every buffer and batch size; exporters that are slow, stall or fail',
 'Unit tests end spans from one thread with a large queue and mock exporter, so no span end ever overlaps a drain, and queues, batches and flushes never compete.',
 [BSP,S+'trace/provider.rs',S+'trace/span.rs'],
 [('bounded data channel plus buffered-count','BatchSpanProcessor::on_end'),('drain and export','BatchSpanProcessor::get_spans_and_export'),('flush/shutdown control messages','BatchSpanProcessor::force_flush / shutdown')],
 ['SpanExporter::export batches','result of force_flush and shutdown'],
 [('buffered count','spans accepted and not yet exported','current_batch_size')])
p('T02','Batched spans: timely, in order, one export at a time',
 'With span batching on its dedicated background thread and a working exporter, an ended span is handed to the exporter without any flush call within the configured delay plus the time of exports already running, and as soon as a full batch of spans is waiting an export starts without waiting for the delay. Export calls never overlap, and spans that one thread ends one after the other are exported in that order. While there is nothing to export the background work waits instead of polling.',
 SF,'every interleaving, export duration, arrival pattern and batching configuration, in simulated time',
 'The tests wait for real timers with generous sleeps and one producer; they cannot observe a wake-up lost between a producer and the batching thread or a delay that is missed under a particular interleaving.',
 [BSP],[('timer','recv_timeout(remaining) in the worker loop'),('full-batch wake-up','export_span_message_sent flag and ExportSpan message')],
 ['time and content of SpanExporter::export calls'])
p('T03','Batched spans: flush and shutdown cope with any exporter',
 'Whatever the exporter does (returns errors, panics, is slow or never finishes), force-flush and shutdown of background-thread span batching return within their time limit of five seconds each, report success only if every export performed for them succeeded, and an export error does not stop later spans being exported. Shutdown with a responsive exporter shuts the exporter down exactly once after the last export; afterwards nothing more is exported, spans that end are silently ignored, the background thread ends, and further flush or shutdown calls report that the pipeline is already shut down.',
 SF,'every fault sequence of the exporter and every interleaving with concurrent flush and shutdown calls',
 'Tests use exporters that always succeed or always fail once; a stall, panic or failure in the middle of a multi-batch flush is not sampled.',
 [BSP,S+'trace/provider.rs'],[('bounded waits','recv_timeout(forceflush_timeout / shutdown_timeout)'),('shutdown once','is_shutdown.swap'),('worker exit','BatchMessage::Shutdown arm')],
 ['results and simulated duration of force_flush/shutdown','SpanExporter::shutdown calls'])
p('T04','Async-runtime span batching delivers, batches and terminates correctly',
 'With span batching on an async runtime, every sampled span that ended and was accepted before a force-flush or shutdown begins has been passed to the exporter exactly once, in per-thread order and in batches no larger than the maximum, by the time that call reports success; spans are refused only when the queue is full. No more exports run at once than configured, a stalled export is abandoned after the configured export timeout, an export error or timeout is reported by the flush that met it and does not stop later exports, ended spans are exported within the configured delay, and after shutdown the exporter has been shut down once and is not called again. While there is nothing to export the background work waits instead of polling.',
 SF,'every interleaving of application threads with the runtime worker threads; every exporter fault and stall; single- and multi-threaded runtimes',
 'The tests run on a real tokio runtime whose scheduling nobody controls and check one success and one timeout case.',
 [ABSP,S+'runtime.rs'],[('message channel','BatchMessage through RuntimeChannel'),('export with timeout','future::select(export, delay)'),('worker','BatchSpanProcessorInternal::run')],
 ['SpanExporter::export','results and simulated duration of force_flush/shutdown'])
p('T05','Simple span and log processors export synchronously, exactly once',
 'With the simple processors, every sampled span (respectively every log record) has been passed to the exporter exactly once, alone in its batch, by the time the call that ended (emitted) it returns, whichever threads do so at the same time, and export calls never overlap. An exporter error affects only the item being exported, the log processor passes nothing to the exporter once its shutdown has returned, and a shutdown, at whatever moment it comes, shuts the exporter down once, after the running export, and reports what came of it.',
 SF,'every interleaving of emitting threads with each other, with flush and with shutdown; exporters that fail or are slow',
 'Tests use one thread, or real threads whose interleaving is whatever the machine does.',
 [BSP,S+'logs/simple_log_processor.rs',S+'logs/concurrent_log_processor.rs'],[('exporter mutex','SimpleSpanProcessor::on_end, SimpleLogProcessor::emit'),('shutdown flag','SimpleLogProcessor::is_shutdown')],
 ['export calls versus span end / log emit call intervals'])
p('T06','A span is exported exactly once with everything recorded before it ended',
 'A span shared by several threads is handed to the span processors exactly once, when it is first ended explicitly or its last handle is dropped, whichever comes first, and never while some handle could still change what is exported. The exported span contains every attribute, event, link, status and name change whose call completed before the end began, none whose call began after the end completed (of the statuses set, Ok is final, and otherwise the last error counts), respects the configured limits with exact dropped counts, and its start, event and end times are those the caller gave or else the time of the system clock at the start, event and end (or last drop); the end is not before the start unless the caller supplied such times or the clock was set back.',
 ['schedules','histories','configurations'],'every interleaving of mutating, ending and dropping calls on one span from several threads; every limits configuration',
 'Tests mutate and end a span from a single thread.',
 [S+'trace/span.rs',A+'trace/context.rs',S+'trace/tracer.rs'],[('single hand-over','Span::ensure_ended_and_exported, data.take()'),('serialised access','SynchronizedSpan mutex'),('limits','Span::add_event_with_timestamp, SpanLinks/SpanEvents dropped_count')],
 ['SpanData received by the processor'])
p('T07','Spans started concurrently get unique ids and the right parent',
 'Spans and traces started concurrently on any threads get valid ids that are unique within the process; a span started with a parent in its context carries the parent trace id and parent span id, and a span started without one (explicitly as root, or under a parent that is not valid) begins a new trace. The sampling decision recorded in the span context, the flag other services would see, and whether the span records and is exported all agree, with parent-based sampling following the parent. A span is started with exactly one answer of its sampler (directly or as delegate of a parent-based one), whose attributes and trace state it gets; ids and a sampling result chosen by the caller are used as given.',
 ['schedules','histories','configurations'],'every interleaving of threads starting, activating and ending nested spans; every sampler configuration used',
 'Tests build parent-child chains on one thread.',
 [S+'trace/tracer.rs',S+'trace/id_generator/mod.rs',S+'trace/sampler.rs'],[('id generation','RandomIdGenerator thread-local rng'),('parent selection','Tracer::build_with_context'),('sampling','SamplerDecision handling')],
 ['SpanContext of started spans','exported SpanData'])
p('T08','Provider shutdown happens once, reaches every processor, and is final',
 'For tracer, logger and meter providers, with any number of clones, instruments and processors and any threads calling at once: exactly one shutdown call takes effect and every registered processor or reader is shut down exactly once even if another one fails or is slow, every other call reports that it was already shut down, and dropping the last handle without a shutdown performs it. A flush reaches every processor and reports failure if any of them failed; after shutdown, new tracers, loggers and meters are inert and old ones do not crash the application.',
 SF,'every interleaving of clone, drop, flush, shutdown, span/log/metric calls on several threads; processors that fail',
 'Tests call shutdown twice in sequence on one thread.',
 [S+'trace/provider.rs',S+'logs/logger_provider.rs',S+'metrics/meter_provider.rs',S+'metrics/pipeline.rs'],[('once','is_shutdown compare_exchange'),('fan-out','TracerProviderInner::shutdown, LoggerProviderInner::shutdown, Pipelines::shutdown'),('drop','Drop for *ProviderInner')],
 ['shutdown/force_flush calls seen by processors and readers','results returned to callers'])
p('T09','Span processors run in order, see starts before ends, and the same data',
 'For every recording span, each registered span processor is told of the start exactly once, in registration order, on the starting thread inside the call that starts it, with the context the span was started in and with the attributes set by the sampler, the application and earlier processors; when the span ends each is given it exactly once, in the same order, inside the call that ends it and after all have seen its start, with identical data that includes what every processor added. Spans that do not record reach no processor, a span that ends around a shutdown reaches all processors or none, and each processor gets the resource of the provider once, when it is built. Samplers and processors may use and attach contexts and start spans of their own without disturbing the application or each other.',
 SF,'every interleaving of threads that start, change, hand over, end and drop spans, with a shutdown; chains of processors that change the span, are slow, use the current context and start spans themselves; every sampler',
 'Tests register one recording processor and start and end spans on one thread under an empty context.',
 [S+'trace/tracer.rs',S+'trace/span.rs',S+'trace/provider.rs',S+'trace/span_processor.rs',A+'trace/tracer.rs'],[('start fan-out','SdkTracer::build_with_context'),('end fan-out','Span::ensure_ended_and_exported'),('resource fan-out','TracerProviderBuilder::build')],
 ['calls each processor receives and the data they carry'])
# ------------------------------------------------------------------ logs
p('L01','Batched logs: nothing accepted is lost, duplicated or invented',
 'With log batching on its dedicated background thread, every log record that was emitted, and found room in the buffer, before a force-flush or shutdown begins has been passed to the exporter exactly once, unchanged, by the time that call reports success, or by the time the last handle of the provider has been dropped. Records are discarded only while the configured buffer is full, and no exported batch is empty or larger than the configured maximum.',
 SF,'every interleaving of emitting threads with the batching thread, flushes and shutdown; every buffer and batch size; exporters that are slow, stall or fail',
 'Unit tests emit from one thread with a large queue, so no emit ever overlaps a drain.',
 [BLP,S+'logs/logger_provider.rs',S+'logs/logger.rs'],[('bounded data channel plus buffered-count','BatchLogProcessor::emit'),('drain and export','get_logs_and_export')],
 ['LogExporter::export batches','result of force_flush and shutdown'],
 [('buffered count','records accepted and not yet exported','current_batch_size')])
p('L02','Batched logs: timely, in order, one export at a time',
 'With log batching on its dedicated background thread and a working exporter, an emitted record is handed to the exporter without any flush call within the configured delay plus the time of exports already running, and as soon as a full batch of records is waiting an export starts without waiting for the delay. Export calls never overlap, and records that one thread emits one after the other are exported in that order. While there is nothing to export the background work waits instead of polling.',
 SF,'every interleaving, export duration, arrival pattern and batching configuration, in simulated time',
 'The tests wait for real timers with one producer; they cannot observe a lost wake-up or a delay missed under a particular interleaving.',
 [BLP],[('timer','recv_timeout(remaining) in the worker loop'),('full-batch wake-up','export_log_message_sent flag and ExportLog message')],
 ['time and content of LogExporter::export calls'])
p('L03','Batched logs: flush and shutdown cope with any exporter',
 'Whatever the exporter does (returns errors, panics, is slow or never finishes), force-flush and shutdown of background-thread log batching return within their time limit of five seconds each, a flush reports success only if every export performed for it succeeded, and an export error does not stop later records being exported. Shutdown with a responsive exporter shuts the exporter down exactly once after the last export; afterwards nothing more is exported, emitted records are ignored, the background thread ends, and further flush or shutdown calls report that the pipeline is already shut down.',
 SF,'every fault sequence of the exporter and every interleaving with concurrent flush and shutdown calls',
 'Tests use exporters that always succeed; a stall, panic or failure in the middle of a multi-batch flush is not sampled.',
 [BLP,S+'logs/logger_provider.rs'],[('bounded waits','recv_timeout(forceflush_timeout / shutdown_timeout)'),('worker exit','BatchMessage::Shutdown arm')],
 ['results and simulated duration of force_flush/shutdown','LogExporter::shutdown calls'])
p('L04','Async-runtime log batching delivers, batches and terminates correctly',
 'With log batching on an async runtime, every log record that was emitted and accepted before a force-flush or shutdown begins has been passed to the exporter exactly once, in per-thread order and in batches no larger than the maximum, by the time that call reports success; records are refused only when the queue is full. No more exports run at once than configured, a stalled export is abandoned after the configured export timeout, an export error or timeout is reported by the flush that met it and does not stop later exports, emitted records are exported within the configured delay, and after shutdown the exporter has been shut down once and is not called again. While there is nothing to export the background work waits instead of polling.',
 SF,'every interleaving of application threads with the runtime worker threads; every exporter fault and stall; single- and multi-threaded runtimes',
 'The tests run on a real tokio runtime whose scheduling nobody controls.',
 [ABLP,S+'runtime.rs'],[('message channel','BatchMessage through RuntimeChannel'),('export with timeout','export_with_timeout'),('worker','BatchLogProcessor::new spawned task')],
 ['LogExporter::export','results and simulated duration of force_flush/shutdown'])
p('L05','Log records carry the trace context of the thread that emitted them',
 'A log record emitted while a span is active on the emitting thread or task carries exactly that span\'s trace id, span id and flags, one emitted with no active span carries none, and a trace context set explicitly on the record is kept, whichever spans are active or being ended on other threads. This holds for records emitted through the logging API and through the tracing and log bridges, each of which turns every event into exactly one record with its severity, body, target and attributes, its event name and timestamp if it has them, and an observed timestamp that is the one set on it or else the time of the call.',
 ['schedules','histories'],'every interleaving of threads that activate spans, end them and log, directly and through the bridges',
 'Tests log from one thread with one active span.',
 [S+'logs/logger.rs','opentelemetry-appender-tracing/src/layer.rs','opentelemetry-appender-log/src/lib.rs'],[('context lookup','SdkLogger::emit, Context::map_current'),('bridges','OpenTelemetryTracingBridge::on_event, OpenTelemetryLogBridge::log')],
 ['records seen by the log processor/exporter'])
p('L06','Log processors run in order and see each other\'s changes, isolated per record',
 'Each emitted record is offered to every registered log processor exactly once, in registration order, a later processor sees the changes made by an earlier one to that record, and no change leaks into any other record, whichever threads emit at the same time. What one processor does with the record (keeps a copy, drops it, fails to export it) does not change what the others receive.',
 ['schedules','histories','configurations'],'every interleaving of emitting threads through chains of processors of mixed kinds',
 'Tests use one thread and a two-processor chain.',
 [S+'logs/logger.rs',S+'logs/logger_provider.rs',S+'logs/log_processor.rs'],[('processor loop','SdkLogger::emit')],
 ['records received by each processor'])
# ------------------------------------------------------------------ context
p('C01','The current context is per thread and restored whatever the drop order',
 'On each thread the current context is the most recently attached one whose guard is still alive, or the empty context if none is, whichever order guards are dropped in and whatever other threads do. Code that is handed the current context or active span (samplers, processors, propagators, closures) may itself attach and detach contexts. Guards dropped out of order, during unwinding or at thread exit never disturb other guards, and values stored in a context never change after it was created: a context derived from another has exactly the other\'s values, span, baggage and suppression except for what was set or cleared.',
 ['schedules','histories'],'every sequence of attach, nested attach, out-of-order guard drop, panic and thread exit on several threads',
 'Tests use a handful of fixed attach/detach orders on one thread.',
 [A+'context.rs'],[('thread-local stack','ContextStack::push / pop_id'),('guard','ContextGuard::drop')],
 ['Context::current()/map_current() on every thread'])
p('C02','A future bound to a context always runs in it and never leaks it',
 'Each poll of a future, stream or sink bound to a context runs with that context current, on whichever thread it is polled and however often it migrates between threads, nests or interleaves with other tasks. When the poll ends (pending, ready or by panic), or the future is dropped or cancelled, the polling thread is back in exactly the context it had before.',
 ['schedules','histories','fault_sequences'],'every interleaving of polls across executor threads, cancellations, panics and nestings',
 'Tests poll a future to completion on one thread.',
 [A+'context/future_ext.rs',A+'context.rs',A+'trace/context.rs'],[('attach around poll','WithContext::poll*')],
 ['Context::current() inside and after polls'])
p('C03','Telemetry suppression stops exporter feedback, only in its own scope',
 'Log records emitted by code running inside a telemetry-suppressed scope are not recorded, suppression ends exactly when its scope ends on that thread (or task), and it never affects telemetry produced by other threads. In particular the simple processors and the batching and periodic-export threads suppress telemetry made by the exporters they call to export, so an exporter that itself logs can never cause an endless export loop or deadlock.',
 ['schedules','fault_sequences','histories'],'every interleaving of suppressed and unsuppressed telemetry and every exporter that emits telemetry while exporting',
 'The test checks one exporter on one thread with real timers.',
 [A+'context.rs',S+'logs/logger.rs',BLP,BSP,S+'metrics/periodic_reader.rs'],[('flag','Context::enter_telemetry_suppressed_scope / is_current_telemetry_suppressed'),('check','SdkLogger::event_enabled / emit')],
 ['records received by the exporter'])
p('C04','Replacing the global providers is atomic and never breaks callers',
 'Setting the global tracer provider, meter provider or propagator while other threads use them is atomic: every tracer, meter or propagation obtained belongs entirely to one of the providers that was installed at some moment during the call, each later call sees the replacement or a newer one, and nothing is lost from providers that were replaced. Callers never block forever, panic or see a partially installed provider, even when an installed component itself uses the globals.',
 ['schedules','histories'],'every interleaving of set, get and use from several threads',
 'Tests set the global once on one thread.',
 [A+'global/trace.rs',A+'global/metrics.rs',A+'global/propagation.rs'],[('lock','RwLock<GlobalTracerProvider>, GLOBAL_METER_PROVIDER, GLOBAL_TEXT_MAP_PROPAGATOR')],
 ['provider identity behind tracers/meters obtained'])
# ------------------------------------------------------------------ metrics
p('M01','Counters: concurrent recording and collection conserve every measurement',
 'For counters and up-down counters of every number type, whatever threads record and collect at the same time: with delta temporality the values exported for an attribute set over all collections add up to exactly what was recorded for it, and with cumulative temporality each exported value equals everything recorded up to some instant during that collection, so it includes every measurement completed before the collection began and none begun after it. Attribute order and duplicate keys do not split a series (sets compare by value; a floating-point NaN equals nothing, itself included), no series is exported twice in a collection or with an attribute key twice, and in delta temporality nothing is exported for a series that had no measurement since the previous collection.',
 ['schedules','histories','configurations'],'every interleaving of recording threads with collections by one or more readers; all instrument and number kinds',
 'Stress tests add from threads and collect once at the end; no collection ever overlaps a measurement in a controlled way.',
 [S+'metrics/internal/mod.rs',S+'metrics/internal/sum.rs',S+'metrics/internal/aggregate.rs'],[('tracker map','ValueMap::measure / collect_and_reset / collect_readonly'),('atomic values','AtomicTracker implementations')],
 ['exported Sum data points versus recorded measurements'],
 [('no-attribute slot','series without attributes kept outside the map','ValueMap::no_attribute_tracker')])
p('M02','Histograms: each exported point is internally consistent and conserves counts',
 'For explicit-bucket and exponential histograms, whatever threads record and collect at the same time, every exported data point describes exactly one set of finite measurements: its count equals the total of its buckets, every measurement is counted in the bucket whose range contains it (the buckets of exponential histograms no coarser than the configured maximum size and scale require), and its sum, minimum and maximum are those of the same set. Over all delta collections every measurement is in exactly one exported point, cumulative points contain every measurement completed before the collection began, and points with no measurements are not exported in delta temporality. (An exponential histogram configured with a maximum of one bucket may drop measurements that do not fit, as documented; its points stay self-consistent. Subnormal values may be counted with the smallest normal one.)',
 ['schedules','histories','configurations'],'every interleaving of recording with collection, all boundaries, scales and temporalities used',
 'Tests record and collect on one thread.',
 [S+'metrics/internal/histogram.rs',S+'metrics/internal/exponential_histogram.rs',S+'metrics/internal/mod.rs'],[('bucket mutex','HistogramTracker / ExpoHistogram buckets behind Mutex'),('swap on collect','clone_and_reset')],
 ['exported histogram points'])
p('M03','Gauges: the exported value is one recorded, and the latest',
 'A gauge point exported for an attribute set is a value that was really recorded for it, and no other measurement of that series both began after the exported one had completed and itself completed before the collection began. With delta temporality a gauge point is exported only if the series was recorded since the previous collection; with cumulative temporality the last value keeps being exported.',
 ['schedules','histories'],'every interleaving of recording threads with collections',
 'Tests record and collect on one thread.',
 [S+'metrics/internal/last_value.rs',S+'metrics/internal/mod.rs'],[('assign tracker','Assign / ValueMap')],
 ['exported Gauge points versus recorded values'])
p('M04','Metric time intervals tile time without gaps or overlaps',
 'In the stream of collections by one reader, every delta point starts exactly when the previous collection of that metric ended, and every cumulative point keeps one fixed start time for the life of the instrument. End times are those of the collection, so they never go backwards and are never before the start time unless the system clock was set back; this holds for every instrument kind and whatever recording or collection runs at the same time.',
 ['schedules','fault_sequences','histories'],'every interleaving of collections, pauses, and system clock jumps; synchronous and observable instruments',
 'Tests check one pair of timestamps on the real clock.',
 [S+'metrics/internal/aggregate.rs',S+'metrics/internal/sum.rs',S+'metrics/internal/histogram.rs'],[('interval bookkeeping','AggregateTimeInitiator::delta / cumulative')],
 ['start_time and time of exported metrics'])
p('M05','Cardinality overflow bounds memory but never loses measurements',
 'However many distinct attribute sets are recorded concurrently, an instrument exports at most its configured maximum number of attribute sets (2000 by default, besides the attribute-less one) plus one overflow series per collection, series that already exist keep receiving their own measurements so that no attribute set is split between its own and the overflow series, and measurements for attribute sets beyond the limit all go to the overflow series so that the totals are conserved. With delta temporality the limit applies afresh after each collection.',
 ['schedules','inputs','histories'],'every interleaving of first-time attribute sets near the limit with collections',
 'The tests fill the map from one thread.',
 [S+'metrics/internal/mod.rs'],[('limit','is_under_cardinality_limit / stream_overflow_attributes in ValueMap::measure')],
 ['exported series and totals'])
p('M06','One instrument identity gives one metric stream, whoever creates it',
 'Instruments created with the same identity (meter scope, name ignoring case, kind, unit and description), concurrently or one after another, on any thread, through any clone of the provider and while collections run, all feed a single exported metric stream that conserves all their measurements. Instruments with different identities never share a stream, an instrument that several views match feeds each stream they make of it exactly once, and instruments dropped by a view or given an invalid name record nothing and break nothing.',
 ['schedules','configurations','histories'],'every interleaving of instrument creation, recording and collection',
 'Tests create duplicates sequentially.',
 [S+'metrics/pipeline.rs',S+'metrics/meter.rs',S+'metrics/meter_provider.rs'],[('aggregator cache','Cache / Inserter::cached_aggregator'),('meter cache','SdkMeterProvider meters map')],
 ['exported metric streams'])
p('M07','Observable instruments report exactly what their callbacks observed',
 'Each collection invokes every registered callback exactly once and exports, for each observable instrument, exactly the attribute sets observed by callbacks during that collection: the last observed value for gauges and cumulative sums, and the change since the previous collection for delta sums (of a value lower than before, counting from zero again). Attribute sets no longer observed are no longer exported by gauges and delta sums (cumulative sums keep their last value, as the change log says), what one reader collects never includes observations made for another, and concurrent collections, registrations and recordings neither lose nor mix observations.',
 ['schedules','histories','configurations'],'every sequence of observations over collections, registrations racing with collections, several readers',
 'Tests use constant callbacks and one reader.',
 [S+'metrics/pipeline.rs',S+'metrics/internal/precomputed_sum.rs',S+'metrics/internal/last_value.rs',S+'metrics/meter.rs'],[('callback list','Pipeline::produce'),('delta from previous','PrecomputedSum::delta')],
 ['exported points versus observations made in the same collection'])
p('M08','Metric readers are independent of each other',
 'With several readers on one provider, each with its own temporality, every reader sees every measurement exactly as if it were alone: collecting, flushing, failing or shutting down one reader never removes, duplicates or delays data of another. Provider flush and shutdown reach every reader and report failure if any of them failed.',
 ['schedules','fault_sequences','configurations'],'every interleaving of collections by different readers with recording; readers whose exporter fails or stalls',
 'Tests use a single reader in almost all cases.',
 [S+'metrics/pipeline.rs',S+'metrics/meter_provider.rs',S+'metrics/manual_reader.rs',S+'metrics/periodic_reader.rs'],[('one pipeline per reader','Pipelines / Resolver')],
 ['data exported by each reader'])
p('M09','Periodic export thread: on time, complete on flush and shutdown, then silent',
 'The background-thread periodic reader collects and exports once per interval even when exports fail or are slow, never runs two exports at once, and a successful flush or shutdown has exported every measurement completed before the call. Flush and shutdown report an exporter failure or timeout instead of success; shutdown returns within its time limit, shuts the exporter down exactly once after the last export, nothing is exported afterwards, the thread ends, and later flush and shutdown calls report an error without blocking. Between exports it waits instead of polling.',
 SF,'every interleaving of recording, interval expiry, flush and shutdown; exporters that fail, panic or stall; all intervals, in simulated time',
 'Tests sleep on the real clock and sample one export count.',
 [S+'metrics/periodic_reader.rs'],[('interval wait','recv_timeout loop'),('flush/shutdown messages','PeriodicReaderInner::force_flush / shutdown')],
 ['PushMetricExporter::export/shutdown calls','results and simulated duration of flush/shutdown'])
p('M10','Async-runtime periodic export: on time, complete, bounded',
 'The periodic reader on an async runtime collects and exports once per interval (counted, as documented, from the end of the export before) even when exports fail or time out, abandons an export after the configured timeout, never runs two exports at once, and a successful flush or shutdown has exported every measurement completed before the call. Shutdown shuts the exporter down exactly once and reports if that or the final export failed, nothing is exported afterwards, and later calls return an error without blocking. Between exports it waits instead of polling.',
 SF,'every interleaving of recording, ticks, flush and shutdown with the runtime threads; exporters that fail or stall',
 'Tests run on a real runtime with real time and one recording.',
 [S+'metrics/periodic_reader_with_async_runtime.rs',S+'runtime.rs'],[('worker','PeriodicReaderWorker::run'),('timeout','future::select(export, delay)')],
 ['PushMetricExporter calls','results of flush/shutdown'])
# ------------------------------------------------------------------ samplers, exporters
p('X01','Remote sampler keeps its last good strategy and its rate limit',
 'The remotely configured sampler decides with its default sampler until a valid strategy has been fetched and from then on with the most recently fetched valid strategy, whatever errors, stalls or malformed responses follow; sampling never blocks or panics. A rate-limiting strategy of N per second never samples more than the bucket size plus N times the elapsed seconds of decisions in any period and drops only what exceeds that, also when the system clock is set back; polling happens once per configured interval, and no request begins after the sampler is gone.',
 SF,'every sequence of HTTP responses, errors and stalls, concurrent sampling, system clock jumps',
 'Tests feed one good response, and the limiter with fixed arguments.',
 [S+'trace/sampler/jaeger_remote/sampler.rs',S+'trace/sampler/jaeger_remote/sampling_strategy.rs',S+'trace/sampler/jaeger_remote/rate_limit.rs'],[('update task','JaegerRemoteSampler::run_update_task'),('strategy','Inner::update / should_sample'),('leaky bucket','LeakyBucket::should_sample')],
 ['sampling decisions, HTTP requests made'])
p('X02','OTLP and Zipkin HTTP export succeeds exactly when the collector accepts',
 'An export over HTTP by the OTLP trace, metric and log exporters or the Zipkin exporter sends a single request containing exactly the items of that batch (for OTLP with their resource and scope) and reports success exactly when it was answered with a success status; transport errors and error statuses are reported as errors, and an export that fails, panics or is cancelled does not affect concurrent or later ones. After an OTLP exporter is shut down no request is sent and exports report it, even when shutdown races with exports.',
 ['schedules','fault_sequences','inputs'],'every collector response, connection fault and delay; concurrent exports and shutdown',
 'Integration tests need a running collector; no fault is ever injected.',
 ['opentelemetry-otlp/src/exporter/http/mod.rs','opentelemetry-otlp/src/exporter/http/trace.rs','opentelemetry-otlp/src/exporter/http/logs.rs','opentelemetry-otlp/src/exporter/http/metrics.rs','opentelemetry-zipkin/src/exporter/uploader.rs'],[('send','OtlpHttpClient::export for each signal'),('shutdown','client taken from the mutex')],
 ['requests seen by the simulated HTTP client','export results'])
p('X03','OTLP gRPC export succeeds only if the collector accepted everything',
 'An export over gRPC by the OTLP trace, metric and log exporters reports success only if the collector answered that request with an OK status after receiving exactly the items of that batch; refused, silent or broken connections, error statuses, cut streams and requests refused by an interceptor are reported as errors within the configured timeout (which limits connecting and the request separately), no batch is sent twice, and later exports succeed again once the collector is back. After shutdown the exporter sends nothing more and reports it.',
 ['schedules','fault_sequences','inputs'],'every server behaviour, connection cut point and delay on a simulated network',
 'Integration tests need a running collector; no fault is ever injected.',
 ['opentelemetry-otlp/src/exporter/tonic/mod.rs','opentelemetry-otlp/src/exporter/tonic/trace.rs','opentelemetry-otlp/src/exporter/tonic/logs.rs','opentelemetry-otlp/src/exporter/tonic/metrics.rs'],[('send','Tonic*Client::export'),('shutdown','inner taken')],
 ['requests decoded by the simulated collector','export results'])
p('X04','In-memory exporters are consistent under concurrent use',
 'The in-memory span, log and metric exporters return, in order and unchanged, exactly the items exported since the last reset: a read sees every export completed before it began, no export begun after it completed, and each concurrent batch either entirely or not at all, and a reset removes exactly what was exported before it.',
 ['schedules','histories'],'every interleaving of export, read, reset and shutdown from several threads and clones',
 'Tests use one thread.',
 [S+'trace/in_memory_exporter.rs',S+'logs/in_memory_exporter.rs',S+'metrics/in_memory_exporter.rs'],[('mutex around the store','InMemory*Exporter::export / get_* / reset')],
 ['results of get_finished_spans/get_emitted_logs/get_finished_metrics'])
p('X05','End to end: an application over a faulty collector loses only what it was told',
 'For an application using tracing, metrics and logs together with batching and periodic export over OTLP to a collector that fails, stalls or restarts, every request contains only telemetry the application produced (with its ids, parents, resource and scope), nothing is sent in two requests, and once the collector works again flushing soon succeeds and a successful flush, shutdown or drop of the provider delivers everything produced since. After a successful shutdown nothing more is sent. No combination of faults crashes the application, makes recording telemetry wait, or makes flush and shutdown take longer than the documented limits.',
 ['schedules','fault_sequences','configurations','crash_points'],'every interleaving of application threads with export pipelines, every sequence of collector faults, provider drops and shutdowns at arbitrary points',
 'No test runs all signals together, let alone with faults.',
 [S+'trace/provider.rs',S+'logs/logger_provider.rs',S+'metrics/meter_provider.rs','opentelemetry-otlp/src/exporter/http/mod.rs'],[('pipelines','processors and readers of the three signals sharing the exporters')],
 ['requests accepted by the simulated collector'])
p('X06','Stdout exporters write every item once, the resource once, and stop at shutdown',
 'The standard-output exporters, used from several threads, describe every exported span, log record and metric exactly once, print the resource of spans and logs exactly once, and report an error and print nothing for exports that begin after shutdown completed.',
 ['schedules','histories'],'every interleaving of concurrent exports and shutdown',
 'Nothing tests them concurrently.',
 ['opentelemetry-stdout/src/trace/exporter.rs','opentelemetry-stdout/src/logs/exporter.rs','opentelemetry-stdout/src/metrics/exporter.rs'],[('flags','is_shutdown, resource_emitted compare_exchange')],
 ['bytes written to standard output','export results'])
p('X07','Concurrent Prometheus scrapes are consistent snapshots',
 'Every Prometheus scrape taken while threads record returns well-formed metric families without duplicate series in which counters and histogram counts include every measurement completed before the scrape, never decrease from one scrape to the next, and each histogram has cumulative buckets whose last equals its count. Concurrent scrapes do not deadlock, lose series or change what other scrapes report.',
 ['schedules','histories'],'every interleaving of scrapes with recording and shutdown',
 'Tests gather once on one thread.',
 ['opentelemetry-prometheus/src/lib.rs'],[('collector','Collector::collect under its mutex')],
 ['prometheus Registry::gather results'])
p('X08','OTLP over the bundled HTTP clients ends in time, honestly, and recovers',
 'An OTLP export over the HTTP clients that come with the crates (hyper, reqwest, blocking reqwest) always ends within the configured timeout (the blocking client applies it to the head and the body of the response separately), whatever the network and the collector do; it reports success only if the collector received exactly the items of that batch and answered with a success status, an error otherwise, sends no batch twice, and succeeds again once the collector is back. After shutdown nothing more is sent, and exports report it.',
 ['schedules','fault_sequences','inputs'],'every collector behaviour, connection cut point, lost or delayed segment and partition on a simulated network',
 'Tests use a mock client or a healthy local server.',
 ['opentelemetry-http/src/lib.rs','opentelemetry-otlp/src/exporter/http/mod.rs','opentelemetry-otlp/src/exporter/http/trace.rs','opentelemetry-otlp/src/exporter/http/logs.rs','opentelemetry-otlp/src/exporter/http/metrics.rs'],[('send','HttpClient::send_bytes implementations'),('client choice','HttpExporterBuilder::build_client')],
 ['requests received by the simulated collector','export results and simulated durations'])
# ------------------------------------------------------------------ pure functions (not claimed)
p('P01','Propagators round-trip valid contexts and reject malformed ones',
 'Injecting a valid span context or baggage with the W3C trace-context, baggage, Jaeger or Zipkin B3 propagators and extracting the result gives the same context back. Extracting from malformed, truncated or hostile carriers never panics and never yields an invalid or invented context.',
 ['inputs'],'every context and every carrier content','Tests enumerate a few dozen headers.',
 [S+'propagation/trace_context.rs',S+'propagation/baggage.rs','opentelemetry-jaeger-propagator/src/propagator.rs','opentelemetry-zipkin/src/propagator/mod.rs',A+'trace/span_context.rs'],[('parsing','extract_with_context implementations')],['extracted Context'])
p('P02','Baggage and trace state respect their size limits and key rules',
 'Baggage never holds more than 64 entries or 8192 bytes of content, exactly as computed from the entries it currently holds, and trace state never holds more than 32 valid entries with the most recently updated first. Every operation either applies completely or leaves the value unchanged.',
 ['inputs','histories'],'every sequence of insertions, replacements and removals','Tests use fixed sequences.',
 [A+'baggage.rs',A+'trace/span_context.rs'],[('limits','Baggage::insert_with_metadata, TraceState::insert')],['Baggage and TraceState contents'])
p('P03','OTLP and Zipkin conversion preserves telemetry content',
 'Converting SDK spans, log records and metrics to the OTLP protobuf and JSON and to Zipkin JSON keeps every field, attribute type and value, and grouping by resource and scope neither drops nor mixes items.',
 ['inputs'],'every telemetry item','Tests convert a few hand-written items.',
 ['opentelemetry-proto/src/transform/common.rs','opentelemetry-proto/src/transform/trace.rs','opentelemetry-proto/src/transform/logs.rs','opentelemetry-proto/src/transform/metrics.rs'],[('conversion','From implementations, group_*_by_resource_and_scope')],['encoded requests'])
p('P04','Resource merging, environment configuration and instrument validation',
 'Merging resources keeps the documented precedence and schema-url rules, environment variables configure exactly what they document with defaults for malformed values, and instrument names, units and boundaries outside the documented rules yield inert instruments.',
 ['inputs','configurations'],'every input string and combination','Tests sample a few values.',
 [S+'resource/mod.rs',S+'resource/env.rs',S+'metrics/meter.rs','opentelemetry-otlp/src/exporter/mod.rs'],[('merge','Resource::merge'),('validation','InstrumentResolver / validate_instrument_name')],['resulting Resource and instruments'])
p('P05','Trace-id ratio sampling is a deterministic, monotone function of the trace id',
 'The ratio-based sampler makes the same decision for the same trace id on every service, samples everything at ratio 1 and nothing at ratio 0, and any trace sampled at a lower ratio is sampled at every higher ratio.',
 ['inputs'],'every trace id and ratio','A statistical test samples one seed.',
 [S+'trace/sampler.rs'],[('threshold comparison','sample_based_on_probability')],['sampling decision'])
if __name__=='__main__':
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        for f in x['anchors']['files']:
            import os
            assert os.path.exists('/repo/'+f),(x['id'],f)
        print(json.dumps(x,ensure_ascii=False))
