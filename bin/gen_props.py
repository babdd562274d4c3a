#!/usr/bin/env python3
# Source of properties.jsonl (one place to edit; run after a change).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every accepted point is returned once, in order, with its latest value",
  "After any sequence of accepted writes to any set of series, in any timestamp order, with repeated timestamps and across day boundaries, a raw query over a time range returns for each series exactly the distinct timestamps written inside the range (both ends included), in increasing order and each once. The value returned for a timestamp is the one written last for it, exact for lossless compression (answers carry 16 decimals) and within the configured precision otherwise. An answer that does not fit is refused, never shortened. No series is returned with points it was never given.",
  ["histories", "configurations"], "All arrival orders of small sets of points (in order, late, repeated, crossing a page or a day), for every compressor, page size and time resolution, and every query range around the written timestamps.",
  "The tests write mostly increasing timestamps on one configuration and compare averages; arrival order, page fill level and day crossing are combined by hand at best.",
  ["src/core/ts.cpp", "src/core/page.cpp", "src/core/tsdb.cpp", "src/core/mmap.cpp", "src/core/query.cpp"],
  [("in-order and out-of-order in-memory pages", "src/core/ts.cpp TimeSeries::add_data_point"), ("page append and page chain", "src/core/tsdb.cpp Tsdb::append_page"), ("merge of pages at query time", "src/core/query.cpp QueryTask")],
  observe_at=["POST /api/put", "POST /api/query"])
p("C02", "A clean restart changes nothing a client can see",
  "If the server is shut down in an orderly way at any point of any history and started again on the same data directory, every query, series lookup and suggestion returns what it would have returned without the restart. Writes accepted after the restart behave as if it had not happened, including late and repeated timestamps for data written before it.",
  ["histories", "configurations"], "All placements of one or two restarts in short write histories, for every compressor and time resolution, with pages at every fill level.",
  "The restart tests use one history shape; the state of the last page at shutdown (fill level, encoder state, late points) is what varies.",
  ["src/core/tsdb.cpp", "src/core/ts.cpp", "src/utils/meta.cpp", "src/utils/append.cpp", "src/core/mmap.cpp", "src/agg/rollup.cpp"],
  [("flush of open pages at shutdown", "src/core/tsdb.cpp Tsdb::shutdown"), ("metadata reload", "src/utils/meta.cpp MetaFile::init"), ("page restore on next write", "src/core/ts.cpp TimeSeries::restore")],
  observe_at=["POST /api/query", "GET /api/suggest", "GET /api/search/lookup"])
p("C03", "A crash loses nothing logged, invents nothing, and the server starts again",
  "If the server process dies at any instant, the next start on the same data directory succeeds and every point accepted before the last completed write-ahead flush began is returned by queries with the value last written for it. No returned point was never written, and points and series written after the restart are stored and returned correctly. The write-ahead files left behind can be any that an interrupted flush leaves, including a partly written one.",
  ["crash_points", "histories"], "Every file-system operation boundary (and torn writes of the log) of short histories of writes, log flushes, page flushes, day changes and shutdowns, each followed by a restart and further writes.",
  "Tests stop the server politely or kill it at arbitrary moments; they never enumerate the instants inside a flush.",
  ["src/utils/append.cpp", "src/core/ts.cpp", "src/utils/meta.cpp", "src/core/mmap.cpp", "src/core/tsdb.cpp"],
  [("log written aside and renamed", "src/utils/append.cpp AppendLog::flush_all"), ("log replay at start", "src/utils/append.cpp AppendLog::restore"), ("metadata flush", "src/utils/meta.cpp MetaFile::flush")],
  observe_at=["POST /api/query after restart"])
p("C04", "Queries running beside writers and background jobs stay correct",
  "A query that runs while other threads write, flush, archive, or rotate returns every point whose write completed before the query started, and no point that was not written before the query finished. No timestamp of a series is returned twice, and no thread deadlocks or crashes.",
  ["schedules"], "All interleavings with up to two preemptions of one query with one writer or background job, for small histories that force a page or day change.",
  "The window between reading stored pages and reading the open page is a few instructions wide; tests cannot steer threads into it.",
  ["src/core/ts.cpp", "src/core/query.cpp", "src/core/tsdb.cpp", "src/utils/append.cpp"],
  [("per-series lock while reading the open page", "src/core/ts.cpp TimeSeries::query_for_data"), ("store lock while reading pages", "src/core/tsdb.cpp Tsdb::query_for_data"), ("reference count of a day's store", "src/core/tsdb.cpp Tsdb::inst")],
  observe_at=["POST /api/query", "POST /api/put"])
p("C05", "Concurrent writers create each series once and lose no point",
  "When several threads write at the same time, to the same or to different series, new or existing, every accepted point is returned afterwards, each series exists exactly once, and every new series gets its own identity that survives a restart. No thread deadlocks or crashes.",
  ["schedules"], "All interleavings with up to two preemptions of two or three writers whose points collide on a new metric, a new series, the same page or a day change.",
  "Concurrent tests check totals under whatever schedule the machine happens to produce.",
  ["src/core/tsdb.cpp", "src/core/ts.cpp", "src/utils/meta.cpp"],
  [("metric map lock and per-thread cache", "src/core/tsdb.cpp Tsdb::get_or_add_mapping"), ("per-metric series list", "src/core/tsdb.cpp Mapping::get_ts"), ("striped series locks", "src/core/ts.cpp TimeSeries::m_locks"), ("series id counter", "src/core/ts.cpp TimeSeries::m_next_id")],
  observe_at=["POST /api/put", "POST /api/write", "POST /api/query"])
p("C06", "A series is its metric plus its tag set, whatever format or tag order is used",
  "Two writes go to the same series exactly when their metric names and sets of tags are equal, independent of the order in which tags are given and of the ingest format used (plain put line, JSON, InfluxDB line protocol with each field as its own tag value). The metric, tags, timestamp and value read back are exactly those written, whatever mix of formats wrote the series.",
  ["inputs", "histories"], "All pairs and sequences of writes over a small alphabet of metrics, tag sets, tag orders, formats, timestamp units and number spellings.",
  "Tests use one format and one tag order per metric; collisions between similar names, subsets and orders are not explored.",
  ["src/core/tsdb.cpp", "src/core/dp.cpp", "src/utils/tag.cpp", "src/utils/json.cpp"],
  [("canonical tag order", "src/utils/tag.cpp TagOwner / TagBuilder"), ("series lookup", "src/core/tsdb.cpp Mapping::get_ts"), ("parsers", "src/core/dp.cpp DataPoint::from_plain/from_json/parse_line")],
  observe_at=["POST /api/put", "POST /api/write", "POST /api/query"])
p("C07", "Page encoding returns exactly the points that were put in",
  "For every compressor, a page returns the points that it accepted, in the same order, with exact timestamps and with values that are exact (lossless encodings) or within the configured precision (lossy encodings); a page that refuses a point is unaffected by it. Saving a partly filled page and restoring it, at any point, gives the same content and the same behaviour for further points.",
  ["inputs", "histories", "configurations"], "All sequences of time and value steps over the boundaries of every encoding class, every page size class and every save/restore point.",
  "The encodings have bit-packed size classes selected by value; tests use smooth data that rarely leaves one class.",
  ["src/core/compress.cpp", "src/utils/bitset.cpp", "src/core/page.cpp"],
  [("bit-packed delta encodings", "src/core/compress.cpp Compressor_v1..v4"), ("save and restore of encoder state", "src/core/compress.cpp save/restore"), ("bit buffer", "src/utils/bitset.cpp BitSet")],
  observe_at=["page-level append/read interface"])
p("C08", "Downsampling equals the definition applied to the raw points",
  "A downsampled query returns, for each series, one value per interval that starts in the queried range and contains points, stamped with the start of the interval (the whole range is one interval for '0all', stamped with its start), and the value is the requested function (avg, count, dev, first, last, max, min, sum, percentiles) of exactly the raw points of that interval. With a fill policy, every interval of the range that has no points gets the fill value.",
  ["inputs", "histories"], "All small point sets around interval edges, all functions, intervals, fill policies and range alignments.",
  "Tests check a few functions on regular data aligned with the interval.",
  ["src/agg/down.cpp", "src/core/query.cpp", "include/down.h"],
  [("interval alignment", "include/down.h Downsampler::step_down"), ("fill policy", "src/agg/down.cpp Downsampler::fill_to"), ("functions", "src/agg/down.cpp")],
  observe_at=["POST /api/query", "GET /api/query"])
p("C09", "Aggregation groups series by tags and combines points by timestamp",
  "An aggregated query returns one result per distinct combination of values of the tags used for grouping, and every matching series contributes to exactly one group. At each timestamp of a group the value is the requested aggregate (avg, count, dev, max, min, sum, percentile, topN, bottomN, none) of the members' points with that timestamp, timestamps are increasing, and the result's tags are exactly those all members have with equal values, its aggregate tags the names all members have with differing values. topN and bottomN keep the N series of a group that are highest, respectively lowest, in their latest points.",
  ["inputs", "histories"], "All small sets of series with overlapping and disjoint timestamps, all aggregators and grouping choices.",
  "Tests exercise a few aggregators with aligned series.",
  ["src/agg/aggregate.cpp", "src/core/query.cpp"],
  [("grouping", "src/core/query.cpp Query::aggregate"), ("merge by timestamp", "src/agg/aggregate.cpp")],
  observe_at=["POST /api/query", "GET /api/query"])
p("C10", "Rate is the per-second change between consecutive points",
  "A rate query returns, for every point but the first of each result series (after downsampling and aggregation), the change since the previous point divided by the elapsed seconds, in either time resolution. With counter options, a decrease is treated as a wrap at the counter maximum, values beyond the reset value give zero, and with dropped resets a decrease produces no point. Every rate query terminates, also for results without points.",
  ["inputs", "histories"], "All short value sequences with increases, decreases and equal values, irregular spacing, all rate option combinations, both request forms.",
  "Tests cover a monotonically growing counter.",
  ["src/agg/rate.cpp", "src/core/query.cpp"],
  [("rate calculation", "src/agg/rate.cpp RateCalculator::calculate"), ("application to results", "src/core/query.cpp Query::calculate_rate")],
  observe_at=["POST /api/query", "GET /api/query"])
p("C11", "Tag filters select exactly the matching series",
  "A query with tag filters returns exactly the series of the metric whose tags satisfy all filters: exact value, alternatives separated by a bar, prefix with trailing star, any value, and the named filters literal_or, iliteral_or, not_literal_or, not_iliteral_or, wildcard, iwildcard and regexp. A series lacking a filtered tag is never selected by a filter that requires the tag, and with explicit tags only series having exactly the filtered tags are selected.",
  ["inputs"], "All filters over a small alphabet of patterns applied to all series over a small alphabet of tag names and values, singly and in pairs, before and after a restart.",
  "Tests try a handful of filters on a handful of tags.",
  ["src/utils/tag.cpp", "src/core/tsdb.cpp", "src/core/query.cpp"],
  [("matching", "src/utils/tag.cpp TagMatcher"), ("series selection", "src/core/tsdb.cpp Mapping::query_for_ts / Tsdb::query_for_ts")],
  observe_at=["POST /api/query", "GET /api/query"])
p("C12", "Answers computed from rollup data equal answers computed from raw data",
  "For in-order data, a downsampled query with an interval of whole hours (below a day) or whole days gives the same result whether it is answered from pre-aggregated (rollup) data or from raw points, for every function that rollup data supports, whatever restarts and rollup jobs happened in between.",
  ["histories", "configurations"], "All placements of points over hours and days, with restarts and background rollup jobs at every position, compared with the raw-only answer of the same query.",
  "Rollup tests compare one dataset, after one rollup run.",
  ["src/agg/rollup.cpp", "src/core/tsdb.cpp", "src/core/query.cpp", "src/core/ts.cpp", "src/core/mmap.cpp"],
  [("hourly accumulation", "src/agg/rollup.cpp RollupManager::add_data_point"), ("rollup files", "src/core/mmap.cpp RollupDataFile"), ("choice of level", "src/core/query.cpp")],
  observe_at=["POST /api/query with and without rollupUsage ROLLUP_RAW"])
p("C13", "The write response tells the truth, and a bad line does not corrupt the others",
  "If a write request is answered with success, every data point in it is stored; otherwise the points stored are exactly the ones the response accounts for: a JSON response's success count is the number stored and its status is an error if any failed; a plain put request stores every well-formed put line and is refused if any put line is malformed (lines that are not put commands, and blank lines, are ignored); a line-protocol request stores exactly the lines before its first malformed one. Malformed input never crashes the server, never alters or invents points, never reads bytes left over from earlier requests, and never affects points of other requests.",
  ["inputs"], "All batches of up to three lines over an alphabet of valid and malformed lines, in every format and terminator style, and all truncations of valid requests.",
  "Tests send well-formed batches.",
  ["src/core/tsdb.cpp", "src/core/dp.cpp", "src/utils/json.cpp"],
  [("request handlers", "src/core/tsdb.cpp Tsdb::http_api_put_handler*"), ("parsers", "src/core/dp.cpp")],
  observe_at=["POST /api/put", "POST /api/write", "responses"])
p("C14", "Requests are processed identically however the network splits them",
  "A stream of requests sent over a connection has the same effect and gets the same responses however its bytes are divided among network reads: HTTP requests (with headers and bodies cut anywhere, compressed or not) and newline-terminated lines on the line port. No byte is lost, repeated or attributed to another request or connection.",
  ["inputs", "fault_sequences"], "All divisions of short streams into two or three segments, and all single-byte-boundary cuts of longer ones, for every request kind.",
  "On loopback the kernel nearly always delivers a request in one piece.",
  ["src/core/http.cpp", "src/core/tcp.cpp"],
  [("header parsing and continuation", "src/core/http.cpp HttpServer::recv_http_data*"), ("line reassembly", "src/core/tcp.cpp TcpServer::recv_tcp_data")],
  observe_at=["bytes written back on the connection", "POST /api/query"])
p("C15", "A persisted checkpoint is never ahead of the data it stands for",
  "The checkpoint reported for a leader and channel is the latest value sent by that leader on that channel before the last completed flush, and everything written before that value was sent is stored durably. Checkpoints of different leaders and channels are independent, and only checkpoints covered by a completed flush are reported.",
  ["histories", "crash_points"], "All histories of checkpoint and data lines, log flushes, queries of checkpoints and crashes up to a small length, over two leaders and two channels.",
  "The test covers one leader and a fixed sequence.",
  ["src/core/cp.cpp", "src/utils/append.cpp", "src/core/tsdb.cpp"],
  [("snapshot before flush, publish after", "src/core/cp.cpp CheckPointManager::take_snapshot/persist"), ("flush job", "src/utils/append.cpp AppendLog::flush_all")],
  observe_at=["POST /api/admin?cmd=cp", "POST /api/query after crash"])
p("C16", "Housekeeping removes only days past retention",
  "Rotation, archiving of idle series and of old days, garbage collection and retention never change what a query returns for a day that is to be kept, at whatever point of a history they run, and writes to an archived day or series are accepted and returned. With a retention period of N days the latest N days holding data are never removed; beyond that number the oldest day is removed as a whole, one per rotation, once nothing uses it any more.",
  ["histories", "configurations"], "All interleavings of writes, queries and housekeeping jobs with clock advances over several days, up to a small length.",
  "Housekeeping runs on day-long timers; tests trigger one job at one moment.",
  ["src/core/tsdb.cpp", "src/core/ts.cpp", "src/core/memmgr.cpp", "src/core/mmap.cpp"],
  [("rotate and purge", "src/core/tsdb.cpp Tsdb::rotate / Tsdb::purge_oldest"), ("series archiving", "src/core/ts.cpp TimeSeries::archive"), ("reopening files", "src/core/mmap.cpp ensure_open")],
  observe_at=["POST /api/query", "data directory"])
p("C17", "Time ranges and intervals are interpreted exactly",
  "Absolute times in seconds and milliseconds, formatted dates, and relative times with every unit denote the instant they say relative to the server's clock, in either case of letters (a month counts as 30 days, a year as 365), and downsampling intervals of raw data in every supported unit (ms, s, m, h, d, w) denote their exact length. A query's range is the interval between the two instants, the same for both request forms and for both time resolutions.",
  ["inputs", "configurations"], "All time expressions over a small alphabet of units, counts, formats and time zones, with clocks at every kind of boundary (month ends, leap days, year ends).",
  "Tests check a few expressions at fixed times.",
  ["src/utils/utils.cpp", "src/utils/cal.cpp", "src/core/query.cpp", "src/agg/down.cpp"],
  [("time parsing", "src/utils/utils.cpp parse_ts / convert_time"), ("calendar", "src/utils/cal.cpp Calendar")],
  observe_at=["POST /api/query start/end/downsample"])
p("C18", "Every submitted task runs exactly once and waiters always wake",
  "Under every interleaving, a task handed to the task scheduler runs exactly once unless shutdown was requested, bounded queues deliver each accepted item exactly once and in order per producer, refusing rather than losing items when full, and a thread waiting for a count of events is released exactly when the count is reached. No interleaving deadlocks.",
  ["schedules"], "All interleavings with up to three preemptions of two or three producers, consumers or waiters on queues of one to three slots.",
  "Lost or doubled items need a preemption inside a few instructions.",
  ["include/queue.h", "src/core/task.cpp", "include/task.h", "src/utils/sync.cpp", "include/sync.h"],
  [("bounded queues", "include/queue.h"), ("worker loop", "src/core/task.cpp Worker::work"), ("count-down", "src/utils/sync.cpp CountingSignal")],
  observe_at=["effects of the tasks"])
p("C19", "A buffer or object handed out is never handed out again until released",
  "Under every interleaving and every sequence of allocations, releases and garbage collections, a network buffer or recyclable object given to one user is not given to another before it has been released, keeps its full size, and is in its initial state when handed out. No interleaving deadlocks or corrupts the free lists.",
  ["schedules", "histories"], "All interleavings with up to two preemptions of two or three threads allocating and freeing, and all sequential alloc/free/collect histories up to a small length, for every object type.",
  "Double hand-out needs a narrow interleaving and shows up far from its cause.",
  ["src/core/memmgr.cpp", "include/memmgr.h", "include/recycle.h"],
  [("free lists under a lock per type", "src/core/memmgr.cpp MemoryManager::alloc_recyclable/free_recyclable"), ("network buffers", "src/core/memmgr.cpp alloc_network_buffer"), ("collection", "src/core/memmgr.cpp collect_garbage")],
  observe_at=["allocation interface"])
p("C20", "Lookups and suggestions list exactly the existing series, metrics and tags",
  "Suggestions for metrics, tag names and tag values return exactly the known names that start with the given prefix, each once, at most the requested number and in the documented response form, and a series lookup returns exactly the series of the metric that match the given tags. This holds after any history of writes and restarts.",
  ["histories", "inputs"], "All small catalogs of metrics and tags written in every order and format, all prefixes and limits, before and after a restart.",
  "Tests do not cover these endpoints.",
  ["src/core/tsdb.cpp", "src/core/query.cpp", "src/utils/tag.cpp", "src/utils/meta.cpp"],
  [("suggest", "src/core/tsdb.cpp Tsdb::http_get_api_suggest_handler"), ("lookup", "src/core/query.cpp http_get_api_search_lookup_handler"), ("tag dictionary", "src/utils/tag.cpp Tag_v2")],
  observe_at=["GET /api/suggest", "GET /api/search/lookup"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
