From 523970d7928ff456fcdf63f34f3b286c343d1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:37 +0000
Subject: [PATCH 01/66] fix: return points at the exact end of a query range

Page and day selection treated the end of the query range as exclusive while
the per-point filter treats it as inclusive, so a point at the end timestamp
was returned or not depending on which page it was stored in.
---
 include/range.h   | 2 +-
 src/core/tsdb.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/range.h b/include/range.h
index cbbc72d..50e1024 100644
--- a/include/range.h
+++ b/include/range.h
@@ -86,7 +86,7 @@ public:
 
     inline bool has_intersection(const TimeRange& range) const
     {
-        return (m_from < range.m_to) && (range.m_from < m_to);
+        return (m_from <= range.m_to) && (range.m_from <= m_to);
     }
 
     inline bool contains(const TimeRange& range) const
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6b0ebe4..1fe0990 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2303,7 +2303,7 @@ Tsdb::insts(const TimeRange& range, std::vector<Tsdb*>& tsdbs)
     // adjust upper bound
     tsdb = m_tsdbs[upper];
 
-    while (tsdb->m_time_range.get_to() < range.get_to())
+    while (tsdb->m_time_range.get_to() <= range.get_to())
     {
         if (upper == (size-1)) break;
         upper++;
-- 
2.43.0


From b9f8459bbf1d1f552a125a061ff30be3fc150e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:37 +0000
Subject: [PATCH 02/66] fix: make the last entry of the per-day series index
 readable

The bounds check rejected the last entry of the index file, so the stored
pages of the series with that id could not be read back.
---
 src/core/mmap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 38beaea..0ba55ec 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -472,7 +472,7 @@ IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& head
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -495,7 +495,7 @@ IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& hea
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -518,7 +518,7 @@ IndexFile::get_out_of_order(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
@@ -568,7 +568,7 @@ IndexFile::get_out_of_order2(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
-- 
2.43.0


From 4c57111adb3febfda5f9ba0f8975fbeab059d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:04 +0000
Subject: [PATCH 03/66] fix: check the data on disk before treating the first
 point of a day as in order

After a restart (or once an idle series was archived) a write to an earlier
day makes that day current. The next write to a later day was then taken as
in order without looking at what that day already has on disk, so a repeated
timestamp was returned twice.
---
 src/core/ts.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index b5004b2..d1bbd98 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -307,15 +307,25 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
 
         if (! is_ooo)
         {
-            m_buff->flush(mid, m_id);
+            // there could already be newer data on disk, in the next tsdb
+            Tsdb *tsdb = Tsdb::inst(tstamp, true);
+            is_ooo = (tstamp <= tsdb->get_last_tstamp(mid, m_id));
+
+            if (is_ooo)
+            {
+                tsdb->dec_ref_count();
+            }
+            else
+            {
+                m_buff->flush(mid, m_id);
 
-            if (m_ooo_buff != nullptr)
-                m_ooo_buff->update_indices(m_buff);
+                if (m_ooo_buff != nullptr)
+                    m_ooo_buff->update_indices(m_buff);
 
-            // reset the m_buff
-            Tsdb *tsdb = Tsdb::inst(tstamp, true);
-            m_buff->init(mid, m_id, tsdb, false);
-            update_rollup = true;
+                // reset the m_buff
+                m_buff->init(mid, m_id, tsdb, false);
+                update_rollup = true;
+            }
         }
     }
     else
-- 
2.43.0


From 3c96125f27e245238c116c355d7c654c4b084ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:11 +0000
Subject: [PATCH 04/66] fix: take out-of-order pages on disk into account when
 deciding whether a point is late

After a restart a point at or before the newest out-of-order point of its day
was stored as in order. Out-of-order pages win when a timestamp is in both, so
a rewritten timestamp kept its old value.
---
 include/tsdb.h    |  2 +-
 src/core/ts.cpp   |  4 ++--
 src/core/tsdb.cpp | 10 ++++++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/tsdb.h b/include/tsdb.h
index 8cf6ace..856f385 100644
--- a/include/tsdb.h
+++ b/include/tsdb.h
@@ -264,7 +264,7 @@ public:
     bool has_daily_rollup();
     bool can_use_rollup(bool level2);
     bool can_use_rollup(TimeSeriesId tid);
-    Timestamp get_last_tstamp(MetricId mid, TimeSeriesId tid);
+    Timestamp get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo=false);
     bool get_out_of_order(TimeSeriesId tid);
     void set_out_of_order(TimeSeriesId tid, bool ooo);
     bool get_out_of_order2(TimeSeriesId tid);
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index d1bbd98..221352e 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -293,7 +293,7 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     {
         Tsdb *tsdb = Tsdb::inst(tstamp, true);
         ASSERT(tsdb != nullptr);
-        Timestamp last_tstamp = tsdb->get_last_tstamp(mid, m_id);
+        Timestamp last_tstamp = tsdb->get_last_tstamp(mid, m_id, true);
         is_ooo = is_ooo || (tstamp <= last_tstamp);
         if (! is_ooo)
         {
@@ -309,7 +309,7 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
         {
             // there could already be newer data on disk, in the next tsdb
             Tsdb *tsdb = Tsdb::inst(tstamp, true);
-            is_ooo = (tstamp <= tsdb->get_last_tstamp(mid, m_id));
+            is_ooo = (tstamp <= tsdb->get_last_tstamp(mid, m_id, true));
 
             if (is_ooo)
             {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 1fe0990..88a2f87 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1847,9 +1847,10 @@ Tsdb::shutdown()
 
 // get timestamp of last data-point in this Tsdb, for the given TimeSeries
 Timestamp
-Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
+Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo)
 {
     Timestamp tstamp = 0;
+    Timestamp ooo_tstamp = 0;
     FileIndex fidx, file_idx;
     HeaderIndex hidx, header_idx;
     struct page_info_on_disk *page_header = nullptr;
@@ -1889,6 +1890,11 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
             page_header = header;
             tsdb_header = header_file->get_tsdb_header();
         }
+        else if (include_ooo && (header->m_tstamp_to > 0))
+        {
+            // m_tstamp_to is exclusive
+            ooo_tstamp = std::max(ooo_tstamp, m_time_range.get_from() + header->m_tstamp_to - 1);
+        }
 
         ASSERT((fidx < header->m_next_file) || (fidx == header->m_next_file && hidx < header->m_next_header));
 
@@ -1932,7 +1938,7 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
         MemoryManager::free_recyclable(container);
     }
 
-    return tstamp;
+    return std::max(tstamp, ooo_tstamp);
 }
 
 bool
-- 
2.43.0


From 584b222c66b379dd867912c043fc72be26305317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:52 +0000
Subject: [PATCH 05/66] fix: let a number written over a NaN or Inf replace it

NaN and Inf are always kept as out-of-order points, even when they are the
newest of the series. A number written afterwards for the same timestamp was
stored as in order, and the out-of-order value kept winning.
---
 include/ts.h    | 1 +
 src/core/ts.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/ts.h b/include/ts.h
index 337a8f1..6b383cf 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -92,6 +92,7 @@ private:
                             // not on disk; otherwise it's contents are at least
                             // partially on the page indexed by m_id
     PageInMemory *m_ooo_buff;
+    Timestamp m_ooo_tstamp = 0; // newest data point ever added to m_ooo_buff
     Tag_v2 m_tags;
     TimeSeriesId m_id;      // global, unique, permanent id starting at 0
 
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 221352e..ba283e3 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -167,6 +167,8 @@ TimeSeries::restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset,
         m_ooo_buff = new PageInMemory(mid, m_id, tsdb, true, file_idx, header_idx);
         out_of_date = m_ooo_buff->restore(tstamp, buff, offset, start, mid, m_id, true);
         ASSERT(! out_of_date);
+        if (! m_ooo_buff->is_empty())
+            m_ooo_tstamp = m_ooo_buff->get_last_tstamp(mid, m_id);
     }
     else
     {
@@ -288,6 +290,9 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
 
     std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
+    // special values are always kept out-of-order, even if they are the newest
+    is_ooo = is_ooo || (tstamp <= m_ooo_tstamp);
+
     // Make sure we have a valid m_buff (PageInMemory)
     if (UNLIKELY(m_buff == nullptr))
     {
@@ -378,6 +383,8 @@ TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
     bool update_rollup = false;
     const Timestamp tstamp = dp.get_timestamp();
 
+    m_ooo_tstamp = std::max(m_ooo_tstamp, tstamp);
+
     // Make sure we have a valid m_ooo_buff (PageInMemory)
     if (m_ooo_buff == nullptr)
     {
-- 
2.43.0


From 14bb58c66f798ffa0169fb96b1f9af21b8766e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:52 +0000
Subject: [PATCH 06/66] fix: report negative infinity with its sign

A stored -Inf was returned as "Inf".
---
 src/core/query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 2ff9177..a26f561 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1780,7 +1780,7 @@ QueryResults::to_json(char *buff, int size) const
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
         if (UNLIKELY(isinf(dp.second)))
-            n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"Inf\"", dp.first);
+            n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"%s\"", dp.first, (dp.second < 0) ? "-Inf" : "Inf");
         else if (UNLIKELY(isnan(dp.second)))
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"NaN\"", dp.first);
         else
-- 
2.43.0


From 638035e24a711f23e945774064bca08c7cc19a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:52 +0000
Subject: [PATCH 07/66] fix: answer 413 instead of dropping the last points of
 a large response

When the last points of a query result did not fit the response buffer, they
were left out (or a number was cut short) and the response was still sent with
status 200 if only a few bytes were missing.
---
 src/core/query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index a26f561..aa5cb25 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1776,7 +1776,7 @@ QueryResults::to_json(char *buff, int size) const
 
     for (const DataPointPair& dp: m_dps)
     {
-        if ((n+8) >= size) break;
+        if ((n+8) >= size) return size;     // response too large
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
         if (UNLIKELY(isinf(dp.second)))
@@ -1785,7 +1785,7 @@ QueryResults::to_json(char *buff, int size) const
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"NaN\"", dp.first);
         else
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":%.16lf", dp.first, dp.second);
-        if (n > size) n = size;
+        if (n >= size) return size;         // response too large
         while ((buff[n-1] == '0') && (buff[n-2] != '.') && (buff[n-2] != ':')) buff[--n] = 0;
     }
 
-- 
2.43.0


From adeeb87dd4d0ffb6fde065d6308965805b6790ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:09 +0000
Subject: [PATCH 08/66] fix: endless loop filling gaps when the interval is
 shorter than the answer's time unit

With millisecond timestamps and an answer in seconds, the interval was divided
by 1000 and became 0 for intervals (or '0all' ranges) below one second.
---
 src/agg/down.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 0a88f4f..8f81a5d 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -276,34 +276,30 @@ Downsampler::fill_if_needed(DataPointVector& dps)
     if (m_fill != DownsampleFillPolicy::DFP_NONE)
     {
         DataPointVector dpv;
-        Timestamp ts = validate_resolution(m_time_range.get_from(), m_ms);
-        Timestamp interval =
-            (m_ms == g_tstamp_resolution_ms) ? m_interval : (m_ms ? (m_interval * 1000) : m_interval / 1000);
+        Timestamp ts = m_time_range.get_from();
 
         // scan dps, filling any gaps
         for (auto dp: dps)
         {
             // fill
-            while (ts < dp.first)
+            while (validate_resolution(ts, m_ms) < dp.first)
             {
                 dpv.emplace_back(validate_resolution(ts, m_ms), m_fill_value);
-                ts += interval;
+                ts += m_interval;
             }
 
-            if (dp.first == ts)
+            if (dp.first == validate_resolution(ts, m_ms))
             {
-                ts += interval;
+                ts += m_interval;
                 dpv.emplace_back(dp.first, dp.second);
             }
         }
 
         // fill
-        Timestamp to = validate_resolution(m_time_range.get_to(), m_ms);
-
-        while (ts <= to)
+        while (ts <= m_time_range.get_to())
         {
             dpv.emplace_back(validate_resolution(ts, m_ms), m_fill_value);
-            ts += interval;
+            ts += m_interval;
         }
 
         dps.swap(dpv);
-- 
2.43.0


From 1374d29cd7414df05fffdeaf6cfeeb2eadc3334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:09 +0000
Subject: [PATCH 09/66] fix: a '0all' downsample included points after the end
 of the range

The range was extended by one interval whenever its end happened to be a
multiple of the range's own length.
---
 include/down.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/down.h b/include/down.h
index c67a5ba..ecb2fde 100644
--- a/include/down.h
+++ b/include/down.h
@@ -76,7 +76,7 @@ public:
     inline const TimeRange get_expanded_range() const
     {
         TimeRange range(m_time_range);
-        if (range.get_to() % m_interval == 0)
+        if (!m_all && (range.get_to() % m_interval == 0))
             range.set_to(range.get_to() + m_interval - 1);
         return range;
     }
-- 
2.43.0


From 344b2e4fac69e3c15faae25d94f5c380807422ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:29 +0000
Subject: [PATCH 10/66] fix: rates were off by a factor of 1000 when the
 answer's resolution differs from the database's

---
 src/agg/rate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/agg/rate.cpp b/src/agg/rate.cpp
index 358dd99..f196b0d 100644
--- a/src/agg/rate.cpp
+++ b/src/agg/rate.cpp
@@ -55,7 +55,8 @@ RateCalculator::calculate(DataPointVector& dps)
         double ts_delta_secs = (double)(t1 - t0);
         double val_delta = v1 - v0;
 
-        if (g_tstamp_resolution_ms) ts_delta_secs /= 1000.0;
+        // timestamps are in the resolution of the query's answer by now
+        if (is_ms(t1)) ts_delta_secs /= 1000.0;
 
         if (m_counter && (val_delta < 0))
         {
-- 
2.43.0


From 679576004fb940e349c14c58807a940c9d028680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:29 +0000
Subject: [PATCH 11/66] fix: rate options of GET queries: 'counter' was
 ignored, dropResets read from the wrong field

---
 src/core/query.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index aa5cb25..f1293f3 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -262,7 +262,8 @@ Query::Query(JsonMap& map, StringBuffer& strbuf) :
 
             if ((opts.size() > 0) && (! opts[0].empty()))
             {
-                counter = ((opts[0].front() == 't') || (opts[0].front() == 'T'));
+                counter = ((opts[0].front() == 't') || (opts[0].front() == 'T') ||
+                           (opts[0].compare(0, 7, "counter") == 0));
             }
 
             if ((opts.size() > 1) && (! opts[1].empty()))
@@ -277,9 +278,9 @@ Query::Query(JsonMap& map, StringBuffer& strbuf) :
                 reset_value = std::stoull(opts[2], &pos, 10);
             }
 
-            if ((opts.size() > 3) && (! opts[2].empty()))
+            if ((opts.size() > 3) && (! opts[3].empty()))
             {
-                drop_resets = ((opts[2].front() == 't') || (opts[2].front() == 'T'));
+                drop_resets = ((opts[3].front() == 't') || (opts[3].front() == 'T'));
             }
 
             m_rate_calculator =
-- 
2.43.0


From 4a9136536a7707365fdc0de9fe36a15c913e8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:59 +0000
Subject: [PATCH 12/66] fix: dots and other special characters in tag filter
 alternatives matched as regular expressions

'a.b|c', literal_or(a.b) and their variants also matched the value 'axb'.
---
 include/tag.h     |  1 +
 src/utils/tag.cpp | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/tag.h b/include/tag.h
index a6e7152..6e4b4c6 100644
--- a/include/tag.h
+++ b/include/tag.h
@@ -227,6 +227,7 @@ private:
 
     // return length of 'dst' string
     static int replace_stars(char *dst, const char *src);
+    static void escape_literals(char *dst, const char *src);
     static std::size_t replace_literal_or(char *dst, const char *src);
 
     TagId m_key_id;
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 1881861..2d63616 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -718,11 +718,13 @@ TagMatcher::init(Tag *tags)
     // handle 'literal_or(...)'
     if (starts_with(value, "literal_or(") && (value[last] == ')'))
     {
-        m_regex = new std::regex(value+10, std::regex_constants::ECMAScript);
+        escape_literals(buff, value+10);
+        m_regex = new std::regex(buff, std::regex_constants::ECMAScript);
     }
     else if (starts_with(value, "iliteral_or(") && (value[last] == ')'))
     {
-        m_regex = new std::regex(value+11, std::regex_constants::ECMAScript | std::regex_constants::icase);
+        escape_literals(buff, value+11);
+        m_regex = new std::regex(buff, std::regex_constants::ECMAScript | std::regex_constants::icase);
     }
     else if (starts_with(value, "not_literal_or(") && (value[last] == ')'))
     {
@@ -773,9 +775,7 @@ TagMatcher::init(Tag *tags)
     else if (std::strchr(value, '|') != nullptr)
     {
         // OpenTSDB 1.x - 2.1 filter
-        buff[0] = '(';
-        std::strncpy(buff, value, sizeof(buff)-2);
-        buff[last+2] = ')'; buff[last+3] = 0;
+        escape_literals(buff, value);
         m_regex = new std::regex(buff, std::regex_constants::ECMAScript);
     }
     else
@@ -820,6 +820,22 @@ TagMatcher::replace_stars(char *dst, const char *src)
     return i;
 }
 
+/* Copy 'src' to 'dst', escaping whatever would be special in a regular
+ * expression, except the '|' between the alternatives and the enclosing '()'.
+ */
+void
+TagMatcher::escape_literals(char *dst, const char *src)
+{
+    for ( ; *src != 0; src++)
+    {
+        if (std::strchr(".*+?^$[]{}\\", *src) != nullptr)
+            *dst++ = '\\';
+        *dst++ = *src;
+    }
+
+    *dst = 0;       // null-terminate
+}
+
 /* @param src example: '(web01|web02)'
  * @param dst example: '(?!web01$|web02$)(.*)'
  */
@@ -840,7 +856,7 @@ TagMatcher::replace_literal_or(char *dst, const char *src)
 
     for (char *token: tokens)
     {
-        strcat(dst, token);
+        escape_literals(dst+std::strlen(dst), token);
         strcat(dst, "$|");
     }
 
-- 
2.43.0


From 2ee8a66e7ce700537be29c53797d5d23327b56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 13/66] fix: GET queries with unquoted tag filters: values with
 ']' or starting with true/false

Such values were cut or misread, and a missing '}' made the parser read past the
end of the request.
---
 src/utils/json.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index c740cff..1faed5d 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -219,12 +219,12 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
         json = parse_array(json, value->arr);
         value->set_type(JsonValueType::JVT_ARRAY);
     }
-    else if (std::strncmp(json, "true", 4) == 0)
+    else if ((std::strncmp(json, "true", 4) == 0) && (std::strchr(",}", json[4]) != nullptr))
     {
         value->set_value(true);
         json += 4;
     }
-    else if (std::strncmp(json, "false", 5) == 0)
+    else if ((std::strncmp(json, "false", 5) == 0) && (std::strchr(",}", json[5]) != nullptr))
     {
         value->set_value(false);
         json += 5;
@@ -232,8 +232,8 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
     else
     {
         value->set_value(json);
-        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}')) json++;
-        if ((*json != ',') && (*json != ']') && (*json != '}'))
+        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != '}') && (*json != 0)) json++;
+        if ((*json != ',') && (*json != '}') && (*json != 0))
         {
             *json = 0;
             json++;
-- 
2.43.0


From 2a1d255be5e0db3817f7eeb89837abd512f3767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 14/66] fix: a series without tags had an empty tag after a
 restart

---
 src/utils/kv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/kv.cpp b/src/utils/kv.cpp
index fb5fa4a..dbc5e77 100644
--- a/src/utils/kv.cpp
+++ b/src/utils/kv.cpp
@@ -367,6 +367,8 @@ KeyValuePair::parse_multiple(std::string& buff)
 {
     std::vector<std::string> tokens;
 
+    if (buff == ";") return nullptr;    // no tags
+
     // to be backwards compatible
     if (buff.find_first_of(';') != std::string::npos)   // old style?
         tokenize(buff, tokens, ';');
-- 
2.43.0


From 6ca19465cf020b280900bd7f4ed9a643f6f4a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:20 +0000
Subject: [PATCH 15/66] fix: explicit_tags selected series with an additional
 _field tag, depending on the metric's other series

---
 src/core/tsdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 88a2f87..daec29b 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -699,7 +699,7 @@ Mapping::query_for_ts(Tag *tags, std::unordered_set<TimeSeries*>& tsv, const cha
 
                 if (tag != nullptr)
                     ts = mm->get_ts(0, tag->m_value);
-                else
+                else if (! explicit_tags)   // they have one more tag: _field
                 {
                     std::vector<TimeSeries*> all;
                     mm->get_all_ts(all);
-- 
2.43.0


From 73d4a59ae92c5717da07947044eb4adfb8760f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:43 +0000
Subject: [PATCH 16/66] fix: a filter on _field selected series that have no
 _field

---
 src/core/tsdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index daec29b..b9168ba 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -706,7 +706,7 @@ Mapping::query_for_ts(Tag *tags, std::unordered_set<TimeSeries*>& tsv, const cha
                     for (auto t : all) tsv.insert(t);
                 }
             }
-            else
+            else if (TagOwner::find_by_key(tags, TT_FIELD_TAG_NAME) == nullptr)
                 ts = static_cast<TimeSeries*>(bt);
 
             if (ts != nullptr)
-- 
2.43.0


From 6e13121db17e11aee894c45101e1b191acca640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:26 +0000
Subject: [PATCH 17/66] fix: suggestions exceeded the requested maximum, and a
 full buffer was sent cut off

The limit was checked after adding a name and only ended the scan of one metric.
An answer that does not fit the response buffer now gets status 413.
---
 src/core/tsdb.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index b9168ba..43735a0 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2601,7 +2601,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
 {
-    size_t buff_size = MemoryManager::get_network_buffer_size() - 6;
+    size_t buff_size = MemoryManager::get_network_buffer_size() - MAX_HEADER_SIZE;
 
     JsonMap params;
     request.parse_params(params);
@@ -2646,8 +2646,8 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
 
             if (is_star || starts_with(metric, prefix))
             {
+                if ((int)suggestions.size() >= max) break;
                 suggestions.insert(std::string(metric));
-                if (suggestions.size() >= max) break;
             }
         }
     }
@@ -2671,8 +2671,8 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
             {
                 if (starts_with(key.c_str(), prefix))
                 {
+                    if ((int)suggestions.size() >= max) break;
                     suggestions.insert(key);
-                    if (suggestions.size() >= max) break;
                 }
             }
         }
@@ -2697,8 +2697,8 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
             {
                 if (starts_with(value.c_str(), prefix))
                 {
+                    if ((int)suggestions.size() >= max) break;
                     suggestions.insert(value);
-                    if (suggestions.size() >= max) break;
                 }
             }
         }
@@ -2712,7 +2712,10 @@ Tsdb::http_get_api_suggest_handler(HttpRequest& request, HttpResponse& response)
 
     char* buff = MemoryManager::alloc_network_buffer();
     int n = JsonParser::to_json(suggestions, buff, buff_size);
-    response.init(200, HttpContentType::JSON, n, buff);
+    if (n < buff_size)
+        response.init(200, HttpContentType::JSON, n, buff);
+    else
+        response.init(413, HttpContentType::PLAIN, 0, nullptr);
     MemoryManager::free_network_buffer(buff);
 
     return true;
-- 
2.43.0


From 2226e212b333c15dbf1923a7c2ae14b3e7d0d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:26 +0000
Subject: [PATCH 18/66] fix: series lookup wrote past the response buffer and
 returned malformed JSON for an empty page

---
 src/core/query.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index f1293f3..32dc551 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1574,6 +1574,7 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
         {
             if (i++ < index) continue;
             if (l++ >= limit) break;
+            if ((n + 3 * MAX_TOTAL_TAG_LENGTH) >= size) { n = size; break; }
 
             n += snprintf(resp_buff+n, size-n, "{\"tsuid\":\"%09X\",\"metric\":\"%s\",\"tags\":{",
                 ts->get_id(), metric);
@@ -1591,8 +1592,14 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
             n += snprintf(resp_buff+n, size-n, "}},");
         }
 
+        if (n >= size)
+        {
+            response.init(413, HttpContentType::PLAIN, 0, nullptr);
+            return false;
+        }
+
         // remove last comma
-        if (! tsv.empty()) n--;
+        if (resp_buff[n-1] == ',') n--;
         n += snprintf(resp_buff+n, size-n, "]}");
         ASSERT((n+1) < size);
 
-- 
2.43.0


From acc07b750384e91de03c5208a7e585af3b08b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:49 +0000
Subject: [PATCH 19/66] fix: relative times before 1970 selected nothing

---
 src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 2aaa8a1..698b72a 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -423,7 +423,7 @@ parse_ts(const JsonValue *value, Timestamp now, const char *tz)
         TimeUnit unit = to_time_unit(str, len);
         if (unit == TimeUnit::UNKNOWN) throw std::exception();
         ts = convert_time(ts, unit, g_tstamp_resolution_ms ? TimeUnit::MS : TimeUnit::SEC);
-        ts = now - ts;  // relative to 'now'
+        ts = (ts < now) ? (now - ts) : 0;   // relative to 'now'
     }
     // absolute formatted time?
     else if ((len >= 10) && (str[4] == '/') && (str[7] == '/'))
-- 
2.43.0


From bccbc1bd29239346f25d8eb9fb9767966635bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:13 +0000
Subject: [PATCH 20/66] fix: URL encoded start, end and tz parameters of a GET
 query were misread

---
 src/core/query.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 32dc551..9c9d794 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -187,6 +187,16 @@ Query::Query(JsonMap& map, StringBuffer& strbuf) :
     m_errno(0),
     TagOwner(false)
 {
+    // URL decode, in place, whatever else may contain special characters
+    for (const char *param: { "tz", "start", "end" })
+    {
+        auto it = map.find(param);
+        if ((it == map.end()) || (it->second->get_type() != JsonValueType::JVT_STRING)) continue;
+        char *str = const_cast<char*>(it->second->to_string());
+        if (! url_unescape(str, str, std::strlen(str)+1))
+            throw std::runtime_error("Failed to URL decode query.");
+    }
+
     auto search = map.find("tz");
 
     // timezone
-- 
2.43.0


From 4e0a700130127bc2d7f9ac142ee35705295fd4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:32 +0000
Subject: [PATCH 21/66] fix: dates in a query were shifted the wrong way for
 time zones other than UTC

The offset was subtracted instead of added, ignored daylight saving time and was
a thousand times too large with millisecond resolution. The environment of the
process is left as it was.
---
 include/utils.h     |  2 +-
 src/utils/utils.cpp | 30 +++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index ba651be..26269fc 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -85,7 +85,7 @@ extern Timestamp to_sec(Timestamp tstamp);
 extern Timestamp to_us(Timestamp tstamp);
 extern Timestamp parse_ts(const JsonValue *value, Timestamp now, const char *tz);
 extern bool is_timestamp(std::string& str);
-extern long get_tz_diff(const char *tz);
+extern long get_tz_diff(const char *tz, const struct tm& tm);
 extern TimeUnit to_time_unit(const char *str, size_t len);
 extern Timestamp convert_time(Timestamp time, TimeUnit from_unit, TimeUnit to_unit);
 extern uint64_t get_bytes_factor(const std::string& str);
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 698b72a..67e8cd1 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -460,14 +460,10 @@ parse_ts(const JsonValue *value, Timestamp now, const char *tz)
         long tzdiff = 0;    // in seconds
 
         if (strcmp(tz, CFG_TSDB_TIMEZONE_DEF) != 0)
-            tzdiff = get_tz_diff(tz);
+            tzdiff = get_tz_diff(tz, tm);
 
-        ts = timegm(&tm);
-
-        if (g_tstamp_resolution_ms)
-            ts -= tzdiff * 1000;
-        else
-            ts -= tzdiff;
+        // in seconds, whatever the resolution is; see validate_resolution()
+        ts = timegm(&tm) + tzdiff;
     }
 
     return ts;
@@ -479,15 +475,31 @@ is_timestamp(std::string& str)
     return !str.empty() && (str.find_first_not_of("0123456789") == std::string::npos);
 }
 
+// return how many seconds local time 'tm' is behind UTC
 long
-get_tz_diff(const char *tz)
+get_tz_diff(const char *tz, const struct tm& tm)
 {
     static std::mutex s_tz_lock;
     std::lock_guard<std::mutex> guard(s_tz_lock);
 
+    const char *old = ::getenv("TZ");
+    std::string saved((old == nullptr) ? "" : old);
+
     setenv("TZ", tz, 1);
     tzset();
-    return timezone;
+
+    struct tm local = tm;
+    struct tm utc = tm;
+    local.tm_isdst = -1;    // let mktime() decide
+    long diff = (long)(mktime(&local) - timegm(&utc));
+
+    if (old == nullptr)
+        unsetenv("TZ");
+    else
+        setenv("TZ", saved.c_str(), 1);
+    tzset();
+
+    return diff;
 }
 
 // 'str' should look something like: "2h"
-- 
2.43.0


From 9032d9965fbd83c95c53833590621ea522468904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:05 +0000
Subject: [PATCH 22/66] fix: the JSON put parser ran past the end of the
 request and misread valid and malformed points

It searched for the next brace, colon or quote without looking at what it skipped:
spaces in an empty tag list, numbers as tag values, missing fields and cut off
requests read beyond the request or stored points that were never sent. A malformed
element of an array is now counted as failed.
---
 include/dp.h      |   2 +-
 src/core/dp.cpp   | 124 ++++++++++++++++++++++++----------------------
 src/core/tsdb.cpp |  15 ++++--
 3 files changed, 77 insertions(+), 64 deletions(-)

diff --git a/include/dp.h b/include/dp.h
index 5ebc65c..722551e 100644
--- a/include/dp.h
+++ b/include/dp.h
@@ -82,7 +82,7 @@ public:
 
 private:
     char* next_word(char* json, char* &word);
-    char* next_value(char* json, char* &value, bool& quote);
+    char* next_value(char* json, char* &value, bool& last);
     char* next_long(char* json, Timestamp &number);
     char* next_double(char* json, double &number);
     char* next_tags(char* json);
diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index d9ea571..e99b06d 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -110,18 +110,25 @@ DataPoint::from_http(char *http)
 }
 
 /* @param json format: {"metric":<metric>,"timestamp":<ts>,"value":<val>,"tags":{"key1":"val1","key2":"val2",...}}
+ * @return what follows the object; nullptr if it is not a complete data point.
  */
 char *
 DataPoint::from_json(char* json)
 {
     if (json == nullptr) return nullptr;
-    while (*json != '{') json++;
+    while (std::isspace(*json)) json++;
+    if (*json != '{') return nullptr;
 
-    for (json++; *json != '}' && *json != 0; )
+    bool has_tstamp = false;
+    bool has_value = false;
+
+    for (json++; *json != '}'; )
     {
         char *key;
         json = next_word(json, key);
         if (json == nullptr) return nullptr;
+        if (*json != ':') return nullptr;
+        for (json++; std::isspace(*json); json++) /* do nothing */;
 
         if (strcmp(key, "metric") == 0)
         {
@@ -133,27 +140,35 @@ DataPoint::from_json(char* json)
         }
         else if (strcmp(key, "tags") == 0)
         {
-            while ((*json != '{') && (*json != 0)) json++;
             json = next_tags(json);
-            if (json == nullptr) return nullptr;
         }
         else if (strcmp(key, "timestamp") == 0)
         {
             json = next_long(json, m_timestamp);
             //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
+            has_tstamp = true;
         }
         else if (strcmp(key, "value") == 0)
         {
             json = next_double(json, m_value);
+            has_value = true;
         }
         else
         {
             return nullptr;
         }
 
-        while (isspace(*json)) json++;
+        if (json == nullptr) return nullptr;
+        while (std::isspace(*json)) json++;
+        if (*json == ',')
+            for (json++; std::isspace(*json); json++) /* do nothing */;
+        else if (*json != '}')
+            return nullptr;
     }
 
+    if ((m_metric == nullptr) || (*m_metric == 0) || !has_tstamp || !has_value)
+        return nullptr;
+
     return json + 1;
 }
 
@@ -200,11 +215,13 @@ DataPoint::from_plain(char* &text)
     return true;
 }
 
+// parse a quoted string
 char *
 DataPoint::next_word(char* json, char* &word)
 {
-    char *curr = strchr(json, '"');
-    if (curr == nullptr) return nullptr;
+    char *curr = json;
+    while (std::isspace(*curr)) curr++;
+    if (*curr != '"') return nullptr;
     curr++;
     word = curr;
     curr = strchr(curr, '"');
@@ -214,53 +231,47 @@ DataPoint::next_word(char* json, char* &word)
     return curr;
 }
 
-// parse tag value, which could be of bool, double, or (quoted) string type
+// parse tag value, which could be of bool, double, or (quoted) string type;
+// 'last' will be set if this is the last tag
 char *
-DataPoint::next_value(char* json, char* &value, bool& quote)
+DataPoint::next_value(char* json, char* &value, bool& last)
 {
-    // skip leading spaces
-    char *curr;
-    for (curr = json; std::isspace(*curr); curr++) /* do nothing */;
-    if (*curr == ':') curr++;
-    for ( ; std::isspace(*curr); curr++) /* do nothing */;
+    char *curr, *end;
 
-    if (*curr == '"')
+    if (*json == '"')
+        curr = end = next_word(json, value);
+    else    // number or boolean
     {
-        curr++;
-        value = curr;
-        curr = strchr(curr, '"');
-        if (curr == nullptr) return nullptr;
-        *curr = 0;
-        for (curr++; std::isspace(*curr); curr++) /* do nothing */;
-        return curr;
+        value = json;
+        std::strtod(json, &end);
+        if (end == json)
+            while (std::isalpha(*end)) end++;
+        for (curr = end; std::isspace(*curr); curr++) /* do nothing */;
     }
-    else if (std::isdigit(*curr))
-    {
-        value = curr;
-        double dbl;
-        curr = next_double(curr, dbl);
-        if (*curr == '}') quote = true;
-        *curr = 0;
-        return curr+1;
-    }
-    else    // boolean
+
+    if ((curr == nullptr) || ((*curr != ',') && (*curr != '}')))
+        return nullptr;
+    last = (*curr == '}');
+
+    if (*json != '"')
     {
-        value = curr;
-        for (curr; std::isalpha(*curr); curr++) /* do nothing */;
-        if (*curr == '}') quote = true;
-        *curr = 0;
-        for (curr++; std::isspace(*curr); curr++) /* do nothing */;
-        return (std::strcmp(value, "true") == 0 || std::strcmp(value, "false") == 0) ? curr : nullptr;
+        *end = 0;   // may overwrite the ',' or '}'
+        if (std::isalpha(*json) && std::strcmp(value, "true") && std::strcmp(value, "false"))
+            return nullptr;
     }
+
+    return curr + 1;
 }
 
 char *
 DataPoint::next_long(char* json, Timestamp &number)
 {
-    while (! std::isdigit(*json) && (*json != 0) && (*json != '\n')) json++;
+    if (*json == '"') json++;   // in case the number is quoted
+    if (! std::isdigit(*json)) return nullptr;
     number = (Timestamp)std::atoll(json);
     //number = (g_tstamp_resolution_ms ? to_ms(number) : to_sec(number));
     while (std::isdigit(*json)) json++;
+    if (*json == '.') for (json++; std::isdigit(*json); json++) /* ignore fraction */;
     if (*json == '"') json++;   // in case the number is quoted
     return json;
 }
@@ -268,39 +279,34 @@ DataPoint::next_long(char* json, Timestamp &number)
 char *
 DataPoint::next_double(char* json, double &number)
 {
-    //while (! std::isdigit(*json) && (*json != '.') && (*json != '+') && (*json != '-') && (*json != '\n')) json++;
-    while ((*json != ':') && (*json != '\n')) json++;
-    if (*json == ':') json++;
-    while ((*json == '"') || std::isspace(*json)) json++;
-    number = std::atof(json);
-    //while (std::isdigit(*json) || (*json == '.') || (*json == '+') || (*json == '-') || (*json == 'e') || (*json == 'n') || (*json == 'a') || (*json == 'N') || (*json == 'A')) json++;
-    while ((*json != ',') && (*json != '}')) json++;
-    //if (*json == '"') json++;   // in case the number is quoted
-    return json;
+    char *end;
+    if (*json == '"') json++;   // in case the number is quoted
+    number = std::strtod(json, &end);
+    if (end == json) return nullptr;
+    if (*end == '"') end++;
+    return end;
 }
 
 char *
 DataPoint::next_tags(char* json)
 {
-    bool quote = false;
+    bool last = false;
+
+    if (*json != '{') return nullptr;
+    for (json++; std::isspace(*json); json++) /* do nothing */;
+    if (*json == '}') return json + 1;
 
-    for (json++; (*json != '}') && (*json != 0); )
+    while (! last)
     {
         char *name, *value;
         json = next_word(json, name);
+        if ((json == nullptr) || (*json != ':')) return nullptr;
+        for (json++; std::isspace(*json); json++) /* do nothing */;
+        json = next_value(json, value, last);
         if (json == nullptr) return nullptr;
-        ASSERT(name != nullptr);
-        ASSERT(*name != ',');
-        json = next_value(json, value, quote);
-        if (json == nullptr) return nullptr;
-        ASSERT(value != nullptr);
-        ASSERT(*value != ':');
         add_tag(name, value);
-        while (std::isspace(*json)) json++;
     }
 
-    if ((*json == '}') && !quote) json++;
-
     return json;
 }
 
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 43735a0..6d634c9 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2369,17 +2369,24 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
     else
     {
         // multiple data point
-        while ((*curr != ']') && (*curr != 0))
+        for (curr++; ; )
         {
+            while (std::isspace(*curr) || (*curr == ',')) curr++;
+            if ((*curr == ']') || (*curr == 0)) break;
+
             DataPoint dp;
-            curr = dp.from_json(curr+1);
-            if (curr == nullptr) break;
+            curr = dp.from_json(curr);
+
+            if (curr == nullptr)
+            {
+                failed++;   // malformed; can't tell where the next one starts
+                break;
+            }
 
             if (add_data_point(dp, false))
                 success++;
             else
                 failed++;
-            while (isspace(*curr)) curr++;
         }
     }
 
-- 
2.43.0


From dc19280af23546716998bb7d2f2902fd171bc927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:30 +0000
Subject: [PATCH 23/66] fix: a query returning a tag value longer than a small
 buffer failed

---
 include/strbuf.h     |  1 +
 src/utils/strbuf.cpp | 13 ++++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/strbuf.h b/include/strbuf.h
index f430ba2..6cab252 100644
--- a/include/strbuf.h
+++ b/include/strbuf.h
@@ -39,6 +39,7 @@ public:
 private:
     int m_cursor;
     std::vector<char*> m_buffs;
+    std::vector<char*> m_large;     // strings that do not fit into a buffer
 };
 
 
diff --git a/src/utils/strbuf.cpp b/src/utils/strbuf.cpp
index 80e0ca7..0a4e80a 100644
--- a/src/utils/strbuf.cpp
+++ b/src/utils/strbuf.cpp
@@ -16,6 +16,8 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cstring>
+#include <cstdlib>
 #include <cstring>
 #include "logger.h"
 #include "memmgr.h"
@@ -37,6 +39,9 @@ StringBuffer::~StringBuffer()
 {
     for (char *buff: m_buffs)
         MemoryManager::free_network_buffer_small(buff);
+
+    for (char *buff: m_large)
+        std::free(buff);
 }
 
 char *
@@ -45,14 +50,12 @@ StringBuffer::strdup(const char *str)
     size_t buff_size = MemoryManager::get_network_buffer_small_size() - 1;
 
     ASSERT(str != nullptr);
-    ASSERT(std::strlen(str) < buff_size);
-
     size_t len = std::strlen(str);
 
-    if (UNLIKELY(len > buff_size))
+    if (UNLIKELY(len >= buff_size))     // too long to share a buffer
     {
-        Logger::error("Can't fit str into StringBuffer: '%s'", str);
-        throw std::out_of_range("string too long to fit into StringBuffer");
+        m_large.push_back(::strdup(str));
+        return m_large.back();
     }
 
     if ((m_cursor + len) >= buff_size)
-- 
2.43.0


From f0c20792f91300f82e0ba907afe050e6601b2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:30 +0000
Subject: [PATCH 24/66] fix: a semicolon inside a tag name or value split the
 tag after a restart

---
 src/utils/kv.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/utils/kv.cpp b/src/utils/kv.cpp
index dbc5e77..1995dad 100644
--- a/src/utils/kv.cpp
+++ b/src/utils/kv.cpp
@@ -371,8 +371,21 @@ KeyValuePair::parse_multiple(std::string& buff)
 
     // to be backwards compatible
     if (buff.find_first_of(';') != std::string::npos)   // old style?
+    {
         tokenize(buff, tokens, ';');
-    else
+
+        // not if it's just part of a name or value
+        for (const std::string& token: tokens)
+        {
+            if (! token.empty() && (token.find_first_of('=') == std::string::npos))
+            {
+                tokens.clear();
+                break;
+            }
+        }
+    }
+
+    if (tokens.empty())
         tokenize(buff, tokens, ',');
 
     Tag *kvs = nullptr;
-- 
2.43.0


From 36e6141a6f23772e8dc26b430ea8e119d802b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:53 +0000
Subject: [PATCH 25/66] fix: series whose tags differ only after the first 1000
 characters were merged

Tag lists that do not fit are now refused, and long tags are no longer cut off in
query results.
---
 src/core/query.cpp   | 18 ++++++++++--------
 src/core/tsdb.cpp    |  9 ++++++---
 src/utils/strbuf.cpp |  1 -
 src/utils/tag.cpp    |  3 ++-
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 9c9d794..e676468 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -440,8 +440,8 @@ Query::get_query_tasks(QuerySuperTask& super_task)
 {
     std::unordered_set<TimeSeries*> tsv;
     char buff[MAX_TOTAL_TAG_LENGTH];
-    get_ordered_tags(buff, sizeof(buff));
-    MetricId mid = Tsdb::query_for_ts(m_metric, m_tags, tsv, buff, m_explicit_tags);
+    const char *key = get_ordered_tags(buff, sizeof(buff));
+    MetricId mid = Tsdb::query_for_ts(m_metric, m_tags, tsv, key, m_explicit_tags);
 
     for (TimeSeries *ts: tsv)
         super_task.add_task(ts);
@@ -1785,12 +1785,14 @@ QueryResults::to_json_aggregate_tags(char *buff, int size) const
 int
 QueryResults::to_json(char *buff, int size) const
 {
-    char buf1[1024];    // TODO: no magic numbers
-    char buf2[1024];    // TODO: no magic numbers
-
-    int n = snprintf(buff, size, "{\"metric\":\"%s\",%s,%s,\"dps\":{",
-        m_metric, to_json_tags(buf1, sizeof(buf1)),
-        to_json_aggregate_tags(buf2, sizeof(buf2)));
+    int n = snprintf(buff, size, "{\"metric\":\"%s\",", m_metric);
+    if ((n+64) >= size) return size;        // response too large
+    n += std::strlen(to_json_tags(buff+n, size-n));
+    if ((n+64) >= size) return size;        // response too large
+    buff[n++] = ',';
+    n += std::strlen(to_json_aggregate_tags(buff+n, size-n));
+    if ((n+64) >= size) return size;        // response too large
+    n += snprintf(buff+n, size-n, ",\"dps\":{");
 
     for (const DataPointPair& dp: m_dps)
     {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6d634c9..38709ee 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -447,7 +447,8 @@ Mapping::get_ts(DataPoint& dp)
         }
 
         char buff[MAX_TOTAL_TAG_LENGTH];
-        dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH);
+        if (UNLIKELY(dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH) == nullptr))
+            return nullptr;     // too long
 
         PThread_WriteLock guard(&m_lock);
 
@@ -492,7 +493,8 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     dps.emplace_back(dp.get_timestamp(), dp.get_value());
     dps.back().set_raw_tags((char*)field->m_value);
     char buff[MAX_TOTAL_TAG_LENGTH];
-    dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH);
+    if (UNLIKELY(dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH) == nullptr))
+        return nullptr;     // too long
     Measurement *mm = get_measurement(buff, dp, dp.get_metric(), dps);
     ASSERT(mm != nullptr);
 
@@ -545,7 +547,8 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
                 if (! owner.parse(raw_tags))
                     return nullptr;
             }
-            owner.get_ordered_tags(ordered, MAX_TOTAL_TAG_LENGTH);
+            if (UNLIKELY(owner.get_ordered_tags(ordered, MAX_TOTAL_TAG_LENGTH) == nullptr))
+                return nullptr;     // too long
         }
 
         PThread_WriteLock guard(&m_lock);
diff --git a/src/utils/strbuf.cpp b/src/utils/strbuf.cpp
index 0a4e80a..5f8cc3d 100644
--- a/src/utils/strbuf.cpp
+++ b/src/utils/strbuf.cpp
@@ -16,7 +16,6 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-#include <cstring>
 #include <cstdlib>
 #include <cstring>
 #include "logger.h"
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 2d63616..d134417 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -156,6 +156,7 @@ TagOwner::less_than(const TagOwner& other) const
     return false;
 }
 
+// return nullptr if the tags do not fit into 'buff'
 char *
 TagOwner::get_ordered_tags(char *buff, size_t size) const
 {
@@ -171,7 +172,7 @@ TagOwner::get_ordered_tags(char *buff, size_t size) const
             continue;
         ASSERT(strcmp(tag->m_key, METRIC_TAG_NAME) != 0);
         n = std::snprintf(curr, size, "%s=%s,", tag->m_key, tag->m_value);
-        if (size <= n) break;
+        if (size <= n) return nullptr;
         size -= n;
         curr += n;
     }
-- 
2.43.0


From c9057c615d329e04130a657831da5056b536614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:39 +0000
Subject: [PATCH 26/66] fix: escape special characters of names in query
 results

---
 include/kv.h       |  1 +
 src/core/query.cpp |  7 +++++--
 src/utils/kv.cpp   | 38 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/include/kv.h b/include/kv.h
index 5b91b72..d4282ae 100644
--- a/include/kv.h
+++ b/include/kv.h
@@ -54,6 +54,7 @@ public:
     static KeyValuePair* clone(KeyValuePair *list, StringBuffer& strbuf);
     static void free_list(KeyValuePair *list, bool deep = false);
 
+    static int to_json(const char *str, char *buff, int size);
     static char* to_json(KeyValuePair *list, char *buff, int size);
 
     // WARNING: The input 'buff' will be modified!
diff --git a/src/core/query.cpp b/src/core/query.cpp
index e676468..8a61194 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1773,7 +1773,7 @@ QueryResults::to_json_aggregate_tags(char *buff, int size) const
         {
             n += snprintf(buff+n, size-n, ",");
         }
-        n += snprintf(buff+n, size-n, "\"%s\"", name);
+        n += KeyValuePair::to_json(name, buff+n, size-n);
     }
 
     if (size > n)
@@ -1785,8 +1785,11 @@ QueryResults::to_json_aggregate_tags(char *buff, int size) const
 int
 QueryResults::to_json(char *buff, int size) const
 {
-    int n = snprintf(buff, size, "{\"metric\":\"%s\",", m_metric);
+    int n = snprintf(buff, size, "{\"metric\":");
     if ((n+64) >= size) return size;        // response too large
+    n += KeyValuePair::to_json(m_metric, buff+n, size-n);
+    if ((n+64) >= size) return size;        // response too large
+    buff[n++] = ',';
     n += std::strlen(to_json_tags(buff+n, size-n));
     if ((n+64) >= size) return size;        // response too large
     buff[n++] = ',';
diff --git a/src/utils/kv.cpp b/src/utils/kv.cpp
index 1995dad..35fa139 100644
--- a/src/utils/kv.cpp
+++ b/src/utils/kv.cpp
@@ -316,6 +316,39 @@ KeyValuePair::free_list(KeyValuePair *list, bool deep)
     }
 }
 
+// Write 'str' as a Json string; special characters will be escaped.
+// Return its length, which is at least 'size' if there is not enough space.
+int
+KeyValuePair::to_json(const char *str, char *buff, int size)
+{
+    int n = 0;
+
+    if (n < size) buff[n++] = '"';
+
+    for ( ; (*str != 0) && ((n+8) < size); str++)
+    {
+        if ((*str == '"') || (*str == '\\'))
+        {
+            buff[n++] = '\\';
+            buff[n++] = *str;
+        }
+        else if ((unsigned char)*str < ' ')
+            n += snprintf(buff+n, size-n, "\\u%04x", *str);
+        else
+            buff[n++] = *str;
+    }
+
+    if ((*str != 0) || ((n+2) > size))
+    {
+        if (size > 0) buff[size-1] = 0;
+        return size;
+    }
+
+    buff[n++] = '"';
+    buff[n] = 0;
+    return n;
+}
+
 // Return the 'list' in Json format
 char *
 KeyValuePair::to_json(KeyValuePair *list, char *buff, int size)
@@ -334,7 +367,10 @@ KeyValuePair::to_json(KeyValuePair *list, char *buff, int size)
             continue;
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
-        n += snprintf(buff+n, size-n, "\"%s\":\"%s\"", kv->m_key, kv->m_value);
+        n += to_json(kv->m_key, buff+n, size-n);
+        if ((n+3) > size) break;
+        buff[n++] = ':';
+        n += to_json(kv->m_value, buff+n, size-n);
     }
 
     if (size > n)
-- 
2.43.0


From 0607bf28c3856733d213a6f5e2f443e05d612231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:39 +0000
Subject: [PATCH 27/66] fix: malformed plain lines swallowed the next line or
 were stored as zero

---
 src/core/dp.cpp | 63 +++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index e99b06d..b58a54b 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -181,37 +181,54 @@ DataPoint::from_json(char* json)
 bool
 DataPoint::from_plain(char* &text)
 {
-    m_metric = text;
-    if (UNLIKELY(*text == '"'))
+    char *curr = text;
+    char *line_end = text;
+
+    while ((*line_end != '\n') && (*line_end != 0)) line_end++;
+    text = (*line_end == 0) ? line_end : (line_end + 1);    // next line
+    if ((curr < line_end) && (*(line_end-1) == '\r')) line_end--;
+    *line_end = 0;
+
+    m_metric = curr;
+    if (UNLIKELY(*curr == '"'))
     {
         m_metric++;
-        do
-        {
-            if (*++text == ' ') *text = '_';
-        } while ((*text != '"') && (*text != '\n'));
-        *text++ = 0;
+        for (curr++; (*curr != '"') && (*curr != 0); curr++)
+            if (*curr == ' ') *curr = '_';
+        if (*curr == 0) return false;
+        *curr++ = 0;
     }
     else
-        text = (char*)rawmemchr((void*)text, ' ');
-    *text++ = 0;
-    m_timestamp = (Timestamp)std::atoll(text);
+        while ((*curr != ' ') && (*curr != 0)) curr++;
+    if ((*m_metric == 0) || (*curr != ' ')) return false;
+    *curr++ = 0;
+
+    // timestamp
+    while (*curr == ' ') curr++;
+    curr = next_long(curr, m_timestamp);
+    if ((curr == nullptr) || (*curr != ' ')) return false;
     //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
-    text = (char*)rawmemchr((void*)text, ' ');
-    text++;
-    if (*text == '"') text++;
-    m_value = std::atof(text);
-    while ((*text != ' ') && (*text != '\n')) text++;
-    if (*text == '\n') { text++; return true; }
-    m_raw_tags = ++text;
+
+    // value
+    while (*curr == ' ') curr++;
+    curr = next_double(curr, m_value);
+    if ((curr == nullptr) || ((*curr != ' ') && (*curr != 0))) return false;
+
     // Converting <tag1>=<val1> <tag2=<val2> ... into
     // <tag1>=<val1>,<tag2>=<val2>,..., to match the InfluxDB line protocol
-    while ((*text != '\n') && (*text != 0))
+    while (*curr == ' ') curr++;
+    if (*curr == 0) return true;
+    m_raw_tags = curr;
+    for (char *to = curr; ; )
     {
-        if (*text == ' ') *text = ',';
-        text++;
+        if (*curr == ' ')
+        {
+            while (*curr == ' ') curr++;
+            if (*curr != 0) *to++ = ',';
+        }
+        *to = *curr++;
+        if (*to++ == 0) break;
     }
-    *text++ = 0;
-    if (UNLIKELY(*(text-2) == '\r')) *(text-2) = 0;
     return true;
 }
 
@@ -345,7 +362,7 @@ DataPoint::parse_raw_tags()
     {
         while (*key == ' ') key++;
         //eq = strchr(key, '=');
-        for (eq = key; *eq != '=' && *eq != ' ' && *eq != 0; eq++)
+        for (eq = key; *eq != '=' && *eq != ' ' && *eq != ',' && *eq != 0; eq++)
             /* do nothing */;
         if (*eq != '=') return false;
         *eq = 0;
-- 
2.43.0


From 92897d98a10b7ef3f3699a8bb6554a11c10f72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:49 +0000
Subject: [PATCH 28/66] fix: a blank or malformed line ended a plain request
 early and the rest was dropped

---
 src/core/tsdb.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 38709ee..4486820 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2441,11 +2441,13 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
     curr[request.length+1] = ' ';
     curr[request.length+2] = 0;
 
-    while ((curr != nullptr) && (*curr != 0))
+    char *end = request.content + request.length;
+
+    while (curr < end)
     {
         DataPoint dp;
 
-        if (std::isspace(*curr)) break;
+        if (std::isspace(*curr)) { curr++; continue; }
         if (UNLIKELY(std::strncmp(curr, "put ", 4) != 0))
         {
             if (std::strncmp(curr, "version\n", 8) == 0)
@@ -2457,8 +2459,7 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
             {
                 curr += 4;
                 char *cp = curr;
-                curr = strchr(curr, '\n');
-                if (curr == nullptr) break;
+                curr = (char*)rawmemchr(curr, '\n');
                 *curr = 0;
                 curr++;
 
@@ -2473,19 +2474,17 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
             }
             else
             {
-                curr = strchr(curr, '\n');
-                if (curr == nullptr) break;
-                curr++;
+                if (*curr == 0) success = false;
+                curr = (char*)rawmemchr(curr, '\n') + 1;
             }
-            if ((curr - request.content) > request.length) break;
             continue;
         }
 
         curr += 4;
+        char *next = (char*)rawmemchr(curr, '\n') + 1;
         bool ok = dp.from_plain(curr);
-        if (! ok) { success = false; break; }
-
-        success = add_data_point(dp, forward) && success;
+        if (curr != next) { curr = next; ok = false; }  // null character in the line
+        success = ok && add_data_point(dp, forward) && success;
     }
 
     // TODO: Now what???
-- 
2.43.0


From fb459a151eac78050d032996459005d0d14f50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:49 +0000
Subject: [PATCH 29/66] fix: malformed line-protocol lines crossed into the
 next line, were stored as zero or crashed

---
 src/core/tsdb.cpp | 135 ++++++++++++++++++----------------------------
 src/utils/tag.cpp |   2 +-
 2 files changed, 53 insertions(+), 84 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 4486820..11cba46 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -534,7 +534,7 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
 
         std::strncpy(original, raw_tags, MAX_TOTAL_TAG_LENGTH);
 
-        if (raw_tags[1] == 0)   // no tags
+        if ((raw_tags[0] == ';') && (raw_tags[1] == 0)) // no tags
         {
             ordered[0] = raw_tags[0];
             ordered[1] = 0;
@@ -2517,92 +2517,50 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
     curr[request.length+3] = '\n';
     curr[request.length+4] = '0';
 
-    // parse 1st line with more checks
-    while (*curr == '#')
-    {
-        while ((*(++curr) != '\n') && (*curr != 0))
-            curr++;
-        if (*curr == 0)
-            break;
-        curr++;
-    }
-
-    if (*curr == 0)
-        success = false;
+    char *end = curr + request.length;
+    bool empty = true;
 
-    const char *measurement = nullptr;
-    char *tags = nullptr;
-    Timestamp ts = 0;
-
-    // handle special case: "_cp ..."
-    if (UNLIKELY((curr[0] == '_') && (std::strncmp(curr, "_cp ", 4) == 0)))
-    {
-        curr += 4;
-        char *cp = curr;
-        curr = strchr(curr, '\n');
-        if (curr != nullptr)
-        {
-            *curr = 0;
-            curr++;
-            CheckPointManager::add(cp);
-        }
-        else
-            success = false;
-    }
-
-    if (*curr != 0 && *curr != '\n')
-        success = success && parse_line_safe(curr, measurement, tags, ts, dps);
-
-    if (ts == 0) ts = now;
-    if (success && measurement != nullptr)
-        success = add_data_points(measurement, tags, ts, dps);
-    dps.clear();
-
-    // parse the rest of the lines
-    while ((curr != nullptr) && (*curr != 0) && success)
+    while ((curr < end) && success)
     {
+        // skip blank lines, leading spaces and comments
+        if (std::isspace(*curr)) { curr++; continue; }
         if (UNLIKELY(*curr == '#'))
         {
-            curr = strchr(curr, '\n');
-            curr++;
+            while ((curr < end) && (*curr != '\n')) curr++;
             continue;
         }
 
+        empty = false;
+
         // handle special case: "_cp ..."
         if (UNLIKELY((curr[0] == '_') && (std::strncmp(curr, "_cp ", 4) == 0)))
         {
             curr += 4;
             char *cp = curr;
             curr = strchr(curr, '\n');
-            if (curr != nullptr)
-            {
-                *curr = 0;
-                curr++;
-                CheckPointManager::add(cp);
-            }
-            else
-                success = false;
-
-            if (curr == nullptr || *curr == 0)
-                break;
-        }
-        else if (UNLIKELY(curr[0] == 0 || curr[0] == '\n' || curr[0] == '\r'))
-        {
-            break;
+            if (curr == nullptr) { success = false; break; }
+            *curr = 0;
+            curr++;
+            CheckPointManager::add(cp);
+            continue;
         }
 
-        tags = nullptr;
-        ts = 0;
+        const char *measurement = nullptr;
+        char *tags = nullptr;
+        Timestamp ts = 0;
 
-        bool ok = parse_line(curr, measurement, tags, ts, dps);
-        if (! ok) { success = false; break; }
+        char *next = (char*)rawmemchr(curr, '\n') + 1;
+        success = parse_line_safe(curr, measurement, tags, ts, dps);
+        if ((curr != next) && (curr != end)) success = false;   // null character in the line
+        if (! success) break;
 
         if (ts == 0) ts = now;
-        success = add_data_points(measurement, tags, ts, dps) && success;
-
+        success = add_data_points(measurement, tags, ts, dps);
         dps.clear();
     }
 
+    if (empty) success = false;
+
     response.init((success ? 200 : 400), HttpContentType::PLAIN);
     return success;
 }
@@ -2846,7 +2804,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
     // find first non-space
     while (std::isspace(*line) && (*line != '\n') && (*line != 0))
         line++;
-    if (! std::isalnum(*line))
+    if ((*line == ',') || (*line == '\n') || (*line == 0))
         return false;
     measurement = line;
 
@@ -2861,6 +2819,8 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
                 case ',':   *line = 'C'; break;
                 case '=':   *line = 'E'; break;
                 case ' ':   *line = 'S'; break;
+                case '\n':
+                case 0:     return false;
                 default:    *line = '_'; break;
             }
             line++;
@@ -2890,6 +2850,8 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
                     case ',':   *line = 'C'; break;
                     case '=':   *line = 'E'; break;
                     case ' ':   *line = 'S'; break;
+                    case '\n':
+                    case 0:     return false;
                     default:    *line = '_'; break;
                 }
                 line++;
@@ -2905,6 +2867,7 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
         return false;
 
     *line = 0;
+    while (line[1] == ' ') line++;
 
     // ' <field_key>=<field_value>[,<field_key>=<field_value>] [<timestamp>]'
     do
@@ -2925,11 +2888,13 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
                     case ',':   *line = 'C'; break;
                     case '=':   *line = 'E'; break;
                     case ' ':   *line = 'S'; break;
+                    case '\n':
+                    case 0:     return false;
                     default:    *line = '_'; break;
                 }
                 line++;
             }
-            else if ((*line == '=') || (*line == '\n') || (*line == 0))
+            else if ((*line == '=') || (*line == ' ') || (*line == ',') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
@@ -2940,33 +2905,37 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
 
         *line++ = 0;  // end of field name
 
-        // the next one has to be a number
-        if ((!std::isdigit(*line)) && (*line != '+') && (*line != '-') && (*line != '.') &&
-            !((std::strlen(line) >= 3) && (std::strncmp(line, "inf", 3) == 0 || std::strncmp(line, "nan", 3) == 0)))
+        if (*field == 0)
             return false;
 
+        // the next one has to be a number, optionally marked as integer
+        char *number_end;
         dp.set_raw_tags(field);    // use raw_tags to remember field name
-        dp.set_value(std::atof(line));
-
-        while ((*line != ',' || *line == '\\') && (*line != ' ' || *(line-1) == '\\') && (*line != '\n') && (*line != 0))
-            line++;
+        dp.set_value(std::strtod(line, &number_end));
+        if ((number_end == line) || std::isspace(*line))
+            return false;
+        line = number_end;
+        if ((*line == 'i') || (*line == 'u')) line++;
     } while (*line == ',');
 
-    if (*line == ' ') line++;
-    if (*line == '\n')
-        line++;
-    else if (*line != 0)
+    bool has_space = (*line == ' ');
+    while ((*line == ' ') || (*line == '\r')) line++;
+    if (has_space && std::isdigit(*line))
     {
-        if (! std::isdigit(*line))
-            return false;
         ts = std::atoll(line);
-        while (*line != '\n' && *line != 0) line++;
-        if (*line == '\n') line++;
+        while (std::isdigit(*line)) line++;
 
         // convert ts to desired unit
         ts = validate_resolution(ts);
+
+        while ((*line == ' ') || (*line == '\r')) line++;
     }
 
+    if (*line == '\n')
+        line++;
+    else if (*line != 0)
+        return false;
+
     return true;
 }
 
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index d134417..fb15af5 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -88,7 +88,7 @@ TagOwner::parse(char *tags)
     {
         const char *key = tags;
 
-        while ((*tags != '=' || *(tags-1) == '\\') && (*tags != '\n') && (*tags != 0))
+        while ((*tags != '=' || *(tags-1) == '\\') && (*tags != ',') && (*tags != '\n') && (*tags != 0))
             tags++;
         if (UNLIKELY(*tags != '=')) return false;
         *tags++ = 0;
-- 
2.43.0


From 2a7c8a16a7929aea220feb3f6a2de916a108fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:32 +0000
Subject: [PATCH 30/66] fix: keep reading time zones written UTC+1 as east of
 UTC

---
 src/utils/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 67e8cd1..e701dc5 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -493,6 +493,10 @@ get_tz_diff(const char *tz, const struct tm& tm)
     local.tm_isdst = -1;    // let mktime() decide
     long diff = (long)(mktime(&local) - timegm(&utc));
 
+    // "UTC+1" is east of UTC, unlike in POSIX
+    if ((strncmp(tz, "UTC", 3) == 0) && ((tz[3] == '+') || (tz[3] == '-')))
+        diff = -diff;
+
     if (old == nullptr)
         unsetenv("TZ");
     else
-- 
2.43.0


From 413566cdd425f1cd5238a86f7bab38d0c2718518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:52 +0000
Subject: [PATCH 31/66] fix: print small values in query results with all their
 digits

---
 src/core/query.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 8a61194..f473502 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -18,6 +18,8 @@
 
 #include <cassert>
 #include <chrono>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <algorithm>
 #include "aggregate.h"
@@ -1806,6 +1808,17 @@ QueryResults::to_json(char *buff, int size) const
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"%s\"", dp.first, (dp.second < 0) ? "-Inf" : "Inf");
         else if (UNLIKELY(isnan(dp.second)))
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":\"NaN\"", dp.first);
+        else if ((dp.second != 0.0) && (std::abs(dp.second) < 1.0))
+        {
+            // 16 decimal places are not enough to tell small values apart
+            char value[32];
+            snprintf(value, sizeof(value), "%.16g", dp.second);
+            if (std::strtod(value, nullptr) != dp.second)
+                snprintf(value, sizeof(value), "%.17g", dp.second);
+            n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":%s", dp.first, value);
+            if (n >= size) return size;     // response too large
+            continue;
+        }
         else
             n += snprintf(buff+n, size-n, "\"%" PRIu64 "\":%.16lf", dp.first, dp.second);
         if (n >= size) return size;         // response too large
-- 
2.43.0


From 01ac3e7a3537f074ce5f8170fbc02d895ce90f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:03 +0000
Subject: [PATCH 32/66] fix: lossy encodings store values that come back within
 the precision

---
 include/compress.h    |  4 ++-
 src/core/compress.cpp | 82 +++++++++++++++++++++++++++++++++++--------
 2 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/include/compress.h b/include/compress.h
index 48196b3..5286fad 100644
--- a/include/compress.h
+++ b/include/compress.h
@@ -119,7 +119,9 @@ public:
     Timestamp get_start_tstamp_const() const;
 
     // used by compression version 3 & 4
-    static void compress4(double v, double precision, BitSet& bitset);
+    // returns the value that will come out of uncompress_f4()
+    static double compress4(double v, double precision, BitSet& bitset);
+    static bool can_compress4(double v, double precision);
     static void compress4(int64_t n, BitSet& bitset);
     static void compress4a(uint32_t n, BitSet& bitset);
     static double uncompress_f4(BitSetCursor *cursor, double precision, BitSet& bitset);
diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index c199552..d302ae5 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -18,6 +18,7 @@
 
 #include <cstdint>
 #include <cstdlib>
+#include <cstring>
 #include <cmath>
 #include <endian.h>
 #include <limits.h>
@@ -54,6 +55,13 @@ static uint64_t TRAILING_ZEROS[64] =
     0x00000000000000F0, 0x00000000000000E0, 0x00000000000000C0, 0x0000000000000080
 };
 
+// 'decoded' is as good as 'value', given the precision
+static inline bool
+is_close(double decoded, double value, double precision)
+{
+    return std::abs(decoded - value) <= ((1.0 / precision) + std::abs(value) * 4.5e-16);
+}
+
 short Compressor_v4::m_repetition;
 unsigned short Compressor_v4::m_max_repetition;
 double Compressor_v4::m_precision;
@@ -115,10 +123,30 @@ Compressor::create(int version)
     return compressor;
 }
 
-void
+// Numbers are stored as 64-bit integers by compress4(); anything that
+// doesn't fit (including NaN and infinity) can't be represented.
+bool
+Compressor::can_compress4(double v, double precision)
+{
+    uint64_t bits;
+    double i, f;
+
+    std::memcpy(&bits, &v, sizeof(bits));
+    if ((bits & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL)
+        return false;
+
+    f = std::modf(v, &i);
+    if (! (std::abs(f) < (1.0 / precision)))
+        v *= precision;
+
+    return std::abs(v) < 9.2e18;
+}
+
+double
 Compressor::compress4(double v, double precision, BitSet& bitset)
 {
     double i, f;
+    int64_t n;
 
     f = std::modf(v, &i);
 
@@ -126,13 +154,17 @@ Compressor::compress4(double v, double precision, BitSet& bitset)
     {
         uint8_t one_zero = 0x00;
         bitset.append(reinterpret_cast<uint8_t*>(&one_zero), 1, 0);
-        compress4((int64_t)v, bitset);
+        n = (int64_t)v;
+        compress4(n, bitset);
+        return (double)n;
     }
     else
     {
         uint8_t one_zero = 0x80;
         bitset.append(reinterpret_cast<uint8_t*>(&one_zero), 1, 0);
-        compress4((int64_t)std::llround(v * precision), bitset);
+        n = (int64_t)std::llround(v * precision);
+        compress4(n, bitset);
+        return ((double)n) / precision;
     }
 }
 
@@ -523,19 +555,31 @@ Compressor_v4::compress(Timestamp timestamp, double value)
         double delta_v = value - m_prev_value;
         double delta_of_delta_v = delta_v - m_prev_value_delta;
 
+        // keep track of what the decoder will see, so that rounding errors don't add up
+        double decoded_delta_v = m_prev_value_delta;
+
+        if (UNLIKELY(! can_compress4(delta_v, m_precision) || ! can_compress4(delta_of_delta_v, m_precision)))
+        {
+            m_bitset.save_check_point();
+            throw std::out_of_range("value can't be represented");
+        }
+
         if (UNLIKELY(m_dp_count == 1))
         {
             m_bitset.save_check_point();
             compress4(delta_of_delta, m_bitset);
-            compress4(delta_v, m_precision, m_bitset);
+            decoded_delta_v = compress4(delta_v, m_precision, m_bitset);
         }
         else if (UNLIKELY(m_dp_count == 2))
         {
             m_bitset.save_check_point();
             compress4(delta_of_delta, m_bitset);
-            compress4(delta_of_delta_v, m_precision, m_bitset);
+            decoded_delta_v += compress4(delta_of_delta_v, m_precision, m_bitset);
+
+            if (m_bitset.avail_capacity_in_bits() < 1)
+                throw std::out_of_range("bitset is full");
         }
-        else if (((std::abs(delta_v - m_prev_value_delta) < (1.0 / m_precision)) && (delta == m_prev_tstamp_delta) && (m_repeat < m_max_repetition)) && !m_padded)
+        else if (((std::abs(m_prev_value + m_prev_value_delta - value) < (1.0 / m_precision)) && (delta == m_prev_tstamp_delta) && (m_repeat < m_max_repetition)) && !m_padded)
         {
             m_bitset.save_check_point();
             if ((m_repeat == 0) && (m_bitset.avail_capacity_in_bytes() < 1))
@@ -547,20 +591,25 @@ Compressor_v4::compress(Timestamp timestamp, double value)
             pad();
             m_bitset.save_check_point();
             compress4(delta_of_delta, m_bitset);
-            compress4(delta_of_delta_v, m_precision, m_bitset);
+            decoded_delta_v += compress4(delta_of_delta_v, m_precision, m_bitset);
 
             if (m_bitset.avail_capacity_in_bits() < 1)
                 throw std::out_of_range("bitset is full");
         }
 
+        double decoded = m_prev_value + decoded_delta_v;
+
+        if (! is_close(decoded, value, m_precision))
+            throw std::out_of_range("value can't be represented");
+
         ASSERT((m_prev_tstamp_delta + delta_of_delta) < MAX_MS_SINCE_EPOCH);
 
         m_prev_tstamp = timestamp;
         m_prev_tstamp_delta = delta;
 
         m_dp_count++;
-        m_prev_value = value;
-        m_prev_value_delta = delta_v;
+        m_prev_value = decoded;
+        m_prev_value_delta = decoded_delta_v;
         m_padded = false;
     }
     catch (const std::out_of_range& ex)
@@ -825,15 +874,20 @@ Compressor_v3::compress(Timestamp timestamp, double value)
         int64_t delta_of_delta = (uint64_t)delta - (uint64_t)m_prev_delta;
         compress4(delta_of_delta, m_bitset);
 
-        m_prev_tstamp = timestamp;
-        m_prev_delta = delta;
-
         // Value next
         double v = value - m_prev_value;
-        compress4(v, m_precision, m_bitset);
+        if (! can_compress4(v, m_precision))
+            throw std::out_of_range("value can't be represented");
+
+        // keep track of what the decoder will see, so that rounding errors don't add up
+        double decoded = m_prev_value + compress4(v, m_precision, m_bitset);
+        if (! is_close(decoded, value, m_precision))
+            throw std::out_of_range("value can't be represented");
 
         m_dp_count++;
-        m_prev_value = value;
+        m_prev_tstamp = timestamp;
+        m_prev_delta = delta;
+        m_prev_value = decoded;
     }
     catch (const std::out_of_range& ex)
     {
-- 
2.43.0


From 7ed19c73b5f30ef1a7b0a96e5c591557cdf1ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:12 +0000
Subject: [PATCH 33/66] fix: a full page of encoding 2 keeps refusing and keeps
 its last timestamp

---
 src/core/compress.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/compress.cpp b/src/core/compress.cpp
index d302ae5..9be2807 100644
--- a/src/core/compress.cpp
+++ b/src/core/compress.cpp
@@ -1059,6 +1059,7 @@ Compressor_v2::compress(Timestamp timestamp, double value)
 {
     ASSERT(get_start_tstamp() <= timestamp);
 
+    if (UNLIKELY(m_is_full)) return false;
     m_bitset.save_check_point();
 
     try
@@ -1112,9 +1113,6 @@ Compressor_v2::compress(Timestamp timestamp, double value)
             m_bitset.append(reinterpret_cast<uint8_t*>(&dod_be), 33, 64-33);
         }
 
-        m_prev_tstamp = timestamp;
-        m_prev_delta = delta;
-
         // Value next
         uint64_t prev = htobe64(*reinterpret_cast<uint64_t*>(&m_prev_value));
         uint64_t curr = htobe64(*reinterpret_cast<uint64_t*>(&value));
@@ -1160,6 +1158,8 @@ Compressor_v2::compress(Timestamp timestamp, double value)
         }
 
         m_dp_count++;
+        m_prev_tstamp = timestamp;
+        m_prev_delta = delta;
         m_prev_value = value;
     }
     catch (const std::out_of_range& ex)
-- 
2.43.0


From 3cc4978408ceb6b4adfc3c6bbc6800f17a6be60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:28 +0000
Subject: [PATCH 34/66] fix: HTTP requests sent back to back were dropped,
 oversized ones were taken for new requests

---
 include/http.h    |   4 +-
 include/tcp.h     |   1 +
 src/core/http.cpp | 370 ++++++++++++++++------------------------------
 src/core/tcp.cpp  |   2 +-
 4 files changed, 128 insertions(+), 249 deletions(-)

diff --git a/include/http.h b/include/http.h
index 0d057c5..aed6169 100644
--- a/include/http.h
+++ b/include/http.h
@@ -194,10 +194,10 @@ protected:
 
     // task func
     static bool recv_http_data(TaskData& data);
-    static bool recv_http_data_cont(HttpConnection *conn);
 
 private:
-    static void undo_header(HttpRequest& request);
+    static bool process_one(HttpConnection *conn, char* &buff, int& len, bool& conn_error);
+    static void terminate(char *end);
     static bool parse_header(char *buff, int len, HttpRequest& request);
     static bool process_request(HttpRequest& request, HttpResponse& response);
     static bool send_response(HttpConnection *conn);
diff --git a/include/tcp.h b/include/tcp.h
index 350f840..3a2fe3b 100644
--- a/include/tcp.h
+++ b/include/tcp.h
@@ -55,6 +55,7 @@ class TcpListener;
 #define TCS_ERROR       0x00000002
 #define TCS_CLOSED      0x00000004
 #define TCS_NEW         0x00000008
+#define TCS_REJECT      0x00000010
 #define TCS_SECOND      0x80000000
 
 #define INVALID_WORKER_ID   (-1)
diff --git a/src/core/http.cpp b/src/core/http.cpp
index 7b0a52c..86ea733 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -243,128 +243,87 @@ HttpServer::recv_http_data(TaskData& data)
 #endif
 
     char* buff;
+    int fd = conn->fd;
+    int len = 0;
+    bool conn_error = false;    // try to keep-alive
 
     if (conn->buff != nullptr)
     {
         // In this case, we did not receive the complete HTTP request last time;
         // So we are trying to finish it up this time...
-        if (conn->state & TCS_NEW)
-        {
-            buff = conn->buff;
-            conn->buff = nullptr;
-            conn->state &= ~TCS_NEW;
-        }
-        else
-            return HttpServer::recv_http_data_cont(conn);
+        buff = conn->buff;
+        conn->buff = nullptr;
+        if ((conn->state & TCS_NEW) == 0)
+            len = conn->offset;
     }
     else
-    {
-        conn->state &= ~TCS_NEW;
         buff = MemoryManager::alloc_network_buffer();
-    }
 
-    int fd = conn->fd;
-    int len = 0;
-    bool conn_error = false;    // try to keep-alive
-    bool free_buff = true;
+    if (len == 0)
+        conn->request.init();
+    conn->state &= ~TCS_NEW;
 
-    while (len < buff_size)
+    for (bool more = true; more; )
     {
-        // the MSG_DONTWAIT is not really needed, since
-        // the socket itself is non-blocking
-        int cnt = recv(fd, &buff[len], buff_size-len, MSG_DONTWAIT);
-
-        if (cnt > 0)
-        {
-            len += cnt;
-        }
-        else if (cnt == 0)
+        while (len < buff_size)
         {
-            break;
-        }
-        else //if (cnt == -1)
-        {
-            // TODO: what about EINTR???
-            //       maybe we should delete conn???
-            if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) break;
-            Logger::warn("recv(%d) failed, errno = %d", fd, errno);
-            conn_error = true;
-            break;
-        }
-    }
-
-    if (len >= buff_size)
-    {
-        HttpServer::send_response(conn, 413);
-        conn_error = true;
-        Logger::debug("received request of size %d, returning 413", len);
-    }
-    else if (len > 0)
-    {
-        buff[len] = 0;
-        buff[len+1] = ' ';
-        buff[len+2] = 0;
-        buff[len+3] = '\r';
-        buff[len+4] = 0;
-        buff[len+5] = ';';
-        buff[len+6] = 0;
+            // the MSG_DONTWAIT is not really needed, since
+            // the socket itself is non-blocking
+            int cnt = recv(fd, &buff[len], buff_size-len, MSG_DONTWAIT);
 
-        Logger::http("Recved request on %p: len=%d\n%s", fd, conn, len, buff);
-
-        conn->request.init();
-        parse_header(buff, len, conn->request);
-
-        if (conn->request.header_ok)
-        {
-            if (UNLIKELY(conn->request.length < 0))
+            if (cnt > 0)
             {
-                HttpServer::send_response(conn, 411);
-                conn_error = true;
-                Logger::http("request length negative, will close connection", fd);
+                len += cnt;
             }
-            else if (conn->request.close)
+            else if (cnt == 0)
             {
+                more = false;
+                break;
+            }
+            else //if (cnt == -1)
+            {
+                // TODO: what about EINTR???
+                //       maybe we should delete conn???
+                more = false;
+                if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) break;
+                Logger::warn("recv(%d) failed, errno = %d", fd, errno);
                 conn_error = true;
-                Logger::http("will close connection", fd);
+                break;
             }
         }
 
-        conn->response.id = conn->request.id;
+        // what follows a rejected request can't be told from its body
+        if (conn->state & TCS_REJECT)
+            len = 0;
 
-        // Check if we have recv'ed the complete request.
-        // If not, we need to stop right here, and inform
-        // the listener to forward the rest of the request
-        // our way.
-        if (conn->request.is_complete())
-        {
-            if (! process_request(conn->request, conn->response))
-                conn_error = true;
+        // there could be more than one request in the buffer
+        while ((len > 0) && process_one(conn, buff, len, conn_error)) /* do nothing */;
 
-            free_buff = HttpServer::send_response(conn);
-
-            // This needs to be done AFTER send_response(),
-            // or you are risking 2 threads both sending responses on the same fd.
-            //conn->buff = nullptr;
-        }
-        else
+        if (len >= buff_size)
         {
-            free_buff = false;
-            conn_error = false;
-            conn->buff = buff;
-            conn->offset = len;
-            Logger::http("received partial request size %d of total %d", fd, len, conn->request.length);
+            HttpServer::send_response(conn, 413);
+            conn->response.recycle();
+            conn->response.init();
+            conn->state |= TCS_REJECT;
+            conn_error = true;
+            Logger::debug("received request of size %d, returning 413", len);
+            len = 0;
         }
     }
-    else
-    {
-        Logger::http("received request of size %d", fd, len);
-    }
+
+    bool free_buff = (len == 0);
 
     if (free_buff)
     {
-        conn->buff = nullptr;
         MemoryManager::free_network_buffer(buff);
-        conn->response.recycle();
+    }
+    else
+    {
+        // We need to stop right here, and inform the listener
+        // to forward the rest of the request our way.
+        conn->offset = len;
+        conn->buff = buff;
+        Logger::http("received partial request size %d of total %d", fd, len, conn->request.length);
     }
 
     // closing the fd will deregister it from epoll
@@ -389,146 +348,101 @@ HttpServer::recv_http_data(TaskData& data)
     return false;
 }
 
-// This function tries to finish receive/process the HTTP request that
-// was not received/processed completely last time (by recv_http_data()).
+/* Process the request at the beginning of 'buff', if it is complete, and
+ * remove it from 'buff'.
+ *
+ * @param buff Data received so far; 'len' bytes of it; replaced if there is
+ *             anything left behind the request;
+ * @return false if the request is not complete yet;
+ */
 bool
-HttpServer::recv_http_data_cont(HttpConnection *conn)
+HttpServer::process_one(HttpConnection *conn, char* &buff, int& len, bool& conn_error)
 {
-    size_t buff_size = MemoryManager::get_network_buffer_size() - 8;
-    int fd = conn->fd;
-    char* buff = conn->buff;
-    int len = conn->offset;
-    bool conn_error = conn->request.close;
-    bool free_buff = true;
+    HttpRequest& request = conn->request;
 
-    while (len < buff_size)
+    if (! request.header_ok)
     {
-        // the MSG_DONTWAIT is not really needed, since
-        // the socket itself is non-blocking
-        int cnt = recv(fd, &buff[len], buff_size-len, MSG_DONTWAIT);
-
-        if (cnt > 0)
-        {
-            len += cnt;
-        }
-        else if (cnt == 0)
-        {
-            break;
-        }
-        else //if (cnt == -1)
+        char *end = (char*)memmem(buff, len, "\n\r\n", 3);
+        if (end == nullptr) return false;
+        end += 3;
+
+        // the header must not be parsed beyond its end
+        char saved[8];
+        std::memcpy(saved, end, sizeof(saved));
+        terminate(end);
+        request.init();
+        parse_header(buff, end-buff, request);
+        std::memcpy(end, saved, sizeof(saved));
+
+        if ((! request.header_ok) || (request.length < 0))
         {
-            // TODO: what about EINTR???
-            if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) break;
-            Logger::warn("recv_cont(%d) failed, errno = %d", fd, errno);
+            HttpServer::send_response(conn, request.header_ok ? 411 : 400);
+            conn->response.recycle();
+            conn->response.init();
+            request.init();
+            conn->state |= TCS_REJECT;
             conn_error = true;
-            break;
+            len = 0;
+            return false;
         }
+
+        request.content = end;
     }
 
-    if (len >= buff_size)
+    int consumed = (request.content - buff) + request.length;
+    request.complete = (consumed <= len);
+    if (! request.is_complete()) return false;
+
+    if (request.close)
     {
-        HttpServer::send_response(conn, 413);
         conn_error = true;
-        Logger::debug("received request of size %d, returning 413", len);
+        Logger::http("will close connection", conn->fd);
     }
-    else if (len > conn->offset)
-    {
-        // now do something about buff
-        buff[len] = 0;
-        buff[len+1] = ' ';
-        buff[len+2] = 0;
-        buff[len+3] = '\r';
-        buff[len+4] = 0;
-        buff[len+5] = ';';
-        buff[len+6] = 0;
-
-        Logger::http("recv-cont'ed: offset=%d, len=%d\n%s", fd,
-            conn->offset, len, &buff[conn->offset]);
-
-        // in case this is a new request, instead of second half of
-        // the request we've received previously
-        int offset = conn->offset;
-        if ((buff[offset] == 'P') || (buff[offset] == 'G'))
-        {
-            if ((std::strncmp(&buff[offset], "GET ", 4) == 0) &&
-                (std::strncmp(&buff[offset], "PUT ", 4) == 0) &&
-                (std::strncmp(&buff[offset], "POST ", 5) == 0))
-            {
-                // this appears to be the beginning of a new request
-                len -= offset;
-                std::memmove(&buff[0], &buff[offset], len+5);
-                conn->request.header_ok = false;    // re-parse header
-            }
-        }
 
-        if (! conn->request.header_ok)
-        {
-            undo_header(conn->request);
-            Logger::http("Re-parse request: %s", fd, buff);
-            parse_header(buff, len, conn->request);
-        }
+    // handlers may overwrite what's behind the request
+    char *rest = nullptr;
 
-        conn->response.id = conn->request.id;
+    if (consumed < len)
+    {
+        rest = MemoryManager::alloc_network_buffer();
+        std::memcpy(rest, buff+consumed, len-consumed);
+    }
 
-        if (conn->request.header_ok)
-        {
-            conn->request.complete =
-                (conn->request.length <= ((uint64_t)&buff[len] - (uint64_t)conn->request.content));
-        }
+    terminate(buff+consumed);
+    Logger::http("Recved request on %p: len=%d\n%s", conn->fd, conn, consumed, buff);
 
-        // Check if we have recv'ed the complete request.
-        // If not, we need to stop right here, and inform
-        // the listener to forward the rest of the request
-        // our way.
-        if (UNLIKELY(! conn->request.is_complete()))
-        {
-            free_buff = false;
-            conn->offset = len;
-            Logger::http("request.length = %d, len = %d, offset = %d", fd,
-                conn->request.length, len, conn->offset);
-        }
-        else if (UNLIKELY(! conn->request.header_ok))
-        {
-            free_buff = HttpServer::send_response(conn, 400);
-        }
-        else
-        {
-            Logger::debug("request is finally complete");
-            if (! process_request(conn->request, conn->response))
-                conn_error = true;
-            free_buff = HttpServer::send_response(conn);
-        }
-    }
-    else
+    conn->response.id = request.id;
+    if (! process_request(request, conn->response))
+        conn_error = true;
+
+    if (HttpServer::send_response(conn))
     {
-        free_buff = false;
-        Logger::http("did not receive anything this time", fd);
+        conn->response.recycle();
+        conn->response.init();
     }
 
-    if (free_buff)
+    request.init();
+    len -= consumed;
+
+    if (rest != nullptr)
     {
-        conn->buff = nullptr;
         MemoryManager::free_network_buffer(buff);
+        buff = rest;
     }
 
-    // closing the fd will deregister it from epoll
-    // since we never dup() or fork(); but let's
-    // deregister it anyway, just in case.
-    if (conn_error)
-        conn->state |= TCS_ERROR;
-
-    int n = --conn->pending_tasks;
-    ASSERT(n >= 0);
-
-    if ((n <= 0) && (conn->state & TCS_CLOSED))
-        conn->close();
-
-#ifdef TT_STATS
-    if (g_self_meter_enabled && free_buff)
-        collect_self_stats(conn);
-#endif
+    return true;
+}
 
-    return false;
+void
+HttpServer::terminate(char *end)
+{
+    end[0] = 0;
+    end[1] = ' ';
+    end[2] = 0;
+    end[3] = '\r';
+    end[4] = 0;
+    end[5] = ';';
+    end[6] = 0;
 }
 
 void
@@ -682,7 +596,7 @@ HttpServer::parse_header(char *buff, int len, HttpRequest& request)
 
     for (curr2 = curr1; *curr2 != ' '; curr2++)
     {
-        if (*curr2 == '?')
+        if ((*curr2 == '?') && (request.params == nullptr))
         {
             *curr2 = 0;
             request.params = curr2 + 1;
@@ -761,42 +675,6 @@ HttpServer::parse_header(char *buff, int len, HttpRequest& request)
     return true;
 }
 
-void
-HttpServer::undo_header(HttpRequest& request)
-{
-    if (request.method != nullptr)
-    {
-        request.method[std::strlen(request.method)] = ' ';
-        request.method = nullptr;
-    }
-
-    if (request.params != nullptr)
-    {
-        *(request.params-1) = '?';
-        request.params = nullptr;
-    }
-
-    if (request.path != nullptr)
-    {
-        request.path[std::strlen(request.path)] = ' ';
-        request.path = nullptr;
-    }
-
-    if (request.version != nullptr)
-    {
-        char *p;
-        for (p = request.version; *p != 0; p++) /* do nothing */;
-        *p = '\r';
-        request.version = nullptr;
-    }
-
-    if (request.id != nullptr)
-    {
-        request.id[std::strlen(request.id)] = '\r';
-        request.id = nullptr;
-    }
-}
-
 bool
 HttpServer::process_request(HttpRequest& request, HttpResponse& response)
 {
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index b1a32a3..eacf6a5 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1296,7 +1296,7 @@ TcpListener::new_conn2(int fd)
         if (conn == nullptr) return;
 
         ASSERT(fd == conn->fd);
-        conn->state &= ~(TCS_ERROR | TCS_CLOSED);   // start new, clear these flags
+        conn->state &= ~(TCS_ERROR | TCS_CLOSED | TCS_REJECT);   // start new, clear these flags
 
         if ((m_id % 10) == 0)
             conn->state &= ~TCS_SECOND;
-- 
2.43.0


From fdccc4d9e5b73808ee01826c48b467315adb4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:28 +0000
Subject: [PATCH 35/66] fix: a line longer than the buffer kept the line port
 busy forever

---
 src/core/tcp.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index eacf6a5..4981cb7 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -413,7 +413,9 @@ TcpServer::recv_tcp_data(TaskData& data)
 
     if (conn->buff != nullptr)
     {
-        len = conn->offset;
+        // if this is a new connection, what's left belongs to an old one
+        if ((conn->state & TCS_NEW) == 0)
+            len = conn->offset;
         buff = conn->buff;
         conn->buff = nullptr;
     }
@@ -422,6 +424,8 @@ TcpServer::recv_tcp_data(TaskData& data)
         buff = MemoryManager::alloc_network_buffer();
     }
 
+    conn->state &= ~TCS_NEW;
+
     while (len < buff_size)
     {
         // the MSG_DONTWAIT is not really needed, since
@@ -450,6 +454,21 @@ TcpServer::recv_tcp_data(TaskData& data)
     buff[len] = 0;
     bool again = (len >= buff_size);
 
+    if (conn->state & TCS_REJECT)
+    {
+        // skip the rest of a line that was too long
+        char *end = (char*)std::memchr(buff, '\n', len);
+
+        if (end == nullptr)
+            len = 0;
+        else
+        {
+            conn->state &= ~TCS_REJECT;
+            len -= (end - buff) + 1;
+            std::memmove(buff, end+1, len+1);
+        }
+    }
+
     if (len >= 5)
     {
         // find the last '\n'
@@ -475,6 +494,12 @@ TcpServer::recv_tcp_data(TaskData& data)
             process_data(conn, buff, l);
             if (len > 0) memcpy((void*)buff, tmp, len);
         }
+        else if (len >= buff_size)
+        {
+            Logger::error("line of %d bytes is too long, ignored", len);
+            conn->state |= TCS_REJECT;
+            len = 0;
+        }
     }
 
     if (again && (conn->pending_tasks <= 1))
-- 
2.43.0


From 41d639d21de3f366833f316f5c4b37d506fe896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:15 +0000
Subject: [PATCH 36/66] fix: lines of the line port depended on the other lines
 that arrived with them

---
 include/tcp.h     |  1 +
 src/core/tcp.cpp  | 60 ++++++++++++++++++++++++++++++++++++++++++++---
 src/core/tsdb.cpp | 12 ++++++++--
 3 files changed, 68 insertions(+), 5 deletions(-)

diff --git a/include/tcp.h b/include/tcp.h
index 3a2fe3b..d00860c 100644
--- a/include/tcp.h
+++ b/include/tcp.h
@@ -305,6 +305,7 @@ private:
     friend class TcpListener;
     static bool set_flags(int fd, int flags);
     static bool process_data(TcpConnection *conn, char *data, int len);
+    static void process_lines(TcpConnection *conn, char *data, int len);
     static void send_response(int fd, char *content, int len);
 
     int listen(int port, int listener_count);   // return fd
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 4981cb7..d919b93 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -536,8 +536,60 @@ TcpServer::recv_tcp_data(TaskData& data)
     return false;
 }
 
+// these are answered only if they are processed on their own
+static inline bool
+is_command(const char *line, int len)
+{
+    switch (len)
+    {
+        case 5:     return std::strncmp(line, "help\n", 5) == 0;
+        case 6:     return std::strncmp(line, "stats\n", 6) == 0;
+        case 8:     return std::strncmp(line, "version\n", 8) == 0;
+        case 10:    return std::strncmp(line, "diediedie\n", 10) == 0;
+        default:    return false;
+    }
+}
+
+// 'data' consists of complete lines
 bool
 TcpServer::process_data(TcpConnection *conn, char *data, int len)
+{
+    char *end = data + len;
+    bool second = conn->state.load(std::memory_order_relaxed) & TCS_SECOND;
+
+    for (char *curr = data; (curr < end) && ! second; )
+    {
+        char *next = (char*)std::memchr(curr, '\n', end-curr);
+        next = (next == nullptr) ? end : next + 1;
+
+        if (is_command(curr, next-curr))
+        {
+            char saved[4];
+
+            if (data < curr)
+            {
+                std::memcpy(saved, curr, sizeof(saved));
+                process_lines(conn, data, curr-data);
+                std::memcpy(curr, saved, sizeof(saved));
+            }
+
+            std::memcpy(saved, next, sizeof(saved));
+            process_lines(conn, curr, next-curr);
+            std::memcpy(next, saved, sizeof(saved));
+            data = next;
+        }
+
+        curr = next;
+    }
+
+    if (data < end)
+        process_lines(conn, data, end-data);
+
+    return false;
+}
+
+void
+TcpServer::process_lines(TcpConnection *conn, char *data, int len)
 {
     try
     {
@@ -554,7 +606,11 @@ TcpServer::process_data(TcpConnection *conn, char *data, int len)
         Logger::tcp("Recved:\n%s", conn->fd, data);
 
         if (conn->state.load(std::memory_order_relaxed) & TCS_SECOND)
-            Tsdb::http_api_write_handler(request, response);
+        {
+            // it stops at lines that can't be processed
+            while (! Tsdb::http_api_write_handler(request, response) && (request.length > 0))
+                Logger::error("Failed to process a line of tcp request");
+        }
         else
             Tsdb::http_api_put_handler_plain(request, response);
 
@@ -582,8 +638,6 @@ TcpServer::process_data(TcpConnection *conn, char *data, int len)
     {
         Logger::error("Failed to process tcp request with unknown exception");
     }
-
-    return false;
 }
 
 void
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 11cba46..b931c11 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2538,7 +2538,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
             curr += 4;
             char *cp = curr;
             curr = strchr(curr, '\n');
-            if (curr == nullptr) { success = false; break; }
+            if (curr == nullptr) { success = false; request.length = 0; break; }
             *curr = 0;
             curr++;
             CheckPointManager::add(cp);
@@ -2552,6 +2552,10 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
         char *next = (char*)rawmemchr(curr, '\n') + 1;
         success = parse_line_safe(curr, measurement, tags, ts, dps);
         if ((curr != next) && (curr != end)) success = false;   // null character in the line
+
+        // let caller know where we stopped
+        request.content = next;
+        request.length = (next < end) ? (end - next) : 0;
         if (! success) break;
 
         if (ts == 0) ts = now;
@@ -2559,7 +2563,11 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
         dps.clear();
     }
 
-    if (empty) success = false;
+    if (empty)
+    {
+        success = false;
+        request.length = 0;
+    }
 
     response.init((success ? 200 : 400), HttpContentType::PLAIN);
     return success;
-- 
2.43.0


From 8b742e332669635ea8ce9704c4ede57f28ffc599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:37 +0000
Subject: [PATCH 37/66] fix: a crash while a config file was being written made
 the next start fail

---
 src/utils/config.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 4ed6f38..974fc98 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -311,13 +311,22 @@ Config::persist()
 {
     bool version_exists = exists("ticktockdb.version");
     std::lock_guard<std::mutex> guard(m_lock);
-    std::fstream file(m_file_name, std::ios::out | std::ios::trunc);
+
+    // write to a (hidden) temp file first, so that there's always a complete config file
+    std::size_t pos = m_file_name.find_last_of('/') + 1;
+    std::string tmp_name = m_file_name.substr(0, pos) + "." + m_file_name.substr(pos) + ".tmp";
+    std::fstream file(tmp_name, std::ios::out | std::ios::trunc);
 
     if (! version_exists)
         file << "ticktockdb.version = " << TT_MAJOR_VERSION << "." << TT_MINOR_VERSION << "." << TT_PATCH_VERSION << std::endl;
 
     for (const auto& prop: m_properties)
         file << prop.second->get_name() << " = " << prop.second->as_str() << std::endl;
+
+    file.close();
+
+    if (std::rename(tmp_name.c_str(), m_file_name.c_str()) != 0)
+        Logger::error("Failed to rename %s to %s", tmp_name.c_str(), m_file_name.c_str());
 }
 
 void
-- 
2.43.0


From b641e2960ace0231a786be0d67d556ba8b6dd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:27 +0000
Subject: [PATCH 38/66] fix: a day whose config file was not yet written at a
 crash was used with wrong sizes

---
 src/core/tsdb.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index b931c11..c5ba607 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1263,7 +1263,17 @@ Tsdb::adjust_page_count()
 void
 Tsdb::restore_config(const std::string& dir)
 {
-    Config cfg(dir + "/config");
+    std::string cfg_file = dir + "/config";
+
+    if (! file_exists(cfg_file))    // crashed before it was written
+    {
+        int count = Config::inst()->get_int(CFG_TSDB_PAGE_COUNT, CFG_TSDB_PAGE_COUNT_DEF);
+        m_page_count = (PageCount)((count >= 16) ? count : 16384);
+        write_config(dir);
+        return;
+    }
+
+    Config cfg(cfg_file);
     cfg.load(false);
 
     m_page_size = cfg.get_bytes(CFG_TSDB_PAGE_SIZE, CFG_TSDB_PAGE_SIZE_DEF);
-- 
2.43.0


From b1e4caaacd13a3e945de9fa605aa6b6e0002554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:50 +0000
Subject: [PATCH 39/66] fix: after a crash, metadata of series could be
 missing, incomplete or skipped at the next start

---
 src/utils/meta.cpp | 62 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index 3e8addb..e24372d 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -20,6 +20,7 @@
 #include <fstream>
 #include <limits.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #include "append.h"
 #include "config.h"
 #include "fd.h"
@@ -39,6 +40,32 @@ namespace tt
 MetaFile * MetaFile::m_instance;    // Singleton instance
 
 
+// the last line could be incomplete, after a crash
+static void
+remove_incomplete_line(const std::string& file_name)
+{
+    std::ifstream is(file_name, std::ios::binary);
+    if (! is) return;
+
+    std::string line;
+    long len = 0;
+
+    while (std::getline(is, line) && ! is.eof())
+        len += line.length() + 1;
+    is.close();
+
+    if (! line.empty() && (::truncate(file_name.c_str(), len) != 0))
+        Logger::error("Failed to truncate %s, errno = %d", file_name.c_str(), errno);
+}
+
+static bool
+is_empty_file(const std::string& file_name)
+{
+    struct stat sb;
+    return (::stat(file_name.c_str(), &sb) != 0) || (sb.st_size == 0);
+}
+
+
 void
 MetaFile::init(void (*restore_metrics)(MetricId, std::string& name), TimeSeries* (*restore_ts)(std::string& metric, std::string& key, TimeSeriesId id),
                void (*restore_measurement)(std::string& measurement, std::string& tags, std::vector<std::pair<std::string,TimeSeriesId>>& fields, std::vector<TimeSeries*>& tsv))
@@ -66,6 +93,7 @@ MetaFile::restore_metrics(void (*restore_metrics)(MetricId, std::string& name))
 
     //bool restore_needed = AppendLog::restore_needed();
     std::vector<TimeSeries*> tsv;
+    remove_incomplete_line(m_metrics_name);
     std::ifstream is(m_metrics_name);
 
     tsv.reserve(4096);
@@ -74,11 +102,19 @@ MetaFile::restore_metrics(void (*restore_metrics)(MetricId, std::string& name))
     {
         std::string line;   // format: <id> <metric-name>
 
-        // skip 1st line: ticktockdb.version
-        std::getline(is, line);
+        bool first = true;
 
         while (std::getline(is, line))
         {
+            // skip 1st line: ticktockdb.version
+            if (first && (line.compare(0, 13, "# ticktockdb.") == 0))
+            {
+                first = false;
+                continue;
+            }
+
+            first = false;
+
             std::vector<TimeSeries*> tsv2;
             std::vector<std::string> tokens;
             tokenize(line, tokens, ' ');
@@ -107,6 +143,7 @@ MetaFile::restore_ts(TimeSeries* (*restore_ts)(std::string& metric, std::string&
 
     bool restore_needed = AppendLog::restore_needed();
     std::vector<TimeSeries*> tsv;
+    remove_incomplete_line(m_ts_name);
     std::ifstream is(m_ts_name);
 
     tsv.reserve(4096);
@@ -115,11 +152,19 @@ MetaFile::restore_ts(TimeSeries* (*restore_ts)(std::string& metric, std::string&
     {
         std::string line;
 
-        // skip 1st line: ticktockdb.version
-        std::getline(is, line);
+        bool first = true;
 
         while (std::getline(is, line))
         {
+            // skip 1st line: ticktockdb.version
+            if (first && (line.compare(0, 13, "# ticktockdb.") == 0))
+            {
+                first = false;
+                continue;
+            }
+
+            first = false;
+
             std::vector<TimeSeries*> tsv2;
             std::vector<std::string> tokens;
             tokenize(line, tokens, ' ');
@@ -184,7 +229,7 @@ MetaFile::open()
     ASSERT(m_metrics_file == nullptr);
 
     // open ts file
-    bool is_new = ! file_exists(m_ts_name);
+    bool is_new = is_empty_file(m_ts_name);
     int fd = ::open(m_ts_name.c_str(), O_WRONLY|O_CREAT|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
 
@@ -202,7 +247,7 @@ MetaFile::open()
     }
 
     // open metrics file
-    is_new = ! file_exists(m_metrics_name);
+    is_new = is_empty_file(m_metrics_name);
     fd = ::open(m_metrics_name.c_str(), O_WRONLY|O_CREAT|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
 
@@ -262,6 +307,7 @@ MetaFile::add_ts(const char *metric, const char *key, TimeSeriesId id)
 
     std::lock_guard<std::mutex> guard(m_lock);
     fprintf(m_ts_file, "%s %s %u\n", metric, key, id);
+    std::fflush(m_ts_file);
 }
 
 void
@@ -271,6 +317,7 @@ MetaFile::add_metric(MetricId id, const char *name)
     ASSERT(m_metrics_file != nullptr);
     std::lock_guard<std::mutex> guard(m_lock);
     fprintf(m_metrics_file, "%d %s\n", id, name);
+    std::fflush(m_metrics_file);
 }
 
 void
@@ -297,6 +344,8 @@ MetaFile::add_ts(const char *metric, Tag_v2& tags_v2, TimeSeriesId id)
             fprintf(m_ts_file, "%s %s %u\n", metric, (n>0) ? &buff[1] : ";", id);
         else
             fprintf(m_ts_file, "%s %s %s=%u\n", metric, (n>0) ? &buff[1] : ";", field->m_value, id);
+
+        std::fflush(m_ts_file);
     }
 
     if (field != nullptr)
@@ -340,6 +389,7 @@ MetaFile::add_measurement(const char *measurement, char *tags, std::vector<std::
     {
         std::lock_guard<std::mutex> guard(m_lock);
         fprintf(m_ts_file, "%s\n", buff);
+        std::fflush(m_ts_file);
     }
 
     MemoryManager::free_network_buffer(buff);
-- 
2.43.0


From 86d5f9c794439ab7f4cb7aa0de6e1ff1942efbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:50 +0000
Subject: [PATCH 40/66] fix: write-ahead log was removed when restored from its
 temporary name, and misread after an unknown series

---
 src/utils/append.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index 65c91ad..d83053b 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -86,7 +86,6 @@ AppendLog::flush_all(TaskData& data)
     fclose(file);
 
     // append.tmp => append.log
-    rm_file(log_name);
     if (std::rename(tmp_name.c_str(), log_name.c_str()) != 0)
         Logger::error("Failed to rename %s to %s", tmp_name.c_str(), log_name.c_str());
 
@@ -165,15 +164,6 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
         //if (! is_ooo)
             //bytes += sizeof(struct rollup_append_entry);
 
-        if (tsv.size() <= tid)
-        {
-            Logger::error("Time series %u in append log, but not present in meta file", tid);
-            continue;
-        }
-
-        TimeSeries *ts = tsv[tid];
-        ASSERT(ts != nullptr);
-
         size = ::fread(buff, bytes, 1, file);
 
         if (size < 1)
@@ -182,6 +172,14 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
             break;
         }
 
+        TimeSeries *ts = (tid < tsv.size()) ? tsv[tid] : nullptr;
+
+        if (ts == nullptr)
+        {
+            Logger::error("Time series %u in append log, but not present in meta file", tid);
+            continue;
+        }
+
         Tsdb *tsdb = Tsdb::inst(tstamp, false);
 
         if (tsdb == nullptr)
@@ -199,7 +197,12 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
     if (file != nullptr)
         fclose(file);
 
-    rm_file(tmp_name);
+    // what we've just restored is not on disk yet, so we need to keep the log
+    if (file_exists(log_name))
+        rm_file(tmp_name);
+    else
+        std::rename(tmp_name.c_str(), log_name.c_str());
+
     MemoryManager::free_network_buffer(buff);
 
     if (oldest_tsdb != nullptr)
-- 
2.43.0


From 12cf9d54e5d569954b3991e490cd01367f1196d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:29 +0000
Subject: [PATCH 41/66] fix: a page restored from the write-ahead log could cut
 off pages written after it

The log keeps the position of the page before each open page. Pages written
to disk after the log was last flushed made it stale, and the restored page
was then linked in front of them. Look the position up when restoring.
---
 src/core/page.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/page.cpp b/src/core/page.cpp
index ea77459..4c1433a 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -357,6 +357,17 @@ PageInMemory::restore(Timestamp tstamp, uint8_t *buff, PageSize offset, uint8_t
             m_page_header.m_tstamp_to = ts;
     }
 
+    // more pages could have been written to disk since this was logged; the
+    // next page (i.e. this one) needs to come after the last one on disk
+    if (! out_of_date)
+    {
+        FileIndex file_idx;
+        HeaderIndex header_idx;
+        m_tsdb->get_last_header_indices(mid, tid, file_idx, header_idx);
+        m_page_header.m_next_file = file_idx;
+        m_page_header.m_next_header = header_idx;
+    }
+
     return out_of_date;
 }
 
-- 
2.43.0


From ca2f005c88822363a5678dd6906e786d899d18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:29 +0000
Subject: [PATCH 42/66] fix: files of a day interrupted by a crash while being
 created or extended broke the next start

Index and header files are initialized under a temporary name first. New
index entries are written before they are mapped. Pairs of indices are
stored so that the part that makes them valid comes last. A missing last
data file, and a data file ahead of its header file, are handled.
---
 include/mmap.h    |  3 ++
 src/core/mmap.cpp | 83 ++++++++++++++++++++++++++++++++++++++---------
 src/core/tsdb.cpp | 25 ++++++++++----
 3 files changed, 88 insertions(+), 23 deletions(-)

diff --git a/include/mmap.h b/include/mmap.h
index e31c501..577aef3 100644
--- a/include/mmap.h
+++ b/include/mmap.h
@@ -64,6 +64,8 @@ public:
 protected:
     void open(int64_t length, bool read_only, bool append_only, bool resize);
     void open_existing(bool read_only, bool append_only);
+    bool write_at_end(const void *data, size_t size);
+    static std::string get_tmp_name(const std::string& name);
 
     std::mutex m_lock;
     std::string m_name;
@@ -171,6 +173,7 @@ public:
     void flush(bool sync) override;
 
     PageCount append(const void *page, PageSize size);
+    inline bool is_full() const { return m_page_index >= m_page_count; }
     inline FileIndex get_id() const { return m_id; }
     inline PageSize get_offset() const { return m_offset; }
     inline PageSize get_next_page_size() const
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 0ba55ec..7c9001b 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -16,12 +16,15 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <atomic>
+#include <cstring>
 #include <fcntl.h>
 #include <iomanip>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <unistd.h>
 #include <unordered_map>
+#include <vector>
 #include "compress.h"
 #include "config.h"
 #include "fd.h"
@@ -252,6 +255,32 @@ MmapFile::resize(int64_t length)
     return true;
 }
 
+/* Append to the end of the file, without mapping it into memory.
+ */
+bool
+MmapFile::write_at_end(const void *data, size_t size)
+{
+    ASSERT(m_fd > 0);
+
+    if (pwrite(m_fd, data, size, m_length) != (ssize_t)size)
+    {
+        Logger::error("Failed to append to file %s, errno = %d", m_name.c_str(), errno);
+        return false;
+    }
+
+    return true;
+}
+
+/* Name to be used by a file while it is being created.
+ */
+std::string
+MmapFile::get_tmp_name(const std::string& name)
+{
+    std::string tmp(name);
+    tmp.insert(tmp.find_last_of('/') + 1, "tmp.");
+    return tmp;
+}
+
 void
 MmapFile::close()
 {
@@ -333,6 +362,10 @@ IndexFile::open(bool for_read)
 
     if (is_new)
     {
+        // initialize it under a temporary name, so that we will never see
+        // a half initialized file should we crash in the middle of this
+        std::string name = m_name;
+        m_name = get_tmp_name(name);
         MmapFile::open(TT_SIZE_INCREMENT, for_read, false, true);
         struct index_entry *entries = (struct index_entry*)get_pages();
         ASSERT(entries != nullptr);
@@ -344,6 +377,10 @@ IndexFile::open(bool for_read)
             entries[i].file_index = TT_INVALID_FILE_INDEX;
             entries[i].file_index2 = TT_INVALID_FILE_INDEX;
         }
+
+        if (std::rename(m_name.c_str(), name.c_str()) != 0)
+            Logger::error("Failed to rename %s to %s, errno = %d", m_name.c_str(), name.c_str(), errno);
+        m_name = name;
     }
     else
     {
@@ -387,22 +424,21 @@ IndexFile::expand(int64_t new_len)
     ASSERT((old_len % TT_INDEX_SIZE) == 0);
     ASSERT((new_len % TT_INDEX_SIZE) == 0);
 
-    if (! this->resize(new_len))
+    // append initialized entries to the file, BEFORE mapping them into memory,
+    // so that we will never see uninitialized ones should we crash
+    struct index_entry entry;
+    std::memset(&entry, 0, sizeof(entry));
+    entry.file_index = TT_INVALID_FILE_INDEX;
+    entry.header_index = TT_INVALID_HEADER_INDEX;
+    entry.file_index2 = TT_INVALID_FILE_INDEX;
+    entry.header_index2 = TT_INVALID_HEADER_INDEX;
+    std::vector<struct index_entry> entries((new_len - old_len) / TT_INDEX_SIZE, entry);
+
+    if (! write_at_end(entries.data(), new_len - old_len))
         return false;
 
-    uint64_t old_idx = old_len / TT_INDEX_SIZE;
-    uint64_t new_idx = new_len / TT_INDEX_SIZE;
-    struct index_entry *entries = (struct index_entry*)get_pages();
-
-    // TODO: memcpy()?
-    for ( ; old_idx < new_idx; old_idx++)
-    {
-        entries[old_idx].flags = 0;
-        entries[old_idx].file_index = TT_INVALID_FILE_INDEX;
-        entries[old_idx].header_index = TT_INVALID_HEADER_INDEX;
-        entries[old_idx].file_index2 = TT_INVALID_FILE_INDEX;
-        entries[old_idx].header_index2 = TT_INVALID_HEADER_INDEX;
-    }
+    if (! this->resize(new_len))
+        return false;
 
     Logger::debug("index file %s length: %" PRIu64, m_name.c_str(), get_length());
 
@@ -430,8 +466,10 @@ IndexFile::set_indices(TimeSeriesId id, FileIndex file_index, HeaderIndex header
     }
 
     struct index_entry *entries = (struct index_entry*)pages;
-    entries[id].file_index = file_index;
+    // file_index tells if this entry is valid; so set it last, in case we crash
     entries[id].header_index = header_index;
+    std::atomic_signal_fence(std::memory_order_release);
+    entries[id].file_index = file_index;
 
     return true;
 }
@@ -457,8 +495,10 @@ IndexFile::set_indices2(TimeSeriesId id, FileIndex file_index, HeaderIndex heade
     }
 
     struct index_entry *entries = (struct index_entry*)pages;
-    entries[id].file_index2 = file_index;
+    // file_index2 tells if this entry is valid; so set it last, in case we crash
     entries[id].header_index2 = header_index;
+    std::atomic_signal_fence(std::memory_order_release);
+    entries[id].file_index2 = file_index;
 
     return true;
 }
@@ -617,8 +657,17 @@ HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount pag
 {
     ASSERT(page_count > 0);
     ASSERT(page_size > 0);
+
+    // initialize it under a temporary name, so that we will never see
+    // a half initialized file should we crash in the middle of this
+    m_name = get_tmp_name(file_name);
+    remove();       // left behind by a crash
     open(false);    // open for write
     init_tsdb_header(page_size);
+
+    if (std::rename(m_name.c_str(), file_name.c_str()) != 0)
+        Logger::error("Failed to rename %s to %s, errno = %d", m_name.c_str(), file_name.c_str(), errno);
+    m_name = file_name;
 }
 
 HeaderFile::HeaderFile(FileIndex id, const std::string& file_name) :
@@ -797,6 +846,8 @@ HeaderFile::update_next(HeaderIndex prev_header_idx, FileIndex this_file_idx, He
     struct page_info_on_disk *header = get_page_header(prev_header_idx);
     ASSERT(header != nullptr);
     header->m_next_file = this_file_idx;
+    // there is a next page only after this; so set it last, in case we crash
+    std::atomic_signal_fence(std::memory_order_release);
     header->m_next_header = this_header_idx;
     m_last_access = ts_now_sec();   // to prevent it from being closed
 }
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index c5ba607..23cd25b 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -841,6 +841,20 @@ Metric::Metric(const std::string& dir, PageSize page_size, PageCount page_cnt)
     get_all_files(dir + "/data.*", files);
     for (auto file: files) restore_data(file, page_size, page_cnt);
     std::sort(m_data_files.begin(), m_data_files.end(), data_less());
+
+    // if we crashed after creating the last header file, but
+    // before creating its data file, we need to create it now
+    if (! m_header_files.empty())
+    {
+        FileIndex id = m_header_files.back()->get_id();
+
+        if (m_data_files.empty() || (m_data_files.back()->get_id() < id))
+        {
+            std::ostringstream oss;
+            oss << dir << "/data." << std::setfill('0') << std::setw(5) << id;
+            m_data_files.push_back(new DataFile(oss.str(), id, page_size, page_cnt));
+        }
+    }
 }
 
 Metric::~Metric()
@@ -992,7 +1006,8 @@ Metric::get_last_files(std::string& tsdb_dir, PageCount page_cnt, PageSize page_
         data_file = m_data_files.back();
         data_file->ensure_open(false);
 
-        if (header_file->is_full())
+        // after a crash, data file could have more pages than header file
+        if (header_file->is_full() || data_file->is_full())
         {
             FileIndex id = m_header_files.size();
             header_file = new HeaderFile(get_header_file_name(tsdb_dir, id), id, page_cnt, page_size);
@@ -1885,10 +1900,8 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo)
     if (fidx == TT_INVALID_FILE_INDEX)
         m_index_file.get_indices(tid, fidx, hidx);
 
-    while (fidx != TT_INVALID_FILE_INDEX)
+    while ((fidx != TT_INVALID_FILE_INDEX) && (hidx != TT_INVALID_HEADER_INDEX))
     {
-        ASSERT(hidx != TT_INVALID_HEADER_INDEX);
-
         HeaderFile *header_file = get_header_file(mid, fidx);
         ASSERT(header_file != nullptr);
         ASSERT(header_file->get_id() == fidx);
@@ -2043,10 +2056,8 @@ Tsdb::get_last_header_indices(MetricId mid, TimeSeriesId tid, FileIndex& file_id
     if (fidx == TT_INVALID_FILE_INDEX)
         m_index_file.get_indices(tid, fidx, hidx);
 
-    while (fidx != TT_INVALID_FILE_INDEX)
+    while ((fidx != TT_INVALID_FILE_INDEX) && (hidx != TT_INVALID_HEADER_INDEX))
     {
-        ASSERT(hidx != TT_INVALID_HEADER_INDEX);
-
         file_idx = fidx;
         header_idx = hidx;
 
-- 
2.43.0


From 8e91bec1e596c7d044cd96ffaf218fa6fd701c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:35:27 +0000
Subject: [PATCH 43/66] fix: check-points were not reported after a restart
 until the next flush, long ones were misread

The check-points loaded at start are the persisted ones. A line of 1024
characters or more was copied without its end.
---
 src/core/cp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 55ebf40..7f2c49e 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -57,12 +57,15 @@ CheckPointManager::init()
 
     while (std::getline(is, line))
     {
-        char buff[1024];
-        std::strncpy(buff, line.c_str(), sizeof(buff));
-        CheckPointManager::add(buff);
+        line.push_back(0);
+        CheckPointManager::add(&line[0]);
     }
 
     is.close();
+
+    // what we just loaded were persisted already
+    std::lock_guard<std::mutex> guard(m_lock);
+    m_snapshot = m_persisted = m_cps;
 }
 
 // format of cp: <leader>:<channel>:<check-point>
-- 
2.43.0


From df3a593cb9308c22bfad37c4003b5173a9978929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:35:27 +0000
Subject: [PATCH 44/66] fix: a crash while check-points were being persisted
 left a truncated file that replaced the good one

---
 src/core/cp.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 7f2c49e..7821d46 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -205,12 +205,13 @@ CheckPointManager::persist_to_file()
 
     Timestamp ts = ts_now_sec();
     std::string file_name = Config::get_data_dir() + "/" + std::to_string(ts) + ".cp";
-    int fd = ::open(file_name.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
+    std::string tmp_name = file_name + ".tmp";   // so that the file is never seen incomplete
+    int fd = ::open(tmp_name.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
 
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
     if (fd == -1)
     {
-        Logger::error("Failed to open file %s for write: %d", file_name.c_str(), errno);
+        Logger::error("Failed to open file %s for write: %d", tmp_name.c_str(), errno);
         return false;
     }
 
@@ -231,9 +232,15 @@ CheckPointManager::persist_to_file()
             fprintf(fp, "%s:%s:%s\n", leader, it2->first, it2->second.c_str());
     }
 
-    std::fflush(fp);
+    bool written = (std::fflush(fp) == 0);
     std::fclose(fp);
 
+    if (! written || (std::rename(tmp_name.c_str(), file_name.c_str()) != 0))
+    {
+        Logger::error("Failed to write file %s: %d", file_name.c_str(), errno);
+        return false;
+    }
+
     std::string pattern = Config::get_data_dir() + "/*.cp";
     rotate_files(pattern, 10);
     return true;
-- 
2.43.0


From 8a14cd6ac5b2ee83febf8865c774cd7093f38c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:14 +0000
Subject: [PATCH 45/66] fix: check-points were persisted before the data points
 they cover

Rotation persisted them while data points received before them were still
only in memory, to be lost by a crash. Write the append log first.
---
 include/append.h     |  3 +++
 src/core/tsdb.cpp    |  5 ++++-
 src/utils/append.cpp | 23 +++++++++++++++++++----
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/append.h b/include/append.h
index 5dd228e..92d87ff 100644
--- a/include/append.h
+++ b/include/append.h
@@ -43,6 +43,7 @@ public:
 
     // This will be called from Timer periodically to generate append log (WAL).
     static bool flush_all(TaskData& data);  // generate a new WAL to replace the existing one
+    static bool flush_now();    // returns true if WAL is up-to-date, or not enabled
     static void shutdown();     // called during normal shutdown
 
     static bool restore_needed();   // need to restore from WAL?
@@ -53,6 +54,8 @@ public:
     AppendLog& operator=(AppendLog const&) = delete;
 
 private:
+    static bool write_all();
+
     static bool m_enabled;
     static std::mutex m_lock;
 };
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 23cd25b..ca2f2bb 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -30,6 +30,7 @@
 #include <regex>
 #include <sstream>
 #include "admin.h"
+#include "append.h"
 #include "config.h"
 #include "cp.h"
 #include "limit.h"
@@ -3354,7 +3355,9 @@ Tsdb::rotate(TaskData& data)
         tsdb->dec_ref_count();
     }
 
-    CheckPointManager::persist();
+    // data points covered by the check-points need to be on disk first
+    if (AppendLog::flush_now())
+        CheckPointManager::persist();
     MetaFile::instance()->flush();
 
     if (Config::inst()->exists(CFG_TSDB_RETENTION_THRESHOLD))
diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index d83053b..bf4852f 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -57,9 +57,21 @@ AppendLog::init()
 bool
 AppendLog::flush_all(TaskData& data)
 {
-    if (g_shutdown_requested)
-        return false;
+    if (! g_shutdown_requested)
+        write_all();
+
+    return false;
+}
 
+bool
+AppendLog::flush_now()
+{
+    return !m_enabled || (!g_shutdown_requested && write_all());
+}
+
+bool
+AppendLog::write_all()
+{
     std::string append_dir = Config::get_wal_dir();
     std::string tmp_name = append_dir + "/append.tmp";
     std::string log_name = append_dir + "/append.log";
@@ -82,15 +94,18 @@ AppendLog::flush_all(TaskData& data)
         for (auto ts: tsv) ts->append(mapping->get_id(), file);
     }
 
-    fflush(file);
+    bool written = (fflush(file) == 0);
     fclose(file);
 
     // append.tmp => append.log
     if (std::rename(tmp_name.c_str(), log_name.c_str()) != 0)
+    {
         Logger::error("Failed to rename %s to %s", tmp_name.c_str(), log_name.c_str());
+        written = false;
+    }
 
     MetaFile::instance()->flush();
-    return false;
+    return written;
 }
 
 FILE *
-- 
2.43.0


From 9dd651631fc01d74d72820b2170f1c1dbda74c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:23 +0000
Subject: [PATCH 46/66] fix: check-points that did not fit into the buffer were
 written beyond its end

---
 src/core/cp.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 7821d46..7cd7668 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -135,7 +135,13 @@ CheckPointManager::get_persisted(const char *leader, char *buff, int size)
 
             int len;
             len = get_persisted_of(it->first, it->second, &buff[idx], size);
-            ASSERT(len < size);
+
+            if (len == 0)   // no room for this one
+            {
+                if (idx > 1) idx--;     // remove last comma
+                break;
+            }
+
             idx += len;
             size -= len;
             if (size <= 1) break;
@@ -163,14 +169,14 @@ CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff,
     int len = 0;
 
     len = snprintf(buff, size, "{\"leader\":\"%s\",\"channels\":[", leader);
+    if ((len + 3) > size) return 0;     // no room for the closing brackets
     size -= len;
-    ASSERT(size >= 0);
 
     for (auto it = map.begin(); it != map.end(); it++)
     {
-        if (size <= 1) break;
         int n = snprintf(&buff[len], size, "{\"channel\":\"%s\",\"checkpoint\":\"%s\"},",
             it->first, it->second.c_str());
+        if ((n + 3) > size) break;      // no room for this one
         len += n;
         size -= n;
     }
-- 
2.43.0


From 21919debe1755cd64a2a939b56b3f51714ca69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:59 +0000
Subject: [PATCH 47/66] fix: a task queue of size 1 could not hold any task, so
 that submitting one never returned

---
 include/queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/queue.h b/include/queue.h
index 01d6a95..4678bf5 100644
--- a/include/queue.h
+++ b/include/queue.h
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 #include <cstdint>
 #include <stdlib.h>
@@ -51,8 +52,8 @@ template <typename T, size_t cache_line_size = 64> class Queue11 : public Stoppa
 {
 public:
     explicit Queue11(size_t capacity) :
-        m_capacity(capacity), m_head(0), m_tail(0),
-        m_items(static_cast<T*>(aligned_alloc(cache_line_size, sizeof(T)*capacity)))
+        m_capacity(std::max(capacity, (size_t)2)), m_head(0), m_tail(0),    // one slot is never used
+        m_items(static_cast<T*>(aligned_alloc(cache_line_size, sizeof(T)*std::max(capacity, (size_t)2))))
     {
         ASSERT(m_items != NULL);
         ASSERT((((uint64_t)m_items) % cache_line_size) == 0);
-- 
2.43.0


From c5d732b9475e5fdd67bf8615d8a5b6404ce0d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:59 +0000
Subject: [PATCH 48/66] fix: a lock-free queue of size 1 overwrote the item it
 held

---
 include/queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/queue.h b/include/queue.h
index 4678bf5..13d88de 100644
--- a/include/queue.h
+++ b/include/queue.h
@@ -127,13 +127,13 @@ public:
 
     // allocation of memory block for m_items should be aligned to cache_line_size
     explicit Queue(size_t capacity) :
-        m_items(static_cast<Item*>(aligned_alloc(cache_line_size, sizeof(Item)*capacity))),
-        m_capacity(capacity), m_head(0), m_tail(0)
+        m_items(static_cast<Item*>(aligned_alloc(cache_line_size, sizeof(Item)*std::max(capacity, (size_t)2)))),
+        m_capacity(std::max(capacity, (size_t)2)), m_head(0), m_tail(0)     // versions of one slot can't tell full from free
     {
         ASSERT(m_items != NULL);
         ASSERT((((uint64_t)m_items) % cache_line_size) == 0);
 
-        for (size_t i = 0; i < capacity; ++i)
+        for (size_t i = 0; i < m_capacity; ++i)
         {
             m_items[i].version = i;
         }
-- 
2.43.0


From 938f760bfc1cf45b51bf03a434a83b380f07f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:59 +0000
Subject: [PATCH 49/66] fix: only one of several threads waiting for a count
 was released

---
 src/utils/sync.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/sync.cpp b/src/utils/sync.cpp
index dc25b06..af3245e 100644
--- a/src/utils/sync.cpp
+++ b/src/utils/sync.cpp
@@ -63,7 +63,7 @@ CountingSignal::count_down(unsigned int count)
     }
 
     if (notify)
-        m_cv.notify_one();
+        m_cv.notify_all();
 }
 
 void
-- 
2.43.0


From 4f4978434a55bb0c9c41fa214b6b093faf9669e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:05 +0000
Subject: [PATCH 50/66] fix: a query next to a page being written out missed
 that page

Pages on disk were read first, then those in memory, and a page that moved
from memory to disk in between was in neither. The lock of the time series
is now held while both are read.
---
 include/ts.h       | 3 ++-
 src/core/query.cpp | 7 +++++--
 src/core/ts.cpp    | 2 --
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/ts.h b/include/ts.h
index 6b383cf..b149b81 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -78,7 +78,8 @@ public:
     void get_keys(std::set<std::string>& keys) const { m_tags.get_keys(keys); }
     void get_values(std::set<std::string>& values) const { m_tags.get_values(values); }
 
-    bool query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data);
+    std::mutex& get_lock() { return m_locks[m_id % m_lock_count]; }
+    bool query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data);   // caller holds the lock
     void query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType rollup, bool ms);
 
     inline bool is_type(int type) const override
diff --git a/src/core/query.cpp b/src/core/query.cpp
index f473502..0278e43 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1109,10 +1109,13 @@ QuerySuperTask::query_raw(Tsdb *tsdb, const TimeRange& range, std::vector<QueryT
     ASSERT(tsdb != nullptr);
     if (tasks.empty()) return;
 
-    tsdb->query_for_data(m_metric_id, range, tasks, m_compact);
-
     for (QueryTask *task : tasks)
     {
+        // no page may move from memory to disk after we are done with
+        // the pages on disk, and before we get to those in memory
+        std::vector<QueryTask*> single(1, task);
+        std::lock_guard<std::mutex> guard(task->m_ts->get_lock());
+        tsdb->query_for_data(m_metric_id, range, single, m_compact);
         task->query_ts_data(tsdb, range);
         task->merge_data(range);
         task->set_tstamp_from(0);
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index ba283e3..c7d5903 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -441,8 +441,6 @@ bool
 TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data)
 {
     bool has_ooo = false;
-    //std::lock_guard<std::mutex> guard(m_lock);
-    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
     if ((m_buff != nullptr) && (! m_buff->is_empty()) && (m_buff->get_tsdb() == tsdb))
     {
-- 
2.43.0


From 35a633dda1cb47d130f47bac5365f325ebf86e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:21 +0000
Subject: [PATCH 51/66] fix: idle header and index files were kept open at
 random

The time of last access was not initialized, so rotation could take a restored
header or index file, and with it the whole day, for one in use.
---
 src/core/mmap.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 7c9001b..a9ac094 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -350,7 +350,8 @@ MmapFile::is_open(bool for_read) const
 
 
 IndexFile::IndexFile(const std::string& file_name) :
-    MmapFile(file_name)
+    MmapFile(file_name),
+    m_last_access(0)
 {
 }
 
@@ -653,7 +654,8 @@ IndexFile::set_out_of_order2(TimeSeriesId id, bool ooo)
 HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount page_count, PageSize page_size) :
     MmapFile(file_name),
     m_id(id),
-    m_page_count(page_count)
+    m_page_count(page_count),
+    m_last_access(0)
 {
     ASSERT(page_count > 0);
     ASSERT(page_size > 0);
@@ -673,7 +675,8 @@ HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount pag
 HeaderFile::HeaderFile(FileIndex id, const std::string& file_name) :
     MmapFile(file_name),
     m_id(id),
-    m_page_count(g_page_count)
+    m_page_count(g_page_count),
+    m_last_access(0)
 {
     ASSERT(file_exists(file_name));
 }
-- 
2.43.0


From bdd0eb3aa21c927baa8d110b5f80ae32b5bfb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:08 +0000
Subject: [PATCH 52/66] fix: an hour written out during a query was missed or
 counted twice

A downsampled query answered from rollups read the rollup files first and
the hour still in memory afterwards, without any lock.
---
 include/query.h    |  2 +-
 include/ts.h       |  2 +-
 src/agg/rollup.cpp |  2 +-
 src/core/query.cpp | 29 +++++++++++++++++++++++------
 src/core/ts.cpp    | 29 +++++++++++------------------
 5 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/include/query.h b/include/query.h
index b76eda0..20051b4 100644
--- a/include/query.h
+++ b/include/query.h
@@ -186,7 +186,7 @@ class QueryTask : public Recyclable
 public:
     QueryTask();
     void query_ts_data(Tsdb *tsdb, const TimeRange& range);
-    void query_ts_data(const TimeRange& range, RollupType rollup_type, bool ms);
+    void add_rollup(const TimeRange& range, struct rollup_entry_ext& entry, RollupType rollup);
     void merge_data(const TimeRange& range);
     void fill();
     void convert_to_ms();
diff --git a/include/ts.h b/include/ts.h
index b149b81..d101044 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -80,7 +80,7 @@ public:
 
     std::mutex& get_lock() { return m_locks[m_id % m_lock_count]; }
     bool query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data);   // caller holds the lock
-    void query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType rollup, bool ms);
+    bool get_rollup(struct rollup_entry_ext& entry);
 
     inline bool is_type(int type) const override
     { return TT_TYPE_TIME_SERIES == type; }
diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index f195988..59f199d 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -461,7 +461,7 @@ RollupManager::get_or_create_data_file(MetricId mid, Timestamp tstamp, std::unor
         data_file = search->second;
 
     ASSERT(data_file != nullptr);
-    data_file->inc_ref_count_no_lock();
+    data_file->inc_ref_count();
 
     return data_file;
 }
diff --git a/src/core/query.cpp b/src/core/query.cpp
index 0278e43..5249533 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -624,14 +624,20 @@ QueryTask::query_ts_data(Tsdb *tsdb, const TimeRange& range)
         m_has_ooo = true;
 }
 
+// add rolled-up data of the hour that was still in memory before rollup files were queried
 void
-QueryTask::query_ts_data(const TimeRange& range, RollupType rollup, bool ms)
+QueryTask::add_rollup(const TimeRange& range, struct rollup_entry_ext& entry, RollupType rollup)
 {
     ASSERT(rollup != RollupType::RU_NONE);
-    ASSERT(m_ts != nullptr);
 
     m_has_ooo = false;
-    m_ts->query_for_rollup(range, this, rollup, ms);
+
+    // written out in the meantime?
+    if ((m_last_tstamp != TT_INVALID_TIMESTAMP) && (entry.tstamp <= to_sec(m_last_tstamp)))
+        return;
+
+    if (range.in_range(validate_resolution(entry.tstamp)) == 0)
+        add_data_point(&entry, rollup);
 }
 
 void
@@ -1137,8 +1143,22 @@ QuerySuperTask::query_rollup_hourly(const TimeRange& range, const std::vector<Ts
     std::vector<QueryTask*> tasks_for_raw;
     std::unordered_set<QueryTask*> taskset;
 
+    // The current hour may be written out any time. Look at it first, so that
+    // it won't be missed.
+    std::unordered_map<QueryTask*,struct rollup_entry_ext> current;
+
+    for (auto task: tasks)
+    {
+        struct rollup_entry_ext entry;
+        if (task->m_ts->get_rollup(entry))
+            current.emplace(task, entry);
+    }
+
     RollupManager::query(m_metric_id, range, tasks, rollup);
 
+    for (auto& it: current)
+        it.first->add_rollup(range, it.second, rollup);
+
     // for those with invalid rollup, we'll query raw instead
     for (auto tsdb: tsdbs)
     {
@@ -1173,9 +1193,6 @@ QuerySuperTask::query_rollup_hourly(const TimeRange& range, const std::vector<Ts
         }
         tasks_for_raw.clear();
     }
-
-    for (auto task: tasks)
-        task->query_ts_data(range, rollup, m_ms);
 }
 
 void
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index c7d5903..a04f913 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -492,27 +492,20 @@ TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataP
     return has_ooo;
 }
 
-void
-TimeSeries::query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType rollup, bool ms)
+/* Retrieve rollup data of the current hour, not in any rollup file yet.
+ *
+ * @return false if there is none;
+ */
+bool
+TimeSeries::get_rollup(struct rollup_entry_ext& entry)
 {
-    ASSERT(rollup != RollupType::RU_NONE);
-
-    Timestamp ts = m_rollup.get_tstamp();   // in seconds
-
-    if (is_ms(range.get_from()))
-        ts *= 1000;
+    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
-    if (range.in_range(ts) == 0)
-    {
-        struct rollup_entry_ext entry;
+    if (! m_rollup.get(entry))
+        return false;
 
-        if (m_rollup.get(entry))
-        {
-            if (ms) entry.tstamp *= 1000;
-            entry.tid = m_id;
-            qt->add_data_point(&entry, rollup);
-        }
-    }
+    entry.tid = m_id;
+    return true;
 }
 
 void
-- 
2.43.0


From e8dca5486a26de20b180d6d78aa5836c82b8562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:16 +0000
Subject: [PATCH 53/66] fix: a late point made the current hour disappear from
 rollups

The hour being collected was dropped, whatever day the late point was of.
---
 src/agg/rollup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index 59f199d..14ce83d 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -236,9 +236,9 @@ RollupManager::add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPo
     }
     else if (tstamp1 < m_tstamp)
     {
-        // out-of-order!!!
+        // out-of-order!!! raw data will be used for that day; what we have in
+        // buffer could be of another day, in which case it's still good
         tsdb->set_out_of_order2(tid, true);
-        m_cnt = 0;  // invalidate any data currently in buffer
         return;
     }
 
-- 
2.43.0


From 50bc4002e92e601123d29351d6d407c891eff64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:35 +0000
Subject: [PATCH 54/66] fix: raw data of one day replaced the first hour of the
 next day's rollup

---
 src/core/query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 5249533..546a92a 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -711,7 +711,7 @@ QueryTask::remove_dps(const TimeRange& range)
     {
         Timestamp ts = validate_resolution(it->first);
 
-        if (range.in_range(ts) == 0)
+        if (range.in_range_strictly(ts) == 0)
             it = m_dps.erase(it);
         else
             it++;
-- 
2.43.0


From f598479eacbe60066ed6d6dacdc528a664cc287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:12:45 +0000
Subject: [PATCH 55/66] fix: downsampled answers were wrong where their
 interval spans days answered from different sources

With part of a query answered from daily rollups, part from hourly ones and
part from raw data, intervals cut by the borders in between lost data; and
months following a gap were attributed to wrong hours.
---
 include/down.h     |   1 +
 include/query.h    |   2 +
 src/core/mmap.cpp  |   3 +-
 src/core/query.cpp | 140 ++++++++++++++++++++++++---------------------
 4 files changed, 79 insertions(+), 67 deletions(-)

diff --git a/include/down.h b/include/down.h
index ecb2fde..080b847 100644
--- a/include/down.h
+++ b/include/down.h
@@ -61,6 +61,7 @@ public:
         return true;
     }
 
+    inline bool is_all() const { return m_all; }
     inline Timestamp get_interval() const
     {
         return m_interval;
diff --git a/include/query.h b/include/query.h
index 20051b4..8ae0393 100644
--- a/include/query.h
+++ b/include/query.h
@@ -336,6 +336,8 @@ private:
     void query_rollup_hourly(const TimeRange& range, const std::vector<Tsdb*>& tsdbs, RollupType rollup);
     void query_rollup_hourly(const TimeRange& range, const std::vector<Tsdb*>& tsdbs, const std::vector<QueryTask*>& tasks, RollupType rollup);
     void query_rollup_daily(RollupType rollup);
+    bool whole_intervals(TimeRange& range, const TimeRange& limit) const;
+    void merge_child(QueryTask *child);
 
     bool m_ms;
     bool m_compact;
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index a9ac094..3def616 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1651,8 +1651,9 @@ RollupDataFile::query_entry(const TimeRange& range, struct rollup_entry *entry,
         QueryTask *task = search->second;
         Timestamp ts;
 
-        if (task->get_last_tstamp() == TT_INVALID_TIMESTAMP)
+        if ((task->get_last_tstamp() == TT_INVALID_TIMESTAMP) || (task->get_last_tstamp() < m_begin))
         {
+            // first one in this file
             ts = m_begin;
             task->set_last_tstamp(ts = m_begin);    // in seconds
         }
diff --git a/src/core/query.cpp b/src/core/query.cpp
index 546a92a..14e619a 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -711,7 +711,7 @@ QueryTask::remove_dps(const TimeRange& range)
     {
         Timestamp ts = validate_resolution(it->first);
 
-        if (range.in_range_strictly(ts) == 0)
+        if (range.in_range(ts) == 0)
             it = m_dps.erase(it);
         else
             it++;
@@ -1024,7 +1024,11 @@ QuerySuperTask::create_task(QueryTask *parent, TimeSeries *ts, const TimeRange&
         if (task->m_downsampler == nullptr)
             task->m_time_range = range;
         else
+        {
+            if (parent != nullptr)  // the interval may have been rounded
+                task->m_downsampler->set_interval(parent->m_downsampler->get_interval());
             task->m_time_range = task->m_downsampler->get_expanded_range();
+        }
     }
 
     return task;
@@ -1140,8 +1144,6 @@ QuerySuperTask::query_rollup_hourly(const TimeRange& range, const std::vector<Ts
     ASSERT(rollup != RollupType::RU_NONE);
 
     set_rollup_level(rollup, false);    // convert to level1 rollup
-    std::vector<QueryTask*> tasks_for_raw;
-    std::unordered_set<QueryTask*> taskset;
 
     // The current hour may be written out any time. Look at it first, so that
     // it won't be missed.
@@ -1160,39 +1162,73 @@ QuerySuperTask::query_rollup_hourly(const TimeRange& range, const std::vector<Ts
         it.first->add_rollup(range, it.second, rollup);
 
     // for those with invalid rollup, we'll query raw instead
-    for (auto tsdb: tsdbs)
+    for (auto task: tasks)
     {
-        if (tsdb->can_use_rollup(false))
-            continue;
+        TimeRange raw(TimeRange::MIN);
 
-        for (QueryTask *task : tasks)
+        for (auto tsdb: tsdbs)
         {
-            if (! tsdb->can_use_rollup(task->get_ts_id()))
-            {
-                if (taskset.find(task) == taskset.end())
-                {
-                    taskset.insert(task);
-                    tasks_for_raw.push_back(create_task(task, task->m_ts, tsdb->get_time_range()));
-                    task->remove_dps(tsdb->get_time_range());
-                }
-            }
+            if (! tsdb->can_use_rollup(false) && ! tsdb->can_use_rollup(task->get_ts_id()))
+                raw.merge(tsdb->get_time_range());
         }
 
-        if (! tasks_for_raw.empty())
-            query_raw(tsdb, tsdb->get_time_range(), tasks_for_raw);
+        if (! whole_intervals(raw, range))
+            continue;
 
-        // cleanup
-        taskset.clear();
-        for (auto task: tasks_for_raw)
+        QueryTask *child = create_task(task, task->m_ts, raw);
+        std::vector<QueryTask*> children(1, child);
+
+        task->remove_dps(raw);
+
+        for (auto tsdb: tsdbs)
         {
-            for (auto dp: task->m_dps)
-                task->m_parent->m_dps.push_back(dp);
-            if (task->m_downsampler != nullptr)
-                task->m_downsampler->add_last_point(task->m_parent->m_dps);
-            MemoryManager::free_recyclable(task);
+            if (tsdb->in_range(raw))
+                query_raw(tsdb, raw, children);
         }
-        tasks_for_raw.clear();
+
+        merge_child(child);
+    }
+}
+
+/* Turn 'range', which is made of Tsdbs' ranges, into one (both ends inclusive)
+ * that does not cut any downsampling interval, within 'limit'.
+ *
+ * @return false if the result is empty;
+ */
+bool
+QuerySuperTask::whole_intervals(TimeRange& range, const TimeRange& limit) const
+{
+    if (range.get_to() <= range.get_from())
+        return false;
+
+    Downsampler *downsampler = m_tasks.front()->get_downsampler();
+
+    if ((downsampler == nullptr) || downsampler->is_all())
+    {
+        if (! range.has_intersection(limit)) return false;
+        range = limit;
+    }
+    else
+    {
+        Timestamp interval = downsampler->get_interval();
+        Timestamp to = range.get_to() + interval - 1;
+
+        range.set_from(range.get_from() - (range.get_from() % interval));
+        range.set_to(to - (to % interval) - 1);
+        range.intersect(limit);
     }
+
+    return (range.get_from() <= range.get_to());
+}
+
+void
+QuerySuperTask::merge_child(QueryTask *child)
+{
+    for (auto dp: child->m_dps)
+        child->m_parent->m_dps.push_back(dp);
+    if (child->m_downsampler != nullptr)
+        child->m_downsampler->add_last_point(child->m_parent->m_dps);
+    MemoryManager::free_recyclable(child);
 }
 
 void
@@ -1203,70 +1239,42 @@ QuerySuperTask::query_rollup_daily(RollupType rollup)
 
     RollupManager::query(m_metric_id, m_time_range, m_tasks, rollup);
 
-    std::vector<Tsdb*> tsdbs;
+    TimeRange range(TimeRange::MIN);
     std::unordered_set<QueryTask*> taskset;
 
-    // for those with invalid rollup data, we'll query raw instead
+    // for those with invalid rollup data, we'll query hourly (or raw) instead
     for (auto tsdb: m_tsdbs)
     {
         if (tsdb->can_use_rollup(true))
             continue;
 
-        if (! tsdb->has_daily_rollup())
-        {
-            tsdbs.push_back(tsdb);
-            for (auto task: m_tasks)
-                taskset.insert(task);
-        }
-
-        bool found = false;
+        bool rolled_up = tsdb->has_daily_rollup();
 
         for (auto task: m_tasks)
         {
-            if (! tsdb->can_use_rollup(task->get_ts_id()))
+            if (! rolled_up || ! tsdb->can_use_rollup(task->get_ts_id()))
             {
-                found = true;
+                range.merge(tsdb->get_time_range());
                 taskset.insert(task);
             }
         }
-
-        if (found)
-            tsdbs.push_back(tsdb);
     }
 
-    if (! tsdbs.empty())
+    if (whole_intervals(range, m_time_range))
     {
-        ASSERT(! taskset.empty());
-        TimeRange range(TimeRange::MIN);
-
-        for (auto tsdb: tsdbs)
-            range.merge(tsdb->get_time_range());
-        range.intersect(m_time_range);
-
-        // need to temporarily update the downsamplers in QueryTasks
-        // to reflect the new 'range' before calling query_rollup_hourly()
-        for (auto task: m_tasks)
-        {
-            task->remove_dps(range);
-            task->set_last_tstamp(TT_INVALID_TIMESTAMP);
-        }
-
         std::vector<QueryTask*> tasks;
 
         for (auto task: taskset)
+        {
+            task->remove_dps(range);
             tasks.push_back(create_task(task, task->m_ts, range));
+        }
 
         ASSERT(rollup != RollupType::RU_NONE);
-        query_rollup_hourly(range, tsdbs, tasks, rollup);
+        query_rollup_hourly(range, m_tsdbs, tasks, rollup);
 
         for (auto task: tasks)
-        {
-            for (auto dp: task->m_dps)
-                task->m_parent->m_dps.push_back(dp);
-            if (task->m_downsampler != nullptr)
-                task->m_downsampler->add_last_point(task->m_parent->m_dps);
-            MemoryManager::free_recyclable(task);
-        }
+            merge_child(task);
     }
 }
 
-- 
2.43.0


From b684d164d66fdf0f647f9034082bba858cc56d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:05 +0000
Subject: [PATCH 56/66] fix: the last hours of a month were missing from its
 rollup

The hour still in memory, and those in the buffer of a rollup file not open,
were left out when a month was rolled up.
---
 include/rollup.h   |  1 +
 include/ts.h       |  1 +
 src/agg/rollup.cpp | 27 ++++++++++++++++++++++++++-
 src/core/mmap.cpp  |  2 ++
 src/core/ts.cpp    |  7 +++++++
 src/core/tsdb.cpp  | 13 +++++++++++++
 6 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/include/rollup.h b/include/rollup.h
index 7011bb7..602f3ce 100644
--- a/include/rollup.h
+++ b/include/rollup.h
@@ -58,6 +58,7 @@ public:
     void add_data_point(Tsdb *tsdb, MetricId mid, TimeSeriesId tid, DataPoint& dp);
     void flush(MetricId mid, TimeSeriesId tid);
     void close(TimeSeriesId tid);   // called during TT shutdown
+    void finish_month(MetricId mid, TimeSeriesId tid, Timestamp from, Timestamp to);
 
     inline Timestamp get_tstamp() const { return m_tstamp; }
 
diff --git a/include/ts.h b/include/ts.h
index d101044..c99b642 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -54,6 +54,7 @@ public:
     void init(TimeSeriesId id, const char *metric, const char *key, Tag *tags);
     void restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset, uint8_t start, uint8_t *buff, int size, bool is_ooo, FileIndex file_idx, HeaderIndex header_idx);
     void restore_rollup_mgr(const struct rollup_entry_ext& mgr);
+    void finish_rollup(MetricId mid, Timestamp from, Timestamp to);
 
     inline TimeSeriesId get_id() const { return m_id; }
     static inline TimeSeriesId get_next_id() { return m_next_id.load(std::memory_order_relaxed); }
diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index 14ce83d..dfffc06 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -266,7 +266,10 @@ RollupManager::flush(MetricId mid, TimeSeriesId tid)
 
     ASSERT(m_data_file != nullptr);
     ASSERT(m_data_file->get_begin_timestamp() == begin_month(m_tstamp));
-    m_data_file->add_data_point(tid, m_cnt, m_min, m_max, m_sum);
+
+    // can't add to a file that has been re-compressed
+    if (m_data_file->get_compressor_version() < 3)
+        m_data_file->add_data_point(tid, m_cnt, m_min, m_max, m_sum);
 
     // reset
     m_cnt = 0;
@@ -275,6 +278,28 @@ RollupManager::flush(MetricId mid, TimeSeriesId tid)
     m_sum = 0.0;
 }
 
+/* Called before the rollup file of a month is re-compressed, after which
+ * nothing can be added to it.
+ *
+ * @param from beginning of the month, in seconds
+ * @param to end of the month (exclusive), in seconds
+ */
+void
+RollupManager::finish_month(MetricId mid, TimeSeriesId tid, Timestamp from, Timestamp to)
+{
+    if ((m_tstamp != TT_INVALID_TIMESTAMP) && (from <= m_tstamp) && (m_tstamp < to))
+    {
+        if (m_cnt != 0) flush(mid, tid);
+        m_tstamp = to;
+    }
+
+    if ((m_data_file != nullptr) && (m_data_file->get_begin_timestamp() == from))
+    {
+        m_data_file->dec_ref_count();
+        m_data_file = nullptr;
+    }
+}
+
 void
 RollupManager::close(TimeSeriesId tid)
 {
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 3def616..dbc86e7 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -2028,6 +2028,8 @@ RollupDataFile::query_for_level2_rollup(std::unordered_map<TimeSeriesId,std::vec
     struct rollup_entry_ext ext;
     std::lock_guard<std::mutex> guard(m_lock);
 
+    // write the m_buff[] out
+    ensure_open(false);
     flush();
 
     for (struct rollup_entry *entry = first_entry(cursor); entry != nullptr; entry = next_entry(cursor))
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index a04f913..377dae4 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -537,5 +537,12 @@ TimeSeries::restore_rollup_mgr(const struct rollup_entry_ext& entry)
     m_rollup.copy_from(entry);
 }
 
+void
+TimeSeries::finish_rollup(MetricId mid, Timestamp from, Timestamp to)
+{
+    std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
+    m_rollup.finish_month(mid, m_id, from, to);
+}
+
 
 }
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index ca2f2bb..cb99ec4 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3777,6 +3777,19 @@ Tsdb::rollup(TaskData& data)
         bool recompress_success = true;
         std::vector<RollupDataFile*> data_files_level1;
 
+        // what's still in memory belongs to the files, too
+        {
+            std::lock_guard<std::mutex> guard(g_metric_lock);
+
+            for (auto it = g_metric_map.begin(); it != g_metric_map.end(); it++)
+            {
+                Mapping *mapping = it->second;
+
+                for (TimeSeries *ts = mapping->get_ts_head(); ts != nullptr; ts = ts->m_next)
+                    ts->finish_rollup(mapping->get_id(), month_range.get_from(), month_range.get_to());
+            }
+        }
+
         for (int bucket = 0; bucket < bucket_count; bucket++)
         {
             RollupDataFile *data_file_level1 =
-- 
2.43.0


From d13186e72c95c8ab2742e08d00e768874280e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:05 +0000
Subject: [PATCH 57/66] fix: rollup of a month marked the first day of the next
 one as rolled up

---
 src/core/tsdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index cb99ec4..5f199b5 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3737,7 +3737,7 @@ Tsdb::rollup(TaskData& data)
         if ((end <= begin_month(now_sec)) && (threshold < (now_sec - end)))
         {
             // get all the Tsdbs in this month
-            TimeRange range(validate_resolution(begin), validate_resolution(end));
+            TimeRange range(validate_resolution(begin), validate_resolution(end) - 1);
             Tsdb::insts(range, tsdbs);
 
             // make sure none of the Tsdbs are in use
-- 
2.43.0


From 9db2e09ab692d1892cad8bd670ac95941e6d9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:34 +0000
Subject: [PATCH 58/66] fix: a month rolled up twice got its rollup files
 damaged

Data of a new day in a month already rolled up made the month be rolled up
again; and a failed rollup kept its days referenced forever.
---
 src/core/tsdb.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 5f199b5..a93ce28 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3775,6 +3775,7 @@ Tsdb::rollup(TaskData& data)
         int pause = interactive ? 0 :
             Config::inst()->get_time(CFG_TSDB_ROLLUP_PAUSE,TimeUnit::SEC,CFG_TSDB_ROLLUP_PAUSE_DEF);
         bool recompress_success = true;
+        bool already_done = false;
         std::vector<RollupDataFile*> data_files_level1;
 
         // what's still in memory belongs to the files, too
@@ -3798,6 +3799,14 @@ Tsdb::rollup(TaskData& data)
             if (data_file_level1 == nullptr)
                 continue;
 
+            if (3 <= data_file_level1->get_compressor_version())
+            {
+                // rolled up before; what was written since then is marked out-of-order
+                already_done = true;
+                data_file_level1->dec_ref_count();
+                continue;
+            }
+
             std::unordered_map<TimeSeriesId,std::vector<struct rollup_entry_ext>> data;
             data_file_level1->query_for_level2_rollup(data);
             recompress_success = recompress_success && data_file_level1->recompress(data);
@@ -3817,7 +3826,8 @@ Tsdb::rollup(TaskData& data)
         if (recompress_success)
         {
             // switch to newly compressed rollup files
-            recompress_success = RollupManager::swap_recompressed_files(data_files_level1);
+            recompress_success = RollupManager::swap_recompressed_files(data_files_level1) ||
+                (data_files_level1.empty() && already_done);
         }
 
         if (recompress_success)
@@ -3836,7 +3846,11 @@ Tsdb::rollup(TaskData& data)
             Logger::info("[rollup] rolled up %d Tsdbs.", data.integer);
         }
         else
+        {
+            for (auto tsdb: tsdbs)
+                tsdb->dec_ref_count();
             Logger::warn("[rollup] rollup failed.");
+        }
     }
     else
     {
-- 
2.43.0


From 75c4816787fbb892117cf4d4e2dc1f8a35fa0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:32:34 +0000
Subject: [PATCH 59/66] fix: end of the range reached by one series hid the
 other series' latest rollups

---
 src/core/mmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index dbc86e7..fdf1d76 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1804,7 +1804,7 @@ RollupDataFile::query_level1_compressor_v1_v2(const TimeRange& range, std::unord
             len = RollupCompressor_v1::uncompress2((uint8_t*)(m_buff+i), m_index-i, &entry, m_compressor_precision);
         }
         if (len <= 0) break;
-        if (query_entry(range, &entry, map, rollup) > 0) break;
+        query_entry(range, &entry, map, rollup);    // past the range for one is not past it for all
     }
 }
 
-- 
2.43.0


From c99363299e729933aa673f62b40800d392709d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:55:15 +0000
Subject: [PATCH 60/66] fix: retention deleted a day still in use

A day was deleted while a query or a series in memory referred to it, and its
files were removed after somebody else could create the same day again.
---
 src/core/tsdb.cpp | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index a93ce28..e4e2e46 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2264,6 +2264,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
     {
         PThread_ReadLock guard(&m_tsdb_lock);
         tsdb = Tsdb::search(tstamp);
+        if (tsdb != nullptr)
+            tsdb->inc_ref_count();
     }
 
     if ((tsdb == nullptr) && create)
@@ -2278,10 +2280,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
             Logger::info("Created %T, tstamp = %" PRIu64, tsdb, tstamp);
             ASSERT(Tsdb::search(tstamp) == tsdb);
         }
-    }
-
-    if (tsdb != nullptr)
         tsdb->inc_ref_count();
+    }
 
     return tsdb;
 }
@@ -3407,43 +3407,36 @@ Tsdb::validate(Tsdb *tsdb)
 void
 Tsdb::purge_oldest(Timestamp threshold_in_days)
 {
-    Tsdb *tsdb = nullptr;
-
-    {
-        PThread_WriteLock guard(&m_tsdb_lock);
+    // hold the lock until the files are gone, so that nobody can start to
+    // use them, or to create the same Tsdb again, in the meantime
+    PThread_WriteLock guard(&m_tsdb_lock);
 
-        if (m_tsdbs.size() <= threshold_in_days) return;
+    if (m_tsdbs.empty() || (m_tsdbs.size() <= threshold_in_days)) return;
 
-        if (! m_tsdbs.empty())
-        {
-            tsdb = m_tsdbs.front();
+    Tsdb *tsdb = m_tsdbs.front();
 
-            if (tsdb->is_archived())
-                m_tsdbs.erase(m_tsdbs.begin());
-            else
-            {
-                Logger::info("[rotate] Tsdb %T not archived yet. Purging postponed.", tsdb);
-                tsdb = nullptr;
-            }
-        }
+    if (! tsdb->is_archived() || (tsdb->m_ref_count > 0))
+    {
+        Logger::info("[rotate] Tsdb %T not archived yet. Purging postponed.", tsdb);
+        return;
     }
 
-    if (tsdb != nullptr)
-    {
-        Logger::info("[rotate] Purging %T permenantly", tsdb);
+    Logger::info("[rotate] Purging %T permenantly", tsdb);
+    m_tsdbs.erase(m_tsdbs.begin());
 
+    {
         std::lock_guard<std::mutex> guard(tsdb->m_lock);
         //WriteLock guard(tsdb->m_lock);
 
         tsdb->flush(true);
         tsdb->unload_no_lock();
+    }
 
-        // purge files on disk
-        std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
-        rm_dir2(tsdb_dir);
+    // purge files on disk
+    std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
+    rm_dir2(tsdb_dir);
 
-        delete tsdb;
-    }
+    delete tsdb;
 }
 
 bool
-- 
2.43.0


From fef21aabd9e093b441c03df7ef23f71a1f4fecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:52:47 +0000
Subject: [PATCH 61/66] fix: late point of an archived series left its day
 referenced for good

---
 src/core/ts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 377dae4..c93ea9e 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -305,6 +305,8 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
             update_rollup = true;
             m_buff = new PageInMemory(mid, m_id, tsdb, false);
         }
+        else
+            tsdb->dec_ref_count();
     }
     else if ((in_range = m_buff->in_range_strictly(tstamp)) != 0)
     {
-- 
2.43.0


From 9e934c595eb78b7237e89e52c712bc83dde6374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:04 +0000
Subject: [PATCH 62/66] fix: characters special in regular expressions were not
 taken literally in wildcard filters

---
 src/utils/tag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index fb15af5..449b22f 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -803,10 +803,11 @@ TagMatcher::replace_stars(char *dst, const char *src)
 
     for (i = 0, j = 0; src[j] != 0; i++, j++)
     {
-        if (src[j] == '.')      // escape '.'
+        // escape whatever is special in a regular expression
+        if (std::strchr(".+?^$[]{}\\", src[j]) != nullptr)
         {
             dst[i++] = '\\';
-            dst[i] = '.';
+            dst[i] = src[j];
         }
         else if (src[j] == '*') // replace '*' with '.*'
         {
-- 
2.43.0


From 5560de8922182a018d32f3071df4d947459ac072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:38:59 +0000
Subject: [PATCH 63/66] fix: points of a new field given by _field raced on the
 list of fields

---
 src/core/tsdb.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index e4e2e46..b40a0a6 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -500,10 +500,7 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     ASSERT(mm != nullptr);
 
     if (mm != nullptr)
-        ts = mm->get_ts(0, field->m_value);
-
-    if (ts == nullptr)
-        ts = mm->add_ts(field->m_value, this);
+        ts = mm->get_or_add_ts(0, field->m_value, this);
 
     return ts;
 }
-- 
2.43.0


From da374da760721e1c6a344e8607d4938528bb1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:28 +0000
Subject: [PATCH 64/66] fix: query by tags read the fields of a measurement
 while they were being added

---
 src/core/tsdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index b40a0a6..4afd313 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -285,6 +285,7 @@ Measurement::get_ts(std::vector<DataPoint>& dps, std::vector<TimeSeries*>& tsv)
 void
 Measurement::get_all_ts(std::vector<TimeSeries*>& tsv)
 {
+    std::lock_guard<std::mutex> guard(m_lock);
     tsv.reserve(m_ts_count);
     for (int i = 0; i < m_ts_count; i++)
         tsv.push_back((TimeSeries*)m_time_series[i]);
-- 
2.43.0


From 9ee7b0a463dacf90e6a7a730f6d0189303b9b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:42:39 +0000
Subject: [PATCH 65/66] fix: connection closed twice could close somebody
 else's descriptor

When a worker asks to close a connection and the client goes away at the
same time, the listener closes the descriptor twice. Between the two, the
number may have been given to another connection or file.
---
 src/core/tcp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index d919b93..c41394d 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1429,6 +1429,8 @@ TcpListener::close_conn(int fd)
         else
             pending_task = true;
     }
+    else
+        return;     // already closed; fd may belong to someone else by now
 
     if (deregister) deregister_with_epoll(fd);
     if (! pending_task) close(fd);
-- 
2.43.0


From 9edd73fe0509697f795fef8008cf97f92acd9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:42:39 +0000
Subject: [PATCH 66/66] fix: crash when a client leaves while its data is being
 resubmitted

The listener used the connection without checking that it still exists.
---
 src/core/tcp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index c41394d..7824643 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1301,6 +1301,7 @@ TcpListener::resubmit(char c, int fd)
     }
 
     TcpConnection *conn = get_conn(fd);
+    if (conn == nullptr) return;    // closed in the meantime
     task.data.pointer = conn;
 
     if (1 == ++conn->pending_tasks)
-- 
2.43.0

