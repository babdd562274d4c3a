// C09: aggregation groups series by tags and combines points by timestamp.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "tags: every set of up to 4 series over the tag combinations {h in -,1,2} x {d in -,1,2} x aggregator x grouping/non-grouping filter set x downsample x request form; "
    "times: every assignment of a subset of 4 timestamps (two days) to each of 3 series x aggregator; multi: requests with two subqueries; page: series of several pages. "
    "Non-trivial = at least two series selected";

static const std::vector<std::string> AGGS = {"avg", "count", "dev", "max", "min", "sum", "p50", "p90", "p999", "p10", "top1", "top2", "top3", "bottom1", "bottom2", "bottom5", "none"};

struct FS { const char *name; std::vector<MFilter> f; bool get_only; };
static const std::vector<FS> FILTERS = {
    {"all", {}, false},
    {"h=*", {{"h", "*"}}, false},
    {"d=*", {{"d", "*"}}, false},
    {"h=*,d=*", {{"h", "*"}, {"d", "*"}}, false},
    {"h=1", {{"h", "1"}}, false},
    {"h=1|2", {{"h", "1|2"}}, false},
    {"d=2,h=*", {{"d", "2"}, {"h", "*"}}, false},
    {"{h=*}", {{"h", "*", false}}, true},
    {"h=*{d=*}", {{"h", "*"}, {"d", "*", false}}, true},
    {"d=*{h=1}", {{"d", "*"}, {"h", "1", false}}, true},
    {"{d=*,h=*}", {{"d", "*", false}, {"h", "*", false}}, true},
};

static double value_of(size_t s, size_t k) { static const double v[] = {1.5, -2, 7.25, 3, 0.5, 1000.125, -3.5, 12, 8, 5.75, 6, 9, -11, 2.25, 4, 10}; return v[(s * 5 + k * 3 + (s * k) % 4) % 16] + s * 0.0625; }

static void write_all(const std::vector<MSeries> &db, int order)
{
    // point by point over all series, or series by series
    std::string body;
    auto flush = [&](bool force) { if (body.size() > 400000 || (force && !body.empty())) { put_plain(body); body.clear(); } };
    for (auto &s : db)
    {
        std::vector<std::pair<u64, double>> p(s.pts.begin(), s.pts.end());
        if (order == 1) std::reverse(p.begin(), p.end());
        for (auto &x : p) { body += put_line_of(s.metric, s.tags, x.first, x.second); flush(false); }
    }
    flush(true);
}

static void run_q(Ctx &c, const MQuery &q, const std::vector<MSeries> &db, bool ms, int form, const std::string &sig)
{
    c.at(sig);
    std::string out, d = q_check(q, db, ms, form, &out);
    c.eval();
    c.transitions++;
    c.outcome(out);
    if (!d.empty()) c.violation(sig, d);
    c.sample(form ? "GET " + q_get(q) : "POST " + q_post(q));
}

static void tags_family(Ctx &c, bool ms, int part, int parts)
{
    Cfg cfg{part % 2 ? 4 : 1, 128, ms};
    u64 u = ms ? 1000 : 1, b = T(BASE + 5 * 3600, ms);
    set_clock_ms((BASE + 6 * 3600) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    std::vector<std::vector<MSeries>> ms_of;
    std::vector<Tags> combos;
    for (int h = 0; h < 3; h++) for (int d = 0; d < 3; d++)
    {
        Tags t;
        if (h) t["h"] = fmt("%d", h);
        if (d) t["d"] = fmt("%d", d);
        combos.push_back(t);
    }
    int id = 0;
    int maxn = c.thorough() ? 5 : 4;
    for (int m = 1; m < 512; m++)
    {
        if (__builtin_popcount(m) > maxn) continue;
        if (id++ % parts != part) continue;
        std::vector<MSeries> db;
        size_t si = 0;
        for (int k = 0; k < 9; k++)
            if (m >> k & 1)
            {
                MSeries s;
                s.metric = fmt("g%d", m);
                s.tags = combos[k];
                // every series misses some of the timestamps
                for (int t = 0; t < 5; t++) if ((t + si * 2) % 3 != 2 || t == 4) s.pts[b + t * 20 * u] = value_of(si + k, t);
                db.push_back(s);
                si++;
            }
        write_all(db, m % 2);
        ms_of.push_back(db);
    }
    for (auto &db : ms_of)
    {
        for (auto &fs : FILTERS) for (auto &ag : AGGS) for (int ds = 0; ds < 3; ds++) for (int form = 0; form < 2; form++)
        {
            if (form == 0 && fs.get_only) continue;
            if (!c.thorough() && ds == 2 && form == 0) continue;
            MQuery q;
            q.metric = db[0].metric;
            q.agg = ag;
            q.filters = fs.f;
            q.ds = ds == 0 ? "" : ds == 1 ? "1m-sum" : "20s-avg-zero";
            q.ms = (ds + form) % 2;
            q.from = b; q.to = b + 100 * u;
            q.start = fmt("%llu", (unsigned long long)q.from);
            q.end = fmt("%llu", (unsigned long long)q.to);
            if (db.size() > 1) c.nt();
            run_q(c, q, db, ms, form, fmt("%s/%s/%s/%s/%d", q.metric.c_str(), fs.name, ag.c_str(), q.ds.c_str(), form));
            if (c.full()) goto end;
        }
        c.states += db.size();
    }
end:
    db_stop();
}

// which series has a point at which timestamp
static void times_family(Ctx &c, bool ms, int part, int parts)
{
    Cfg cfg{1 + part % 4, 128, ms};
    u64 u = ms ? 1000 : 1;
    set_clock_ms((BASE + DAY + 6 * 3600) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    u64 ts[4] = {T(BASE + DAY / 2 - 10, ms), T(BASE + DAY / 2, ms), T(BASE + DAY - 1, ms), T(BASE + DAY + 60, ms) + (ms ? 500 : 0)};
    std::vector<std::vector<MSeries>> all;
    for (int m = 0; m < 4096; m++)
    {
        if (m % parts != part) continue;
        std::vector<MSeries> db;
        for (int s = 0; s < 3; s++)
        {
            int k = m >> (4 * s) & 15;
            if (!k) continue;
            MSeries x;
            x.metric = fmt("t%d", m);
            x.tags["h"] = fmt("%d", s);
            x.tags["c"] = "x";
            for (int t = 0; t < 4; t++) if (k >> t & 1) x.pts[ts[t]] = value_of(s + m % 3, t);
            db.push_back(x);
        }
        if (db.empty()) continue;
        write_all(db, (m >> 2) % 2);
        all.push_back(db);
    }
    for (auto &db : all)
    {
        for (auto &ag : AGGS) for (int r = 0; r < 2; r++)
        {
            MQuery q;
            q.metric = db[0].metric;
            q.agg = ag;
            q.ms = ms;
            q.from = r ? ts[1] : ts[0] - 5 * u; q.to = r ? ts[2] : ts[3] + 5 * u;
            q.start = fmt("%llu", (unsigned long long)q.from);
            q.end = fmt("%llu", (unsigned long long)q.to);
            if (db.size() > 1) c.nt();
            run_q(c, q, db, ms, r, fmt("%s/%s/%d", q.metric.c_str(), ag.c_str(), r));
            if (c.full()) goto end;
        }
        c.states++;
    }
end:
    db_stop();
}

// several subqueries in one request; series of many pages
static void multi(Ctx &c, bool ms)
{
    Cfg cfg{2, 64, ms};
    u64 u = ms ? 1000 : 1, b = T(BASE + 5 * 3600, ms);
    set_clock_ms((BASE + 12 * 3600) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    std::vector<MSeries> db;
    for (int m = 0; m < 2; m++) for (int s = 0; s < 5; s++)
    {
        MSeries x;
        x.metric = fmt("mm%d", m);
        x.tags["h"] = fmt("%d", s / 2);
        x.tags["k"] = fmt("%d", s);
        for (int t = 0; t < 120; t++) if ((t * (s + 2)) % 7 != 3) x.pts[b + t * 10 * u] = (t * 37 + s * 11) % 101 * 0.25 + s * 0.01;
        db.push_back(x);
    }
    write_all(db, 0);
    auto mk = [&](int m, const std::string &ag, int f, const std::string &ds) {
        MQuery q;
        q.metric = fmt("mm%d", m);
        q.agg = ag;
        if (f == 1) q.filters = {{"h", "*"}};
        if (f == 2) q.filters = {{"h", "1"}, {"k", "*"}};
        if (f == 3) q.filters = {{"k", "3"}};
        q.ds = ds;
        q.from = b; q.to = b + 1200 * u;
        q.start = fmt("%llu", (unsigned long long)q.from);
        q.end = fmt("%llu", (unsigned long long)q.to);
        return q;
    };
    for (auto &ag : AGGS) for (int f = 0; f < 4; f++) for (auto ds : {"", "1m-avg", "5m-max"})
    {
        MQuery q = mk(0, ag, f, ds);
        for (int form = 0; form < 2; form++) { c.nt(); run_q(c, q, db, ms, form, fmt("one/%s/%d/%s/%d", ag.c_str(), f, ds, form)); }
        for (auto &ag2 : {"sum", "none", "top2", "p90"}) for (int f2 = 0; f2 < 4; f2++)
        {
            MQuery q2 = mk(f2 % 2, ag2, f2, f2 == 1 ? "2m-min" : "");
            std::string req = fmt("{\"start\":%llu,\"end\":%llu,\"queries\":[", (unsigned long long)q.from, (unsigned long long)q.to) + q_body(q) + "," + q_body(q2) + "]}";
            std::string sig = fmt("two/%s/%d/%s/%s/%d", ag.c_str(), f, ds, ag2, f2);
            c.at(sig);
            Resp r = query_post(req);
            std::vector<Series> got, want = m_exec(q, db, ms), w2 = m_exec(q2, db, ms);
            want.insert(want.end(), w2.begin(), w2.end());
            c.eval(); c.nt(); c.transitions++;
            c.outcome(r.body);
            std::string d;
            if (r.status != 200 || !parse_series(r.body, got)) d = fmt("status %d body %s", r.status, r.body.substr(0, 200).c_str());
            else d = series_diff(want, got);
            if (!d.empty()) c.violation(sig, req + ": " + d);
            if (c.full()) goto end;
        }
    }
    // an aggregator that does not exist must be refused
    for (auto ag : {"avgx", "foo", "", "mean", "sumx"})
    {
        Resp r = query_post(fmt("{\"start\":%llu,\"queries\":[{\"metric\":\"mm0\",\"aggregator\":\"%s\"}]}", (unsigned long long)b, ag));
        c.eval();
        if (r.status == 200) c.violation(std::string("accepted/") + ag, std::string("unknown aggregator '") + ag + "' answered with " + r.body.substr(0, 200));
    }
end:
    c.states += db.size();
    db_stop();
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    for (bool ms : {false, true})
    {
        jobs.push_back({fmt("multi/%s", ms ? "ms" : "s"), [=](Ctx &c) { multi(c, ms); }});
        for (int p = 0; p < 4; p++)
        {
            jobs.push_back({fmt("tags/%s/%d", ms ? "ms" : "s", p), [=](Ctx &c) { tags_family(c, ms, p, 4); }});
            jobs.push_back({fmt("times/%s/%d", ms ? "ms" : "s", p), [=](Ctx &c) { times_family(c, ms, p, 4); }});
        }
    }
}
