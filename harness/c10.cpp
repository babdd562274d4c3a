// C10: rate is the per-second change between consecutive points of a result.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "every sequence of 1..4 (thorough 5) values over {0,1.5,200,255,300} with every combination of gaps {short, 7 s, 1 h} is one series; each is queried with every combination of counter, counterMax, resetValue and dropResets, "
    "in both request forms, both answer resolutions, with and without downsampling and aggregation. Non-trivial = series with at least two points";

static void family(Ctx &c, bool ms, int len, bool fine, int part, int parts)
{
    // fine: gaps below a second (answers in milliseconds only)
    Cfg cfg{1, 256, ms};
    u64 u = ms ? 1000 : 1, b = T(BASE + 2 * 3600, ms);
    set_clock_ms((BASE + 20 * 3600) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    const double V[] = {0, 1.5, 200, 255, 300};
    u64 G[] = {fine ? 1 : u, fine ? 500 : 7 * u, 3600 * u};
    size_t nv = 1, ng = 1;
    for (int i = 0; i < len; i++) nv *= 5;
    for (int i = 1; i < len; i++) ng *= 3;
    std::vector<std::vector<MSeries>> mets;
    std::string body;
    size_t id = 0;
    u64 last = b;
    for (size_t a = 0; a < nv; a++) for (size_t g = 0; g < ng; g++)
    {
        if ((a * ng + g) % parts != (size_t)part) continue;
        if (id % 900 == 0) mets.emplace_back();
        MSeries s;
        s.metric = fmt("r%zu", mets.size());
        s.tags["id"] = fmt("%zu", id++);
        size_t x = a, y = g;
        u64 t = b;
        for (int i = 0; i < len; i++)
        {
            s.pts[t] = V[x % 5];
            body += put_line_of(s.metric, s.tags, t, V[x % 5]);
            last = std::max(last, t);
            x /= 5;
            t += G[y % 3];
            y /= 3;
        }
        mets.back().push_back(s);
        if (body.size() > 400000) { put_plain(body); body.clear(); }
    }
    put_plain(body);
    for (auto &db : mets)
    {
        c.states += db.size();
        for (int o = 0; o < 2 * 2 * 3 * 4; o++)
        {
            MRate r;
            r.on = true;
            r.counter = o & 1;
            r.drop = o & 2;
            int mx = o / 4 % 3, rs = o / 12;
            r.has_max = mx; r.max = mx == 1 ? 255 : 4294967296ull;
            r.has_reset = rs; r.reset = rs == 1 ? 10 : rs == 3 ? 55 : 0;      // 255 - 200 in one second
            for (int form = 0; form < 2; form++) for (bool qms : {false, true})
            {
                if (!qms && fine) continue;
                MQuery q;
                q.metric = db[0].metric;
                q.rate = r;
                q.ms = qms;
                q.from = b; q.to = last;
                q.start = fmt("%llu", (unsigned long long)q.from);
                q.end = fmt("%llu", (unsigned long long)q.to);
                std::string sig = fmt("%s/%d/%d/%d", q.metric.c_str(), o, form, (int)qms), out;
                c.at(sig);
                std::string d = q_check(q, db, ms, form, &out, 1e-12);
                c.eval(db.size());
                if (len > 1) c.nt(db.size());
                c.transitions += db.size();
                c.outcome(out);
                c.sample(form ? "GET " + q_get(q) : "POST " + q_post(q));
                if (!d.empty()) c.violation(sig, d);
                if (c.full()) goto end;
            }
        }
    }
end:
    db_stop();
}

// rate after downsampling and aggregation; results that have one point or none
static void combined(Ctx &c, bool ms)
{
    Cfg cfg{2, 128, ms};
    u64 u = ms ? 1000 : 1, b = T(BASE + 2 * 3600, ms);
    set_clock_ms((BASE + 20 * 3600) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    std::vector<MSeries> db;
    for (int s = 0; s < 4; s++)
    {
        MSeries x;
        x.metric = "cmb";
        x.tags["h"] = fmt("%d", s / 2);
        x.tags["k"] = fmt("%d", s);
        int n = s == 3 ? 1 : 60;
        for (int t = 0; t < n; t++) x.pts[b + (t * 10 + (s == 2 ? 3 : 0)) * u] = (t * 29 + s * 7) % 83 * 1.5;
        std::string body;
        for (auto &p : x.pts) body += put_line_of(x.metric, x.tags, p.first, p.second);
        put_plain(body);
        db.push_back(x);
    }
    for (auto ag : {"none", "sum", "avg", "max", "min", "count", "dev", "p90", "top1", "bottom2"}) for (auto ds : {"", "1m-avg", "30s-sum-zero", "5m-last", "1h-max", "0all-sum", "10s-count-zero", "7s-min"})
        for (int f = 0; f < 4; f++) for (int o = 0; o < 4; o++) for (int rg = 0; rg < 5; rg++) for (int k = 0; k < 4; k++)
        {
            MQuery q;
            q.metric = "cmb";
            q.agg = ag;
            q.ds = ds;
            q.raw = true;
            if (f == 1) q.filters = {{"h", "*"}};
            if (f == 2) q.filters = {{"k", "*"}};
            if (f == 3) q.filters = {{"k", "3"}};
            q.rate.on = true;
            if (o == 1) q.rate.counter = true;
            if (o == 2) { q.rate.counter = true; q.rate.drop = true; }
            if (o == 3) { q.rate.counter = q.rate.has_max = q.rate.has_reset = true; q.rate.max = 128; q.rate.reset = 5; }
            q.ms = k & 1;
            u64 lo[] = {b, b + 1 * u, b + 300 * u, b - 600 * u, b + 700 * u}, hi[] = {b + 600 * u, b + 9 * u, b + 301 * u, b - 1 * u, b + 900 * u};
            q.from = lo[rg]; q.to = hi[rg];
            q.start = fmt("%llu", (unsigned long long)q.from);
            q.end = fmt("%llu", (unsigned long long)q.to);
            std::string sig = fmt("%s/%s/%d/%d/%d/%d", ag, ds, f, o, rg, k), out;
            c.at(sig);
            std::string d = q_check(q, db, ms, k >> 1, &out);
            c.eval(); c.transitions++;
            if (rg == 0) c.nt();
            c.outcome(out);
            if (!d.empty()) c.violation(sig, d);
            if (c.full()) goto end;
        }
end:
    c.states += db.size();
    db_stop();
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    int maxlen = tier == "thorough" ? 5 : 4;
    for (bool ms : {false, true})
    {
        jobs.push_back({fmt("combined/%s", ms ? "ms" : "s"), [=](Ctx &c) { combined(c, ms); }});
        for (int len = maxlen; len >= 1; len--)
            for (int fine = 0; fine < (ms ? 2 : 1); fine++)
            {
                int parts = len == 5 ? 16 : len == 4 ? 6 : 1;
                for (int p = 0; p < parts; p++)
                    jobs.push_back({fmt("seq/%s%s/%d/%d", ms ? "ms" : "s", fine ? "-fine" : "", len, p), [=](Ctx &c) { family(c, ms, len, fine, p, parts); }});
            }
    }
}
