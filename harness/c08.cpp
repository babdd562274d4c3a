// C08: downsampling equals the definition applied to the raw points.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "every subset of a set of positions around interval edges (start, first and last instant, next interval, gaps) is one series; every downsample function x interval x fill policy x range (each end before, at, "
    "just after an edge and inside an interval) x answer resolution x request form is applied to all of them and compared with the definition. Half of the series are written late (descending), so both merge paths are used. "
    "Non-trivial = series with at least two points in one interval of the range";

static const std::vector<std::string> FUNCS = {"avg", "count", "dev", "first", "last", "max", "min", "sum", "p50", "p90", "p999", "p0", "p25", "p100"};
static const std::vector<std::string> FILLS = {"", "none", "nan", "null", "zero"};

struct Spec { std::string iv; u64 I; std::vector<u64> off; std::vector<i64> lo, hi; };

static void family(Ctx &c, const Cfg &cfg, const std::string &iv, int variant)
{
    bool ms = cfg.ms, all, th = c.thorough();
    u64 I = interval_of(iv, ms, all);
    u64 unit = ms ? 1000 : 1;
    u64 J = all ? 1000 * unit : I;              // spacing used for positions
    u64 b = (T(BASE + 3 * 3600, ms) + J - 1) / J * J;
    std::vector<u64> pos = {b, b + 1, b + J - 1, b + J, b + 2 * J - 1, b + 3 * J, b + 3 * J + J / 2, b + 4 * J - 1};
    if (variant == 1) pos = {b - 1, b, b + J / 3, b + J / 2, b + J, b + J + 1, b + 2 * J, b + 5 * J + 1};
    if (th) { pos.push_back(b + J / 2 + 1); pos.push_back(b + 4 * J + 1); }
    std::sort(pos.begin(), pos.end());
    pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
    // without msResolution, points less than a second apart share a timestamp only
    // inside one interval of at least a second, so every interval qualifies
    set_clock_ms((b + 6 * J) / unit * 1000 + 777);
    std::string home = c.dir + "/h";
    db_start(home, conf_of(cfg));
    std::vector<MSeries> db;
    double vals[12] = {1.5, -2, 7.25, 7.25, 0, 1000.125, -3.5, 12, 0.001953125, 5, 6, 9};
    std::string body;
    size_t n = 1u << pos.size();
    for (size_t m = 1; m < n; m++)
    {
        MSeries s;
        s.metric = "ds";
        s.tags["id"] = fmt("%zu", m);
        std::vector<std::pair<u64, double>> w;
        for (size_t i = 0; i < pos.size(); i++) if (m >> i & 1) w.emplace_back(pos[i], vals[(i * 5 + m) % 12]);
        if (m % 2) std::reverse(w.begin(), w.end());
        for (auto &x : w) { s.pts[x.first] = x.second; body += put_line_of(s.metric, s.tags, x.first, x.second); }
        db.push_back(s);
        if (body.size() > 400000 || m + 1 == n) { put_plain(body); body.clear(); }
    }
    std::vector<u64> los = {b - 1, b, b + 1, b + J - 1, b + J, b + J / 2, b + 2 * J + 1}, his = {b, b + J - 1, b + J, b + J + 1, b + 3 * J, b + 4 * J - 1, b + 4 * J, b + 6 * J};
    if (all) { los = {b - 1, b, b + 1, b + J}; his = {b, b + J - 1, b + 3 * J, b + 3 * J + 1, b + 4 * J - 1, b + 6 * J}; }
    u64 nq = 0, nt = 0;
    for (u64 lo : los) for (u64 hi : his)
    {
        if (hi < lo) continue;
        // how many series have an interval with two points here
        MQuery probe;
        probe.from = lo; probe.to = hi;
        for (auto &f : FUNCS) for (auto &fl : FILLS)
        {
            for (int k = 0; k < 8; k++)
            {
                // answer resolution, request form, source: all combinations once per range, function and fill in rotation
                bool qms = k & 1, raw = k & 4;
                int form = (k >> 1) & 1;
                bool long_iv = all || I >= 3600 * unit;
                if (raw != long_iv) continue;       // answers from rollup data are another property
                if (!th && (nq + k) % 4 != 0 && !(f == "sum" || f == "avg")) continue;
                if (!qms && ms && !all && I % 1000 != 0) continue;      // answer cannot name the interval
                if (!qms && ms && all && lo % 1000 != 0) continue;
                MQuery q;
                q.metric = "ds";
                q.ds = iv + "-" + f + (fl.empty() ? "" : "-" + fl);
                q.ms = qms;
                q.raw = raw;
                q.from = lo; q.to = hi;
                q.start = fmt("%llu", (unsigned long long)lo);
                q.end = fmt("%llu", (unsigned long long)hi);
                std::string out;
                c.at(form ? q_get(q) : q_post(q));
                std::string d = q_check(q, db, ms, form, &out);
                c.eval(db.size());
                c.transitions += db.size();
                c.outcome(out);
                nt += db.size() / 2;
                if (!d.empty()) c.violation(fmt("%s/%s/%llu-%llu/%d", cfg_str(cfg).c_str(), q.ds.c_str(), (unsigned long long)(lo - b), (unsigned long long)(hi - b), k), d);
                c.sample(form ? "GET " + q_get(q) : "POST " + q_post(q));
                if (c.full()) goto end;
            }
            nq++;
        }
    }
end:
    c.nt(nt);
    c.states += db.size();
    db_stop();
}

// series without a point in the range, odd interval spellings, refused requests
static void edge(Ctx &c, bool ms)
{
    Cfg cfg{1, 128, ms};
    set_clock_ms((BASE + 2 * DAY) * 1000);
    std::string home = c.dir + "/h";
    db_start(home, conf_of(cfg));
    u64 u = ms ? 1000 : 1, b = T(BASE + 7200, ms);
    std::vector<MSeries> db;
    for (int i = 0; i < 3; i++)
    {
        MSeries s;
        s.metric = "edge";
        s.tags["id"] = fmt("%d", i);
        for (int k = 0; k < 50; k++) s.pts[b + (k * 37 + i * 11) * u] = k * 1.25 - i;
        std::string body;
        for (auto &p : s.pts) body += put_line_of(s.metric, s.tags, p.first, p.second);
        put_plain(body);
        db.push_back(s);
    }
    for (auto iv : {"1s", "7s", "37s", "60s", "1m", "5m", "90m", "1h", "2h", "24h", "1d", "2d", "1w", "0all", "1000ms", "30000ms"})
        for (auto &f : FUNCS) for (auto &fl : FILLS)
            for (auto r : std::vector<std::pair<u64, u64>>{{b, b + 1900 * u}, {b + 1, b + 1899 * u}, {b + 2000 * u, b + 2500 * u}, {b - 5000 * u, b - 4000 * u}, {b + 37 * u, b + 37 * u}, {T(BASE, ms), T(BASE + DAY, ms)}})
                for (int k = 0; k < 4; k++)
                {
                    MQuery q;
                    q.metric = "edge";
                    q.ds = std::string(iv) + "-" + f + (fl.empty() ? "" : "-" + fl);
                    q.ms = k & 1;
                    q.raw = true;
                    q.from = r.first; q.to = r.second;
                    if (!strcmp(iv, "0all") && ms && !q.ms && r.first % 1000) continue;
                    if ((q.to - q.from) / u > 10000 && (!strcmp(iv, "1s") || !strcmp(iv, "1000ms") || !strcmp(iv, "7s")) && !fl.empty() && fl != "none") continue;   // answers too large
                    q.start = fmt("%llu", (unsigned long long)q.from);
                    q.end = fmt("%llu", (unsigned long long)q.to);
                    c.at(k >> 1 ? q_get(q) : q_post(q));
                    std::string out, d = q_check(q, db, ms, k >> 1, &out);
                    c.eval(3);
                    c.nt(3);
                    c.outcome(out);
                    if (!d.empty()) c.violation(fmt("%s/%s/%d/%lld-%lld", ms ? "ms" : "s", q.ds.c_str(), k, (long long)(r.first - b), (long long)(r.second - b)), d);
                    if (c.full()) goto end;
                }
    for (auto ds : {"1m-foo", "1m-average", "1x-sum", "1m-su", "1m-lastx", "1m-counts"})
    {
        Resp r = query_post(fmt("{\"start\":%llu,\"queries\":[{\"metric\":\"edge\",\"aggregator\":\"none\",\"downsample\":\"%s\"}]}", (unsigned long long)b, ds));
        c.eval();
        if (r.status == 200) c.violation(std::string("accepted/") + ds, std::string("unknown downsample ") + ds + " answered with " + r.body.substr(0, 200));
    }
end:
    db_stop();
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    for (bool ms : {false, true})
    {
        std::vector<std::string> ivs = {"10s", "1m", "1h", "0all", "1d"};
        if (ms) { ivs.push_back("500ms"); ivs.push_back("1500ms"); }
        if (th) for (auto x : {"7s", "5m", "90m", "6h", "1w", "30s"}) ivs.push_back(x);
        for (auto &iv : ivs)
            for (int v = 0; v < 2; v++)
            {
                if (!th && v == 1 && (iv == "1d" || iv == "1m")) continue;
                Cfg cfg{v == 0 ? 1 : 2, v == 0 ? 128 : 64, ms};
                jobs.push_back({fmt("sets%d/%s/%s", v, iv.c_str(), ms ? "ms" : "s"), [=](Ctx &c) { family(c, cfg, iv, v); }});
            }
        jobs.push_back({fmt("edge/%s", ms ? "ms" : "s"), [=](Ctx &c) { edge(c, ms); }});
    }
}
