// C02: a clean restart changes nothing a client can see.
#include "cfg.h"
#include "events.h"
using namespace vh;

const char *vh::g_rule =
    "every placement of one or two orderly restarts (also two in a row, and combined with write-ahead flushes, idle-series archiving and a day change) in every history of a family: "
    "all timestamp sequences over five timestamps after every fill level of interest of the open page, all two-series sequences; for every compressor, two page sizes, both resolutions. "
    "Compared with a map model right after each restart and at the end, plus suggest/lookup/downsampled answers before and after. Non-trivial = at least one write on each side of a restart";

static std::string observe(const std::vector<Hist> &hs, bool ms, u64 from, u64 to)
{
    std::string o;
    for (const char *t : {"metrics", "tagk", "tagv"})
    {
        Resp r = get("/api/suggest", fmt("type=%s&q=&max=100000", t));
        J j;
        parse_json(r.body, j);
        std::vector<std::string> v;
        for (auto &x : j.a) v.push_back(x.s);
        std::sort(v.begin(), v.end());
        o += fmt("%s:%d:", t, r.status);
        for (auto &x : v) o += x + ",";
    }
    std::string z = fmt("%llx;", (unsigned long long)hash64(o));
    size_t step = std::max<size_t>(1, hs.size() / 5);
    for (size_t i = 0; i < hs.size(); i += step)
    {
        Resp r = get("/api/search/lookup", "m=" + hs[i].metric);
        J j;
        parse_json(r.body, j);
        std::set<std::string> s;
        const J *res = j.get("results");
        if (res) for (auto &x : res->a)
        {
            std::string k;
            const J *tags = x.get("tags");
            if (tags) for (auto &p : tags->o) k += p.first + "=" + p.second.s + ";";
            s.insert(k);
        }
        z += fmt("%d/", r.status);
        for (auto &x : s) z += x + ",";
        for (const char *ds : {"1m-sum", "1h-max", "1d-count"})
        {
            Resp q = query_post(fmt("{\"start\":%llu,\"end\":%llu,%s\"queries\":[{\"metric\":\"%s\",\"aggregator\":\"sum\",\"downsample\":\"%s\"}]}",
                (unsigned long long)from, (unsigned long long)to, ms ? "\"msResolution\":true," : "", hs[i].metric.c_str(), ds));
            std::vector<Series> v;
            if (q.status == 200 && parse_series(q.body, v))
                for (auto &x : v) for (auto &p : x.dps) z += fmt("%llu:%.9g ", (unsigned long long)p.first, p.second);
            else z += fmt("status %d ", q.status);
        }
    }
    return z;
}

static void run(Ctx &c, const Cfg &cfg, const std::vector<Hist> &gen, const Ranges &rg, const Events &ev, bool obs = true, u64 clock_ms = (BASE + DAY / 2) * 1000)
{
    if (c.full()) return;
    size_t chunk = cfg.small ? 800 : 8000;
    for (size_t at = 0; at < gen.size(); at += chunk)
    {
        std::vector<Hist> hs(gen.begin() + at, gen.begin() + std::min(gen.size(), at + chunk));
        EvRun er;
        er.conf = conf_of(cfg);
        er.ms = cfg.ms;
        er.tol = tol_of(cfg);
        er.clock_ms = clock_ms;
        er.ranges = rg;
        if (obs) er.observe = [&](const std::vector<Hist> &h) { return observe(h, cfg.ms, rg[0].first, rg[0].second); };
        std::string home = c.dir + "/h";
        std::vector<std::pair<size_t, std::string>> bad;
        std::string err = run_events(er, home, hs, ev, bad);
        c.eval(hs.size());
        c.states += hs.size();
        size_t L = 0;
        for (auto &h : hs) { c.transitions += h.w.size() + ev.size(); L = std::max(L, h.w.size()); }
        bool both = false;
        for (auto &kv : ev) if (kv.second.find('R') != std::string::npos && kv.first > 0 && kv.first < L) both = true;
        if (both) c.nt(hs.size());
        std::string e = events_str(ev);
        if (!err.empty()) c.violation(fmt("%s.%zu/%s", hs[0].metric.c_str(), at, e.c_str()), err);
        for (auto &b : bad) c.violation(hs[b.first].metric + "/" + e, "history " + hs[b.first].str() + " events " + e + ": " + b.second);
        c.sample(cfg_str(cfg) + " " + e + " " + hs[hs.size() / 3].str().substr(0, 300));
        remove_tree(home);
    }
}

// restart placements over positions lo..hi
static std::vector<Events> placements(size_t lo, size_t hi, bool two)
{
    std::vector<Events> v;
    for (size_t i = lo; i <= hi; i++)
    {
        v.push_back({{i, "R"}});
        if (two) v.push_back({{i, "RR"}});
        if (two) for (size_t j = i + 1; j <= hi; j++) v.push_back({{i, "R"}, {j, "R"}});
    }
    return v;
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    std::vector<Cfg> cfgs;
    for (int comp = 0; comp <= 4; comp++)
        for (int page : {64, 128, 256})
            for (bool ms : {false, true})
            {
                if (!th && page == 128 && (ms || comp < 3)) continue;
                if (!th && page == 256 && (ms || comp != 4)) continue;
                cfgs.push_back({comp, page, ms});
                if (page == 64 && (th || comp == 4 || comp == 1)) cfgs.push_back({comp, page, ms, true});
            }
    for (auto &cfg : cfgs)
    {
        bool ms = cfg.ms;
        u64 step = ms ? 5123 : 10;
        u64 b = T(BASE + 40000, ms), n = T(BASE + DAY / 2, ms), d = T(DAY, ms), B = T(BASE, ms);
        std::string cs = "/" + cfg_str(cfg);
        for (int kind = 0; kind < 3; kind++)
        {
            const char *names[3] = {"dense", "noon", "days"};
            if (!th && kind == 1 && (cfg.page != 64 || cfg.small || ms)) continue;
            jobs.push_back({names[kind] + cs, [=](Ctx &c) {
                std::vector<u64> ts;
                Ranges rg;
                if (kind == 0) { ts = {b, b + 1, b + 2, b + (ms ? 1000 : 3)}; rg = {{B, B + d - 1}, {b, b}, {b + 1, b + 5000}}; }
                else if (kind == 1) { ts = {n - 100, n - 1, n, n + 1}; rg = {{B, B + d - 1}, {n, n + 10000}, {n + 1, n + 10000}, {n - 100, n - 1}}; }
                else { ts = {B + 10000, B + d - 1, B + d, B + 2 * d}; rg = {{B - d, B + 4 * d}, {B + d, B + 2 * d - 1}, {B + d - 1, B + d}}; }
                int L = th ? 5 : 4;
                int cap = capacity(c, cfg, 1, step);
                std::vector<int> fills = {0, 2, cap - 1, cap};
                if (th) { fills.push_back(1); fills.push_back(3); fills.push_back(cap + 1); fills.push_back(2 * cap - 1); fills.push_back(4); fills.push_back(cap / 2); }
                if (!th && cfg.small) fills = {1, cap};
                for (int f : fills)
                {
                    if (f < 0) continue;
                    std::vector<Hist> hs;
                    gen_seq(ts, L, 1, names[kind], f, kind == 2 ? 1 : step, hs);
                    for (auto &ev : placements(f, f + L, th || (cfg.page == 64 && (kind == 2 || !ms)))) run(c, cfg, hs, rg, ev, ev.size() == 1);
                }
            }});
        }
        // a restart at every fill level of the open page, then further points, for each value pattern
        for (int pat = 0; pat < 4; pat++)
        {
            if (!th && cfg.small && pat != 1) continue;
            jobs.push_back({fmt("fill%d", pat) + cs, [=](Ctx &c) {
                int cap = capacity(c, cfg, pat, step);
                Ranges rg = {{T(BASE - DAY, ms), T(BASE + 4 * DAY, ms)}};
                int N = cap <= 40 || th ? 2 * cap + 2 : cap + 8;
                // history k: N points with a different tail order
                std::vector<Hist> hs;
                for (int k = 0; k < 4; k++)
                {
                    Hist h;
                    h.metric = fmt("fill.%d", k);
                    for (int i = 0; i < N; i++)
                    {
                        u64 t = b + i * step;
                        if (k == 1 && i % 5 == 4) t = b + (i - 3) * step + 1;       // some late
                        if (k == 2 && i % 4 == 3) t = b + (i - 1) * step;           // some repeated
                        if (k == 3 && i % 2) t = b + (i - 1) * step - step / 2;     // half late
                        h.w.push_back({t, val(pat, i)});
                    }
                    hs.push_back(h);
                }
                for (int r = 0; r <= N; r++)
                {
                    if (!th && cap > 40 && !(r < 12 || r % 16 == 0 || (r > cap - 6 && r < cap + 6))) continue;
                    run(c, cfg, hs, rg, {{(size_t)r, "R"}}, false);
                    if (r % 3 == 0) run(c, cfg, hs, rg, {{(size_t)r, "R"}, {(size_t)r + 1, "R"}}, false);
                    if (r % 3 == 1) run(c, cfg, hs, rg, {{(size_t)r, "FR"}, {(size_t)r + 2, "R"}}, false);
                    if (r % 3 == 2) run(c, cfg, hs, rg, {{(size_t)r / 2, "R"}, {(size_t)r, "R"}}, false);
                }
            }});
        }
        // restarts combined with other events
        if (cfg.page == 64)
            jobs.push_back({"mixed" + cs, [=](Ctx &c) {
                std::vector<u64> ts = {b, b + 1, b + 3, B + d + 5};
                Ranges rg = {{T(BASE - DAY, ms), T(BASE + 4 * DAY, ms)}, {b + 1, b + 1}};
                int L = 4, cap = capacity(c, cfg, 1, step);
                std::vector<const char*> alpha = {"R", "FR", "DDAR", "DGR", "RF", "RDDA", "RDG", "RM"};
                for (int f : {0, 2, cap - 1})
                {
                    std::vector<Hist> hs;
                    gen_seq(ts, L, 2, "mixed", f, step, hs);
                    for (size_t i = 1; i <= (size_t)L; i++)
                        for (auto e : alpha)
                        {
                            run(c, cfg, hs, rg, {{f + i, e}}, false);
                            if (th || i % 2 == 0) for (auto e2 : {"F", "DDA", "R"}) run(c, cfg, hs, rg, {{f + i, e}, {f + i + 1, e2}}, false);
                        }
                }
            }});
        // two series of one metric
        if (cfg.page == 64)
            jobs.push_back({"two" + cs, [=](Ctx &c) {
                Ranges rg = {{T(BASE - DAY, ms), T(BASE + 4 * DAY, ms)}};
                int L = th ? 5 : 4;
                std::vector<Hist> o;
                std::vector<int> s(L, 0);
                u64 ts[3] = {b, b + 1, T(BASE + DAY, ms) + 3};
                do
                {
                    Hist h;
                    h.metric = "two." + seq_str(s);
                    for (int i = 0; i < L; i++) h.w.push_back({ts[s[i] / 2], val(1, i + 1), s[i] % 2});
                    o.push_back(h);
                } while (next_seq(s, 6));
                for (auto &ev : placements(0, L, true)) run(c, cfg, o, rg, ev);
            }});
    }
    // many series: index growth and metadata size across a restart
    for (int n : {4095, 4096, 4097, 8192, 8193})
        jobs.push_back({fmt("count/%d", n), [=](Ctx &c) {
            std::vector<Hist> hs;
            for (int i = 0; i < n; i++)
            {
                Hist h;
                h.metric = fmt("count.%d", i);
                int k = i + 6 >= n || i < 3 ? 40 : 3;
                for (int j = 0; j < k; j++) h.w.push_back({BASE + 43000 + j * 50 - (j % 7 == 6 ? 125 : 0), val(1, j + i)});
                hs.push_back(h);
            }
            for (size_t r : {1, 2, 20, 40}) run(c, Cfg{2, 64, false}, hs, {{BASE, BASE + DAY}}, {{r, "R"}});
        }});
}
