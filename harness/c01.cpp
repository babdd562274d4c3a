// C01: every accepted point is returned once, in order, with its latest value.
// Enumerates arrival histories (families below) over configurations.
#include "cfg.h"
using namespace vh;

const char *vh::g_rule =
    "every history of a family x configuration, compared with a map model over the full range and sub-ranges. Families: all timestamp sequences of a fixed length "
    "over 5 timestamps (dense ticks, around noon, around midnight over 3 days) after every of several page fill levels; every fill level of the open page up to two pages "
    "followed by all short suffixes of next/late/repeated/other-day writes; all tag-and-time sequences for two series; all sets of existing days with all range ends; "
    "series counts around index growth steps. Non-trivial = contains a late or repeated timestamp, or more points than fit a page, or several days";

static bool nontrivial(const Hist &h)
{
    u64 last = 0;
    for (auto &x : h.w)
    {
        if (x.ts <= last || x.tag) return true;
        last = x.ts;
    }
    return h.w.size() > 4;
}

static void run_batch(Ctx &c, const std::string &tag, const Cfg &cfg, std::vector<Hist> &hs, const std::vector<std::pair<u64, u64>> &ranges, bool lockstep)
{
    double tol = tol_of(cfg);
    std::string home = c.dir + "/" + tag;
    ChildResult r = in_child([&](std::string &out) {
        set_clock_ms((BASE + DAY / 2) * 1000);
        db_start(home, conf_of(cfg));
        std::string err;
        size_t L = 0;
        for (auto &h : hs) L = std::max(L, h.w.size());
        if (lockstep) for (size_t i = 0; i < L; i++) write_step(hs, i, &err);
        else for (auto &h : hs)
        {
            std::vector<Hist> one(1, h);
            for (size_t i = 0; i < h.w.size(); i++) write_step(one, i, &err);
            h.model = one[0].model;
        }
        if (!err.empty()) { out += "0\n" + err + "\n"; return; }
        for (auto &rg : ranges)
        {
            std::vector<std::pair<size_t, std::string>> bad;
            check_all(hs, rg.first, rg.second, cfg.ms, tol, bad);
            for (auto &b : bad) out += fmt("%zu\n[%llu,%llu] %s\n", b.first, (unsigned long long)rg.first, (unsigned long long)rg.second, b.second.c_str());
            if (!bad.empty()) break;
        }
    }, 200);
    c.eval(hs.size() * ranges.size());
    for (auto &h : hs)
    {
        if (nontrivial(h)) c.nt();
        c.transitions += h.w.size();
    }
    c.states += hs.size();
    if (!r.ok()) c.violation(tag + ":died", "session ended abnormally: " + r.why());
    else if (!r.out.empty())
    {
        size_t p = 0;
        while (p < r.out.size())
        {
            size_t e = r.out.find('\n', p), f = r.out.find('\n', e + 1);
            size_t idx = strtoull(r.out.c_str() + p, nullptr, 10);
            std::string msg = r.out.substr(e + 1, f - e - 1);
            c.violation(hs[idx].metric, "history " + hs[idx].str() + ": " + msg);
            p = f + 1;
        }
    }
    if (!hs.empty()) c.sample(cfg_str(cfg) + " " + hs[hs.size() / 3].str().substr(0, 300));
    remove_tree(home);
}

static void run_all(Ctx &c, const Cfg &cfg, std::vector<Hist> &all, const std::vector<std::pair<u64, u64>> &ranges, bool lockstep, size_t chunk = 10000)
{
    if (cfg.small) chunk = 800;
    for (size_t i = 0; i < all.size() && !c.full(); i += chunk)
    {
        std::vector<Hist> part(all.begin() + i, all.begin() + std::min(all.size(), i + chunk));
        run_batch(c, fmt("b%zu", i / chunk), cfg, part, ranges, lockstep);
    }
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    std::vector<Cfg> cfgs;
    for (int comp = 0; comp <= 4; comp++)
        for (int page : {64, 128, 256})
            for (bool ms : {false, true})
            {
                if (!th && page == 128 && (ms || comp < 3)) continue;
                if (!th && page == 256 && comp < 3 && ms) continue;
                cfgs.push_back({comp, page, ms});
                if (page == 64) cfgs.push_back({comp, page, ms, true});
            }
    // number of series around the growth steps of the per-day series index
    for (int n : {1, 2, 4094, 4095, 4096, 4097, 8192, 8193, 8194, 12289, 12290, 12291})
        jobs.push_back({fmt("count/%d", n), [=](Ctx &c) {
            std::vector<Hist> hs;
            for (int i = 0; i < n; i++)
            {
                Hist h;
                h.metric = fmt("count.%d", i);
                // only the last few series have stored pages
                int k = i + 6 >= n || i < 3 ? 40 : 1;
                for (int j = 0; j < k; j++) h.w.push_back({BASE + 43000 + j * 50 - (j % 7 == 6 ? 125 : 0), val(1, j + i)});
                hs.push_back(h);
            }
            run_batch(c, "n", Cfg{2, 64, false}, hs, {{BASE, BASE + DAY}, {BASE + 43201, BASE + DAY}}, true);
        }});
    // answers around the size of the response buffer: all points or an error, never a part
    for (int pat = 0; pat < 4; pat++)
        for (int nser = 1; nser <= 2; nser++)
            jobs.push_back({fmt("respsize/%d/%d", pat, nser), [=](Ctx &c) {
                std::string home = c.dir + "/r";
                ChildResult r = in_child([&](std::string &out) {
                    Conf f = conf_of(Cfg{2, 256, false});
                    f["tcp.buffer.size"] = "16kb";
                    set_clock_ms((BASE + DAY / 2) * 1000);
                    db_start(home, f);
                    const int N = 900;
                    u64 ok = 0, large = 0;
                    for (int len = 1; len <= (th ? 60 : 24); len++)
                    {
                        std::vector<Hist> hs(1);
                        hs[0].metric = std::string(len, 'm');
                        for (int i = 0; i < N; i++) for (int t = 0; t < nser; t++)
                            hs[0].w.push_back({BASE + 40000 + i, pat == 3 && i % 3 ? -INFINITY : val(pat, i), t});
                        std::string err;
                        for (size_t i = 0; i < hs[0].w.size(); i++) write_step(hs, i, &err);
                        bool was_large = false;
                        for (int n = 50; n < N; n++)
                        {
                            Resp q = query_post(fmt("{\"start\":%llu,\"end\":%llu,\"queries\":[{\"metric\":\"%s\",\"aggregator\":\"none\"}]}", (unsigned long long)BASE + 40000, (unsigned long long)BASE + 40000 + n, hs[0].metric.c_str()));
                            if (q.status == 200 && !was_large)
                            {
                                std::vector<Series> got;
                                std::string m = parse_series(q.body, got) ? compare_one(hs[0], got, BASE + 40000, BASE + 40000 + n, 0, 0) : "answer is not well formed";
                                if (!m.empty()) { out += fmt("V%d.%d\nanswer of %zu bytes: %s\n", len, n, q.body.size(), m.substr(0, 300).c_str()); break; }
                                ok++;
                            }
                            else if (q.status == 413 && n > 100) { was_large = true; large++; if (n % 3) continue; }
                            else { out += fmt("V%d.%d\nstatus %d, %zu bytes, %s ... %s\n", len, n, q.status, q.body.size(), q.body.substr(0, 60).c_str(), q.body.size() > 100 ? q.body.substr(q.body.size() - 100).c_str() : ""); break; }
                        }
                    }
                    out += fmt("N%llu.%llu\n\n", (unsigned long long)ok, (unsigned long long)large);
                }, 200);
                if (!r.ok()) c.violation("died", r.why());
                for (size_t p = 0; p < r.out.size();)
                {
                    size_t e = r.out.find('\n', p), f = r.out.find('\n', e + 1);
                    std::string k = r.out.substr(p + 1, e - p - 1);
                    if (r.out[p] == 'V') c.violation("respsize." + k, r.out.substr(e + 1, f - e - 1));
                    else { u64 a = strtoull(k.c_str(), 0, 10), b = strtoull(strchr(k.c_str(), '.') + 1, 0, 10); c.eval(a + b); c.nt(a); c.stats["answers refused as too large"] += b; }
                    p = f + 1;
                }
                remove_tree(home);
            }});
    // which days exist, and where a range starts and ends relative to them
    for (bool ms : {false, true})
        for (int part = 0; part < 8; part++)
            jobs.push_back({fmt("gaps/%s/%d", ms ? "ms" : "s", part), [=](Ctx &c) {
                const int days[7] = {0, 1, 2, 4, 5, 9, 30};
                for (int set = 1; set < 128; set++)
                {
                    if (set % 8 != part || c.full()) continue;
                    if (!th && __builtin_popcount(set) > 4) continue;
                    std::vector<Hist> hs(1);
                    hs[0].metric = "gap.m";
                    std::vector<u64> edge;
                    for (int k = 0; k < 7; k++)
                        if (set >> k & 1)
                        {
                            hs[0].w.push_back({T(BASE + days[k] * DAY, ms), k + 1.0});
                            hs[0].w.push_back({T(BASE + (days[k] + 1) * DAY, ms) - 1, k + 10.0});
                        }
                    for (int k = 0; k < 7; k++)
                        if ((set >> k & 1) || th || k == 3)
                            for (u64 t : {T(BASE + days[k] * DAY, ms) - 1, T(BASE + days[k] * DAY, ms), T(BASE + days[k] * DAY, ms) + 1, T(BASE + (days[k] + 1) * DAY, ms) - 1, T(BASE + (days[k] + 1) * DAY, ms)})
                                edge.push_back(t);
                    std::sort(edge.begin(), edge.end());
                    edge.erase(std::unique(edge.begin(), edge.end()), edge.end());
                    Ranges rg;
                    for (size_t i = 0; i < edge.size(); i++) for (size_t j = i; j < edge.size(); j++) rg.push_back({edge[i], edge[j]});
                    Cfg cfg{4, 128, ms};
                    // days written in increasing, then in decreasing order
                    run_batch(c, fmt("g%d.up", set), cfg, hs, rg, true);
                    std::reverse(hs[0].w.begin(), hs[0].w.end());
                    hs[0].model.clear();
                    run_batch(c, fmt("g%d.down", set), cfg, hs, rg, true);
                }
            }});
    for (auto &cfg : cfgs)
    {
        bool ms = cfg.ms;
        u64 step = ms ? 5123 : 10;
        std::string cs = "/" + cfg_str(cfg);
        // all sequences over five timestamps, from several fill levels of the open page
        for (int kind = 0; kind < 3; kind++)
        {
            const char *names[3] = {"dense", "noon", "days"};
            if (!th && cfg.page != 64 && kind == 1) continue;
            jobs.push_back({names[kind] + cs, [=](Ctx &c) {
                std::vector<u64> ts;
                Ranges rg;
                u64 b = T(BASE + 40000, ms), n = T(BASE + DAY / 2, ms), d = T(DAY, ms), B = T(BASE, ms);
                if (kind == 0)
                {
                    ts = {b, b + 1, b + 2, b + 3, b + 4};
                    if (ms) ts = {b, b + 1, b + 999, b + 1000, b + 1001};
                    rg = {{B, B + d - 1}, {b - 1, b + 5000}};
                    for (int i = 0; i < 5; i++) for (int j = i; j < 5; j++) if (cfg.page == 64) rg.push_back({ts[i], ts[j]});
                }
                else if (kind == 1)
                {
                    ts = {n - 100, n - 1, n, n + 1, n + 5000};
                    rg = {{B, B + d - 1}, {n, n + 10000}, {n + 1, n + 10000}, {n + 1, n + 1}, {n - 1, n - 1}, {n - 100, n}, {n - 50, n + 1}};
                }
                else
                {
                    ts = {B + 10000, B + d - 1, B + d, B + d + 50, B + 2 * d};
                    rg = {{B - d, B + 4 * d}, {B + d, B + 2 * d - 1}, {B + d - 1, B + d}, {B + 10001, B + d + 49}, {B + 2 * d, B + 2 * d}};
                }
                int L = th ? 6 : (cfg.page == 64 && !cfg.small ? 5 : 4);
                int cap = capacity(c, cfg, 1, step);
                for (int f : {0, cap - 2, cap, 2 * cap - 1})
                {
                    if (f < 0) continue;
                    if (!th && f && (f != cap - 2) && cfg.page != 64) continue;
                    std::vector<Hist> hs;
                    gen_seq(ts, L, 1, names[kind], f, kind == 2 ? 1 : step, hs);
                    run_all(c, cfg, hs, rg, true);
                }
            }});
        }
        // a series that passes noon at every fill level, then late points on either side
        if (cfg.page == 64)
            jobs.push_back({"noonfill" + cs, [=](Ctx &c) {
                u64 n = T(BASE + DAY / 2, ms);
                Ranges rg = {{n - 1000, n + 10000}, {n, n + 10000}, {n + 1, n + 10000}, {n + 15, n + 35}, {n - 1, n - 1}, {n - 100, n}};
                int cap = std::min(capacity(c, cfg, 1, 10), 20);
                std::vector<Hist> hs;
                for (int a = 0; a <= cap + 2; a++) for (int b = 0; b <= cap + 2; b++) for (int late = 0; late < 4; late++)
                {
                    Hist h;
                    h.metric = fmt("noonfill.%d.%d.%d", a, b, late);
                    for (int i = 0; i < a; i++) h.w.push_back({n - 300 + i * 10, val(1, i)});
                    if (late & 1) for (int i = 0; i < 4; i++) h.w.push_back({n - 295 + i * 10, val(1, i + 50)});
                    for (int i = 0; i < b; i++) h.w.push_back({n + i * 10, val(1, i + 20)});
                    if (late & 2) for (int i = 0; i < 4; i++) h.w.push_back({n + 5 + i * 10, val(1, i + 70)});
                    hs.push_back(h);
                }
                run_all(c, cfg, hs, rg, true);
            }});
        // n in-order points, then every short suffix
        for (int pat = 0; pat < 4; pat++)
            jobs.push_back({fmt("fill%d", pat) + cs, [=](Ctx &c) {
                Ranges rg = {{T(BASE - DAY, ms), T(BASE + 4 * DAY, ms)}, {T(BASE + 40015, ms), T(BASE + 40075, ms)}};
                int cap = capacity(c, cfg, pat, step);
                int S = th ? 4 : (cfg.page == 64 && !cfg.small ? 3 : 2);
                if (cap > 100 && !th) S = 2;
                std::vector<int> ns;
                for (int n = 0; n <= 2 * cap + 2; n++)
                    if (cap <= 24 || n < 3 || (n >= cap - 3 && n <= cap + 3) || n >= 2 * cap - 1) ns.push_back(n);
                std::vector<Hist> o;
                for (int n : ns)
                {
                    std::vector<int> s(S, 0);
                    do
                    {
                        Hist h;
                        h.metric = fmt("fill.%d.", n) + seq_str(s);
                        u64 b = T(BASE + 40000, ms);
                        for (int i = 0; i < n; i++) h.w.push_back({b + i * step, val(pat, i)});
                        u64 nx = b + n * step;
                        for (int k = 0; k < S; k++)
                        {
                            u64 t = 0;
                            switch (s[k])
                            {
                                case 0: t = nx; nx += step; break;              // next
                                case 1: t = nx - step; break;                   // repeat of the newest
                                case 2: t = b; break;                           // repeat of the oldest
                                case 3: t = b + (n / 2) * step + 1; break;      // late, in the middle
                                case 4: t = b - 7; break;                       // before everything
                                case 5: t = b + (n / 2) * step; break;          // repeat in the middle
                                case 6: t = T(BASE + DAY + 5, ms); break;       // next day
                                case 7: t = T(BASE - 5, ms); break;             // previous day
                            }
                            h.w.push_back({t, val(pat, 100 + 7 * k + s[k])});
                        }
                        o.push_back(h);
                    } while (next_seq(s, 8));
                }
                run_all(c, cfg, o, rg, true);
            }});
        // two series of one metric
        if (cfg.page == 64 || th)
            jobs.push_back({"two" + cs, [=](Ctx &c) {
                Ranges rg = {{T(BASE - DAY, ms), T(BASE + 4 * DAY, ms)}, {T(BASE + 40000, ms) + 1, T(BASE + 40000, ms) + 1}};
                int L = th ? 6 : 4;
                std::vector<Hist> o;
                std::vector<int> s(L, 0);
                u64 b = T(BASE + 40000, ms);
                u64 ts[4] = {b, b + 1, b + 2, T(BASE + DAY, ms) + 3};
                do
                {
                    Hist h;
                    h.metric = "two." + seq_str(s);
                    for (int i = 0; i < L; i++) h.w.push_back({ts[s[i] / 2], val(1, i + 1), s[i] % 2});
                    o.push_back(h);
                } while (next_seq(s, 8));
                run_all(c, cfg, o, rg, true);
            }});
        // values that are not finite (they are always stored as late points), and a minus zero
        if ((cfg.page == 64 && !cfg.small) || th)
            jobs.push_back({"special" + cs, [=](Ctx &c) {
                double sp[5] = {2.5, NAN, INFINITY, -INFINITY, -0.0};
                u64 b = T(BASE + 40000, ms);
                u64 ts[3] = {b, b + 1, T(BASE + DAY, ms) + 3};
                Ranges rg = {{T(BASE - DAY, ms), T(BASE + 4 * DAY, ms)}, {b + 1, b + 1}};
                int L = th ? 5 : 4;
                int cap = capacity(c, cfg, 1, step);
                for (int f : {0, 2, cap - 1})
                {
                    std::vector<Hist> o;
                    std::vector<int> s(L, 0);
                    do
                    {
                        Hist h;
                        h.metric = fmt("special.%d.", f) + seq_str(s);
                        for (int i = 0; i < f; i++) h.w.push_back({b - (f - i) * step, val(1, i)});
                        for (int i = 0; i < L; i++) h.w.push_back({ts[s[i] / 4], s[i] % 4 ? sp[s[i] % 4] : sp[0] + i});
                        if (o.size() % 3 == 0) h.w.push_back({b + 2, -0.0});
                        o.push_back(h);
                    } while (next_seq(s, 12));
                    run_all(c, cfg, o, rg, true);
                }
            }});
        // histories one after the other instead of in lock-step
        if (cfg.page == 64)
            jobs.push_back({"serial" + cs, [=](Ctx &c) {
                std::vector<u64> ts = {T(BASE + 1000, ms), T(BASE + 1001, ms), T(BASE + DAY, ms), T(BASE + 1003, ms)};
                int cap = capacity(c, cfg, 1, 10);
                std::vector<Hist> hs;
                gen_seq(ts, 4, 1, "serial", std::max(0, cap - 2), 10, hs);
                run_all(c, cfg, hs, {{T(BASE, ms), T(BASE + 3 * DAY, ms)}}, false);
            }});
    }
}
