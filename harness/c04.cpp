// C04: a query next to writers and housekeeping sees every point written before it and nothing else.
#include "conc.h"
using namespace vh;

const char *vh::g_rule =
    "all schedules with at most 1 (selected and thorough: 2) preemptions, placed at locks, atomics and every unprotected shared access, of a query next to each writer (in order, filling a page, out of order, rewriting, new series, new or earlier day, fields of a measurement) "
    "and each housekeeping job (log flush, archiving of idle series, rotation, collection), and of a query, a writer and a job together, over databases with one page in memory, a page about to fill, several pages, out-of-order pages, several days, reopened files. "
    "Every answer must hold what was written before the query began, at most what was begun before it ended, in order and no instant twice; afterwards everything is queried again. "
    "Non-trivial = a schedule with at least one preemption";

struct Ev { int op; int from = 0, to = 0; bool ok = false; std::string err; std::vector<Series> got; };

static const char *g_metrics[] = {"m", "me", "m", "me"};      // query -1 and -2: points; -3: points per hour; -4: points of h=1

static bool query_h1(const std::string &metric, bool ms, std::vector<Series> &out, std::string *err)
{
    Resp r = query_post(fmt("{\"start\":%llu,\"end\":%llu,%s\"queries\":[{\"metric\":\"%s\",\"aggregator\":\"none\",\"tags\":{\"h\":\"1\"}}]}",
        (unsigned long long)T(B5 - DAY, ms), (unsigned long long)T(B5 + 4 * DAY, ms), ms ? "\"msResolution\":true," : "", metric.c_str()));
    if (r.status != 200) { *err = fmt("status %d ", r.status) + r.body; return false; }
    return parse_series(r.body, out);
}

static bool query_hours(const std::string &metric, bool ms, std::vector<Series> &out, std::string *err)
{
    Resp r = query_post(fmt("{\"start\":%llu,\"end\":%llu,%s\"queries\":[{\"metric\":\"%s\",\"aggregator\":\"none\",\"downsample\":\"1h-count\"}]}",
        (unsigned long long)T(B5 - DAY, ms), (unsigned long long)T(B5 + 4 * DAY, ms), ms ? "\"msResolution\":true," : "", metric.c_str()));
    if (r.status != 200) { *err = fmt("status %d ", r.status) + r.body; return false; }
    return parse_series(r.body, out);
}

static SchedBody body(const Case &k, const std::string &home, const std::string &tmpl, const Model *base)
{
    SchedBody b;
    auto m = std::make_shared<Model>(*base);
    auto ev = std::make_shared<std::vector<std::vector<Ev>>>(k.th.size());
    auto clock = std::make_shared<int>(0);
    static auto all = ops();
    b.setup = [=]()
    {
        remove_tree(home);
        if (!tmpl.empty()) copy_tree(tmpl, home);
        set_clock_ms((B5 + 2 * DAY + 3600) * 1000);
        db_start(home, conf_of(k.cfg));
        if (tmpl.empty()) preludes()[k.pre].fn(k.cfg, k.cap, *m);
        else { std::vector<Series> g; for (auto x : g_metrics) query_raw(x, T(B5 - DAY, k.cfg.ms), T(B5 + 4 * DAY, k.cfg.ms), k.cfg.ms, g); }
        set_clock_ms((B5 + 2 * DAY + 7200) * 1000);     // files have been idle for a while
    };
    for (size_t t = 0; t < k.th.size(); t++)
    {
        (*ev)[t].reserve(k.th[t].size());
        b.threads.push_back([=]()
        {
            for (int i : k.th[t])
            {
                Ev e;
                e.op = i;
                e.from = ++*clock;
                if (i >= 0) e.ok = run_op(all[i], k.cfg.ms);
                else if (i == -3) e.ok = query_hours(g_metrics[-1 - i], k.cfg.ms, e.got, &e.err);
                else if (i == -4) e.ok = query_h1(g_metrics[-1 - i], k.cfg.ms, e.got, &e.err);
                else e.ok = query_raw(g_metrics[-1 - i], T(B5 - DAY, k.cfg.ms), T(B5 + 4 * DAY, k.cfg.ms), k.cfg.ms, e.got, &e.err);
                e.to = ++*clock;
                (*ev)[t].push_back(e);
            }
        });
    }
    b.finish = [=](std::string &out)
    {
        double tol = tol_of(k.cfg);
        for (auto &q : *ev) for (auto &e : q)
        {
            if (e.op >= 0) { if (!e.ok) { out = "operation " + all[e.op].name + " was refused"; return; } continue; }
            std::string metric = g_metrics[-1 - e.op];
            // what must and what may be there
            std::map<std::string, std::map<u64, std::pair<bool, std::set<double>>>> exp;
            for (auto &s : *m) if (s.first.compare(0, metric.size() + 1, metric + "|") == 0)
                for (auto &p : s.second) exp[s.first][p.first] = {true, p.second};
            for (auto &q2 : *ev) for (auto &w : q2) if (w.op >= 0 && w.from < e.to)
                for (auto &x : all[w.op].w) if (x.metric == metric)
                {
                    auto &p = exp[x.metric + "|" + sort_tags(x.tags)][T(x.ts, k.cfg.ms)];
                    if (w.to < e.from) { p.first = true; p.second = {x.v}; }
                    else p.second.insert(x.v);
                }
            if (e.op == -4)
                for (auto it = exp.begin(); it != exp.end(); ) if (it->first.find("h=1") == std::string::npos) it = exp.erase(it); else ++it;
            if (!e.ok)
            {
                // a metric without any series yet is unknown
                bool must = false;
                for (auto &s : exp) for (auto &p : s.second) must |= p.second.first;
                if (must) { out = "query failed: " + e.err; return; }
                continue;
            }
            std::set<std::string> seen;
            for (auto &s : e.got)
            {
                std::string key = s.metric + "|" + tags_key(s.tags);
                if (!seen.insert(key).second) { out = "series " + key + " is returned twice"; return; }
                if (!exp.count(key)) { out = "a series nobody wrote: " + key; return; }
                auto &x = exp[key];
                if (e.op == -3)
                {
                    std::map<u64, std::pair<int, int>> n;
                    u64 hour = T(3600, k.cfg.ms);
                    for (auto &p : x) { auto &h = n[p.first - p.first % hour]; h.first += p.second.first; h.second++; }
                    for (auto &p : s.dps)
                    {
                        if (!n.count(p.first) && p.second != 0) { out = "an hour nobody wrote to in " + key + ": " + dps_str(s.dps); return; }
                        auto h = n[p.first];
                        n.erase(p.first);
                        if (p.second < h.first || p.second > h.second) { out = fmt("%g points in hour %llu where %d to %d were written, ", p.second, (unsigned long long)p.first, h.first, h.second) + key + ": " + dps_str(s.dps); return; }
                    }
                    for (auto &h : n) if (h.second.first) { out = fmt("hour %llu is missing in ", (unsigned long long)h.first) + key + ": " + dps_str(s.dps); return; }
                    continue;
                }
                u64 last = 0;
                std::map<u64, double> got;
                for (auto &p : s.dps)
                {
                    if (p.first <= last) { out = fmt("instant %llu after %llu in ", (unsigned long long)p.first, (unsigned long long)last) + key + ": " + dps_str(s.dps); return; }
                    last = p.first;
                    got[p.first] = p.second;
                    if (!x.count(p.first)) { out = fmt("a point nobody wrote at %llu in ", (unsigned long long)p.first) + key + ": " + dps_str(s.dps); return; }
                    bool any = false;
                    for (double v : x[p.first].second) any |= close_to(p.second, v, tol, 0);
                    if (!any) { out = fmt("value %s at %llu in ", num(p.second).c_str(), (unsigned long long)p.first) + key; return; }
                }
                for (auto &p : x) if (p.second.first && !got.count(p.first)) { out = fmt("the point at %llu of ", (unsigned long long)p.first) + key + " was written before the query and is missing: " + dps_str(s.dps); return; }
            }
            for (auto &s : exp)
                for (auto &p : s.second) if (p.second.first && !seen.count(s.first)) { out = "series " + s.first + " was written before the query and is missing"; return; }
        }
        // in the end everything is there
        for (size_t t = 0; t < k.th.size(); t++)
            for (int i : k.th[t]) if (i >= 0)
                for (auto &x : all[i].w) (*m)[x.metric + "|" + sort_tags(x.tags)][T(x.ts, k.cfg.ms)].clear();
        for (size_t t = 0; t < k.th.size(); t++)
            for (int i : k.th[t]) if (i >= 0)
                for (auto &x : all[i].w) (*m)[x.metric + "|" + sort_tags(x.tags)][T(x.ts, k.cfg.ms)].insert(x.v);
        out = observe(*m, k.cfg.ms, tol, 4);
        if (!out.empty()) out = "in the end: " + out;
    };
    return b;
}

static void run_case(Ctx &c, const Case &k, int bound, u64 cap)
{
    std::string home = c.dir + "/db", tmpl;
    Model base;
    if (!preludes()[k.pre].fn)
    {
        tmpl = c.dir + "/tmpl";
        if (!make_template(c, tmpl, k.cfg, base)) return;
    }
    std::string name = case_name(k);
    Explored ex;
    explore(c, name, [&]() { return body(k, home, tmpl, &base); }, bound, cap,
        [](const Execution &e) { return !e.end.empty() ? e.end : e.out; }, &ex);
    c.sample(fmt("%s: bound %d, %llu schedules, at most %llu decisions, %d racy places, %zu outcomes", name.c_str(), bound, (unsigned long long)ex.executions, (unsigned long long)ex.max_steps, ex.racy, ex.outcomes.size()));
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    static auto all = ops();
    static auto pre = preludes();
    auto op = [](const std::string &n) { for (size_t i = 0; i < all.size(); i++) if (all[i].name == n) return (int)i; return -1; };
    auto pr = [](const std::string &n) { for (size_t i = 0; i < pre.size(); i++) if (pre[i].name == n) return (int)i; return -1; };
    auto add = [&](const Case &k, int bound, u64 cap)
    {
        jobs.push_back({fmt("b%d-", bound) + case_name(k), [=](Ctx &c)
        {
            Case x = k;
            x.cap = capacity(c, k.cfg, 1, 7);
            run_case(c, x, bound, cap);
        }});
    };
    std::vector<Cfg> cfgs = {{4, 256, false}, {0, 128, false}};
    if (th) { cfgs.push_back({3, 128, true}); cfgs.push_back({2, 128, false, true}); cfgs.push_back({1, 256, false}); }
    u64 cap = th ? 20000 : 3000;
    for (auto &cfg : cfgs)
        for (size_t p = 0; p < pre.size(); p++)
            for (size_t a = 0; a < all.size(); a++)
            {
                if (!th && cfg.comp == 0 && pre[p].name != "page0" && pre[p].name != "pages" && pre[p].name != "ooo") continue;
                if (!th && (pre[p].name == "page-1" || pre[p].name == "page1") && all[a].w.empty()) continue;
                if (!th && pre[p].name == "empty" && all[a].name == "past") continue;
                int q = !all[a].w.empty() && all[a].w[0].metric == "me" ? -2 : -1;
                add(Case{cfg, 0, (int)p, {{q}, {(int)a}}}, 1, cap);
                if (q == -2 && (th || pre[p].name == "reopened" || pre[p].name == "series")) add(Case{cfg, 0, (int)p, {{-4}, {(int)a}}}, 1, cap);
            }
    for (size_t p = 0; p < pre.size(); p++)
        for (const char *a : {"s2", "ooo", "next", "past", "archive", "rotate"})
            if (th || (pre[p].name != "page-1" && pre[p].name != "page1" && (pre[p].name != "empty" || strcmp(a, "past")))) add(Case{{4, 256, false}, 0, (int)p, {{-3}, {op(a)}}}, 1, cap);
    // two preemptions
    if (th)
        for (const char *p : {"page0", "pages", "pastpage", "earlier"})
            for (const char *a : {"s2", "ooo", "next", "archive", "rotate"})
                add(Case{{4, 256, false}, 0, pr(p), {{-1}, {op(a)}}}, 2, cap);
    // a writer and a job, or two queries
    for (const char *p : {"page0", "pages", "earlier"})
        for (const char *w : {"s2", "ooo", "h2", "next"})
            for (const char *b : {"flush", "archive", "rotate"})
                if (th || (!strcmp(p, "page0") && (*w == 's' || *w == 'o') && *b != 'r')) add(Case{{4, 256, false}, 0, pr(p), {{-1}, {op(w)}, {op(b)}}}, 1, cap);
}
