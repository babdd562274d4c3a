// C05: points written at the same time are all stored, each series once, with identities that survive a restart.
#include "conc.h"
using namespace vh;

const char *vh::g_rule =
    "all schedules with at most 1 (single-operation pairs of the main configurations and thorough: 2) preemptions, placed at locks, atomics and every unprotected shared access, of every pair and selected triples of writers "
    "(new metric, new series, the same series, the same instant, a page that fills up, out-of-order points, a new day, several series in one request, measurements and their fields) over databases with nothing, with the series, with a page about to fill, with an earlier day, with archived or reopened data; "
    "then every metric is queried, the server is stopped (or killed after a log flush) and started again and everything is queried again. "
    "Non-trivial = a schedule with at least one preemption";

// --------------------------------------------------------------------- body --
static std::string enc_model(const Model &m)
{
    std::string s = "model\n";
    for (auto &k : m) for (auto &p : k.second) for (double v : p.second) s += fmt("%s %llu %.17g\n", k.first.c_str(), (unsigned long long)p.first, v);
    return s;
}

// in a fresh process: everything is still there and the identities still take points
static void restart(const Case &k, const std::string &home, const std::string &in, std::string &o)
{
    Model m;
    size_t at = in.find('\n') + 1;
    while (at < in.size())
    {
        char key[256];
        unsigned long long ts;
        double v;
        sscanf(in.c_str() + at, "%255s %llu %lf", key, &ts, &v);
        m[key][ts].insert(v);
        at = in.find('\n', at) + 1;
    }
    double tol = tol_of(k.cfg);
    db_start(home, conf_of(k.cfg));
    o = observe(m, k.cfg.ms, tol, 4);
    if (!o.empty()) return;
    Model m2 = m;
    for (auto &s : m)
    {
        size_t bar = s.first.find('|');
        std::string tags = s.first.substr(bar + 1);
        Op x;
        if (tags.find("_field") == std::string::npos) x = Op{"", 'p', {Wr{s.first.substr(0, bar), tags, B5 + 2 * DAY + 3000, 99.0}}};
        else
        {
            // _field sorts before h
            size_t c = tags.find(',');
            x = Op{"", 'l', {Wr{s.first.substr(0, bar), tags.substr(c + 1) + "," + tags.substr(0, c), B5 + 2 * DAY + 3000, 99.0}}};
        }
        pre_write(m2, x, k.cfg.ms);
    }
    o = observe(m2, k.cfg.ms, tol, 4);
    if (!o.empty()) o = "after one more point each: " + o;
}

static SchedBody body(const Case &k, const std::string &home, const std::string &tmpl, const Model *base)
{
    SchedBody b;
    auto m = std::make_shared<Model>(*base);
    auto bad = std::make_shared<std::string>();
    auto later = std::make_shared<Later>();
    static auto all = ops();
    b.setup = [=]()
    {
        remove_tree(home);
        if (!tmpl.empty()) copy_tree(tmpl, home);
        set_clock_ms((B5 + 2 * DAY + 3600) * 1000);
        later->prepare([=](std::string &in, std::string &o) { restart(k, home, in, o); });
        db_start(home, conf_of(k.cfg));
        if (tmpl.empty()) preludes()[k.pre].fn(k.cfg, k.cap, *m);
    };
    for (size_t t = 0; t < k.th.size(); t++)
        b.threads.push_back([=]() { for (int i : k.th[t]) if (!run_op(all[i], k.cfg.ms)) *bad = "write " + all[i].name + " was refused"; });
    b.finish = [=](std::string &out)
    {
        out = *bad;
        if (!out.empty()) return;
        // instants written by several threads may hold any of their values; within a thread the last one counts
        std::map<std::string, std::map<u64, std::map<size_t, double>>> w;
        for (size_t t = 0; t < k.th.size(); t++)
            for (int i : k.th[t])
                for (auto &x : all[i].w) w[x.metric + "|" + sort_tags(x.tags)][T(x.ts, k.cfg.ms)][t] = x.v;
        for (auto &s : w) for (auto &p : s.second)
        {
            auto &v = (*m)[s.first][p.first];
            v.clear();
            for (auto &x : p.second) v.insert(x.second);
        }
        double tol = tol_of(k.cfg);
        out = observe(*m, k.cfg.ms, tol, 4);
        if (!out.empty()) return;
        if (k.kill) bg_wal_flush();
        else db_stop();
        fflush(nullptr);
        ChildResult r = later->run(enc_model(*m));
        out = r.ok() ? (r.out.empty() ? "" : "after the restart: " + r.out) : "restart: " + r.why();
    };
    return b;
}

static void run_case(Ctx &c, const Case &k, int bound, u64 cap)
{
    std::string home = c.dir + "/db", tmpl;
    Model base;
    if (!preludes()[k.pre].fn)
    {
        tmpl = c.dir + "/tmpl";
        if (!make_template(c, tmpl, k.cfg, base)) return;
    }
    std::string name = case_name(k);
    Explored ex;
    explore(c, name, [&]() { return body(k, home, tmpl, &base); }, bound, cap,
        [](const Execution &e) { return !e.end.empty() ? e.end : e.out; }, &ex);
    c.sample(fmt("%s: %llu schedules, at most %llu decisions, %d racy places", name.c_str(), (unsigned long long)ex.executions, (unsigned long long)ex.max_steps, ex.racy));
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    static auto all = ops();
    static auto pre = preludes();
    auto op = [](const std::string &n) { for (size_t i = 0; i < all.size(); i++) if (all[i].name == n) return (int)i; return -1; };
    auto pr = [](const std::string &n) { for (size_t i = 0; i < pre.size(); i++) if (pre[i].name == n) return (int)i; return -1; };
    std::set<std::string> done;
    auto add = [&](const Cfg &cfg, int p, std::vector<int> o, int bound, u64 cap)
    {
        Case k{cfg, 0, p, {}, false};
        int sum = 0;
        for (int i : o) { k.th.push_back({i}); sum += i; }
        k.kill = sum % 2 == 1;
        std::string key = fmt("b%d-", bound) + case_name(k);
        if (!done.insert(key).second) return;
        jobs.push_back({key, [=](Ctx &c)
        {
            Case x = k;
            x.cap = capacity(c, cfg, 1, 7);
            run_case(c, x, bound, cap);
        }});
    };
    struct Set { const char *pre; std::vector<const char*> ops; };
    static const std::vector<Set> sets = {
        {"empty", {"s", "h2", "n", "nm", "la", "lb", "pf", "next", "past"}},
        {"page0", {"s2", "same", "ooo", "h2", "next", "flush", "archive", "rotate"}},
        {"earlier", {"s", "next", "past", "archive", "rotate"}},
        {"reopened", {"s", "n", "nm", "la", "pf", "archive", "gc"}},
    };
    for (auto &x : sets)
        for (size_t a = 0; a < x.ops.size(); a++)
            for (size_t b = a; b < x.ops.size(); b++)
            {
                if (!th && !strcmp(x.pre, "empty") && !strcmp(x.ops[b], "past") && strcmp(x.ops[a], "s") && strcmp(x.ops[a], "past")) continue;     // many schedules
                add({4, 256, false}, pr(x.pre), {op(x.ops[a]), op(x.ops[b])}, 1, th ? 20000 : 800);
                if (!strcmp(x.pre, "page0") && a < 3) add({0, 128, false}, pr(x.pre), {op(x.ops[a]), op(x.ops[b])}, 1, th ? 20000 : 800);
            }
    static const std::vector<std::pair<const char*, std::vector<const char*>>> triples = {
        {"empty", {"s", "h2", "n"}}, {"empty", {"n", "nm", "s"}}, {"empty", {"s", "s", "s"}}, {"empty", {"la", "lb", "la"}},
        {"page0", {"s2", "next", "ooo"}}, {"page0", {"s2", "ooo", "flush"}}, {"page0", {"s2", "h2", "archive"}}, {"reopened", {"s", "n", "nm"}},
    };
    for (auto &t : triples)
    {
        std::vector<int> o;
        for (auto x : t.second) o.push_back(op(x));
        add({4, 256, false}, pr(t.first), o, 1, th ? 20000 : 500);
    }
    if (!th) return;
    for (auto &cfg : std::vector<Cfg>{{4, 256, false}, {0, 128, false}, {3, 128, true}})
        for (size_t p = 0; p < pre.size(); p++)
            for (size_t a = 0; a < all.size(); a++)
                for (size_t b = a; b < all.size(); b++)
                    if (cfg.comp == 4 || pre[p].name.find("page") != std::string::npos)
                        add(cfg, (int)p, {(int)a, (int)b}, 1, 4000);
    for (auto &x : sets)
        for (size_t a = 0; a < x.ops.size(); a++)
            for (size_t b = a; b < x.ops.size(); b++)
                add({4, 256, false}, pr(x.pre), {op(x.ops[a]), op(x.ops[b])}, 2, 4000);
}
