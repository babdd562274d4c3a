// C16, concurrent part: a rotation that removes a day next to queries and writers.
#include "conc.h"
using namespace vh;

const char *vh::g_rule =
    "all schedules with at most 1 (thorough: 2) preemptions of a rotation that removes the oldest of more days than the retention period counts next to a query of everything, of that day, of hourly counts, a write to that day, to a kept day, archiving, collection, another rotation (thorough: and of a rotation, a write and a query); "
    "the day is there as a whole or not at all, other days are complete, a later rotation removes what was written meanwhile. Non-trivial = a schedule with at least one preemption";

namespace
{

const u64 OLD = B5, KEPT = B5 + 3 * DAY, TODAY = B5 + 4 * DAY, CLOCK = TODAY + 5 * 3600;

struct P { const char *metric, *h; u64 t; double v; };
const std::vector<P> g_old = {{"m", "1", OLD + 100, 1.5}, {"m", "1", OLD + 50000, 2.5}, {"m", "2", OLD + 200, 3.5}, {"o", "1", OLD + 300, 4.5}};
const std::vector<P> g_kept = {{"m", "1", KEPT + 100, 5.5}, {"m", "1", TODAY + 100, 6.5}, {"m", "2", TODAY + 100, 7.5}, {"o", "1", KEPT + 300, 8.5}};

bool put(const std::vector<P> &w)
{
    std::string b;
    for (auto &x : w) b += fmt("put %s %llu %s h=%s\n", x.metric, (unsigned long long)x.t, num(x.v).c_str(), x.h);
    return put_plain(b).status == 200;
}

struct Act { const char *name; char kind; std::vector<P> w; };
const std::vector<Act> g_acts = {
    {"rotate", 'r', {}},
    {"query", 'q', {}},
    {"queryold", 'o', {}},
    {"hours", 'h', {}},
    {"writeold", 'w', {{"m", "1", OLD + 60000, 9.5}}},
    {"rewriteold", 'w', {{"m", "1", OLD + 100, 10.5}}},
    {"writenew", 'w', {{"m", "1", TODAY + 200, 11.5}}},
    {"writekept", 'w', {{"m", "1", KEPT + 200, 12.5}, {"n", "1", KEPT + 200, 13.5}}},
    {"archive", 'a', {}},
    {"gc", 'g', {}},
};

typedef std::map<std::string, std::map<u64, double>> Data;     // "metric|h" -> points

bool fetch(u64 from, u64 to, Data &d, std::string &err)
{
    for (const char *m : {"m", "o"})
    {
        std::vector<Series> s;
        if (!query_raw(m, from, to, false, s, &err)) return false;
        for (auto &x : s)
            for (auto &p : x.dps)
                if (!d[std::string(m) + "|" + x.tags["h"]].insert({p.first, p.second}).second) { err = "an instant twice"; return false; }
    }
    return true;
}

// the part of a day or of the rest; which of the candidates it is, or -1
int which(const Data &d, bool old, const std::vector<std::vector<P>> &cand, std::string &shown)
{
    Data got;
    for (auto &s : d) for (auto &p : s.second) if ((p.first < OLD + DAY) == old) got[s.first].insert(p);
    shown.clear();
    for (auto &s : got) for (auto &p : s.second) shown += fmt(" %s@%llu=%s", s.first.c_str(), (unsigned long long)p.first, num(p.second).c_str());
    for (size_t i = 0; i < cand.size(); i++)
    {
        Data e;
        for (auto &x : cand[i]) if (strcmp(x.metric, "n")) e[std::string(x.metric) + "|" + x.h][x.t] = x.v;
        bool same = e.size() == got.size();
        for (auto &s : e)
        {
            if (!same) break;
            auto &g = got[s.first];
            same = g.size() == s.second.size();
            for (auto &p : s.second) same = same && g.count(p.first) && close_to(g[p.first], p.second, 1e-6, 0);
        }
        if (same) return (int)i;
    }
    return -1;
}

struct Ev { const Act *a; bool ok = false; std::string err; Data got; std::vector<Series> hours; };

SchedBody body(const std::vector<int> &th, const std::string &home, const std::string &tmpl, bool used)
{
    SchedBody b;
    auto ev = std::make_shared<std::vector<Ev>>(th.size());
    b.setup = [=]()
    {
        remove_tree(home);
        copy_tree(tmpl, home);
        set_clock_ms(CLOCK * 1000);
        Conf conf = conf_of({4, 256, false});
        conf["tsdb.retention.threshold"] = "2d";
        db_start(home, conf);
        Data d;
        std::string e;
        if (used) fetch(OLD - DAY, TODAY + DAY, d, e);
        set_clock_ms((CLOCK + 7200) * 1000);
    };
    for (size_t t = 0; t < th.size(); t++)
        b.threads.push_back([=]()
        {
            Ev &e = (*ev)[t];
            e.a = &g_acts[th[t]];
            switch (e.a->kind)
            {
                case 'r': bg_rotate(); e.ok = true; break;
                case 'a': bg_archive_ts(); e.ok = true; break;
                case 'g': bg_gc(); e.ok = true; break;
                case 'q': e.ok = fetch(OLD - DAY, TODAY + DAY, e.got, e.err); break;
                case 'o': e.ok = fetch(OLD, OLD + DAY - 1, e.got, e.err); break;
                case 'w': e.ok = put(e.a->w); break;
                case 'h':
                {
                    Resp r = query_post(fmt("{\"start\":%llu,\"end\":%llu,\"queries\":[{\"metric\":\"m\",\"aggregator\":\"none\",\"downsample\":\"1h-count\"}]}", (unsigned long long)(OLD - DAY), (unsigned long long)(TODAY + DAY)));
                    e.ok = r.status == 200 && parse_series(r.body, e.hours);
                    break;
                }
            }
        });
    b.finish = [=](std::string &out)
    {
        std::vector<P> added, addnew;
        for (auto &e : *ev) for (auto &x : e.a->w) (x.t < OLD + DAY ? added : addnew).push_back(x);
        std::vector<P> all = g_old, kept = g_kept;
        for (auto &x : added) all.push_back(x);
        for (auto &x : addnew) kept.push_back(x);
        std::vector<std::vector<P>> old = {{}, g_old}, rest = {kept, g_kept};
        if (!added.empty()) { old.push_back(all); old.push_back(added); }
        std::string s;
        for (auto &e : *ev)
        {
            if (!e.ok) { out = fmt("%s failed: ", e.a->name) + e.err; return; }
            if (e.a->kind == 'q' || e.a->kind == 'o')
            {
                if (which(e.got, true, old, s) < 0) { out = fmt("%s saw a part of the old day:", e.a->name) + s; return; }
                if (e.a->kind == 'q' && which(e.got, false, rest, s) < 0) { out = fmt("%s saw wrong data of kept days:", e.a->name) + s; return; }
            }
            if (e.a->kind == 'h')
                for (auto &x : e.hours)
                {
                    double k = 0, o = 0;
                    for (auto &p : x.dps) (p.first < OLD + DAY ? o : k) += p.second;
                    double want = x.tags["h"] == "1" ? 2 : 1;
                    for (auto &a : addnew) if (!strcmp(a.metric, "m") && x.tags["h"] == a.h && k > want) want++;
                    if (k != want) { out = fmt("hourly counts of kept days of series %s add up to %g instead of %g", x.tags["h"].c_str(), k, want); return; }
                }
        }
        Data d;
        std::string err;
        if (!fetch(OLD - DAY, TODAY + DAY, d, err)) { out = "query in the end failed: " + err; return; }
        if (which(d, true, old, s) < 0) { out = "in the end there is a part of the old day:" + s; return; }
        if (which(d, false, {kept}, s) < 0) { out = "in the end kept days are wrong:" + s; return; }
        // once everything is idle the old day goes for good, and can be written to again
        set_clock_ms((CLOCK + 7200 + 2 * DAY) * 1000);
        bg_archive_ts();
        set_clock_ms((CLOCK + 14400 + 2 * DAY) * 1000);
        bg_rotate();
        d.clear();
        if (!fetch(OLD - DAY, OLD + DAY - 1, d, err)) { out = "query after the second rotation failed: " + err; return; }
        if (which(d, true, {{}}, s) < 0) { out = "the old day is still there after a second rotation:" + s; return; }
        for (auto &f : list_tree(home + "/data"))
            if (f.find(fmt("%llu.%llu", (unsigned long long)OLD, (unsigned long long)(OLD + DAY))) != std::string::npos) { out = "the old day left " + f; return; }
        std::vector<P> again = {{"m", "1", OLD + 777, 20.5}, {"m", "2", OLD + 777, 21.5}};
        if (!put(again)) { out = "write to a removed day was refused"; return; }
        d.clear();
        if (!fetch(OLD - DAY, OLD + DAY - 1, d, err)) { out = "query of a day written again failed: " + err; return; }
        if (which(d, true, {again}, s) < 0) { out = "a removed day written again is wrong:" + s; return; }
    };
    return b;
}

}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool deep = tier == "thorough";
    auto add = [&](std::vector<int> th, bool used, int bound, u64 cap)
    {
        std::string name = fmt("b%d%s", bound, used ? "-used" : "");
        for (int i : th) name += std::string("-") + g_acts[i].name;
        jobs.push_back({name, [=](Ctx &c)
        {
            std::string tmpl = c.dir + "/tmpl", home = c.dir + "/db";
            ChildResult r = in_child([&](std::string &) {
                set_clock_ms((OLD + DAY) * 1000);
                db_start(tmpl, conf_of({4, 256, false}));
                put(g_old);
                set_clock_ms(CLOCK * 1000);
                put(g_kept);
                db_stop();
            });
            if (!r.ok()) { c.violation("template", r.why()); return; }
            Explored ex;
            explore(c, name, [&]() { return body(th, home, tmpl, used); }, bound, cap, [](const Execution &e) { return !e.end.empty() ? e.end : e.out; }, &ex);
            c.sample(fmt("%s: %llu schedules, at most %llu decisions, %d racy places, %zu outcomes", name.c_str(), (unsigned long long)ex.executions, (unsigned long long)ex.max_steps, ex.racy, ex.outcomes.size()));
        }});
    };
    for (int used = 0; used < 2; used++)
        for (int a = 0; a < (int)g_acts.size(); a++)
            add({0, a}, used, 1, 4000);
    if (deep)
        for (int w : {4, 5, 6})
            for (int q : {1, 2, 8})
                add({0, w, q}, true, 1, 6000);
    if (deep)
        for (int used = 0; used < 2; used++)
            for (int a = 1; a < (int)g_acts.size(); a++)
                add({0, a}, used, 2, 30000);
}
