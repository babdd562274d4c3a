// C12: answers from rollup data equal answers from raw data.
#include "cfg.h"
using namespace vh;

const char *vh::g_rule =
    "all sequences of 5 in-order points over the steps {same hour, next hour, 5 hours, next day, next month} from several starts (end, middle and first instant of a month, of a year), as series of one metric, "
    "x every placement of one event, and of two, out of {restart, rollup job, restart or archiving followed by rollup jobs, rotation, query} (quick: a 24th of the pairs) x {avg, count, max, min, sum} x {1h .. 12h, 1d .. 1w} x ranges (whole, edges on and beside an interval edge) x fill policy, taking turns; "
    "the default answer and the raw-only answer are compared with the definition. Non-trivial = an event between two points";

namespace
{

struct Seq { std::vector<std::pair<u64, double>> w; };

u64 next_month(u64 t)
{
    time_t x = (time_t)t;
    struct tm m;
    gmtime_r(&x, &m);
    m.tm_mon++;
    m.tm_mday = 1;
    m.tm_hour = m.tm_min = m.tm_sec = 0;
    return (u64)timegm(&m);
}

u64 step(u64 t, int k)
{
    switch (k)
    {
        case 0: return t + 500;
        case 1: return t - t % 3600 + 3600;             // first instant of the next hour
        case 2: return t + 5 * 3600;
        case 3: return t + DAY;
        case 4: return next_month(t) + 7300;
        case 5: return next_month(next_month(t));
    }
    return t;
}

double value(int pat, int s, int i)
{
    switch (pat)
    {
        case 0: return 1.5 * (i + 1) + s;
        case 1: return (i % 2 ? -1 : 1) * (1000.25 * (i + 1) + s * 3);
        case 2: return 2.5e12 + i * 1e9 + s;                    // large
        case 3: return i % 3 == 1 ? 0.0 : -0.001 * (i + 1);
        case 4: return i % 2 ? 4.0e9 : -1e-6;
    }
    return 1;
}

typedef std::map<size_t, std::string> Events;

std::string ev_str(const Events &e)
{
    std::string s;
    for (auto &x : e) s += fmt("%s%zu%s", s.empty() ? "" : ".", x.first, x.second.c_str());
    return s.empty() ? "none" : s;
}

struct Iv { const char *name; u64 sec; };

bool ask(bool ms, bool qms, u64 from, u64 to, const std::string &metric, const char *iv, const char *fn, bool raw, const std::string &tag, std::vector<Series> &out, std::string &err)
{
    Resp r = query_post(fmt("{\"start\":%llu,\"end\":%llu,%s\"queries\":[{\"metric\":\"%s\",\"aggregator\":\"none\",\"downsample\":\"%s-%s\"%s%s}]}",
        (unsigned long long)T(from, ms), (unsigned long long)T(to, ms), qms ? "\"msResolution\":true," : "", metric.c_str(), iv, fn,
        raw ? ",\"rollupUsage\":\"ROLLUP_RAW\"" : "", tag.empty() ? "" : (",\"tags\":{\"h\":\"" + tag + "\"}").c_str()));
    if (r.status != 200) { err = fmt("status %d ", r.status) + r.body.substr(0, 200); return false; }
    if (!parse_series(r.body, out)) { err = "unreadable: " + r.body.substr(0, 200); return false; }
    return true;
}

struct Run { Cfg cfg; Conf extra; int pat = 0; std::vector<Seq> seqs; std::string name; };

// answers after the first n points of every series
std::string observe(const Run &r, size_t n, size_t density, size_t salt)
{
    static const std::vector<Iv> ivs = {{"1h", 3600}, {"2h", 7200}, {"5h", 18000}, {"12h", 43200}, {"1d", 86400}, {"2d", 172800}, {"1w", 604800}, {"24h", 86400}, {"60m", 3600}};
    static const char *fns[] = {"sum", "count", "avg", "max", "min"};
    bool ms = r.cfg.ms;
    u64 lo = ~0ull, hi = 0;
    for (auto &s : r.seqs) for (size_t i = 0; i < n && i < s.w.size(); i++) { lo = std::min(lo, s.w[i].first); hi = std::max(hi, s.w[i].first); }
    if (!hi) return "";
    u64 d0 = lo - lo % DAY, mid = lo + (hi - lo) / 2;
    std::vector<std::pair<u64, u64>> ranges = {{d0 - 2 * DAY, hi + 9 * DAY}, {lo, hi}, {lo - lo % 3600, hi - hi % 3600}, {lo + 1, hi - hi % 3600 - 1}, {d0 + DAY, d0 + 2 * DAY}, {mid - mid % DAY, hi - hi % DAY}, {lo, mid}, {next_month(lo), hi + 1}, {lo - DAY, next_month(lo) - 1}, {lo - DAY, next_month(lo)}};
    size_t turn = 0;
    for (auto &rg : ranges)
    {
        if (rg.first > rg.second) continue;
        for (auto &iv : ivs)
            for (auto fn : fns)
            {
                turn++;
                // functions take turns on the whole range, the rest on the others
                if (&rg == &ranges[0] ? (turn + salt) % 5 > 1 : (turn + salt) % density != 0) continue;
                bool qms = ms || (turn + salt) % 4 == 0;
                if ((turn + salt) % 9 == 4)
                {
                    // with filled gaps: the two answers must be the same
                    static const char *fills[] = {"-zero", "-nan", "-null"};
                    std::string f = std::string(fn) + fills[(turn + salt) % 3], err;
                    std::vector<Series> a, b;
                    std::string what = fmt("%s-%s from %llu to %llu after %zu points: ", iv.name, f.c_str(), (unsigned long long)rg.first, (unsigned long long)rg.second, n);
                    if (!ask(ms, qms, rg.first, rg.second, "m", iv.name, f.c_str(), false, fmt("%zu", (turn * 7 + salt) % r.seqs.size()), a, err)) return what + err;
                    if (!ask(ms, qms, rg.first, rg.second, "m", iv.name, f.c_str(), true, fmt("%zu", (turn * 7 + salt) % r.seqs.size()), b, err)) return what + err;
                    std::map<std::string, Series*> m;
                    for (auto &x : b) m[x.key()] = &x;
                    if (a.size() != b.size()) return what + fmt("%zu series by default, %zu raw", a.size(), b.size());
                    for (auto &x : a)
                    {
                        auto &y = m[x.key()];
                        bool ok = y && x.dps.size() == y->dps.size();
                        for (size_t i = 0; ok && i < x.dps.size(); i++)
                        {
                            double p = x.dps[i].second, q = y->dps[i].second;
                            ok = x.dps[i].first == y->dps[i].first && ((std::isnan(p) && std::isnan(q)) || fabs(p - q) <= 1e-6 + 1e-9 * fabs(q));
                        }
                        if (!ok) return what + x.key() + " default " + dps_str(x.dps) + " raw " + (y ? dps_str(y->dps) : "nothing");
                    }
                    continue;
                }
                // the definition: the intervals beginning inside the range, whole
                u64 from = (rg.first + iv.sec - 1) / iv.sec * iv.sec, to = rg.second / iv.sec * iv.sec + iv.sec - 1;
                u64 unit = qms ? 1000 : 1;
                std::map<std::string, std::map<u64, std::vector<double>>> exp;
                size_t one = (turn + salt) % r.seqs.size();
                bool single = (turn + salt) % 7 == 3;
                for (size_t s = 0; s < r.seqs.size(); s++)
                    for (size_t i = 0; i < n && i < r.seqs[s].w.size(); i++)
                    {
                        u64 t = r.seqs[s].w[i].first;
                        if (t < from || t > to || (single && s != one)) continue;
                        exp[fmt("%zu", s)][t / iv.sec * iv.sec * unit].push_back(r.seqs[s].w[i].second);
                    }
                for (int raw = 0; raw < ((turn + salt) % 6 == 0 ? 2 : 1); raw++)
                {
                    std::vector<Series> got;
                    std::string err, what = fmt("%s %s-%s%s from %llu to %llu after %zu points: ", raw ? "raw" : "default", iv.name, fn, qms ? " (ms)" : "", (unsigned long long)rg.first, (unsigned long long)rg.second, n);
                    if (!ask(ms, qms, rg.first, rg.second, "m", iv.name, fn, raw, single ? fmt("%zu", one) : "", got, err)) return what + err;
                    std::set<std::string> seen;
                    for (auto &g : got)
                    {
                        if (g.tags.size() != 1 || !g.tags.count("h")) return what + "strange tags";
                        std::string h = g.tags.at("h");
                        if (!seen.insert(h).second) return what + "series " + h + " twice";
                        if (!exp.count(h)) { if (g.dps.empty()) continue; return what + "series " + h + " has nothing in the range but got " + dps_str(g.dps); }
                        auto &e = exp[h];
                        std::string es;
                        bool ok = g.dps.size() == e.size();
                        auto it = e.begin();
                        for (size_t i = 0; it != e.end(); ++it, i++)
                        {
                            double sum = 0, mx = -1e300, mn = 1e300, abs = 0;
                            for (double v : it->second) { sum += v; mx = std::max(mx, v); mn = std::min(mn, v); abs += fabs(v); }
                            size_t k = it->second.size();
                            double x = fn[0] == 's' ? sum : fn[0] == 'c' ? (double)k : fn[0] == 'a' ? sum / k : fn[1] == 'a' ? mx : mn;
                            es += fmt("%llu:%s ", (unsigned long long)it->first, num(x).c_str());
                            if (!ok) continue;
                            if (g.dps[i].first != it->first || !(fabs(g.dps[i].second - x) <= 1e-6 + 1e-9 * abs)) ok = false;
                        }
                        if (!ok)
                        {
                            std::string w;
                            for (size_t i = 0; i < n && i < r.seqs[atoi(h.c_str())].w.size(); i++) w += fmt(" %llu=%s", (unsigned long long)r.seqs[atoi(h.c_str())].w[i].first, num(r.seqs[atoi(h.c_str())].w[i].second).c_str());
                            return what + "series " + h + " (" + w + ") expected " + es + "got " + dps_str(g.dps);
                        }
                    }
                    for (auto &e : exp) if (!seen.count(e.first)) return what + "series " + e.first + " is missing";
                }
            }
    }
    return "";
}

void run(Ctx &c, const Run &r, const Events &ev)
{
    if (c.full()) return;
    std::string home = c.dir + "/db";
    remove_tree(home);
    size_t L = 0;
    for (auto &s : r.seqs) L = std::max(L, s.w.size());
    // the steps: +i = the i-th point of every series, otherwise an event
    std::vector<std::pair<char, size_t>> steps;
    for (size_t i = 0; i <= L; i++)
    {
        auto e = ev.find(i);
        if (e != ev.end()) for (char x : e->second) steps.push_back({x, i});
        if (i < L) steps.push_back({'+', i});
    }
    Conf conf = conf_of(r.cfg);
    for (auto &x : r.extra) conf[x.first] = x.second;
    conf["tsdb.rollup.pause"] = "0sec";
    size_t at = 0, salt = hash64(r.name + ev_str(ev)) % 1000;
    std::string bad;
    u64 clock = 0;
    while (at <= steps.size() && bad.empty())
    {
        size_t stop = at;
        while (stop < steps.size() && steps[stop].first != 'R') stop++;
        u64 clock2 = clock;
        for (size_t k = at; k < stop; k++) { if (steps[k].first == '+') for (auto &s : r.seqs) if (steps[k].second < s.w.size()) clock2 = std::max(clock2, s.w[steps[k].second].first); if (steps[k].first == 'V') clock2 += 40 * DAY; if (steps[k].first == 'A' || steps[k].first == 'G') clock2 += 9 * DAY; }
        ChildResult res = in_child([&](std::string &out)
        {
            u64 now = clock;
            if (!now) for (auto &s : r.seqs) now = std::max(now, s.w[0].first);
            set_clock_ms(now * 1000);
            db_start(home, conf);
            size_t n = 0;
            for (size_t k = 0; k < at; k++) if (steps[k].first == '+') n++;
            for (size_t k = at; k < stop; k++)
            {
                char x = steps[k].first;
                if (x == '+')
                {
                    std::string body;
                    for (size_t s = 0; s < r.seqs.size(); s++)
                    {
                        if (n >= r.seqs[s].w.size()) continue;
                        auto &p = r.seqs[s].w[n];
                        now = std::max(now, p.first);
                        body += fmt("put m %llu %s h=%zu\n", (unsigned long long)T(p.first, r.cfg.ms), num(p.second).c_str(), s);
                        if (body.size() > 20000) { put_plain(body); body.clear(); }
                    }
                    set_clock_ms(now * 1000);
                    if (!body.empty()) put_plain(body);
                    n++;
                }
                else if (x == 'U') { bg_rollup(); bg_rollup(); }
                else if (x == 'V') { now += 40 * DAY; set_clock_ms(now * 1000); for (int i = 0; i < 6; i++) bg_rollup(); }
                else if (x == 'A') { now += 9 * DAY; set_clock_ms(now * 1000); bg_archive_ts(); }
                else if (x == 'G') { now += 9 * DAY; set_clock_ms(now * 1000); bg_rotate(); }
                else if (x == 'Q') { out = observe(r, n, 23, salt + k); if (!out.empty()) return; }
            }
            out = observe(r, n, stop == steps.size() ? 7 : 29, salt + stop);
            if (out.empty()) db_stop();
        }, 120);
        if (!res.ok()) bad = "the server died: " + res.why();
        else bad = res.out;
        clock = clock2;
        at = stop + 1;
    }
    c.eval(r.seqs.size());
    c.states += r.seqs.size();
    c.transitions += r.seqs.size() * steps.size();
    bool between = false;
    for (auto &e : ev) between |= e.first > 0 && e.first < L;
    if (between) c.nt(r.seqs.size());
    std::string es = ev_str(ev);
    c.outcome(bad.substr(0, 40));
    if (!bad.empty()) c.violation(r.name + "/" + es, bad);
    c.sample(r.name + " events " + es);
    remove_tree(home);
}

void gen(u64 start, int L, int steps, int pat, std::vector<Seq> &out)
{
    size_t n = 1;
    for (int i = 1; i < L; i++) n *= steps;
    for (size_t k = 0; k < n; k++)
    {
        Seq s;
        u64 t = start;
        size_t x = k;
        for (int i = 0; i < L; i++)
        {
            s.w.push_back({t, value(pat, (int)out.size() % 7, i)});
            t = step(t, x % steps);
            x /= steps;
        }
        out.push_back(s);
    }
}

}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    struct Start { const char *name; u64 t; };
    static const std::vector<Start> starts = {
        {"monthend", 1698789000},       // 31 October 2023 21:50
        {"first", 1698796800},          // 1 November 2023 00:00:00
        {"middle", 1700046000 + 1800},  // 15 November 2023 11:30
        {"yearend", 1703980000},        // 30 December 2023 23:46
        {"leap", 1709161200},           // 28 February 2024 23:00
    };
    struct Kind { const char *name; Cfg cfg; Conf extra; };
    static const std::vector<Kind> kinds = {
        {"s", {4, 256, false}, {{"tsdb.rollup.buckets", "1"}}},
        {"ms", {4, 256, true}, {{"tsdb.rollup.buckets", "2"}}},
        {"v1", {4, 256, false}, {{"tsdb.rollup.buckets", "1"}, {"tsdb.rollup.level1.compressor.version", "1"}}},
        {"p64", {1, 64, false}, {{"tsdb.rollup.buckets", "1"}}},
    };
    static const std::vector<std::string> evs = {"R", "U", "RU", "AU", "RV", "AV", "RVR", "G", "Q", "RQ", "GRV"};
    for (auto &k : kinds)
        for (auto &s : starts)
            for (int pat = 0; pat < 5; pat++)
                for (int few = 0; few < 2; few++)
                {
                    // all values with the plain configuration, plain values with all configurations
                    if (!th && pat && strcmp(k.name, "s")) continue;
                    if (!th && pat && (few || (&s != &starts[0] && &s != &starts[3]))) continue;
                    if (!th && strcmp(k.name, "s") && (few || &s == &starts[2] || &s == &starts[4])) continue;
                    std::string name = fmt("%s-%s-p%d%s", k.name, s.name, pat, few ? "-few" : "");
                    int L = th ? 5 : 4;
                    for (int pos = 0; pos <= L; pos++)
                        jobs.push_back({name + fmt("/%d", pos), [=](Ctx &c)
                        {
                            Run r;
                            r.cfg = k.cfg;
                            r.extra = k.extra;
                            r.pat = pat;
                            r.name = name;
                            gen(s.t, L, 5, pat, r.seqs);
                            std::vector<Run> rs;
                            if (few)
                            {
                                // few series: everything stays in the buffer of the rollup file
                                for (size_t i = 0; i < r.seqs.size(); i += th ? 5 : 18)
                                {
                                    Run q = r;
                                    q.name = fmt("%s.%zu", name.c_str(), i);
                                    q.seqs = {r.seqs[i]};
                                    if (i % 2) q.seqs.push_back(r.seqs[(i * 7) % r.seqs.size()]);
                                    rs.push_back(q);
                                }
                            }
                            else rs.push_back(r);
                            for (auto &q : rs)
                            {
                                if (pos == 0) run(c, q, {});
                                for (auto &e : evs)
                                {
                                    run(c, q, {{(size_t)pos, e}});
                                    if (few && !th) continue;
                                    if (pat && !th) continue;
                                    for (int p2 = pos + 1; p2 <= L; p2++)
                                        for (auto &e2 : evs)
                                        {
                                            if (!th && (hash64(e + e2 + name) + pos + p2) % 24) continue;
                                            run(c, q, {{(size_t)pos, e}, {(size_t)p2, e2}});
                                        }
                                }
                            }
                        }});
                }
}
