// C16: housekeeping changes no answer about a day to be kept; retention removes whole days, the oldest first.
#include "cfg.h"
using namespace vh;

const char *vh::g_rule =
    "all strings of up to 3 (thorough: 4) symbols out of {point now, yesterday, 3 days ago, tomorrow, burst now, burst yesterday, query, one day on, 3 days on, an hour on, archive idle series, rotate, free memory, "
    "write-ahead flush, restart} after each of several preludes (several days, archived days, late pages, gaps between days) x {no retention, 2 days, 36 hours (counts as 1 day), 1 day, 3 days} from the middle, the end and the first instant of a day, and the end of a month; then an idle hour, archiving, rotation, query, late points, query, idle days, archiving, rotation, query, another rotation, query, late points, query, restart, query. Retention keeps as many of the latest days holding data as the period counts; a rotation removes at most the oldest day. "
    "Non-trivial = a housekeeping job or a clock step after the first point";

namespace
{

struct W1 { int series; u64 t; double v; size_t at; };      // at: position in the string

struct Setup { std::string name; Cfg cfg; Conf extra; u64 retention, start; };

struct World
{
    u64 now;
    int n = 0;
    std::vector<W1> w;
    std::map<u64, std::set<size_t>> cuts;       // day -> possible positions of its last removal (0: never)
};

// series 0, 1: metric m; series 2: metric n. The third is only written by bursts.
const char *metric_of(int s) { return s == 2 ? "n" : "m"; }

void points_of(char x, const World &w, size_t at, std::vector<W1> &out)
{
    auto one = [&](int s, u64 t, int k) { out.push_back({s, t, 1.5 + (w.n + k) * 3 + s * 0.25, at}); };
    int n = w.n;
    switch (x)
    {
        case 't': one(0, w.now + n, 0); break;
        case 'y': one(0, w.now - DAY + n, 0); one(1, w.now - DAY + n, 1); break;
        case 'o': one(0, w.now - 3 * DAY + n, 0); break;
        case 'n': one(1, w.now + DAY + n, 0); break;
        case 'B': case 'b':
            for (int k = 0; k < 30; k++)
            {
                u64 t = w.now - (x == 'b' ? DAY : 0) + n + k * 7;
                one(0, t, k);
                if (k % 3 == 0) one(1, t + 1, k);
                if (k % 10 == 0) one(2, t + 2, k);
            }
            break;
    }
}

std::string days_on_disk(const std::string &home)
{
    std::string r;
    for (auto &f : list_tree(home + "/data"))
    {
        size_t p = f.find("/config");
        if (p != std::string::npos || f.find("/index") != std::string::npos) r += f + " ";
    }
    return r;
}

// "" or what is wrong; narrows the cuts
std::string compare(World &w, const Setup &s, const std::string &home, bool certain)
{
    bool ms = s.cfg.ms;
    if (w.w.empty()) return "";
    u64 lo = ~0ull, hi = 0;
    for (auto &p : w.w) { lo = std::min(lo, p.t); hi = std::max(hi, p.t); }
    // observed
    std::map<u64, std::map<int, std::map<u64, double>>> got;
    auto ask = [&](u64 from, u64 to, const char *m, std::map<u64, std::map<int, std::map<u64, double>>> &g) -> std::string
    {
        std::vector<Series> out;
        std::string err;
        if (!query_raw(m, T(from, ms), T(to, ms), ms, out, &err)) return err;
        for (auto &x : out)
        {
            if (!x.tags.count("h")) return "series without its tag";
            int id = atoi(x.tags.at("h").c_str());
            for (auto &d : x.dps)
            {
                u64 t = ms ? d.first / 1000 : d.first;
                if (t < from || t > to) return fmt("point at %llu outside of the range", (unsigned long long)t);
                if (!g[t / DAY][id].insert({t, d.second}).second) return fmt("point at %llu twice", (unsigned long long)t);
            }
        }
        return "";
    };
    for (const char *m : {"m", "n"})
    {
        std::string e = ask(lo - DAY, hi + DAY, m, got);
        if (!e.empty()) return e;
    }
    std::set<u64> days;
    for (auto &p : w.w) days.insert(p.t / DAY);
    for (auto &g : got) if (!days.count(g.first)) return fmt("data of day %llu came from nowhere", (unsigned long long)g.first);
    double tol = tol_of(s.cfg);
    for (u64 d : days)
    {
        std::set<size_t> c = w.cuts.count(d) ? w.cuts[d] : std::set<size_t>{0}, left;
        std::string first;
        for (size_t cut : c)
        {
            std::map<int, std::map<u64, double>> e;
            for (auto &p : w.w) if (p.t / DAY == d && p.at >= cut) e[p.series][p.t] = p.v;
            auto &g = got[d];
            std::string diff;
            for (int k = 0; k < 3 && diff.empty(); k++)
            {
                auto &a = e[k];
                auto &b = g[k];
                for (auto &x : a) if (!b.count(x.first)) { diff = fmt("series %d lacks %llu of %zu points (got %zu)", k, (unsigned long long)x.first, a.size(), b.size()); break; }
                        else if (fabs(b[x.first] - x.second) > tol) { diff = fmt("series %d has %s instead of %s at %llu", k, num(b[x.first]).c_str(), num(x.second).c_str(), (unsigned long long)x.first); break; }
                for (auto &x : b) if (diff.empty() && !a.count(x.first)) diff = fmt("series %d has a point at %llu that should not be there", k, (unsigned long long)x.first);
            }
            if (diff.empty()) left.insert(cut);
            else if (first.empty()) first = diff;
        }
        if (left.empty()) return fmt("day %+lld (%s): ", (long long)d - (long long)(w.now / DAY), c.size() == 1 && !*c.begin() ? "to be kept" : "removed or not") + first;
        if (w.cuts.count(d)) w.cuts[d] = left;
    }
    // a single day asked for on its own gives the same
    for (u64 d : days)
        for (const char *m : {"m", "n"})
        {
            std::map<u64, std::map<int, std::map<u64, double>>> g;
            std::string e = ask(d * DAY, d * DAY + DAY - 1, m, g);
            if (!e.empty()) return e;
            for (int k = 0; k < 3; k++)
                if (!strcmp(metric_of(k), m) && g[d][k] != got[d][k]) return fmt("day %+lld on its own gives %zu points of series %d, as part of the whole %zu", (long long)d - (long long)(w.now / DAY), g[d][k].size(), k, got[d][k].size());
        }
    if (certain && s.retention)
    {
        std::string disk = days_on_disk(home);
        for (u64 d : days)
        {
            bool there = disk.find(fmt("/%llu.%llu", (unsigned long long)(d * DAY), (unsigned long long)(d * DAY + DAY))) != std::string::npos;
            bool held = false;
            for (auto &x : got[d]) held |= !x.second.empty();
            if (!held && there) return fmt("the files of day %+lld are still there", (long long)d - (long long)(w.now / DAY));
            if (held && !there) return fmt("the files of day %+lld are missing", (long long)d - (long long)(w.now / DAY));
        }
    }
    return "";
}

// a rotation removes the oldest day if there are more days than the period counts, unless it is in use
void remove_oldest(World &w, bool idle, size_t at, size_t keep)
{
    std::map<u64, std::pair<bool, bool>> days;      // may be there, may be absent
    for (auto &p : w.w)
    {
        u64 d = p.t / DAY;
        auto &x = days[d];
        std::set<size_t> c = w.cuts.count(d) ? w.cuts[d] : std::set<size_t>{0};
        if (x.first || x.second) continue;
        for (size_t cut : c)
        {
            bool any = false;
            for (auto &q : w.w) any |= q.t / DAY == d && q.at >= cut;
            (any ? x.first : x.second) = true;
        }
    }
    size_t most = 0;
    bool certain = idle;
    for (auto &d : days) { most += d.second.first; certain &= d.second.first != d.second.second; }
    for (auto &d : days)
    {
        if (most <= keep) break;
        if (d.second.first)
        {
            auto &c = w.cuts[d.first];
            if (certain) c.clear();
            else if (c.empty()) c.insert(0);
            c.insert(at);
            if (!d.second.second) break;        // it is the oldest for certain
            most--;
        }
    }
}

void advance(World &w, char x, size_t at, const Setup &s)
{
    switch (x)
    {
        case 'D': w.now += DAY; break;
        case 'X': w.now += 3 * DAY; break;
        case 'H': w.now += 3660; break;
        case 'G': case 'P':
            if (!s.retention) break;
            remove_oldest(w, x == 'P', at, s.retention / DAY);
            break;
        default:
        {
            std::vector<W1> p;
            points_of(x, w, at, p);
            w.n += (int)(x == 'B' || x == 'b' ? 220 : p.size());
            for (auto &q : p) w.w.push_back(q);
        }
    }
}

std::string save(const World &w)
{
    std::string r;
    for (auto &c : w.cuts) { r += fmt("%llu", (unsigned long long)c.first); for (size_t k : c.second) r += fmt(",%zu", k); r += ";"; }
    return r;
}

void load(World &w, const std::string &x)
{
    w.cuts.clear();
    const char *p = x.c_str();
    while (*p)
    {
        char *q;
        u64 d = strtoull(p, &q, 10);
        auto &c = w.cuts[d];
        while (*q == ',') c.insert(strtoull(q + 1, &q, 10));
        p = q + 1;
    }
}

void run(Ctx &c, const Setup &s, u64 start, const std::string &pre, const std::string &mid)
{
    if (c.full()) return;
    std::string home = c.dir + "/db", all = pre + mid + "HAGQytQXAHPQHPQytQRQ";
    remove_tree(home);
    Conf conf = conf_of(s.cfg);
    for (auto &x : s.extra) conf[x.first] = x.second;
    if (s.retention) conf["tsdb.retention.threshold"] = fmt("%lluh", (unsigned long long)(s.retention / 3600));
    World w;
    w.now = start;
    std::string bad;
    size_t at = 0;
    while (at <= all.size() && bad.empty())
    {
        size_t stop = all.find('R', at);
        if (stop == std::string::npos) stop = all.size();
        ChildResult r = in_child([&](std::string &out)
        {
            set_clock_ms(w.now * 1000);
            db_start(home, conf);
            for (size_t k = at; k < stop; k++)
            {
                char x = all[k];
                std::string e;
                if (x == 'Q') e = compare(w, s, home, k > 0 && all[k - 1] == 'P');
                else if (x == 'A') bg_archive_ts();
                else if (x == 'G' || x == 'P') bg_rotate();
                else if (x == 'M') bg_gc();
                else if (x == 'F') bg_wal_flush();
                else
                {
                    std::vector<W1> p;
                    points_of(x, w, k + 1, p);
                    std::string body;
                    for (auto &q : p) body += fmt("put %s %llu %s h=%d\n", metric_of(q.series), (unsigned long long)T(q.t, s.cfg.ms), num(q.v).c_str(), q.series);
                    if (!body.empty())
                    {
                        Resp a = put_plain(body);
                        if (a.status != 200) e = fmt("write refused with %d", a.status);
                    }
                }
                advance(w, x, k + 1, s);
                set_clock_ms(w.now * 1000);
                if (!e.empty()) { out = "E" + fmt("at %zu of %s: ", k, all.c_str()) + e; return; }
            }
            db_stop();
            out = "S" + save(w);
        }, 120);
        if (!r.ok()) bad = fmt("the server died (%s): ", all.c_str()) + r.why();
        else if (r.out[0] == 'E') bad = r.out.substr(1);
        else
        {
            for (size_t k = at; k < stop; k++) advance(w, all[k], k + 1, s);
            load(w, r.out.substr(1));
        }
        at = stop + 1;
    }
    c.eval();
    c.states += all.size();
    c.transitions += all.size();
    if (all.find_first_of("DXHAGMFR", all.find_first_of("tyonBb")) < pre.size() + mid.size()) c.nt();
    c.outcome(bad.empty() ? "ok" : bad.substr(0, 40));
    if (!bad.empty()) c.violation(s.name + "/" + pre + "." + mid, bad);
    else c.sample(s.name + " " + pre + " " + mid);
    remove_tree(home);
}

}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    static const std::string sym = "tyonBbQDXHAGMFR";
    static const std::vector<std::string> pres = {"", "BD", "BDbFHG", "BDBHAG", "BXtHAGy", "oBDyHAR"};
    static const std::vector<Setup> setups = {
        {"r2", {4, 128, false}, {{"tsdb.rollup.enabled", "false"}}, 2 * DAY, BASE + 10 * 3600},
        {"r0", {1, 128, false}, {{"tsdb.rollup.enabled", "false"}}, 0, 1701387000},
        {"r36h", {1, 256, true, true}, {}, 36 * 3600, BASE},
        {"r1", {2, 64, false}, {}, DAY, 1698710400 + 43100},
        {"r3", {4, 128, false}, {}, 3 * DAY, BASE + 80000},
    };
    for (auto &s : setups)
        for (auto &pre : pres)
            for (char a : sym)
                jobs.push_back({fmt("%s-%s-%c", s.name.c_str(), pre.empty() ? "empty" : pre.c_str(), a), [=](Ctx &c)
                {
                    int L = th ? 4 : (s.name == "r2" ? 3 : 2);
                    for (int len = 1; len <= L; len++)
                    {
                        std::vector<int> q(len - 1, 0);
                        do
                        {
                            std::string mid(1, a);
                            for (int i : q) mid += sym[i];
                            run(c, s, s.start, pre, mid);
                        } while (len > 1 && next_seq(q, sym.size()));
                    }
                }});
}
