// Operations and database states shared by the checks of concurrent use.
#pragma once
#include "cfg.h"
#include "ctl.h"
#include <memory>

namespace vh
{

static const u64 B5 = 1698710400;        // the last day of a month (few hours to summarise before the next day's points)
static const u64 NOW = B5 + DAY + 3400;      // writers write about here, early on the second day

// one write: series key "metric|tags" -> points
struct Wr { std::string metric, tags; u64 ts; double v; };
struct Op
{
    std::string name;
    char kind;                  // p: put lines, j: JSON, l: line protocol, f/a/r/u/g: log flush, archiving, rotation, rollup, collection
    std::vector<Wr> w;
};

inline std::string body_of(const Op &o, bool ms)
{
    std::string b;
    if (o.kind == 'p')
        for (auto &x : o.w)
        {
            std::string t = x.tags;
            std::replace(t.begin(), t.end(), ',', ' ');
            b += fmt("put %s %llu %s %s\n", x.metric.c_str(), (unsigned long long)T(x.ts, ms), num(x.v).c_str(), t.c_str());
        }
    else if (o.kind == 'j')
    {
        for (auto &x : o.w)
        {
            std::string t;
            size_t k = x.tags.find('=');
            t = fmt("\"%s\":\"%s\"", x.tags.substr(0, k).c_str(), x.tags.substr(k + 1).c_str());
            b += fmt("%s{\"metric\":\"%s\",\"timestamp\":%llu,\"value\":%s,\"tags\":{%s}}", b.empty() ? "[" : ",", x.metric.c_str(), (unsigned long long)T(x.ts, ms), num(x.v).c_str(), t.c_str());
        }
        b += "]";
    }
    else if (o.kind == 'l')
    {
        // all writes of one operation are the fields of one measurement
        b = o.w[0].metric + "," + o.w[0].tags.substr(0, o.w[0].tags.find(",_field="));
        for (size_t i = 0; i < o.w.size(); i++) b += fmt("%c%s=%s", i ? ',' : ' ', o.w[i].tags.substr(o.w[i].tags.find(",_field=") + 8).c_str(), num(o.w[i].v).c_str());
        b += fmt(" %llu000000000\n", (unsigned long long)o.w[0].ts);
    }
    return b;
}

inline bool run_op(const Op &o, bool ms)
{
    switch (o.kind)
    {
        case 'f': bg_wal_flush(); return true;
        case 'a': bg_archive_ts(); return true;
        case 'r': bg_rotate(); return true;
        case 'u': bg_rollup(); return true;
        case 'g': bg_gc(); return true;
    }
    std::string b = body_of(o, ms);
    Resp r = o.kind == 'p' ? put_plain(b) : o.kind == 'j' ? put_json(b) : put_line(b);
    return r.status == 200 || r.status == 204;
}

typedef std::map<std::string, std::map<u64, std::set<double>>> Model;   // "metric|tags" -> ts -> allowed values

inline std::string tags_key(const std::map<std::string, std::string> &t)
{
    std::string s;
    for (auto &kv : t) s += fmt("%s%s=%s", s.empty() ? "" : ",", kv.first.c_str(), kv.second.c_str());
    return s;
}

inline std::string sort_tags(const std::string &t)
{
    std::map<std::string, std::string> m;
    size_t p = 0;
    while (p < t.size())
    {
        size_t e = t.find(',', p);
        if (e == std::string::npos) e = t.size();
        size_t k = t.find('=', p);
        m[t.substr(p, k - p)] = t.substr(k + 1, e - k - 1);
        p = e + 1;
    }
    return tags_key(m);
}

inline std::string observe(const Model &m, bool ms, double tol, u64 days)
{
    std::set<std::string> metrics;
    for (auto &kv : m) metrics.insert(kv.first.substr(0, kv.first.find('|')));
    std::set<std::string> seen;
    for (auto &name : metrics)
    {
        std::vector<Series> got;
        std::string err;
        if (!query_raw(name, T(B5 - DAY, ms), T(B5 + days * DAY, ms), ms, got, &err)) return "query of " + name + " failed: " + err;
        for (auto &s : got)
        {
            std::string k = s.metric + "|" + tags_key(s.tags);
            if (!s.agg.empty()) return "aggregate tags in " + s.key();
            if (!seen.insert(k).second) return "series " + k + " is returned twice";
            auto it = m.find(k);
            if (it == m.end()) return "a series nobody wrote: " + k + " " + dps_str(s.dps);
            size_t i = 0;
            std::string exp;
            for (auto &p : it->second) exp += fmt(" %llu=%s", (unsigned long long)p.first, num(*p.second.begin()).c_str());
            bool same = s.dps.size() == it->second.size();
            for (auto &p : it->second)
            {
                if (!same) break;
                same = s.dps[i].first == p.first;
                bool any = false;
                for (double v : p.second) any |= close_to(s.dps[i].second, v, tol, 0);
                same &= any;
                i++;
            }
            if (!same) return "series " + k + ": expected" + exp + " got " + dps_str(s.dps);
        }
    }
    for (auto &kv : m) if (!seen.count(kv.first)) return "series " + kv.first + " is missing";
    return "";
}

// ----------------------------------------------------------------- preludes --
struct Pre { std::string name; std::function<void(const Cfg&, int cap, Model&)> fn; };

inline void note(Model &m, const Op &o, bool ms) { for (auto &x : o.w) m[x.metric + "|" + sort_tags(x.tags)][T(x.ts, ms)] = {x.v}; }
inline void pre_write(Model &m, const Op &o, bool ms)
{
    run_op(o, ms);
    note(m, o, ms);
}

inline std::vector<Pre> preludes()
{
    std::vector<Pre> p;
    p.push_back({"empty", [](const Cfg &, int, Model &) {}});
    p.push_back({"series", [](const Cfg &c, int, Model &m) { pre_write(m, {"", 'p', {{"m", "h=1", NOW - 50, 1.5}}}, c.ms); pre_write(m, {"", 'l', {{"me", "h=1,_field=a", NOW - 50, 2.5}}}, c.ms); }});
    for (int d = -1; d <= 1; d++)
        p.push_back({fmt("page%d", d), [d](const Cfg &c, int cap, Model &m)
        {
            Op o{"", 'p', {}};
            for (int i = 0; i < cap + d; i++) o.w.push_back({"m", "h=1", NOW - 100 - (cap + d - i) * 7, val(1, i)});
            pre_write(m, o, c.ms);
        }});
    p.push_back({"earlier", [](const Cfg &c, int, Model &m) { pre_write(m, {"", 'p', {{"m", "h=1", B5 + DAY - 1500, 1.5}, {"m", "h=1", B5 + DAY - 1493, 2.5}, {"o", "h=1", B5 + DAY - 1500, 3.5}}}, c.ms); }});
    p.push_back({"ooo", [](const Cfg &c, int, Model &m) { pre_write(m, {"", 'p', {{"m", "h=1", NOW - 10, 1.5}, {"m", "h=1", NOW - 30, 2.5}, {"m", "h=1", NOW - 20, 3.5}}}, c.ms); }});
    p.push_back({"pastpage", [](const Cfg &c, int cap, Model &m)
    {
        // the out-of-order page is about to fill
        Op o{"", 'p', {}};
        o.w.push_back({"m", "h=1", NOW - 10, 1.5});
        for (int i = 0; i < cap - 1; i++) o.w.push_back({"m", "h=1", NOW - 3000 + ((i * 37) % 101) * 7, val(1, i)});
        pre_write(m, o, c.ms);
    }});
    p.push_back({"pages", [](const Cfg &c, int cap, Model &m)
    {
        Op o{"", 'p', {}};
        for (int i = 0; i < 2 * cap + 3; i++) o.w.push_back({"m", "h=1", NOW - 100 - (2 * cap + 3 - i) * 7, val(1, i)});
        pre_write(m, o, c.ms);
    }});
    p.push_back({"reopened", nullptr});     // earlier, in another process
    return p;
}

inline std::vector<Op> ops()
{
    std::vector<Op> o;
    o.push_back({"s", 'p', {{"m", "h=1", NOW, 10}}});
    o.push_back({"s2", 'p', {{"m", "h=1", NOW + 5, 11}, {"m", "h=1", NOW + 9, 12}}});
    o.push_back({"same", 'p', {{"m", "h=1", NOW, 13}}});
    o.push_back({"ooo", 'p', {{"m", "h=1", NOW - 25, 14}}});
    o.push_back({"h2", 'p', {{"m", "h=2", NOW, 15}}});
    o.push_back({"h23", 'j', {{"m", "h=2", NOW + 1, 16}, {"m", "h=3", NOW, 17}}});
    o.push_back({"n", 'p', {{"n", "h=1", NOW, 18}}});
    o.push_back({"nm", 'j', {{"n", "h=1", NOW + 3, 19}, {"m", "h=1", NOW + 3, 20}}});
    o.push_back({"next", 'p', {{"m", "h=1", B5 + 2 * DAY + 10, 21}}});
    o.push_back({"past", 'p', {{"m", "h=1", B5 + DAY - 2000, 22}}});
    o.push_back({"la", 'l', {{"me", "h=1,_field=a", NOW, 23}, {"me", "h=1,_field=b", NOW, 24}}});
    o.push_back({"lb", 'l', {{"me", "h=1,_field=b", NOW + 1, 25}, {"me", "h=1,_field=c", NOW + 1, 26}}});
    o.push_back({"lh", 'l', {{"me", "h=2,_field=a", NOW, 27}}});
    o.push_back({"flush", 'f', {}});
    o.push_back({"archive", 'a', {}});
    o.push_back({"rotate", 'r', {}});
    o.push_back({"gc", 'g', {}});
    o.push_back({"pf", 'p', {{"me", "h=1,_field=b", NOW + 2, 28}}});
    return o;
}

// the earlier session of "reopened", and what it wrote
inline bool make_template(Ctx &c, const std::string &tmpl, const Cfg &cfg, Model &base)
{
    ChildResult r = in_child([&](std::string &) {
        set_clock_ms((B5 + 2 * DAY) * 1000);
        db_start(tmpl, conf_of(cfg));
        Model x;
        preludes()[5].fn(cfg, 0, x);
        preludes()[1].fn(cfg, 0, x);
        db_stop();
    });
    if (!r.ok()) { c.violation("template", r.why()); return false; }
    for (auto &x : std::vector<Wr>{{"m", "h=1", B5 + DAY - 1500, 1.5}, {"m", "h=1", B5 + DAY - 1493, 2.5}, {"o", "h=1", B5 + DAY - 1500, 3.5}, {"m", "h=1", NOW - 50, 1.5}, {"me", "h=1,_field=a", NOW - 50, 2.5}})
        base[x.metric + "|" + sort_tags(x.tags)][T(x.ts, cfg.ms)] = {x.v};
    return true;
}

struct Case
{
    Cfg cfg;
    int cap, pre;
    std::vector<std::vector<int>> th;       // operations of each thread
    bool kill = false;
};

inline std::string case_name(const Case &k)
{
    static auto o = ops();
    static auto p = preludes();
    std::string s = cfg_str(k.cfg) + "-" + p[k.pre].name;
    for (auto &t : k.th) { s += "-"; for (size_t i = 0; i < t.size(); i++) s += (i ? "." : "") + (t[i] < 0 ? std::string(t[i] == -3 ? "hours" : t[i] == -4 ? "qh" : "q") : o[t[i]].name); }
    return s + (k.kill ? "-kill" : "");
}

}
