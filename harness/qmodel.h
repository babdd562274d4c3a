// Reference model of the query functions: the definitions applied to the
// written points, in the plainest possible way.
#pragma once
#include "vh.h"
#include <regex>

namespace vh
{

typedef std::map<std::string, std::string> Tags;

struct MSeries
{
    std::string metric;
    Tags tags;
    std::map<u64, double> pts;      // database time unit
};

struct MFilter { std::string key, pat; bool grouping = true; };

struct MRate
{
    bool on = false, counter = false, drop = false;
    bool has_max = false, has_reset = false;
    u64 max = 0, reset = 0;
};

struct MQuery
{
    std::string metric, agg = "none", ds;       // ds: interval-function[-fill]
    std::vector<MFilter> filters;
    MRate rate;
    bool explicit_tags = false;     // GET form only
    bool raw = false;               // rollupUsage=ROLLUP_RAW
    bool ms = false;                // answer in milliseconds
    std::string start, end;         // as written in the request
    u64 from = 0, to = 0;           // what they mean, in database units
};

inline std::string url_escape(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
        if (isalnum(c) || strchr("-_.", c)) o += c; else o += fmt("%%%02X", c);
    return o;
}

inline std::string q_body(const MQuery &q)
{
    std::string s = fmt("{\"metric\":\"%s\",\"aggregator\":\"%s\"", q.metric.c_str(), q.agg.c_str());
    if (!q.ds.empty()) s += ",\"downsample\":\"" + q.ds + "\"";
    if (q.raw) s += ",\"rollupUsage\":\"ROLLUP_RAW\"";
    if (q.rate.on)
    {
        s += ",\"rate\":true";
        std::string o;
        auto add = [&](const std::string &x) { o += (o.empty() ? "" : ",") + x; };
        if (q.rate.counter) add("\"counter\":true");
        if (q.rate.drop) add("\"dropResets\":true");
        if (q.rate.has_max) add(fmt("\"counterMax\":%llu", (unsigned long long)q.rate.max));
        if (q.rate.has_reset) add(fmt("\"resetValue\":%llu", (unsigned long long)q.rate.reset));
        if (!o.empty()) s += ",\"rateOptions\":{" + o + "}";
    }
    if (!q.filters.empty())
    {
        s += ",\"tags\":{";
        for (size_t i = 0; i < q.filters.size(); i++) s += fmt("%s\"%s\":\"%s\"", i ? "," : "", q.filters[i].key.c_str(), q.filters[i].pat.c_str());
        s += "}";
    }
    return s + "}";
}

inline std::string q_post(const MQuery &q)
{
    auto t = [](const std::string &s) { return s.find_first_not_of("0123456789") == std::string::npos ? s : "\"" + s + "\""; };
    return "{\"start\":" + t(q.start) + (q.end.empty() ? "" : ",\"end\":" + t(q.end)) + ",\"msResolution\":" + (q.ms ? "true" : "false")
        + ",\"queries\":[" + q_body(q) + "]}";
}

// quoted: tag values in double quotes
inline std::string q_get(const MQuery &q, bool quoted = false)
{
    std::string m = q.agg + ":";
    if (q.rate.on)
    {
        m += "rate";
        if (q.rate.counter || q.rate.has_max || q.rate.has_reset || q.rate.drop)
        {
            m += "{";
            m += q.rate.counter ? "counter" : "false";
            if (q.rate.has_max || q.rate.has_reset || q.rate.drop) m += "," + (q.rate.has_max ? fmt("%llu", (unsigned long long)q.rate.max) : std::string());
            if (q.rate.has_reset || q.rate.drop) m += fmt(",%llu", (unsigned long long)(q.rate.has_reset ? q.rate.reset : 0));
            if (q.rate.drop) m += ",true";
            m += "}";
        }
        m += ":";
    }
    if (!q.ds.empty()) m += q.ds + ":";
    if (q.raw) m += "rollupUsage=ROLLUP_RAW:";
    if (q.explicit_tags) m += "explicit_tags:";
    m += q.metric;
    bool ng = false, gr = false;
    for (auto &f : q.filters) (f.grouping ? gr : ng) = true;
    const char *qu = quoted ? "\"" : "";
    for (int pass = 0; pass < 2; pass++)
    {
        if (pass == 0 ? !(gr || ng) : !ng) continue;
        m += "{";
        bool first = true;
        for (auto &f : q.filters)
            if (f.grouping == (pass == 0)) { m += fmt("%s%s%s%s=%s%s%s", first ? "" : ",", qu, f.key.c_str(), qu, qu, f.pat.c_str(), qu); first = false; }
        m += "}";
    }
    return "start=" + q.start + (q.end.empty() ? "" : "&end=" + q.end) + (q.ms ? "&ms" : "") + "&m=" + url_escape(m);
}

// ------------------------------------------------------------- filters ----
inline std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }

inline std::vector<std::string> split(const std::string &s, char d)
{
    std::vector<std::string> v(1);
    for (char c : s) if (c == d) v.emplace_back(); else v.back() += c;
    return v;
}

inline bool glob_match(const char *p, const char *s)
{
    if (*p == 0) return *s == 0;
    if (*p == '*') { for (;; s++) { if (glob_match(p + 1, s)) return true; if (!*s) return false; } }
    return *s == *p && glob_match(p + 1, s + 1);
}

inline bool filter_matches(const std::string &pat, const std::string &v)
{
    auto arg = [&](const char *name, std::string &a) {
        std::string n = std::string(name) + "(";
        if (pat.compare(0, n.size(), n) != 0 || pat.back() != ')') return false;
        a = pat.substr(n.size(), pat.size() - n.size() - 1);
        return true;
    };
    auto any = [](const std::string &list, const std::string &x) { for (auto &t : split(list, '|')) if (t == x) return true; return false; };
    std::string a;
    if (arg("literal_or", a)) return any(a, v);
    if (arg("iliteral_or", a)) return any(lower(a), lower(v));
    if (arg("not_literal_or", a)) return !any(a, v);
    if (arg("not_iliteral_or", a)) return !any(lower(a), lower(v));
    if (arg("wildcard", a)) return glob_match(a.c_str(), v.c_str());
    if (arg("iwildcard", a)) return glob_match(lower(a).c_str(), lower(v).c_str());
    if (arg("regexp", a)) return std::regex_match(v, std::regex(a, std::regex::basic));
    if (pat.find('|') != std::string::npos)
    {
        for (auto &t : split(pat, '|')) if (t == v) return true;
        return false;
    }
    if (pat.back() == '*') return v.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0;
    return pat == v;
}

inline bool selects(const MQuery &q, const MSeries &s)
{
    if (s.metric != q.metric) return false;
    std::set<std::string> keys;
    for (auto &f : q.filters)
    {
        keys.insert(f.key);
        auto it = s.tags.find(f.key);
        if (it == s.tags.end() || !filter_matches(f.pat, it->second)) return false;
    }
    return !q.explicit_tags || keys.size() == s.tags.size();
}

// ----------------------------------------------------------- functions ----
inline double m_percentile(std::vector<double> v, double p)
{
    while (p > 100) p /= 10;
    std::sort(v.begin(), v.end());
    size_t n = v.size();
    double pos = p / 100 * (n + 1);
    if (p == 0 || pos < 1) return v[0];
    if (p == 100 || pos >= n) return v[n - 1];
    size_t k = (size_t)pos;
    return v[k - 1] + (pos - k) * (v[k] - v[k - 1]);
}

inline double m_func(const std::string &f, const std::vector<double> &v)
{
    double n = v.size(), s = 0;
    for (double x : v) s += x;
    if (f == "avg") return s / n;
    if (f == "sum") return s;
    if (f == "count") return n;
    if (f == "first") return v.front();
    if (f == "last") return v.back();
    if (f == "max") return *std::max_element(v.begin(), v.end());
    if (f == "min") return *std::min_element(v.begin(), v.end());
    if (f == "dev")
    {
        double q = 0;
        for (double x : v) q += (x - s / n) * (x - s / n);
        return std::sqrt(q / n);
    }
    if (f[0] == 'p') return m_percentile(v, atoi(f.c_str() + 1));
    return 0;
}

inline u64 interval_of(const std::string &s, bool db_ms, bool &all)
{
    char *e;
    u64 n = strtoull(s.c_str(), &e, 10), k = 1;
    std::string u = e;
    all = u == "all";
    if (all) return 0;
    if (u == "ms") return db_ms ? n : n / 1000;
    if (u == "s") k = 1;
    else if (u == "m") k = 60;
    else if (u == "h") k = 3600;
    else if (u == "d") k = 86400;
    else if (u == "w") k = 7 * 86400;
    return n * k * (db_ms ? 1000 : 1);
}

inline DPS m_downsample(const MQuery &q, const std::map<u64, double> &pts, bool db_ms)
{
    DPS out;
    auto t = split(q.ds, '-');
    if (q.ds.empty() || t.size() < 2 || t[1] == "none")
    {
        for (auto it = pts.lower_bound(q.from); it != pts.end() && it->first <= q.to; ++it) out.push_back(*it);
        return out;
    }
    bool all;
    u64 I = interval_of(t[0], db_ms, all);
    std::string fill = t.size() > 2 ? t[2] : "none";
    double fv = fill == "zero" ? 0 : std::nan("");
    bool dofill = fill == "zero" || fill == "nan" || fill == "null";
    std::map<u64, std::vector<double>> iv;
    // intervals that start inside the range, each with all its points
    for (auto &p : pts)
    {
        if (all) { if (p.first >= q.from && p.first <= q.to) iv[q.from].push_back(p.second); continue; }
        u64 k = p.first / I * I;
        if (k >= q.from && k <= q.to) iv[k].push_back(p.second);
    }
    if (dofill)
    {
        if (all) iv[q.from];
        else for (u64 k = (q.from + I - 1) / I * I; k <= q.to; k += I) iv[k];
    }
    for (auto &x : iv) out.emplace_back(x.first, x.second.empty() ? fv : m_func(t[1], x.second));
    return out;
}

// timestamps of the answer: seconds or milliseconds as requested
inline u64 out_ts(u64 t, bool db_ms, bool ms) { return db_ms == ms ? t : ms ? t * 1000 : t / 1000; }

inline void m_rate(const MRate &r, DPS &d, bool ms)
{
    DPS o;
    for (size_t i = 1; i < d.size(); i++)
    {
        double secs = (double)(d[i].first - d[i - 1].first) / (ms ? 1000 : 1);
        double dv = d[i].second - d[i - 1].second;
        double v = dv / secs;
        if (r.counter && dv < 0)
        {
            if (r.drop) continue;
            double mx = r.has_max ? (double)r.max : (double)UINT64_MAX;
            v = (mx - d[i - 1].second + d[i].second) / secs;
            if (r.has_reset && r.reset != 0 && v > (double)r.reset) v = 0;
        }
        o.emplace_back(d[i].first, v);
    }
    d = o;
}

inline double last_extreme(const DPS &d, bool max)
{
    double r = max ? -1e308 : 1e308;
    for (size_t i = d.size() > 3 ? d.size() - 3 : 0; i < d.size(); i++) r = max ? std::max(r, d[i].second) : std::min(r, d[i].second);
    return r;
}

// prefer: among equally ranked series of topN/bottomN, the ones the answer chose
inline std::vector<Series> m_exec(const MQuery &q, const std::vector<MSeries> &db, bool db_ms, const std::set<std::string> &prefer = {})
{
    struct Mem { const MSeries *s; DPS d; };
    std::vector<Mem> sel;
    for (auto &s : db)
        if (selects(q, s))
        {
            DPS d = m_downsample(q, s.pts, db_ms);
            for (auto &p : d) p.first = out_ts(p.first, db_ms, q.ms);
            if (!d.empty()) sel.push_back({&s, d});
        }
    std::vector<Series> out;
    bool top = q.agg.compare(0, 3, "top") == 0, bot = q.agg.compare(0, 6, "bottom") == 0;
    if (q.agg == "none" || top || bot)
    {
        if (top || bot)
        {
            std::stable_sort(sel.begin(), sel.end(), [&](const Mem &a, const Mem &b) {
                double x = last_extreme(a.d, top), y = last_extreme(b.d, top);
                if (x != y) return top ? x > y : x < y;
                auto key = [](const Mem &m) { Series s; s.metric = m.s->metric; s.tags = m.s->tags; return s.key(); };
                return prefer.count(key(a)) > prefer.count(key(b));
            });
            size_t n = atoi(q.agg.c_str() + (top ? 3 : 6));
            if (sel.size() > n) sel.resize(n);
        }
        for (auto &m : sel)
        {
            Series s;
            s.metric = q.metric;
            s.tags = m.s->tags;
            s.dps = m.d;
            out.push_back(s);
        }
    }
    else
    {
        std::map<std::vector<std::string>, std::vector<Mem*>> groups;
        for (auto &m : sel)
        {
            std::vector<std::string> k;
            std::set<std::string> ng;
            for (auto &f : q.filters) if (!f.grouping) ng.insert(f.key);
            for (auto &f : q.filters) if (!ng.count(f.key)) k.push_back(f.key + "=" + m.s->tags.at(f.key));
            groups[k].push_back(&m);
        }
        for (auto &g : groups)
        {
            Series s;
            s.metric = q.metric;
            for (auto &kv : g.second[0]->s->tags)
            {
                bool everywhere = true, same = true;
                for (auto *m : g.second)
                {
                    auto it = m->s->tags.find(kv.first);
                    if (it == m->s->tags.end()) everywhere = false;
                    else if (it->second != kv.second) same = false;
                }
                if (everywhere && same) s.tags[kv.first] = kv.second;
                else if (everywhere) s.agg.push_back(kv.first);
            }
            std::sort(s.agg.begin(), s.agg.end());
            std::map<u64, std::vector<double>> at;
            for (auto *m : g.second) for (auto &p : m->d) at[p.first].push_back(p.second);
            for (auto &p : at) s.dps.emplace_back(p.first, m_func(q.agg, p.second));
            out.push_back(s);
        }
    }
    if (q.rate.on) for (auto &s : out) m_rate(q.rate, s.dps, q.ms);
    std::vector<Series> r;
    for (auto &s : out) if (!s.dps.empty()) r.push_back(s);
    return r;
}

// "" when equal
inline std::string series_diff(std::vector<Series> want, std::vector<Series> got, double rel = 1e-9, double abs_tol = 1e-9)
{
    auto lt = [](const Series &a, const Series &b) { return a.key() < b.key(); };
    std::stable_sort(want.begin(), want.end(), lt);
    std::stable_sort(got.begin(), got.end(), lt);
    auto all = [](const std::vector<Series> &v) { std::string s; for (auto &x : v) s += x.key() + dps_str(x.dps) + " "; return s.substr(0, 700); };
    if (want.size() != got.size()) return fmt("%zu series instead of %zu: got %s want %s", got.size(), want.size(), all(got).c_str(), all(want).c_str());
    for (size_t i = 0; i < want.size(); i++)
    {
        if (want[i].key() != got[i].key()) return "got series " + got[i].key() + " want " + want[i].key();
        bool eq = want[i].dps.size() == got[i].dps.size();
        for (size_t k = 0; eq && k < want[i].dps.size(); k++)
            eq = want[i].dps[k].first == got[i].dps[k].first && close_to(want[i].dps[k].second, got[i].dps[k].second, abs_tol, rel);
        if (!eq) return want[i].key() + ": got " + dps_str(got[i].dps) + " want " + dps_str(want[i].dps);
    }
    return "";
}

inline std::string put_line_of(const std::string &metric, const Tags &tags, u64 t, double v)
{
    std::string s = "put " + metric + fmt(" %llu ", (unsigned long long)t) + num(v);
    for (auto &kv : tags) s += " " + kv.first + "=" + kv.second;
    return s + "\n";
}

// runs the query in the given form and compares; "" when right
inline std::string q_check(const MQuery &q, const std::vector<MSeries> &db, bool db_ms, int form, std::string *outcome = nullptr, double rel = 1e-9)
{
    Resp r = form == 0 ? query_post(q_post(q)) : query_get(q_get(q, form == 2));
    std::string what = form == 0 ? "POST " + q_post(q) : "GET " + q_get(q, form == 2);
    std::vector<Series> got;
    if (r.status != 200 || !parse_series(r.body, got)) return what + fmt(": status %d body %s", r.status, r.body.substr(0, 200).c_str());
    if (outcome) *outcome = r.body;
    std::set<std::string> prefer;
    for (auto &s : got) prefer.insert(s.key());
    std::string d = series_diff(m_exec(q, db, db_ms, prefer), got, rel);
    return d.empty() ? d : what + ": " + d;
}

}
