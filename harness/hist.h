// Write histories executed in lock-step: every history owns one metric, so a
// whole batch of histories advances together inside one database session and
// session-wide events (flush, housekeeping, restart, crash) can be placed
// between any two steps.
#pragma once
#include "vh.h"

namespace vh
{

struct W { u64 ts; double v; int tag = 0; };     // one write; tag selects the series of the metric

struct Hist
{
    std::string metric;
    std::vector<W> w;
    std::map<int, std::map<u64, double>> model;
    std::string str() const
    {
        std::string s;
        for (auto &x : w) s += fmt("%s%llu=%s%s", s.empty() ? "" : " ", (unsigned long long)x.ts, num(x.v).c_str(), x.tag ? fmt("#%d", x.tag).c_str() : "");
        return s;
    }
    void apply(size_t i) { model[w[i].tag][w[i].ts] = w[i].v; }
};

inline std::string tag_text(int tag) { return fmt("h=a%d", tag); }

// writes step i of every history; returns the number of lines that were sent
inline size_t write_step(std::vector<Hist> &hs, size_t i, std::string *err)
{
    std::string b;
    size_t n = 0;
    for (auto &h : hs)
        if (i < h.w.size())
        {
            b += fmt("put %s %llu %s %s\n", h.metric.c_str(), (unsigned long long)h.w[i].ts, num(h.w[i].v).c_str(), tag_text(h.w[i].tag).c_str());
            h.apply(i);
            n++;
        }
    if (n)
    {
        Resp r = put_plain(b);
        if (r.status != 200 && err && err->empty()) *err = fmt("write refused: status %d", r.status);
    }
    return n;
}

// compares one metric with the model in [from,to]
inline std::string compare_one(const Hist &h, const std::vector<Series> &got, u64 from, u64 to, double tol, double rel)
{
    std::map<std::string, DPS> exp;
    for (auto &kv : h.model)
    {
        DPS d;
        for (auto &p : kv.second) if (p.first >= from && p.first <= to) d.push_back(p);
        if (!d.empty()) exp[fmt("a%d", kv.first)] = d;
    }
    std::map<std::string, DPS> act;
    for (auto &s : got)
    {
        if (s.metric != h.metric) return "a result for metric " + s.metric;
        if (s.tags.size() != 1 || !s.tags.count("h")) return "unexpected tags in " + s.key();
        std::string k = s.tags.at("h");
        if (act.count(k)) return "series " + k + " returned twice";
        if (!s.dps.empty()) act[k] = s.dps;
    }
    for (auto &kv : act) if (!exp.count(kv.first)) return "unexpected series h=" + kv.first + " " + dps_str(kv.second);
    for (auto &kv : exp)
    {
        if (!act.count(kv.first)) return "series h=" + kv.first + " missing, expected " + dps_str(kv.second);
        const DPS &e = kv.second, &a = act[kv.first];
        bool same = e.size() == a.size();
        for (size_t i = 0; same && i < e.size(); i++)
            same = e[i].first == a[i].first && close_to(e[i].second, a[i].second, tol, rel);
        if (!same) return "series h=" + kv.first + ": expected " + dps_str(e) + " got " + dps_str(a);
    }
    return "";
}

// queries [from,to] of every history and compares; returns the first mismatches
inline void check_all(const std::vector<Hist> &hs, u64 from, u64 to, bool ms, double tol, std::vector<std::pair<size_t, std::string>> &bad, size_t maxbad = 3, double rel = 0)
{
    for (size_t i = 0; i < hs.size(); i++)
    {
        std::vector<Series> got;
        std::string err;
        std::string m;
        if (!query_raw(hs[i].metric, from, to, ms, got, &err))
        {
            // a metric that was never written is unknown, which is an error answer
            if (hs[i].model.empty()) continue;
            m = "query failed: " + err;
        }
        else m = compare_one(hs[i], got, from, to, tol, rel);
        if (!m.empty())
        {
            bad.emplace_back(i, m);
            if (bad.size() >= maxbad) return;
        }
    }
}

// odometer over base^len
inline bool next_seq(std::vector<int> &s, int base)
{
    for (size_t i = s.size(); i-- > 0;)
    {
        if (++s[i] < base) return true;
        s[i] = 0;
    }
    return false;
}

inline std::string seq_str(const std::vector<int> &s)
{
    std::string r;
    for (int x : s) r += fmt("%s%d", r.empty() ? "" : ".", x);
    return r;
}

}
