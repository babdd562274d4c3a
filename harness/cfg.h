// Configurations and value patterns shared by the history checks.
#pragma once
#include "hist.h"

namespace vh
{

static const u64 DAY = 86400;
static const u64 BASE = 1699920000;     // a day boundary (UTC)

struct Cfg { int comp; int page; bool ms; bool small = false; };    // small: few pages per file, two buckets

inline std::string cfg_str(const Cfg &c) { return fmt("v%d-p%d-%s%s", c.comp, c.page, c.ms ? "ms" : "s", c.small ? "-small" : ""); }

inline Conf conf_of(const Cfg &c)
{
    Conf f;
    f["tsdb.compressor.version"] = fmt("%d", c.comp);
    f["tsdb.page.size"] = fmt("%db", c.page);
    f["tsdb.timestamp.resolution"] = c.ms ? "millisecond" : "second";
    if (c.small) { f["tsdb.page.count"] = "16"; f["tsdb.metric.buckets"] = "2"; }
    return f;
}

inline u64 T(u64 s, bool ms) { return ms ? s * 1000 : s; }

// v3/v4 are lossy; values go up to 1.3e7 (ulp 2e-9) and errors add up over a page
inline double tol_of(const Cfg &c) { return c.comp <= 2 ? 0 : 1e-6; }

// value patterns; all exactly representable at the default precision
inline double val(int pat, int i)
{
    switch (pat)
    {
        case 0: return 1.5 + i;                                         // small steps
        case 1: return ((i * 7919) % 1000) * 13121.0 + (i % 64) / 64.0; // irregular, fills pages quickly
        case 2: return (i % 2) ? -12345.25 + i : 987654.5 - i * 3;      // sign changes
        case 3: return 42.0;                                            // constant
    }
    return i;
}

// number of in-order points after which the first page has been written out
inline int capacity(Ctx &c, const Cfg &cfg, int pat, u64 step)
{
    std::string home = c.dir + "/probe";
    ChildResult r = in_child([&](std::string &out) {
        set_clock_ms((BASE + DAY / 2) * 1000);
        db_start(home, conf_of(cfg));
        int n = 0;
        for (; n < 600; n++)
        {
            put_plain(fmt("put p %llu %s h=1\n", (unsigned long long)(T(BASE + 40000, cfg.ms) + n * step), num(val(pat, n)).c_str()));
            bool stored = false;
            for (auto &f : list_tree(home + "/data")) if (f.find("/data.0") != std::string::npos) stored = true;
            if (stored) break;
        }
        out = fmt("%d", n);
    });
    remove_tree(home);
    return r.ok() ? atoi(r.out.c_str()) : 10;
}

// all sequences of length L over the given timestamps, after n in-order points that end before ts[0]
inline void gen_seq(const std::vector<u64> &ts, int L, int pat, const std::string &name, int n, u64 step, std::vector<Hist> &out)
{
    std::vector<int> s(L, 0);
    do
    {
        Hist h;
        h.metric = fmt("%s.%d.", name.c_str(), n) + seq_str(s);
        for (int i = 0; i < n; i++) h.w.push_back({ts[0] - (n - i) * step, val(pat, i)});
        for (int i = 0; i < L; i++) h.w.push_back({ts[s[i]], val(pat, n + i + 1)});
        out.push_back(h);
    } while (next_seq(s, ts.size()));
}

typedef std::vector<std::pair<u64, u64>> Ranges;

}
