// Runs lock-step histories with session-wide events between steps.
// Events: R restart, F write-ahead flush, A archive idle series, G rotate
// (housekeeping of a day change), M free unused memory, D clock one day on,
// T clock one hour on, Q compare now.
#pragma once
#include "hist.h"
#include <functional>

namespace vh
{

typedef std::map<size_t, std::string> Events;       // before step i (or at the end) -> events

inline std::string events_str(const Events &e)
{
    std::string s;
    for (auto &kv : e) s += fmt("@%zu%s", kv.first, kv.second.c_str());
    return s.empty() ? "none" : s;
}

struct EvRun
{
    Conf conf;
    bool ms = false;
    double tol = 0;
    u64 clock_ms = 0;
    std::vector<std::pair<u64, u64>> ranges;
    std::function<std::string(const std::vector<Hist>&)> observe;   // further observation, must not change over a restart
    bool check_after_restart = true;
};

// "" or (index, message) pairs in bad
inline std::string run_events(const EvRun &er, const std::string &home, std::vector<Hist> &hs, const Events &ev, std::vector<std::pair<size_t, std::string>> &bad)
{
    size_t L = 0;
    for (auto &h : hs) L = std::max(L, h.w.size());
    struct Op { char c; size_t i; };
    std::vector<std::vector<Op>> sess(1);
    for (size_t i = 0; i <= L; i++)
    {
        auto it = ev.find(i);
        if (it != ev.end())
            for (char c : it->second)
                if (c == 'R') sess.emplace_back();
                else sess.back().push_back({c, 0});
        if (i < L) sess.back().push_back({'w', i});
    }
    u64 clock = er.clock_ms;
    std::string seen;
    bool have_seen = false;
    for (size_t s = 0; s < sess.size(); s++)
    {
        bool last = s + 1 == sess.size();
        ChildResult r = in_child([&](std::string &out) {
            set_clock_ms(clock);
            db_start(home, er.conf);
            std::string err;
            auto compare = [&](const char *when) {
                for (auto &rg : er.ranges)
                {
                    std::vector<std::pair<size_t, std::string>> b;
                    check_all(hs, rg.first, rg.second, er.ms, er.tol, b);
                    for (auto &x : b) out += fmt("B%zu\n%s [%llu,%llu] %s\n", x.first, when, (unsigned long long)rg.first, (unsigned long long)rg.second, x.second.c_str());
                    if (!b.empty()) return false;
                }
                return true;
            };
            if (s > 0 && er.observe)
            {
                std::string o = er.observe(hs);
                if (have_seen && o != seen) { out += "E\nafter restart: " + o + " before: " + seen + "\n"; return; }
            }
            if (s > 0 && er.check_after_restart && !compare("after restart")) return;
            u64 ck = clock;
            for (auto &op : sess[s])
                switch (op.c)
                {
                    case 'w': write_step(hs, op.i, &err); break;
                    case 'F': bg_wal_flush(); break;
                    case 'A': bg_archive_ts(); break;
                    case 'G': bg_rotate(); break;
                    case 'M': bg_gc(); break;
                    case 'D': set_clock_ms(ck += 86400000ULL); break;
                    case 'T': set_clock_ms(ck += 3600000ULL); break;
                    case 'Q': if (!compare("between")) return; break;
                }
            if (!err.empty()) { out += "E\n" + err + "\n"; return; }
            if (last) { compare("at the end"); return; }
            if (er.observe) out += "S" + er.observe(hs);
            db_stop();
        }, 300);
        // keep the parent's model in step
        for (auto &op : sess[s])
        {
            if (op.c == 'w') for (auto &h : hs) if (op.i < h.w.size()) h.apply(op.i);
            if (op.c == 'D') clock += 86400000ULL;
            if (op.c == 'T') clock += 3600000ULL;
        }
        if (!r.ok()) return fmt("session %zu ended abnormally: ", s) + r.why();
        if (!r.out.empty() && r.out[0] == 'S') { seen = r.out.substr(1); have_seen = true; }
        else if (!r.out.empty())
        {
            size_t p = 0;
            while (p < r.out.size())
            {
                size_t e = r.out.find('\n', p), f = r.out.find('\n', e + 1);
                std::string msg = r.out.substr(e + 1, f - e - 1);
                if (r.out[p] == 'E') return fmt("session %zu: ", s) + msg;
                bad.emplace_back(strtoull(r.out.c_str() + p + 1, nullptr, 10), fmt("session %zu: ", s) + msg);
                p = f + 1;
            }
            return "";
        }
    }
    return "";
}

}
