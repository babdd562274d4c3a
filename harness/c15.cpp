// C15: reported checkpoints are those of the last completed flush, and what they cover is on disk.
#include "cfg.h"
#include "ctl.h"
#include "snap.h"
#include <stdexcept>
using namespace vh;

const char *vh::g_rule =
    "all histories of a given length over: data and a checkpoint in one put request, the same in one line-protocol request, a late point with a checkpoint of another leader, a checkpoint followed by data, write-ahead flush, flush (rotation), orderly restart, crash; "
    "after every step the reported checkpoints (all, and per leader) are compared with the model, after every crash the data covered by each reported checkpoint is queried. "
    "For shorter histories the crash is placed at every file operation and every store into a mapped file. Non-trivial = a checkpoint is reported";

typedef std::map<std::string, std::map<std::string, std::string>> Cps;      // leader -> channel -> value
struct Pt { std::string metric, key; u64 ts; double v; bool gone = false; };      // gone: not flushed when a crash came

// what a history does, worked out in advance
struct CpStep { char c; std::string body; bool line = false; std::vector<Pt> pts; Cps cps_after; Cps persisted_after; };
struct CpHist
{
    std::string name;
    std::vector<CpStep> steps;
    std::map<std::string, std::vector<std::pair<std::string, size_t>>> covers;     // "leader:channel:value" -> points before it
    std::vector<Pt> all;
    u64 tick = 3000;
};

static std::string cps_str(const Cps &c)
{
    std::string s;
    for (auto &l : c) for (auto &ch : l.second) s += (s.empty() ? "" : " ") + l.first + ":" + ch.first + ":" + ch.second;
    return s.empty() ? "none" : s;
}

static Cps reported(const std::string &leader, std::string &err)
{
    Cps c;
    Resp r = admin("cmd=cp" + (leader.empty() ? "" : "&leader=" + leader));
    if (r.status != 200) { err = fmt("cmd=cp answered %d", r.status); return c; }
    J j;
    if (!parse_json(r.body, j) || j.t != J::ARR) { err = "cmd=cp: malformed answer " + r.body.substr(0, 200); return c; }
    for (auto &l : j.a)
    {
        const J *n = l.get("leader"), *ch = l.get("channels");
        if (!n || !ch || ch->t != J::ARR) { err = "cmd=cp: malformed answer " + r.body.substr(0, 200); return c; }
        if (c.count(n->s)) { err = "cmd=cp: leader listed twice: " + r.body.substr(0, 200); return c; }
        for (auto &x : ch->a)
        {
            const J *a = x.get("channel"), *b = x.get("checkpoint");
            if (!a || !b) { err = "cmd=cp: malformed answer " + r.body.substr(0, 200); return c; }
            if (c[n->s].count(a->s)) { err = "cmd=cp: channel listed twice: " + r.body.substr(0, 200); return c; }
            c[n->s][a->s] = b->s;
        }
    }
    return c;
}

// what is reported must be one of the given states
static std::string check_reported(const std::vector<Cps> &ok, Cps *got = nullptr)
{
    std::string err;
    Cps r = reported("", err);
    if (!err.empty()) return err;
    if (got) *got = r;
    bool hit = false;
    for (auto &o : ok) if (o == r) hit = true;
    if (!hit) return fmt("reported %s, expected %s", cps_str(r).c_str(), cps_str(ok.back()).c_str());
    for (auto l : {"L1", "L2", "none"})
    {
        Cps one = reported(l, err), want;
        if (!err.empty()) return err;
        if (r.count(l)) want[l] = r[l];
        if (one != want) return fmt("reported for leader %s: %s, expected %s", l, cps_str(one).c_str(), cps_str(want).c_str());
    }
    return "";
}

// the first n points of the history are there
static std::string check_points(const CpHist &h, size_t n)
{
    std::map<std::string, std::map<u64, double>> got;
    for (std::string m : {"d", "me"})
    {
        std::vector<Series> s;
        std::string e;
        if (!query_raw(m, BASE - DAY, BASE + 2 * DAY, false, s, &e))
        {
            if (e.find("status=4") != std::string::npos) continue;
            return "query failed: " + e;
        }
        for (auto &x : s) for (auto &p : x.dps) got[x.key()][p.first] = p.second;
    }
    for (size_t i = 0; i < n; i++)
    {
        const Pt &p = h.all[i];
        if (p.gone) continue;
        bool ok = false;
        for (auto &g : got) if (g.first.compare(0, p.metric.size() + 1, p.metric + "{") == 0) { auto it = g.second.find(p.ts); if (it != g.second.end() && close_to(it->second, p.v, 1e-6)) ok = true; }
        if (!ok) return fmt("point %zu (%s at %llu) is gone", i, p.metric.c_str(), (unsigned long long)p.ts);
    }
    return "";
}

static std::string check_cover(const CpHist &h, const Cps &r)
{
    for (auto &l : r) for (auto &c : l.second)
    {
        std::string k = l.first + ":" + c.first;
        auto it = h.covers.find(k);
        if (it == h.covers.end()) return "checkpoint never sent: " + k + ":" + c.second;
        size_t n = 0;
        bool known = false;
        for (auto &v : it->second) if (v.first == c.second) { n = v.second; known = true; }
        if (!known) return "checkpoint never sent: " + k + ":" + c.second;
        std::string e = check_points(h, n);
        if (!e.empty()) return fmt("checkpoint %s:%s is reported, but %s", k.c_str(), c.second.c_str(), e.c_str());
    }
    return "";
}

static CpHist make(const std::string &letters)
{
    CpHist h;
    h.name = letters;
    Cps cur, per;
    int k = 0;
    size_t durable = 0;
    auto cp = [&](const char *l, const char *c) {
        std::string v = fmt("%d.x", (k * 7 + 3) % 11 + 100 * (k % 3));
        cur[l][c] = v;
        h.covers[fmt("%s:%s", l, c)].push_back({v, h.all.size()});
        return fmt("_cp %s:%s:%s\n", l, c, v.c_str());
    };
    auto pt = [&](CpStep &s, const char *m, u64 ts, double v) {
        Pt p{m, "", ts, v};
        s.pts.push_back(p);
        h.all.push_back(p);
        if (s.line) return fmt("%s,h=1 f=%s %llu\n", m, num(v).c_str(), (unsigned long long)ts);
        return fmt("put %s %llu %s h=1\n", m, (unsigned long long)ts, num(v).c_str());
    };
    for (char c : letters)
    {
        k++;
        CpStep s{c};
        u64 t = BASE + 40000 + k * 10;
        switch (c)
        {
            case 'a': s.body = pt(s, "d", t, k + 0.5); s.body += cp("L1", "c1"); break;
            case 'b': s.line = true; s.body = pt(s, "me", t, k + 0.25); s.body += cp("L1", "c2"); break;
            case 'c': s.body = pt(s, "d", BASE + 30000 - k * 10, k + 0.75); s.body += cp("L2", "c1"); break;
            case 'd': s.body = cp("L1", "c1"); s.body += pt(s, "d", t, k + 1.5); break;
            case 'e':       // enough for several pages, then a checkpoint
                for (int i = 0; i < 40; i++) s.body += pt(s, "d", t + i % 9 + 1000 * k + 20 * i, val(1, i));
                s.body += cp("L2", "c2");
                break;
            case 'F': durable = h.all.size(); break;
            case 'G': case 'R': per = cur; durable = h.all.size(); break;
            case 'X': cur = per; for (size_t i = durable; i < h.all.size(); i++) h.all[i].gone = true; durable = h.all.size(); break;
        }
        s.cps_after = cur;
        s.persisted_after = per;
        h.steps.push_back(s);
    }
    return h;
}

static Conf the_conf() { Cfg c{4, 64, false, true}; return conf_of(c); }
static u64 g_clock0 = (BASE + DAY / 2) * 1000;

static void step(const CpStep &s)
{
    switch (s.c)
    {
        case 'F': bg_wal_flush(); break;
        case 'G': bg_rotate(); break;
        case 'R': db_stop(); break;
        case 'X': break;
        default: { Resp r = s.line ? put_line(s.body) : put_plain(s.body); if (r.status != 200 && r.status != 204) throw std::runtime_error(fmt("write answered %d", r.status)); }
    }
}

static void run(Ctx &c, const CpHist &h)
{
    if (c.full()) return;
    c.at(h.name);
    std::string home = c.dir + "/h";
    make_dir(home);
    Cps per;
    size_t i = 0, n = h.steps.size();
    u64 clock = g_clock0;
    std::string err;
    size_t covered = 0;         // points that must be there at the next start
    bool any = false;
    for (;;)
    {
        size_t first = i;
        ChildResult x = in_child([&](std::string &out) {
            set_clock_ms(clock);
            db_start(home, the_conf());
            Cps got;
            out = check_reported({per}, &got);
            if (out.empty()) out = check_cover(h, got);
            if (out.empty()) out = check_points(h, covered);
            if (!out.empty()) { out = "at start: " + out; return; }
            for (size_t k = first; k < n; k++)
            {
                set_clock_ms(clock + (k - first + 1) * h.tick);
                step(h.steps[k]);
                if (h.steps[k].c == 'R' || h.steps[k].c == 'X') return;
                out = check_reported({h.steps[k].persisted_after});
                if (!out.empty()) { out = fmt("after step %zu: ", k + 1) + out; return; }
            }
        });
        c.traces++;
        if (!x.ok()) err = x.why();
        else err = x.out;
        if (!err.empty()) break;
        if (first >= n) break;
        while (i < n && h.steps[i].c != 'R' && h.steps[i].c != 'X') i++;
        clock += (i - first + 2) * h.tick;
        per = h.steps[std::min(i, n - 1)].persisted_after;
        covered = 0;            // after a crash, what checkpoints do not cover is another check's concern
        if (i < n && h.steps[i].c == 'R') for (size_t k = 0; k <= i; k++) covered += h.steps[k].pts.size();
        any = any || !per.empty();
        if (i < n) i++;         // one more start after the end of the history
    }
    c.eval();
    c.transitions += n;
    if (any) c.nt();
    c.states++;
    c.outcome(cps_str(per));
    if (!err.empty()) c.violation(h.name, err);
    remove_tree(home);
}

// a crash at every instant
static void run_cut(Ctx &c, const CpHist &h)
{
    if (c.full()) return;
    std::string home = c.dir + "/h", snaps = c.dir + "/s";
    make_dir(home);
    make_dir(snaps);
    u64 hits = 0;
    size_t cur = 0, nsnap = 0;
    ChildResult x = in_child([&](std::string &out) {
        std::set<std::string> seen;
        set_clock_ms(g_clock0);
        crash_hook([&](const char *op) {
            hits++;
            std::string key = fmt("%llx/%zu", (unsigned long long)snap_tree(home, nullptr), cur);
            if (!seen.insert(key).second) return;
            std::string d = snaps + fmt("/%zu", nsnap++);
            make_dir(d);
            snap_tree(home, &d);
            out += fmt("%zu %s\n", cur, op);
        });
        g_crash_stores = true;
        db_start(home, the_conf());
        for (; cur < h.steps.size(); cur++)
        {
            set_clock_ms(g_clock0 + (cur + 1) * h.tick);
            step(h.steps[cur]);
            if (h.steps[cur].c == 'R') break;
        }
        crash_hook(nullptr);
        out += fmt("= %llu\n", (unsigned long long)hits);
    }, 120);
    if (!x.ok()) { c.violation(h.name, "the run itself ended abnormally: " + x.why()); return; }
    size_t p = 0, i = 0;
    while (p < x.out.size() && !c.full())
    {
        size_t e = x.out.find('\n', p);
        std::string l = x.out.substr(p, e - p);
        p = e + 1;
        if (l[0] == '=') { c.transitions += strtoull(l.c_str() + 2, nullptr, 10); break; }
        size_t at = strtoull(l.c_str(), nullptr, 10);
        std::string d = snaps + fmt("/%zu", i);
        std::string label = fmt("%s#%zu/%s", h.name.c_str(), i, l.substr(l.find(' ') + 1).c_str());
        c.at(label);
        std::vector<Cps> ok;
        ok.push_back(at ? h.steps[at - 1].persisted_after : Cps());
        if (at < h.steps.size()) ok.push_back(h.steps[at].persisted_after);
        Cps got;
        ChildResult y = in_child([&](std::string &out) {
            set_clock_ms(g_clock0 + (at + 2) * h.tick);
            db_start(d, the_conf());
            Cps r;
            out = check_reported(ok, &r);
            if (out.empty()) out = check_cover(h, r);
            if (!out.empty()) return;
            // a flush right away must keep them
            bg_rotate();
            out = check_reported({r});
            if (out.empty()) out = check_cover(h, r);
            if (!out.empty()) { out = "after one more flush: " + out; return; }
            out = "ok" + cps_str(r);
        });
        c.traces++;
        c.eval();
        c.states++;
        if (!y.ok()) c.violation(label, "start after the crash: " + y.why());
        else if (y.out.compare(0, 2, "ok") != 0) c.violation(label, "after the crash: " + y.out);
        else { c.outcome(y.out); if (y.out != "oknone") c.nt(); }
        remove_tree(d);
        i++;
    }
    remove_tree(home);
    remove_tree(snaps);
}

static void all(const std::string &alpha, size_t len, const std::string &pre, std::vector<std::string> &out)
{
    if (pre.size() == len) { out.push_back(pre); return; }
    for (char c : alpha) all(alpha, len, pre + c, out);
}

// names of all lengths, many leaders, malformed lines
static void shapes(Ctx &c)
{
    auto session = [&](const std::string &name, std::function<void(std::string&, Cps&)> fill) {
        c.at(name);
        std::string home = c.dir + "/h";
        make_dir(home);
        Cps want;
        std::string body;
        fill(body, want);
        for (int round = 0; round < 3; round++)
        {
            ChildResult x = in_child([&](std::string &out) {
                set_clock_ms(g_clock0 + round * 10000);
                db_start(home, the_conf());
                if (round == 0)
                {
                    size_t p = 0;       // in pieces that fit a request
                    while (p < body.size())
                    {
                        size_t e = std::min(body.size(), p + 300000);
                        if (e < body.size()) e = body.rfind('\n', e) + 1;
                        put_plain(body.substr(p, e - p));
                        p = e;
                    }
                    out = check_reported({Cps()});
                    bg_rotate();
                }
                if (out.empty()) out = check_reported({want});
                if (round == 1) db_stop();
            });
            c.traces++;
            if (!x.ok()) { c.violation(name, fmt("start %d: %s", round, x.why().c_str())); break; }
            if (!x.out.empty()) { c.violation(name, fmt("start %d: %s", round, x.out.substr(0, 400).c_str())); break; }
        }
        c.eval();
        c.nt();
        c.states++;
        remove_tree(home);
    };
    for (size_t n : {1, 2, 29, 30, 31, 100, 250, 330, 340, 341, 342, 400, 500, 509, 510, 511, 512, 1000, 1015, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1030, 2000, 4000})
    {
        session(fmt("leader of %zu", n), [=](std::string &b, Cps &w) { std::string l(n, 'q'); b = "_cp " + l + ":c:5\n_cp M:c:6\n"; w[l]["c"] = "5"; w["M"]["c"] = "6"; });
        session(fmt("channel of %zu", n), [=](std::string &b, Cps &w) { std::string l(n, 'q'); b = "_cp L:" + l + ":5\n_cp M:c:6\n"; w["L"][l] = "5"; w["M"]["c"] = "6"; });
        if (n <= 30) session(fmt("value of %zu", n), [=](std::string &b, Cps &w) { std::string l(n, '7'); b = "_cp L:c:" + l + "\n_cp M:c:6\n"; w["L"]["c"] = l; w["M"]["c"] = "6"; });
    }
    for (int n : {2, 10, 100, 1000})
    {
        session(fmt("%d leaders", n), [=](std::string &b, Cps &w) { for (int i = 0; i < n; i++) { b += fmt("_cp leader%d:c:%d\n", i, i); w[fmt("leader%d", i)]["c"] = fmt("%d", i); } });
        session(fmt("%d channels", n), [=](std::string &b, Cps &w) { for (int i = 0; i < n; i++) { b += fmt("_cp L:channel%d:%d\n", i, i); w["L"][fmt("channel%d", i)] = fmt("%d", i); } });
    }
    // more than an answer can hold: an error or a part of them, nothing else
    for (int n : {700, 850, 860, 870, 1200})
        for (bool one : {false, true})
        {
            std::string name = fmt("%d long %s", n, one ? "channels" : "leaders");
            c.at(name);
            std::string home = c.dir + "/h";
            make_dir(home);
            ChildResult x = in_child([&](std::string &out) {
                set_clock_ms(g_clock0);
                db_start(home, the_conf());
                std::string pad(570, 'q');
                Cps want;
                for (int i = 0; i < n; i++)
                {
                    std::string l = one ? "L" : fmt("%s%d", pad.c_str(), i), ch = one ? fmt("%s%d", pad.c_str(), i) : "c";
                    put_plain("_cp " + l + ":" + ch + fmt(":%d\n", i));
                    want[l][ch] = fmt("%d", i);
                }
                bg_rotate();
                for (std::string who : {"", "L"})
                {
                    std::string err;
                    Cps got = reported(who, err);
                    if (!err.empty() && err.find("answered") == std::string::npos) { out = err; return; }
                    for (auto &l : got) for (auto &ch : l.second) if (!want.count(l.first) || !want[l.first].count(ch.first) || want[l.first][ch.first] != ch.second) { out = "reported " + ch.second + ", never sent"; return; }
                    if (n <= 700 && who.empty() && got != want) { out = "not all are reported"; return; }
                }
            });
            c.traces++;
            c.eval();
            c.nt();
            c.states++;
            if (!x.ok()) c.violation(name, x.why());
            else if (!x.out.empty()) c.violation(name, x.out);
            remove_tree(home);
        }
    // malformed ones are ignored and do not disturb the others
    for (const char *bad : {"_cp \n", "_cp x\n", "_cp x:y\n", "_cp x:y:\n", "_cp x:y:z:w\n", "_cp :\n", "_cp ::\n", "_cp\n"})
    {
        session(fmt("malformed %s", std::string(bad, strlen(bad) - 1).c_str()), [=](std::string &b, Cps &w) { b = "_cp L:c:1\n" + std::string(bad) + "_cp M:c:2\n"; w["L"]["c"] = "1"; w["M"]["c"] = "2"; });
        session(fmt("malformed first %s", std::string(bad, strlen(bad) - 1).c_str()), [=](std::string &b, Cps &w) { b = std::string(bad) + "_cp M:c:2\n"; w["M"]["c"] = "2"; });
    }
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    std::vector<std::string> hs;
    all("abcdFGRX", th ? 5 : 4, "", hs);
    if (!th) all("acFGRX", 5, "", hs);
    // without a flush nothing is ever reported: keep a few of those only
    std::vector<std::string> keep;
    for (size_t i = 0; i < hs.size(); i++)
    {
        bool flush = hs[i].find('G') != std::string::npos || hs[i].find('R') != std::string::npos;
        bool cp = hs[i].find_first_of("abcd") != std::string::npos;
        if ((flush && cp) || i % 7 == 0) keep.push_back(hs[i]);
    }
    const size_t chunk = th ? 400 : 90;
    for (size_t p = 0; p < keep.size(); p += chunk)
    {
        std::vector<std::string> part(keep.begin() + p, keep.begin() + std::min(keep.size(), p + chunk));
        jobs.push_back({fmt("histories/%zu", p / chunk), [=](Ctx &c) { for (auto &s : part) run(c, make(s)); c.sample(part[0] + " .. " + part.back()); }});
    }
    // many flushes, in the same second or not
    for (u64 tick : {0, 1000, 86400000})
        jobs.push_back({fmt("flushes/%llu", (unsigned long long)tick), [=](Ctx &c) {
            for (std::string s : {"aGaGaGaGaGaGaGaGaGaGaGaGaGXaGX", "aGbGcGdGGGGGGGGGGGGGGXGaX", "aGRaGRGGRbGX", "aGXaXGXbX", "eGXeXGeX", "aGeFXeGX"})
            {
                CpHist h = make(s);
                h.tick = tick;
                run(c, h);
            }
        }});
    jobs.push_back({"shapes", shapes});
    std::vector<std::string> cut;
    for (std::string s : {"aGbG", "abcG", "cGaG", "dGaG", "aGFa", "aFGb", "aFaG", "eG", "eGeG", "aGGG", "bGcR", "aR"}) cut.push_back(s);
    if (th) { std::vector<std::string> t; all("acdFGR", 4, "", t); for (auto &s : t) if (s.find('G') != std::string::npos && s.find_first_of("acd") != std::string::npos) cut.push_back(s); }
    for (auto &s : cut)
        jobs.push_back({"cut/" + s, [=](Ctx &c) { run_cut(c, make(s)); c.sample(s); }});
}
