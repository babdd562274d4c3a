// C03: a crash loses nothing logged, invents nothing, and the server starts again.
#include "cfg.h"
#include "ctl.h"
#include "snap.h"
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>
using namespace vh;

const char *vh::g_rule =
    "the data directory is copied before every file operation and before every store into a mapped file of a run (start, writes, write-ahead flushes, page flushes, day change, rotation, archiving, orderly restart); each distinct copy is what a process death at that instant leaves. "
    "From each: start, compare with what had to survive and what may be there, die again at once, start, compare, write more to old and new series, compare, restart in order, compare. Also every truncation of the write-ahead file. "
    "Non-trivial = crash states with at least one point that has to survive";

// ---------------------------------------------------------------- history --
struct Pt { std::string key; u64 ts; double v; };      // key: metric{tags}
struct Op { char c; std::string body; std::vector<Pt> pts; bool line = false; };

typedef std::map<std::string, std::map<u64, double>> Model;
typedef std::map<std::string, std::map<u64, std::set<double>>> Poss;

static Op W1(const std::string &metric, int tag, u64 ts, double v)
{
    Op o{'w'};
    o.body = fmt("put %s %llu %s h=a%d\n", metric.c_str(), (unsigned long long)ts, num(v).c_str(), tag);
    o.pts.push_back({metric + fmt("{h=a%d}", tag), ts, v});
    return o;
}
static Op WM(const std::string &meas, int tag, u64 ts, double v)     // two fields in one line
{
    Op o{'w'};
    o.line = true;
    o.body = fmt("%s,h=a%d f1=%s,f2=%s %llu\n", meas.c_str(), tag, num(v).c_str(), num(v + 1).c_str(), (unsigned long long)ts);
    o.pts.push_back({meas + fmt("{_field=f1,h=a%d}", tag), ts, v});
    o.pts.push_back({meas + fmt("{_field=f2,h=a%d}", tag), ts, v + 1});
    return o;
}
static Op E(char c) { return Op{c}; }
static Op join(const std::vector<Op> &v) { Op o{'w'}; for (auto &x : v) { o.body += x.body; o.line = x.line; for (auto &p : x.pts) o.pts.push_back(p); } return o; }

struct Run { size_t nested = 0;  Cfg cfg; std::vector<Op> ops; std::string name; bool stores = true; u64 clock = (BASE + DAY / 2) * 1000; };
struct Snap { size_t must, may; u64 clock; std::string op; std::string dir; };

static std::set<std::string> metrics_of(const std::vector<Op> &ops)
{
    std::set<std::string> s;
    for (auto &o : ops) for (auto &p : o.pts) s.insert(p.key.substr(0, p.key.find('{')));
    return s;
}

static bool read_all(const std::set<std::string> &metrics, bool ms, Model &out, std::string &err)
{
    for (auto &m : metrics)
    {
        std::vector<Series> got;
        std::string e;
        if (!query_raw(m, T(BASE - 3 * DAY, ms), T(BASE + 9 * DAY, ms), ms, got, &e))
        {
            if (e.find("status=4") != std::string::npos) continue;      // not known (any more)
            err = "query of " + m + " failed: " + e;
            return false;
        }
        for (auto &s : got)
        {
            std::string k = s.metric + "{";
            for (auto &t : s.tags) k += (k.back() == '{' ? "" : ",") + t.first + "=" + t.second;
            k += "}";
            if (out.count(k)) { err = "series " + k + " returned twice"; return false; }
            for (size_t i = 0; i < s.dps.size(); i++)
            {
                if (i && s.dps[i].first <= s.dps[i - 1].first) { err = "points of " + k + " not in order or repeated: " + dps_str(s.dps); return false; }
                out[k][s.dps[i].first] = s.dps[i].second;
            }
        }
    }
    return true;
}

static std::string compare(const Model &must, const Poss &may, const Model &got, double tol)
{
    for (auto &s : must) for (auto &p : s.second)
    {
        auto it = got.find(s.first);
        if (it == got.end() || !it->second.count(p.first)) return fmt("lost: %s at %llu = %s", s.first.c_str(), (unsigned long long)p.first, num(p.second).c_str());
    }
    for (auto &s : got) for (auto &p : s.second)
    {
        auto it = may.find(s.first);
        if (it == may.end()) return fmt("invented series %s (%llu = %s)", s.first.c_str(), (unsigned long long)p.first, num(p.second).c_str());
        auto jt = it->second.find(p.first);
        if (jt == it->second.end()) return fmt("invented point: %s at %llu = %s", s.first.c_str(), (unsigned long long)p.first, num(p.second).c_str());
        bool ok = false;
        for (double v : jt->second) if (close_to(v, p.second, tol)) ok = true;
        if (!ok) return fmt("wrong value: %s at %llu = %s", s.first.c_str(), (unsigned long long)p.first, num(p.second).c_str());
    }
    return "";
}
static std::string exact(const Model &want, const Model &got, double tol)
{
    Poss may;
    for (auto &s : want) for (auto &p : s.second) may[s.first][p.first].insert(p.second);
    return compare(want, may, got, tol);
}

// ------------------------------------------------------------------ copies --
// copies data (not holes); returns a hash of names and contents
// empty directories matter too
static void start(const std::string &home, const Run &r, u64 clock)
{
    set_clock_ms(clock);
    db_start(home, conf_of(r.cfg));
}

static Model model_at(const Run &r, size_t n)
{
    Model m;
    for (size_t i = 0; i < n; i++) for (auto &p : r.ops[i].pts) m[p.key][p.ts] = p.v;
    return m;
}
static Poss poss_at(const Run &r, size_t n)
{
    Poss m;
    for (size_t i = 0; i < n; i++) for (auto &p : r.ops[i].pts) m[p.key][p.ts].insert(p.v);
    return m;
}

// what follows the crash; the directory is used up
static std::string after_crash(Ctx &c, const Run &r, const Snap &sn, const std::string &home, bool again)
{
    double tol = tol_of(r.cfg);
    bool ms = r.cfg.ms;
    Model must = model_at(r, sn.must);
    Poss may = poss_at(r, sn.may);
    std::set<std::string> metrics = metrics_of(r.ops);
    metrics.insert("after.crash");
    Model seen;
    if (again)
    {
        ChildResult x = in_child([&](std::string &out) {
            start(home, r, sn.clock);
            Model g; std::string e;
            if (!read_all(metrics, ms, g, e)) { out = e; return; }
            out = compare(must, may, g, tol);
        }, 60);
        c.traces++;
        if (!x.ok()) return "start after the crash: " + x.why();
        if (!x.out.empty()) return "after the crash: " + x.out;
    }
    std::string fileout = home + ".model";
    ChildResult x = in_child([&](std::string &out) {
        start(home, r, sn.clock);
        Model g; std::string e;
        if (!read_all(metrics, ms, g, e)) { out = e; return; }
        out = compare(must, may, g, tol);
        if (!out.empty()) return;
        // more writes: every series at a later time, at an earlier one and at one it has; new series
        std::string b, lb;
        u64 t0 = T(BASE + DAY / 2, ms);
        auto put = [&](const std::string &k, u64 ts, double v) {
            g[k][ts] = v;
            std::string m = k.substr(0, k.find('{')), tags = k.substr(k.find('{') + 1);
            tags.pop_back();
            if (tags.compare(0, 7, "_field=") == 0) { size_t cm = tags.find(','); lb += fmt("%s,%s %s=%s %llu\n", m.c_str(), tags.substr(cm + 1).c_str(), tags.substr(7, cm - 7).c_str(), num(v).c_str(), (unsigned long long)ts); }
            else b += fmt("put %s %llu %s %s\n", m.c_str(), (unsigned long long)ts, num(v).c_str(), tags.c_str());
        };
        Model old = g;
        std::set<std::string> keys;
        for (auto &o : r.ops) for (auto &p : o.pts) keys.insert(p.key);
        double v = 7000.5;
        for (auto &k : keys)
        {
            u64 last = old.count(k) && !old[k].empty() ? old[k].rbegin()->first : t0;
            put(k, last + 7, v += 1);
            if (old.count(k) && !old[k].empty()) { put(k, old[k].begin()->first, v += 1); put(k, last - 3, v += 1); }
            put(k, last + 9, v += 1);
        }
        put("after.crash{h=n1}", t0 + 50, 1.25);
        put("after.crash{h=n2}", t0 + 51, 2.25);
        put(*metrics.begin() + "{h=n3}", t0 + 52, 3.25);
        Resp p1 = put_plain(b);
        if (p1.status != 200) { out = fmt("write after the crash refused: %d", p1.status); return; }
        if (!lb.empty()) { Resp p2 = put_line(lb); if (p2.status != 200 && p2.status != 204) { out = fmt("write after the crash refused: %d", p2.status); return; } }
        Model g2;
        if (!read_all(metrics, ms, g2, e)) { out = e; return; }
        e = exact(g, g2, tol);
        if (!e.empty()) { out = "after further writes: " + e; return; }
        db_stop();
        std::string f;
        for (auto &s : g) for (auto &p : s.second) f += fmt("%s %llu %.17g\n", s.first.c_str(), (unsigned long long)p.first, p.second);
        write_file(fileout, f);
    }, 60);
    c.traces++;
    if (!x.ok()) return std::string(again ? "second " : "") + "start after the crash: " + x.why();
    if (!x.out.empty()) return (again ? "after a second crash: " : "after the crash: ") + x.out;
    Model g;
    {
        std::string f = read_file(fileout);
        size_t p = 0;
        while (p < f.size())
        {
            size_t e = f.find('\n', p), s1 = f.find(' ', p), s2 = f.find(' ', s1 + 1);
            g[f.substr(p, s1 - p)][strtoull(f.c_str() + s1 + 1, nullptr, 10)] = strtod(f.c_str() + s2 + 1, nullptr);
            p = e + 1;
        }
        ::remove(fileout.c_str());
    }
    x = in_child([&](std::string &out) {
        start(home, r, sn.clock);
        Model g2; std::string e;
        if (!read_all(metrics, ms, g2, e)) { out = e; return; }
        out = exact(g, g2, tol);
    }, 60);
    c.traces++;
    if (!x.ok()) return "start after the orderly stop: " + x.why();
    if (!x.out.empty()) return "after the orderly restart that followed: " + x.out;
    return "";
}

// a crash at every instant of the start that follows a crash
static void again_and_again(Ctx &c, const Run &r, const Snap &sn, const std::string &label)
{
    std::string home = c.dir + "/n", snaps = c.dir + "/ns";
    make_dir(home);
    make_dir(snaps);
    snap_tree(sn.dir, &home);
    u64 hits = 0;
    ChildResult x = in_child([&](std::string &out) {
        std::set<u64> seen;
        size_t n = 0;
        crash_hook([&](const char *op) {
            hits++;
            if (!seen.insert(snap_tree(home, nullptr)).second) return;
            std::string d = snaps + fmt("/%zu", n++);
            make_dir(d);
            snap_tree(home, &d);
            out += fmt("%s\n", op);
        });
        g_crash_stores = r.stores;
        start(home, r, sn.clock);
        crash_hook(nullptr);
        out += fmt("= %llu\n", (unsigned long long)hits);
    }, 120);
    if (!x.ok()) c.violation(label, "start after the crash: " + x.why());
    else
    {
        size_t p = 0, i = 0;
        while (p < x.out.size() && !c.full())
        {
            size_t e = x.out.find('\n', p);
            std::string l = x.out.substr(p, e - p);
            p = e + 1;
            if (l[0] == '=') { c.transitions += strtoull(l.c_str() + 2, nullptr, 10); break; }
            Snap s = sn;
            s.dir = snaps + fmt("/%zu", i);
            std::string err = after_crash(c, r, s, s.dir, false);
            c.eval();
            c.states++;
            if (s.must > 0) c.nt();
            c.outcome(err);
            if (!err.empty()) c.violation(fmt("%s!%zu/%s", label.c_str(), i, l.c_str()), fmt("second crash during the start after a crash: %s", err.c_str()));
            remove_tree(s.dir);
            i++;
        }
    }
    remove_tree(home);
    remove_tree(snaps);
}

static void run(Ctx &c, const Run &r)
{
    if (c.full()) return;
    std::string home = c.dir + "/h", snaps = c.dir + "/s";
    make_dir(home);
    make_dir(snaps);
    size_t done = 0, must = 0;
    u64 clock = r.clock;
    std::vector<Snap> all;
    std::set<std::string> seen;
    size_t nsnap = 0;
    u64 hits = 0;
    size_t next = 0;
    // one process per session (sessions end at an orderly restart)
    while (next <= r.ops.size())
    {
        size_t first = next;
        ChildResult x = in_child([&](std::string &out) {
            size_t cur = first;         // the op in progress is counted as possible
            crash_hook([&](const char *op) {
                hits++;
                u64 h = snap_tree(home, nullptr);
                std::string key = fmt("%llx/%zu", (unsigned long long)h, must);
                if (!seen.insert(key).second) return;
                std::string d = snaps + fmt("/%zu", nsnap);
                make_dir(d);
                snap_tree(home, &d);
                out += fmt("%zu %zu %llu %s@%zu\n", must, std::min(cur + 1, r.ops.size()), (unsigned long long)clock, op, cur);
                nsnap++;
            });
            g_crash_stores = r.stores;
            start(home, r, clock);
            for (; cur < r.ops.size(); cur++)
            {
                const Op &o = r.ops[cur];
                if (o.c == 'R') break;
                switch (o.c)
                {
                    case 'w': if (o.line) put_line(o.body); else put_plain(o.body); break;
                    case 'F': bg_wal_flush(); must = cur; break;
                    case 'A': bg_archive_ts(); break;
                    case 'G': bg_rotate(); break;
                    case 'M': bg_gc(); break;
                    case 'D': clock += DAY * 1000; set_clock_ms(clock); break;
                    case 'T': clock += 3600000; set_clock_ms(clock); break;
                    case 'Q': { Model g; std::string e; read_all(metrics_of(r.ops), r.cfg.ms, g, e); break; }
                }
            }
            db_stop();
            crash_hook(nullptr);
            out += fmt("= %zu %llu %llu\n", cur, (unsigned long long)clock, (unsigned long long)hits);
        }, 120);
        if (!x.ok()) { c.violation(r.name, "the run itself ended abnormally: " + x.why()); return; }
        size_t p = 0;
        bool fin = false;
        while (p < x.out.size())
        {
            size_t e = x.out.find('\n', p);
            std::string l = x.out.substr(p, e - p);
            p = e + 1;
            if (l[0] == '=') { unsigned long long ck, hh; size_t cu; sscanf(l.c_str(), "= %zu %llu %llu", &cu, &ck, &hh); next = cu; clock = ck; hits = hh; fin = true; continue; }
            Snap s;
            unsigned long long ck;
            char op[64];
            sscanf(l.c_str(), "%zu %zu %llu %63s", &s.must, &s.may, &ck, op);
            s.clock = ck;
            s.op = op;
            s.dir = snaps + fmt("/%zu", all.size());
            all.push_back(s);
        }
        nsnap = all.size();
        if (!fin) { c.violation(r.name, "the run did not finish"); return; }
        // everything done so far is on disk now
        must = next;
        if (next >= r.ops.size()) break;
        next++;
    }
    done = all.size();
    c.transitions += hits;
    c.states += done;
    for (size_t i = 0; i < all.size(); i++)
    {
        Snap &s = all[i];
        std::string label = fmt("%s#%zu/%s", r.name.c_str(), i, s.op.c_str());
        c.at(label);
        if (r.nested && i % r.nested == 0) again_and_again(c, r, s, label);
        std::string e = after_crash(c, r, s, s.dir, i % 2 == 0);
        c.eval();
        if (s.must > 0) c.nt();
        c.outcome(e);
        if (!e.empty()) c.violation(label, fmt("%s (operations completed before the last flush: %zu of %zu)", e.c_str(), s.must, r.ops.size()));
        remove_tree(s.dir);
        if (c.full()) break;
    }
    c.sample(fmt("%s: %zu operations, %llu instants, %zu distinct crash states", r.name.c_str(), r.ops.size(), (unsigned long long)hits, done));
    remove_tree(home);
    remove_tree(snaps);
}

// the write-ahead file cut short at every length
static void torn(Ctx &c, const Run &r, bool with_old)
{
    if (c.full()) return;
    std::string home = c.dir + "/h", keep = c.dir + "/k";
    make_dir(home);
    u64 clock = r.clock;
    ChildResult x = in_child([&](std::string &out) {
        start(home, r, clock);
        for (auto &o : r.ops) switch (o.c)
        {
            case 'w': if (o.line) put_line(o.body); else put_plain(o.body); break;
            case 'F': bg_wal_flush(); break;
        }
    }, 60);
    if (!x.ok()) { c.violation(r.name, x.why()); return; }
    // the last flush is taken to have been interrupted while writing
    std::string wal;
    for (auto &f : list_tree(home)) if (f.size() > 10 && f.substr(f.size() - 10) == "append.log") wal = f;
    if (wal.empty()) { c.violation(r.name, "no write-ahead file found"); return; }
    std::string data = read_file(home + "/" + wal);
    std::string tmp = wal.substr(0, wal.size() - 4) + ".tmp";
    make_dir(keep);
    snap_tree(home, &keep);
    // what the flush before it left
    size_t lastF = 0, prevF = 0;
    for (size_t i = 0; i < r.ops.size(); i++) if (r.ops[i].c == 'F') { prevF = lastF; lastF = i; }
    for (size_t n = 0; n < data.size(); n += c.thorough() ? 1 : (n < 64 || n + 40 > data.size() ? 1 : 3))
    {
        std::string d = c.dir + "/t";
        make_dir(d);
        snap_tree(keep, &d);
        ::remove((d + "/" + wal).c_str());
        write_file(d + "/" + tmp, data.substr(0, n));
        if (with_old) write_file(d + "/" + wal, data);      // a complete older one: here with the same content
        Snap s{with_old ? lastF : 0, r.ops.size(), clock, "torn", d};
        (void)prevF;
        std::string label = fmt("%s/cut %zu%s", r.name.c_str(), n, with_old ? " beside a complete one" : "");
        c.at(label);
        std::string e = after_crash(c, r, s, d, n % 2 == 0);
        c.eval(); c.nt(); c.states++;
        if (!e.empty()) c.violation(label, e);
        remove_tree(d);
        if (c.full()) break;
    }
    remove_tree(home);
    remove_tree(keep);
    c.sample(fmt("%s: write-ahead file of %zu bytes", r.name.c_str(), data.size()));
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    // every family of histories with three encodings, some with the others
    std::vector<Cfg> cfgs;
    for (int comp : {4, 1, 0, 2, 3}) cfgs.push_back({comp, 64, false, true});
    cfgs.push_back({4, 256, false, true});
    cfgs.push_back({2, 64, true, true});
    cfgs.push_back({4, 128, true, true});
    for (auto &cfg : cfgs)
    {
        bool ms = cfg.ms;
        bool all = th || (cfg.comp == 4 && cfg.page == 64) || (cfg.comp == 1) || (cfg.comp == 2 && ms);
        size_t nest = cfg.comp == 4 && cfg.page == 64 ? 12 : 0;
        u64 b = T(BASE + 40000, ms), st = ms ? 5123 : 10;
        std::string cs = "/" + cfg_str(cfg);
        auto add = [&](const std::string &n, std::function<std::vector<Op>(int cap)> mk, bool stores = true) {
            if (!all && n != "page+0" && n != "late") return;
            jobs.push_back({n + cs, [=](Ctx &c) {
                int cap = capacity(c, cfg, 1, st);
                Run r;
                r.cfg = cfg;
                r.ops = mk(cap);
                r.name = n;
                r.stores = stores;
                r.nested = th ? 3 : nest;
                run(c, r);
            }});
        };
        auto pt = [=](int m, int tag, int i) { return W1(fmt("m%d", m), tag, b + i * st, val(1, i + 3 * m)); };
        // first points, flush, more points, flush
        add("first", [=](int) { return std::vector<Op>{pt(0, 0, 0), E('F'), pt(0, 0, 1), pt(1, 0, 0), E('F'), pt(1, 1, 2)}; });
        // page boundary between flushes
        for (int d : {-1, 0, 1})
            add(fmt("page%+d", d), [=](int cap) {
                std::vector<Op> v, f;
                for (int i = 0; i < cap + d; i++) f.push_back(pt(0, 0, i));
                v.push_back(join(f));
                v.push_back(E('F'));
                v.push_back(pt(0, 0, cap + d));
                v.push_back(pt(0, 0, cap + d + 1));
                v.push_back(E('F'));
                v.push_back(pt(0, 0, cap + d + 2));
                return v;
            });
        // a page on either side of noon, and one across it
        add("noon", [=](int cap) {
            u64 noon = T(BASE + DAY / 2, ms);
            std::vector<Op> v, f;
            for (int i = 0; i < cap + cap / 2; i++) f.push_back(W1("m0", 0, noon - (cap + 2) * st + i * st, val(1, i)));
            v = {join(f), E('F')};
            f.clear();
            for (int i = cap + cap / 2; i < 2 * cap + 1; i++) f.push_back(W1("m0", 0, noon - (cap + 2) * st + i * st, val(1, i)));
            v.push_back(join(f));
            v.push_back(W1("m0", 0, noon - st / 2, 3.75));
            v.push_back(E('F'));
            v.push_back(E('A'));
            v.push_back(W1("m0", 0, noon + 3 * cap * st, 4.75));
            return v;
        });
        // the files of a bucket fill
        add("fill", [=](int cap) {
            std::vector<Op> v, f;
            for (int i = 0; i < 14 * cap; i++) f.push_back(pt(0, 0, i));
            v = {join(f), E('F')};
            for (int k = 14; k < 18; k++)
            {
                f.clear();
                for (int i = k * cap; i < (k + 1) * cap; i++) f.push_back(pt(0, 0, i));
                v.push_back(join(f));
            }
            v.push_back(E('F'));
            return v;
        });
        // late and repeated points
        add("late", [=](int cap) {
            std::vector<Op> v, f;
            for (int i = 0; i < cap - 1; i++) f.push_back(pt(0, 0, 2 * i));
            v = {join(f), E('F'), pt(0, 0, 1), E('F'), pt(0, 0, 2), pt(0, 0, 3)};
            Op o = W1("m0", 0, b + 2 * st, 77.25);
            v.push_back(o);
            v.push_back(E('F'));
            f.clear();
            for (int i = cap - 1; i < 2 * cap; i++) f.push_back(pt(0, 0, 2 * i));
            v.push_back(join(f));
            v.push_back(W1("m0", 0, b + 4 * st, 78.25));
            v.push_back(E('F'));
            return v;
        });
        // many late points: the late page fills
        add("latefull", [=](int) {
            std::vector<Op> v, f;
            v.push_back(pt(0, 0, 100));
            v.push_back(E('F'));
            for (int i = 0; i < 14; i++) f.push_back(pt(0, 0, 50 - 3 * i));
            v.push_back(join(f));
            v.push_back(E('F'));
            f.clear();
            for (int i = 0; i < 6; i++) f.push_back(pt(0, 0, 51 - 3 * i));
            v.push_back(join(f));
            return v;
        });
        // the next day
        add("day", [=](int) {
            u64 d = T(DAY, ms);
            return std::vector<Op>{pt(0, 0, 0), pt(0, 0, 1), E('F'), E('D'), W1("m0", 0, b + d, 5.5), W1("m1", 0, b + d, 6.5), E('F'), W1("m0", 0, b + 2 * st, 7.5), W1("m0", 0, b + d + 1, 8.5), E('F'), W1("m0", 0, b + 2 * d, 9.5)};
        });
        // orderly restart in between
        add("restart", [=](int cap) {
            std::vector<Op> f;
            for (int i = 0; i < cap / 2; i++) f.push_back(pt(0, 0, i));
            return std::vector<Op>{join(f), pt(0, 1, 0), E('F'), pt(0, 0, 60), E('R'), pt(0, 0, 61), E('F'), pt(0, 0, 62), pt(2, 0, 0), E('R'), pt(2, 0, 1)};
        });
        // housekeeping
        add("rotate", [=](int) {
            u64 d = T(DAY, ms);
            return std::vector<Op>{pt(0, 0, 0), E('F'), E('D'), W1("m0", 0, b + d, 5.5), E('F'), E('G'), W1("m0", 0, b + 3 * st, 6.5), E('F'), E('D'), E('D'), E('A'), E('G'), W1("m0", 0, b + 3 * d, 7.5), E('F')};
        });
        // fields and tags
        add("fields", [=](int) {
            return std::vector<Op>{WM("me", 0, b, 1.5), E('F'), WM("me", 1, b + st, 2.5), WM("me", 0, b + st, 3.5), E('F'), pt(0, 0, 1), pt(0, 1, 1), WM("mx", 0, b, 4.5), E('F'), pt(0, 2, 1)};
        });
        // many series: buffers of the metadata and log files fill and empty on their own
        if (th || (cfg.comp == 4 && cfg.page == 64))
            add("many", [=](int) {
                std::vector<Op> f, g;
                for (int i = 0; i < 75; i++) f.push_back(W1(fmt("a.rather.long.metric.name.%d", i % 3), i / 3, b, i + 0.5));
                for (int i = 0; i < 75; i++) g.push_back(W1(fmt("a.rather.long.metric.name.%d", i % 3), i / 3, b + st, i + 1.5));
                return std::vector<Op>{join(f), E('F'), join(g), E('F')};
            });
        if (cfg.page == 64 || th)
        {
            for (bool old : {false, true})
                jobs.push_back({fmt("torn%d", old) + cs, [=](Ctx &c) {
                    Run r;
                    r.cfg = cfg;
                    std::vector<Op> f;
                    for (int i = 0; i < 5; i++) f.push_back(pt(0, 0, 2 * i));
                    f.push_back(pt(1, 0, 0)); f.push_back(pt(1, 1, 0)); f.push_back(pt(0, 0, 3));
                    r.ops = {join(f), E('F'), WM("me", 0, b, 1.5), pt(0, 0, 5), pt(0, 0, 12), E('F')};
                    r.name = "torn";
                    torn(c, r, old);
                }});
        }
    }
}
