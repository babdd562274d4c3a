// C07: a page returns exactly the points that were put in.
#include "cfg.h"
#include <sys/mman.h>
#include <unistd.h>
#include "global.h"
#include "type.h"
#include "compress.h"
#include "config.h"
using namespace vh;

const char *vh::g_rule =
    "sequences of (time step, value step) are put into one page through the page encoder's public interface; time steps cross the boundary of every length class of the delta encodings (also relative to the first offset), value steps cross every value class, "
    "the precision and the integer range; all triples of time steps, all triples of value steps, all pairs of combined steps, all depth-bounded mixtures of size classes, periodic fillings of every small page size, and repeat runs of boundary lengths are run. "
    "After every step (short sequences) or at the end the content is compared with the points accepted so far; at every position the page is saved and restored into a used encoder whose buffer holds rubbish, and original and restored page continue side by side. "
    "Non-trivial = distinct sequences in which at least two points were accepted";

typedef std::pair<u64, double> P;

static double g_prec = 1e8;

// the buffer ends at a page that cannot be written or read
struct Buf
{
    uint8_t *page, *end;
    Buf()
    {
        page = (uint8_t*)mmap(nullptr, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        end = page + 12288;
        mprotect(end, 4096, PROT_NONE);
    }
    uint8_t *at(size_t n, int fill) { memset(end - n - 16, 0xA5, 16); memset(end - n, fill, n); return end - n; }
    bool intact(size_t n) const { for (int i = 1; i <= 16; i++) if (end[-(i64)n - i] != 0xA5) return false; return true; }
};

static bool same_value(int ver, double want, double got)
{
    u64 a, b;
    memcpy(&a, &want, 8);
    memcpy(&b, &got, 8);
    if (a == b) return true;
    if ((a << 1) == 0 && (b << 1) == 0) return ver >= 3;       // zeros
    if (ver <= 2) return false;
    if ((a >> 52 & 2047) == 2047 || (b >> 52 & 2047) == 2047) return false;
    return std::abs(want - got) <= 1.0 / g_prec * (1 + 1e-9) + std::abs(want) * 0x1p-50;
}

static std::string str(const std::vector<P> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++)
    {
        if (v.size() > 14 && i == 6) { s += " ..."; i = v.size() - 6; }
        s += fmt(" %llu=%.17g", (unsigned long long)v[i].first, v[i].second);
    }
    return s;
}

static std::string differs(int ver, const std::vector<P> &model, tt::DataPointVector &got)
{
    size_t n = std::min(model.size(), got.size());
    for (size_t i = 0; i < n; i++)
        if (model[i].first != got[i].first || !same_value(ver, model[i].second, got[i].second))
            return fmt("point %zu of %zu: put in %llu=%.17g, got %llu=%.17g", i, model.size(), (unsigned long long)model[i].first, model[i].second, (unsigned long long)got[i].first, got[i].second);
    if (model.size() != got.size()) return fmt("%zu points put in, got %zu", model.size(), got.size());
    return "";
}

struct Enc
{
    int ver = -1;
    size_t cap = 0;
    tt::Compressor *z = nullptr;
    Buf buf;
    std::vector<P> model;
    void start(int v, u64 day, size_t n, int fill)
    {
        if (v != ver) { z = tt::Compressor::create(v); ver = v; }
        cap = n;
        z->init(day, buf.at(n, fill), n);
        model.clear();
    }
    bool put(const P &p)
    {
        bool ok = z->compress(p.first, p.second);
        if (ok)
        {
            if (ver == 0)
            {
                size_t i = model.size();
                while (i > 0 && model[i - 1].first > p.first) i--;
                model.insert(model.begin() + i, p);
            }
            else model.push_back(p);
        }
        return ok;
    }
    std::string check()
    {
        tt::DataPointVector d;
        z->uncompress(d);
        std::string e = differs(ver, model, d);
        if (e.empty() && !buf.intact(cap)) e = "wrote before the buffer";
        if (e.empty() && z->get_dp_count() != model.size()) e = fmt("%zu points accepted, count is %d", model.size(), (int)z->get_dp_count());
        if (e.empty() && z->is_empty() != model.empty()) e = "emptiness is wrong";
        if (e.empty() && !model.empty() && z->get_last_tstamp() != model.back().first) e = fmt("last timestamp is %llu", (unsigned long long)z->get_last_tstamp());
        return e;
    }
    void done() { z->recycle(); }
};

struct Run
{
    Ctx &c;
    Enc a, b, o;
    std::string kind;
    u64 day;
    std::string last_err;
    Run(Ctx &c_, u64 d) : c(c_), day(d) {}
    void bad(int ver, size_t cap, const std::vector<P> &seq, const std::string &what)
    {
        std::vector<P> rel;
        for (auto &p : seq) rel.emplace_back(p.first - day, p.second);
        c.violation(fmt("v%d cap%zu%s", ver, cap, str(rel).c_str()), what);
    }
    // every = compare after every step; saves: positions at which to save and restore
    bool run(int ver, size_t cap, const std::vector<P> &seq, bool every, const std::vector<size_t> &saves, int fill = 0xFF)
    {
        c.eval();
        std::string e;
        a.start(ver, day, cap, fill);
        std::vector<bool> acc;
        for (size_t i = 0; i < seq.size(); i++)
        {
            // the callers give these encodings ascending times only
            if (ver != 0 && !a.model.empty() && seq[i].first <= a.model.back().first) { acc.push_back(false); continue; }
            bool ok = a.put(seq[i]);
            if (!ok && i == 0) e = "the first point is refused";
            acc.push_back(ok);
            if (every && e.empty()) e = a.check();
            if (!e.empty()) { bad(ver, cap, seq, fmt("after point %zu (%s): ", i, ok ? "accepted" : "refused") + e); a.done(); return false; }
        }
        e = a.check();
        if (e.empty()) e = a.check();
        if (!e.empty()) { bad(ver, cap, seq, "at the end: " + e); a.done(); return false; }
        if (a.model.size() >= 2) c.nt();
        a.done();
        for (size_t k : saves)
        {
            if (k == 0 || k > seq.size()) continue;
            c.eval();
            o.start(ver, day, cap, fill);
            bool refused = false;   // not part of what is saved: a page that has refused is closed by its owner
            for (size_t i = 0; i < k; i++) if (ver == 0 || o.model.empty() || seq[i].first > o.model.back().first) refused |= !o.put(seq[i]);
            static uint8_t tmp[16384];
            memset(tmp, 0x5A, sizeof tmp);
            tt::CompressorPosition pos;
            o.z->pad();
            o.z->save(pos);
            o.z->save(tmp);
            e = o.check();
            if (!e.empty()) { bad(ver, cap, seq, fmt("after saving at %zu: ", k) + e); o.done(); return false; }
            b.start(ver, day, cap, fill ^ 0x5B);
            tt::DataPointVector d;
            b.z->restore(d, pos, tmp);
            b.model = o.model;
            e = differs(ver, b.model, d);
            if (e.empty()) e = b.check();
            if (!e.empty()) { bad(ver, cap, seq, fmt("restored from a save at %zu: ", k) + e); o.done(); b.done(); return false; }
            for (size_t i = k; i < seq.size(); i++)
            {
                if (ver != 0 && seq[i].first <= o.model.back().first) continue;
                if (refused && (ver != 0 && seq[i].first <= b.model.back().first)) continue;
                bool x = o.put(seq[i]), y = b.put(seq[i]);
                if (x != y && !refused) { bad(ver, cap, seq, fmt("saved at %zu: point %zu is %s by the original and %s by the restored page", k, i, x ? "accepted" : "refused", y ? "accepted" : "refused")); o.done(); b.done(); return false; }
            }
            e = o.check();
            if (!e.empty()) { bad(ver, cap, seq, fmt("continued after a save at %zu: ", k) + e); o.done(); b.done(); return false; }
            e = b.check();
            if (!e.empty()) { bad(ver, cap, seq, fmt("continued after a restore at %zu: ", k) + e); o.done(); b.done(); return false; }
            // and once more: a restored page can be saved again
            tt::CompressorPosition pos2;
            b.z->pad();
            b.z->save(pos2);
            b.z->save(tmp);
            o.done();
            o.start(ver, day, cap, 0x33);
            d.clear();
            o.z->restore(d, pos2, tmp);
            e = differs(ver, b.model, d);
            if (!e.empty()) { bad(ver, cap, seq, fmt("saved at %zu, restored, continued, saved and restored again: ", k) + e); o.done(); b.done(); return false; }
            o.done();
            b.done();
        }
        return true;
    }
};

// ------------------------------------------------------------- alphabets --
struct TS { bool abs; i64 n; };     // abs: distance to the previous point; otherwise change of that distance
struct VS { int kind; double x; };  // 0: add x, 1: absolute x, 2: repeat the last difference plus x

static std::vector<TS> time_steps(bool ms, bool th)
{
    std::vector<TS> r = {{true, 1}, {true, 60}, {true, 10000}, {false, 0}};
    std::vector<i64> ed = {1, 2, 127, 128, 129, 2047, 2048, 2049, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537};
    if (ms) { ed.push_back(1000000); ed.push_back(43200000); ed.push_back(80000000); }
    if (th) { ed.push_back(3); ed.push_back(255); ed.push_back(256); ed.push_back(1023); ed.push_back(1024); ed.push_back(4096); ed.push_back(16383); ed.push_back(16384); }
    for (i64 e : ed) { r.push_back({false, e}); r.push_back({false, -e}); }
    return r;
}

static std::vector<VS> value_steps(bool th)
{
    double p = 1 / g_prec;
    std::vector<VS> r = {{0, 0}, {0, 1}, {0, -1}, {0, 0.5}, {0, -0.5}, {0, 0.1}, {0, 0.4 * p}, {0, 0.6 * p}, {0, 0.9 * p}, {0, -0.9 * p}, {0, p}, {0, 1.4 * p}, {0, 1e-12}, {0, 2047}, {0, 2048}, {0, -2048}, {0, -2049}, {0, 65535}, {0, 65536},
        {0, -65536}, {0, -65537}, {0, 2047 * p}, {0, -2048 * p}, {0, 2048 * p}, {0, 65535 * p}, {0, 65536 * p}, {0, -65537 * p}, {0, 2000.25}, {0, 2147483648.0}, {0, 1e9 + 0.25}, {0, 1e11 + 0.5}, {0, -1e11 - 0.5}, {0, 1e15},
        {1, 0}, {1, -0.0}, {1, 9007199254740993.0}, {1, 1e18}, {1, -9.3e18}, {1, 1e19}, {1, 1e300}, {1, -1e300}, {1, 1e-300}, {1, 1.7976931348623157e308}, {1, 5e-324}, {1, 0.30000000000000004}, {1, -1234.56789},
        {2, 0}, {2, 0.4 * p}, {2, 0.9 * p}, {2, -0.9 * p}, {2, 0.5}, {1, 1e300 * 1e300}, {1, -1e300 * 1e300}, {1, std::nan("")}};
    if (th) for (double x : {1e-9, 3.0, 255.0, 256.0, 4095.0, 1e6, 16777217.0, 4294967296.0, -1e12, 1e17 + 16}) r.push_back({0, x});
    return r;
}

struct Gen
{
    u64 day, last;      // last instant of the day
    std::vector<P> seq;
    i64 dt;
    double dv;
    Gen(u64 d, u64 l) : day(d), last(l) {}
    void first(u64 off, double v) { seq.clear(); seq.emplace_back(day + off, v); dt = off; dv = 0; }
    bool step(const TS &t, const VS &v)
    {
        i64 d = t.abs ? t.n : dt + t.n;
        if (d < 1 || seq.back().first + d > last) return false;
        double pv = seq.back().second, nv;
        if (v.kind == 0) nv = pv + v.x;
        else if (v.kind == 1) nv = v.x;
        else nv = pv + dv + v.x;
        dt = d;
        dv = nv - pv;
        seq.emplace_back(seq.back().first + d, nv);
        return true;
    }
};

static const std::vector<double> FIRST = {0, 1.5, -1234.56789, 1e6 + 1.0 / 3, 1e15 + 3, -1e300, 5e-324};

static Conf conf07(bool ms, int prec)
{
    Conf f = conf_of({4, 256, ms});
    f["tsdb.compressor.precision"] = fmt("%d", prec);
    return f;
}

static void boot(Ctx &c, bool ms, int prec)
{
    set_clock_ms((BASE + DAY / 2) * 1000);
    db_start(c.dir + "/h", conf07(ms, prec));
    g_prec = std::pow(10, prec);
}

// all triples of time steps
static void times(Ctx &c, int ver, bool ms)
{
    boot(c, ms, 8);
    u64 day = T(BASE, ms), last = day + T(DAY, ms) - 1;
    auto ts = time_steps(ms, c.thorough());
    std::vector<u64> offs = {0, 1, 127, 40000, 65536, 70000};
    if (ms) { offs.push_back(86399999 - 200000); offs.push_back(43200000); }
    Run r(c, day);
    Gen g(day, last);
    VS vs[3] = {{0, 1}, {0, 0}, {0, 0.5}};
    for (u64 off : offs) for (auto &x : ts) for (auto &y : ts) for (auto &z : ts) for (int w = 0; w < 3; w++)
    {
        if (!c.thorough() && (&x - &ts[0] + (&y - &ts[0]) + (&z - &ts[0])) % 3 != w) continue;
        g.first(off, 10);
        if (!g.step(x, vs[w]) || !g.step(y, vs[w]) || !g.step(z, vs[(w + 1) % 3])) continue;
        r.run(ver, 253, g.seq, false, {2, 4});
        if (c.full()) return;
    }
    c.sample(fmt("v%d%s", ver, str(g.seq).c_str()));
}

// all triples of value steps
static void values(Ctx &c, int ver, int prec, double v0)
{
    boot(c, false, prec);
    u64 day = BASE, last = day + DAY - 1;
    auto vs = value_steps(c.thorough());
    Run r(c, day);
    Gen g(day, last);
    TS t = {true, 60};
    // quick: all triples for one first value, a quarter of the last steps for the others
    size_t st = c.thorough() || (v0 == 1.5 && prec == 8) ? 1 : 4, n = 0;
    for (auto &x : vs) for (auto &y : vs) for (size_t zi = n++ % st; zi < vs.size(); zi += st)
    {
        auto &z = vs[zi];
        g.first(60, v0);
        g.step(t, x); g.step(t, y); g.step(t, z);
        r.run(ver, 253, g.seq, false, {2, 3, 4});
        if (c.full()) return;
        // the same steps after two ordinary points: the repeat coding is active
        g.first(60, v0);
        g.step(t, {0, 1}); g.step(t, {2, 0}); g.step(t, x); g.step(t, y); g.step(t, z); g.step(t, {2, 0});
        r.run(ver, 253, g.seq, false, {4, 6});
        if (c.full()) return;
    }
    c.sample(fmt("v%d%s", ver, str(g.seq).c_str()));
}

// all pairs of combined steps
static void combined(Ctx &c, int ver, bool ms)
{
    boot(c, ms, 8);
    u64 day = T(BASE, ms), last = day + T(DAY, ms) - 1;
    auto ts = time_steps(ms, false);
    auto vs = value_steps(false);
    if (!c.thorough()) { std::vector<TS> t2; for (size_t i = 0; i < ts.size(); i += (i < 6 ? 1 : 5)) t2.push_back(ts[i]); ts = t2; }
    Run r(c, day);
    Gen g(day, last);
    for (auto &x : ts) for (auto &y : ts) for (auto &u : vs) for (auto &w : vs)
    {
        g.first(2500, 1.5);
        if (!g.step(x, u) || !g.step(y, w)) break;
        g.step({false, 0}, {2, 0});
        r.run(ver, 253, g.seq, false, {3});
        if (c.full()) return;
    }
    c.sample(fmt("v%d%s", ver, str(g.seq).c_str()));
}

struct Kind { TS t; VS v; };

static std::vector<Kind> kinds(bool ms)
{
    double p = 1 / g_prec;
    return {{{false, 0}, {2, 0}}, {{false, 0}, {0, 0}}, {{true, 60}, {0, 1}}, {{true, 1}, {0, 0.5}}, {{true, 1}, {0, -2049}}, {{true, 3}, {0, 1e9 + 0.25}}, {{true, 200}, {0, 0.4 * p}}, {{false, 1}, {2, 0.9 * p}},
        {{false, -1}, {0, 100.125}}, {{true, ms ? 40000 : 2100}, {0, -70000}}, {{true, 2}, {1, 1e300}}, {{true, 2}, {1, -3.75}}, {{true, 5}, {0, 1e15}}, {{false, 0}, {0, 0.1}}};
}

// periodic fillings of pages of every small size, with every save position
static void filling(Ctx &c, int ver, bool ms)
{
    boot(c, ms, 8);
    u64 day = T(BASE, ms), last = day + T(DAY, ms) - 1;
    auto ks = kinds(ms);
    std::vector<size_t> caps;
    for (size_t n = 13; n <= (c.thorough() ? 80u : 50u); n++) caps.push_back(n);
    for (size_t n : {61, 125, 253}) caps.push_back(n);
    if (c.thorough()) { caps.push_back(509); caps.push_back(1021); }
    if (ver == 0) { caps.clear(); for (size_t n : {16, 31, 32, 61, 125, 253}) caps.push_back(n); }
    Run r(c, day);
    Gen g(day, last);
    for (size_t cap : caps) for (size_t i = 0; i < ks.size(); i++) for (size_t j = 0; j < ks.size(); j++)
    {
        g.first(7, 2.5);
        // until the page refuses, and some more
        r.a.start(ver, day, cap, 0);
        r.a.put(g.seq[0]);
        int more = 3;
        while (more > 0 && g.seq.size() < 1200)
        {
            auto &k = ks[g.seq.size() % 2 ? i : j];
            if (!g.step(k.t, k.v)) break;
            if (!r.a.put(g.seq.back())) more--;
        }
        r.a.done();
        std::vector<size_t> saves;
        size_t n = g.seq.size();
        for (size_t k = 1; k <= n; k++) if (n <= 20 || k <= 6 || k + 6 >= n || k % (n / 8) == 0) saves.push_back(k);
        r.run(ver, cap, g.seq, n < 40, saves, i % 2 ? 0xFF : 0);
        if (c.full()) return;
    }
    c.sample(fmt("v%d%s", ver, str(g.seq).c_str()));
}

// all mixtures of size classes up to a depth
static void mixtures(Ctx &c, int ver, size_t cap)
{
    boot(c, false, 8);
    u64 day = BASE, last = day + DAY - 1;
    auto all = kinds(false);
    std::vector<Kind> ks = {all[0], all[2], all[4], all[5], all[11], all[13]};
    int depth = c.thorough() ? 8 : 6;
    Run r(c, day);
    Gen g(day, last);
    std::vector<int> ix(depth, 0);
    while (true)
    {
        g.first(30, 2.5);
        for (int i = 0; i < depth; i++) if (!g.step(ks[ix[i]].t, ks[ix[i]].v)) break;
        std::vector<size_t> saves;
        for (size_t k = 1; k <= g.seq.size(); k++) saves.push_back(k);
        r.run(ver, cap, g.seq, true, saves);
        if (c.full()) return;
        int i = depth - 1;
        while (i >= 0 && ++ix[i] == (int)ks.size()) ix[i--] = 0;
        if (i < 0) break;
    }
    c.sample(fmt("v%d%s", ver, str(g.seq).c_str()));
}

// runs of equal differences of boundary lengths, and slow drifts
static void runs(Ctx &c, int ver, int prec)
{
    boot(c, false, prec);
    double p = 1 / g_prec;
    u64 day = BASE, last = day + DAY - 1;
    Run r(c, day);
    Gen g(day, last);
    std::vector<int> len = {0, 1, 2, 3, 4, 5, 126, 127, 128, 129, 253, 254, 255, 256};
    std::vector<Kind> br = {{{true, 30}, {0, 5}}, {{false, 1}, {2, 0}}, {{false, 0}, {0, 0.5}}, {{true, 1}, {1, 1e12}}, {{false, 0}, {2, 1.1 * p}}};
    std::vector<VS> same = {{2, 0}, {2, 1e-13}, {2, 0.2 * p}, {2, -0.7 * p}, {0, 0}, {0, 0.1}, {0, 0.9 * p}};
    for (int lead = 0; lead < 3; lead++) for (auto &s : same) for (int n1 : len) for (auto &k : br) for (int n2 : len) for (size_t cap : {29, 125, 253})
    {
        g.first(30, 2.5);
        for (int i = 0; i < lead; i++) g.step({true, 30}, {0, i == 1 ? -1.25 : 0.75});
        bool ok = g.step({true, 30}, {0, 0.1});
        for (int i = 0; ok && i < n1; i++) ok = g.step({false, 0}, s);
        size_t m = g.seq.size();
        ok = ok && g.step(k.t, k.v);
        for (int i = 0; ok && i < n2; i++) ok = g.step({false, 0}, s);
        std::vector<size_t> saves = {m / 2, m - 1, m, m + 1};
        if (m > 8) saves.push_back(m - 3);
        std::sort(saves.begin(), saves.end());
        saves.erase(std::unique(saves.begin(), saves.end()), saves.end());
        if (n1 > 5 && n2 > 5 && cap != 253) continue;
        r.run(ver, cap, g.seq, false, saves);
        if (c.full()) return;
    }
    // drifts: the same small difference, or the same change of the difference, all along
    for (double d : {0.1, 0.4, 0.51, 0.9, 0.99, 1.0, 1.3, -0.9, 1.9}) for (int how = 0; how < 4; how++) for (u64 dt : {1, 60, 61}) for (size_t cap : {125, 253, 509})
    {
        g.first(30, how == 3 ? 1e5 : 0.25);
        for (int i = 0; i < 1100; i++)
        {
            VS v = how == 0 ? VS{0, d * p} : how == 1 ? VS{2, d * p} : how == 2 ? VS{0, (i % 2 ? 1 : 2) * d * p} : VS{0, 1 + d * p};
            if (!g.step({true, (i64)(dt == 61 ? 1 + i % 3 : dt)}, v)) break;
        }
        r.run(ver, cap, g.seq, false, {g.seq.size() / 3});
        if (c.full()) return;
    }
    c.sample(fmt("v%d%s", ver, str(g.seq).c_str()));
}

// the unordered encoding: every order of arrival of up to 6 points, with equal times
static void unordered(Ctx &c)
{
    boot(c, false, 8);
    u64 day = BASE;
    Run r(c, day);
    int n = c.thorough() ? 6 : 5;
    std::vector<int> ix(n, 0);
    while (true)
    {
        std::vector<P> seq;
        for (int i = 0; i < n; i++) seq.emplace_back(day + ix[i] * 100, i + 0.5);
        std::vector<size_t> saves;
        for (int k = 1; k <= n; k++) saves.push_back(k);
        for (size_t cap : {16, 40, 64, 93, 253}) { r.run(0, cap, seq, true, saves); if (c.full()) return; }
        int i = n - 1;
        while (i >= 0 && ++ix[i] == n) ix[i--] = 0;
        if (i < 0) break;
        if (c.evaluations < 30) c.sample(str(seq));
    }
}

// ------------------------------------------------------- through the server --
// the same kinds of sequences written as series: pages are filled, written out,
// logged and restored by the server itself
static void served(Ctx &c, int ver, int page, bool ms)
{
    std::string home = c.dir + "/h";
    struct Sq { std::string metric; std::vector<P> seq; };
    std::vector<Sq> all;
    u64 day = T(BASE, ms), last = day + T(DAY, ms) - 1;
    Conf conf = conf_of({ver, page, ms});
    g_prec = 1e8;
    auto ks = kinds(ms);
    if (ver == 0) return;
    size_t total = page >= 256 ? 110 : 60;
    for (size_t i = 0; i < ks.size(); i++) for (size_t j = 0; j < ks.size(); j++)
    {
        Gen g(day, last);
        g.first(7, 2.5);
        while (g.seq.size() < total) { auto &k = ks[g.seq.size() % 2 ? i : j]; if (!g.step(k.t, k.v)) break; }
        all.push_back({fmt("s%zu.%zu", i, j), g.seq});
    }
    // three sessions: write a third, close by orderly stop (even) or leave only the log behind (odd)
    size_t cut[4] = {0, total / 3, total / 3 * 2 - 1, total};
    for (int s = 0; s < 3; s++)
    {
        ChildResult r = in_child([&](std::string &out) {
            set_clock_ms((BASE + DAY / 2) * 1000);
            db_start(home, conf);
            for (int ph = 0; ph < 2; ph++)
            {
                size_t upto = ph == 0 ? cut[s] : cut[s + 1];
                if (ph == 1)
                {
                    for (size_t k = cut[s]; k < upto; k++)
                    {
                        std::string b;
                        for (auto &q : all) if (k < q.seq.size()) b += fmt("put %s %llu %.17g h=1\n", q.metric.c_str(), (unsigned long long)q.seq[k].first, q.seq[k].second);
                        put_plain(b);
                        if (k % 17 == 5) bg_wal_flush();
                    }
                }
                for (auto &q : all)
                {
                    size_t n = std::min(upto, q.seq.size());
                    std::vector<P> model(q.seq.begin(), q.seq.begin() + n);
                    std::vector<Series> got;
                    std::string err;
                    if (!query_raw(q.metric, day, last, ms, got, &err)) { out += q.metric + ": " + err + "\n"; continue; }
                    tt::DataPointVector d;
                    for (auto &x : got) for (auto &p : x.dps) d.push_back(p);
                    std::string e = differs(ver, model, d);
                    if (!e.empty()) out += q.metric + fmt(" session %d %s: ", s, ph ? "after writing" : "after start") + e + "\n";
                }
            }
            bg_wal_flush();
            if (s % 2 == 0) db_stop();
            else _exit(out.empty() ? 0 : 0);
        }, 120);
        if (s % 2 == 1 && r.out.empty() && r.exited) {}
        c.eval(all.size());
        c.nt(all.size());
        c.transitions += all.size() * (cut[s + 1] - cut[s]);
        if (!r.exited || r.code != 0) { c.violation(fmt("served session %d", s), r.why()); return; }
        for (size_t p = 0; p < r.out.size();)
        {
            size_t e = r.out.find('\n', p);
            std::string l = r.out.substr(p, e - p);
            c.violation("served " + l.substr(0, l.find(' ')), l);
            p = e + 1;
            if (c.full()) return;
        }
    }
    c.sample(fmt("%zu series of %zu points", all.size(), total));
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    for (int ver : {1, 2, 3, 4})
    {
        for (bool ms : {false, true})
        {
            std::string s = fmt("v%d-%s", ver, ms ? "ms" : "s");
            jobs.push_back({"times-" + s, [=](Ctx &c) { times(c, ver, ms); }});
            jobs.push_back({"combined-" + s, [=](Ctx &c) { combined(c, ver, ms); }});
            jobs.push_back({"filling-" + s, [=](Ctx &c) { filling(c, ver, ms); }});
            for (int page : {128, 256}) jobs.push_back({fmt("served-%s-p%d", s.c_str(), page), [=](Ctx &c) { served(c, ver, page, ms); }});
        }
        for (int prec : {8, 3, 0, 12})
        {
            if (ver < 3 && prec != 8) continue;
            for (size_t i = 0; i < FIRST.size(); i++)
                if (prec == 8 || i < 4) jobs.push_back({fmt("values-v%d-prec%d-first%zu", ver, prec, i), [=](Ctx &c) { values(c, ver, prec, FIRST[i]); }});
            jobs.push_back({fmt("runs-v%d-prec%d", ver, prec), [=](Ctx &c) { runs(c, ver, prec); }});
        }
        for (size_t cap : {24, 31, 40, 61}) jobs.push_back({fmt("mixtures-v%d-cap%zu", ver, cap), [=](Ctx &c) { mixtures(c, ver, cap); }});
    }
    jobs.push_back({"filling-v0-s", [=](Ctx &c) { filling(c, 0, false); }});
    jobs.push_back({"unordered-v0", [=](Ctx &c) { unordered(c); }});
}
