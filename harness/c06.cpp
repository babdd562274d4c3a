// C06: a series is its metric plus its tag set, whatever format or tag order is used.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "pair: all pairs of writes over 22 ordered tag lists (10 tag sets over overlapping names, every tag order) x 8 formats (plain, JSON, line protocol with field x / x,y / y,x, plain and JSON with a _field tag, JSON with spaces), same or similar metric; "
    "triple: all triples over 4 tag lists x 7 formats; each without restart, with a restart between and after all writes; num: number spellings x formats; unit: timestamps in s/ms/us/ns x formats x resolution; "
    "chars: names with every allowed punctuation; long: names and tag lists around the length limits, differing only at the end. Non-trivial = at least two writes to the same metric, or a non-canonical spelling";

typedef std::vector<std::pair<std::string, std::string>> TL;
enum F { PLAIN, JSON, LX, LXY, LYX, PF, JF, JSP, NF };
static const char *FN[] = {"plain", "json", "line-x", "line-xy", "line-yx", "plain-field", "json-field", "json-sp"};

typedef std::map<std::string, std::map<u64, double>> Model;     // tags -> points, for one metric

static std::string tkey(const Tags &t) { std::string k; for (auto &kv : t) k += kv.first + "=" + kv.second + ","; return k; }

// the request for one write; adds what it means to the model
static std::string text(F f, const std::string &m, const TL &tl, u64 t, double v, Model *md, const std::string &vs = "", const std::string &ts = "")
{
    std::string V = vs.empty() ? num(v) : vs, S = ts.empty() ? fmt("%llu", (unsigned long long)t) : ts, r;
    Tags tags;
    for (auto &kv : tl) tags[kv.first] = kv.second;
    auto put = [&](const std::string &field, double x) { if (!md) return; Tags k = tags; if (!field.empty()) k["_field"] = field; (*md)[tkey(k)][t] = x; };
    TL all = tl;
    switch (f)
    {
        case PF: all.insert(all.begin(), {"_field", "x"});
        case PLAIN:
            r = "put " + m + " " + S + " " + V;
            for (auto &kv : all) r += " " + kv.first + "=" + kv.second;
            put(f == PF ? "x" : "", v);
            return r + "\n";
        case JF: all.push_back({"_field", "y"});
        case JSP:
        case JSON:
        {
            const char *s = f == JSP ? " " : "";
            bool first = true;
            if (f == JSP) { r = fmt("{ \"tags\" : { "); }
            else r = "{\"metric\":\"" + m + "\",\"timestamp\":" + S + ",\"value\":" + V + ",\"tags\":{";
            for (auto &kv : all) { r += std::string(first ? "" : ",") + s + "\"" + kv.first + "\"" + s + ":" + s + "\"" + kv.second + "\"" + s; first = false; }
            if (f == JSP) r += "} , \"value\" : " + V + " , \"metric\" : \"" + m + "\" , \"timestamp\" : " + S + " }";
            else r += "}}";
            put(f == JF ? "y" : "", v);
            return r;
        }
        default:
            r = m;
            for (auto &kv : all) r += "," + kv.first + "=" + kv.second;
            if (f == LX) r += " x=" + V;
            else if (f == LXY) r += " x=" + V + ",y=" + num(v + 0.5);
            else r += " y=" + num(v + 0.5) + ",x=" + V;
            put("x", v);
            if (f != LX) put("y", v + 0.5);
            return r + " " + S + "\n";
    }
}

static Resp send(F f, const std::string &body)
{
    if (f == LX || f == LXY || f == LYX) return put_line(body);
    return put_any(body);
}

struct Wr { int metric; int tl; F f; };
static const std::vector<TL> TLS = {
    {}, {{"h", "a"}}, {{"h", "a"}, {"g", "b"}}, {{"g", "b"}, {"h", "a"}},
    {{"h", "b"}}, {{"g", "a"}}, {{"a", "h"}}, {{"h", "ab"}}, {{"g", "a"}, {"h", "b"}}, {{"h", "b"}, {"g", "a"}},
    {{"g", "b"}, {"h", "a"}, {"k", "c"}}, {{"g", "b"}, {"k", "c"}, {"h", "a"}}, {{"h", "a"}, {"g", "b"}, {"k", "c"}}, {{"h", "a"}, {"k", "c"}, {"g", "b"}}, {{"k", "c"}, {"g", "b"}, {"h", "a"}}, {{"k", "c"}, {"h", "a"}, {"g", "b"}},
    {{"tagx", "a"}, {"tagxa", "b"}, {"tagxb", "a"}}, {{"tagx", "a"}, {"tagxb", "a"}, {"tagxa", "b"}}, {{"tagxa", "b"}, {"tagx", "a"}, {"tagxb", "a"}}, {{"tagxa", "b"}, {"tagxb", "a"}, {"tagx", "a"}}, {{"tagxb", "a"}, {"tagx", "a"}, {"tagxa", "b"}}, {{"tagxb", "a"}, {"tagxa", "b"}, {"tagx", "a"}},
};

static std::string wstr(const Wr &w)
{
    std::string s = fmt("%s:%s{", FN[w.f], w.metric ? "M'" : "M");
    for (auto &kv : TLS[w.tl]) s += kv.first + "=" + kv.second + " ";
    return s + "}";
}

// compares what the server returns for a metric with the model
static void compare(Ctx &c, const std::string &m, const Model &md, bool ms, const std::string &sig, u64 from, u64 to)
{
    c.at(sig);
    std::vector<Series> v;
    std::string err;
    c.eval(); c.transitions++;
    if (!query_raw(m, from, to, ms, v, &err)) { c.violation(sig, "query of " + m + " failed: " + err); return; }
    Model got;
    bool dup = false;
    std::string seen;
    for (auto &s : v)
    {
        Tags t = s.tags;
        std::string k = tkey(t);
        dup |= got.count(k) || s.metric != m;
        for (auto &d : s.dps) got[k][d.first] = d.second;
        seen += k + dps_str(s.dps) + " ";
    }
    c.outcome(seen);
    if (dup || got != md)
    {
        std::string want;
        for (auto &x : md) want += x.first + dps_str(DPS(x.second.begin(), x.second.end())) + " ";
        c.violation(sig, "metric " + m + ": got " + seen.substr(0, 300) + (dup ? "(series repeated)" : "") + " expected " + want.substr(0, 300));
    }
}

// all histories of a family at once: each on metrics of its own, so that one restart serves them all
static void family(Ctx &c, bool ms, int len, int restarts, int part, int parts)
{
    Cfg cfg{1, 256, ms};
    u64 b = T(BASE + 3600, ms);
    set_clock_ms((BASE + 7200) * 1000);
    u64 dt = len == 3 && (part & 1) ? 0 : 1;     // all writes at one timestamp: the last one counts
    Conf conf = conf_of(cfg);
    conf["tsdb.rollup.enabled"] = "false";
    std::string home = c.dir + "/h";
    std::vector<std::vector<Wr>> hs;
    std::vector<Wr> alpha;
    size_t ntl = len == 2 ? TLS.size() : 4;
    for (size_t i = 0; i < ntl; i++) for (int f = 0; f < (len == 2 ? NF : NF - 1); f++) alpha.push_back({0, (int)i, (F)f});
    size_t n = 1, k = 0;
    for (int i = 0; i < len; i++) n *= alpha.size();
    for (size_t x = 0; x < n; x++) for (int m2 = 0; m2 < (len == 2 ? 2 : 1); m2++)
    {
        if (k++ % parts != (size_t)part) continue;
        std::vector<Wr> h;
        size_t y = x;
        for (int i = 0; i < len; i++) { h.push_back(alpha[y % alpha.size()]); y /= alpha.size(); }
        h.back().metric = m2;
        hs.push_back(h);
    }
    std::vector<Model> md(hs.size()), md2(hs.size());
    auto name = [](size_t i, int m) { return fmt(m ? "m%zu.m" : "m%zu", i); };
    c.states += hs.size() * (len + 1);
    // sessions: groups of consecutive steps, each in a process of its own
    int step = 0;
    for (;;)
    {
        int end = step;
        while (end < len && !(end > step && (restarts >> end & 1))) end++;
        int s0 = step;
        // the model is advanced in the parent as well
        std::vector<Model> a = md, a2 = md2;
        for (int s = s0; s < end; s++) for (size_t i = 0; i < hs.size(); i++)
            text(hs[i][s].f, name(i, hs[i][s].metric), TLS[hs[i][s].tl], b + s * dt, 1 + s, &(hs[i][s].metric ? a2 : a)[i]);
        bool ok = phase(c, fmt("session%d", s0), [&](Ctx &c) {
            db_start(home, conf);
            for (int s = s0; s < end; s++) for (size_t i = 0; i < hs.size(); i++)
            {
                auto &w = hs[i][s];
                std::string body = text(w.f, name(i, w.metric), TLS[w.tl], b + s * dt, 1 + s, nullptr);
                c.at("write " + body);
                Resp r = send(w.f, body);
                if (r.status != 200 && r.status != 204) c.violation("refused:" + wstr(w), fmt("valid write refused with %d: %s", r.status, body.c_str()));
            }
            if (end == len) for (size_t i = 0; i < hs.size() && !c.full(); i++)
            {
                std::string sig = fmt("r%d:", restarts);
                for (auto &w : hs[i]) sig += wstr(w);
                compare(c, name(i, 0), a[i], ms, sig, b - 10, b + 10);
                c.nt();
                if (a2[i].size()) compare(c, name(i, 1), a2[i], ms, sig + "'", b - 10, b + 10);
            }
            db_stop();
        }, 180);
        md = a; md2 = a2;
        if (!ok) return;
        if (end == len) break;
        step = end;
    }
    // and once more after a restart
    if (restarts) phase(c, "final", [&](Ctx &c) {
        db_start(home, conf);
        for (size_t i = 0; i < hs.size() && !c.full(); i++)
        {
            std::string sig = fmt("R%d:", restarts);
            for (auto &w : hs[i]) sig += wstr(w);
            compare(c, name(i, 0), md[i], ms, sig, b - 10, b + 10);
            if (md2[i].size()) compare(c, name(i, 1), md2[i], ms, sig + "'", b - 10, b + 10);
        }
        db_stop();
    }, 180);
}

static void numbers(Ctx &c, bool ms)
{
    Cfg cfg{1, 256, ms};
    u64 b = T(BASE + 3600, ms);
    set_clock_ms((BASE + 7200) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    struct N { const char *s; double v; int forms; };   // forms: 1 plain, 2 json, 4 line
    const N ns[] = {{"0", 0, 7}, {"1", 1, 7}, {"-1", -1, 7}, {"1.0", 1, 7}, {"0.5", 0.5, 7}, {"-0.25", -0.25, 7}, {"1e3", 1000, 7}, {"1E3", 1000, 7}, {"1.5e-3", 0.0015, 7}, {"1.25E+2", 125, 7}, {"-2e2", -200, 7},
                    {"123456789012", 123456789012.0, 7}, {"0.1", 0.1, 7}, {"3.141592653589793", 3.141592653589793, 7}, {"1e15", 1e15, 7}, {"-1e-10", -1e-10, 7}, {"4503599627370497.5", 4503599627370497.5, 7},
                    {"+5", 5, 5}, {".5", .5, 5}, {"5.", 5, 5}, {"007", 7, 5}, {"5i", 5, 4}, {"-5i", -5, 4}, {"0i", 0, 4}, {"true", 1, 0}};
    int k = 0;
    for (auto &n : ns) for (int f = 0; f < NF; f++)
    {
        int cls = f == PLAIN || f == PF ? 1 : f == JSON || f == JF || f == JSP ? 2 : 4;
        if (!(n.forms & cls)) continue;
        std::string m = fmt("n%d", k++), sig = fmt("num:%s:%s", n.s, FN[f]);
        Model md;
        std::string body = text((F)f, m, TLS[1], b, n.v, &md, n.s);
        c.at(sig);
        Resp r = send((F)f, body);
        c.nt();
        if (r.status != 200 && r.status != 204) { c.violation(sig, fmt("refused with %d: %s", r.status, body.c_str())); continue; }
        compare(c, m, md, ms, sig, b - 10, b + 10);
    }
    // quoted numbers in JSON
    for (auto s : {"1.5", "-2", "1e3"})
    {
        std::string m = fmt("n%d", k++), sig = fmt("numq:%s", s);
        Model md;
        std::string body = text(JSON, m, TLS[1], b, atof(s), &md, fmt("\"%s\"", s), fmt("\"%llu\"", (unsigned long long)b));
        c.at(sig);
        send(JSON, body);
        c.nt();
        compare(c, m, md, ms, sig, b - 10, b + 10);
    }
    // JSON tag values that are numbers or booleans
    struct V { const char *js, *v; };
    for (auto &v : {V{"5", "5"}, V{"12.5", "12.5"}, V{"true", "true"}, V{"false", "false"}}) for (int pos = 0; pos < 3; pos++) for (int sp = 0; sp < 2; sp++) for (int order = 0; order < 2; order++)
    {
        std::string m = fmt("n%d", k++), sig = fmt("tagval:%s:%d:%d:%d", v.js, pos, sp, order), t, S = sp ? " " : "";
        std::string x = "\"k\":" + S + v.js, y = "\"h\":" + S + "\"a\"";
        if (pos == 0) t = x;
        if (pos == 1) t = x + S + "," + S + y;
        if (pos == 2) t = y + S + "," + S + x;
        std::string head = "\"metric\":\"" + m + "\",\"timestamp\":" + fmt("%llu", (unsigned long long)b) + ",\"value\":1";
        std::string tags = "\"tags\":{" + t + S + "}";
        std::string body = order ? "{" + tags + S + "," + S + head + "}" : "{" + head + "," + tags + S + "}";
        Model md;
        Tags tg; tg["k"] = v.v; if (pos) tg["h"] = "a";
        md[tkey(tg)][b] = 1;
        c.at(sig);
        Resp r = put_any("[" + body + "]");
        c.nt();
        if (r.status != 200) { c.violation(sig, fmt("refused with %d: %s -> %s", r.status, body.c_str(), r.body.c_str())); continue; }
        compare(c, m, md, ms, sig, b - 10, b + 10);
    }
    db_stop();
}

static void units(Ctx &c, bool ms)
{
    Cfg cfg{1, 256, ms};
    set_clock_ms((BASE + 7200) * 1000 + 123);
    db_start(c.dir + "/h", conf_of(cfg));
    int k = 0;
    for (u64 s : {(u64)1000000000, (u64)999999999, BASE, BASE - 1, BASE + 3599}) for (int frac : {0, 1, 500, 999}) for (int u = 0; u < 4; u++) for (int f = 0; f < NF; f++)
    {
        // u: s, ms, us, ns
        if (u == 0 && frac) continue;
        if (u >= 2 && f != LX && f != LXY && f != LYX) continue;     // put: seconds or milliseconds
        u64 t = s;
        if (u >= 1) t = s * 1000 + frac;
        if (u >= 2) t *= 1000;
        if (u >= 3) t *= 1000;
        u64 want = ms ? s * 1000 + (u ? frac : 0) : s;
        std::string m = fmt("u%d", k++), sig = fmt("unit:%llu:%s", (unsigned long long)t, FN[f]);
        Model md;
        std::string body = text((F)f, m, TLS[1], want, 1, &md, "", fmt("%llu", (unsigned long long)t));
        c.at(sig);
        send((F)f, body);
        c.nt();
        compare(c, m, md, ms, sig, want - 10, want + 10);
    }
    // line protocol without a timestamp: now
    for (int lines = 1; lines <= 2; lines++) for (int nl = 0; nl < 2; nl++)
    {
        std::string m = fmt("u%d", k++), sig = fmt("now:%d:%d", lines, nl), body;
        u64 now = ms ? (BASE + 7200) * 1000 + 123 : BASE + 7200;
        Model md;
        for (int i = 0; i < lines; i++) { body += m + fmt(",h=%d x=%d", i, i) + (i + 1 < lines || nl ? "\n" : ""); Tags t; t["h"] = fmt("%d", i); t["_field"] = "x"; md[tkey(t)][now] = i; }
        c.at(sig);
        put_line(body);
        compare(c, m, md, ms, sig, now - 10, now + 10);
    }
    db_stop();
}

static void chars(Ctx &c)
{
    Cfg cfg{1, 256, false};
    u64 b = BASE + 3600;
    set_clock_ms((BASE + 7200) * 1000);
    std::string home = c.dir + "/h";
    std::vector<std::pair<std::string, Model>> all;
    const char *words[] = {"a.b", "a-b", "a_b", "a/b", "A", "1", "0x1", "a:b", "a@b", "a+b", "(a)", "a%41", "\xc3\xa9", "_", "__", "true", "put", "a;b", "a'b", "a*", "a|b", "*", "#a", "a#", "field", "_f", "a~b", "a!b", "a&b", "$a", "a?b", "[a]"};
    phase(c, "write", [&](Ctx &c) {
        db_start(home, conf_of(cfg));
        int k = 0;
        for (auto w : words) for (int where = 0; where < 3; where++) for (int f = 0; f < NF; f++)
        {
            std::string m = fmt("c%d", k++);
            TL tl = {{"h", "a"}};
            if (where == 0) m += w;
            if (where == 1) tl.push_back({w, "v"});
            if (where == 2) tl.push_back({"k", w});
            std::string sig = fmt("chars:%s:%d:%s", w, where, FN[f]);
            Model md;
            std::string body = text((F)f, m, tl, b, 1, &md);
            c.at(sig);
            Resp r = send((F)f, body);
            c.nt();
            if (r.status != 200 && r.status != 204) md.clear();     // refused: nothing stored
            compare(c, m, md, false, sig, b - 10, b + 10);
        }
        db_stop();
    });
    phase(c, "restart", [&](Ctx &c) {
        c.at("start");
        db_start(home, conf_of(cfg));
        int k = 0;
        for (auto w : words) for (int where = 0; where < 3; where++) for (int f = 0; f < NF; f++)
        {
            std::string m = fmt("c%d", k++);
            TL tl = {{"h", "a"}};
            if (where == 0) m += w;
            if (where == 1) tl.push_back({w, "v"});
            if (where == 2) tl.push_back({"k", w});
            Model md;
            text((F)f, m, tl, b, 1, &md);
            compare(c, m, md, false, fmt("chars-restart:%s:%d:%s", w, where, FN[f]), b - 10, b + 10);
        }
        db_stop();
    });
}

static void lengths(Ctx &c, int f)
{
    Cfg cfg{1, 256, false};
    u64 b = BASE + 3600;
    set_clock_ms((BASE + 7200) * 1000);
    std::string home = c.dir + "/h";
    // total length of the tag list: around every power of two up to 4096, around 1000..1030
    std::vector<int> L = {60, 120, 127, 128, 129, 250, 255, 256, 257, 500, 511, 512, 513, 900, 1000};
    for (int i = 1005; i <= 1040; i++) L.push_back(i);
    for (int x : {1100, 1500, 2000, 2047, 2048, 3000, 4095, 4096, 5000}) L.push_back(x);
    std::vector<std::pair<std::string, Model>> all;
    for (int shape = 0; shape < 3; shape++) for (int n : L)
    {
        std::string m = fmt("l%d.%d", shape, n), sig = fmt("len:%d:%d:%s", shape, n, FN[f]);
        Model md;
        // each length in a server of its own: a crash must not hide the others
        bool ok = true;
        for (int run = 0; run < 2 && ok; run++) ok = phase(c, sig + (run ? "-restart" : ""), [&](Ctx &c) {
            c.at(sig);
            db_start(home, conf_of(cfg));
            Model md;
            std::string acc = run ? read_file(c.dir + "/acc") : "";
            for (int v = 0; v < 2; v++)
            {
                TL tl;
                if (shape == 0) tl.push_back({"h", std::string(n - 3, 'v') + char('a' + v)});                       // one long value
                else if (shape == 1) { int rest = n; int k = 0; while (rest > 40) { tl.push_back({fmt("k%03d", k++), std::string(14, 'v')}); rest -= 20; } tl.push_back({"zz", std::string(std::max(1, rest - 4), 'w') + char('a' + v)}); }
                else tl.push_back({std::string(n - 3, 'k') + char('a' + v), "v"});                                  // long key
                Model one;
                std::string body = text((F)f, m, tl, b + v, 1 + v, &one);
                if (!run) { Resp r = send((F)f, body); acc += r.status == 200 || r.status == 204 ? "y" : "n"; }
                c.nt();
                if (acc[v] == 'y') for (auto &x : one) for (auto &y : x.second) md[x.first][y.first] = y.second;
            }
            compare(c, m, md, false, sig + (run ? "-restart" : ""), b - 10, b + 10);
            if (!run) write_file(c.dir + "/acc", acc);
            db_stop();
        }, 60);
        remove_tree(home);
        if (c.full()) return;
    }
    // long metric names
    for (int n : L)
    {
        std::string sig = fmt("mlen:%d:%s", n, FN[f]);
        phase(c, sig, [&](Ctx &c) {
            db_start(home, conf_of(cfg));
            c.at(sig);
            for (int v = 0; v < 2; v++)
            {
                std::string m = std::string(n - 1, 'm') + char('a' + v);
                Model md;
                std::string body = text((F)f, m, TLS[1], b + v, 1 + v, &md);
                Resp r = send((F)f, body);
                if (r.status != 200 && r.status != 204) md.clear();
                compare(c, m, md, false, sig, b - 10, b + 10);
            }
            db_stop();
        }, 60);
        remove_tree(home);
        if (c.full()) return;
    }
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    for (int r : {0, 2}) for (int p = 0; p < 2; p++) jobs.push_back({fmt("pair-r%d-%d", r, p), [=](Ctx &c) { family(c, p & 1, 2, r, p, 2); }});
    for (int r : {0, 2, 4, 6}) for (int p = 0; p < 2; p++) jobs.push_back({fmt("triple-r%d-%d", r, p), [=](Ctx &c) { family(c, p & 1, 3, r, p, 2); }});
    if (th) for (int r : {0, 2, 4, 6, 8, 10, 12, 14}) for (int p = 0; p < 16; p++) jobs.push_back({fmt("quad-r%d-%d", r, p), [=](Ctx &c) { family(c, p & 1, 4, r, p, 16); }});
    for (bool ms : {false, true})
    {
        jobs.push_back({fmt("num-%s", ms ? "ms" : "s"), [=](Ctx &c) { numbers(c, ms); }});
        jobs.push_back({fmt("unit-%s", ms ? "ms" : "s"), [=](Ctx &c) { units(c, ms); }});
    }
    jobs.push_back({"chars", [](Ctx &c) { chars(c); }});
    for (int f : {(int)PLAIN, (int)JSON, (int)LXY, (int)PF}) jobs.push_back({fmt("length-%s", FN[f]), [=](Ctx &c) { lengths(c, f); }});
}
