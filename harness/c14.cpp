// C14: requests are processed identically however the network splits them.
#include "conn.h"
#include <zlib.h>
using namespace vh;

const char *vh::g_rule =
    "the server's own receive tasks run on one end of a socket pair; the other end delivers a stream of requests in segments, the task runs once per segment (as it does per arrival) and the bytes that come back are collected. "
    "Every request kind alone with every division into two and three segments and byte by byte; every ordered pair and selected triples of kinds back to back with every division in two and every division in three at structural positions; one after the other with every cut of the second; "
    "two connections interleaved at every cut; requests around the buffer size; on the line port streams of lines of both formats, with commands, malformed, blank and overlong lines, divided likewise. "
    "Responses must equal the ones to the same requests delivered whole one by one, and the stored points must be exactly the ones sent. Non-trivial = distinct divisions into at least two segments";

// -------------------------------------------------------------- requests --
static u64 g_ts = DAYMS + 3600000;      // the next unused instant
static std::map<std::string, std::map<u64, double>> g_model;   // metric{h} -> points
static std::map<u64, std::string> g_case;                      // which case used which instant

static double val_of(u64 t) { return (t % 1000) + 0.25; }

static std::string zip(const std::string &s, bool gz)
{
    z_stream z;
    memset(&z, 0, sizeof z);
    deflateInit2(&z, 6, Z_DEFLATED, gz ? 31 : 15, 8, Z_DEFAULT_STRATEGY);
    std::string out(s.size() + 200, 0);
    z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
    z.next_out = (Bytef*)&out[0]; z.avail_out = out.size();
    deflate(&z, Z_FINISH);
    out.resize(out.size() - z.avail_out);
    deflateEnd(&z);
    return out;
}

static void add(const std::string &metric, u64 t) { g_model[metric][t] = val_of(t); }
static std::string pl(const std::string &m, u64 t) { add(m, t); return fmt("put %s %llu %s h=1\n", m.c_str(), (unsigned long long)t, num(val_of(t)).c_str()); }
static std::string il(const std::string &m, u64 t) { add(m, t); return fmt("%s,h=1 f=%s %llu\n", m.c_str(), num(val_of(t)).c_str(), (unsigned long long)t); }
static std::string js(const std::string &m, u64 t) { add(m, t); return fmt("{\"metric\":\"%s\",\"timestamp\":%llu,\"value\":%s,\"tags\":{\"h\":\"1\"}}", m.c_str(), (unsigned long long)t, num(val_of(t)).c_str()); }

static std::string post(const char *path, const std::string &body, const char *hdr = "")
{
    return fmt("POST %s HTTP/1.1\r\nHost: a\r\n%sContent-Length: %zu\r\n\r\n", path, hdr, body.size()) + body;
}

static const int KINDS = 24;
// builds one request of the kind, using fresh instants
static std::string build(int k)
{
    u64 t = g_ts;
    g_ts += 2;
    switch (k)
    {
        case 0: return "GET /api/version HTTP/1.1\r\nHost: a\r\n\r\n";
        case 1: return post("/api/put", pl("s.a", t));
        case 2: return post("/api/put", pl("s.a", t) + pl("s.b", t + 1));
        case 3: return post("/api/put", "[" + js("s.a", t) + "," + js("s.b", t + 1) + "]");
        case 4: return post("/api/put?details", js("s.a", t));
        case 5: return post("/api/write", il("s.a", t) + il("s.b", t + 1));
        case 6: return post("/api/query", fmt("{\"start\":%llu,\"end\":%llu,\"msResolution\":true,\"queries\":[{\"aggregator\":\"none\",\"metric\":\"q.fix\"}]}", (unsigned long long)DAYMS, (unsigned long long)DAYMS + 70000));
        case 7: return fmt("GET /api/query?start=%llu&end=%llu&m=sum:q.fix HTTP/1.1\r\n\r\n", (unsigned long long)DAYMS, (unsigned long long)DAYMS + 70000);
        case 8: return post("/api/put", zip(pl("s.a", t) + pl("s.b", t + 1), true), "Content-Encoding: gzip\r\n");
        case 9: return post("/api/put", zip(pl("s.a", t), false), "Content-Encoding: deflate\r\n");
        case 10: return "GET /api/nothing HTTP/1.1\r\n\r\n";
        case 11: return post("/api/put", pl("s.a", t), "X-Request-ID: r-17\r\n");
        case 12: return "GET /api/aggregators HTTP/1.1\r\nX-Request-ID: 0123456789012345678901234567890123456789012345678901234567890123456789\r\nConnection: keep-alive\r\n\r\n";
        case 13: return post("/api/put", fmt("put s.a %llu x h=1\n", (unsigned long long)t) + pl("s.b", t + 1));
        case 14: return post("/api/put", pl("GET", t) + pl("POST", t) + pl("PUT", t));
        case 15: return post("/api/put", pl("s.a", t), "Connection: close\r\n");
        case 16: return "GET /api/suggest?type=metrics&q=q.f?x&max=3 HTTP/1.1\r\nAccept: */*\r\n\r\n";
        case 17: return "GET /api/suggest?type=metrics&q=q.f&max=3 HTTP/1.1\r\nContent-Type: a\r\nX-Y: GET / HTTP/1.1\r\n\r\n";
        case 18: return post("/api/put", "");
        case 19: return post("/api/write", "");
        case 20: return "POST /api/query HTTP/1.1\r\nHost: a\r\n\r\n";
        case 21: { std::string b = pl("s.a", t); b.pop_back(); return post("/api/put", b); }     // no newline at the end
        case 22: { std::string b = il("s.a", t); b.pop_back(); return post("/api/write", b); }
        case 23: return post("/api/put", "PUT / HTTP/1.1\r\nContent-Length: 5\r\n\r\n" + pl("s.a", t));
    }
    return "";
}

static std::string g_ref[KINDS];

// the answers to whole requests on connections of their own
static void references(Ctx &c)
{
    for (int k = 0; k < KINDS; k++)
    {
        Conn n(g_http);
        c.at(fmt("kind %d alone", k));
        std::string s = build(k);
        n.deliver(s, 0, s.size());
        g_ref[k] = n.got;
        c.outcome(g_ref[k]);
        if (g_ref[k].compare(0, 9, "HTTP/1.1 ") != 0) c.violation(fmt("kind %d alone", k), "answered with: " + n.got.substr(0, 200));
    }
    // a request whose body is the size announced and the answer has to be one answer
    for (int k : {1, 2, 3, 5, 8, 9, 11, 14, 15, 21, 22, 23}) if (g_ref[k].compare(9, 3, "200") != 0 && g_ref[k].compare(9, 3, "204") != 0) c.violation(fmt("kind %d alone", k), "answered with: " + g_ref[k].substr(0, 200));
    for (int k : {10}) if (g_ref[k].compare(9, 3, "404") != 0) c.violation(fmt("kind %d alone", k), "answered with: " + g_ref[k].substr(0, 200));
    if (g_ref[13].compare(9, 3, "400") != 0) c.violation("kind 13 alone", "answered with: " + g_ref[13].substr(0, 200));
}

static std::string shorten(const std::string &s) { std::string r; for (char ch : s.substr(0, 300)) { if (ch == '\r') r += "\\r"; else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) r += '?'; else r += ch; } return fmt("(%zu bytes) ", s.size()) + r; }

// kinds delivered on one connection with the given cuts
static void one(Ctx &c, const std::vector<int> &ks, const std::function<std::vector<size_t>(const std::vector<size_t>&)> &cuts_of, const std::string &tag, bool spurious = false)
{
    std::string s, want;
    std::vector<size_t> bounds;
    u64 t0 = g_ts;
    for (int k : ks) { s += build(k); bounds.push_back(s.size()); want += g_ref[k]; }
    std::vector<size_t> cuts = cuts_of(bounds);
    std::string label = tag;
    for (int k : ks) label += fmt(" k%d", k);
    label += " cuts";
    if (cuts.size() > 6) label += " many"; else for (size_t x : cuts) label += fmt(" %zu", x);
    if (spurious) label += " empty-runs";
    c.at(label);
    g_case[t0] = label;
    Conn n(g_http);
    size_t p = 0;
    for (size_t x : cuts) { if (x <= p || x >= s.size()) continue; n.deliver(s, p, x); p = x; if (spurious) n.run(); }
    n.deliver(s, p, s.size());
    c.eval();
    if (!cuts.empty()) c.nt();
    c.transitions += cuts.size() + 1;
    if (n.got != want || n.stuck) c.violation(label, "responses differ: want " + shorten(want) + " got " + shorten(n.got));
}

// all stored points against what was sent
static void verify_db(Ctx &c)
{
    for (auto &m : g_model)
    {
        // in slices, as an answer has to fit in a buffer
        std::map<u64, double> act;
        std::vector<std::pair<u64, u64>> sl = {{DAYMS, DAYMS + 3599999}};
        u64 step = tt::MemoryManager::get_network_buffer_size() / 64;
        for (u64 t = DAYMS + 3600000; t < g_ts + 1000; t += step) sl.push_back({t, t + step - 1});
        sl.push_back({sl.back().second + 1, DAYMS + DAY * 1000 - 1});
        for (auto &x : sl)
        {
            std::vector<Series> got;
            std::string err;
            if (!query_raw(m.first, x.first, x.second, true, got, &err)) { c.violation("stored " + m.first, err); break; }
            for (auto &s : got) for (auto &p : s.dps) act[p.first] = p.second;
        }
        auto who = [&](u64 t) { auto it = g_case.upper_bound(t); if (it == g_case.begin()) return std::string("reference"); --it; return it->second; };
        int shown = 0;
        for (auto &p : m.second) if (!act.count(p.first) || act[p.first] != p.second) { if (shown++ < 4) c.violation("lost in " + who(p.first), fmt("%s at %llu: sent %s, stored %s", m.first.c_str(), (unsigned long long)p.first, num(p.second).c_str(), act.count(p.first) ? num(act[p.first]).c_str() : "nothing")); }
        for (auto &p : act) if (!m.second.count(p.first)) { if (shown++ < 8) c.violation("invented in " + who(p.first), fmt("%s at %llu: not sent, stored %s", m.first.c_str(), (unsigned long long)p.first, num(p.second).c_str())); }
    }
    // and no other series
    Resp r = get("/api/suggest", "type=metrics&q=&max=1000");
    J j;
    if (parse_json(r.body, j)) for (auto &x : j.a) if (!g_model.count(x.s) && x.s != "q.fix") c.violation("metric " + x.s, "stored although it was not sent");
}

static void single(Ctx &c, int k)
{
    boot(c);
    references(c);
    size_t len = build(k).size();
    g_ts -= 2;
    std::string s = "", none;
    // the length of a compressed body may vary by a few bytes: cuts beyond the end are ignored
    len += 4;
    for (size_t i = 1; i < len; i++)
    {
        one(c, {k}, [&](const std::vector<size_t>&) { return std::vector<size_t>{i}; }, "single");
        one(c, {k}, [&](const std::vector<size_t>&) { return std::vector<size_t>{i}; }, "single", true);
        if (c.full()) return;
    }
    for (size_t i = 1; i < len; i++) for (size_t j = i + 1; j < len; j += c.thorough() || len < 160 ? 1 : 2)
    {
        one(c, {k}, [&](const std::vector<size_t>&) { return std::vector<size_t>{i, j}; }, "single");
        if (c.full()) return;
    }
    one(c, {k, k, k}, [&](const std::vector<size_t> &b) { std::vector<size_t> v; for (size_t i = 1; i < b.back(); i++) v.push_back(i); return v; }, "single");
    verify_db(c);
    c.sample(shorten(build(k)));
}

static void pairs(Ctx &c, int a)
{
    boot(c);
    references(c);
    for (int b = 0; b < KINDS; b++)
    {
        u64 save = g_ts;
        auto model = g_model;
        size_t l1 = build(a).size(), l2 = build(b).size();
        g_model = model;
        g_ts = save;
        // back to back in one piece, and with every cut
        one(c, {a, b}, [&](const std::vector<size_t>&) { return std::vector<size_t>{}; }, "pair");
        for (size_t i = 1; i < l1 + l2; i++) { one(c, {a, b}, [&](const std::vector<size_t>&) { return std::vector<size_t>{i}; }, "pair"); if (c.full()) return; }
        // one after the other, every cut of the second; around the end of the first
        for (size_t i = 1; i < l2; i += c.thorough() ? 1 : 2) { one(c, {a, b}, [&](const std::vector<size_t> &x) { return std::vector<size_t>{x[0], x[0] + i}; }, "seq"); if (c.full()) return; }
        for (int d1 = -3; d1 <= 3; d1++) for (int d2 : {1, 2, 3, 20, 60, 90}) { one(c, {a, b}, [&](const std::vector<size_t> &x) { return std::vector<size_t>{x[0] + d1, x[0] + d1 + d2}; }, "near"); if (c.full()) return; }
        // three in a row
        for (int e : {0, 1, 5, 8, 18}) for (int d = -2; d <= 2; d++) { one(c, {a, b, e}, [&](const std::vector<size_t> &x) { return std::vector<size_t>{x[1] + d}; }, "triple"); if (c.full()) return; }
    }
    verify_db(c);
    c.sample(fmt("kind %d followed by every kind", a));
}

// two connections, pieces alternating
static void interleaved(Ctx &c, int a)
{
    boot(c);
    references(c);
    for (int b = 0; b < KINDS; b++)
    {
        size_t step = c.thorough() ? 1 : 3;
        for (size_t i = 1; ; i += step)
        {
            u64 t0 = g_ts;
            std::string sa = build(a), sb = build(b), sa2 = build(a);
            if (i >= sa.size()) { for (auto &m : g_model) for (auto it = m.second.lower_bound(t0); it != m.second.end();) it = m.second.erase(it); break; }
            size_t j = 1 + (i * 7) % (sb.size() - 1);
            std::string label = fmt("connections k%d@%zu k%d@%zu", a, i, b, j);
            c.at(label);
            g_case[t0] = label;
            Conn x(g_http), y(g_http);
            x.deliver(sa, 0, i);
            y.deliver(sb, 0, j);
            if (i % 2) { x.deliver(sa, i, sa.size()); y.deliver(sb, j, sb.size()); }
            else { y.deliver(sb, j, sb.size()); x.deliver(sa, i, sa.size()); }
            x.deliver(sa2, 0, sa2.size());
            c.eval(); c.nt(); c.transitions += 5;
            if (x.got != g_ref[a] + g_ref[a]) c.violation(label, "first connection: want " + shorten(g_ref[a] + g_ref[a]) + " got " + shorten(x.got));
            if (y.got != g_ref[b]) c.violation(label, "second connection: want " + shorten(g_ref[b]) + " got " + shorten(y.got));
            if (c.full()) return;
        }
    }
    verify_db(c);
    // a connection that ends in the middle of a request leaves nothing to the next one with its number
    for (int k = 0; k < KINDS; k++) for (size_t i = 1; i < 400; i += 3)
    {
        u64 t0 = g_ts;
        auto model = g_model;
        std::string sa = build(k);
        if (i >= sa.size()) { g_model = model; break; }
        g_model = model;        // never completed
        std::string sb = build(a);
        Conn x(g_http);
        x.deliver(sa, 0, i);
        x.conn->state |= TCS_NEW;
        x.got.clear();
        std::string label = fmt("reused k%d@%zu k%d", k, i, a);
        g_case[t0] = label;
        x.deliver(sb, 0, sb.size() / 2);
        x.deliver(sb, sb.size() / 2, sb.size());
        c.eval(); c.nt();
        if (x.got != g_ref[a]) c.violation(label, "want " + shorten(g_ref[a]) + " got " + shorten(x.got));
        if (c.full()) return;
    }
    verify_db(c);
    c.sample(fmt("kind %d against every kind on another connection", a));
}

// requests around the size of the buffer
static void limits(Ctx &c)
{
    boot(c, "4kb");
    references(c);
    size_t cap = tt::MemoryManager::get_network_buffer_size();
    for (int d = -40; d <= 300; d += (d < 20 ? 1 : 40)) for (int follow = 0; follow < 2; follow++)
    {
        // a put of many lines, total size cap + d
        auto make = [&](bool store) {
            auto model = g_model;
            std::string body;
            u64 t = g_ts;
            std::string head = fmt("POST /api/put HTTP/1.1\r\nContent-Length: %d\r\n\r\n", 4000);
            size_t total = cap + d - head.size();
            while (body.size() + 700 < total) { body += pl("s.l", t) + std::string(600, '\n'); t++; }
            body += std::string(total - body.size() - 1, ' ') + "\n";
            g_ts = t + 1;
            if (!store) g_model = model;
            return post("/api/put", body);
        };
        // what happens to it in one piece decides what is expected
        std::string ref;
        bool ok;
        {
            auto model = g_model;
            std::string s = make(true);
            if (s.size() < cap - 100) continue;
            Conn n(g_http);
            n.deliver(s, 0, s.size());
            std::string nx = build(0);
            if (follow) n.deliver(nx, 0, nx.size());
            ref = n.got;
            ok = ref.compare(9, 3, "200") == 0;
            if (!ok) g_model = model;
            if (ok != (s.size() <= cap - 8) && ok != (s.size() < cap - 8)) c.violation(fmt("size %zu", s.size()), "answered with " + shorten(ref));
            if (!ok && ref.compare(9, 3, "413") != 0) c.violation(fmt("size %zu", s.size()), "answered with " + shorten(ref));
            if (!ok && ref.find("HTTP/1.1", 9) != std::string::npos) c.violation(fmt("size %zu", s.size()), "the rest of a refused request is answered too: " + shorten(ref));
        }
        for (size_t i = 1; i < cap + 200; i += (i > cap - 60 || i < 60) ? 1 : c.thorough() ? 17 : 211)
        {
            u64 t0 = g_ts;
            std::string s = make(ok);
            if (i >= s.size()) { if (ok) { for (auto &m : g_model) for (auto it = m.second.lower_bound(t0); it != m.second.end();) it = m.second.erase(it); } break; }
            std::string label = fmt("size %zu cut %zu%s", s.size(), i, follow ? " followed" : "");
            g_case[t0] = label;
            c.at(label);
            Conn n(g_http);
            n.deliver(s, 0, i);
            n.deliver(s, i, s.size());
            std::string nx = build(0);
            if (follow) n.deliver(nx, 0, nx.size());
            c.eval(); c.nt();
            if (n.got != ref) c.violation(label, "want " + shorten(ref) + " got " + shorten(n.got));
            if (c.full()) return;
        }
    }
    // many requests back to back, more than a buffer holds
    for (int k : {1, 2, 3, 5, 0, 7, 8}) for (size_t seg : {1000000, 4096, 4088, 4087, 1000, 333})
    {
        std::string s, want, label = fmt("stream of k%d in pieces of %zu", k, seg);
        g_case[g_ts] = label;
        c.at(label);
        for (int i = 0; i < 120; i++) { s += build(k); want += g_ref[k]; }
        Conn n(g_http);
        for (size_t p = 0; p < s.size(); p += seg) n.deliver(s, p, std::min(s.size(), p + seg));
        c.eval(); c.nt();
        if (n.got != want) c.violation(label, "want " + shorten(want) + " got " + shorten(n.got));
    }
    verify_db(c);
    c.sample("4 kB buffer");
}

// ------------------------------------------------------------- line port --
// answers on the line port are those of single lines, in order
static void lines(Ctx &c, bool second, int part)
{
    boot(c, "4kb");
    struct L { const char *name; std::function<std::string()> make; std::string answer; };
    auto fresh = [] { return g_ts++; };
    std::vector<L> al;
    if (!second)
    {
        al = {{"put", [&] { return pl("s.a", fresh()); }, ""}, {"bad", [&] { return fmt("put s.a %llu x h=1\n", (unsigned long long)fresh()); }, ""}, {"blank", [&] { return std::string("\n"); }, ""},
            {"version", [&] { return std::string("version\n"); }, ""}, {"help", [&] { return std::string("help\n"); }, ""}, {"junk", [&] { return std::string("junk 1\n"); }, ""}, {"put2", [&] { return pl("put", fresh()); }, ""}, {"crlf", [&] { std::string s = pl("s.b", fresh()); s.insert(s.size() - 1, "\r"); return s; }, ""}};
    }
    else
    {
        al = {{"line", [&] { return il("s.a", fresh()); }, ""}, {"bad", [&] { return fmt("s.a,h=1 f=x %llu\n", (unsigned long long)fresh()); }, ""}, {"blank", [&] { return std::string("\n"); }, ""}, {"comment", [&] { return std::string("# a b=1\n"); }, ""},
            {"two", [&] { u64 t = fresh(); add("s.c", t); return fmt("s.c,h=1 f=%s %llu\n", num(val_of(t)).c_str(), (unsigned long long)t); }, ""}, {"junk", [&] { return std::string("junk\n"); }, ""}};
    }
    for (auto &l : al)
    {
        Conn n(g_tcp, second);
        std::string s = l.make();
        n.deliver(s, 0, s.size());
        l.answer = n.got;
        if ((std::string(l.name) == "version" || std::string(l.name) == "help") && n.got.empty()) c.violation(std::string("line ") + l.name, "no answer");
        if (std::string(l.name) != "version" && std::string(l.name) != "help" && !n.got.empty()) c.violation(std::string("line ") + l.name, "answered with " + shorten(n.got));
        c.outcome(n.got);
    }
    auto go = [&](const std::vector<size_t> &ix, const std::vector<size_t> &cuts, const char *tag) {
        std::string s, want, label = tag;
        u64 t0 = g_ts;
        for (size_t i : ix) { s += al[i].make(); want += al[i].answer; label += fmt(" %s", al[i].name); }
        label += " cuts";
        if (cuts.size() > 6) label += " many"; else for (size_t x : cuts) label += fmt(" %zu", x);
        c.at(label);
        g_case[t0] = label;
        Conn n(g_tcp, second);
        size_t p = 0;
        for (size_t x : cuts) { if (x <= p || x >= s.size()) continue; n.deliver(s, p, x); p = x; }
        n.deliver(s, p, s.size());
        c.eval(); if (!cuts.empty()) c.nt(); c.transitions += cuts.size() + 1;
        if (n.stuck) c.violation(label, "the task asks to be run again forever");
        if (n.got != want) c.violation(label, "answers differ: want " + shorten(want) + " got " + shorten(n.got));
        return s.size();
    };
    if (part == 0)
    {
        // every stream of up to three lines, every cut; byte by byte
        size_t n = al.size();
        for (size_t a = 0; a < n; a++) for (size_t b = 0; b <= n; b++) for (size_t d = 0; d <= n; d++)
        {
            std::vector<size_t> ix = {a};
            if (b < n) ix.push_back(b);
            if (d < n && b < n) ix.push_back(d);
            if (b == n && d < n) continue;
            size_t len = go(ix, {}, "lines");
            for (size_t i = 1; i < len; i += ix.size() < 3 || c.thorough() ? 1 : 2) { go(ix, {i}, "lines"); if (c.full()) return; }
            std::vector<size_t> every;
            for (size_t i = 1; i < len; i++) every.push_back(i);
            go(ix, every, "lines");
            if (ix.size() == 2) for (size_t i = 1; i < len; i++) for (size_t j = i + 1; j < len; j++) { go(ix, {i, j}, "lines"); if (c.full()) return; }
        }
        // two connections
        for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t i = 1; ; i++)
        {
            u64 t0 = g_ts;
            auto model = g_model;
            std::string s1 = al[a].make(), s2 = al[b].make();
            if (i >= s1.size()) { g_model = model; break; }
            std::string label = fmt("connections %s@%zu %s", al[a].name, i, al[b].name);
            g_case[t0] = label;
            Conn x(g_tcp, second), y(g_tcp, second);
            size_t j = i % s2.size();
            x.deliver(s1, 0, i);
            y.deliver(s2, 0, j);
            x.deliver(s1, i, s1.size());
            y.deliver(s2, j, s2.size());
            c.eval(); c.nt();
            if (x.got != al[a].answer || y.got != al[b].answer) c.violation(label, "answers differ: " + shorten(x.got) + " / " + shorten(y.got));
            if (c.full()) return;
        }
        // a connection that ends in the middle of a line leaves nothing to the next one with its number
        for (size_t i = 1; i < 30; i++)
        {
            auto model = g_model;
            u64 t0 = g_ts;
            std::string s1 = al[0].make();
            g_model = model;
            if (i >= s1.size()) break;
            std::string s2 = al[0].make(), label = fmt("reused @%zu", i);
            g_case[t0] = label;
            Conn x(g_tcp, second);
            x.deliver(s1, 0, i);
            x.conn->state |= TCS_NEW;
            x.deliver(s2, 0, 5);
            x.deliver(s2, 5, s2.size());
            c.eval(); c.nt();
        }
    }
    else
    {
        // streams larger than the buffer, in pieces of every awkward size
        size_t cap = tt::MemoryManager::get_network_buffer_size();
        for (size_t seg : {(size_t)10000000, cap + 1, cap, cap - 5, cap - 6, cap - 7, cap - 8, cap / 2, (size_t)1000, (size_t)777, (size_t)100, (size_t)7})
            for (size_t lead = 0; lead < (c.thorough() ? 60u : 10u); lead++)
            {
                std::string s, label = fmt("stream lead %zu pieces of %zu", lead, seg);
                g_case[g_ts] = label;
                c.at(label);
                s = std::string(lead, '\n');
                while (s.size() < 3 * cap) s += al[0].make();
                Conn n(g_tcp, second);
                for (size_t p = 0; p < s.size(); p += seg) n.deliver(s, p, std::min(s.size(), p + seg));
                c.eval(); c.nt(); c.transitions += s.size() / seg + 1;
                if (n.stuck) c.violation(label, "the task asks to be run again forever");
                if (c.full()) return;
            }
        // an overlong line harms only itself
        for (size_t len : {cap - 8, cap - 7, cap - 6, cap - 5, cap, cap + 3, 2 * cap - 12, 2 * cap - 6, 2 * cap, 3 * cap + 1}) for (size_t seg : {(size_t)10000000, cap, cap - 6, (size_t)1000, (size_t)313}) for (int inner = 0; inner < 2; inner++)
        {
            std::string s, label = fmt("line of %zu in pieces of %zu%s", len, seg, inner ? " with put inside" : "");
            g_case[g_ts] = label;
            c.at(label);
            s = al[0].make();
            if (inner) { auto model = g_model; std::string in = al[0].make(); in.pop_back(); g_model = model; std::string l = "x"; while (l.size() + in.size() + 2 < len) l += " " + in; l.resize(len - 1, 'z'); s += l + "\n"; }
            else s += std::string(len - 1, 'z') + "\n";
            s += al[0].make() + al[0].make();
            Conn n(g_tcp, second);
            for (size_t p = 0; p < s.size(); p += seg) n.deliver(s, p, std::min(s.size(), p + seg));
            c.eval(); c.nt();
            if (n.stuck) c.violation(label, "the task asks to be run again forever");
            if (c.full()) return;
        }
    }
    verify_db(c);
    c.sample(fmt("%zu kinds of lines", al.size()));
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    for (int k = 0; k < KINDS; k++)
    {
        jobs.push_back({fmt("single-%d", k), [=](Ctx &c) { single(c, k); }});
        jobs.push_back({fmt("pairs-%d", k), [=](Ctx &c) { pairs(c, k); }});
        jobs.push_back({fmt("interleaved-%d", k), [=](Ctx &c) { interleaved(c, k); }});
    }
    jobs.push_back({"limits", limits});
    for (int p = 0; p < 2; p++) for (bool s : {false, true}) jobs.push_back({fmt("lines-%s-%d", s ? "write" : "put", p), [=](Ctx &c) { lines(c, s, p); }});
}
