// C19: a buffer or recyclable object has one holder at a time, its full size, and no trace of the previous one.
#include "conn.h"
#include "ctl.h"
#include "global.h"
#include "memmgr.h"
#include "recycle.h"
#include <malloc.h>
#include <string.h>
#include <sys/mman.h>
#include <typeinfo>
using namespace vh;

const char *vh::g_rule =
    "every sequence of a given length over {take one, release the oldest, release the newest, release a chain of two, collect garbage} for every recyclable type and both kinds of network buffers; "
    "all schedules with at most 2 (thorough: 3) preemptions of 2 and 3 threads that take, release and collect objects of one type, from free lists of 0 to 2 entries; "
    "every ordered pair of query kinds (valid and rejected, with and without a garbage collection between them) answered as in a fresh process; every ordered pair of connection histories (complete, cut at different places, malformed) answered as on a fresh connection. "
    "Non-trivial = a sequence that takes an object after a release, a schedule with a preemption, or a pair of different kinds";

// where a child is, visible from outside
static char *g_where = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
static std::string where() { return g_where; }
static void where(const std::string &s) { strncpy(g_where, s.c_str(), 4000); }

enum { SMALL = tt::RecyclableType::RT_COUNT + 1, BIG = tt::RecyclableType::RT_COUNT };

static size_t buf_size(int t) { return t == SMALL ? tt::MemoryManager::get_network_buffer_small_size() : tt::MemoryManager::get_network_buffer_size(); }
static void *take(int t)
{
    if (t == SMALL) return tt::MemoryManager::alloc_network_buffer_small();
    if (t == BIG) return tt::MemoryManager::alloc_network_buffer();
    return tt::MemoryManager::alloc_recyclable((tt::RecyclableType)t);
}
static void give(int t, void *p)
{
    if (t == SMALL) tt::MemoryManager::free_network_buffer_small((char*)p);
    else if (t == BIG) tt::MemoryManager::free_network_buffer((char*)p);
    else tt::MemoryManager::free_recyclable((tt::Recyclable*)p);
}
static void collect()
{
    tt::TaskData d;
    d.integer = 1;
    tt::MemoryManager::collect_garbage(d);
}

static const char *tname(int t)
{
    static std::map<int, std::string> n;
    if (t == SMALL) return "small";
    if (t == BIG) return "big";
    n[t] = fmt("type%d", t);
    return n[t].c_str();
}

// the first one ever made of each type tells what to expect
static size_t type_of(void *p, int t) { return t >= BIG ? 0 : typeid(*(tt::Recyclable*)p).hash_code(); }

struct Holder
{
    std::string bad;
    std::map<void*, unsigned> live;
    size_t type = 0, sz = 0;
    unsigned n = 0;
    int t;
    Holder(int t) : t(t) {}
    void got(void *p)
    {
        if (p == nullptr) { bad = "nothing was handed out"; return; }
        if (live.count(p)) { bad = "an object was handed out that is still held"; return; }
        for (auto &l : live)
        {
            char *a = (char*)l.first, *b = (char*)p;
            size_t sa = t >= BIG ? buf_size(t) : malloc_usable_size(a);
            if (b > a && b < a + sa) { bad = "an object was handed out inside one that is still held"; return; }
        }
        if (!type) type = type_of(p, t);
        if (type != type_of(p, t)) { bad = "an object of another type was handed out"; return; }
        if (t < BIG && ((tt::Recyclable*)p)->next() != nullptr) { bad = "an object was handed out still linked to another"; return; }
        live[p] = ++n;
        if (t >= BIG)
        {
            // all of it can be used
            size_t s = buf_size(t);
            if (malloc_usable_size(p) < s) { bad = fmt("a buffer of %zu bytes was handed out instead of %zu", malloc_usable_size(p), s); live.erase(p); return; }
            for (size_t i = 0; i < s; i += i < 64 || i + 128 > s ? 1 : 61) ((unsigned char*)p)[i] = (unsigned char)(n + i);
        }
    }
    void check(void *p)
    {
        if (t < BIG) return;
        size_t s = buf_size(t);
        for (size_t i = 0; i < s; i += i < 64 || i + 128 > s ? 1 : 61)
            if (((unsigned char*)p)[i] != (unsigned char)(live[p] + i)) { bad = fmt("byte %zu of a buffer changed while it was held", i); return; }
    }
};

// ----------------------------------------------------------- sequential --
static std::string sequence(int t, const std::string &ops, bool &reused)
{
    Holder h(t);
    std::vector<void*> held;
    bool released = false;
    auto drop = [&](size_t i) { void *p = held[i]; h.check(p); h.live.erase(p); held.erase(held.begin() + i); released = true; return p; };
    for (char o : ops)
    {
        if (o == 'a') { reused |= released; void *p = take(t); h.got(p); held.push_back(p); }
        else if (o == 'o' && !held.empty()) give(t, drop(0));
        else if (o == 'n' && !held.empty()) give(t, drop(held.size() - 1));
        else if (o == 'c' && t < BIG && held.size() >= 2)
        {
            auto *p = (tt::Recyclable*)drop(0), *q = (tt::Recyclable*)drop(0);
            p->next() = q;
            q->next() = nullptr;
            // tag matchers release those they are linked to by themselves
            if (t == tt::RT_TAG_MATCHER) give(t, p);
            else tt::MemoryManager::free_recyclables(p);
        }
        else if (o == 'g') collect();
        if (!h.bad.empty()) return h.bad;
    }
    // the free list is sound: everything taken from it is distinct
    for (int i = 0; i < 3; i++) { void *p = take(t); h.got(p); held.push_back(p); if (!h.bad.empty()) return h.bad; }
    while (!held.empty()) { give(t, drop(0)); if (!h.bad.empty()) return h.bad; }
    return "";
}

static void sequences(Ctx &c, int t, int len)
{
    std::string al = t < BIG ? "aoncg" : "aong";
    u64 n = 1;
    for (int i = 0; i < len; i++) n *= al.size();
    // in children, so that a corrupted list does not take the rest down
    const u64 CH = 2500;
    for (u64 from = 0; from < n; from += CH)
    {
        c.at(fmt("%s/%llu", tname(t), (unsigned long long)from));
        ChildResult r = in_child([&](std::string &out)
        {
            set_clock_ms((BASE + 1000) * 1000);
            Conf f = conf_of({4, 256, false});
            f["tcp.buffer.size"] = "16kb";
            db_start(c.dir + "/db", f);
            u64 reused = 0;
            std::set<std::string> shapes;
            for (u64 k = from; k < std::min(n, from + CH); k++)
            {
                std::string ops;
                u64 x = k;
                for (int i = 0; i < len; i++) { ops += al[x % al.size()]; x /= al.size(); }
                if (ops[0] != 'a' && ops[0] != 'g') continue;
                where(ops);
                bool re = false;
                std::string v = sequence(t, ops, re);
                reused += re;
                if (!v.empty()) { out = "BAD " + ops + " " + v; return; }
                shapes.insert(ops);
            }
            out = fmt("ok %zu %llu", shapes.size(), (unsigned long long)reused);
        }, 60);
        remove_tree(c.dir + "/db");
        unsigned long long ev = 0, nt = 0;
        if (sscanf(r.out.c_str(), "ok %llu %llu", &ev, &nt) == 2) { c.eval(ev); c.nt(nt); c.outcome(fmt("%s %s", tname(t), r.out.c_str())); }
        else c.violation(fmt("seq/%s/%s", tname(t), r.out.compare(0, 3, "BAD") == 0 ? r.out.substr(4, len).c_str() : where().c_str()), r.out.compare(0, 3, "BAD") == 0 ? r.out.substr(4) : "the sequence " + where() + " did not finish: " + r.why());
    }
    c.sample(fmt("%s: all sequences of length %d over %s", tname(t), len, al.c_str()));
}

// ----------------------------------------------------------- concurrent --
struct CCase { int t, pre; std::vector<std::string> th; std::string name() const { std::string s = fmt("par-%s-%d", tname(t), pre); for (auto &x : th) s += "-" + x; return s; } };

static SchedBody par_body(const CCase &k)
{
    SchedBody b;
    auto h = std::make_shared<Holder>(k.t);
    b.setup = [k]() { std::vector<void*> v; for (int i = 0; i < k.pre; i++) v.push_back(take(k.t)); for (void *p : v) give(k.t, p); };
    for (auto &ops : k.th)
        b.threads.push_back([k, h, ops]()
        {
            std::vector<void*> mine;
            for (char o : ops)
            {
                if (o == 'a') { void *p = take(k.t); h->got(p); mine.push_back(p); }
                else if (o == 'f' && !mine.empty()) { void *p = mine[0]; mine.erase(mine.begin()); h->check(p); h->live.erase(p); give(k.t, p); }
                else if (o == 'c' && mine.size() >= 2)
                {
                    auto *p = (tt::Recyclable*)mine[0], *q = (tt::Recyclable*)mine[1];
                    mine.erase(mine.begin(), mine.begin() + 2);
                    h->live.erase(p); h->live.erase(q);
                    p->next() = q;
                    if (k.t == tt::RT_TAG_MATCHER) give(k.t, p);
                    else tt::MemoryManager::free_recyclables(p);
                }
                else if (o == 'g') collect();
            }
            for (void *p : mine) { h->check(p); h->live.erase(p); give(k.t, p); }
        });
    b.finish = [k, h](std::string &out)
    {
        for (int i = 0; i < 5 && h->bad.empty(); i++) h->got(take(k.t));
        std::set<void*> d;
        for (auto &l : h->live) d.insert(l.first);
        out = h->bad.empty() ? fmt("ok %zu", d.size()) : "BAD " + h->bad;
    };
    return b;
}

static std::string verdict(const Execution &e)
{
    if (!e.end.empty()) return e.end;
    if (e.out.compare(0, 3, "BAD") == 0) return e.out.substr(4);
    if (e.out.compare(0, 2, "ok") != 0) return "no answer: " + e.out;
    return "";
}

static void parallel(Ctx &c, const CCase &k, int bound)
{
    set_clock_ms((BASE + 1000) * 1000);
    Conf f = conf_of({4, 256, false});
    f["tcp.buffer.size"] = "16kb";
    db_start(c.dir + "/db", f);
    Explored ex;
    explore(c, k.name(), [k]() { return par_body(k); }, bound, 60000, verdict, &ex);
    c.sample(fmt("%s: bound %d, %llu schedules (0/1/2/3 preemptions: %llu/%llu/%llu/%llu), %llu points, %zu outcomes%s", k.name().c_str(), bound,
        (unsigned long long)ex.executions, (unsigned long long)ex.by_cost[0], (unsigned long long)ex.by_cost[1], (unsigned long long)ex.by_cost[2], (unsigned long long)ex.by_cost[3],
        (unsigned long long)ex.points, ex.outcomes.size(), ex.complete ? "" : " (capped)"));
}

// -------------------------------------------------------------- queries --
static std::vector<std::string> query_list()
{
    std::vector<std::string> q;
    auto add = [&](const std::string &sub) { q.push_back(fmt("{\"start\":%llu,\"end\":%llu,\"queries\":[%s]}", (unsigned long long)BASE, (unsigned long long)(BASE + 7200), sub.c_str())); };
    auto one = [&](const std::string &agg, const std::string &ds, const std::string &more) { return "{\"metric\":\"m\",\"aggregator\":\"" + agg + "\"" + (ds.empty() ? "" : ",\"downsample\":\"" + ds + "\"") + more + "}"; };
    for (const char *a : {"none", "avg", "sum", "min", "max", "count", "dev", "p50", "p999", "top1", "top2", "bottom1", "bottom2"}) add(one(a, "", ""));
    for (const char *d : {"10m-avg", "10m-sum", "10m-min", "10m-max", "10m-count", "10m-dev", "10m-first", "10m-last", "10m-p75", "10m-p95", "10m-sum-zero", "10m-avg-nan", "1h-avg", "7m-count-null"}) add(one("none", d, ""));
    add(one("sum", "", ",\"rate\":true"));
    add(one("none", "5m-avg", ",\"rate\":true,\"rateOptions\":{\"counter\":true,\"counterMax\":100,\"resetValue\":3}"));
    add(one("none", "", ",\"rate\":true,\"rateOptions\":{\"counter\":true,\"dropResets\":true}"));
    add(one("sum", "", ",\"tags\":{\"h\":\"*\"}"));
    add(one("sum", "", ",\"tags\":{\"h\":\"1|2\"}"));
    add(one("max", "", ",\"filters\":[{\"type\":\"wildcard\",\"tagk\":\"h\",\"filter\":\"*\",\"groupBy\":true}]"));
    add(one("max", "", ",\"filters\":[{\"type\":\"not_literal_or\",\"tagk\":\"h\",\"filter\":\"1\",\"groupBy\":false}]"));
    add(one("avg", "", ",\"tags\":{\"h\":\"1\"},\"explicitTags\":true"));
    add(one("sum", "10m-avg", "") + "," + one("none", "", ",\"tags\":{\"h\":\"2\"}"));
    add("{\"metric\":\"nosuch\",\"aggregator\":\"sum\"}");
    add("{\"metric\":\"m\",\"aggregator\":\"nosuch\"}");
    add(one("sum", "10x-avg", ""));
    add(one("sum", "10m-nosuch", ""));
    q.push_back("{\"start\":1,\"queries\":[{\"metric\":\"m\"");
    q.push_back(fmt("{\"start\":%llu,\"end\":%llu,\"queries\":[%s]}", (unsigned long long)(BASE + 90000), (unsigned long long)(BASE + 97200), one("none", "", "").c_str()));
    q.push_back("GET /api/suggest?type=tagk&q=&max=10");
    q.push_back("GET /api/search/lookup?m=m{h=*}");
    q.push_back(fmt("GET /api/query?start=%llu&end=%llu&m=sum:10m-avg:m{h=*}", (unsigned long long)BASE, (unsigned long long)BASE + 7200));
    return q;
}

// data in every kind of page: old encodings, pages written out, open ones, late ones
static void load(int comp)
{
    set_clock_ms((BASE + 40000) * 1000);
    std::string s;
    for (int h = 1; h <= 3; h++)
        for (int i = 0; i < 60; i++)
        {
            s += fmt("put m %llu %s h=%d\n", (unsigned long long)(BASE + 100 + i * 97 + h), num(val(h % 3, i)).c_str(), h);
            if (i == 40) s += fmt("put m %llu %s h=%d,x=1\n", (unsigned long long)(BASE + 50 + h), num(h * 1.5).c_str(), h);
            if (i % 20 == 19) { s += fmt("put m %llu %s h=%d\n", (unsigned long long)(BASE + 130 + i * 41 + h), num(-h).c_str(), h); }
            if (s.size() > 1500) { put_plain(s); s.clear(); }
        }
    if (!s.empty()) put_plain(s);
}

// answers list series in no particular order and add up in that order
static std::string canon(const J &j)
{
    if (j.t == J::ARR)
    {
        std::vector<std::string> v;
        for (auto &x : j.a) v.push_back(canon(x));
        std::sort(v.begin(), v.end());
        std::string s = "[";
        for (auto &x : v) s += x + ",";
        return s + "]";
    }
    if (j.t == J::OBJ)
    {
        std::string s = "{";
        for (auto &x : j.o) s += x.first + ":" + canon(x.second) + ",";
        return s + "}";
    }
    if (j.t == J::NUM) return fmt("%.8g", j.n);
    return j.s;
}
static std::string canon(int status, const std::string &body)
{
    J j;
    if (!parse_json(body, j)) return fmt("%d %s", status, body.c_str());
    return fmt("%d ", status) + canon(j);
}

static std::string ask(const std::string &q)
{
    if (q.compare(0, 4, "GET ") == 0) { size_t p = q.find('?'); Resp r = get(q.substr(4, p - 4), q.substr(p + 1)); return canon(r.status, r.body); }
    Resp r = query_post(q);
    return canon(r.status, r.body);
}

static void queries(Ctx &c, int comp, int part, int parts)
{
    auto q = query_list();
    std::string home = c.dir + "/db";
    Conf f = conf_of({comp, 128, false});
    // the answers of processes that answer nothing else
    std::vector<std::string> fresh;
    for (size_t i = 0; i < q.size(); i++)
    {
        c.at(fmt("fresh/%zu", i));
        ChildResult r = in_child([&](std::string &out) { db_start(home, f); load(comp); out = ask(q[i]); }, 30);
        remove_tree(home);
        if (!r.ok()) { c.violation(fmt("fresh/%zu", i), "query failed: " + r.why()); return; }
        fresh.push_back(r.out);
    }
    for (size_t i = part; i < q.size(); i += parts)
    {
        c.at(fmt("after/%zu", i));
        ChildResult r = in_child([&](std::string &out)
        {
            db_start(home, f);
            load(comp);
            int n = 0;
            for (size_t j = 0; j < q.size(); j++)
                for (int gc = 0; gc < 2; gc++)
                {
                    where(fmt("query %zu then %zu%s", i, j, gc ? " with a collection between" : ""));
                    ask(q[i]);
                    if (gc) bg_gc();
                    std::string a = ask(q[j]);
                    n++;
                    if (a != fresh[j]) { out = fmt("BAD query %zu after query %zu%s: got %.300s instead of %.300s; first query %s; second query %s", j, i, gc ? " and a collection" : "", a.c_str(), fresh[j].c_str(), q[i].c_str(), q[j].c_str()); return; }
                }
            out = fmt("ok %d", n);
        }, 60);
        remove_tree(home);
        unsigned long long n = 0;
        if (r.ok() && sscanf(r.out.c_str(), "ok %llu", &n) == 1) { c.eval(n); c.nt(n - 2); for (auto &x : fresh) c.outcome(x.substr(0, 200)); }
        else c.violation(fmt("query/v%d/%zu", comp, i), r.out.compare(0, 3, "BAD") == 0 ? r.out.substr(4) : where() + " did not finish: " + r.why());
    }
    c.sample("query pair: " + q[part] + " then each of " + fmt("%zu", q.size()));
}

// ---------------------------------------------------------- connections --
struct HConn { std::string name, bytes; size_t cut; };      // delivered up to cut, then closed

static std::string hreq(const char *head, const std::string &body, const char *more = "")
{
    return fmt("%s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %zu\r\n\r\n", head, more, body.size()) + body;
}

static void connections(Ctx &c, bool http, int part, int parts)
{
    std::vector<HConn> k;
    auto add = [&](const std::string &n, const std::string &b, std::vector<size_t> cuts) { for (size_t x : cuts) k.push_back({fmt("%s@%zu", n.c_str(), x), b, std::min(x, b.size())}); };
    if (http)
    {
        std::string put = hreq("POST /api/put?details", fmt("put c.m %llu 1.5 h=1\n", (unsigned long long)DAYMS + 5000));
        std::string qr = hreq("POST /api/query", fmt("{\"start\":%llu,\"end\":%llu,\"queries\":[{\"metric\":\"q.fix\",\"aggregator\":\"none\"}]}", (unsigned long long)DAYMS, (unsigned long long)DAYMS + 86399000), "X-Request-ID: abc\r\n");
        size_t hd = put.find("\r\n\r\n");
        add("put", put, {3, 20, hd + 1, hd + 4, hd + 10, put.size() - 1, put.size()});
        add("query", qr, {qr.size() / 2, qr.size()});
        add("get", "GET /api/version HTTP/1.1\r\nHost: x\r\n\r\n", {18, 999});
        add("close", "GET /api/version HTTP/1.1\r\nConnection: close\r\n\r\n", {999});
        add("garbage", "\x01\x02nonsense\r\n\r\n", {5, 999});
        add("notfound", "GET /nosuch HTTP/1.1\r\n\r\n", {999});
        add("two", put + qr, {put.size() + 30, 99999});
        add("large", hreq("POST /api/put", std::string(9000, ' ') + fmt("put c.l %llu 2 h=1\n", (unsigned long long)DAYMS + 6000)), {4000, 9100, 99999});
        add("huge", hreq("POST /api/put", std::string(70000, 'x')), {30000, 99999});
    }
    else
    {
        std::string a = fmt("put c.t %llu 1.5 h=1\n", (unsigned long long)DAYMS + 7000);
        add("put", a, {4, a.size() - 1, a.size()});
        add("version", "version\n", {3, 99});
        add("bad", "put nonsense\n", {99});
        add("garbage", "\x01\x02\n", {99});
        add("long", std::string(70000, 'x'), {5000, 69999});
        add("mixed", a + "version\n" + a + "put c.t", {9999});
    }
    auto serve = [&](const HConn &h) { Conn n(http ? (tt::TcpServer*)g_http : g_tcp); n.deliver(h.bytes, 0, h.cut); return n.stuck ? std::string("stuck") : n.got; };
    std::vector<std::string> fresh;
    for (auto &h : k)
    {
        c.at("fresh/" + h.name);
        ChildResult r = in_child([&](std::string &out) { boot(c); out = serve(h); }, 20);
        remove_tree(c.dir + "/h");
        if (!r.ok()) { c.violation("fresh/" + h.name, "connection failed: " + r.why()); return; }
        fresh.push_back(r.out);
    }
    for (size_t i = part; i < k.size(); i += parts)
    {
        c.at("after/" + k[i].name);
        ChildResult r = in_child([&](std::string &out)
        {
            boot(c);
            for (size_t j = 0; j < k.size(); j++)
            {
                where(k[i].name + " then " + k[j].name);
                serve(k[i]);
                std::string a = serve(k[j]);
                if (a != fresh[j]) { out = "BAD " + k[j].name + " after " + k[i].name + ": answered '" + a.substr(0, 200) + "' instead of '" + fresh[j].substr(0, 200) + "'"; return; }
            }
            out = "ok";
        }, 60);
        remove_tree(c.dir + "/h");
        if (r.ok() && r.out == "ok") { c.eval(k.size()); c.nt(k.size() - 1); for (auto &f : fresh) c.outcome(f.substr(0, 100)); }
        else c.violation("conn/" + k[i].name, r.out.compare(0, 3, "BAD") == 0 ? r.out.substr(4) : where() + " did not finish: " + r.why());
    }
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    for (int t = 0; t <= SMALL; t++) jobs.push_back({fmt("seq-%s", tname(t)), [=](Ctx &c) { sequences(c, t, t < BIG ? (th ? 7 : 6) : th ? 8 : 7); }});
    std::set<int> more = {SMALL, BIG, tt::RT_QUERY_TASK, tt::RT_JSON_VALUE, tt::RT_DATA_POINT_CONTAINER, tt::RT_TCP_CONNECTION, tt::RT_DOWNSAMPLER_PT, tt::RT_KEY_VALUE_PAIR};
    for (int t = SMALL; t >= 0; t--)
        for (int pre = 0; pre <= 2; pre++)
            for (auto v : std::vector<std::vector<std::string>>{{"af", "af"}, {"aaf", "af"}, {"afa", "ga"}, {"aafa", "afg"}, {"af", "af", "ga"}, {"aca", "aaca"}, {"aaca", "ga"}})
            {
                if (t >= BIG && v[0].find('c') != std::string::npos) continue;
                if (!th && (v.size() == 3 || !more.count(t)) && pre != 1) continue;
                if (!th && !more.count(t) && v.size() == 3) continue;
                CCase k{t, pre, v};
                jobs.push_back({k.name(), [=](Ctx &c) { parallel(c, k, v.size() == 2 && (th || more.count(t)) ? 3 : 2); }});
            }
    for (int comp = 0; comp <= 4; comp++)
    {
        if (!th && (comp == 1 || comp == 3)) continue;
        for (int p = 0; p < 4; p++) jobs.push_back({fmt("query-v%d-%d", comp, p), [=](Ctx &c) { queries(c, comp, p, 4); }});
    }
    for (int p = 0; p < 3; p++) jobs.push_back({fmt("http-%d", p), [=](Ctx &c) { connections(c, true, p, 3); }});
    jobs.push_back({"lines", [=](Ctx &c) { connections(c, false, 0, 1); }});
}
