// C17: time ranges and intervals are interpreted exactly.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "rel: every count x unit spelling of relative times at 8 clock settings (month ends, leap day, year end, fraction of a second); date: every calendar date x time of day x format x time zone (request parameter or configuration); "
    "abs: instants written as seconds, ms, us and ns, as number or string; each expression is used as start and as end, and in pairs, in both request forms and both resolutions, against points at the instant and one tick on either side; "
    "step: every count x unit of downsampling intervals against points around the interval edge. Non-trivial = an expression that is not a plain number in the stored unit";

// days since the epoch of a date in the proleptic Gregorian calendar, counted year by year
static i64 days(int y, int m, int d)
{
    static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    i64 n = 0;
    for (int i = 1970; i < y; i++) n += leap(i) ? 366 : 365;
    for (int i = 1; i < m; i++) n += L[i - 1] + (i == 2 && leap(y));
    return n + d - 1;
}

struct Expr
{
    std::string s;          // text
    i64 at;                 // the instant it denotes, in ms since the epoch
    std::string tz;         // tz parameter, or ""
    bool number = false;    // may be written without quotes
    std::string get;        // spelling in a URL, if different
};

struct Db
{
    std::string metric;
    std::set<u64> pts;
    bool ms;
};

static u64 tick(i64 at, bool ms) { return ms ? at : at / 1000; }

static void fill(Db &db, const std::vector<Expr> &es)
{
    std::string body;
    for (auto &e : es) for (int d = -1; d <= 1; d++) db.pts.insert(tick(e.at, db.ms) + d);
    for (u64 t : db.pts)
    {
        body += fmt("put %s %llu 1 k=v\n", db.metric.c_str(), (unsigned long long)t);
        if (body.size() > 300000) { put_plain(body); body.clear(); }
    }
    put_plain(body);
}

static std::string quoted(const Expr &e, int q) { return e.number && q ? e.s : "\"" + e.s + "\""; }

// one query with the two expressions; either may be null: then the plain number is used
static void ask(Ctx &c, const Db &db, const Expr *a, u64 from, const Expr *b, u64 to, int form, const std::string &sig)
{
    std::string tz = a && !a->tz.empty() ? a->tz : b ? b->tz : "";
    std::string r, name;
    name = (a ? a->s : fmt("%llu", (unsigned long long)from)) + ".." + (b ? b->s : fmt("%llu", (unsigned long long)to)) + (tz.empty() ? "" : "@" + tz) + fmt("#%d", form);
    Resp p;
    c.at(sig + ":" + name);
    if (form < 2)
    {
        r = "{\"start\":" + (a ? quoted(*a, form) : fmt("%llu", (unsigned long long)from)) + ",\"end\":" + (b ? quoted(*b, form) : fmt("%llu", (unsigned long long)to)) + ",\"msResolution\":true," +
            (tz.empty() ? "" : "\"tz\":\"" + tz + "\",") + "\"queries\":[{\"aggregator\":\"none\",\"metric\":\"" + db.metric + "\"}]}";
        p = query_post(r);
    }
    else
    {
        auto sp = [](const Expr *e, u64 x) { return e ? (e->get.empty() ? e->s : e->get) : fmt("%llu", (unsigned long long)x); };
        r = "start=" + sp(a, from) + "&end=" + sp(b, to) + (tz.empty() ? "" : "&tz=" + tz) + "&ms&m=none:" + db.metric;
        p = query_get(r);
    }
    c.eval(); c.transitions++;
    if (a || b) c.nt();
    std::vector<Series> v;
    std::vector<u64> want, got;
    for (auto i = db.pts.lower_bound(from); i != db.pts.end() && *i <= to; i++) want.push_back(db.ms ? *i : *i * 1000);
    bool ok = p.status == 200 && parse_series(p.body, v) && v.size() <= 1;
    if (ok && v.size()) for (auto &d : v[0].dps) got.push_back(d.first);
    c.outcome(fmt("%zu/%d", got.size(), p.status));
    if (!ok || got != want)
    {
        auto show = [](const std::vector<u64> &x) { std::string s = fmt("%zu points", x.size()); if (x.size()) s += fmt(" %llu..%llu", (unsigned long long)x[0], (unsigned long long)x.back()); return s; };
        c.violation(sig + ":" + name, fmt("%s: status %d, got %s, expected %s %s", r.c_str(), p.status, show(got).c_str(), show(want).c_str(), ok ? "" : p.body.substr(0, 120).c_str()));
    }
}

// every expression as start and as end, pairs of neighbours, all forms
static void all(Ctx &c, Db &db, const std::vector<Expr> &es, const std::string &sig)
{
    fill(db, es);
    c.states += es.size();
    for (auto &e : es) for (int form = 0; form < 3; form++)
    {
        if (form == 1 && !e.number) continue;
        u64 t = tick(e.at, db.ms);
        ask(c, db, &e, t, nullptr, t + 1, form, sig);
        ask(c, db, nullptr, t - 1, &e, t, form, sig);
        if (c.full()) return;
    }
    size_t step = es.size() > 60 ? es.size() / 60 : 1;
    if (c.thorough()) step = 1;
    for (size_t i = 0; i < es.size(); i += step) for (size_t j = 0; j < es.size(); j += step)
    {
        auto &a = es[i]; auto &b = es[j];
        if (a.at > b.at || a.tz != b.tz) continue;
        for (int form = 0; form < 3; form += 2) ask(c, db, &a, tick(a.at, db.ms), &b, tick(b.at, db.ms), form, sig);
        if (c.full()) return;
    }
}

static void rel(Ctx &c, i64 now, bool ms)
{
    Cfg cfg{1, 256, ms};
    set_clock_ms(now);
    db_start(c.dir + "/h", conf_of(cfg));
    struct U { const char *s; i64 ms; };
    const U us[] = {{"s", 1000}, {"sec", 1000}, {"S", 1000}, {"m", 60000}, {"min", 60000}, {"M", 60000}, {"h", 3600000}, {"hour", 3600000}, {"H", 3600000}, {"d", 86400000}, {"day", 86400000}, {"D", 86400000},
                    {"w", 604800000}, {"week", 604800000}, {"W", 604800000}, {"n", 2592000000ll}, {"month", 2592000000ll}, {"N", 2592000000ll}, {"y", 31536000000ll}, {"year", 31536000000ll}, {"Y", 31536000000ll}, {"ms", 1}};
    std::vector<int> ns = {1, 2, 3, 10, 23, 24, 25, 59, 60, 61, 90};
    if (c.thorough()) for (int n : {4, 5, 6, 7, 12, 29, 30, 31, 48, 99, 100, 119, 120, 365, 366, 1000}) ns.push_back(n);
    std::vector<Expr> es;
    i64 base = ms ? now : now / 1000 * 1000;
    for (auto &u : us) for (int n : ns)
    {
        i64 d = u.ms * n;
        int k = n;
        if (u.ms == 1 && !ms) { k *= 1000; d *= 1000; }     // whole ticks only
        if (d > 9000ll * 86400000) continue;
        es.push_back({fmt("%d%s-ago", k, u.s), base - d, ""});
        es.back().at += 0;
    }
    es.push_back({"0s-ago", base, ""});
    Db db{"rel", {}, ms};
    all(c, db, es, "rel");
    // no end: the range ends now
    for (int form = 0; form < 3; form += 2)
    {
        u64 t = tick(now, ms);
        for (u64 from : {t - 1, t})
        {
            Resp p = form == 0 ? query_post(fmt("{\"start\":%llu,\"msResolution\":true,\"queries\":[{\"aggregator\":\"none\",\"metric\":\"rel\"}]}", (unsigned long long)from)) : query_get(fmt("start=%llu&ms&m=none:rel", (unsigned long long)from));
            std::vector<Series> v;
            std::vector<u64> want, got;
            for (u64 x : db.pts) if (x >= from && x <= t) want.push_back(ms ? x : x * 1000);
            if (p.status == 200 && parse_series(p.body, v) && v.size()) for (auto &d : v[0].dps) got.push_back(d.first);
            c.eval(); c.nt();
            if (got != want) c.violation(fmt("noend:%llu#%d", (unsigned long long)(t - from), form), fmt("query without end from now-%llu: %zu points, expected %zu", (unsigned long long)(t - from), got.size(), want.size()));
        }
    }
    // before the epoch: everything
    for (auto s : {"60y-ago", "99y-ago", "800n-ago"}) for (int form = 0; form < 3; form += 2)
    {
        Expr e{s, 0, ""};
        ask(c, db, &e, 0, nullptr, *db.pts.begin() + 5, form, "epoch");
    }
    for (auto s : {"5x-ago", "5-ag5o", "3q-ago"}) for (int form = 0; form < 2; form++)
    {
        std::string t = s;
        Resp p = form ? query_get("start=" + t + "&m=none:rel") : query_post("{\"start\":\"" + t + "\",\"queries\":[{\"aggregator\":\"none\",\"metric\":\"rel\"}]}");
        c.eval();
        if (t != "5-ag5o" && p.status == 200) c.violation("badunit:" + t + fmt("#%d", form), "relative time with unknown unit answered: " + p.body.substr(0, 100));
    }
    db_stop();
}

struct Zone { const char *tz; int win, sum; };      // offsets east of UTC in minutes, winter and summer
static const Zone Z[] = {{"", 0, 0}, {"UTC", 0, 0}, {"UTC+1", 60, 60}, {"UTC-3", -180, -180}, {"EST5", -300, -300}, {"EST5EDT", -300, -240}, {"CET-1CEST", 60, 120}, {"XXX-5:30", 330, 330}, {"America/New_York", -300, -240}, {"Europe/Berlin", 60, 120}, {"Asia/Kolkata", 330, 330}, {"Asia/Tokyo", 540, 540}};

static void dates(Ctx &c, bool ms, int conf_zone, int part, int parts)
{
    Cfg cfg{1, 256, ms};
    set_clock_ms((days(2024, 9, 1) * 86400ll) * 1000);
    Conf f = conf_of(cfg);
    if (conf_zone) f["tsdb.timezone"] = Z[conf_zone].tz;
    db_start(c.dir + "/h", f);
    struct D { int y, m, d; };
    const D ds[] = {{2023, 1, 1}, {2023, 2, 28}, {2023, 3, 1}, {2023, 6, 15}, {2023, 12, 31}, {2024, 1, 1}, {2024, 2, 28}, {2024, 2, 29}, {2024, 3, 1}, {2024, 7, 4}, {2024, 8, 31}, {2000, 2, 29}, {2019, 5, 31}};
    const int ts[] = {0, 1, 59, 60, 3599, 5 * 3600 + 10 * 60 + 22, 43200, 86340, 86399};
    std::vector<Expr> es;
    size_t k = 0;
    for (size_t z = 0; z < sizeof Z / sizeof *Z; z++) for (auto &d : ds) for (int t : ts) for (int sep = 0; sep < 2; sep++) for (int len = 0; len < 3; len++)
    {
        if (len == 0 && (t != 0 || sep)) continue;
        if (len == 1 && t % 60) continue;
        if ((k++) % parts != (size_t)part) continue;
        size_t eff = *Z[z].tz ? z : conf_zone;
        int off = d.m >= 4 && d.m <= 9 ? Z[eff].sum : Z[eff].win;
        Expr e;
        e.s = fmt("%04d/%02d/%02d", d.y, d.m, d.d);
        if (len) e.s += (sep ? " " : "-") + fmt("%02d:%02d", t / 3600, t / 60 % 60);
        if (len == 2) e.s += fmt(":%02d", t % 60);
        e.at = (days(d.y, d.m, d.d) * 86400 + t - off * 60) * 1000;
        e.tz = Z[z].tz;
        if (sep || k % 2)
        {
            for (char ch : e.s) if (ch == ' ') e.get += "%20"; else if (ch == '/') e.get += "%2F"; else if (ch == ':') e.get += "%3A"; else e.get += ch;
        }
        es.push_back(e);
    }
    Db db{"dat", {}, ms};
    all(c, db, es, "date");
    db_stop();
}

static void absolute(Ctx &c, bool ms)
{
    Cfg cfg{1, 256, ms};
    set_clock_ms((days(2024, 9, 1) * 86400ll) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    std::vector<Expr> es;
    for (i64 s : {946684800ll, 999999999ll, 1000000000ll, 1699920000ll - 1, 1699920000ll, 1709251199ll, 1709251200ll, 1714564800ll}) for (int frac : {0, 1, 500, 999})
    {
        i64 at = s * 1000 + (ms ? frac : 0);
        if (!frac) es.push_back({fmt("%lld", (long long)s), at, "", true});
        es.push_back({fmt("%lld", (long long)(s * 1000 + frac)), at, "", true});
        es.push_back({fmt("%lld", (long long)(s * 1000 + frac) * 1000), at, "", true});
        es.push_back({fmt("%lld", (long long)(s * 1000 + frac) * 1000000), at, ""});      // a JSON number would lose digits
    }
    Db db{"abs", {}, ms};
    all(c, db, es, "abs");
    db_stop();
}

static void steps(Ctx &c, bool ms)
{
    Cfg cfg{1, 256, ms};
    i64 day0 = days(2023, 11, 14) * 86400;
    set_clock_ms((days(2024, 9, 1) * 86400ll) * 1000);
    db_start(c.dir + "/h", conf_of(cfg));
    struct U { const char *s; i64 ms; };
    const U us[] = {{"ms", 1}, {"s", 1000}, {"m", 60000}, {"h", 3600000}, {"d", 86400000}, {"w", 604800000}};
    std::vector<int> ns = {1, 2, 3, 5, 6, 7, 10, 12, 15, 24, 30, 45, 60, 61, 90, 100};
    if (c.thorough()) for (int n = 1; n <= 366; n++) ns.push_back(n);
    for (auto &u : us) for (int n : ns)
    {
        int k = n;
        i64 len = u.ms * n;
        if (u.ms == 1 && !ms) { k *= 1000; len *= 1000; }
        if (len > 90ll * 604800000) continue;
        u64 I = ms ? len : len / 1000;
        u64 e = (tick(day0 * 1000, ms) / I + 1) * I;        // an interval edge
        std::string m = fmt("st%d%s", k, u.s);
        std::set<u64> pts = {e - I, e - 1, e, e + 1, e + I - 1, e + I};
        if (I > 4) pts.insert(e + I / 2);
        std::string body;
        for (u64 t : pts) body += fmt("put %s %llu 1 k=v\n", m.c_str(), (unsigned long long)t);
        put_plain(body);
        std::map<u64, int> want;
        for (u64 t : pts) want[t / I * I]++;
        for (int form = 0; form < 2; form++)
        {
            std::string spec = fmt("%d%s", k, u.s);
            c.at("step:" + spec + fmt("#%d", form));
            Resp p = form == 0 ? query_post(fmt("{\"start\":%llu,\"end\":%llu,\"msResolution\":true,\"queries\":[{\"aggregator\":\"none\",\"metric\":\"%s\",\"downsample\":\"%s-count\",\"rollupUsage\":\"ROLLUP_RAW\"}]}", (unsigned long long)(e - I), (unsigned long long)(e + 2 * I - 1), m.c_str(), spec.c_str()))
                               : query_get(fmt("start=%llu&end=%llu&ms&m=none:%s-count:rollupUsage=ROLLUP_RAW:%s", (unsigned long long)(e - I), (unsigned long long)(e + 2 * I - 1), spec.c_str(), m.c_str()));
            std::vector<Series> v;
            std::map<u64, int> got;
            bool ok = p.status == 200 && parse_series(p.body, v) && v.size() == 1;
            if (ok) for (auto &d : v[0].dps) got[ms ? d.first : d.first / 1000] += (int)d.second;
            c.eval(); c.nt(); c.transitions++;
            c.outcome(fmt("%zu", got.size()));
            if (!ok || got != want)
            {
                std::string s;
                for (auto &x : got) s += fmt(" %llu:%d", (unsigned long long)x.first, x.second);
                s += " expected";
                for (auto &x : want) s += fmt(" %llu:%d", (unsigned long long)x.first, x.second);
                c.violation("step:" + spec + fmt("#%d", form), "intervals of " + spec + ": got" + s);
            }
        }
    }
    db_stop();
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    i64 clocks[] = {days(2024, 2, 29) * 86400000ll + 86399999, days(2024, 3, 1) * 86400000ll, days(2023, 12, 31) * 86400000ll + 86399000, days(2024, 1, 1) * 86400000ll + 500, days(2023, 11, 14) * 86400000ll + 45296789,
                    days(2024, 3, 31) * 86400000ll + 43200000, days(2023, 2, 28) * 86400000ll + 1, days(2024, 10, 27) * 86400000ll + 3600000};
    for (bool ms : {false, true})
    {
        for (i64 now : clocks) jobs.push_back({fmt("rel-%s-%lld", ms ? "ms" : "s", (long long)now), [=](Ctx &c) { rel(c, now, ms); }});
        for (int z : {0, 3, 5}) for (int p = 0; p < 2; p++) jobs.push_back({fmt("date-%s-z%d-%d", ms ? "ms" : "s", z, p), [=](Ctx &c) { dates(c, ms, z, p, 2); }});
        jobs.push_back({fmt("abs-%s", ms ? "ms" : "s"), [=](Ctx &c) { absolute(c, ms); }});
        jobs.push_back({fmt("step-%s", ms ? "ms" : "s"), [=](Ctx &c) { steps(c, ms); }});
    }
}
