// C11: tag filters select exactly the matching series.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "rich: 60 series over awkward tag values (case variants, prefixes of each other, dots) x every pair of filters of the alphabets x explicit tags x request form; seq: every ordered choice of up to 3 of 8 tag sets as the "
    "series of one metric (written as lines or as line-protocol fields), x filter x explicit tags; both before and after a restart. Non-trivial = the filter selects some but not all series";

static void check_all(Ctx &c, const std::vector<MSeries> &db, const std::vector<std::vector<MFilter>> &filters, bool ms, const std::string &tag, const char *agg = "none", int forms = 3)
{
    size_t n = 0;
    for (auto &f : filters) for (int ex = 0; ex < 2; ex++) for (int form = 0; form < forms; form++)
    {
        if (ex && (form == 0 || f.empty())) continue;     // POST has no such option; without a filter it has no meaning
        MQuery q;
        q.metric = db[0].metric;
        q.filters = f;
        q.explicit_tags = ex;
        q.agg = agg;
        q.ms = ms;
        q.from = T(BASE, ms); q.to = T(BASE + DAY, ms);
        q.start = fmt("%llu", (unsigned long long)q.from);
        q.end = fmt("%llu", (unsigned long long)q.to);
        std::string fs;
        for (auto &x : f) fs += x.key + "=" + x.pat + ",";
        std::string sig = tag + "/" + q.metric + "{" + fs + fmt("}%d%d", ex, form), out;
        c.at(sig);
        std::string d = q_check(q, db, ms, form, &out);
        c.eval(); c.transitions++;
        c.outcome(fmt("%zu ", n) + out);
        size_t k = 0;
        for (auto &s : db) k += selects(q, s);
        if (k && k < db.size()) c.nt();
        if (form) c.sample("GET " + q_get(q, form == 2));
        if (!d.empty()) c.violation(sig, d);
        if (c.full()) return;
        n++;
    }
    c.states += db.size();
}

static std::string line_of(const MSeries &s)
{
    std::string o;
    for (auto &p : s.pts) o += put_line_of(s.metric, s.tags, p.first, p.second);
    return o;
}

static void rich(Ctx &c, bool ms, int part, int parts)
{
    Cfg cfg{1, 128, ms};
    set_clock_ms((BASE + DAY) * 1000);
    std::string home = c.dir + "/h";
    std::vector<MSeries> db;
    std::vector<std::string> H = {"", "a", "A", "ab", "aB", "b", "B", "a.b", "axb", "abc", "ba", "a-b_c/d", "a+b", "aab", "1", "10", "true", "falsey"}, D = {"", "1", "2", "12"};
    u64 t = T(BASE + 3600, ms);
    for (auto &h : H) for (auto &d : D)
    {
        MSeries s;
        s.metric = "fr";
        if (!h.empty()) s.tags["h"] = h;
        if (!d.empty()) s.tags["d"] = d;
        s.pts[t + db.size()] = db.size();
        db.push_back(s);
    }
    for (auto k : {"hh", "host", "H"})
    {
        MSeries s;
        s.metric = "fr";
        s.tags[k] = "a";
        s.tags["d"] = "1";
        s.pts[t + db.size()] = db.size();
        db.push_back(s);
    }
    MSeries other;
    other.metric = "frr";
    other.tags["h"] = "a";
    other.pts[t] = 77;
    db.push_back(other);
    other.metric = "f";
    db.push_back(other);
    std::vector<std::string> HF = {"", "wildcard(a+*)", "iwildcard(A+*)", "a+*", "wildcard(*+b)", "wildcard(a.b)", "wildcard(*.*)", "a", "A", "ab", "a.b", "zz", "*", "a*", "A*", "ab*", "a.*", "1*", "a|b", "b|a.b", "zz|b", "a|zz|aab|1", "a+b", "a+b|b",
        "literal_or(a)", "literal_or(a|B)", "literal_or(a.b|zz)", "literal_or(a+b|1)", "iliteral_or(a)", "iliteral_or(AB|b)", "iliteral_or(A.B)", "not_literal_or(a)", "not_literal_or(a|ab|1)", "not_literal_or(a.b)",
        "not_iliteral_or(a)", "not_iliteral_or(AB|10)", "not_iliteral_or(A.B)", "wildcard(*)", "wildcard(a*)", "wildcard(*b)", "wildcard(*a*b*)", "wildcard(a.*)", "wildcard(a*b)", "iwildcard(A*)", "iwildcard(*B)", "iwildcard(a.B)",
        "regexp(a.*)", "regexp(.*b)", "regexp(a.b)", "regexp([ab]*)", "regexp(a[.]b)", "regexp([0-9]*)", "regexp(ab)", "true", "true*", "falsey", "false*", "falsey|true"};
    std::vector<std::vector<MFilter>> DF = {{}, {{"d", "1"}}, {{"d", "*"}}, {{"d", "2|12"}}, {{"d", "1*"}}, {{"d", "not_literal_or(1)"}}, {{"zz", "*"}}, {{"zz", "1"}}, {{"hh", "a"}}};
    std::vector<std::vector<MFilter>> filters;
    int k = 0;
    for (auto &h : HF) for (auto &d : DF)
    {
        if (k++ % parts != part) continue;
        std::vector<MFilter> f = d;
        if (!h.empty()) f.push_back({"h", h});
        if (k % 2) std::reverse(f.begin(), f.end());
        filters.push_back(f);
    }
    set_clock_ms((BASE + DAY) * 1000);
    for (int ph = 0; ph < 2; ph++)
        phase(c, fmt("ph%d", ph), [&](Ctx &x) {
            set_clock_ms((BASE + DAY) * 1000);
            db_start(home, conf_of(cfg));
            if (ph == 0) { std::string body; for (auto &s : db) body += line_of(s); put_plain(body); }
            check_all(x, db, filters, ms, fmt("ph%d", ph));
            db_stop();
        });
    c.states += db.size();
}

// sequences of series creations; the lookup has a shortcut that depends on what the metric has seen so far
static void seq(Ctx &c, int how, int part, int parts)
{
    // how: 0 lines, 1 line protocol (fields), 2 fields and lines alternating
    Cfg cfg{2, 128, false};
    std::string home = c.dir + "/h";
    std::vector<Tags> combos = {{}, {{"h", "1"}}, {{"h", "2"}}, {{"d", "1"}}, {{"h", "1"}, {"d", "1"}}, {{"h", "1"}, {"d", "2"}}, {{"d", "1"}, {"k", "1"}}, {{"d", "1"}, {"h", "1"}, {"k", "1"}}};
    std::vector<std::vector<int>> seqs;
    for (int a = 0; a < 8; a++)
    {
        seqs.push_back({a});
        for (int b = 0; b < 8; b++) if (b != a) { seqs.push_back({a, b}); for (int d = 0; d < 8; d++) if (d != a && d != b) seqs.push_back({a, b, d}); }
    }
    std::vector<std::vector<MFilter>> filters;
    std::vector<std::vector<MFilter>> hs = {{}, {{"h", "1"}}, {{"h", "*"}}, {{"h", "1|2"}}}, ds = {{}, {{"d", "1"}}, {{"d", "*"}}, {{"d", "2"}}}, ks = {{}, {{"k", "1"}}}, fs = {{}, {{"_field", "x"}}, {{"_field", "*"}}};
    for (auto &a : hs) for (auto &b : ds) for (auto &d : ks) for (auto &e : fs)
    {
        if (!how && !e.empty()) continue;
        std::vector<MFilter> f;
        for (auto *v : {&a, &b, &d, &e}) f.insert(f.end(), v->begin(), v->end());
        filters.push_back(f);
    }
    auto dbs = [&]() {
        std::vector<std::vector<MSeries>> all;
        for (size_t i = 0; i < seqs.size(); i++)
        {
            if ((int)(i % parts) != part) continue;
            std::vector<MSeries> db;
            for (size_t k = 0; k < seqs[i].size(); k++)
            {
                bool fields = how == 1 || (how == 2 && k % 2 == 0);
                for (auto f : fields ? std::vector<std::string>{"x", "y"} : std::vector<std::string>{""})
                {
                    MSeries s;
                    s.metric = fmt("q%zu", i);
                    s.tags = combos[seqs[i][k]];
                    if (fields) s.tags["_field"] = f;
                    s.pts[BASE + 3600 + k] = k * 10 + (f == "y");
                    db.push_back(s);
                }
            }
            all.push_back(db);
        }
        return all;
    }();
    for (int ph = 0; ph < 2; ph++)
        phase(c, fmt("ph%d", ph), [&](Ctx &x) {
            set_clock_ms((BASE + DAY) * 1000);
            db_start(home, conf_of(cfg));
            if (ph == 0)
                for (auto &db : dbs)
                    for (size_t k = 0; k < db.size(); k++)
                    {
                        if (!db[k].tags.count("_field")) { put_plain(line_of(db[k])); continue; }
                        std::string l = db[k].metric;
                        for (auto &kv : db[k].tags) if (kv.first != "_field") l += "," + kv.first + "=" + kv.second;
                        l += fmt(" x=%s,y=%s %llu\n", num(db[k].pts.begin()->second).c_str(), num(db[k + 1].pts.begin()->second).c_str(), (unsigned long long)db[k].pts.begin()->first);
                        Resp w = put_line(l);
                        if (w.status / 100 != 2) { x.violation("write", l + fmt("-> %d", w.status)); return; }
                        k++;
                    }
            for (auto &db : dbs) { check_all(x, db, filters, false, fmt("ph%d", ph), "none", 2); if (x.full()) break; }
            db_stop();
        });
    c.states += dbs.size();
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    for (bool ms : {false, true}) for (int p = 0; p < 2; p++) jobs.push_back({fmt("rich/%s/%d", ms ? "ms" : "s", p), [=](Ctx &c) { rich(c, ms, p, 2); }});
    for (int how = 0; how < 3; how++) for (int p = 0; p < 3; p++) jobs.push_back({fmt("seq/%s/%d", how == 0 ? "lines" : how == 1 ? "fields" : "mixed", p), [=](Ctx &c) { seq(c, how, p, 3); }});
}
