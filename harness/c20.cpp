// C20: lookups and suggestions list exactly the existing series, metrics and tags.
#include "cfg.h"
#include "qmodel.h"
using namespace vh;

const char *vh::g_rule =
    "hist: every ordered choice of up to 3 (thorough 4) of 8 series creations (plain, JSON, line protocol; repeated names across metrics, keys and values) with a restart after any subset of them; after each step every "
    "suggestion (type x prefix x max) and every lookup (metric x tag filter x limit x startIndex) is compared with the set of series written so far; page: one metric with 40 series, all limits and start indices; "
    "big: answers larger than the response buffer. Non-trivial = at least two series exist";

struct Mk { const char *metric; Tags tags; int how; std::vector<std::string> fields; };
static const std::vector<Mk> WS = {
    {"cpu", {{"h", "a"}}, 0, {}},
    {"cpu", {{"h", "ab"}, {"dc", "a"}}, 1, {}},
    {"cpu.load", {{"host", "a"}}, 0, {}},
    {"mem", {}, 0, {}},
    {"mem", {{"h", "a"}, {"cpu", "h"}}, 2, {"x", "used"}},
    {"cp", {{"h", "b"}}, 2, {"x"}},
    {"Mem", {{"h", "ab"}}, 1, {}},
    {"cpu", {{"dc", "b"}, {"h", "a"}}, 0, {}},
};

static void write_one(const Mk &w, int n, std::vector<MSeries> &db)
{
    unsigned long long t = BASE + 3600 + n;
    if (w.how == 2)
    {
        std::string l = w.metric;
        for (auto &kv : w.tags) l += "," + kv.first + "=" + kv.second;
        l += " ";
        for (size_t i = 0; i < w.fields.size(); i++) l += (i ? "," : "") + w.fields[i] + "=1";
        put_line(l + fmt(" %llu\n", t));
        for (auto &f : w.fields) { MSeries s; s.metric = w.metric; s.tags = w.tags; s.tags["_field"] = f; db.push_back(s); }
        return;
    }
    if (w.how == 1)
    {
        std::string j = fmt("[{\"metric\":\"%s\",\"timestamp\":%llu,\"value\":1,\"tags\":{", w.metric, t);
        bool first = true;
        for (auto &kv : w.tags) { j += fmt("%s\"%s\":\"%s\"", first ? "" : ",", kv.first.c_str(), kv.second.c_str()); first = false; }
        put_json(j + "}}]");
    }
    else put_plain(put_line_of(w.metric, w.tags, t, 1));
    MSeries s;
    s.metric = w.metric;
    s.tags = w.tags;
    db.push_back(s);
}

static void suggestions(Ctx &c, const std::vector<MSeries> &db, const std::string &sig)
{
    for (auto type : {"metrics", "tagk", "tagv"})
        for (auto q : {"", "c", "cp", "cpu", "cpu.", "m", "M", "h", "ho", "d", "a", "ab", "x", "u", "zz", "*"})
            for (auto mx : {"", "1", "2", "3", "1000", "0"})
            {
                std::set<std::string> want;
                for (auto &s : db)
                {
                    auto add = [&](const std::string &x) { if ((!strcmp(type, "metrics") && !strcmp(q, "*")) || x.compare(0, strlen(q), q) == 0) want.insert(x); };
                    if (!strcmp(type, "metrics")) add(s.metric);
                    else for (auto &kv : s.tags) add(!strcmp(type, "tagk") ? kv.first : kv.second);
                }
                std::string p = fmt("type=%s&q=%s", type, q) + (*mx ? fmt("&max=%s", mx) : "");
                c.at(sig + "?" + p);
                Resp r = get("/api/suggest", p);
                c.eval(); c.transitions++;
                if (db.size() > 1) c.nt();
                c.outcome(r.body);
                J j;
                if (r.status != 200 || !parse_json(r.body, j) || j.t != J::ARR) { c.violation(sig + "?" + p, fmt("suggest?%s: status %d body %s", p.c_str(), r.status, r.body.substr(0, 200).c_str())); continue; }
                std::set<std::string> got;
                for (auto &x : j.a) got.insert(x.s);
                size_t lim = *mx ? atoi(mx) : 1000;
                bool ok = got.size() == j.a.size() && got.size() == std::min(lim, want.size());
                for (auto &x : got) ok &= want.count(x) > 0;
                if (!ok) c.violation(sig + "?" + p, fmt("suggest?%s: got %s, known names: ", p.c_str(), r.body.substr(0, 200).c_str()) + [&] { std::string s; for (auto &x : want) s += x + " "; return s; }());
            }
}

static std::string skey(const MSeries &s) { std::string k = s.metric; for (auto &kv : s.tags) k += "," + kv.first + "=" + kv.second; return k; }

// returns the keys in the answer, empty string in err when well formed
static std::vector<std::string> lookup(const std::string &m, const std::string &extra, std::string &err, int &total, size_t &tagn)
{
    std::vector<std::string> out;
    Resp r = get("/api/search/lookup", "m=" + url_escape(m) + extra);
    total = 0;
    if (r.status == 400 && r.body.find("not found") != std::string::npos) return out;
    J j;
    if (r.status != 200 || !parse_json(r.body, j) || !j.get("results") || !j.get("totalResults") || !j.get("tags") || !j.get("metric")) { err = fmt("status %d body %s", r.status, r.body.substr(0, 300).c_str()); return out; }
    total = j.get("totalResults")->n;
    tagn = j.get("tags")->a.size();
    std::set<std::string> ids;
    for (auto &x : j.get("results")->a)
    {
        MSeries s;
        if (!x.get("metric") || !x.get("tags") || !x.get("tsuid")) { err = "incomplete result " + r.body.substr(0, 300); return out; }
        s.metric = x.get("metric")->s;
        for (auto &kv : x.get("tags")->o) s.tags[kv.first] = kv.second.s;
        out.push_back(skey(s));
        if (!ids.insert(x.get("tsuid")->s).second) { err = "tsuid twice " + r.body.substr(0, 300); return out; }
    }
    return out;
}

static void lookups(Ctx &c, const std::vector<MSeries> &db, const std::string &sig)
{
    for (auto m : {"cpu", "cpu.load", "mem", "Mem", "cp", "nope"})
        for (auto &f : std::vector<std::vector<MFilter>>{{}, {{"h", "a"}}, {{"h", "*"}}, {{"dc", "*"}, {"h", "a"}}, {{"h", "a*"}}, {{"h", "b|ab"}}, {{"_field", "x"}}, {{"zz", "*"}}})
            for (int quoted = 0; quoted < 2; quoted++)
            {
                if (quoted && f.empty()) continue;
                MQuery q;
                q.metric = m;
                q.filters = f;
                std::set<std::string> want;
                for (auto &s : db) if (selects(q, s)) want.insert(skey(s));
                std::string ms = m, qu = quoted ? "\"" : "";
                for (size_t i = 0; i < f.size(); i++) ms += (i ? "," : "{") + qu + f[i].key + qu + "=" + qu + f[i].pat + qu;
                if (!f.empty()) ms += "}";
                c.at(sig + "?m=" + ms);
                std::string err;
                int total;
                size_t tn = 0;
                auto got = lookup(ms, "&limit=100", err, total, tn);
                c.eval(); c.transitions++;
                if (db.size() > 1) c.nt();
                std::set<std::string> gs(got.begin(), got.end());
                if (err.empty() && (gs != want || gs.size() != got.size() || total != (int)want.size() || (total && tn != f.size())))
                {
                    err = fmt("total %d, got ", total);
                    for (auto &x : got) err += x + " ";
                    err += "want ";
                    for (auto &x : want) err += x + " ";
                }
                std::string all;
                for (auto &x : gs) all += x + " ";
                c.outcome(ms + all);
                if (!err.empty()) c.violation(sig + "?m=" + ms, "lookup " + ms + ": " + err);
            }
}

static void hist(Ctx &c, int first)
{
    int maxn = c.thorough() ? 4 : 3;
    std::vector<std::vector<int>> seqs;
    std::function<void(std::vector<int>)> rec = [&](std::vector<int> s) {
        seqs.push_back(s);
        if ((int)s.size() >= maxn) return;
        for (int k = 0; k < (int)WS.size(); k++) if (std::find(s.begin(), s.end(), k) == s.end()) { auto t = s; t.push_back(k); rec(t); }
    };
    rec({first});
    int n = 0;
    for (auto &s : seqs)
    {
        if ((int)s.size() < maxn) continue;      // prefixes are checked on the way
        for (int rs = 0; rs < (1 << s.size()); rs++)
        {
            std::string name = "h", home = c.dir + fmt("/h%d", n++);
            for (int k : s) name += fmt("%d", k);
            name += fmt("r%d", rs);
            std::vector<MSeries> db;
            size_t i = 0;
            while (i < s.size())
            {
                size_t from = i, to = from;
                while (to < s.size()) { to++; if (rs >> (to - 1) & 1) break; }
                bool more = to == s.size() && (rs >> (to - 1) & 1);
                c.at(name);
                if (!phase(c, name, [&](Ctx &x) {
                    set_clock_ms((BASE + 7200) * 1000);
                    db_start(home, conf_of(Cfg{1, 128, false}));
                    if (from) { suggestions(x, db, name + "-start"); lookups(x, db, name + "-start"); }
                    std::vector<MSeries> d2 = db;
                    for (size_t k = from; k < to; k++)
                    {
                        write_one(WS[s[k]], k, d2);
                        if (rs == 0 || k + 1 == to) { suggestions(x, d2, name + fmt("-%zu", k)); lookups(x, d2, name + fmt("-%zu", k)); }
                    }
                    db_stop();
                })) break;
                {
                    // same in this process, for the model only
                    for (size_t k = from; k < to; k++)
                    {
                        const Mk &w = WS[s[k]];
                        if (w.how == 2) for (auto &f : w.fields) { MSeries m; m.metric = w.metric; m.tags = w.tags; m.tags["_field"] = f; db.push_back(m); }
                        else { MSeries m; m.metric = w.metric; m.tags = w.tags; db.push_back(m); }
                    }
                }
                i = to;
                if (more)
                    phase(c, name, [&](Ctx &x) {
                        set_clock_ms((BASE + 7200) * 1000);
                        db_start(home, conf_of(Cfg{1, 128, false}));
                        suggestions(x, db, name + "-end"); lookups(x, db, name + "-end");
                        db_stop();
                    });
            }
            c.states++;
            remove_tree(home);
            if (c.full()) return;
        }
    }
    c.sample(fmt("%zu histories starting with series %d", seqs.size(), first));
}

static void page(Ctx &c)
{
    set_clock_ms((BASE + 7200) * 1000);
    db_start(c.dir + "/h", conf_of(Cfg{1, 128, false}));
    std::set<std::string> want, half;
    for (int i = 0; i < 40; i++)
    {
        Tags t{{"h", fmt("%d", i)}, {"g", i % 2 ? "a" : "b"}};
        put_plain(put_line_of("pg", t, BASE + 3600, i));
        MSeries s;
        s.metric = "pg"; s.tags = t;
        want.insert(skey(s));
        if (i % 2) half.insert(skey(s));
    }
    for (auto &w : {want, half}) for (int limit = -1; limit <= 42; limit++) for (int idx = 0; idx <= 42; idx++)
    {
        std::string err, extra = (limit < 0 ? "" : fmt("&limit=%d", limit)) + (idx ? fmt("&startIndex=%d", idx) : ""), m = w.size() == 40 ? "pg" : "pg{g=a}";
        int total;
        size_t tn = 0;
        c.at(m + extra);
        auto got = lookup(m, extra, err, total, tn);
        c.eval(); c.transitions++; c.nt();
        size_t lim = limit < 0 ? 25 : limit, left = idx >= (int)w.size() ? 0 : w.size() - idx;
        std::set<std::string> gs(got.begin(), got.end());
        if (err.empty())
        {
            if (got.size() != std::min(lim, left) || gs.size() != got.size() || total != (int)w.size()) err = fmt("%zu results (%zu distinct) of %d, expected %zu of %zu", got.size(), gs.size(), total, std::min(lim, left), w.size());
            for (auto &x : gs) if (!w.count(x)) err = "unexpected series " + x;
        }
        c.outcome(fmt("%zu/%d", got.size(), total));
        if (!err.empty()) c.violation(m + extra, "lookup " + m + extra + ": " + err);
        // the pages of one listing together are the listing
        if (limit > 0 && idx == 0)
        {
            std::multiset<std::string> u;
            for (int i = 0; i < (int)w.size(); i += limit) { std::string e2; for (auto &x : lookup(m, fmt("&limit=%d&startIndex=%d", limit, i), e2, total, tn)) u.insert(x); }
            c.eval();
            if (std::set<std::string>(u.begin(), u.end()) != w || u.size() != w.size()) c.violation(m + extra + "+", fmt("pages of %d of %s list %zu series, expected %zu", limit, m.c_str(), u.size(), w.size()));
        }
        if (c.full()) break;
    }
    c.states += 40;
    db_stop();
}

static void big(Ctx &c)
{
    // a small response buffer; long names
    set_clock_ms((BASE + 7200) * 1000);
    Conf f = conf_of(Cfg{1, 128, false});
    f["tcp.buffer.size"] = "32kb";
    db_start(c.dir + "/h", f);
    std::string pad(100, 'x');
    int n = 0;
    for (int i = 0; i < 200; i++)
    {
        Resp w = put_plain(put_line_of("big", Tags{{"h", fmt("%d", i) + pad}, {"g" + fmt("%d", i % 40), pad}}, BASE + 3600, i));
        n++;
        if (i < 60 || i % 5 == 0)
            for (int limit : {1, 25, 50, 100, 200, 1000})
            {
                std::string err;
                int total;
                size_t tn = 0;
                std::string sig = fmt("big/%d/%d", i, limit);
                c.at(sig);
                auto got = lookup("big", fmt("&limit=%d", limit), err, total, tn);
                c.eval(); c.transitions++; c.nt();
                c.outcome(fmt("%zu", got.size()));
                // refusing is all right, a wrong answer is not
                bool refused = err.compare(0, 10, "status 413") == 0 || err.compare(0, 9, "status 50") == 0;
                if (!err.empty() && !refused) c.violation(sig, "lookup: " + err);
                else if (err.empty() && (got.size() != (size_t)std::min(limit, n) || total != n)) c.violation(sig, fmt("lookup lists %zu of %d, expected %d of %d", got.size(), total, std::min(limit, n), n));
                if (refused && limit == 1) c.violation(sig, "one series does not fit in the answer: " + err);
                Resp r = get("/api/suggest", fmt("type=tagv&q=&max=%d", limit));
                J j;
                c.eval();
                bool ok = r.status == 413 || r.status / 100 == 5 || (r.status == 200 && parse_json(r.body, j) && (int)j.a.size() == std::min(limit, n + 1));
                if (!ok) c.violation(sig + "/tagv", fmt("suggest: status %d, %zu bytes, ends with %s", r.status, r.body.size(), r.body.substr(r.body.size() > 60 ? r.body.size() - 60 : 0).c_str()));
                if (c.full()) goto end;
            }
    }
end:
    db_stop();
}

void vh::list_jobs(const std::string &, std::vector<Job> &jobs)
{
    jobs.push_back({"page", [](Ctx &c) { page(c); }});
    jobs.push_back({"big", [](Ctx &c) { big(c); }});
    for (int f = 0; f < (int)WS.size(); f++) jobs.push_back({fmt("hist/%d", f), [=](Ctx &c) { hist(c, f); }});
}
