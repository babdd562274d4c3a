// C13: the response to a write tells what was stored; malformed input harms nothing else.
#include "cfg.h"
#include "qmodel.h"
#include <set>
using namespace vh;

const char *vh::g_rule =
    "plain/line/json batches: all sequences of one to three (thorough: four) items over an alphabet of valid, malformed, ignorable and leniently spelled items, in every terminator style (LF, CRLF, last line unterminated; JSON: single object, array, array with spaces, newline-separated); "
    "cut: every truncation of valid one-, two- and three-item requests; flip: every byte of them replaced by each of 20 bytes, deleted or doubled; every request is sent in a buffer that still holds earlier requests behind its end. "
    "Each request uses a metric of its own whose stored points are compared with a reference reading of the request; at the end the list of metrics must contain nothing else. Non-trivial = contains at least one item that is not a valid point";

// a stored point: series tags -> timestamp -> value
typedef std::map<std::string, std::map<u64, double>> Pts;
static std::string tkey(const Tags &t) { std::string k; for (auto &kv : t) k += kv.first + "=" + kv.second + ","; return k; }

enum V { VALID, BAD, SKIP, LENIENT };
struct Item { V v; Pts p; };      // p: what it stores when accepted

static const u64 NOW = BASE + 7200;
static const u64 FAR = 4102444800ull;     // later times are not asked for

static bool word(const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isalnum(c) && !strchr("._-/", c)) return false; return true; }
static bool digits(const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isdigit(c)) return false; return true; }
// 0 = not a number at all, 1 = plain decimal number, 2 = some other spelling of a number
static int number(const std::string &s, double &v)
{
    if (s.empty()) return 0;
    char *e;
    v = strtod(s.c_str(), &e);
    if (*e == 0 && !isspace(s[0]) && s.size() == strlen(s.c_str()))
    {
        size_t i = s[0] == '-';
        bool dig = false, plain = i < s.size() && isdigit(s[i]);
        for (; i < s.size(); i++) { if (isdigit(s[i])) dig = true; else if (s[i] == '.' || ((s[i] == 'e') && dig) || s[i] == '-' ) ; else plain = false; }
        return plain && dig && s.back() != '.' ? 1 : 2;
    }
    if (s[0] == '"') return 2;
    return 0;
}

static std::vector<std::string> cutup(const std::string &s, char d)
{
    std::vector<std::string> v(1);
    for (char c : s) if (c == d) v.emplace_back(); else v.back() += c;
    return v;
}

// the reference reading of one line of the plain format (terminator removed)
static Item plain_item(std::string l, const std::string &metric)
{
    Item it{BAD, {}};
    while (!l.empty() && isspace(l[0])) { l.erase(0, 1); }
    if (l.empty()) { it.v = SKIP; return it; }
    if (l.find('\0') != std::string::npos) { it.v = LENIENT; return it; }
    if (l.compare(0, 4, "put ") != 0) { it.v = SKIP; return it; }
    if (l.find_first_of("\r\t\v\f\\\"") != std::string::npos) { it.v = LENIENT; if (l.find('"') == std::string::npos) return it; }
    bool odd = it.v == LENIENT;
    std::vector<std::string> w;
    for (auto &x : cutup(l.substr(4), ' ')) { if (x.empty()) odd = true; else w.push_back(x); }
    if (w.size() < 3) { it.v = odd && it.v == LENIENT ? LENIENT : BAD; return it; }
    double v = 0;
    int nv = number(w[2], v);
    bool tsok = digits(w[1]);
    if (!tsok) { it.v = isdigit(w[1][0]) || w[1][0] == '"' || odd ? LENIENT : BAD; if (it.v == LENIENT && (w[1].find_first_not_of("0123456789.\"") != std::string::npos) && it.p.empty() && !odd) it.v = BAD; return it; }
    if (!nv) { it.v = odd ? LENIENT : BAD; return it; }
    if (nv == 2 || w[1].size() != 10 || strtoull(w[1].c_str(), nullptr, 10) >= FAR) odd = true;
    if (!word(w[0]) || w[0] != metric) odd = true;
    Tags t;
    for (size_t i = 3; i < w.size(); i++)
    {
        size_t e = w[i].find('=');
        if (e == std::string::npos) { it.v = w[i].find_first_of(",;") != std::string::npos ? LENIENT : BAD; return it; }
        std::string k = w[i].substr(0, e), x = w[i].substr(e + 1);
        if (!word(k) || !word(x) || t.count(k)) odd = true;
        t[k] = x;
    }
    it.v = odd ? LENIENT : VALID;
    if (!odd) it.p[tkey(t)][strtoull(w[1].c_str(), nullptr, 10)] = v;
    return it;
}

// the same for the line protocol
static Item line_item(std::string l, const std::string &metric)
{
    Item it{BAD, {}};
    while (!l.empty() && isspace(l[0])) l.erase(0, 1);
    if (l.empty() || l[0] == '#') { it.v = SKIP; return it; }
    if (l.compare(0, 4, "_cp ") == 0 || l.find_first_of(std::string("\0\r\t\v\f\\\"", 7)) != std::string::npos) { it.v = LENIENT; return it; }
    bool odd = false;
    std::vector<std::string> w;
    for (auto &x : cutup(l, ' ')) { if (x.empty()) odd = true; else w.push_back(x); }
    if (w.size() < 2) return it;
    if (w.size() > 3) return it;
    u64 ts = NOW;
    if (w.size() == 3)
    {
        if (!digits(w[2])) return it;
        if (w[2].size() != 10 || strtoull(w[2].c_str(), nullptr, 10) >= FAR) odd = true;
        ts = strtoull(w[2].c_str(), nullptr, 10);
    }
    Tags t;
    auto mt = cutup(w[0], ',');
    if (mt[0].empty()) return it;
    if (mt[0] != metric) odd = true;
    for (size_t i = 1; i < mt.size(); i++)
    {
        if (mt[i].empty()) { odd = true; continue; }
        size_t e = mt[i].find('=');
        if (e == std::string::npos) return it;
        std::string k = mt[i].substr(0, e), x = mt[i].substr(e + 1);
        if (!word(k) || !word(x) || t.count(k)) odd = true;
        t[k] = x;
    }
    std::set<std::string> seen;
    for (auto &f : cutup(w[1], ','))
    {
        size_t e = f.find('=');
        if (e == std::string::npos || e == 0) return it;
        std::string k = f.substr(0, e), x = f.substr(e + 1);
        if (!word(k) || !seen.insert(k).second) odd = true;
        double v = 0;
        int n = number(x, v);
        if (!n && x.size() > 1 && (x.back() == 'i' || x.back() == 'u')) { n = number(x.substr(0, x.size() - 1), v) ? 2 : 0; }
        if (!n) return it;
        if (n == 2) odd = true;
        Tags tt = t;
        if (k == "_") odd = true;
        tt["_field"] = k;
        it.p[tkey(tt)][ts] = v;
    }
    it.v = odd ? LENIENT : VALID;
    if (odd) it.p.clear();
    return it;
}

static Item json_item(const J &j, const std::string &metric)
{
    Item it{BAD, {}};
    if (j.t != J::OBJ) return it;
    const J *m = j.get("metric"), *t = j.get("timestamp"), *v = j.get("value"), *g = j.get("tags");
    if (!m || !t || !v) return it;
    std::set<std::string> keys;
    bool odd = !g;
    for (auto &kv : j.o) if (!keys.insert(kv.first).second || (kv.first != "metric" && kv.first != "timestamp" && kv.first != "value" && kv.first != "tags")) odd = true;
    if (m->t != J::STR || m->s.empty()) return it;
    if (m->s != metric) odd = true;
    if (t->t != J::NUM) { if (t->t != J::STR || t->s.empty() || !isdigit(t->s[0])) return it; odd = true; }
    if (v->t != J::NUM) { double d; if (v->t != J::STR || !number(v->s, d)) return it; odd = true; }
    if (t->t == J::NUM && (t->n < 1000000000 || t->n >= FAR || t->n != floor(t->n))) odd = true;
    Tags tt;
    if (g)
    {
        if (g->t != J::OBJ) return it;
        for (auto &kv : g->o)
        {
            if (kv.second.t != J::STR || !word(kv.first) || !word(kv.second.s) || tt.count(kv.first)) odd = true;
            tt[kv.first] = kv.second.s;
        }
    }
    it.v = odd ? LENIENT : VALID;
    if (!odd) it.p[tkey(tt)][(u64)t->n] = v->n;
    return it;
}

enum F { PLAIN, LINE, JSON };
static const char *FN[] = {"plain", "line", "json"};

static std::string show(const Pts &p)
{
    std::string s;
    for (auto &x : p) s += "{" + x.first + "}" + dps_str(DPS(x.second.begin(), x.second.end())) + " ";
    return s;
}
static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += c;
    return o;
}

static bool covers(const Pts &big, const Pts &small)
{
    for (auto &x : small) for (auto &y : x.second)
    {
        auto a = big.find(x.first);
        if (a == big.end()) return false;
        auto b = a->second.find(y.first);
        if (b == a->second.end() || !close_to(b->second, y.second, 1e-9)) return false;
    }
    return true;
}
static size_t count(const Pts &p) { size_t n = 0; for (auto &x : p) n += x.second.size(); return n; }
static void add(Pts &a, const Pts &b) { for (auto &x : b) for (auto &y : x.second) a[x.first][y.first] = y.second; }

static size_t g_n;
static std::set<std::string> g_names;

// sends one request and judges the response and what is stored; mk gets the metric name to use
static void judge(Ctx &c, F f, const std::string &body, const std::string &m, const std::string &sig)
{
    if (c.full()) return;
    c.at(sig + " " + esc(body));
    c.eval(); c.transitions++;
    g_names.insert(m);
    std::vector<Item> items;
    bool loose = false;             // a JSON text that is not JSON: where it goes wrong is not defined
    if (f == JSON)
    {
        J j;
        if (body.find('\0') == std::string::npos && parse_json(body, j) && (j.t == J::OBJ || j.t == J::ARR))
        {
            if (j.t == J::OBJ) items.push_back(json_item(j, m));
            else for (auto &x : j.a) items.push_back(json_item(x, m));
        }
        else loose = true;
    }
    else if (size_t k = body.find_first_not_of(" \n\r\t"); f == PLAIN && k != std::string::npos && (body[k] == '{' || body[k] == '[')) loose = true;     // taken as JSON
    else
        for (auto &l : cutup(body, '\n')) items.push_back(f == PLAIN ? plain_item(l.size() && l.back() == '\r' ? l.substr(0, l.size() - 1) : l, m) : line_item(l.size() && l.back() == '\r' ? l.substr(0, l.size() - 1) : l, m));
    Resp r = f == LINE ? put_line(body) : put_any(body);
    std::vector<Series> v;
    std::string err;
    if (!query_raw(m, 1, FAR, false, v, &err)) { c.violation(sig, "after " + esc(body) + ": query failed: " + err); return; }
    Pts got;
    for (auto &s : v) for (auto &d : s.dps) got[tkey(s.tags)][d.first] = d.second;
    bool ok = r.status == 200 || r.status == 204;
    Pts must, may;      // must be stored; may be stored
    bool bad = false, len = false, any = false;
    for (auto &it : items)
    {
        if (it.v == SKIP) continue;
        any = true;
        if (it.v == LENIENT) len = true;
        if (it.v == BAD) bad = true;
        if (it.v == VALID) { add(may, it.p); if (f != LINE ? (f == PLAIN || !(bad || len)) : !(bad || len)) add(must, it.p); }
        if (f == LINE && bad && !len) break;
    }
    if (bad || len || !any || loose) c.nt();
    c.outcome(fmt("%s %d %zu %d%d%d", FN[f], r.status, count(got), bad, len, loose));
    auto fail = [&](const std::string &w) { c.violation(sig, FN[f] + std::string(" request \"") + esc(body) + "\" answered " + fmt("%d ", r.status) + r.body.substr(0, 60) + ": " + w + "; stored " + show(got) + "expected " + show(must)); };
    if (r.status == 0) { fail("no response"); return; }
    if (f == JSON && r.status != 0 && !body.empty())
    {
        J j;
        size_t k = body.find_first_not_of(" \n\r\t");
        if (k != std::string::npos && (body[k] == '{' || body[k] == '['))
        {
            const J *s = nullptr, *e = nullptr;
            if (!parse_json(r.body, j) || !(s = j.get("success")) || !(e = j.get("failed"))) { fail("no counts in the response"); return; }
            if (ok != (e->n == 0)) { fail("status does not match the counts"); return; }
            // points at odd times or of odd metrics are not visible to the query
            if (!len && !loose && count(got) != (size_t)s->n) { fail("success count is not the number stored"); return; }
            if (count(got) > (size_t)s->n) { fail("more stored than reported"); return; }
            if (bad && e->n < 1) { fail("a malformed point is not counted as failed"); return; }
        }
    }
    if (!covers(got, must)) { fail("a well-formed point is not stored"); return; }
    if (ok && !covers(got, may) ) { fail("success, but a well-formed point is not stored"); return; }
    if (ok && bad && !len && f != JSON) { fail("a malformed item was answered with success"); return; }
    if (!ok && !bad && !len && any && !loose) { fail("well-formed request refused"); return; }
    if (!len && !loose && !covers(may, got)) { fail("stored something that was not sent"); return; }
}

static std::string subst(std::string s, const std::string &m, int pos)
{
    for (;;) { size_t k = s.find('$'); if (k == std::string::npos) break; s.replace(k, 1, m); }
    // T: a timestamp of its own per position, V: a value of its own
    for (;;) { size_t k = s.find('@'); if (k == std::string::npos) break; s.replace(k, 1, fmt("%llu", (unsigned long long)(BASE + 3600 + pos * 10))); }
    for (;;) { size_t k = s.find('%'); if (k == std::string::npos) break; s.replace(k, 1, fmt("%d", 11 + pos)); }
    return s;
}

static const std::vector<std::string> ALPHA[3] = {
    {   // plain: valid
        "put $ @ % h=a", "put $ @ %.5 h=a", "put $ @ -%e2 h=b g=c", "put $ @ %",
        // malformed
        "put", "put ", "put $", "put $ ", "put $ @", "put $ @ ", "put $ h=a", "put $ @ h=a", "put $ % h=a", "put $ abc % h=a", "put $ -5 % h=a", "put $ @ abc h=a", "put $ @ %x h=a", "put $ @x % h=a", "put $ @ % h", "put $ @ % h=a g", "put $ @ % h=a put $ @ 5 h=a", "put  @ % h=a", "put @ % h=a",
        // ignorable
        "", " ", "\t", "foo", "puts $ @ % h=a", "PUT $ @ % h=a", "# put $ @ % h=a", "$ @ % h=a", "put\t$ @ % h=a",
        // lenient
        " put $ @ % h=a", "put  $  @  %  h=a", "put $ @ % h=a ", "put $ @ % h=a  g=b", "put \"$\" @ % h=a", "put \"$ @ % h=a", "put $ @.5 % h=a", "put $ @ \"%\" h=a", "put $ @ \"% h=a", "put $ @ nan h=a", "put $ @ inf h=a", "put $ 99999999999999999999 % h=a", "put $ 18446744073709551615 % h=a", "put $ 0 % h=a", "put $ @ 1e999 h=a", "put $ @ % h=", "put $ @ % =a", "put $ @ % =", "put $ @ % h==a", "put $ @ % h=a h=b", "put $ @ % ,h=a", "put $ @ % h=a,g=b", "put $ @ % ;", "put $ @ % h=a;",
    },
    {   // line protocol
        "$,h=a x=% @", "$,h=a x=%.5,y=2 @", "$ x=-%e2 @", "$,h=b%,g=c x=%",
        "$", "$ ", "$,h=a", "$,h=a ", "$,h=a x", "$,h=a x=", "$,h=a x= @", "$,h=a =% @", "$,h x=% @", "$,h=a x=abc @", "$,h=a x=%z @", "$,h=a x=% abc", "$,h=a x=% @x", "$,h=a x=% -5", "$,h=a x=% @ 5", "$,h=a x=%,y @", "$,h=a x=%,y= @", "$,h=a x=%, @", "$,h=a x=%,y=zz @", "$,h=a @", ",h=a x=% @", "$,h=a x y=% @",
        "", " ", "# $,h=a x=% @", "#", "\t",
        " $,h=a x=% @", "$,h=a  x=% @", "$,h=a x=%  @", "$,h=a x=% @ ", "$, x=% @", "$,h=a, x=% @", "$,,h=a x=% @", "$,h=a x=%i @", "$,h=a x=t @", "$,h=a x=\"s\" @", "$,h=a x=\"s t\" @", "$,h=a x=nan @", "$,h=a x=% 99999999999999999999", "$,h=a x=% 18446744073709551615", "$,h=a x=% 0", "$,h= x=% @", "$,=a x=% @", "$,h=a,h=b x=% @", "$,h=a x=%,x=5 @", "_cp", "_cp ", "_cp a:b:c", "$\\", "$\\ ,h=a x=% @", "$,h=a\\", "$,h=a x\\", "$,h=a x\\=1=% @", "_$,h=a x=% @",
    },
    {   // JSON
        "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"tags\":{\"h\":\"b\",\"g\":\"c\"},\"value\":-%.5,\"timestamp\":@,\"metric\":\"$\"}", "{ \"metric\" : \"$\" , \"timestamp\" : @ , \"value\" : %e1 , \"tags\" : { } }",
        "{\"metric\":\"$\",\"timestamp\":@,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":\"abc\",\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":\"abc\",\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":null,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":{},\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":[%],\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":-5,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":[]}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":\"h=a\"}", "{\"metric\":\"\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":5,\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{}", "5", "null", "\"$\"", "[]", "[%]",
        "{\"metric\":\"$\",\"timestamp\":@,\"value\":%}", "{\"metric\":\"$\",\"timestamp\":\"@\",\"value\":\"%\",\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"},\"x\":1}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"value\":5,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":5,\"g\":true}}", "{\"metric\":\"$\",\"timestamp\":@.5,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":99999999999999999999,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":0,\"value\":%,\"tags\":{\"h\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"\":\"a\"}}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"\"}}",
        "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"}", "{\"metric\":\"$\",\"timestamp\":@,\"value\":%,\"tags\":{\"h\":\"a\"", "{\"metric\":\"$", "{\"metric\"", "{", "}", "]", "{\"metric\":\"$\" \"timestamp\":@}", "{\"metric\":\"$\",,\"timestamp\":@,\"value\":%}", "{metric:\"$\"}", "\"",
    },
};
// subset used for the longest batches
static bool core(F f, size_t i) { if (f == PLAIN) return i < 4 || i % 3 == 0; if (f == LINE) return i < 4 || i % 3 == 1; return i < 3 || i % 3 == 0; }

static void begin(Ctx &c)
{
    set_clock_ms(NOW * 1000);
    Conf conf = conf_of(Cfg{4, 256, false});
    conf["tsdb.rollup.enabled"] = "false";
    db_start(c.dir + "/h", conf);
    g_names.clear();
    g_names.insert("keep");
    put_plain(fmt("put keep %llu 5 h=a\n", (unsigned long long)BASE + 3600));
    std::string s = fmt("put stale %llu 77 h=a\nstale,h=a x=78 %llu\n", (unsigned long long)BASE + 100, (unsigned long long)BASE + 100);
    s += fmt("{\"metric\":\"stale\",\"timestamp\":%llu,\"value\":79,\"tags\":{\"h\":\"a\"}}]\n", (unsigned long long)BASE + 100);
    g_stale = s + s;
}

static void finish(Ctx &c, const std::string &sig, bool odd_names)
{
    g_stale.clear();
    std::vector<Series> v;
    std::string err;
    if (!query_raw("keep", 1, FAR, false, v, &err) || v.size() != 1 || v[0].dps != DPS{{BASE + 3600, 5}}) c.violation(sig + ":keep", "a point written before was altered: " + (v.empty() ? err : dps_str(v[0].dps)));
    Resp r = get("/api/suggest", "type=metrics&q=&max=10000000");
    J j;
    if (parse_json(r.body, j)) for (auto &x : j.a)
    {
        if (x.s == "stale") c.violation(sig + ":stale", "bytes of an earlier request were read as part of a later one");
        else if (!odd_names && !g_names.count(x.s)) c.violation(sig + ":name", "metric \"" + esc(x.s) + "\" was never sent");
    }
    db_stop();
}

static void batches(Ctx &c, F f, int len, int style, int part, int parts)
{
    begin(c);
    size_t na = ALPHA[f].size(), n = 1;
    std::vector<int> a;
    for (size_t i = 0; i < na; i++) if (len < 4 ? true : core(f, i)) a.push_back(i);
    for (int i = 0; i < len; i++) n *= a.size();
    c.states += n;
    for (size_t x = part; x < n && !c.full(); x += parts)
    {
        std::string m = fmt("m%zu", x), body;
        size_t y = x;
        for (int i = 0; i < len; i++, y /= a.size())
        {
            std::string t = subst(ALPHA[f][a[y % a.size()]], m, i);
            if (f == JSON)
            {
                if (style == 0) body += (i ? "," : "[") + t + (i + 1 == len ? "]" : "");
                else if (style == 1) body += (i ? " ,\n " : " [ ") + t + (i + 1 == len ? " ] \n" : "");
                else body += t;
            }
            else body += t + (style == 1 ? "\r\n" : (style == 2 && i + 1 == len) ? "" : "\n");
        }
        judge(c, f, body, m, fmt("%s%d.%d", FN[f], len, style));
    }
    finish(c, fmt("%s%d.%d", FN[f], len, style), true);
}

static std::string seed_text(F f, int k, const std::string &m)
{
    auto &A = ALPHA[f];
    auto S = [&](int i, int pos) { return subst(A[i], m, pos); };
    if (f == JSON) return k == 0 ? S(0, 0) : k == 1 ? "[" + S(0, 0) + "," + S(1, 1) + "," + S(2, 2) + "]" : " [ " + S(2, 0) + " , " + S(0, 1) + " ]\n";
    return k == 0 ? S(0, 0) : k == 1 ? S(0, 0) + "\n" + S(2, 1) + "\n" + S(1, 2) + "\n" : S(3, 0) + "\r\n" + S(2, 1) + "\r\n";
}

static void mutate(Ctx &c, F f, int k)
{
    begin(c);
    static const std::string B("\n \"{},=\0x:[]\\\t5-#;\r.", 20);
    size_t n = seed_text(f, k, "m000000q000000q000000").size(), id = 0;
    auto name = [&]() { size_t k = id++; return fmt("m%06zuq%06zuq%06zu", k, k, k); };
    for (size_t i = 0; i <= n && !c.full(); i++)
    {
        std::string m = name();
        judge(c, f, seed_text(f, k, m).substr(0, i), m, fmt("%s-cut%d@%zu", FN[f], k, i));
    }
    for (size_t i = 0; i < n && !c.full(); i++)
    {
        for (char b : B)
        {
            std::string m = name(), t = seed_text(f, k, m);
            t[i] = b;
            judge(c, f, t, m, fmt("%s-flip%d@%zu", FN[f], k, i));
            if (c.thorough()) for (size_t i2 = i + 1; i2 < n && !c.full(); i2 += 1) if (strchr("\n \"{},=", t[i2]))
            {
                for (char b2 : {'\n', ' ', '"', 'x', ',', '\\'})
                {
                    std::string m = name(), t = seed_text(f, k, m);
                    t[i] = b; t[i2] = b2;
                    judge(c, f, t, m, fmt("%s-flip%d@%zu,%zu", FN[f], k, i, i2));
                }
            }
        }
        std::string m = name(), t = seed_text(f, k, m);
        t.erase(i, 1);
        judge(c, f, t, m, fmt("%s-del%d@%zu", FN[f], k, i));
        m = name(); t = seed_text(f, k, m);
        t.insert(i, 1, t[i]);
        judge(c, f, t, m, fmt("%s-dbl%d@%zu", FN[f], k, i));
    }
    c.states += id;
    finish(c, fmt("%s-mut%d", FN[f], k), true);
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    for (int f = 0; f < 3; f++)
    {
        for (int style = 0; style < 3; style++)
        {
            for (int len = 1; len <= (th ? 4 : 3); len++)
            {
                int parts = len == 3 ? 2 : len == 4 ? 6 : 1;
                for (int p = 0; p < parts; p++) jobs.push_back({fmt("%s-%d-%d-%d", FN[f], len, style, p), [=](Ctx &c) { batches(c, (F)f, len, style, p, parts); }});
            }
            jobs.push_back({fmt("%s-mut-%d", FN[f], style), [=](Ctx &c) { mutate(c, (F)f, style); }});
        }
    }
}
