#include "vh.h"

#include <execinfo.h>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <pthread.h>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "admin.h"
#include "append.h"
#include "http.h"
#include "query.h"
#include "tsdb.h"

namespace vh
{

std::string g_scratch;

std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    char buf[4096];
    int n = vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    if (n < (int)sizeof(buf)) return std::string(buf, n);
    std::string s(n + 1, 0);
    va_start(ap, f);
    vsnprintf(&s[0], n + 1, f, ap);
    va_end(ap);
    s.resize(n);
    return s;
}

u64 hash64(const std::string &s)
{
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

void Ctx::outcome(const std::string &s)
{
    if (outcomes.size() < 2000000) outcomes.insert(hash64(s));
}

void Ctx::violation(const std::string &sig, const std::string &msg)
{
    if (viols.size() >= 40) return;
    for (auto &v : viols) if (v.sig == sig) return;
    viols.push_back({sig, msg});
}

// shared with the runner, which kills a job whose current case takes too long
struct Slot { volatile u64 since; char label[504]; };

static u64 mono_ms()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC_RAW, &t);
    return (u64)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

void Ctx::at(const std::string &label)
{
    if (!slot) return;
    size_t n = std::min(label.size(), sizeof(slot->label) - 1);
    memcpy(slot->label, label.data(), n);
    slot->label[n] = 0;
    slot->since = mono_ms();
}

std::string num(double v)
{
    char b[64];
    for (int p = 1; p <= 17; p++)
    {
        snprintf(b, sizeof(b), "%.*g", p, v);
        if (strtod(b, nullptr) == v) break;
    }
    return b;
}

std::string dps_str(const DPS &v)
{
    std::string s = "{";
    for (size_t i = 0; i < v.size(); i++)
    {
        if (i > 40) { s += fmt(" ...(%zu)", v.size()); break; }
        s += fmt("%s%llu:%s", i ? " " : "", (unsigned long long)v[i].first, num(v[i].second).c_str());
    }
    return s + "}";
}

// built with -ffast-math semantics in mind: compare bits for NaN / Inf
static bool bits_special(double d)
{
    u64 b;
    memcpy(&b, &d, 8);
    return ((b >> 52) & 0x7ff) == 0x7ff;
}

bool close_to(double a, double b, double abs_tol, double rel_tol)
{
    if (bits_special(a) || bits_special(b))
    {
        u64 x, y;
        memcpy(&x, &a, 8); memcpy(&y, &b, 8);
        bool nx = bits_special(a) && (x & 0xfffffffffffffULL), ny = bits_special(b) && (y & 0xfffffffffffffULL);
        if (nx || ny) return nx && ny;
        return x == y;
    }
    double d = std::fabs(a - b);
    return d <= abs_tol + rel_tol * std::max(std::fabs(a), std::fabs(b));
}

// ---------------------------------------------------------------------------
std::string make_dir(const std::string &path)
{
    std::string p;
    for (size_t i = 0; i <= path.size(); i++)
    {
        if (i == path.size() || path[i] == '/')
        {
            if (!p.empty()) mkdir(p.c_str(), 0755);
        }
        if (i < path.size()) p += path[i];
    }
    return path;
}

void remove_tree(const std::string &path)
{
    // never touch anything outside the scratch directory of this run
    if (getenv("VH_KEEP")) return;
    if (g_scratch.size() < 8 || path.compare(0, g_scratch.size(), g_scratch) != 0) return;
    DIR *d = opendir(path.c_str());
    if (d)
    {
        while (dirent *e = readdir(d))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string f = path + "/" + n;
            struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(f);
            else unlink(f.c_str());
        }
        closedir(d);
    }
    rmdir(path.c_str());
}

std::string read_file(const std::string &path)
{
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return "";
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof(buf))) > 0) s.append(buf, n);
    close(fd);
    return s;
}

void write_file(const std::string &path, const std::string &data)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t off = 0;
    while (off < data.size())
    {
        ssize_t n = write(fd, data.data() + off, data.size() - off);
        if (n <= 0) break;
        off += n;
    }
    close(fd);
}

void copy_tree(const std::string &from, const std::string &to)
{
    mkdir(to.c_str(), 0755);
    DIR *d = opendir(from.c_str());
    if (!d) return;
    while (dirent *e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        std::string f = from + "/" + n, t = to + "/" + n;
        if (lstat(f.c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) copy_tree(f, t);
        else
        {
            // keep holes: header/index files are sparse
            int a = open(f.c_str(), O_RDONLY), b = open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, st.st_mode & 0777);
            if (a >= 0 && b >= 0)
            {
                char buf[65536];
                ssize_t k;
                off_t pos = 0;
                while ((k = read(a, buf, sizeof(buf))) > 0)
                {
                    bool zero = true;
                    for (ssize_t i = 0; i < k; i += 8)
                    {
                        u64 w = 0;
                        memcpy(&w, buf + i, std::min<ssize_t>(8, k - i));
                        if (w) { zero = false; break; }
                    }
                    if (!zero) { ssize_t r = pwrite(b, buf, k, pos); (void)r; }
                    pos += k;
                }
                int rc = ftruncate(b, st.st_size);
                (void)rc;
            }
            if (a >= 0) close(a);
            if (b >= 0) close(b);
        }
    }
    closedir(d);
}

static void list_rec(const std::string &base, const std::string &rel, std::vector<std::string> &out)
{
    DIR *d = opendir((base + "/" + rel).c_str());
    if (!d) return;
    while (dirent *e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat((base + "/" + r).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { out.push_back(r + "/"); list_rec(base, r, out); }
        else out.push_back(r);
    }
    closedir(d);
}

std::vector<std::string> list_tree(const std::string &path)
{
    std::vector<std::string> v;
    list_rec(path, "", v);
    std::sort(v.begin(), v.end());
    return v;
}

// ---------------------------------------------------------------------------
std::string ChildResult::why() const
{
    if (timeout) return "timeout";
    if (sig) return fmt("killed by signal %d (%s)", sig, strsignal(sig));
    if (exited && code != 0) return fmt("exit code %d %s", code, out.substr(0, 300).c_str());
    return "ok";
}

ChildResult in_child(const std::function<void(std::string&)> &fn, int timeout_s)
{
    ChildResult r;
    int p[2];
    if (pipe(p) != 0) return r;
    fflush(stdout);
    fflush(stderr);
    pid_t parent = getpid();
    pid_t pid = fork();
    if (pid == 0)
    {
        if (getenv("VH_BT")) for (int sg : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE }) signal(sg, [](int n) { void *f[64]; backtrace_symbols_fd(f, backtrace(f, 64), 2); _exit(128 + n); });   // for debugging
        close(p[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(4);
        std::string out;
        int rc = 0;
        try { fn(out); }
        catch (const std::exception &ex) { out = std::string("exception: ") + ex.what(); rc = 3; }
        catch (...) { out = "exception"; rc = 3; }
        size_t off = 0;
        while (off < out.size())
        {
            ssize_t n = write(p[1], out.data() + off, out.size() - off);
            if (n <= 0) break;
            off += n;
        }
        _exit(rc);
    }
    close(p[1]);
    timespec t0, t1;
    // CLOCK_MONOTONIC is virtualised by clock.cpp only when a virtual time is set
    clock_gettime(CLOCK_MONOTONIC_RAW, &t0);
    char buf[65536];
    bool eof = false;
    while (!eof)
    {
        pollfd pf{p[0], POLLIN, 0};
        int k = poll(&pf, 1, 500);
        if (k > 0)
        {
            ssize_t n = read(p[0], buf, sizeof(buf));
            if (n > 0) r.out.append(buf, n);
            else eof = true;
        }
        clock_gettime(CLOCK_MONOTONIC_RAW, &t1);
        if (!eof && t1.tv_sec - t0.tv_sec >= timeout_s)
        {
            kill(pid, SIGKILL);
            r.timeout = true;
            break;
        }
    }
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
    else if (WIFSIGNALED(st)) r.sig = WTERMSIG(st);
    return r;
}

// --------------------------------------------------------------- database --
void boot_initialize(const std::string &conf, const std::string &pidfile);
void boot_shutdown();

void db_start(const std::string &home, const Conf &conf)
{
    make_dir(home);
    Conf c = conf;
    auto def = [&](const char *k, const std::string &v) { if (!c.count(k)) c[k] = v; };
    def("ticktock.home", home);
    def("tsdb.data.dir", home + "/data");
    def("log.file", home + "/tt.log");
    def("log.level", getenv("VH_LOG") ? getenv("VH_LOG") : "FATAL");
    def("tcp.buffer.size", "1mb");
    def("http.listener.count", "1");
    def("tcp.listener.count", "1");
    std::string text;
    for (auto &kv : c) if (!kv.second.empty()) text += kv.first + " = " + kv.second + "\n";
    write_file(home + "/tt.conf", text);
    set_threads_suppressed(true);
    boot_initialize(home + "/tt.conf", home + "/tt.pid");
    // register the request handlers as the server does (no sockets are opened)
    tt::HttpServer *srv = new tt::HttpServer;
    srv->init();
}

void db_stop()
{
    boot_shutdown();
}

std::string g_stale;

static Resp call(tt::HttpRequestHandler h, const char *method, const char *path, const std::string &params, const std::string &body)
{
    using namespace tt;
    Resp r;
    if (h == nullptr) { r.status = 404; return r; }
    // the buffer has slack behind the body, like a network buffer
    // in which an earlier request may have left its bytes
    char *buf = (char*)calloc(1, body.size() + 64 + g_stale.size());
    memcpy(buf, body.data(), body.size());
    memcpy(buf + body.size(), "\0 \0\r\0;", 7);
    memcpy(buf + body.size() + 7, g_stale.data(), g_stale.size());
    char *pbuf = (char*)calloc(1, params.size() + 64);
    memcpy(pbuf, params.data(), params.size());
    {
        HttpRequest request;
        HttpResponse response;
        request.init();
        request.method = (char*)method;
        request.path = (char*)path;
        request.params = params.empty() ? nullptr : pbuf;
        request.content = buf;
        request.length = (int)body.size();
        request.complete = true;
        request.header_ok = true;
        // exceptions are answered as HttpServer::process_request does
        try { r.handled = h(request, response); }
        catch (const std::exception &ex) { response.init(400, HttpContentType::PLAIN, strlen(ex.what()), ex.what()); }
        catch (...) { response.init(400, HttpContentType::PLAIN); }
        r.status = response.status_code;
        if (response.response != nullptr && response.response_size > 0)
        {
            std::string all(response.response, response.response_size);
            size_t k = all.find("\r\n\r\n");
            if (k != std::string::npos) { r.head = all.substr(0, k); r.body = all.substr(k + 4); }
            else r.head = all;
        }
    }
    free(buf);
    free(pbuf);
    return r;
}

Resp req(const char *method, const char *path, const std::string &params, const std::string &body)
{
    using namespace tt;
    HttpRequestHandler h = !strcmp(method, "GET") ? HttpServer::get_get_handler(path)
        : !strcmp(method, "PUT") ? HttpServer::get_put_handler(path) : HttpServer::get_post_handler(path);
    return call(h, method, path, params, body);
}

static Resp via(tt::HttpRequestHandler h, const std::string &body) { return call(h, "POST", "", "", body); }

Resp put_plain(const std::string &body) { return via(&tt::Tsdb::http_api_put_handler_plain, body); }
Resp put_json(const std::string &body) { return via(&tt::Tsdb::http_api_put_handler_json, body); }
Resp put_any(const std::string &body) { return req("POST", "/api/put", "", body); }
Resp put_line(const std::string &body) { return req("POST", "/api/write", "", body); }
Resp query_post(const std::string &json) { return req("POST", "/api/query", "", json); }
Resp query_get(const std::string &params) { return req("GET", "/api/query", params, ""); }
Resp admin(const std::string &params) { return req("POST", "/api/admin", params, ""); }
Resp get(const std::string &path, const std::string &params) { return req("GET", path.c_str(), params, ""); }

void bg_wal_flush() { tt::TaskData d; d.integer = 0; tt::AppendLog::flush_all(d); }
void bg_rotate() { tt::TaskData d; d.integer = 0; tt::Tsdb::rotate(d); }
void bg_archive_ts() { tt::TaskData d; d.integer = 0; tt::Tsdb::archive_ts(d); }
void bg_rollup() { tt::TaskData d; d.integer = 1; tt::Tsdb::rollup(d); }
void bg_gc() { tt::TaskData d; d.integer = 0; tt::MemoryManager::collect_garbage(d); }

// ------------------------------------------------------------------- JSON --
const J *J::get(const std::string &k) const
{
    for (auto &kv : o) if (kv.first == k) return &kv.second;
    return nullptr;
}

namespace
{
struct P
{
    const char *p, *e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    bool str(std::string &s)
    {
        if (p >= e || *p != '"') return false;
        p++;
        while (p < e && *p != '"')
        {
            if (*p == '\\' && p + 1 < e) p++;
            s += *p++;
        }
        if (p >= e) return false;
        p++;
        return true;
    }
    bool val(J &v, int depth = 0)
    {
        if (depth > 50) return false;
        ws();
        if (p >= e) return false;
        if (*p == '"') { v.t = J::STR; return str(v.s); }
        if (*p == '{')
        {
            v.t = J::OBJ;
            p++; ws();
            if (p < e && *p == '}') { p++; return true; }
            for (;;)
            {
                ws();
                v.o.emplace_back();
                if (!str(v.o.back().first)) return false;
                ws();
                if (p >= e || *p != ':') return false;
                p++;
                if (!val(v.o.back().second, depth + 1)) return false;
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == '}') { p++; return true; }
                return false;
            }
        }
        if (*p == '[')
        {
            v.t = J::ARR;
            p++; ws();
            if (p < e && *p == ']') { p++; return true; }
            for (;;)
            {
                v.a.emplace_back();
                if (!val(v.a.back(), depth + 1)) return false;
                ws();
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == ']') { p++; return true; }
                return false;
            }
        }
        if (e - p >= 4 && !strncmp(p, "true", 4)) { v.t = J::BOOL; v.b = true; p += 4; return true; }
        if (e - p >= 5 && !strncmp(p, "false", 5)) { v.t = J::BOOL; v.b = false; p += 5; return true; }
        if (e - p >= 4 && !strncmp(p, "null", 4)) { v.t = J::NUL; p += 4; return true; }
        std::string t;
        while (p < e && (isdigit((unsigned char)*p) || strchr("+-.eE", *p))) t += *p++;
        if (t.empty()) return false;
        char *q;
        v.t = J::NUM;
        v.n = strtod(t.c_str(), &q);
        v.s = t;
        return *q == 0;
    }
};
}

bool parse_json(const std::string &s, J &out)
{
    P p{s.data(), s.data() + s.size()};
    if (!p.val(out)) return false;
    p.ws();
    return p.p == p.e;
}

static double special(u64 bits) { double d; memcpy(&d, &bits, 8); return d; }

bool parse_series(const std::string &body, std::vector<Series> &out)
{
    J j;
    if (!parse_json(body, j) || j.t != J::ARR) return false;
    for (auto &x : j.a)
    {
        Series s;
        const J *m = x.get("metric"), *t = x.get("tags"), *g = x.get("aggregateTags"), *d = x.get("dps");
        if (!m || m->t != J::STR || !t || t->t != J::OBJ || !g || g->t != J::ARR || !d || d->t != J::OBJ) return false;
        s.metric = m->s;
        for (auto &kv : t->o) s.tags[kv.first] = kv.second.s;
        for (auto &a : g->a) s.agg.push_back(a.s);
        std::sort(s.agg.begin(), s.agg.end());
        for (auto &kv : d->o)
        {
            double v;
            if (kv.second.t == J::NUM) v = kv.second.n;
            else if (kv.second.t == J::STR && kv.second.s == "NaN") v = special(0x7ff8000000000000ULL);
            else if (kv.second.t == J::STR && kv.second.s == "Inf") v = special(0x7ff0000000000000ULL);
            else if (kv.second.t == J::STR && kv.second.s == "-Inf") v = special(0xfff0000000000000ULL);
            else return false;
            s.dps.emplace_back(strtoull(kv.first.c_str(), nullptr, 10), v);
        }
        out.push_back(std::move(s));
    }
    return true;
}

std::string Series::key() const
{
    std::string s = metric + "{";
    for (auto &kv : tags) s += kv.first + "=" + kv.second + ",";
    s += "}[";
    for (auto &a : agg) s += a + ",";
    return s + "]";
}

bool query_raw(const std::string &metric, u64 from, u64 to, bool ms, std::vector<Series> &out, std::string *err)
{
    Resp r = query_post(fmt("{\"start\":%llu,\"end\":%llu,\"msResolution\":%s,\"queries\":[{\"metric\":\"%s\",\"aggregator\":\"none\"}]}",
        (unsigned long long)from, (unsigned long long)to, ms ? "true" : "false", metric.c_str()));
    out.clear();
    if (r.status != 200 || !parse_series(r.body, out))
    {
        if (err) *err = fmt("status=%d body=%s", r.status, r.body.substr(0, 400).c_str());
        return false;
    }
    return true;
}

// ---------------------------------------------------------------- runner ---
static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}

// flat record format: length-prefixed strings
static void pk(std::string &o, const std::string &s) { o += fmt("%zu:", s.size()) + s; }
static void pk(std::string &o, u64 v) { pk(o, fmt("%llu", (unsigned long long)v)); }
static std::string up(const std::string &o, size_t &i)
{
    size_t c = o.find(':', i);
    if (c == std::string::npos) throw std::runtime_error("bad record");
    size_t n = strtoull(o.c_str() + i, nullptr, 10);
    if (c + 1 + n > o.size()) throw std::runtime_error("bad record");
    i = c + 1 + n;
    return o.substr(c + 1, n);
}
static u64 un(const std::string &o, size_t &i) { return strtoull(up(o, i).c_str(), nullptr, 10); }

static std::string pack(const Ctx &c)
{
    std::string o;
    pk(o, c.evaluations); pk(o, c.nontrivial); pk(o, c.states); pk(o, c.transitions); pk(o, c.traces);
    pk(o, (u64)c.capped);
    pk(o, (u64)c.outcomes.size());
    for (u64 h : c.outcomes) pk(o, h);
    pk(o, (u64)c.samples.size());
    for (auto &s : c.samples) pk(o, s);
    pk(o, (u64)c.viols.size());
    for (auto &v : c.viols) { pk(o, v.sig); pk(o, v.msg); }
    pk(o, (u64)c.stats.size());
    for (auto &v : c.stats) { pk(o, v.first); pk(o, v.second); }
    return o;
}

static void unpack(const std::string &o, Ctx &c)
{
    size_t i = 0;
    c.evaluations = un(o, i); c.nontrivial = un(o, i); c.states = un(o, i); c.transitions = un(o, i); c.traces = un(o, i);
    c.capped = un(o, i);
    u64 n = un(o, i);
    while (n--) c.outcomes.insert(un(o, i));
    n = un(o, i);
    while (n--) c.samples.push_back(up(o, i));
    n = un(o, i);
    while (n--) { Ctx::Viol v; v.sig = up(o, i); v.msg = up(o, i); c.viols.push_back(v); }
    n = un(o, i);
    while (n--) { std::string k = up(o, i); c.stats[k] = un(o, i); }
}

bool phase(Ctx &c, const std::string &name, const std::function<void(Ctx&)> &fn, int timeout_s)
{
    ChildResult r = in_child([&](std::string &out) {
        Ctx x;
        x.tier = c.tier;
        x.dir = c.dir;
        x.slot = c.slot;
        fn(x);
        out = pack(x);
    }, timeout_s);
    if (!r.ok())
    {
        c.violation(name + (c.slot && c.slot->label[0] ? std::string("/") + c.slot->label : ""), "the process ended: " + r.why());
        return false;
    }
    Ctx x;
    unpack(r.out, x);
    c.evaluations += x.evaluations; c.nontrivial += x.nontrivial; c.states += x.states; c.transitions += x.transitions; c.traces += x.traces;
    c.capped |= x.capped;
    c.outcomes.insert(x.outcomes.begin(), x.outcomes.end());
    for (auto &s : x.samples) c.sample(s);
    for (auto &v : x.viols) c.violation(v.sig, v.msg);
    for (auto &s : x.stats) c.stats[s.first] += s.second;
    return x.viols.empty();
}

static double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC_RAW, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

struct Running { pid_t pid; int idx; int fd; std::string out; double t0; Slot *slot; };

}

using namespace vh;

int main(int argc, char **argv)
{
    std::string tier = "quick", outf, only;
    int workers = 8;
    double deadline = 600, joblimit = 150, caselimit = 60;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], b = argv[i + 1];
        if (a == "--tier") tier = b;
        else if (a == "--out") outf = b;
        else if (a == "--only") only = b;
        else if (a == "--workers") workers = atoi(b.c_str());
        else if (a == "--scratch") g_scratch = b;
        else if (a == "--deadline") deadline = atof(b.c_str());
        else if (a == "--joblimit") joblimit = atof(b.c_str());
        else if (a == "--caselimit") caselimit = atof(b.c_str());
    }
    if (g_scratch.empty()) { fprintf(stderr, "--scratch missing\n"); return 2; }
    make_dir(g_scratch);
    signal(SIGPIPE, SIG_IGN);
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C.UTF-8", 1);

    std::vector<Job> jobs;
    list_jobs(tier, jobs);
    std::vector<int> todo;
    for (size_t i = 0; i < jobs.size(); i++)
        if (only.empty() || jobs[i].key == only) todo.push_back(i);
    if (todo.empty()) { fprintf(stderr, "no such job: %s\n", only.c_str()); return 2; }

    std::vector<Running> run;
    std::vector<Ctx> res(jobs.size());
    std::vector<std::string> bad(jobs.size());      // abnormal end of a job
    std::vector<char> done(jobs.size(), 0);
    size_t next = 0;
    double t0 = now_s();
    bool hit_deadline = false;

    while (next < todo.size() || !run.empty())
    {
        while (next < todo.size() && (int)run.size() < workers)
        {
            if (now_s() - t0 > deadline) { hit_deadline = true; next = todo.size(); break; }
            int idx = todo[next++];
            int p[2];
            if (pipe(p) != 0) return 2;
            pid_t parent = getpid();
            Slot *slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                if (getppid() != parent) _exit(4);
#ifndef VH_ASAN
                // a runaway allocation must not take the machine down
                rlimit rl{6ull << 30, 6ull << 30};
                setrlimit(RLIMIT_AS, &rl);
#endif
                close(p[0]);
                for (auto &r : run) close(r.fd);
                setpgid(0, 0);
                Ctx c;
                c.tier = tier;
                c.dir = make_dir(g_scratch + fmt("/j%d", idx));
                c.slot = slot;
                int rc = 0;
                try { jobs[idx].fn(c); }
                catch (const std::exception &ex) { c.violation(std::string("exception/") + slot->label, std::string("uncaught exception: ") + ex.what()); }
                std::string o = pack(c);
                size_t off = 0;
                while (off < o.size())
                {
                    ssize_t n = write(p[1], o.data() + off, o.size() - off);
                    if (n <= 0) break;
                    off += n;
                }
                remove_tree(c.dir);
                _exit(rc);
            }
            close(p[1]);
            run.push_back({pid, idx, p[0], "", now_s(), slot});
        }
        std::vector<pollfd> pf;
        for (auto &r : run) pf.push_back({r.fd, POLLIN, 0});
        if (!pf.empty()) poll(pf.data(), pf.size(), 200);
        for (size_t k = 0; k < run.size();)
        {
            bool fin = false, to = false;
            if (pf.size() > k && (pf[k].revents & (POLLIN | POLLHUP)))
            {
                char buf[65536];
                ssize_t n = read(run[k].fd, buf, sizeof(buf));
                if (n > 0) run[k].out.append(buf, n);
                else fin = true;
            }
            u64 since = run[k].slot->since;
            if (!fin && (now_s() - run[k].t0 > joblimit || (since && mono_ms() > since + (u64)(caselimit * 1000))))
            {
                kill(-run[k].pid, SIGKILL);
                kill(run[k].pid, SIGKILL);
                fin = to = true;
            }
            if (fin)
            {
                int st = 0;
                waitpid(run[k].pid, &st, 0);
                int idx = run[k].idx;
                if (getenv("VH_TIMES")) fprintf(stderr, "job %s: %.1fs\n", jobs[idx].key.c_str(), now_s() - run[k].t0);
                close(run[k].fd);
                done[idx] = 1;
                if (to) bad[idx] = "hang";
                else if (WIFSIGNALED(st)) bad[idx] = fmt("crash-signal-%d", WTERMSIG(st));
                else if (WEXITSTATUS(st) != 0) bad[idx] = fmt("exit-%d", WEXITSTATUS(st));
                else
                {
                    try { unpack(run[k].out, res[idx]); }
                    catch (...) { bad[idx] = "truncated-result"; }
                }
                if (!bad[idx].empty() && run[k].slot->label[0]) bad[idx] += std::string("/") + run[k].slot->label;
                munmap(run[k].slot, sizeof(Slot));
                remove_tree(g_scratch + fmt("/j%d", idx));
                run.erase(run.begin() + k);
                if (pf.size() > k) pf.erase(pf.begin() + k);
            }
            else k++;
        }
    }

    Ctx tot;
    u64 ndone = 0;
    std::string vj, bj;
    size_t nv = 0;
    for (size_t i = 0; i < jobs.size(); i++)
    {
        if (!done[i]) continue;
        ndone++;
        Ctx &c = res[i];
        tot.evaluations += c.evaluations; tot.nontrivial += c.nontrivial; tot.states += c.states;
        tot.transitions += c.transitions; tot.traces += c.traces; tot.capped |= c.capped;
        tot.outcomes.insert(c.outcomes.begin(), c.outcomes.end());
        for (auto &s : c.samples) if (tot.samples.size() < 6) tot.samples.push_back("[" + jobs[i].key + "] " + s);
        for (auto &s : c.stats) tot.stats[s.first] += s.second;
        if (!bad[i].empty()) c.viols.push_back({bad[i], "the job did not finish: " + bad[i]});
        for (auto &v : c.viols)
        {
            vj += fmt("%s{\"job\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\"}", nv ? ",\n" : "", esc(jobs[i].key).c_str(), esc(v.sig).c_str(), esc(v.msg).c_str());
            nv++;
        }
    }
    std::string o = "{\n";
    o += fmt("\"jobs\":%zu,\"jobs_done\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%zu,\"capped\":%s,\"wall\":%.2f,\n",
        todo.size(), (unsigned long long)ndone, (unsigned long long)tot.evaluations, (unsigned long long)tot.nontrivial, (unsigned long long)tot.states,
        (unsigned long long)tot.transitions, (unsigned long long)tot.traces, tot.outcomes.size(), (tot.capped || hit_deadline) ? "true" : "false", now_s() - t0);
    o += "\"rule\":\"" + esc(g_rule) + "\",\n\"samples\":[";
    for (size_t i = 0; i < tot.samples.size(); i++) o += (i ? "," : "") + ("\"" + esc(tot.samples[i]) + "\"");
    o += "],\n\"stats\":{";
    bool f = true;
    for (auto &s : tot.stats) { o += fmt("%s\"%s\":%llu", f ? "" : ",", esc(s.first).c_str(), (unsigned long long)s.second); f = false; }
    o += "},\n\"violations\":[" + vj + "]\n}\n";
    if (!outf.empty()) write_file(outf, o);
    else fputs(o.c_str(), stdout);
    return 0;
}
