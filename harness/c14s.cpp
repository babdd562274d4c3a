// C14, concurrent part: the event loop, its workers and its clients.
#include "conn.h"
#include "ctl.h"
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <dlfcn.h>
using namespace vh;

const char *vh::g_rule =
    "all schedules with at most 1 (thorough: 2) preemptions of the real event loop with two workers and a client that writes one or two streams in up to 4 pieces, divided inside of lines, requests and bodies, in an order of its own, "
    "then keeps the connections open, ends them, or drops one and opens another that gets the same descriptor; lines larger than the receive buffer included. "
    "Every complete request takes effect once, is answered once and in order on its own connection, what is left of a line does not leak into another connection, no descriptor is closed twice. Non-trivial = a schedule with at least one preemption";

extern "C" int epoll_wait(int e, struct epoll_event *ev, int n, int timeout)
{
    if (sched_self() < 0) return syscall(SYS_epoll_pwait, e, ev, n, timeout, nullptr, 0);
    sched_point();
    int rc = syscall(SYS_epoll_pwait, e, ev, n, 0, nullptr, 0);
    if (rc == 0) sched_yield_now();
    return rc;
}

static bool g_until_read;

extern "C" ssize_t recv(int fd, void *buf, size_t n, int flags)
{
    ssize_t rc = syscall(SYS_recvfrom, fd, buf, n, flags, nullptr, nullptr);
    if (g_until_read && rc > 0 && !(flags & MSG_PEEK)) { g_until_read = false; sched_quiet(false); }
    return rc;
}

namespace
{

// c0, c1: piece to connection 0 or 1; e0: the client has no more to say; x0: the client is gone; q0: until a worker has read what was sent; p0: until a worker has something for the event loop; n0: opened anew, when the server has let go of it
struct Act { std::string what, data; };
struct Scn { std::string name; bool http; std::vector<Act> acts; std::vector<std::string> points; std::vector<int> answers; const char *buf = "64kb"; };

std::string line(const char *m, int i) { return fmt("put %s %llu %d h=1\n", m, (unsigned long long)DAYMS + 1000 * i, i); }

std::string post(const std::string &body) { return fmt("POST /api/put HTTP/1.1\r\nContent-Type: text/plain\r\nContent-Length: %zu\r\n\r\n", body.size()) + body; }

std::vector<Scn> scenarios()
{
    std::vector<Scn> v;
    std::string a1 = line("a", 1), a2 = line("a", 2), a3 = line("a", 3), b1 = line("b", 1), b2 = line("b", 2);
    auto l = [](const std::string &s) { return s.substr(0, s.size() / 2); };
    auto r = [](const std::string &s) { return s.substr(s.size() / 2); };
    v.push_back({"t-split", false, {{"c0", l(a1)}, {"c0", r(a1) + l(a2)}, {"c0", r(a2)}, {"c0", a3}}, {"a1", "a2", "a3"}, {}});
    v.push_back({"t-two", false, {{"c0", l(a1)}, {"c1", l(b1)}, {"c0", r(a1)}, {"c1", r(b1)}}, {"a1", "b1"}, {}});
    v.push_back({"t-end", false, {{"c0", a1 + l(a2)}, {"c0", r(a2)}, {"e0", ""}}, {"a1", "a2"}, {}});
    v.push_back({"t-end-gone", false, {{"c0", a1}, {"e0", ""}, {"x0", ""}}, {"a1?"}, {}});
    v.push_back({"t-late-gone", false, {{"c0", a1}, {"e0", ""}, {"p0", ""}, {"x0", ""}}, {"a1?"}, {}});
    v.push_back({"t-gone", false, {{"c0", a1}, {"q0", ""}, {"x0", ""}}, {"a1?"}, {}});
    v.push_back({"t-gone-again", false, {{"c0", a1}, {"q0", ""}, {"x0", ""}, {"n0", ""}, {"c0", b1}}, {"a1?", "b1"}, {}});
    v.push_back({"h-gone-again", true, {{"c0", post(a1)}, {"x0", ""}, {"n0", ""}, {"c0", post(b1)}}, {"a1?", "b1"}, {-1}});
    v.push_back({"t-next", false, {{"c0", a1 + l(a2)}, {"q0", ""}, {"c0", r(a2) + a3}}, {"a1", "a2", "a3"}, {}});
    v.push_back({"t-next-end", false, {{"c0", a1 + l(a2)}, {"q0", ""}, {"c0", r(a2) + a3}, {"e0", ""}}, {"a1", "a2", "a3"}, {}});
    v.push_back({"t-next-two", false, {{"c0", l(a1)}, {"q0", ""}, {"c0", r(a1)}, {"c0", a2}, {"c0", a3}}, {"a1", "a2", "a3"}, {}});
    v.push_back({"t-again", false, {{"c0", a1 + l(a2)}, {"e0", ""}, {"n0", ""}, {"c0", b1}, {"c0", b2}}, {"a1", "b1", "b2"}, {}});
    v.push_back({"t-end-again", false, {{"c0", a1}, {"e0", ""}, {"n0", ""}, {"c0", b1}, {"e0", ""}}, {"a1", "b1"}, {}});
    {
        std::string big;
        std::vector<std::string> p;
        for (int i = 1; i <= 150; i++) { big += line("a", i); if (i % 50 == 0 || i == 1) p.push_back(fmt("a%d", i)); }
        v.push_back({"t-big", false, {{"c0", big}, {"c0", b1}}, p, {}, "4kb"});
        v.back().points.push_back("b1");
        v.push_back({"t-big-gone", false, {{"c0", big}, {"q0", ""}, {"x0", ""}}, {}, {}, "4kb"});
        v.push_back({"t-big-end", false, {{"c0", big}, {"e0", ""}}, p, {}, "4kb"});
    }
    std::string p1 = post(a1), p2 = post(a2), p3 = post(b1);
    v.push_back({"h-split", true, {{"c0", l(p1)}, {"c0", r(p1)}, {"c0", p2}}, {"a1", "a2"}, {2}});
    v.push_back({"h-body", true, {{"c0", p1.substr(0, p1.size() - 9)}, {"c0", p1.substr(p1.size() - 9) + l(p2)}, {"c0", r(p2)}}, {"a1", "a2"}, {2}});
    v.push_back({"h-next", true, {{"c0", p1 + l(p2)}, {"q0", ""}, {"c0", r(p2)}}, {"a1", "a2"}, {2}});
    v.push_back({"h-next-end", true, {{"c0", l(p1)}, {"q0", ""}, {"c0", r(p1)}, {"e0", ""}}, {"a1"}, {1}});
    v.push_back({"h-two", true, {{"c0", l(p1)}, {"c1", l(p3)}, {"c0", r(p1)}, {"c1", r(p3)}}, {"a1", "b1"}, {1, 1}});
    v.push_back({"h-end", true, {{"c0", l(p1)}, {"c0", r(p1)}, {"e0", ""}}, {"a1"}, {1}});
    v.push_back({"h-again", true, {{"c0", p1 + l(p2)}, {"e0", ""}, {"n0", ""}, {"c0", p3}}, {"a1", "b1"}, {2}});
    v.push_back({"h-end-gone", true, {{"c0", p1}, {"e0", ""}, {"x0", ""}}, {"a1?"}, {-1}});
    return v;
}

int g_fds[2], g_peers[2];
std::string *g_got;

bool is_open(int fd) { return fcntl(fd, F_GETFD) >= 0; }

SchedBody body(const Scn &s, const std::string &dir, int slow)
{
    SchedBody b;
    auto bad = std::make_shared<std::string>();
    b.setup = [=]()
    {
        remove_tree(dir);
        set_clock_ms((BASE + DAY / 2) * 1000);
        Conf f = conf_of({2, 256, true});
        f["tcp.buffer.size"] = s.buf;
        f["tcp.responders.per.listener"] = "2";
        f["http.responders.per.listener"] = "2";
        db_start(dir, f);
        for (int i = 1; i <= 3; i++) put_plain(line("a", 900 + i) + line("b", 900 + i));      // metrics and series exist
        g_http = new tt::HttpServer();
        g_http->init();
        g_tcp = new tt::TcpServer();
        g_tcp->init();
        g_got = new std::string[2];
        g_bad_closes = 0;
        set_threads_suppressed(false);
    };
    b.threads.push_back([=]()
    {
        tt::TcpServer *srv = s.http ? (tt::TcpServer*)g_http : g_tcp;
        sched_quiet(true);      // the start and the end of the server are not the subject
        tt::TcpListener *L = new tt::TcpListener(srv, 0);
        auto open = [&](int i)
        {
            int fd[2];
            if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd)) abort();
            g_fds[i] = fd[0];
            g_peers[i] = fd[1];
            tt::TcpListener::write_pipe(L->m_pipe_fds[1], fmt("c %d\n", fd[0]).c_str());
        };
        auto collect = [&](int i)
        {
            char x[4096];
            ssize_t n;
            while (g_peers[i] >= 0 && (n = read(g_peers[i], x, sizeof x)) > 0) g_got[i].append(x, n);
        };
        int conns = 0;
        for (auto &a : s.acts) conns = std::max(conns, a.what[1] - '0' + 1);
        for (int k = 0; k < 8; k++) sched_yield_now();
        for (int i = 0; i < conns; i++) open(i);
        g_until_read = s.acts[1].what[0] == 'q';        // then choices begin with the worker that has read
        if (!g_until_read) sched_quiet(false);
        bool direct = g_until_read;
        for (auto &a : s.acts)
        {
            int i = a.what[1] - '0';
            if (slow) for (int k = 0; k < slow; k++) sched_yield_now();
            else sched_point();
            if (a.what[0] == 'c')
            {
                size_t p = 0;
                for (int k = 0; p < a.data.size() && k < 200; k++)
                {
                    ssize_t n = write(g_peers[i], a.data.data() + p, a.data.size() - p);
                    if (n > 0) p += n;
                    else sched_yield_now();
                }
            }
            else if (a.what[0] == 'e') shutdown(g_peers[i], SHUT_WR);
            else if (a.what[0] == 'x') { collect(i); syscall(SYS_close, g_peers[i]); g_peers[i] = -1; }
            else if (a.what[0] == 'p')
            {
                int n = 0;
                for (int k = 0; k < 20 && !ioctl(L->m_pipe_fds[0], FIONREAD, &n) && !n; k++) sched_yield_now();
            }
            else if (a.what[0] == 'q')
            {
                for (int k = 0; k < 20 && g_until_read; k++) sched_yield_now();
            }
            else if (a.what[0] == 'n')
            {
                int k = 0;
                while (is_open(g_fds[i]) && k++ < 60) sched_yield_now();
                if (is_open(g_fds[i])) { *bad = "a connection the client has ended stays open"; break; }
                collect(i);
                syscall(SYS_close, g_peers[i]);
                open(i);
            }
            if (direct && a.what[0] != 'q' && &a != &s.acts[0]) sched_yield_to(3);      // the event loop sees each piece alone
        }
        for (int k = 0; k < 40; k++) { if (k == (s.acts[1].what[0] == 'q' ? 2 : 12)) sched_quiet(true); sched_yield_now(); }
        for (int i = 0; i < conns; i++) collect(i);
        for (int i = 0; i < conns && bad->empty(); i++)
        {
            char e = 0;
            for (auto &a : s.acts) if (a.what[1] - '0' == i) { if (a.what[0] == 'e' || a.what[0] == 'x') e = 'e'; else if (a.what[0] == 'n') e = 0; }
            if (e && is_open(g_fds[i])) *bad = "a connection the client has ended stays open";
            if (!e && !is_open(g_fds[i])) *bad = "a connection in use was closed";
        }
        L->shutdown();
        L->wait(5);
    });
    b.finish = [=](std::string &out)
    {
        out = *bad;
        if (out.empty() && g_bad_closes) out = "a descriptor was closed that is not open";
        if (!out.empty()) return;
        for (size_t i = 0; i < s.answers.size(); i++)
        {
            if (s.answers[i] < 0) continue;
            int n = 0;
            for (size_t p = 0; (p = g_got[i].find("HTTP/1.1 ", p)) != std::string::npos; p++) { n++; if (g_got[i].compare(p + 9, 3, "200")) { out = "answer " + g_got[i].substr(p, 40); return; } }
            if (n != s.answers[i]) { out = fmt("%d answers instead of %d on connection %zu", n, s.answers[i], i); return; }
        }
        if (!s.http) for (int i = 0; i < 2; i++) if (!g_got[i].empty()) { out = "unexpected answer " + g_got[i]; return; }
        std::string seen;
        for (const char *m : {"a", "b"})
        {
            std::vector<Series> r;
            std::string err;
            std::map<u64, double> got;
            if (!query_raw(m, DAYMS, DAYMS + DAY * 1000 - 1, true, r, &err)) { out = "query: " + err; return; }
            if (r.size() != 1) { out = fmt("%zu series of %s", r.size(), m); return; }
            for (auto &p : r[0].dps) got[p.first] = p.second;
            for (auto &p : s.points) if (p[0] == *m)
            {
                int i = atoi(p.c_str() + 1);
                auto it = got.find(DAYMS + 1000 * i);
                if (it == got.end()) { if (p.back() != '?') { out = "the line of " + p + " was lost"; return; } }
                else if (p.back() == '?') seen += p;
                else if (it->second != i) { out = "the line of " + p + " was changed"; return; }
            }
            size_t max = 3;
            for (auto &p : s.points) max += p[0] == *m;
            if (!strcmp(s.buf, "4kb") ? *m == 'a' && got.size() != 153 && !s.points.empty() : got.size() > max) { out = fmt("%zu points of %s", got.size(), m); return; }
            for (auto &p : got) if (p.second * 1000 != p.first - DAYMS) { out = fmt("point %llu of %s has %g", (unsigned long long)p.first, m, p.second); return; }
        }
        std::vector<Series> r;
        std::string err;
        Resp x = get("/api/suggest", "type=metrics&q=&max=1000");
        if (x.body.find("\"a\",\"b\"") == std::string::npos && x.body.find("\"b\",\"a\"") == std::string::npos) { out = "metrics " + x.body; return; }
        out = "served " + seen;
    };
    return b;
}

}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    for (int bound = 1; bound <= 2; bound++)
        for (auto &s : scenarios())
            for (int slow : {0, 1, 2, 3, 4, 6, 8, 10})      // how long the client waits between its pieces
            {
                bool read = s.acts[1].what[0] == 'q';
                if (read ? slow > 0 : slow % 6 && (!th || bound > 1)) continue;
                if (!th && bound > 1) continue;
                jobs.push_back({fmt("b%d-%d-", bound, slow) + s.name, [=](Ctx &c)
                {
                    Explored ex;
                    explore(c, s.name, [&]() { return body(s, c.dir + "/db", slow); }, bound, bound > 1 ? 20000 : 6000, [](const Execution &e) { return !e.end.empty() ? e.end : e.out.compare(0, 6, "served") ? e.out : std::string(); }, &ex);
                    c.sample(fmt("%s: %llu schedules, at most %llu decisions, %d racy places, %zu outcomes", s.name.c_str(), (unsigned long long)ex.executions, (unsigned long long)ex.max_steps, ex.racy, ex.outcomes.size()));
                }});
            }
}
