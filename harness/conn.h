// Connections served by the server's own receive tasks, over socket pairs.
#pragma once
#include "cfg.h"
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include "http.h"
#include "tcp.h"
#include "task.h"

namespace vh
{

static const u64 DAYMS = BASE * 1000;

// ------------------------------------------------------------ connection --
static tt::HttpServer *g_http;
static tt::TcpServer *g_tcp;
static tt::TcpListener *g_listener;
static int g_pipe[2];

static void boot(Ctx &c, const char *bufsize = "64kb")
{
    set_clock_ms((BASE + DAY / 2) * 1000);
    Conf f = conf_of({2, 256, true});
    f["tcp.buffer.size"] = bufsize;
    db_start(c.dir + "/h", f);
    g_http = new tt::HttpServer();
    g_http->init();
    g_tcp = new tt::TcpServer();
    g_tcp->init();
    g_listener = new tt::TcpListener();
    if (pipe2(g_pipe, O_NONBLOCK)) abort();
    g_listener->m_pipe_fds[0] = g_pipe[0];
    g_listener->m_pipe_fds[1] = g_pipe[1];
    put_plain(fmt("put q.fix %llu 1.5 h=1\nput q.fix %llu 2.5 h=1\nput q.fix %llu 4 h=2\n", (unsigned long long)DAYMS + 1000, (unsigned long long)DAYMS + 61000, (unsigned long long)DAYMS + 61000));
}

struct Conn
{
    tt::TcpServer *srv;
    tt::TcpConnection *conn;
    int peer = -1;
    std::string got;
    bool stuck = false;
    Conn(tt::TcpServer *s, bool second = false) : srv(s)
    {
        int fd[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd)) { perror("socketpair"); abort(); }
        conn = s->create_conn();
        conn->fd = fd[0];
        conn->server = s;
        conn->listener = g_listener;
        if (second) conn->state |= TCS_SECOND;
        peer = fd[1];
    }
    ~Conn()
    {
        close(conn->fd);
        close(peer);
        tt::MemoryManager::free_recyclable(conn);
    }
    void collect()
    {
        char b[8192];
        ssize_t n;
        while ((n = read(peer, b, sizeof b)) > 0) got.append(b, n);
    }
    void run()
    {
        for (int k = 0;; k++)
        {
            conn->pending_tasks = 1;
            tt::Task t = srv->get_recv_data_task(conn);
            t.doit(t.data);
            collect();
            char b[256];
            if (read(g_pipe[0], b, sizeof b) <= 0) break;   // asked to be run again?
            if (k > 200) { stuck = true; break; }
        }
    }
    void deliver(const std::string &s, size_t from, size_t to)
    {
        size_t p = from;
        while (p < to)
        {
            ssize_t n = write(peer, s.data() + p, to - p);
            if (n > 0) p += n;
            else run();
        }
        run();
    }
};

}
