// Runtime behind the instrumented build: see ctl.h.
#include <algorithm>
#include "ctl.h"
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <unordered_map>
#include <deque>

namespace vh
{
bool threads_suppressed();
void crash_store(unsigned long pc, void *addr, size_t n);
extern bool g_crash_on;

// ---------------------------------------------------------------- state --
enum Wait { READY, W_MUTEX, W_RD, W_WR, W_COND, W_JOIN, DONE };

enum { MAXT = 10 };
struct Th
{
    int id = 0;
    Wait w = READY;
    void *obj = nullptr;
    bool yielded = false;
    int go = 0;             // futex
    void *(*fn)(void*) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    pthread_t tid{};
    char *stack_lo = nullptr, *stack_hi = nullptr;
    u64 locks = 0;          // bit set of locks held for writing
    u64 rlocks = 0;         // ... and for reading
    unsigned clk = 1;
    unsigned sj[MAXT] = {0};        // what happened before, by thread creation and join only
    unsigned hb[MAXT] = {0};        // ... and by atomics and conditions too (but not by locks)
};

struct Mx { int owner = -1; int depth = 0; int bit = 0; };
struct Rw { int writer = -1; int readers = 0; int bit = 0; std::map<int,int> who; };

static bool g_on = false;
static std::vector<Th*> g_th;
static Th *g_cur = nullptr;
static int g_all_done = 0;      // futex
static thread_local Th *me = nullptr;
static thread_local int t_busy = 0;
static std::vector<unsigned char> g_prefix;
static size_t g_pos = 0;
static std::vector<Step> g_steps;
static u64 g_points = 0, g_limit = 400000;
static std::string g_end;
static int g_report_fd = -1;
static std::unordered_set<unsigned long> *g_racy_pcs = nullptr;
static std::vector<unsigned long> *g_new_racy = nullptr;

static std::unordered_map<void*, Mx> *g_mx = nullptr;
static std::unordered_map<void*, Rw> *g_rw = nullptr;
static int g_next_bit = 0;

static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

extern "C" char __executable_start;
static void report_and_exit();
static std::map<std::pair<int, unsigned long>, int> *g_hist = nullptr;     // VH_HIST: where decisions are taken
static unsigned long g_last_pc = 0;

static bool enabled(Th *t) { return t->w == READY; }

static void wake_thread(Th *t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); futex_wake(&t->go); }

static void wait_turn(Th *t)
{
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

static bool g_quiet;
static int g_first = -1;

// picks the next thread and hands over; returns when the caller runs again
static void reschedule(unsigned short what)
{
    Th *t = me;
    g_points++;
    if (g_points > g_limit) { g_end = "livelock: no progress within the step limit"; report_and_exit(); }
    Th *cand[64];
    int n = 0;
    bool cur_ok = enabled(t) && !t->yielded;
    if (cur_ok) cand[n++] = t;
    // the others in cyclic order, so that threads that wait in a loop take turns
    int nt = (int)g_th.size();
    for (int i = 1; i < nt; i++) { Th *x = g_th[(t->id + i) % nt]; if (enabled(x) && !x->yielded) cand[n++] = x; }
    if (n == 0)
    {
        // only threads that yielded are left: they may all go on
        for (int i = 1; i <= nt; i++) { Th *x = g_th[(t->id + i) % nt]; if (enabled(x)) { x->yielded = false; cand[n++] = x; } }
        if (n == 0)
        {
            bool all = true;
            for (Th *x : g_th) if (x->w != DONE) all = false;
            if (all) { __atomic_store_n(&g_all_done, 1, __ATOMIC_SEQ_CST); futex_wake(&g_all_done); return; }
            g_end = "deadlock:";
            const char *nm[] = {"ready", "mutex", "read lock", "write lock", "condition", "join", "done"};
            for (Th *x : g_th) g_end += fmt(" thread %d: %s;", x->id, nm[x->w]);
            report_and_exit();
        }
        cur_ok = false;
    }
    for (int i = 1; i < n; i++) if (cand[i]->id == g_first) std::rotate(cand, cand + i, cand + i + 1);
    g_first = -1;
    int pick = 0;
    if (n > 1 && !g_quiet)
    {
        if (g_hist) { g_hist[0][std::make_pair((int)what, g_last_pc)]++; if (getenv("VH_TRACE")) fprintf(stderr, "TR %zu t%d n%d w%d %lx\n", g_pos, t->id, n, what, g_last_pc ? g_last_pc - (unsigned long)&__executable_start - 1 : 0); }
        if (g_pos < g_prefix.size()) { pick = g_prefix[g_pos]; if (pick >= n) { g_end = "divergence: choice not available"; report_and_exit(); } }
        g_pos++;
        g_steps.push_back({(unsigned char)n, (unsigned char)pick, (unsigned char)(cur_ok || what == 2), what});
    }
    Th *next = cand[pick];
    for (Th *x : g_th) if (x != next) { if (x != t) x->yielded = false; }
    next->yielded = false;
    if (next == t) return;
    g_cur = next;
    wake_thread(next);
    if (t->w == DONE) return;
    wait_turn(t);
}

static inline bool managed() { return g_on && me != nullptr && t_busy == 0; }

struct Busy { Busy() { t_busy++; } ~Busy() { t_busy--; } };

void sched_point() { if (managed()) { Busy b; reschedule(1); } }
void sched_yield_now() { if (managed()) { Busy b; me->yielded = true; reschedule(2); } }
void sched_yield_to(int id) { if (managed()) { Busy b; me->yielded = true; g_first = id; reschedule(2); } }
void sched_quiet(bool on) { g_quiet = on; }
int sched_self() { return me ? me->id : -1; }

// --------------------------------------------------------- shared accesses --
// Which accesses need scheduling points: two accesses by different threads to
// one word, one of them a write, with no lock in common and not ordered by
// thread creation, join, conditions or atomics.  Atomics count as such accesses
// themselves (then only creation and join order them).
struct Cell
{
    unsigned long g = 0;
    short wt = -1;                      // last plain write: thread, when, with which locks
    short awt = -1;
    unsigned wclk = 0, awclk = 0;
    u64 wlocks = 0, rlocks = ~0ULL;
    unsigned r[MAXT] = {0}, ar[MAXT] = {0};     // last plain / atomic read of each thread
    unsigned long wpc = 0, rpc = 0, awpc = 0, arpc = 0;
};
static Cell *g_tab = nullptr;
static const size_t TAB = 1 << 20;
static std::unordered_map<unsigned long, std::vector<unsigned>> *g_rel = nullptr;     // what an atomic publishes

static Cell *cell(unsigned long g, bool create)
{
    // neighbours stay together: a fresh page for every cell would cost more than everything else
    size_t i = ((g >> 5) * 0x9E3779B97F4A7C15ULL >> 49 << 5) | (g & 31);
    for (size_t k = 0; k < 64; k++)
    {
        Cell &c = g_tab[(i + k * 32) & (TAB - 1)];
        if (c.g == g) return &c;
        if (c.g == 0) { if (!create) return nullptr; c.g = g; c.wt = c.awt = -1; c.rlocks = ~0ULL; return &c; }
    }
    return nullptr;
}

extern "C" char __data_start, _end;
static inline bool is_static(unsigned long g) { return g << 3 >= (unsigned long)&__data_start && g << 3 < (unsigned long)&_end; }
static const unsigned long ADDR = 1UL << 63;

static void flag(unsigned long pc, unsigned long g)
{
    if (pc && g_racy_pcs->insert(pc).second) g_new_racy->push_back(pc);
    if (pc && is_static(g) && g_racy_pcs->insert(g | ADDR).second) g_new_racy->push_back(g | ADDR);
}

// the location is one of those, and so is the word, if that can be known (statics have the same address in every run)
static inline bool is_racy(unsigned long pc, unsigned long g)
{
    return g_racy_pcs->count(pc) && (!is_static(g) || g_racy_pcs->count(g | ADDR));
}

static void note(unsigned long pc, unsigned long g, bool write)
{
    Cell *c = cell(g, true);
    if (c == nullptr) return;
    u64 held = me->locks | (write ? 0 : me->rlocks);
    bool racy = false;
    if (c->wt >= 0 && c->wt != me->id && c->wclk > me->hb[c->wt] && (c->wlocks & held) == 0) { racy = true; flag(c->wpc, g); }
    if (c->awt >= 0 && c->awt != me->id && c->awclk > me->hb[c->awt]) { racy = true; flag(c->awpc, g); }
    if (write)
        for (int u = 0; u < MAXT; u++)
            if (u != me->id)
            {
                if (c->r[u] > me->hb[u] && (c->rlocks & held) == 0) { racy = true; flag(c->rpc, g); }
                if (c->ar[u] > me->hb[u]) { racy = true; flag(c->arpc, g); }
            }
    if (racy) flag(pc, g);
    if (write) { c->wt = me->id; c->wclk = me->clk; c->wlocks = held; c->wpc = pc; c->rlocks = ~0ULL; memset(c->r, 0, sizeof c->r); }
    else { c->r[me->id] = me->clk; c->rlocks &= held; c->rpc = pc; }
}

static void access_plain(unsigned long pc, void *a, size_t n, bool write)
{
    char *p = (char*)a;
    if (p >= me->stack_lo && p < me->stack_hi) return;
    Busy b;
    g_last_pc = pc;
    unsigned long g0 = (unsigned long)p >> 3, g1 = ((unsigned long)p + n - 1) >> 3;
    if (is_racy(pc, g0) || (g1 != g0 && is_racy(pc, g1))) reschedule(3);
    if (g1 - g0 > 32) g1 = g0 + 32;
    for (unsigned long g = g0; g <= g1; g++) note(pc, g, write);
}

static void access_atomic(unsigned long pc, void *a, bool write)
{
    Busy b;
    g_last_pc = pc;
    unsigned long g = (unsigned long)a >> 3;
    if (is_racy(pc, g)) reschedule(4);
    Cell *c = cell(g, true);
    if (c == nullptr) return;
    bool racy = false;
    if (c->wt >= 0 && c->wt != me->id && c->wclk > me->sj[c->wt]) { racy = true; flag(c->wpc, g); }
    if (c->awt >= 0 && c->awt != me->id && c->awclk > me->sj[c->awt]) { racy = true; flag(c->awpc, g); }
    if (write)
        for (int u = 0; u < MAXT; u++)
            if (u != me->id && (c->ar[u] > me->sj[u] || c->r[u] > me->sj[u])) { racy = true; flag(c->arpc, g); flag(c->rpc, g); }
    if (racy) flag(pc, g);
    if (write) { c->awt = me->id; c->awclk = me->clk; c->awpc = pc; }
    else { c->ar[me->id] = me->clk; c->arpc = pc; }
    // a store publishes, a load takes over (a read-modify-write does both)
    auto &v = (*g_rel)[g];
    if (v.empty()) v.resize(MAXT, 0);
    for (int u = 0; u < MAXT; u++) me->hb[u] = std::max(me->hb[u], v[u]);
    if (write)
    {
        for (int u = 0; u < MAXT; u++) v[u] = std::max(v[u], me->hb[u]);
        v[me->id] = me->clk++;
    }
}

static void forget(void *p, size_t n)
{
    for (unsigned long g = (unsigned long)p >> 3; g <= ((unsigned long)p + n - 1) >> 3; g++)
    {
        Cell *c = cell(g, false);
        if (c) { unsigned long k = c->g; *c = Cell(); c->g = k; }
    }
}

// ------------------------------------------------------------------ locks --
static int new_bit() { int b = g_next_bit++; return b & 63; }

static void mx_lock(void *m)
{
    Busy b;
    Mx &x = (*g_mx)[m];
    if (x.bit == 0) x.bit = 1 + new_bit() % 63;
    reschedule(5);
    while (x.owner >= 0)
    {
        me->w = W_MUTEX;
        me->obj = m;
        reschedule(6);
    }
    x.owner = me->id;
    me->locks |= 1ULL << x.bit;
}

static int mx_trylock(void *m)
{
    Busy b;
    Mx &x = (*g_mx)[m];
    if (x.bit == 0) x.bit = 1 + new_bit() % 63;
    reschedule(5);
    if (x.owner >= 0) return EBUSY;
    x.owner = me->id;
    me->locks |= 1ULL << x.bit;
    return 0;
}

static void wake_on(void *o)
{
    for (Th *t : g_th) if (t->obj == o && (t->w == W_MUTEX || t->w == W_RD || t->w == W_WR)) { t->w = READY; t->obj = nullptr; }
}

static void mx_unlock(void *m)
{
    Busy b;
    auto it = g_mx->find(m);
    if (it == g_mx->end() || it->second.owner != me->id) return;
    it->second.owner = -1;
    me->locks &= ~(1ULL << it->second.bit);
    wake_on(m);
}

static void rw_lock(void *m, bool wr)
{
    Busy b;
    Rw &x = (*g_rw)[m];
    if (x.bit == 0) x.bit = 1 + new_bit() % 63;
    reschedule(7);
    for (;;)
    {
        bool ok;
        if (wr) ok = x.writer < 0 && x.readers == 0;
        else
        {
            // the server asks for locks that prefer writers
            bool writer_waits = false;
            for (Th *t : g_th) if (t != me && t->w == W_WR && t->obj == m) writer_waits = true;
            ok = x.writer < 0 && !writer_waits;
        }
        if (ok) break;
        me->w = wr ? W_WR : W_RD;
        me->obj = m;
        reschedule(8);
    }
    if (wr) { x.writer = me->id; me->locks |= 1ULL << x.bit; }
    else { x.readers++; x.who[me->id]++; me->rlocks |= 1ULL << x.bit; }
}

static void rw_unlock(void *m)
{
    Busy b;
    Rw &x = (*g_rw)[m];
    if (x.writer == me->id) { x.writer = -1; me->locks &= ~(1ULL << x.bit); }
    else if (x.readers > 0) { x.readers--; if (--x.who[me->id] == 0) me->rlocks &= ~(1ULL << x.bit); }
    wake_on(m);
}

static std::unordered_map<void*, std::deque<Th*>> *g_cond = nullptr;

static void cond_wait(void *c, void *m)
{
    mx_unlock(m);
    {
        Busy b;
        me->w = W_COND;
        me->obj = c;
        (*g_cond)[c].push_back(me);
        reschedule(9);
    }
    mx_lock(m);
}

static void cond_signal(void *c, bool all)
{
    Busy b;
    reschedule(10);
    auto &q = (*g_cond)[c];
    while (!q.empty())
    {
        Th *t = q.front();
        q.pop_front();
        for (int u = 0; u < MAXT; u++) t->hb[u] = std::max(t->hb[u], me->hb[u]);
        t->hb[me->id] = me->clk++;
        t->w = READY;
        t->obj = nullptr;
        if (!all) break;
    }
}

// ---------------------------------------------------------------- threads --
static void *thread_main(void *a)
{
    Th *t = (Th*)a;
    me = t;
    pthread_attr_t at;
    {
        Busy b;
        pthread_getattr_np(pthread_self(), &at);
        void *lo; size_t sz;
        pthread_attr_getstack(&at, &lo, &sz);
        t->stack_lo = (char*)lo; t->stack_hi = (char*)lo + sz;
        pthread_attr_destroy(&at);
        wait_turn(t);
    }
    t->ret = t->fn(t->arg);
    Busy b;
    t->w = DONE;
    for (Th *x : g_th) if (x->w == W_JOIN && x->obj == t) { x->w = READY; x->obj = nullptr; }
    reschedule(11);
    me = nullptr;
    return t->ret;
}

typedef int (*create_f)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
static create_f real_create() { static create_f f = (create_f)dlsym(RTLD_NEXT, "pthread_create"); return f; }

static Th *spawn(void *(*fn)(void*), void *arg)
{
    Th *t = new Th();
    t->id = (int)g_th.size();
    if (t->id >= MAXT) { g_end = "too many threads"; report_and_exit(); }
    if (me)
    {
        memcpy(t->sj, me->sj, sizeof t->sj);
        memcpy(t->hb, me->hb, sizeof t->hb);
        t->sj[me->id] = t->hb[me->id] = me->clk++;
    }
    t->fn = fn;
    t->arg = arg;
    g_th.push_back(t);
    real_create()(&t->tid, nullptr, thread_main, t);
    return t;
}

static std::string enc()
{
    std::string o = fmt("%zu %llu %zu\n", g_steps.size(), (unsigned long long)g_points, g_new_racy->size());
    for (auto &s : g_steps) { o += (char)s.n; o += (char)s.chosen; o += (char)s.first_is_current; o += (char)(s.what & 255); }
    for (auto r : *g_new_racy) o += fmt("%lx\n", r);
    o += fmt("%zu\n", g_end.size()) + g_end;
    return o;
}

static void send_all(int fd, const std::string &s)
{
    size_t p = 0;
    while (p < s.size()) { ssize_t n = write(fd, s.data() + p, s.size() - p); if (n <= 0) break; p += n; }
}

static void report_and_exit()
{
    t_busy++;
    g_on = false;
    send_all(g_report_fd, enc());
    _exit(0);
}

static void *run_fn(void *a) { (*(std::function<void()>*)a)(); return nullptr; }

static void run_threads(std::vector<std::function<void()>> &fns)
{
    g_mx = new std::unordered_map<void*, Mx>();
    g_rw = new std::unordered_map<void*, Rw>();
    g_cond = new std::unordered_map<void*, std::deque<Th*>>();
    g_rel = new std::unordered_map<unsigned long, std::vector<unsigned>>();
    g_tab = (Cell*)mmap(nullptr, TAB * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_th.reserve(64);
    for (auto &f : fns) spawn(run_fn, &f);
    g_on = true;
    // the first decision: who starts
    int pick = 0;
    if (g_th.size() > 1)
    {
        if (!g_prefix.empty()) pick = g_prefix[0];
        g_pos = 1;
        g_steps.push_back({(unsigned char)g_th.size(), (unsigned char)pick, 0, 0});
    }
    wake_thread(g_th[pick]);
    while (!__atomic_load_n(&g_all_done, __ATOMIC_SEQ_CST)) futex_wait(&g_all_done, 0);
    g_on = false;
    for (Th *t : g_th) pthread_join(t->tid, nullptr);
}

// ------------------------------------------------------------- exploration --
static Execution run_one(const std::function<SchedBody()> &make, const std::vector<unsigned char> &prefix, const std::unordered_set<unsigned long> &racy, int timeout_s)
{
    Execution e;
    int fd[2];
    if (pipe(fd)) abort();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        alarm(timeout_s);
        signal(SIGALRM, SIG_DFL);
        g_report_fd = fd[1];
        if (getenv("VH_HIST")) g_hist = new std::map<std::pair<int, unsigned long>, int>();
        g_prefix = prefix;
        g_racy_pcs = new std::unordered_set<unsigned long>(racy);
        g_new_racy = new std::vector<unsigned long>();
        std::string out;
        try
        {
            SchedBody b = make();
            if (b.setup) b.setup();
            run_threads(b.threads);
            if (g_hist) { for (auto &h : *g_hist) fprintf(stderr, "HIST %d %lx %d\n", h.first.first, h.first.second ? h.first.second - (unsigned long)&__executable_start - 1 : 0, h.second); fprintf(stderr, "HIST end\n"); }
            if (b.finish) b.finish(out);
        }
        catch (std::exception &x) { out = std::string("exception: ") + x.what(); }
        send_all(fd[1], enc() + out);
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { e.end = WTERMSIG(st) == SIGALRM ? "timeout" : fmt("crash-signal-%d", WTERMSIG(st)); return e; }
    if (WEXITSTATUS(st) != 0 || s.empty()) { e.end = fmt("exit-%d", WEXITSTATUS(st)); return e; }
    size_t ns, nr;
    unsigned long long pts;
    if (sscanf(s.c_str(), "%zu %llu %zu", &ns, &pts, &nr) != 3) { e.end = "bad report"; return e; }
    e.points = pts;
    size_t p = s.find('\n') + 1;
    for (size_t i = 0; i < ns; i++, p += 4) e.steps.push_back({(unsigned char)s[p], (unsigned char)s[p + 1], (unsigned char)s[p + 2], (unsigned char)s[p + 3]});
    for (size_t i = 0; i < nr; i++) { e.racy.push_back(strtoul(s.c_str() + p, nullptr, 16)); p = s.find('\n', p) + 1; }
    size_t el = strtoull(s.c_str() + p, nullptr, 10);
    p = s.find('\n', p) + 1;
    e.end = s.substr(p, el);
    e.out = s.substr(p + el);
    return e;
}

void Later::prepare(const std::function<void(std::string &in, std::string &out)> &fn, int timeout_s)
{
    int a[2], b[2];
    if (pipe(a) || pipe(b)) abort();
    pid = fork();
    if (pid == 0)
    {
        close(a[1]); close(b[0]);
        if (g_report_fd >= 0) close(g_report_fd);
        alarm(0);
        std::string in, out;
        char buf[65536];
        ssize_t n;
        while ((n = read(a[0], buf, sizeof buf)) > 0) in.append(buf, n);
        if (in.empty()) _exit(0);
        alarm(timeout_s);
        int code = 0;
        try { fn(in, out); }
        catch (std::exception &x) { out = std::string("exception: ") + x.what(); code = 3; }
        send_all(b[1], out);
        _exit(code);
    }
    close(a[0]); close(b[1]);
    to = a[1]; from = b[0];
}

ChildResult Later::run(const std::string &in)
{
    send_all(to, in);
    close(to);
    ChildResult r;
    char buf[65536];
    ssize_t n;
    while ((n = read(from, buf, sizeof buf)) > 0) r.out.append(buf, n);
    close(from);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); if (r.sig == SIGALRM) r.timeout = true; }
    else { r.exited = true; r.code = WEXITSTATUS(st); }
    return r;
}

static std::string sched_str(const std::vector<unsigned char> &p)
{
    std::string s;
    size_t n = p.size();
    while (n > 0 && p[n - 1] == 0) n--;
    size_t i = 0;
    while (i < n)
    {
        if (p[i] == 0) { size_t k = i; while (k < n && p[k] == 0) k++; s += fmt("%zu*.", k - i); i = k; }
        else s += fmt("%d.", p[i++]);
    }
    return s.empty() ? "default" : s;
}

void explore(Ctx &c, const std::string &name, const std::function<SchedBody()> &make, int bound, u64 cap,
    const std::function<std::string(const Execution&)> &verdict, Explored *res)
{
    Explored ex;
    std::unordered_set<unsigned long> racy;
    // find the accesses that need scheduling points: default schedules first, until no new one appears
    for (int round = 0;; round++)
    {
        ex.rounds = round + 1;
        std::vector<std::deque<std::vector<unsigned char>>> q(bound + 2);
        q[0].push_back({});
        bool restart = false;
        u64 done = 0;
        ex.executions = ex.points = ex.max_steps = 0;
        memset(ex.by_cost, 0, sizeof ex.by_cost);
        ex.complete = true;
        ex.outcomes.clear();
        for (int cost = 0; cost <= bound && !restart; cost++)
            while (!q[cost].empty())
            {
                if (done >= cap) { ex.complete = false; break; }
                std::vector<unsigned char> pre = q[cost].back();
                q[cost].pop_back();
                std::string label = name + "/" + sched_str(pre);
                c.at(label);
                Execution e = run_one(make, pre, racy, 20);
                if (e.end == "timeout") e = run_one(make, pre, racy, 90);
                done++;
                ex.executions++;
                ex.points += e.points;
                ex.max_steps = std::max<u64>(ex.max_steps, e.steps.size());
                ex.by_cost[cost < 7 ? cost : 7]++;
                c.eval();
                if (cost) c.nt();
                c.transitions += e.points;
                // replayed decisions must be the recorded ones
                bool same = e.steps.size() >= pre.size() || !e.end.empty();
                for (size_t i = 0; same && i < pre.size() && i < e.steps.size(); i++) same = e.steps[i].chosen == pre[i];
                if (!same || e.end.compare(0, 10, "divergence") == 0) { size_t i = 0; while (i < pre.size() && i < e.steps.size() && e.steps[i].chosen == pre[i]) i++;
                    c.violation(label, fmt("the schedule could not be replayed: %zu of %zu decisions, then %d of %d ", i, pre.size(), i < e.steps.size() ? e.steps[i].chosen : -1, i < pre.size() ? pre[i] : -1) + e.end); continue; }
                std::string v = verdict(e);
                ex.outcomes.insert(e.end + "|" + e.out);
                if (!v.empty())
                {
                    // confirm by replaying the whole schedule
                    std::vector<unsigned char> full;
                    for (auto &s : e.steps) full.push_back(s.chosen);
                    Execution e2 = run_one(make, e.end.empty() ? full : pre, racy, 90);
                    std::string v2 = verdict(e2);
                    if (v2 == v) c.violation(label, v);
                    else c.violation(label, "not reproducible: first " + v + " then " + v2);
                    if (c.full()) { if (res) *res = ex; return; }
                }
                size_t before = racy.size();
                for (auto r : e.racy) racy.insert(r);
                if (racy.size() != before && racy.size() < 3000 && round < 12) { restart = true; break; }
                if (!e.end.empty()) continue;
                int k = 0;
                for (size_t i = 0; i < e.steps.size(); i++)
                {
                    const Step &s = e.steps[i];
                    if (i >= pre.size())
                        for (int a = 1; a < s.n; a++)
                        {
                            int nc = k + (s.first_is_current ? 1 : 0);
                            if (nc > bound) break;
                            std::vector<unsigned char> np;
                            np.reserve(i + 1);
                            for (size_t j = 0; j < i; j++) np.push_back(e.steps[j].chosen);
                            np.push_back(a);
                            q[nc].push_back(np);
                        }
                    if (s.first_is_current && s.chosen) k++;
                }
            }
        if (!restart) break;
    }
    ex.racy = racy.size();
    c.states += ex.points;
    c.traces += ex.executions;
    for (auto &o : ex.outcomes) c.outcome(name + o);
    c.stats["executions"] += ex.executions;
    if (!ex.complete) c.capped = true;
    if (res) *res = ex;
}

}

using namespace vh;

#define PC ((unsigned long)__builtin_return_address(0))
#define ON (g_on && me != nullptr && t_busy == 0)

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void *a) { if (ON) access_plain(PC, a, N, false); } \
void __tsan_write##N(void *a) { if (__builtin_expect(g_crash_on, 0)) crash_store(PC, a, N); if (ON) access_plain(PC, a, N, true); } \
void __tsan_unaligned_read##N(void *a) { if (ON) access_plain(PC, a, N, false); } \
void __tsan_unaligned_write##N(void *a) { if (__builtin_expect(g_crash_on, 0)) crash_store(PC, a, N); if (ON) access_plain(PC, a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (ON && n) access_plain(PC, a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { if (g_crash_on && n) crash_store(PC, a, n); if (ON && n) access_plain(PC, a, n, true); }
void __tsan_vptr_update(void **a, void *v) { if (ON && *a != v) access_plain(PC, a, 8, true); }
void __tsan_vptr_read(void **a) { if (ON) access_plain(PC, a, 8, false); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int) { if (ON) access_atomic(PC, (void*)a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { if (ON) access_atomic(PC, (void*)a, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int, int) { if (ON) access_atomic(PC, (void*)a, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ------------------------------------------------------- interposed calls --
#define REAL(ret, name, ...) typedef ret (*F)(__VA_ARGS__); static F real = (F)dlsym(RTLD_NEXT, #name)

static void *inert(void *) { return nullptr; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg)
{
    if (threads_suppressed()) return real_create()(t, a, inert, nullptr);
    if (ON)
    {
        Busy b;
        Th *x = spawn(fn, arg);
        *t = x->tid;
        reschedule(12);
        return 0;
    }
    return real_create()(t, a, fn, arg);
}
int pthread_join(pthread_t t, void **r)
{
    REAL(int, pthread_join, pthread_t, void**);
    if (ON)
    {
        Busy b;
        for (Th *x : g_th) if (pthread_equal(x->tid, t))
        {
            while (x->w != DONE) { me->w = W_JOIN; me->obj = x; reschedule(13); }
            for (int u = 0; u < MAXT; u++) { me->sj[u] = std::max(me->sj[u], x->sj[u]); me->hb[u] = std::max(me->hb[u], x->hb[u]); }
            me->sj[x->id] = me->hb[x->id] = x->clk;
            if (r) *r = x->ret;
            return 0;
        }
    }
    return real(t, r);
}
int pthread_detach(pthread_t t)
{
    REAL(int, pthread_detach, pthread_t);
    if (ON) return 0;
    return real(t);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    if (ON) { mx_lock(m); return 0; }
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (ON) return mx_trylock(m);
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    if (ON) { mx_unlock(m); return 0; }
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    if (ON) { rw_lock(m, false); return 0; }
    return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    if (ON) { rw_lock(m, true); return 0; }
    return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    if (ON) { rw_unlock(m); return 0; }
    return real(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    if (ON) { cond_wait(c, m); return 0; }
    return real(c, m);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    if (ON) { cond_signal(c, false); return 0; }
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    if (ON) { cond_signal(c, true); return 0; }
    return real(c);
}
// waiting in a loop is waiting: the first rounds of the server's spin loops count as yields too
void __real__ZN2tt10spin_yieldEj(unsigned int) __attribute__((weak));
void __wrap__ZN2tt10spin_yieldEj(unsigned int k)
{
    if (ON) sched_yield_now();
    else if (__real__ZN2tt10spin_yieldEj) __real__ZN2tt10spin_yieldEj(k);
}
int sched_yield()
{
    if (ON) { sched_yield_now(); return 0; }
    return syscall(SYS_sched_yield);
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (ON) { sched_yield_now(); return 0; }
    return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t, int, const struct timespec *a, struct timespec *b)
{
    if (ON) { sched_yield_now(); return 0; }
    return -syscall(SYS_nanosleep, a, b);
}
int usleep(useconds_t u)
{
    if (ON) { sched_yield_now(); return 0; }
    struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return syscall(SYS_nanosleep, &t, nullptr);
}
void __libc_free(void*);
void free(void *p)
{
    if (p && ON) { Busy b; forget(p, malloc_usable_size(p)); }
    __libc_free(p);
}
}
