// C18: tasks run exactly once, queues deliver each accepted item once and in order, waiters are released.
#include "cfg.h"
#include "ctl.h"
#include "c18_i.h"
#include "global.h"
#include "task.h"
#include "sync.h"
#include <stdexcept>
using namespace vh;

const char *vh::g_rule =
    "all schedules with at most 2 (small bodies and thorough: 3) preemptions, placed at locks, atomics, yields and every unprotected shared access, of: producers and consumers on each queue class with 1 to 3 slots from every head position, empty or full; "
    "a scheduler with 1 to 3 workers and 1 to 3 slots given tasks for any worker, a chosen worker or all of them, failing tasks and a concurrent shutdown; counting signals with 1 or 2 waiters. "
    "Non-trivial = a schedule with at least one preemption";

// ------------------------------------------------------------------- queues --
struct Ev { int th; char op; long v; bool ok; int from, to; };
static Ev g_ev[64];
static int g_nev, g_time;

static bool ev_put(QI *q, int th, long v, bool wait)
{
    int at = g_time++;
    bool ok = wait ? q->put_wait(v) : q->put(v);
    g_ev[g_nev++] = {th, 'P', v, ok, at, g_time++};
    return ok;
}
static bool ev_get(QI *q, int th, bool wait)
{
    int at = g_time++;
    long v = -1;
    bool ok = wait ? q->get_wait(v) : q->get(v);
    g_ev[g_nev++] = {th, 'G', v, ok, at, g_time++};
    return ok;
}

struct QCase
{
    int kind, cap, rot;
    bool full, wait, stop;
    std::vector<std::string> th;    // each thread: P and G in order
    std::string name() const
    {
        const char *k[] = {"spsc", "mpmc", "lock"};
        std::string s = fmt("%s-%d-r%d%s%s", k[kind], cap, rot, full ? "-full" : "", wait ? "-wait" : "");
        for (auto &t : th) s += "-" + t;
        return s + (stop ? "-stop" : "");
    }
};

static std::string judge_queue(const QCase &q, QI *qi)
{
    // drain what is left
    for (int i = 0; i < 8; i++) if (!ev_get(qi, 99, false)) break;
    std::map<long, Ev*> put, got;
    for (int i = 0; i < g_nev; i++)
    {
        Ev &e = g_ev[i];
        if (!e.ok) continue;
        if (e.op == 'P') put[e.v] = &e;
        else
        {
            if (got.count(e.v)) return fmt("item %ld was delivered twice", e.v);
            got[e.v] = &e;
        }
    }
    for (auto &p : put) if (!got.count(p.first)) return fmt("item %ld was accepted but never delivered", p.first);
    for (auto &g : got)
    {
        if (!put.count(g.first)) return fmt("item %ld was delivered but never accepted", g.first);
        if (g.second->to < put[g.first]->from) return fmt("item %ld was delivered before it was put", g.first);
    }
    // order of the items of one producer: 100*producer + number
    for (auto &a : got) for (auto &b : got) if (a.first < b.first && a.first / 100 == b.first / 100)
    {
        if (b.second->to < a.second->from) return fmt("item %ld was delivered before item %ld of the same producer", b.first, a.first);
        if (a.second->th == b.second->th && b.second < a.second) return fmt("consumer %d got item %ld before item %ld of the same producer", a.second->th, b.first, a.first);
    }
    // a waiting call may only fail after a stop
    if (q.wait && !q.stop && q.kind == 1) for (int i = 0; i < g_nev; i++) if (!g_ev[i].ok && g_ev[i].th < 90) return "a waiting call gave up without being stopped";
    // refusals that were not due
    if (q.kind != 1 && !q.wait)
        for (int i = 0; i < g_nev; i++) if (!g_ev[i].ok && g_ev[i].th < 90)
        {
            Ev &e = g_ev[i];
            int lo_in = 0, hi_in = 0;       // least and most items that can be in the queue during the call
            for (int k = 0; k < g_nev; k++) if (g_ev[k].ok)
            {
                int d = g_ev[k].op == 'P' ? 1 : -1;
                if (g_ev[k].to < e.from) { lo_in += d; hi_in += d; }
                else if (g_ev[k].from < e.to) { if (d > 0) hi_in++; else lo_in--; }
            }
            if (e.op == 'P' && hi_in < std::max(1, q.cap - 1)) return fmt("item %ld was refused with %d items in the queue", e.v, hi_in);
            if (e.op == 'G' && lo_in > 0) return fmt("nothing was delivered with %d items in the queue", lo_in);
        }
    // and it still works: fill it, then drain it
    if (qi->size() != 0) return fmt("the drained queue says it has %zu items", qi->size());
    for (int round = 0; round < 3; round++)
    {
        int n = 0;
        while (n < 8 && qi->put(1000 + n)) n++;
        if (n < std::max(1, q.kind == 1 ? q.cap : q.cap - 1) || n > std::max(2, q.cap)) return fmt("a queue of %d took %d items", q.cap, n);
        if (q.kind != 2 && qi->size() != (size_t)n) return fmt("size %zu with %d items", qi->size(), n);
        for (int i = 0; i < n; i++)
        {
            long v = -1;
            if (!qi->get(v) || v != 1000 + i) return fmt("after filling the queue, item %d came out as %ld", 1000 + i, v);
        }
        long v;
        if (qi->get(v)) return fmt("an empty queue delivered %ld", v);
    }
    return "";
}

static std::string history()
{
    std::string s;
    for (int i = 0; i < g_nev; i++) s += fmt("%d%c%ld%s ", g_ev[i].th, g_ev[i].op, g_ev[i].v, g_ev[i].ok ? "" : "!");
    return s;
}

static SchedBody queue_body(const QCase &q)
{
    SchedBody b;
    auto qi = std::make_shared<QI*>(nullptr);
    auto left = std::make_shared<int>((int)q.th.size());
    b.setup = [q, qi]()
    {
        g_nev = g_time = 0;
        *qi = make_queue(q.kind, q.cap);
        for (int i = 0; i < q.rot; i++) { (*qi)->put(7); long v; (*qi)->get(v); }
        if (q.full) for (int i = 0; i < 8; i++) if (!ev_put(*qi, 90, 9000 + i, false)) { g_nev--; break; }
    };
    for (size_t t = 0; t < q.th.size(); t++)
        b.threads.push_back([q, qi, t]()
        {
            int n = 0;
            for (char c : q.th[t])
                if (c == 'P') ev_put(*qi, t, 100 * (t + 1) + n++, q.wait);
                else ev_get(*qi, t, q.wait);
        });
    if (q.stop) b.threads.push_back([qi]() { sched_point(); (*qi)->stop(); });
    b.finish = [q, qi](std::string &out)
    {
        std::string h = history();
        std::string v = judge_queue(q, *qi);
        out = v.empty() ? "ok " + h : "BAD " + v + "; history: " + h;
    };
    return b;
}

// ---------------------------------------------------------------- scheduler --
struct TCase
{
    int workers, slots;
    std::string subs;       // a: any worker, 0-9: that worker, *: all, e: any, throws, x: any, throws something else
    bool stop;
    std::string name() const { return fmt("tasks-w%d-q%d-", workers, slots) + subs + (stop ? "-stop" : ""); }
};

struct Ran { int id, th; };
static Ran g_ran[64];
static int g_nran;
static char g_kind[64];

static bool task_fn(tt::TaskData &d)
{
    int i = d.integer;
    if (d.pointer != (void*)(uintptr_t)(0x1000 + i)) g_ran[g_nran++] = {-1, sched_self()};
    else g_ran[g_nran++] = {i, sched_self()};
    if (g_kind[i] == 'e') throw std::runtime_error("task failed");
    if (g_kind[i] == 'x') throw 7;
    return false;
}

static SchedBody task_body(const TCase &t)
{
    SchedBody b;
    struct S { tt::TaskScheduler *ts = nullptr; int n = 0, expect = 0; std::vector<int> to, id; bool up = false, joined = false, stopped = false; size_t total = 0, pending = 0; };
    auto s = std::make_shared<S>();
    b.setup = []() { g_nran = 0; set_threads_suppressed(false); };
    b.threads.push_back([t, s]()
    {
        s->ts = new tt::TaskScheduler("t", t.workers, t.slots);
        s->up = true;
        for (char c : t.subs)
        {
            tt::Task k;
            k.doit = task_fn;
            k.data.integer = s->n;
            k.data.pointer = (void*)(uintptr_t)(0x1000 + s->n);
            g_kind[s->n++] = c;
            if (c == '*') { s->ts->submit_task_to_all(k); s->to.push_back(-2); s->expect += t.workers; }
            else
            {
                int id = s->ts->submit_task(k, c >= '0' && c <= '9' ? c - '0' : -1);
                s->to.push_back(id);
                s->expect++;
            }
            // the caller may reuse its task
            k.doit = nullptr;
            k.data.integer = 63;
        }
        if (!t.stop)
        {
            while (g_nran < s->expect) sched_yield_now();
            s->ts->shutdown();
        }
        else while (!s->ts->is_shutdown_requested()) sched_yield_now();
        s->ts->wait(5);
        s->joined = true;
        s->stopped = s->ts->is_stopped();
        size_t cnt[8] = {0};
        int n = s->ts->get_total_task_count(cnt, 8);
        for (int i = 0; i < n; i++) s->total += cnt[i];
        std::vector<size_t> pc;
        s->pending = s->ts->get_pending_task_count(pc);
        delete s->ts;
    });
    if (t.stop) b.threads.push_back([s]() { while (!s->up) sched_yield_now(); sched_point(); s->ts->shutdown(); });
    b.finish = [t, s](std::string &out)
    {
        std::string v;
        std::map<int, int> times;
        std::map<int, std::vector<int>> by_th;
        for (int i = 0; i < g_nran; i++) { times[g_ran[i].id]++; by_th[g_ran[i].th].push_back(g_ran[i].id); }
        if (times.count(-1)) v = "a task ran with other data than it was given";
        for (int i = 0; i < s->n && v.empty(); i++)
        {
            int want = g_kind[i] == '*' ? t.workers : 1;
            if (t.stop ? times[i] > want : times[i] != want) v = fmt("task %d ran %d times instead of %d", i, times[i], want);
            if (s->to[i] == -1 && times[i]) v = fmt("task %d was refused but ran", i);
            if (!t.stop && s->to[i] == -1) v = fmt("task %d was refused", i);
            if (g_kind[i] >= '0' && g_kind[i] <= '9' && s->to[i] >= 0 && s->to[i] != g_kind[i] - '0') v = fmt("task %d for worker %c was given to worker %d", i, g_kind[i], s->to[i]);
            if (s->to[i] >= t.workers) v = fmt("task %d was given to worker %d", i, s->to[i]);
        }
        // tasks of one worker run in the order they were submitted, by one thread
        std::map<int, int> th_of;
        for (auto &x : by_th)
            for (size_t i = 0; i < x.second.size() && v.empty(); i++)
            {
                if (i && x.second[i] <= x.second[i - 1]) v = fmt("task %d ran after task %d on the same worker", x.second[i - 1], x.second[i]);
                int id = s->to[x.second[i]];
                if (id < 0) continue;
                if (th_of.count(id) && th_of[id] != x.first) v = fmt("tasks of worker %d ran on two threads", id);
                th_of[id] = x.first;
            }
        if (v.empty() && !s->stopped) v = "the workers are not stopped after waiting for them";
        if (v.empty() && !t.stop && s->total != (size_t)s->expect) v = fmt("%zu tasks counted instead of %d", s->total, s->expect);
        if (v.empty() && !t.stop && s->pending) v = fmt("%zu tasks pending at the end", s->pending);
        std::string h;
        for (int i = 0; i < g_nran; i++) h += fmt("%d@%d ", g_ran[i].id, g_ran[i].th);
        out = v.empty() ? "ok " + h : "BAD " + v + "; ran: " + h;
    };
    return b;
}

// ------------------------------------------------------------------ signals --
struct SCase
{
    int start;
    std::string th;     // w: wait, k: wait keeping the lock, d: down 1, D: down 2, u: up then down
    std::string name() const { return fmt("signal-%d-", start) + th; }
};

static SchedBody signal_body(const SCase &k)
{
    SchedBody b;
    struct S { tt::CountingSignal *cs = nullptr; int up = 0, down = 0, in = 0; std::string bad, h; };
    auto s = std::make_shared<S>();
    b.setup = [k, s]() { s->cs = new tt::CountingSignal(k.start); s->up = k.start; };
    for (char c : k.th)
        b.threads.push_back([c, s]()
        {
            if (c == 'w' || c == 'k')
            {
                s->cs->wait(c == 'k');
                if (s->up > s->down) s->bad = fmt("a waiter was released with a count of %d", s->up - s->down);
                s->h += c;
                if (c == 'k')
                {
                    if (s->in++) s->bad = "two waiters hold the lock";
                    sched_point();
                    if (s->up > s->down) s->bad = "the count went up while a waiter kept the lock";
                    s->in--;
                    s->cs->unlock();
                }
            }
            else if (c == 'd' || c == 'D') { int n = c == 'd' ? 1 : 2; s->down += n; s->cs->count_down(n); s->h += c; }
            else
            {
                // counted as up only once the call is known to have been accepted
                bool ok = s->cs->count_up();
                if (ok) { s->up++; s->h += 'u'; s->down++; s->cs->count_down(); }
                else s->h += '-';
            }
        });
    b.finish = [s](std::string &out) { out = s->bad.empty() ? "ok " + s->h : "BAD " + s->bad; };
    return b;
}

// --------------------------------------------------------------------- jobs --
static std::string verdict(const Execution &e)
{
    if (!e.end.empty()) return e.end;
    if (e.out.compare(0, 3, "BAD") == 0) return e.out.substr(4);
    if (e.out.compare(0, 2, "ok") != 0) return "no answer: " + e.out;
    return "";
}

static void run(Ctx &c, const std::string &name, const std::function<SchedBody()> &make, int bound, u64 cap)
{
    Explored ex;
    explore(c, name, make, bound, cap, verdict, &ex);
    c.sample(fmt("%s: bound %d, %llu schedules (0/1/2/3 preemptions: %llu/%llu/%llu/%llu), %llu points, %d unprotected accesses, %zu outcomes%s", name.c_str(), bound,
        (unsigned long long)ex.executions, (unsigned long long)ex.by_cost[0], (unsigned long long)ex.by_cost[1], (unsigned long long)ex.by_cost[2], (unsigned long long)ex.by_cost[3],
        (unsigned long long)ex.points, ex.racy, ex.outcomes.size(), ex.complete ? "" : " (capped)"));
}

void vh::list_jobs(const std::string &tier, std::vector<Job> &jobs)
{
    bool th = tier == "thorough";
    auto add = [&](const std::string &name, std::function<SchedBody()> mk, int bound, bool db)
    {
        jobs.push_back({name, [=](Ctx &c)
        {
            if (db) { set_clock_ms((BASE + 1000) * 1000); db_start(c.dir + "/db", conf_of({4, 256, false})); }
            run(c, name, mk, bound, th ? 400000 : 40000);
        }});
    };
    std::vector<QCase> qs;
    for (int cap = 1; cap <= 4; cap++)
        for (int rot = 0; rot < cap && rot < (th ? 4 : 3); rot++)
            for (int full = 0; full < 2; full++)
                for (auto t : std::vector<std::vector<std::string>>{{"PPP", "GGG"}, {"PP", "GGGG"}, {"PPPP", "GG"}})
                    qs.push_back({0, cap, rot, (bool)full, false, false, t});
    for (int kind = 1; kind <= 2; kind++)
        for (int cap = kind; cap <= 3 + (kind == 2); cap++)     // the one with a lock never uses one slot
            for (int rot = 0; rot < (th ? cap : std::min(cap, 2)); rot++)
                for (int full = 0; full < 2; full++)
                    for (auto t : std::vector<std::vector<std::string>>{{"PP", "GG"}, {"PG", "PG"}, {"PP", "P", "GG"}, {"PP", "G", "GG"}, {"P", "P", "GG"}, {"PG", "PG", "GP"}})
                    {
                        if (!th && t.size() == 3 && (rot != cap - 1 || full != (cap & 1))) continue;
                        qs.push_back({kind, cap, rot, (bool)full, false, false, t});
                    }
    for (int cap = 1; cap <= 3; cap++)
        for (int full = 0; full < 2; full++)
        {
            // as many gets as there is room and items for: everyone comes through
            if (!full) { qs.push_back({1, cap, 0, false, true, false, {"PP", "GG"}}); qs.push_back({1, cap, cap - 1, false, true, false, {"PP", "P", "GGG"}}); qs.push_back({1, cap, cap, false, true, false, {"PP", "G", "G"}}); }
            qs.push_back({1, cap, 1, (bool)full, true, true, {"PP", "G"}});
            qs.push_back({1, cap, 1, (bool)full, true, true, {"P", "GGG"}});
        }
    for (auto &q : qs)
    {
        bool small = q.th.size() + q.stop == 2 && !q.wait;
        add(q.name(), [q]() { return queue_body(q); }, small || th ? 3 : 2, false);
    }
    std::vector<TCase> ts;
    for (int w = 1; w <= 3; w++)
        for (int q = 1; q <= 3; q++)
        {
            if (!th && w == 3 && q != 2) continue;
            std::vector<std::string> subs = {"aaa", "a*", "ea", "xa"};
            if (w == 3 && !th) subs = {"ea", "xa"};
            subs.push_back(w == 1 ? "00" : w == 2 ? "110" : th ? "21a" : "21");
            for (auto &s : subs) ts.push_back({w, q, s, false});
            if (w < 3) ts.push_back({w, q, w == 1 && q == 1 ? "aa" : w == 1 ? "a" : "aa", true});
            if (w < 3) ts.push_back({w, q, w == 1 ? "*0a" : "1*", true});
        }
    for (auto &t : ts) add(t.name(), [t]() { return task_body(t); }, th ? (t.workers == 3 ? 2 : 3) : t.workers == 1 && t.subs.size() < 3 ? 2 : 1, true);
    std::vector<SCase> ss;
    for (auto &x : std::vector<std::string>{"wd", "kd", "wwd", "wud", "kwd", "kud", "kkd"}) for (int st = 0; st < 2; st++) ss.push_back({st, x});
    for (auto &x : std::vector<std::string>{"wu", "ku", "wuu", "wwu", "kuu"}) ss.push_back({0, x});
    for (auto &x : std::vector<std::string>{"wdd", "kdd", "wwdd", "wD", "wwD", "wddu", "kkdd", "wkD"}) ss.push_back({2, x});
    for (auto &s : ss) add(s.name(), [s]() { return signal_body(s); }, s.th.size() < 4 ? 3 : th ? 3 : 2, false);
}
