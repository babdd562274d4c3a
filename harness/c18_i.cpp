#include "queue.h"
#include "c18_i.h"
struct Pay { long v; long w; };     // two words, so that a half copied item is seen
static Pay mk(long v) { Pay p; p.v = v; p.w = v ^ 0x5a5a; return p; }
static long un(const Pay &p) { return (p.v ^ 0x5a5a) == p.w ? p.v : -999; }
struct Q0 : QI
{
    tt::Queue11<Pay> q;
    Q0(size_t c) : q(c) {}
    bool put(long v) { return q.try_enqueue(mk(v)); }
    bool get(long &v) { Pay p = mk(-1); bool ok = q.try_dequeue(p); v = un(p); return ok; }
    bool put_wait(long v) { return put(v); }
    bool get_wait(long &v) { return get(v); }
    void stop() { q.shutdown(); }
    size_t size() { return q.size(); }
};
struct Q1 : QI
{
    tt::Queue<Pay> q;
    Q1(size_t c) : q(c) {}
    bool put(long v) { return q.try_enqueue(mk(v)); }
    bool get(long &v) { Pay p = mk(-1); bool ok = q.try_dequeue(p); v = un(p); return ok; }
    bool put_wait(long v) { return q.enqueue(mk(v)); }
    bool get_wait(long &v) { Pay p = mk(-1); bool ok = q.dequeue(p); v = un(p); return ok; }
    void stop() { q.shutdown(); }
    size_t size() { return q.size(); }
};
struct Q2 : QI
{
    tt::QueueMutex<Pay> q;
    Q2(size_t c) : q(c) {}
    bool put(long v) { return q.enqueue(mk(v)); }
    bool get(long &v) { Pay p = mk(-1); bool ok = q.dequeue(p); v = un(p); return ok; }
    bool put_wait(long v) { return put(v); }
    bool get_wait(long &v) { return get(v); }
    void stop() {}
    size_t size() { return q.size(); }
};
QI *make_queue(int kind, size_t cap)
{
    if (kind == 0) return new Q0(cap);
    if (kind == 1) return new Q1(cap);
    return new Q2(cap);
}
