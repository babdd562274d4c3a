// The parts of C18 that are compiled like the server itself (instrumented).
#pragma once
#include <stddef.h>
struct QI
{
    virtual ~QI() {}
    virtual bool put(long v) = 0;
    virtual bool get(long &v) = 0;
    virtual bool put_wait(long v) = 0;
    virtual bool get_wait(long &v) = 0;
    virtual void stop() = 0;
    virtual size_t size() = 0;
};
QI *make_queue(int kind, size_t cap);   // 0: one producer/one consumer, 1: lock free, 2: with a lock
