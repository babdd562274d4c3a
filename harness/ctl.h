// Controlled execution of the instrumented build (V=tsi): a cooperative
// scheduler that owns every thread, lock, condition and racy access, a
// bounded-preemption exploration over it, and crash points at every file
// operation and every store into a mapped file.
#pragma once
#include "vh.h"
#include <functional>

namespace vh
{

// ------------------------------------------------------------- scheduler --
struct Step { unsigned char n, chosen, first_is_current; unsigned short what; };     // first_is_current: another choice than the first costs one (a preemption, or other than the next thread at a yield)

struct Execution
{
    std::vector<Step> steps;            // decisions with more than one choice
    std::vector<unsigned long> racy;    // code locations of unprotected shared accesses
    std::string end;                    // "" or deadlock / livelock / crash text
    std::string out;                    // what the body reported
    u64 points = 0;                     // scheduling points passed
};

struct SchedBody
{
    // runs in a process of its own: prepare state, then the threads under the scheduler, then observe
    std::function<void()> setup;
    std::vector<std::function<void()>> threads;
    std::function<void(std::string &out)> finish;
};

struct Explored
{
    u64 executions = 0, points = 0, max_steps = 0;
    u64 by_cost[8] = {0};
    bool complete = true;
    int racy = 0, rounds = 0;
    std::set<std::string> outcomes;
};

// explores all schedules with at most `bound` preemptions; verdict(execution) returns "" or what is wrong
void explore(Ctx &c, const std::string &name, const std::function<SchedBody()> &make, int bound, u64 cap,
    const std::function<std::string(const Execution&)> &verdict, Explored *res = nullptr);

// a process forked now, before the server starts, that runs fn once it is told to (a restart in a fresh process)
struct Later
{
    int to = -1, from = -1, pid = -1;
    void prepare(const std::function<void(std::string &in, std::string &out)> &fn, int timeout_s = 60);
    ChildResult run(const std::string &in);
};

// inside a body thread: a place where the thread may be preempted / waits for others
void sched_point();
void sched_yield_now();
void sched_yield_to(int id);             // the default successor is that thread, if it can run
int sched_self();
void sched_quiet(bool on);      // no choices are made meanwhile: the default order is taken

// ------------------------------------------------------------ crash points --
// calls fn before every file operation and every store into a shared mapping
void crash_hook(std::function<void(const char *op)> fn);    // empty: off
extern bool g_crash_stores;     // also at stores into mapped files
extern int g_bad_closes;        // descriptors closed that were not open

}
