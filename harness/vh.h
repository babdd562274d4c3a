// Common support for all checks: job runner, database sessions, request helpers.
#pragma once

#include <cstdint>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>

namespace vh
{

typedef uint64_t u64;
typedef int64_t i64;

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- jobs ----
// A check is a list of jobs; each job runs in its own process and enumerates
// its own part of the space.  A violation is named by (job key, signature) and
// is replayed by running that job again.
struct Ctx
{
    std::string tier;       // quick | thorough
    std::string dir;        // private scratch directory of this job
    u64 evaluations = 0;    // cases executed
    u64 nontrivial = 0;     // distinct & non-trivial cases (rule per check)
    u64 states = 0;
    u64 transitions = 0;
    u64 traces = 0;
    bool capped = false;    // a cap was hit: the space was not completed
    std::set<u64> outcomes; // hashes of distinct observed outcomes
    std::vector<std::string> samples;
    struct Viol { std::string sig, msg; };
    std::vector<Viol> viols;
    std::map<std::string, u64> stats;

    bool thorough() const { return tier == "thorough"; }
    void eval(u64 n = 1) { evaluations += n; }
    void nt(u64 n = 1) { nontrivial += n; }
    void outcome(const std::string &s);
    void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
    // sig must be deterministic and identify the failing case
    void violation(const std::string &sig, const std::string &msg);
    bool full() const { return viols.size() >= 12; }
    // names the case about to run: a crash or hang is attributed to it
    void at(const std::string &label);
    struct Slot *slot = nullptr;
};

struct Job
{
    std::string key;
    std::function<void(Ctx&)> fn;
};

// implemented by each check
void list_jobs(const std::string &tier, std::vector<Job> &jobs);
extern const char *g_rule;          // how cases are made / what is non-trivial

// ------------------------------------------------------------ children ----
struct ChildResult
{
    bool exited = false;    // terminated with exit()
    int code = -1;
    int sig = 0;            // signal number, if killed
    bool timeout = false;
    std::string out;        // what the child wrote to its pipe
    bool ok() const { return exited && code == 0 && !timeout; }
    std::string why() const;
};

// runs fn in a forked process; fn writes its answer into the string, which
// comes back in ChildResult::out.  An exception => exit code 3.
ChildResult in_child(const std::function<void(std::string&)> &fn, int timeout_s = 60);

// runs fn in a forked process with a context of its own, merges what it counted
// and found into c; an abnormal end becomes a violation named after the phase
bool phase(Ctx &c, const std::string &name, const std::function<void(Ctx&)> &fn, int timeout_s = 150);

// -------------------------------------------------------------- scratch ---
std::string make_dir(const std::string &path);
void remove_tree(const std::string &path);              // scratch paths only
void copy_tree(const std::string &from, const std::string &to);
std::string read_file(const std::string &path);
void write_file(const std::string &path, const std::string &data);
std::vector<std::string> list_tree(const std::string &path);  // relative file names, sorted
extern std::string g_scratch;

// --------------------------------------------------------------- clock ----
// virtual wall clock (all clocks the server reads); 0 = real clock
void set_clock_ms(u64 ms);
u64 get_clock_ms();
void set_threads_suppressed(bool on);   // thread creation yields inert threads

// ------------------------------------------------------------ database ----
typedef std::map<std::string, std::string> Conf;

// home: directory of this instance (conf, data/, log/ are below it)
void db_start(const std::string &home, const Conf &conf);
void db_stop();             // orderly shutdown

struct Resp
{
    bool handled = false;   // handler's return value
    int status = 0;
    std::string head, body;
};

typedef bool (*Handler)(void*, void*);
extern std::string g_stale;     // what an earlier request left in the buffer behind the current one
Resp req(const char *method, const char *path, const std::string &params, const std::string &body);
Resp put_plain(const std::string &body);    // "put ..." lines
Resp put_json(const std::string &body);
Resp put_any(const std::string &body);      // format auto-detected
Resp put_line(const std::string &body);     // InfluxDB line protocol
Resp query_post(const std::string &json);
Resp query_get(const std::string &params);
Resp admin(const std::string &params);
Resp get(const std::string &path, const std::string &params);

typedef std::pair<u64, double> DP;
typedef std::vector<DP> DPS;

struct Series
{
    std::string metric;
    std::map<std::string, std::string> tags;
    std::vector<std::string> agg;
    DPS dps;
    std::string key() const;    // metric{tags}[agg]
};

// parses a query response body; false when it is not well formed
bool parse_series(const std::string &body, std::vector<Series> &out);

// generic JSON
struct J
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    double n = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J *get(const std::string &k) const;
};
bool parse_json(const std::string &s, J &out);

// background jobs, as the timer would run them
void bg_wal_flush();
void bg_rotate();
void bg_archive_ts();
void bg_rollup();
void bg_gc();

// raw data query of one metric without aggregation
bool query_raw(const std::string &metric, u64 from, u64 to, bool ms, std::vector<Series> &out, std::string *err = nullptr);

std::string dps_str(const DPS &v);
std::string num(double v);      // shortest exact decimal
bool close_to(double a, double b, double abs_tol, double rel_tol = 0);

u64 hash64(const std::string &s);

}
