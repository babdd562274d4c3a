// Crash points: the hook runs before every operation that changes files and,
// in the instrumented build, before every store into a shared file mapping.
// Process death keeps what the kernel has and loses what stdio still buffers,
// so a copy of the directory taken in the hook is the state a crash leaves.
#include "ctl.h"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

namespace vh
{
bool g_crash_on = false;
bool g_crash_stores = true;
static std::function<void(const char*)> *g_fn = nullptr;
static thread_local bool t_in = false;
static struct { char *lo, *hi; } g_map[256];
static int g_maps = 0;

void crash_hook(std::function<void(const char *op)> fn)
{
    g_crash_on = false;
    delete g_fn;
    g_fn = fn ? new std::function<void(const char*)>(fn) : nullptr;
    g_crash_on = g_fn != nullptr;
}

static void hit(const char *op)
{
    if (!g_crash_on || t_in || g_fn == nullptr) return;
    t_in = true;
    (*g_fn)(op);
    t_in = false;
}

// a run of stores by one instruction (initialisation loops) is sampled at its 1st, 2nd, 4th, 8th, ... store
void crash_store(unsigned long pc, void *a, size_t n)
{
    if (!g_crash_stores || t_in) return;
    char *p = (char*)a;
    for (int i = 0; i < g_maps; i++) if (p >= g_map[i].lo && p < g_map[i].hi)
    {
        static unsigned long last_pc[4];
        static u64 run = 0;
        bool known = false;
        for (auto x : last_pc) if (x == pc) known = true;
        if (!known) { for (int k = 3; k > 0; k--) last_pc[k] = last_pc[k - 1]; last_pc[0] = pc; run = 0; }
        run++;
        if (run > 8 && (run & (run - 1))) return;
        hit("store");
        return;
    }
}

static void add_map(void *p, size_t n)
{
    if (p == MAP_FAILED) return;
    for (int i = 0; i < g_maps; i++) if (g_map[i].lo == nullptr) { g_map[i].lo = (char*)p; g_map[i].hi = (char*)p + n; return; }
    if (g_maps < 256) { g_map[g_maps].lo = (char*)p; g_map[g_maps].hi = (char*)p + n; g_maps++; }
}
static void del_map(void *p)
{
    for (int i = 0; i < g_maps; i++) if (g_map[i].lo == p) g_map[i].lo = g_map[i].hi = nullptr;
}
}

int vh::g_bad_closes;
using namespace vh;
#define REAL(ret, name, ...) typedef ret (*F)(__VA_ARGS__); static F real = (F)dlsym(RTLD_NEXT, #name)

extern "C"
{
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { REAL(size_t, fwrite, const void*, size_t, size_t, FILE*); hit("fwrite"); return real(p, s, n, f); }
int fflush(FILE *f) { REAL(int, fflush, FILE*); hit("fflush"); return real(f); }
int fclose(FILE *f) { REAL(int, fclose, FILE*); hit("fclose"); return real(f); }
int rename(const char *a, const char *b) { REAL(int, rename, const char*, const char*); hit("rename"); return real(a, b); }
int remove(const char *a) { REAL(int, remove, const char*); hit("remove"); return real(a); }
int unlink(const char *a) { REAL(int, unlink, const char*); hit("unlink"); return real(a); }
int rmdir(const char *a) { REAL(int, rmdir, const char*); hit("rmdir"); return real(a); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char*, mode_t); hit("mkdir"); return real(a, m); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); hit("ftruncate"); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); hit("ftruncate"); return real(fd, n); }
int fallocate(int fd, int m, off_t a, off_t b) { REAL(int, fallocate, int, int, off_t, off_t); hit("fallocate"); return real(fd, m, a, b); }
int close(int fd) { hit("close"); int rc = syscall(SYS_close, fd); if (rc && fd >= 0) __atomic_fetch_add(&g_bad_closes, 1, __ATOMIC_RELAXED); return rc; }
ssize_t write(int fd, const void *p, size_t n) { if (fd > 2) hit("write"); return syscall(SYS_write, fd, p, n); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { hit("pwrite"); return syscall(SYS_pwrite64, fd, p, n, o); }
int open(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); hit("open"); }
    return syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE*, fopen, const char*, const char*); if (m[0] != 'r') hit("fopen"); return real(p, m); }
void *mmap(void *p, size_t n, int pr, int fl, int fd, off_t o)
{
    void *r = (void*)syscall(SYS_mmap, p, n, pr, fl, fd, o);
    if ((fl & MAP_SHARED) && fd >= 0 && (pr & PROT_WRITE)) add_map(r, n);
    return r;
}
void *mmap64(void *p, size_t n, int pr, int fl, int fd, off64_t o) { return mmap(p, n, pr, fl, fd, o); }
int munmap(void *p, size_t n) { hit("munmap"); del_map(p); return syscall(SYS_munmap, p, n); }
void *mremap(void *p, size_t o, size_t n, int fl, ...)
{
    hit("mremap");
    void *r = (void*)syscall(SYS_mremap, p, o, n, fl, nullptr);
    if (r != MAP_FAILED) { bool had = false; for (int i = 0; i < g_maps; i++) if (g_map[i].lo == p) had = true; if (had) { del_map(p); add_map(r, n); } }
    return r;
}
static inline void *rep_movs(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void *memcpy(void *__restrict d, const void *__restrict s, size_t n)
{
    if (__builtin_expect(g_crash_on, 0) && n) crash_store((unsigned long)__builtin_return_address(0), d, n);
    return rep_movs(d, s, n);
}
void *memset(void *d, int v, size_t n)
{
    if (__builtin_expect(g_crash_on, 0) && n) crash_store((unsigned long)__builtin_return_address(0), d, n);
    void *r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
}
