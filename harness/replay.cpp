// Native meaning of the primitives in vc.hpp: runs a contract harness on the
// real code with concrete inputs (counterexample replay, bounded sweep).
//   prog NAME seed label=value ...      replay one input
//   prog NAME --sweep seed seconds [maxruns]
// exit 0: contract holds (or input rejected), 1: contract violated
#include "vc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <new>
#include <exception>
#include <typeinfo>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <ctime>
#include <cerrno>
#include <cxxabi.h>
#include <cmath>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#endif
#ifndef ASAN_POISON_MEMORY_REGION
#define ASAN_POISON_MEMORY_REGION(p, n)
#define ASAN_UNPOISON_MEMORY_REGION(p, n)
#endif

struct entry { const char *name; void (*fn)(); };
extern entry vc_table[];

static std::map<std::string, unsigned long> *inputs;
static bool sweeping = false;
static unsigned long rng_state = 1;
static unsigned long hv = 0, hseed = 1;
struct shared { char what[200]; char ins[1400]; unsigned long runs, ok; };
static shared *sh;
static bool checking = false;

static unsigned long rnd()
{
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return rng_state * 2685821657736338717ul;
}
struct block { std::size_t size; };
// plain arrays: no allocation inside the allocator
static struct { char *p; std::size_t n; bool live; } blocks[1 << 16];
static std::size_t nblocks = 0;
static std::map<const void*, std::size_t> *alive_map;
static std::vector<std::pair<char*, std::size_t> > *bufs;

static void fail(const char *what)
{
    checking = false;
    std::snprintf(sh->what, sizeof sh->what, "%s", what);
    _exit(1);
}
static void reject() { checking = false; _exit(2); }
static void note(const char *l, unsigned long v, bool sg)
{
    char b[96];
    std::snprintf(b, sizeof b, sg ? " %s=%ld" : " %s=%lu", l, v);
    if (std::strlen(sh->ins) + std::strlen(b) + 1 < sizeof sh->ins) std::strcat(sh->ins, b);
}
static unsigned long pick(unsigned long lo, unsigned long hi)
{
    // values in [lo,hi], boundaries preferred
    unsigned long n = hi - lo;
    switch (rnd() % 8) {
    case 0: return lo;
    case 1: return hi;
    case 2: { unsigned long k = rnd() % 4; return n < k ? lo : lo + k; }
    case 3: { unsigned long k = rnd() % 4; return n < k ? hi : hi - k; }
    case 4: { unsigned long k = (1ul << (rnd() % 34)) + rnd() % 3 - 1; return k >= lo && k <= hi ? k : lo + (n == ~0ul ? rnd() : rnd() % (n + 1)); }
    case 5: { unsigned long m = n < 40 ? n : 40; return lo + rnd() % (m + 1); }
    default: return lo + (n == ~0ul ? rnd() : rnd() % (n + 1));
    }
}
static bool get(const char *l, unsigned long &v)
{
    bool was = checking; checking = false;
    std::map<std::string, unsigned long>::iterator i = inputs->find(l);
    bool r = i != inputs->end();
    if (r) v = i->second;
    checking = was;
    return r;
}
static unsigned long fail_at = 0;
static bool fail_armed = false;
static unsigned long input(const char *l, unsigned long lo, unsigned long hi, bool sg, bool full)
{
    unsigned long v;
    if (!get(l, v)) {
        if (sweeping) {
            if (sg) v = (unsigned long)((long)lo + (long)pick(0, hi - lo));
            else v = full ? (rnd() % 4 ? rnd() % 40 : pick(lo, hi)) : pick(lo, hi);
        } else v = lo;
    } else if (sg ? ((long)v < (long)lo || (long)v > (long)hi) : (v < lo || v > hi)) reject();
    note(l, v, sg);
    return v;
}
extern "C" {
unsigned long vc_u64(const char *l) { return input(l, 0, ~0ul, false, true); }
long vc_i64(const char *l) { return sweeping ? (long)input(l, (unsigned long)-60l, 60, true, true) : (long)input(l, 1ul << 63, ~0ul >> 1, true, true); }
int vc_i32(const char *l) { return (int)(sweeping ? (long)input(l, (unsigned long)-60l, 60, true, true) : (long)input(l, (unsigned long)(long)(-2147483647 - 1), 2147483647, true, true)); }
unsigned vc_u32(const char *l) { return (unsigned)input(l, 0, 0xffffffffu, false, true); }
unsigned long vc_in(const char *l, unsigned long lo, unsigned long hi) { return input(l, lo, hi, false, false); }
long vc_ins(const char *l, long lo, long hi) { return (long)input(l, (unsigned long)lo, (unsigned long)hi, true, false); }
void vc_requires(bool c) { if (!c) reject(); }
void vc_ensures(bool c, const char *l) { if (!c) fail(l); }
void vc_havoc(void *p, std::size_t n, const char *)
{
    ++hv;
    unsigned long s = hseed * 0x9e3779b97f4a7c15ul + hv * 0xbf58476d1ce4e5b9ul | 1;
    unsigned char *c = static_cast<unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        c[i] = (unsigned char)(s >> 24);
    }
}
bool vc_same(const void *a, const void *b, std::size_t n) { return std::memcmp(a, b, n) == 0; }
unsigned long vc_value(const void *p, std::size_t n) { unsigned long v = 0; std::memcpy(&v, p, n); return v; }
char *vc_buffer(std::size_t n, const char *l)
{
    bool was = checking; checking = false;
    if (n > (1ul << 31)) reject();
    char *p = static_cast<char*>(std::malloc(n ? n : 1));
    bufs->push_back(std::make_pair(p, n));
    checking = was;
    vc_havoc(p, n, l);
    return p;
}
bool vc_disjoint(const void *p, std::size_t n, const void *q, std::size_t m)
{
    const char *a = static_cast<const char*>(p), *b = static_cast<const char*>(q);
    return a + n <= b || b + m <= a;
}
bool vc_within(const void *p, std::size_t n, const void *q, std::size_t m)
{
    const char *a = static_cast<const char*>(p), *b = static_cast<const char*>(q);
    return b <= a && a + n <= b + m;
}
long vc_offset(const void *p, const void *q) { return static_cast<const char*>(p) - static_cast<const char*>(q); }
static const void *base_of(const void *p, std::size_t *left)
{
    const char *c = static_cast<const char*>(p);
    for (std::size_t i = 0; i < nblocks; ++i)
        if (blocks[i].live && c >= blocks[i].p && c < blocks[i].p + blocks[i].n) { if (left) *left = blocks[i].p + blocks[i].n - c; return blocks[i].p; }
    return 0;
}
bool vc_sameobj(const void *p, const void *q)
{
    const void *a = base_of(p, 0), *b = base_of(q, 0);
    return a == b && (a != 0 || p == q);
}
std::size_t vc_bytes_from_alloc(const void *p) { std::size_t l = 0; base_of(p, &l); return l; }
void vc_construct(const void *p, std::size_t s)
{
    bool was = checking; checking = false;
    if (alive_map->count(p)) fail("construct only raw storage");
    (*alive_map)[p] = s;
    checking = was;
}
void vc_destroy(const void *p, std::size_t)
{
    bool was = checking; checking = false;
    if (!alive_map->count(p)) fail("destroy only live objects");
    alive_map->erase(p);
    checking = was;
}
void vc_use(const void *p, std::size_t)
{
    bool was = checking; checking = false;
    if (!alive_map->count(p)) fail("use only live objects");
    checking = was;
}
bool vc_alive(const void *p, std::size_t)
{
    bool was = checking; checking = false;
    bool r = alive_map->count(p) != 0;
    checking = was;
    return r;
}
struct snap { const char *p; std::size_t n; char *was; bool heap; };
static std::vector<snap> *snaps;
static std::vector<std::pair<const char*, std::size_t> > *writable;
static bool framing = false;
extern char __start_vckd[] __attribute__((weak)), __stop_vckd[] __attribute__((weak)), __start_vckb[] __attribute__((weak)), __stop_vckb[] __attribute__((weak));
static void snapshot(const void *p, std::size_t n, bool heap)
{
    snap s = { static_cast<const char*>(p), n, static_cast<char*>(std::malloc(n ? n : 1)), heap };
    std::memcpy(s.was, p, n);
    snaps->push_back(s);
}
void vc_frame_begin()
{
    bool was = checking; checking = false;
    snaps->clear(); writable->clear();
    std::size_t total = 0;
    for (std::size_t i = 0; i < nblocks; ++i) if (blocks[i].live) total += blocks[i].n;
    if (total > (1ul << 28)) reject();
    for (std::size_t i = 0; i < nblocks; ++i) if (blocks[i].live) snapshot(blocks[i].p, blocks[i].n, true);
    for (std::size_t i = 0; i < bufs->size(); ++i) snapshot((*bufs)[i].first, (*bufs)[i].second, false);
    if (__start_vckd) snapshot(__start_vckd, __stop_vckd - __start_vckd, false);
    if (__start_vckb) snapshot(__start_vckb, __stop_vckb - __start_vckb, false);
    framing = true;
    checking = was;
}
void vc_frozen(const void *p, std::size_t n) { bool was = checking; checking = false; snapshot(p, n, false); checking = was; }
static std::size_t block_size(const void *p)
{
    for (std::size_t i = 0; i < nblocks; ++i) if (blocks[i].live && blocks[i].p == p) return blocks[i].n;
    return 0;
}
void vc_limit_reads(const void *p) { std::size_t n = vc_bytes_from_alloc(p); if (n) ASAN_POISON_MEMORY_REGION(p, n); }
void vc_may_read(const void *p, std::size_t n) { if (p) ASAN_UNPOISON_MEMORY_REGION(p, n); }
void vc_may_write(const void *p, std::size_t n)
{
    bool was = checking; checking = false;
    if (p) { ASAN_UNPOISON_MEMORY_REGION(p, n); writable->push_back(std::make_pair(static_cast<const char*>(p), n)); }
    checking = was;
}
void vc_frame_end()
{
    bool was = checking; checking = false;
    framing = false;
    for (std::size_t i = 0; i < snaps->size(); ++i) {
        snap &s = (*snaps)[i];
        std::vector<char> ok(s.n, 0);
        bool all = false, gone = s.heap && !block_size(s.p);
        for (std::size_t j = 0; j < writable->size(); ++j) {
            const char *a = (*writable)[j].first, *b = a + (*writable)[j].second;
            if (a <= s.p && b >= s.p + s.n) all = true;
            if (gone && a >= s.p && b > a && b <= s.p + s.n) all = true; // storage of its own, with the allocator's slack
            for (const char *c = a < s.p ? s.p : a; c < b && c < s.p + s.n; ++c) ok[c - s.p] = 1;
        }
        if (all) continue;
        if (gone) fail("releases only its own storage");
        ASAN_UNPOISON_MEMORY_REGION(s.p, s.n);
        for (std::size_t k = 0; k < s.n; ++k) if (!ok[k] && s.p[k] != s.was[k]) fail("writes only its own results");
    }
    checking = was;
}
void vc_alloc_fail(unsigned long k) { fail_at = k; fail_armed = true; }
void vc_cover(const char *) {}
}
// ---- short vectors
static int run_mode = -1;
static unsigned long pool[64], npool = 0;
static unsigned long fbits(double x, std::size_t e)
{
    unsigned long v = 0;
    if (e == 4) { float f = (float)x; std::memcpy(&v, &f, 4); } else std::memcpy(&v, &x, 8);
    return v;
}
static unsigned long lane(std::size_t e, int mode)
{
    if (e == 1) return rnd() & 1;
    if (npool && rnd() % 8 == 0) return pool[rnd() % (npool < 64 ? npool : 64)];
    unsigned long r = rnd(), v = 0;
    switch (mode) {
    case 0: v = 1 + r % 40; break;
    case 1: v = 1 + r % 4095; break;
    case 2: { long x = (long)((r >> 8) % (1ul << (1 + r % 24))); v = (unsigned long)(r & 128 ? -x : x); break; }
    case 3: case 4: {
        double x = std::ldexp(1.0 + (double)(r >> 12) / 4503599627370496.0, (int)(rnd() % 61) - 30);
        v = fbits(mode == 4 && (rnd() & 1) ? -x : x, e); break; }
    case 5: v = r; break;
    case 6: {
        static const double sp[] = { 0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 1e-310, 1e-40, -1e-40, 0.5, 3.0, 1e30, -2.5, 16777216.0, 16777217.0 };
        v = fbits(sp[r % 16], e); break; }
    default: {
        static const unsigned long sp[] = { 0, 1, ~0ul, 0x80000000ul, 0x7ffffffful, 0x80000001ul, 2, ~1ul, 0xffff, 0x10000, 0x8000000000000000ul };
        v = sp[r % 11]; break; }
    }
    if (e == 8 && (mode < 3)) v = fbits((double)(long)v, 8);
    v &= e == 8 ? ~0ul : (1ul << (8 * e)) - 1;
    pool[npool++ % 64] = v;
    return v;
}
static void fill(void *p, std::size_t n, std::size_t e, const char *l)
{
    bool was = checking; checking = false;
    if (run_mode < 0) run_mode = (int)(rnd() % 4);
    int m = run_mode == 0 ? (int)(rnd() % 3) : run_mode == 1 ? 3 + (int)(rnd() % 2) : (int)(rnd() % 8);
    npool = 0;
    for (std::size_t i = 0; i < n; ++i) {
        char b[64]; std::snprintf(b, sizeof b, "%s[%zu]", l, i);
        unsigned long v;
        if (!get(b, v)) v = sweeping ? lane(e, run_mode == 3 ? (int)(rnd() % 8) : m) : 0;
        note(b, v, false);
        std::memcpy(static_cast<char*>(p) + i * e, &v, e);
    }
    checking = was;
}
template<typename T> static bool same_bits(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static char *region_base = 0;
static bool near(long double got, long double a, long double b, int kind, int bits, long double slack)
{
    long double w = kind == 0 ? a / b : kind == 1 ? a / sqrtl(b) : sqrtl(b) / a;
    return fabsl(got - w) <= fabsl(w) * ldexpl(1, -bits) + slack;
}
extern "C" {
void vc_array(void *p, std::size_t n, std::size_t e, const char *l) { fill(p, n, e, l); }
void vc_same_f32(float a, float b, const char *l) { if (!same_bits(a, b)) fail(l); }
void vc_same_f64(double a, double b, const char *l) { if (!same_bits(a, b)) fail(l); }
void vc_same_i32(int a, int b, const char *l) { if (a != b) fail(l); }
char *vc_block(std::size_t n, std::size_t e, std::size_t off, const char *l)
{
    bool was = checking; checking = false;
    std::size_t sz = n * e + 512;
    char *p = static_cast<char*>(aligned_alloc(64, (sz + 63) / 64 * 64));
    char *q = p + 128 + off % 64;
    fill(q, n, e, l);
    ASAN_POISON_MEMORY_REGION(p, q - p);
    ASAN_POISON_MEMORY_REGION(q + n * e, p + sz - (q + n * e));
    checking = was;
    return q;
}
char *vc_region(std::size_t e, const char *)
{
    void *p = mmap(0, e << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) reject();
    return region_base = static_cast<char*>(p) + (e << 31);
}
void vc_touch(void *p, std::size_t n)
{
    unsigned long h = (unsigned long)(static_cast<char*>(p) - region_base) * 0x9e3779b97f4a7c15ul;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ul; h ^= h >> 32;
    std::memcpy(p, &h, n);
}
void vc_allow(const void *, std::size_t) {}
void vc_allow_all() {}
void vc_requires_mag32(float x) { if (!(std::fabs(x) >= 0x1p-60f && std::fabs(x) <= 0x1p60f)) reject(); }
void vc_requires_mag64(double x) { if (!(std::fabs(x) >= 0x1p-60 && std::fabs(x) <= 0x1p60)) reject(); }
void vc_close32(float g, float a, float b, int k, int bits, const char *l) { if (!near(g, a, b, k, bits, 0)) fail(l); }
void vc_close64(double g, double a, double b, int k, int bits, const char *l) { if (!near(g, a, b, k, bits, 0)) fail(l); }
void vc_closei(int g, int a, int b, int k, int bits, const char *l) { if (!near(g, a, b, k, bits, 1)) fail(l); }
}
static void *do_new(std::size_t n)
{
    if (checking && fail_armed && fail_at-- == 0) { fail_armed = false; throw std::bad_alloc(); }
    if (n > (1ul << 32)) { if (checking) reject(); throw std::bad_alloc(); }
    // shifted by a multiple of 16 so that alignment beyond malloc's is not a given
    void *p = std::malloc(n ? n : 1);
    if (!p) reject();
    if (checking) {
        std::memset(p, 0xa5, n < (1u << 26) ? n : (1u << 26));
        if (nblocks >= sizeof blocks / sizeof blocks[0]) reject();
        blocks[nblocks].p = static_cast<char*>(p); blocks[nblocks].n = n; blocks[nblocks].live = true; ++nblocks;
    }
    return p;
}
static void do_delete(void *p, bool sized, std::size_t n)
{
    if (!p) return;
    for (std::size_t i = nblocks; i-- > 0;)
        if (blocks[i].p == p && blocks[i].live) {
            if (checking) {
                if (sized && n != blocks[i].n) fail("release with the allocated size");
                bool was = checking; checking = false;
                std::map<const void*, std::size_t>::iterator it = alive_map->lower_bound(p);
                if (it != alive_map->end() && it->first < static_cast<char*>(p) + blocks[i].n) fail("no live member object in released storage");
                checking = was;
            }
            blocks[i].live = false;
            std::free(p);
            return;
        }
    if (checking) fail("release of a live allocated block");
    std::free(p);
}
void *operator new(std::size_t n) { return do_new(n); }
void *operator new[](std::size_t n) { return do_new(n); }
void operator delete(void *p) noexcept { do_delete(p, false, 0); }
void operator delete[](void *p) noexcept { do_delete(p, false, 0); }
void operator delete(void *p, std::size_t n) noexcept { do_delete(p, true, n); }
void operator delete[](void *p, std::size_t n) noexcept { do_delete(p, true, n); }

static void on_terminate() { fail("no terminate"); }
static void on_signal(int s) { char b[40]; std::snprintf(b, sizeof b, "signal %d (invalid memory access)", s); fail(b); }

static int run(void (*fn)())
{
    // in a child: a contract violation may corrupt memory
    std::fflush(0);
    pid_t c = fork();
    if (c == 0) {
        std::set_terminate(on_terminate);
        std::signal(SIGSEGV, on_signal); std::signal(SIGBUS, on_signal); std::signal(SIGABRT, on_signal); std::signal(SIGFPE, on_signal); std::signal(SIGILL, on_signal);
        alarm(sweeping ? 5 : 30);
        std::freopen("/dev/null", "w", stderr);
        checking = true;
        try { fn(); }
        catch (std::exception &e) { checking = false; char b[150]; std::snprintf(b, sizeof b, "unexpected exception: %s", e.what()); fail(b); }
        catch (...) { checking = false; fail("unexpected exception"); }
        checking = false;
        for (std::size_t i = 0; i < nblocks; ++i) if (blocks[i].live) fail("no-leak");
        if (!alive_map->empty()) fail("no live member object left in storage of automatic objects");
        _exit(0);
    }
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) {
        if (WEXITSTATUS(st) == 0) return 0;
        if (WEXITSTATUS(st) == 2) return 2;
        if (WEXITSTATUS(st) != 1) std::snprintf(sh->what, sizeof sh->what, "memory error (sanitizer exit %d)", WEXITSTATUS(st));
        return 1;
    }
    if (WTERMSIG(st) == SIGALRM) return 2;
    std::snprintf(sh->what, sizeof sh->what, "killed by signal %d", WTERMSIG(st));
    return 1;
}
int main(int argc, char **argv)
{
    inputs = new std::map<std::string, unsigned long>;
    alive_map = new std::map<const void*, std::size_t>;
    bufs = new std::vector<std::pair<char*, std::size_t> >;
    snaps = new std::vector<snap>;
    writable = new std::vector<std::pair<const char*, std::size_t> >;
    sh = static_cast<shared*>(mmap(0, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    void (*fn)() = 0;
    for (entry *e = vc_table; e->name; ++e) if (argc > 1 && !std::strcmp(e->name, argv[1])) fn = e->fn;
    if (!fn) { std::printf("unknown harness\n"); return 3; }
    if (argc > 4 && !std::strcmp(argv[2], "--sweep")) {
        sweeping = true;
        unsigned long seed = std::strtoul(argv[3], 0, 10);
        double secs = std::atof(argv[4]);
        unsigned long maxruns = argc > 5 ? std::strtoul(argv[5], 0, 10) : ~0ul;
        struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
        unsigned long n = 0, ok = 0;
        for (;;) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs || n >= maxruns) break;
            rng_state = (seed + 1) * 0x9e3779b97f4a7c15ul + (n + 1) * 0xd1342543de82ef95ul; if (!rng_state) rng_state = 1;
            for (int i = 0; i < 8; ++i) rnd();
            hseed = rnd(); run_mode = -1;
            sh->ins[0] = 0; sh->what[0] = 0;
            int r = run(fn);
            ++n;
            if (r == 0) ++ok;
            if (r == 1) { std::printf("FAIL %s :%s seed %lu\n", sh->what, sh->ins, hseed); return 1; }
        }
        std::printf("OK runs=%lu accepted=%lu\n", n, ok);
        return 0;
    }
    if (argc > 2) hseed = std::strtoul(argv[2], 0, 10);
    for (int i = 3; i < argc; ++i) {
        std::string s(argv[i]); std::size_t k = s.find('=');
        if (k == std::string::npos) continue;
        std::string v = s.substr(k + 1);
        (*inputs)[s.substr(0, k)] = v[0] == '-' ? (unsigned long)std::strtol(v.c_str(), 0, 10) : std::strtoul(v.c_str(), 0, 10);
    }
    int r = run(fn);
    if (r == 1) std::printf("FAIL %s :%s\n", sh->what, sh->ins);
    else if (r == 2) std::printf("REJECTED%s\n", sh->ins);
    else std::printf("OK%s\n", sh->ins);
    return r == 1 ? 1 : 0;
}
