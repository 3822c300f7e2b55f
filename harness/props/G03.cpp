// G03: random elements.  Linked with --wrap=open/read/getrandom/syscall so the
// system entropy source can be observed, replaced and made to fail.
#include "ref.hpp"

#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <thread>
#include <unordered_set>

using namespace ref;
using namespace pbt;
using namespace electionguard;

// ---------------------------------------------------------------- injection
enum Mode { OFF, INJECT };
enum Fault { NONE, OPEN_FAILS, READ_FAILS, READ_EOF, READ_HALF };
static std::atomic<int> g_mode{OFF};
static int g_fault = NONE;
static uint64_t g_from = 0; // faults start at this call number
static uint64_t g_seed = 0, g_pos = 0, g_calls = 0, g_delivered = 0;
static std::set<int> g_fds;
static std::mutex g_mx;

static ssize_t supply(void *buf, size_t n)
{
    g_calls++;
    size_t give = n;
    if (g_fault != NONE && g_calls > g_from) {
        if (g_fault == READ_FAILS) {
            errno = EIO;
            return -1;
        }
        if (g_fault == READ_EOF)
            return 0;
        if (g_fault == READ_HALF)
            give = n / 2;
    }
    auto *b = static_cast<uint8_t *>(buf);
    for (size_t i = 0; i < give; i++, g_pos++)
        b[i] = static_cast<uint8_t>(mix(g_seed, g_pos / 8) >> (8 * (g_pos % 8)));
    g_delivered += give;
    return static_cast<ssize_t>(give);
}
static bool isEntropy(const char *p)
{
    return p != nullptr && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"));
}

extern "C" {
int __real_open(const char *p, int flags, ...);
int __real_open64(const char *p, int flags, ...);
ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __real_getrandom(void *buf, size_t n, unsigned flags);
long __real_syscall(long n, ...);

static int openCommon(const char *p, int flags, int mode)
{
    if (g_mode == INJECT && isEntropy(p)) {
        std::lock_guard<std::mutex> l(g_mx);
        g_calls++;
        if (g_fault == OPEN_FAILS && g_calls > g_from) {
            errno = EMFILE;
            return -1;
        }
        int fd = __real_open(p, flags, mode);
        if (fd >= 0)
            g_fds.insert(fd);
        return fd;
    }
    return __real_open(p, flags, mode);
}
int __wrap_open(const char *p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return openCommon(p, flags, mode);
}
int __wrap_open64(const char *p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return openCommon(p, flags, mode);
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    if (g_mode == INJECT) {
        std::lock_guard<std::mutex> l(g_mx);
        if (g_fds.count(fd))
            return supply(buf, n);
    }
    return __real_read(fd, buf, n);
}
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags)
{
    if (g_mode == INJECT) {
        std::lock_guard<std::mutex> l(g_mx);
        return supply(buf, n);
    }
    return __real_getrandom(buf, n, flags);
}
long __wrap_syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (auto &x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (nr == 318 && g_mode == INJECT) {
        std::lock_guard<std::mutex> l(g_mx);
        return supply(reinterpret_cast<void *>(a[0]), static_cast<size_t>(a[1]));
    }
    return __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}

struct Inject {
    Inject(uint64_t seed, int fault = NONE, uint64_t from = 0)
    {
        g_seed = seed;
        g_pos = g_calls = g_delivered = 0;
        g_fds.clear();
        g_fault = fault;
        g_from = from;
        g_mode = INJECT;
    }
    ~Inject() { g_mode = OFF; }
};

// one draw as an integer; -1 when refused
static Z drawOne(bool p)
{
    try {
        return p ? of(rand_p()) : of(rand_q());
    } catch (const std::exception &) {
        return -1;
    }
}

// ---------------------------------------------------------------- subchecks
static void batch(Ctx &c, bool p, size_t n, unsigned threads)
{
    size_t bits = p ? 4096 : 256;
    const Z &mod = p ? PP() : QQ();
    c << n << " draws of " << (p ? "P" : "Q") << " from " << threads << " thread(s)";
    c.nt();
    c.label(threads > 1 ? "threads" : "single");
    std::vector<std::vector<Z>> out(threads);
    auto body = [&](unsigned t) {
        for (size_t i = t; i < n; i += threads)
            out[t].push_back(drawOne(p));
    };
    if (threads == 1)
        body(0);
    else {
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; t++)
            ts.emplace_back(body, t);
        for (auto &t : ts)
            t.join();
    }
    std::set<Z> seen;
    std::unordered_set<uint64_t> words;
    std::vector<uint64_t> ones(bits, 0);
    size_t total = 0;
    for (auto &v : out)
        for (auto &z : v) {
            check(z >= 0, "drawing a random element failed");
            check(z < mod, "random element out of range: " + z.get_str(16));
            check(seen.insert(z).second, "random element repeated: " + z.get_str(16));
            auto l = limbs(z, bits / 64);
            for (auto w : l)
                check(words.insert(w).second, "a 64 bit word of the draws repeated");
            for (size_t b = 0; b < bits; b++)
                ones[b] += (l[b / 64] >> (b % 64)) & 1;
            total++;
        }
    // 8 sigma band around n/2; a fair bit leaves it with probability < 1e-14
    double mean = total / 2.0, band = 8 * 0.5 * std::sqrt(static_cast<double>(total));
    if (total >= 300)
        for (size_t b = 0; b < bits; b++)
            if (std::abs(ones[b] - mean) > band)
                fail("bit " + std::to_string(b) + " was set in " + std::to_string(ones[b]) +
                     " of " + std::to_string(total) + " draws");
}
static void drawsQ(Ctx &c)
{
    batch(c, false, c.src.range(600, 1500), c.src.boolean() ? 1 : c.src.range(2, 6));
}
static void drawsP(Ctx &c)
{
    batch(c, true, c.src.range(500, 900), c.src.boolean() ? 1 : c.src.range(2, 6));
}

static void injected(Ctx &c)
{
    auto &s = c.src;
    bool p = s.boolean();
    uint64_t a = s.u64(), b = s.u64();
    if (a == b)
        b++;
    Z za, zb;
    uint64_t calls;
    {
        Inject i(a);
        za = drawOne(p);
        calls = g_calls;
    }
    {
        Inject i(b);
        zb = drawOne(p);
    }
    c << (p ? "P" : "Q") << " entropy " << a << " vs " << b << ", " << calls << " source calls";
    if (calls == 0) {
        c.label("entropy source not intercepted");
        return;
    }
    c.nt();
    c.label("injected");
    check(za >= 0 && zb >= 0, "draw refused although the entropy source worked");
    check(za != zb, "different entropy gave the same element " + za.get_str(16));
}

static void faults(Ctx &c)
{
    auto &s = c.src;
    bool p = s.boolean();
    uint64_t seed = s.u64();
    uint64_t calls, want;
    {
        Inject i(seed);
        drawOne(p);
        calls = g_calls;
        want = g_delivered;
    }
    if (calls == 0) {
        c.label("entropy source not intercepted");
        return;
    }
    int f = static_cast<int>(s.range(OPEN_FAILS, READ_HALF));
    uint64_t from = s.upto(calls - 1);
    static const char *names[] = {"none", "open fails", "read fails", "read gives nothing",
                                  "read gives half"};
    c << (p ? "P" : "Q") << ": " << names[f] << " from call " << from << " of " << calls;
    Z z;
    uint64_t delivered, did;
    {
        Inject i(seed, f, from);
        z = drawOne(p);
        delivered = g_delivered;
        did = g_calls;
    }
    if (did <= from)
        return; // the fault was never reached
    c.nt();
    c.label(names[f]);
    if (z >= 0 && delivered < want)
        fail(std::string("a random element was produced although the entropy source failed (") +
             names[f] + ", " + std::to_string(delivered) + " of " + std::to_string(want) +
             " bytes)");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "G03";
    sp.detRandom = false;
    sp.subs = {
      {"draws-q", drawsQ, 320, 4000,
       "batches of 600..1500 draws mod Q from 1..6 threads: range, repeats, 64-bit word repeats, "
       "per-bit frequency; all non-trivial",
       true},
      {"draws-p", drawsP, 120, 2000, "the same mod P, 500..900 draws", true},
      {"injected", injected, 40000, 400000,
       "draws under two different injected entropy streams; non-trivial: source intercepted"},
      {"faults", faults, 40000, 400000,
       "open/read failure, end of file or half reads from any call on; non-trivial: fault reached"},
    };
    sp.assumptions = {"per-bit frequency band is 8 sigma", "entropy is read through "
                      "open/read, getrandom or syscall; otherwise injection is skipped"};
    return sp;
}
