// Linked with --wrap=Lib_RandomBuffer_System_randombytes and --wrap=time so a
// case is a pure function of its choices.  If the library stops using that
// entropy function these wrappers simply are never called.
#include "pbt.hpp"

#include <atomic>
#include <ctime>

static std::atomic<uint64_t> g_ctr{0};
static std::atomic<uint64_t> g_seed{0};
static std::atomic<bool> g_pass{true};

extern "C" bool __real_Lib_RandomBuffer_System_randombytes(uint8_t *x, uint32_t len)
  __attribute__((weak));
extern "C" time_t __real_time(time_t *t);

extern "C" bool __wrap_Lib_RandomBuffer_System_randombytes(uint8_t *x, uint32_t len)
{
    if (g_pass.load()) {
        return __real_Lib_RandomBuffer_System_randombytes(x, len);
    }
    uint64_t base = g_ctr.fetch_add(len / 8 + 1);
    uint64_t seed = g_seed.load();
    for (uint32_t i = 0; i < len; i++) {
        x[i] = static_cast<uint8_t>(pbt::mix(seed, base + i / 8) >> (8 * (i % 8)));
    }
    return true;
}

extern "C" time_t __wrap_time(time_t *t)
{
    if (g_pass.load()) {
        return __real_time(t);
    }
    if (t != nullptr)
        *t = 1600000000;
    return 1600000000;
}

namespace pbt
{
    void entropySeed(uint64_t seed)
    {
        g_seed = seed;
        g_ctr = 0;
        g_pass = false;
    }
    void entropyPassThrough(bool on) { g_pass = on; }
} // namespace pbt
