#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) ||                     \
      __has_feature(memory_sanitizer)
#        define PBT_SANITIZED 1
#    endif
#endif

namespace pbt
{
    uint64_t mix(uint64_t a, uint64_t b)
    {
        uint64_t z = a + 0x9E3779B97F4A7C15ULL * (b + 1);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }

    static const uint64_t CAP = 1u << 19;
    static const uint64_t HISTCAP = 1u << 20;

    struct Slot {
        std::atomic<uint64_t> active; // 1 while a case is running
        std::atomic<uint64_t> startMs;
        std::atomic<uint64_t> failed; // 1: property failed, 2: done normally
        uint64_t sub, idx;
        std::atomic<uint64_t> nchoices;
        std::atomic<uint64_t> nhist;
        char msg[8192];
        uint64_t choices[CAP];
        uint64_t hist[HISTCAP];
    };
    static Slot *g_slot = nullptr;

    static uint64_t nowMs()
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(
                 std::chrono::steady_clock::now().time_since_epoch())
          .count();
    }

    uint64_t Src::next()
    {
        state += 0x9E3779B97F4A7C15ULL;
        uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }

    uint64_t Src::upto(uint64_t max)
    {
        uint64_t v = 0;
        if (random) {
            v =
              max == UINT64_MAX
                ? next()
                : static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * (max + 1)) >> 64);
        } else if (pos < prefix.size()) {
            v = prefix[pos++];
            if (v > max)
                v = max;
        }
        record.push_back(v);
        if (record.size() > CAP)
            throw Discard();
        if (g_slot != nullptr && !inner) {
            g_slot->choices[record.size() - 1] = v;
            g_slot->nchoices.store(record.size(), std::memory_order_relaxed);
        }
        return v;
    }

    size_t Src::pick(std::initializer_list<unsigned> weights)
    {
        uint64_t total = 0;
        for (auto w : weights)
            total += w;
        uint64_t v = upto(total - 1);
        size_t i = 0;
        for (auto w : weights) {
            if (v < w)
                return i;
            v -= w;
            i++;
        }
        return 0;
    }

    uint64_t Src::size(uint64_t lo, uint64_t hi)
    {
        uint64_t span = hi - lo;
        switch (pick({5, 3, 2})) {
            case 0:
                return lo + upto(std::min<uint64_t>(span, 3));
            case 1:
                return lo + upto(std::min<uint64_t>(span, 10));
            default:
                return lo + upto(span);
        }
    }

    uint64_t Src::many(uint64_t lo, uint64_t hi, uint64_t big, uint64_t den)
    {
        if (!chance(1, den))
            return size(lo, hi);
        static const uint64_t edges[] = {15,  16,  17,   31,   32,   33,    63,    64,
                                         65,  127, 128,  129,  255,  256,   257,   511,
                                         512, 513, 1023, 1024, 1025, 65535, 65536, 65537};
        if (boolean()) {
            uint64_t n = 0;
            while (n < sizeof edges / sizeof *edges && edges[n] <= big)
                n++;
            if (n > 0)
                return std::max(lo, edges[n - 1 - upto(std::min<uint64_t>(n, 12) - 1)]);
        }
        return std::max(lo, hi + upto(big - hi));
    }

    uint64_t Src::edgy64()
    {
        switch (pick({4, 2, 2, 1})) {
            case 0:
                return upto(20);
            case 1:
                return u64();
            case 2: {
                uint64_t b = upto(63);
                uint64_t d = upto(2);
                return (1ULL << b) + d - 1;
            }
            default:
                return UINT64_MAX - upto(3);
        }
    }

    std::vector<uint8_t> Src::bytes(size_t n)
    {
        std::vector<uint8_t> r(n);
        for (size_t i = 0; i < n;) {
            uint64_t v = u64();
            for (int k = 0; k < 8 && i < n; k++, i++)
                r[i] = static_cast<uint8_t>(v >> (8 * k));
        }
        return r;
    }

    std::vector<size_t> Src::shuffle(size_t n)
    {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; i++)
            p[i] = i;
        for (size_t i = 0; i + 1 < n; i++)
            std::swap(p[i], p[i + upto(n - 1 - i)]);
        return p;
    }

    std::string hexOf(const std::vector<uint8_t> &v)
    {
        static const char *d = "0123456789abcdef";
        std::string s;
        for (auto b : v) {
            s += d[b >> 4];
            s += d[b & 15];
        }
        return s;
    }

    std::string show(const std::string &s, size_t max)
    {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (r.size() > max) {
                r += "...(" + std::to_string(s.size()) + ")";
                break;
            }
            if (c < 32 || c > 126 || c == '"' || c == '\\') {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", c);
                r += b;
            } else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }

    static std::string jsonStr(const std::string &s)
    {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += static_cast<char>(c);
            } else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            } else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }

    // ---------------------------------------------------------------- running
    struct Opt {
        std::string tier = "quick";
        uint64_t seed = 1;
        std::string evidence, replays = ".", known, replay, scratch = "/tmp", only;
        unsigned jobs = 8;
        double cap = 40;
        double scale = 1;
    };
    static Opt opt;
    static Spec SP;
    static std::set<std::string> knownKeys;

    bool knownListed(const std::string &key) { return knownKeys.count(key) > 0; }

    static uint64_t strHash(const std::string &s)
    {
        uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ULL;
        return h;
    }
    static uint64_t caseSeed(const Sub &s, uint64_t idx)
    {
        return mix(mix(opt.seed, strHash(SP.property + "/" + s.name)), idx);
    }

    enum Outcome { PASS, FAILED, DISCARDED };
    struct Result {
        Outcome out = PASS;
        std::string msg;
        std::vector<uint64_t> record;
        bool nontrivial = false;
        std::set<std::string> labels;
        std::string text;
        bool crash = false;
    };

    static Result runCase(const Sub &s, Src &src)
    {
        Result r;
        Ctx ctx(src);
        try {
            uint64_t es = src.u64();
            if (SP.detRandom)
                entropySeed(es);
            s.fn(ctx);
        } catch (const Fail &f) {
            r.out = FAILED;
            r.msg = f.msg;
        } catch (const Discard &) {
            r.out = DISCARDED;
        } catch (const std::exception &e) {
            r.out = FAILED;
            r.msg = std::string("unexpected exception: ") + e.what();
        } catch (...) {
            r.out = FAILED;
            r.msg = "unexpected exception of unknown type";
        }
        r.record = src.record;
        r.nontrivial = ctx.nontrivial;
        r.labels = ctx.labels;
        r.text = ctx.text.str();
        return r;
    }

    static uint64_t recHash(const std::vector<uint64_t> &v, const std::string &sub)
    {
        uint64_t h = strHash(sub);
        for (size_t i = 1; i < v.size(); i++) // choice 0 only seeds entropy
            h = mix(h, v[i]);
        return h;
    }

    struct Shared {
        std::atomic<uint64_t> cursor;
        std::atomic<uint64_t> stop;
        std::atomic<uint64_t> timedOut;
        std::atomic<uint64_t> done[64];
        std::atomic<uint64_t> discarded[64];
        std::atomic<uint64_t> nontriv[64];
    };
    static Shared *SH = nullptr;

    static void childSetup(const std::string &log)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (fd >= 0)
            dup2(fd, 2);
        int in = open("/dev/null", O_RDONLY);
        dup2(in, 0);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(PBT_SANITIZED)
        // a run-away allocation fails here instead of taking the machine down
        struct rlimit as = {4000000000UL, 4000000000UL};
        setrlimit(RLIMIT_AS, &as);
#endif
    }

    static std::string logName(const std::string &what)
    {
        return opt.scratch + "/" + SP.property + "." + what + ".log";
    }

    static std::string tail(const std::string &file, size_t n = 3000)
    {
        std::ifstream f(file, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (s.size() > n)
            s = s.substr(0, n / 2) + "\n...\n" + s.substr(s.size() - n / 2);
        return s;
    }

    static std::vector<std::pair<uint32_t, uint64_t>> schedule()
    {
        std::vector<std::tuple<double, uint32_t, uint64_t>> v;
        for (uint32_t s = 0; s < SP.subs.size(); s++) {
            if (!opt.only.empty() && opt.only != SP.subs[s].name)
                continue;
            uint64_t n = opt.tier == "quick" ? SP.subs[s].quick : SP.subs[s].thorough;
            n = std::max<uint64_t>(1, static_cast<uint64_t>(n * opt.scale));
            for (uint64_t i = 0; i < n; i++)
                v.emplace_back((i + 0.5) / n, s, i);
        }
        std::sort(v.begin(), v.end());
        std::vector<std::pair<uint32_t, uint64_t>> r;
        for (auto &t : v)
            r.emplace_back(std::get<1>(t), std::get<2>(t));
        return r;
    }

    static void workerMain(unsigned w, Slot *slot,
                           const std::vector<std::pair<uint32_t, uint64_t>> &sched,
                           uint64_t deadline)
    {
        childSetup(logName("w" + std::to_string(w)));
        std::map<std::string, uint64_t> labels;
        std::map<std::string, std::vector<std::string>> samples;
        std::vector<uint64_t> hashes;
        g_slot = slot;
        slot->nchoices = 0;
        slot->sub = 0;
        slot->idx = UINT64_MAX; // warm-up
        slot->startMs = nowMs();
        slot->active = 1;
        if (SP.detRandom)
            entropySeed(opt.seed);
        if (SP.warmup)
            SP.warmup();
        slot->active = 0;
        for (;;) {
            if (SH->stop.load())
                break;
            if (nowMs() > deadline) {
                SH->timedOut = 1;
                break;
            }
            uint64_t k = SH->cursor.fetch_add(1);
            if (k >= sched.size())
                break;
            const Sub &s = SP.subs[sched[k].first];
            slot->sub = sched[k].first;
            slot->idx = sched[k].second;
            slot->nchoices = 0;
            slot->startMs = nowMs();
            slot->active = 1;
            Src src(caseSeed(s, sched[k].second));
            Result r = runCase(s, src);
            if (r.out == FAILED) {
                snprintf(slot->msg, sizeof slot->msg, "%s", r.msg.c_str());
                slot->failed = 1;
                SH->stop = 1;
                break;
            }
            slot->active = 0;
            uint64_t nh = slot->nhist.load();
            if (nh < HISTCAP) {
                slot->hist[nh] = k;
                slot->nhist = nh + 1;
            }
            uint32_t si = sched[k].first;
            SH->done[si]++;
            if (r.out == DISCARDED) {
                SH->discarded[si]++;
                continue;
            }
            for (auto &l : r.labels)
                labels[s.name + ":" + l]++;
            if (r.nontrivial) {
                SH->nontriv[si]++;
                hashes.push_back(recHash(r.record, s.name));
                auto &sv = samples[s.name];
                if (sv.size() < 2 && sched[k].second > 2)
                    sv.push_back(r.text.substr(0, 500));
            }
        }
        slot->active = 0;
        g_slot = nullptr;
        std::ofstream f(opt.scratch + "/" + SP.property + ".stats" + std::to_string(w),
                        std::ios::binary);
        f << labels.size() << "\n";
        for (auto &l : labels)
            f << l.second << " " << l.first << "\n";
        size_t ns = 0;
        for (auto &s : samples)
            ns += s.second.size();
        f << ns << "\n";
        for (auto &s : samples)
            for (auto t : s.second) {
                for (auto &c : t)
                    if (c == '\n')
                        c = ' ';
                f << s.first << "\t" << t << "\n";
            }
        f << hashes.size() << "\n";
        for (auto h : hashes)
            f << h << "\n";
        f.close();
        if (slot->failed == 0)
            slot->failed = 2;
        fflush(nullptr);
        _exit(0);
    }

    // ---------------------------------------------------------------- executor
    struct CaseRef {
        uint32_t sub;
        std::vector<uint64_t> choices;
    };

    static bool writeAll(int fd, const void *p, size_t n)
    {
        const char *c = static_cast<const char *>(p);
        while (n > 0) {
            ssize_t k = send(fd, c, n, MSG_NOSIGNAL);
            if (k <= 0)
                return false;
            c += k;
            n -= static_cast<size_t>(k);
        }
        return true;
    }
    static bool readAll(int fd, void *p, size_t n, uint64_t timeoutMs, bool &timeout)
    {
        char *c = static_cast<char *>(p);
        uint64_t end = nowMs() + timeoutMs;
        timeout = false;
        while (n > 0) {
            uint64_t now = nowMs();
            if (now >= end) {
                timeout = true;
                return false;
            }
            struct pollfd pf = {fd, POLLIN, 0};
            int pr = poll(&pf, 1, static_cast<int>(std::min<uint64_t>(end - now, 1000)));
            if (pr == 0)
                continue;
            ssize_t k = read(fd, c, n);
            if (k <= 0)
                return false;
            c += k;
            n -= static_cast<size_t>(k);
        }
        return true;
    }

    class Executor
    {
        int fd = -1;
        pid_t pid = -1;
        std::string log;

        void start()
        {
            int sv[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0)
                abort();
            log = logName("exec");
            pid = fork();
            if (pid == 0) {
                close(sv[0]);
                childSetup(log);
                serve(sv[1]);
                _exit(0);
            }
            close(sv[1]);
            fd = sv[0];
        }
        static void serve(int s)
        {
            bool to;
            if (SP.detRandom)
                entropySeed(opt.seed);
            if (SP.warmup)
                SP.warmup();
            for (;;) {
                uint64_t n = 0;
                if (!readAll(s, &n, 8, 1u << 30, to))
                    return;
                Result r;
                uint64_t which = 0;
                std::vector<CaseRef> cs(n);
                for (auto &c : cs) {
                    uint64_t h[2];
                    if (!readAll(s, h, 16, 100000, to))
                        return;
                    c.sub = static_cast<uint32_t>(h[0]);
                    c.choices.resize(h[1]);
                    if (h[1] > 0 && !readAll(s, c.choices.data(), h[1] * 8, 100000, to))
                        return;
                }
                for (which = 0; which < n; which++) {
                    Src src(cs[which].choices);
                    r = runCase(SP.subs[cs[which].sub], src);
                    if (r.out == FAILED)
                        break;
                }
                uint64_t hd[4] = {static_cast<uint64_t>(r.out), r.record.size(), r.msg.size(),
                                  r.text.size()};
                writeAll(s, hd, sizeof hd);
                writeAll(s, r.record.data(), r.record.size() * 8);
                writeAll(s, r.msg.data(), r.msg.size());
                writeAll(s, r.text.data(), r.text.size());
            }
        }

      public:
        ~Executor() { stop(); }
        void stop()
        {
            if (pid > 0) {
                kill(pid, SIGKILL);
                waitpid(pid, nullptr, 0);
                close(fd);
                pid = -1;
            }
        }
        Result run(const std::vector<CaseRef> &cs, uint64_t timeoutMs)
        {
            if (pid < 0)
                start();
            Result r;
            uint64_t n = cs.size();
            bool ok = writeAll(fd, &n, 8);
            for (auto &c : cs) {
                uint64_t h[2] = {c.sub, c.choices.size()};
                ok = ok && writeAll(fd, h, 16);
                if (!c.choices.empty())
                    ok = ok && writeAll(fd, c.choices.data(), c.choices.size() * 8);
            }
            uint64_t hd[4];
            bool to = false;
            if (ok && readAll(fd, hd, sizeof hd, timeoutMs, to)) {
                r.out = static_cast<Outcome>(hd[0]);
                r.record.resize(hd[1]);
                r.msg.resize(hd[2]);
                r.text.resize(hd[3]);
                bool o2 = true;
                if (hd[1])
                    o2 = readAll(fd, r.record.data(), hd[1] * 8, 10000, to);
                if (o2 && hd[2])
                    o2 = readAll(fd, &r.msg[0], hd[2], 10000, to);
                if (o2 && hd[3])
                    o2 = readAll(fd, &r.text[0], hd[3], 10000, to);
                return r;
            }
            r.out = FAILED;
            r.crash = true;
            r.record = cs.back().choices;
            if (to) {
                r.msg = "the operation did not terminate within " +
                        std::to_string(timeoutMs / 1000) + " s";
                stop();
            } else {
                int st = 0;
                waitpid(pid, &st, 0);
                close(fd);
                pid = -1;
                if (WIFSIGNALED(st))
                    r.msg = std::string("process died with signal ") + strsignal(WTERMSIG(st));
                else
                    r.msg = "process exited with status " + std::to_string(WEXITSTATUS(st));
                r.msg += "\n" + tail(log);
            }
            return r;
        }
    };

    static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
    {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    }

    static std::vector<uint64_t> shrink(uint32_t sub, std::vector<uint64_t> best, Result &bestR,
                                        uint64_t budgetMs)
    {
        Executor ex;
        uint64_t end = nowMs() + budgetMs;
        uint64_t hang = SP.subs[sub].hangSeconds * 1000;
        uint64_t tries = 0;
        std::set<uint64_t> seen;
        auto attempt = [&](std::vector<uint64_t> c) {
            if (nowMs() > end || !simpler(c, best))
                return false;
            uint64_t h = recHash(c, "x") ^ (c.empty() ? 0 : c[0]);
            if (!seen.insert(h).second)
                return false;
            tries++;
            uint64_t lim = std::min<uint64_t>(hang, budgetMs);
            Result r = ex.run({{sub, c}}, lim);
            if (r.out != FAILED || r.msg.rfind("the operation did not", 0) == 0)
                return false;
            if (!r.crash && simpler(r.record, c))
                c = r.record;
            best = c;
            bestR = r;
            return true;
        };
        bool progress = true;
        while (progress && nowMs() < end) {
            progress = false;
            for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
                for (size_t i = 0; i + k <= best.size() && nowMs() < end;) {
                    size_t at = best.size() - k - i;
                    auto c = best;
                    c.erase(c.begin() + at, c.begin() + at + k);
                    if (attempt(c))
                        progress = true;
                    else
                        i += k;
                    if (i + k > best.size())
                        break;
                }
                if (k == 1)
                    break;
            }
            for (size_t k = std::max<size_t>(1, best.size() / 4); k >= 1; k /= 2) {
                for (size_t i = 0; i + k <= best.size() && nowMs() < end; i += k) {
                    auto c = best;
                    bool any = false;
                    for (size_t j = i; j < i + k; j++) {
                        any = any || c[j] != 0;
                        c[j] = 0;
                    }
                    if (any && attempt(c))
                        progress = true;
                }
                if (k == 1)
                    break;
            }
            for (size_t i = 0; i < best.size() && nowMs() < end; i++) {
                if (best[i] == 0)
                    continue;
                uint64_t lo = 0, hi = best[i]; // hi fails
                while (lo + 1 < hi && nowMs() < end && i < best.size()) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    auto c = best;
                    c[i] = mid;
                    if (attempt(c)) {
                        progress = true;
                        if (i >= best.size())
                            break;
                        hi = best[i];
                    } else
                        lo = mid;
                }
            }
        }
        std::cerr << "shrink: " << tries << " attempts, " << best.size() << " choices\n";
        return best;
    }

    static void writeReplay(const std::string &path, const std::vector<CaseRef> &cs,
                            const Result &r)
    {
        std::ofstream f(path);
        f << "# property " << SP.property << " seed " << opt.seed << " tier " << opt.tier << "\n";
        std::istringstream m(r.msg);
        std::string line;
        while (std::getline(m, line))
            f << "# " << line << "\n";
        std::istringstream t(r.text);
        while (std::getline(t, line))
            f << "#   " << line << "\n";
        for (auto &c : cs) {
            f << "case " << SP.subs[c.sub].name;
            for (auto v : c.choices)
                f << " " << v;
            f << "\n";
        }
    }

    // is this failure the code's, whatever the machine was doing? (a failed allocation, a thread
    // that could not be started or a killed process are not)
    static bool definite(const std::string &m)
    {
        for (auto w : {"bad_alloc", "Resource temporarily unavailable", "Cannot allocate",
                       "No space left", "out of memory", "out-of-memory", "Killed"})
            if (m.find(w) != std::string::npos)
                return false;
        if (m.rfind("the operation did not", 0) == 0)
            return m.find("all threads wait") != std::string::npos;
        if (m.rfind("process ", 0) != 0)
            return true; // a check that did not hold
        for (auto w : {"Sanitizer: data race", "Sanitizer: SEGV", "Sanitizer: heap-",
                       "Sanitizer: stack-", "Sanitizer: attempting", "runtime error:",
                       "signal Segmentation fault", "signal Bus error", "signal Aborted"})
            if (m.find(w) != std::string::npos)
                return true;
        return false;
    }
    // every thread of a process asleep and no processor time used for two seconds
    static bool blocked(pid_t p)
    {
        auto sample = [&](uint64_t &ticks) {
            bool asleep = true;
            ticks = 0;
            std::string dir = "/proc/" + std::to_string(p) + "/task";
            DIR *d = opendir(dir.c_str());
            if (d == nullptr)
                return false;
            while (dirent *e = readdir(d)) {
                if (e->d_name[0] == '.')
                    continue;
                std::ifstream f(dir + "/" + e->d_name + "/stat");
                std::string line;
                std::getline(f, line);
                size_t at = line.rfind(')');
                if (at == std::string::npos)
                    continue;
                std::istringstream ss(line.substr(at + 1));
                std::string st, x;
                ss >> st;
                asleep = asleep && st == "S";
                for (int i = 0; i < 10; i++)
                    ss >> x;
                uint64_t u = 0, k = 0;
                ss >> u >> k;
                ticks += u + k;
            }
            closedir(d);
            return asleep;
        };
        uint64_t first = 0, now = 0;
        if (!sample(first))
            return false;
        for (int i = 0; i < 40; i++) {
            usleep(50000);
            if (!sample(now) || now != first)
                return false;
        }
        return true;
    }

    static int replayMain()
    {
        std::ifstream f(opt.replay);
        std::string line;
        std::vector<CaseRef> cs;
        while (std::getline(f, line)) {
            std::istringstream ss(line);
            std::string w, name;
            ss >> w;
            if (w != "case")
                continue;
            ss >> name;
            CaseRef c{UINT32_MAX, {}};
            for (uint32_t i = 0; i < SP.subs.size(); i++)
                if (SP.subs[i].name == name)
                    c.sub = i;
            if (c.sub == UINT32_MAX) {
                std::cerr << "unknown subcheck " << name << "\n";
                return 2;
            }
            uint64_t v;
            while (ss >> v)
                c.choices.push_back(v);
            cs.push_back(c);
        }
        Executor ex;
        Result r = ex.run(cs, 600000);
        std::cout << r.text << "\n" << r.msg << "\n";
        if (r.out == FAILED) {
            std::cout << "VIOLATION property=" << SP.property << " replay=" << opt.replay << "\n";
            return 1;
        }
        std::cout << "replay passed\n";
        return 0;
    }

    int run(int argc, char **argv)
    {
        SP = spec();
        unsigned hw = static_cast<unsigned>(sysconf(_SC_NPROCESSORS_ONLN));
        opt.jobs = std::max(1u, std::min(hw, 16u));
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--tier")
                opt.tier = val();
            else if (a == "--seed")
                opt.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--evidence")
                opt.evidence = val();
            else if (a == "--replays")
                opt.replays = val();
            else if (a == "--known")
                opt.known = val();
            else if (a == "--replay")
                opt.replay = val();
            else if (a == "--scratch")
                opt.scratch = val();
            else if (a == "--jobs")
                opt.jobs = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
            else if (a == "--cap")
                opt.cap = atof(val().c_str());
            else if (a == "--scale")
                opt.scale = atof(val().c_str());
            else if (a == "--only")
                opt.only = val();
        }
        opt.jobs = std::min(opt.jobs, SP.maxJobs);
        {
            // lines: "known: property=<id> key=<key> <text>"
            std::ifstream kf(opt.known);
            std::string line;
            while (std::getline(kf, line)) {
                if (line.rfind("known: property=" + SP.property + " key=", 0) == 0) {
                    std::istringstream ss(
                      line.substr(("known: property=" + SP.property + " key=").size()));
                    std::string k;
                    ss >> k;
                    knownKeys.insert(k);
                }
            }
        }
        if (!opt.replay.empty())
            return replayMain();

        uint64_t t0 = nowMs();
        auto sched = schedule();
        SH = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        std::vector<Slot *> slots;
        for (unsigned w = 0; w < opt.jobs; w++)
            slots.push_back(
              static_cast<Slot *>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
        uint64_t deadline = t0 + static_cast<uint64_t>(opt.cap * 1000);
        unsigned unreproduced = 0, vague = 0;
        uint64_t violations = 0;
        std::string violationLine;
        std::map<std::string, uint64_t> labels;
        std::map<std::string, std::vector<std::string>> samples;
        std::unordered_set<uint64_t> distinct;
        unsigned hangs = 0;

        auto collect = [&](unsigned w) {
            std::string fn = opt.scratch + "/" + SP.property + ".stats" + std::to_string(w);
            std::ifstream f(fn, std::ios::binary);
            size_t n = 0;
            std::string line;
            if (!std::getline(f, line))
                return;
            n = strtoull(line.c_str(), nullptr, 10);
            for (size_t i = 0; i < n && std::getline(f, line); i++) {
                size_t sp = line.find(' ');
                labels[line.substr(sp + 1)] += strtoull(line.c_str(), nullptr, 10);
            }
            if (!std::getline(f, line))
                return;
            n = strtoull(line.c_str(), nullptr, 10);
            for (size_t i = 0; i < n && std::getline(f, line); i++) {
                size_t tb = line.find('\t');
                auto &v = samples[line.substr(0, tb)];
                if (v.size() < 3)
                    v.push_back(line.substr(tb + 1));
            }
            if (!std::getline(f, line))
                return;
            n = strtoull(line.c_str(), nullptr, 10);
            for (size_t i = 0; i < n && std::getline(f, line); i++)
                distinct.insert(strtoull(line.c_str(), nullptr, 10));
            f.close();
            unlink(fn.c_str());
        };

        for (int round = 0; round < 4; round++) {
            SH->stop = 0;
            std::vector<pid_t> pids;
            for (unsigned w = 0; w < opt.jobs; w++) {
                slots[w]->active = 0;
                slots[w]->failed = 0;
                slots[w]->nhist = 0;
                slots[w]->nchoices = 0;
                slots[w]->msg[0] = 0;
                pid_t p = fork();
                if (p == 0)
                    workerMain(w, slots[w], sched, deadline);
                pids.push_back(p);
            }
            // supervise
            struct Failure {
                unsigned w;
                std::string msg;
                bool hang;
            };
            std::vector<Failure> fails;
            size_t left = pids.size();
            while (left > 0) {
                for (unsigned w = 0; w < pids.size(); w++) {
                    if (pids[w] < 0)
                        continue;
                    int st = 0;
                    pid_t r = waitpid(pids[w], &st, WNOHANG);
                    if (r == pids[w]) {
                        pids[w] = -1;
                        left--;
                        bool normal = WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->failed > 0;
                        if (slots[w]->failed == 1)
                            fails.push_back({w, slots[w]->msg, false});
                        else if (!normal) {
                            std::string m =
                              WIFSIGNALED(st)
                                ? std::string("process died with signal ") + strsignal(WTERMSIG(st))
                                : "process exited with status " + std::to_string(WEXITSTATUS(st));
                            fails.push_back(
                              {w, m + "\n" + tail(logName("w" + std::to_string(w))), false});
                            SH->stop = 1;
                        }
                        continue;
                    }
                    uint64_t lim = SP.subs[slots[w]->sub].hangSeconds * 1000;
                    if (slots[w]->active == 1 && nowMs() > slots[w]->startMs + lim) {
                        bool still = blocked(pids[w]);
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], nullptr, 0);
                        pids[w] = -1;
                        left--;
                        fails.push_back({w,
                                         std::string("the operation did not terminate") +
                                           (still ? ": all threads wait" : ""),
                                         true});
                        hangs++;
                        SH->stop = 1;
                    }
                }
                usleep(5000);
            }
            for (unsigned w = 0; w < opt.jobs; w++)
                collect(w);
            if (fails.empty())
                break;

            // confirm, earliest case first
            std::sort(fails.begin(), fails.end(), [&](const Failure &a, const Failure &b) {
                return std::make_pair(slots[a.w]->idx + 1, slots[a.w]->sub) <
                       std::make_pair(slots[b.w]->idx + 1, slots[b.w]->sub);
            });
            bool reported = false;
            for (auto &fl : fails) {
                Slot *s = slots[fl.w];
                if (s->idx == UINT64_MAX) {
                    // the warm-up itself failed: run the first case of the first sub
                    s->idx = 0;
                    s->nchoices = 0;
                }
                uint32_t sub = static_cast<uint32_t>(s->sub);
                std::vector<uint64_t> ch(s->choices, s->choices + s->nchoices.load());
                if (fl.hang || ch.empty()) {
                    // regenerate the whole choice list lazily: replay needs what was drawn
                }
                const Sub &sb = SP.subs[sub];
                std::cerr << "candidate failure in " << sb.name << " case " << s->idx << ": "
                          << fl.msg.substr(0, 600) << "\n";
                unsigned need = 3, got = 0, tries = sb.nondet ? 12 : 3;
                if (sb.nondet)
                    need = 1;
                Result last;
                bool hung = false;
                uint64_t tryEnd = nowMs() + 90000;
                for (unsigned i = 0; i < tries && got < need && (i < 3 || nowMs() < tryEnd); i++) {
                    Executor ex;
                    Result r = ex.run({{sub, ch}}, sb.hangSeconds * 1500);
                    if (r.out == FAILED) {
                        got++;
                        last = r;
                        if (r.msg.rfind("the operation did not", 0) == 0) {
                            // a hang is confirmed once and not shrunk: every attempt costs the limit
                            hung = true;
                            got = need;
                        }
                    } else if (!sb.nondet)
                        break;
                }
                std::vector<CaseRef> repro;
                if (got >= need) {
                    repro = {{sub, ch}};
                    if (!sb.nondet && !hung) {
                        Result br = last;
                        auto small = shrink(sub, ch, br, opt.tier == "quick" ? 60000 : 180000);
                        bool ok = true;
                        for (int i = 0; i < 3 && ok; i++) {
                            Executor ex;
                            Result r = ex.run({{sub, small}}, sb.hangSeconds * 2000);
                            ok = r.out == FAILED;
                            if (ok)
                                br = r;
                        }
                        if (ok) {
                            repro = {{sub, small}};
                            last = br;
                        }
                    }
                } else if (sb.nondet && definite(fl.msg)) {
                    // seen once, depends on the schedule
                    repro = {{sub, ch}};
                    last = Result();
                    last.out = FAILED;
                    last.msg = fl.msg + "\n(depends on the schedule: running the case again, " +
                               std::to_string(tries) + " times at most, did not show it)";
                } else if (!fl.hang && !sb.nondet) {
                    // depends on what ran before in that worker: rebuild its history
                    std::vector<CaseRef> hist;
                    for (uint64_t i = 0; i < s->nhist; i++) {
                        auto &sc = sched[s->hist[i]];
                        hist.push_back({sc.first, {}});
                        // record choices by generating them in a child
                        // (cases are pure functions of the seed)
                        hist.back().choices.clear();
                    }
                    // run the history by seed in a fresh child and keep the choices
                    int pfd[2];
                    if (pipe(pfd) == 0) {
                        auto runHist = [&](const std::vector<uint64_t> &ks) -> bool {
                            pid_t p = fork();
                            if (p == 0) {
                                childSetup(logName("hist"));
                                if (SP.detRandom)
                                    entropySeed(opt.seed);
                                if (SP.warmup)
                                    SP.warmup();
                                for (auto k : ks) {
                                    const Sub &q = SP.subs[sched[k].first];
                                    Src src(caseSeed(q, sched[k].second));
                                    runCase(q, src);
                                }
                                Src src(ch);
                                Result r = runCase(sb, src);
                                _exit(r.out == FAILED ? 9 : 0);
                            }
                            int st = 0;
                            waitpid(p, &st, 0);
                            return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                        };
                        std::vector<uint64_t> ks(s->hist, s->hist + s->nhist.load());
                        if (runHist(ks) && runHist(ks)) {
                            // drop history from the front, then single cases
                            uint64_t end = nowMs() + 60000;
                            for (size_t k = std::max<size_t>(1, ks.size() / 2); k >= 1; k /= 2) {
                                for (size_t i = 0; i + k <= ks.size() && nowMs() < end;) {
                                    auto c = ks;
                                    c.erase(c.begin() + i, c.begin() + i + k);
                                    if (runHist(c))
                                        ks = c;
                                    else
                                        i += k;
                                }
                                if (k == 1)
                                    break;
                            }
                            // write the choices of the remaining history
                            for (auto k : ks) {
                                std::string tmp = opt.scratch + "/" + SP.property + ".choices";
                                pid_t p = fork();
                                if (p == 0) {
                                    childSetup(logName("hist"));
                                    const Sub &q = SP.subs[sched[k].first];
                                    Src src(caseSeed(q, sched[k].second));
                                    Result r = runCase(q, src);
                                    std::ofstream o(tmp);
                                    for (auto v : r.record)
                                        o << v << " ";
                                    o.close();
                                    _exit(0);
                                }
                                waitpid(p, nullptr, 0);
                                CaseRef c{sched[k].first, {}};
                                std::ifstream in(tmp);
                                uint64_t v;
                                while (in >> v)
                                    c.choices.push_back(v);
                                unlink(tmp.c_str());
                                repro.push_back(c);
                            }
                            repro.push_back({sub, ch});
                            last = Result();
                            last.out = FAILED;
                            last.msg = fl.msg + "\n(after a history of " +
                                       std::to_string(ks.size()) + " earlier cases)";
                            Executor ex;
                            Result r = ex.run(repro, 600000);
                            if (r.out == FAILED)
                                last = r;
                        }
                        close(pfd[0]);
                        close(pfd[1]);
                    }
                }
                auto report = [&] {
                    mkdir(opt.replays.c_str(), 0755);
                    std::ostringstream pn;
                    pn << opt.replays << "/" << SP.property << "-" << sb.name << "-" << std::hex
                       << (recHash(repro.back().choices, sb.name) & 0xffffffff) << ".replay";
                    writeReplay(pn.str(), repro, last);
                    std::cout << "failed: " << sb.name << ": " << last.msg.substr(0, 3000) << "\n"
                              << "case: " << last.text.substr(0, 3000) << "\n";
                    violationLine = "VIOLATION property=" + SP.property + " replay=" + pn.str();
                    violations++;
                };
                if (!repro.empty()) {
                    report();
                    reported = true;
                    break;
                }
                unreproduced++;
                std::cerr << "not reproduced; continuing\n";
                if (definite(fl.msg) && ++vague >= 2) {
                    std::cerr << "(the second failure of this kind)\n";
                    repro = {{sub, ch}};
                    last = Result();
                    last.out = FAILED;
                    last.msg = fl.msg + "\n(depends on more than the generated input: running the "
                                        "case again did not show it)";
                    report();
                    reported = true;
                    break;
                }
            }
            if (reported)
                break;
        }

        // known findings
        std::vector<std::string> knownOut;
        for (auto &k : SP.known) {
            int pfd[2];
            if (pipe(pfd) != 0)
                continue;
            pid_t p = fork();
            if (p == 0) {
                childSetup(logName("known"));
                if (SP.detRandom)
                    entropySeed(opt.seed);
                int rc = 0;
                try {
                    rc = k.fn() ? 42 : 0;
                } catch (const std::exception &e) {
                    std::cerr << e.what() << "\n";
                    rc = 42;
                }
                _exit(rc);
            }
            int st = 0;
            waitpid(p, &st, 0);
            close(pfd[0]);
            close(pfd[1]);
            bool still = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            if (!still)
                continue;
            if (knownListed(k.key)) {
                std::string text;
                std::ifstream kf(opt.known);
                std::string line;
                while (std::getline(kf, line)) {
                    std::string pre = "known: property=" + SP.property + " key=" + k.key + " ";
                    if (line.rfind(pre, 0) == 0)
                        text = line.substr(pre.size());
                }
                knownOut.push_back("KNOWN-FINDING: property=" + SP.property + " " + k.key + ": " +
                                   text);
            } else if (violations == 0) {
                mkdir(opt.replays.c_str(), 0755);
                std::string pn = opt.replays + "/" + SP.property + "-" + k.key + ".replay";
                std::ofstream f(pn);
                f << "# fixed scenario " << k.key << " of " << SP.property << "\n";
                violationLine = "VIOLATION property=" + SP.property + " replay=" + pn;
                violations++;
            }
        }
        for (auto &l : knownOut)
            std::cout << l << "\n";

        // evidence
        uint64_t evals = 0, nontriv = 0;
        for (size_t i = 0; i < SP.subs.size(); i++) {
            evals += SH->done[i];
            nontriv += SH->nontriv[i];
        }
        double wall = (nowMs() - t0) / 1000.0;
        if (!opt.evidence.empty()) {
            std::ofstream f(opt.evidence + ".tmp");
            f << "{\n \"property\": " << jsonStr(SP.property)
              << ",\n \"tier\": " << jsonStr(opt.tier) << ",\n \"seed\": " << opt.seed
              << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
              << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": ";
            std::string rule;
            for (auto &s : SP.subs)
                rule += "[" + s.name + "] " + s.rule + " ";
            f << jsonStr(rule) << ",\n  \"subchecks\": {";
            for (size_t i = 0; i < SP.subs.size(); i++)
                f << (i ? "," : "") << "\n   " << jsonStr(SP.subs[i].name)
                  << ": {\"cases\": " << SH->done[i].load()
                  << ", \"nontrivial\": " << SH->nontriv[i].load()
                  << ", \"discarded\": " << SH->discarded[i].load() << "}";
            f << "\n  },\n  \"labels\": {";
            bool first = true;
            for (auto &l : labels) {
                f << (first ? "" : ",") << "\n   " << jsonStr(l.first) << ": " << l.second;
                first = false;
            }
            f << "\n  },\n  \"samples\": [";
            first = true;
            for (auto &s : samples)
                for (auto &t : s.second) {
                    f << (first ? "" : ",") << "\n   " << jsonStr(s.first + ": " + t);
                    first = false;
                }
            f << "\n  ],\n  \"time_cap_reached\": " << (SH->timedOut ? "true" : "false")
              << ",\n  \"unreproduced_candidates\": " << unreproduced
              << ",\n  \"known_findings_still_present\": " << knownOut.size()
              << ",\n  \"workers\": " << opt.jobs << "\n },\n \"assumptions\": [";
            for (size_t i = 0; i < SP.assumptions.size(); i++)
                f << (i ? "," : "") << "\n  " << jsonStr(SP.assumptions[i]);
            f << "\n ],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
            f.close();
            rename((opt.evidence + ".tmp").c_str(), opt.evidence.c_str());
        }
        std::cout << SP.property << " " << opt.tier << " seed=" << opt.seed << ": " << evals
                  << " cases, " << distinct.size() << " distinct non-trivial, " << wall << " s"
                  << (SH->timedOut ? " (time cap reached)" : "") << "\n";
        for (size_t i = 0; i < SP.subs.size(); i++)
            std::cout << "  " << SP.subs[i].name << ": " << SH->done[i].load() << " cases, "
                      << SH->nontriv[i].load() << " non-trivial, " << SH->discarded[i].load()
                      << " discarded\n";
        if (violations > 0) {
            std::cout << violationLine << std::endl;
            return 1;
        }
        if (evals == 0) {
            std::cout << "no case was run\n";
            return 2;
        }
        return 0;
    }
} // namespace pbt

int main(int argc, char **argv)
{
    // nothing may depend on the time zone the program runs in
    setenv("TZ", "VER-05:45VES-06:45,M3.2.0/2,M11.1.0/2", 1);
    tzset();
    return pbt::run(argc, argv);
}
