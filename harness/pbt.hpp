// Choice-sequence property-based testing core (Hypothesis style).
//
// A case is a function of a sequence of bounded integer choices.  Random
// generation, replay and shrinking all act on that sequence, so every value a
// property ever draws shrinks and replays.  0 is always the simplest choice.
#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
    struct Fail : public std::exception {
        std::string msg;
        explicit Fail(std::string m) : msg(std::move(m)) {}
        const char *what() const noexcept override { return msg.c_str(); }
    };
    struct Discard {
    };

    uint64_t mix(uint64_t a, uint64_t b);

    class Src
    {
      public:
        Src(uint64_t seed) : state(seed), random(true) {}
        Src(std::vector<uint64_t> replay) : prefix(std::move(replay)), random(false) {}

        // uniform in [0, max]
        uint64_t upto(uint64_t max);
        uint64_t u64() { return upto(UINT64_MAX); }
        // uniform in [lo, hi]; shrinks to lo
        uint64_t range(uint64_t lo, uint64_t hi) { return lo + upto(hi - lo); }
        bool boolean() { return upto(1) == 1; }
        // true with probability num/den; shrinks to false
        bool chance(uint64_t num, uint64_t den)
        {
            return upto(den - 1) >= den - num;
        }
        // weighted pick; shrinks to alternative 0
        size_t pick(std::initializer_list<unsigned> weights);
        template <typename T> const T &of(const std::vector<T> &v)
        {
            return v[static_cast<size_t>(upto(v.size() - 1))];
        }
        // small-biased size in [lo, hi]
        uint64_t size(uint64_t lo, uint64_t hi);
        // like size(lo, hi), but one time in `den` a large number up to `big`,
        // biased to the limits of small integer types
        uint64_t many(uint64_t lo, uint64_t hi, uint64_t big, uint64_t den = 50);
        // a 64 bit value biased to boundaries
        uint64_t edgy64();
        std::vector<uint8_t> bytes(size_t n);
        // permutation of 0..n-1; identity when all choices are 0
        std::vector<size_t> shuffle(size_t n);

        std::vector<uint64_t> record;
        bool inner = false; // made by a body: not the choices to report

      private:
        uint64_t next();
        uint64_t state = 0;
        std::vector<uint64_t> prefix;
        size_t pos = 0;
        bool random;
    };

    // Per case context.
    struct Ctx {
        Src &src;
        bool nontrivial = false;
        std::set<std::string> labels;
        std::ostringstream text; // human readable description of the case
        explicit Ctx(Src &s) : src(s) {}
        void label(const std::string &l) { labels.insert(l); }
        void nt() { nontrivial = true; }
        template <typename T> Ctx &operator<<(const T &t)
        {
            text << t;
            return *this;
        }
    };

    [[noreturn]] inline void fail(const std::string &m) { throw Fail(m); }
    inline void check(bool ok, const std::string &m)
    {
        if (!ok)
            throw Fail(m);
    }
    [[noreturn]] inline void discard() { throw Discard(); }

    using Fn = std::function<void(Ctx &)>;

    struct Sub {
        std::string name;
        Fn fn;
        uint64_t quick;    // number of cases
        uint64_t thorough; // number of cases
        std::string rule;  // what is generated and what is non-trivial
        bool nondet = false;      // outcome depends on scheduling: confirm by retry
        uint64_t hangSeconds = 100;
    };

    // A finding recorded in known-findings.txt: replayed at the end of every
    // run; fn returns true while the recorded defect is still there.
    struct Known {
        std::string key;
        std::function<bool()> fn;
    };

    struct Spec {
        std::string property;
        std::vector<Sub> subs;
        std::vector<Known> known;
        std::vector<std::string> assumptions;
        // run in every process before the first case (never in the parent)
        std::function<void()> warmup;
        unsigned maxJobs = 64;
        bool detRandom = true; // feed the library deterministic entropy
    };

    // implemented by each property's translation unit
    Spec spec();

    // keys listed for this property in known-findings.txt
    bool knownListed(const std::string &key);

    // Deterministic entropy (see entropy.cpp)
    void entropySeed(uint64_t seed);
    void entropyPassThrough(bool on);

    std::string hexOf(const std::vector<uint8_t> &v);
    std::string show(const std::string &s, size_t max = 60);

    int run(int argc, char **argv);
} // namespace pbt
