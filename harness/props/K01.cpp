// K01: histories of the precompute buffers.
#include "electionguard/encrypt.h"
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

#include <atomic>
#include <chrono>
#include <thread>

using namespace pbt;
using namespace gen;
using namespace electionguard;
using B = PrecomputeBufferContext;

// every exponent handed out in a case; none may come twice
struct Seen {
    std::map<Z, Str> exps;
    void add(const Z &e, const Str &what)
    {
        check(e >= 0 && e < ref::QQ(), "exponent of " + what + " out of range");
        auto r = exps.emplace(e, what);
        check(r.second,
              "the exponent of " + what + " was already handed out in " + r.first->second);
    }
};
static void takeTriple(Triple &t, const Z &K, Seen &seen, const Str &what)
{
    Z e = ref::of(*t.get_exp());
    seen.add(e, what);
    check(ref::of(*t.get_g_to_exp()) == ref::gpow(e), what + ": not a power of the generator");
    check(ref::of(*t.get_pubkey_to_exp()) == ref::powp(K, e), what + ": not a power of the key");
}
static void takeQuad(Quadruple &q, const Z &K, Seen &seen, const Str &what)
{
    Z e1 = ref::of(*q.get_exp1()), e2 = ref::of(*q.get_exp2());
    seen.add(e1, what + " first");
    seen.add(e2, what + " second");
    check(ref::of(*q.get_g_to_exp1()) == ref::gpow(e1), what + ": not a power of the generator");
    check(ref::of(*q.get_g_to_exp2_mult_by_pubkey_to_exp1()) ==
            ref::mulp(ref::gpow(e2), ref::powp(K, e1)),
          what + ": not the product of the powers");
}

// the C functions, which must do the same
static const auto OKAY = ELECTIONGUARD_STATUS_SUCCESS;
static void init(bool viaC, uint32_t n)
{
    if (viaC)
        check(eg_precompute_init(static_cast<int>(n)) == OKAY, "eg_precompute_init");
    else
        B::init(n);
}
static void populate(bool viaC, const Z &K)
{
    auto k = ref::modP(K, true);
    if (viaC)
        check(eg_precompute_populate(reinterpret_cast<eg_element_mod_p_t *>(k.get())) == OKAY,
              "eg_precompute_populate");
    else
        B::populate(*k);
}
static void stop(bool viaC)
{
    if (viaC)
        check(eg_precompute_stop() == OKAY, "eg_precompute_stop");
    else
        B::stop_populate();
}

struct Model {
    uint32_t max = 0;
    bool ok = false;
    std::vector<size_t> sets; // index of the key each was filled with
    std::set<size_t> triples; // keys extra triples may be there for
};
static bool fits(Triple &t, const Z &K)
{
    return ref::of(*t.get_pubkey_to_exp()) == ref::powp(K, ref::of(*t.get_exp()));
}

static void history(Ctx &c)
{
    auto &s = c.src;
    std::vector<ref::Key> keys;
    keys.push_back(ref::genKey(s));
    keys.push_back(ref::genKey(s));
    Seen seen;
    Model m;
    B::empty_queues();
    B::init(m.max = 2);
    m.ok = true;
    size_t n = s.range(2, 14);
    size_t taken = 0, made = 0;
    auto sizes = [&](const Str &when) {
        check(B::get_max_queue_size() == m.max, when + ": maximum queue size");
        check(B::get_current_queue_size() == m.sets.size(),
              when + ": current queue size is " + std::to_string(B::get_current_queue_size()) +
                ", expected " + std::to_string(m.sets.size()));
        int count = -1, size = -1;
        check(eg_precompute_status(&count, &size) == OKAY, "eg_precompute_status");
        check(count == static_cast<int>(m.sets.size()) && size == static_cast<int>(m.max),
              when + ": eg_precompute_status gives " + std::to_string(count) + "/" +
                std::to_string(size));
    };
    for (size_t i = 0; i < n; i++) {
        Str step = "step " + std::to_string(i);
        switch (s.pick({4, 4, 5, 3, 2, 2})) {
            case 0: {
                uint32_t to = static_cast<uint32_t>(s.chance(1, 6) ? 0 : s.range(1, 5));
                c << " init(" << to << ")";
                init(s.boolean(), to);
                m.max = to == 0 ? DEFAULT_PRECOMPUTE_SIZE : to;
                m.ok = true;
                if (to == 0) { // the default is too much to fill here
                    B::stop_populate();
                    m.ok = false;
                }
                break;
            }
            case 1: {
                size_t k = s.upto(1);
                c << " populate(key" << k << ")";
                size_t before = m.sets.size();
                populate(s.boolean(), keys[k].K);
                size_t now = B::get_current_queue_size();
                size_t want = !m.ok ? before : std::max<size_t>(before, m.max);
                check(now == want, step + ": populate left " + std::to_string(now) +
                                     " values, expected " + std::to_string(want));
                for (size_t j = before; j < want; j++) {
                    m.sets.push_back(k);
                    m.triples.insert(k);
                    made++;
                }
                break;
            }
            case 2: {
                c << " take";
                auto t = B::getTwoTriplesAndAQuadruple();
                check((t != nullptr) == !m.sets.empty(),
                      step + (t ? ": a value from empty buffers" : ": no value though available"));
                if (t) {
                    // for one of the keys in the buffers
                    size_t at = 0;
                    while (at < m.sets.size() && !fits(*t->get_triple1(), keys[m.sets[at]].K))
                        at++;
                    check(at < m.sets.size(), step + ": a value for no key in the buffers");
                    Z K = keys[m.sets[at]].K;
                    m.sets.erase(m.sets.begin() + static_cast<long>(at));
                    taken++;
                    takeTriple(*t->get_triple1(), K, seen, step + " triple 1");
                    takeTriple(*t->get_triple2(), K, seen, step + " triple 2");
                    takeQuad(*t->get_quad(), K, seen, step + " quadruple");
                    // reading twice gives the same, and a clone is equal
                    check(ref::of(*t->get_triple1()->get_exp()) ==
                            ref::of(*t->clone()->get_triple1()->get_exp()),
                          step + ": clone differs");
                } else
                    c.label("drained");
                break;
            }
            case 3: {
                c << " triple";
                auto t = B::getTriple();
                check(t == nullptr || !m.triples.empty(),
                      step + ": a triple from buffers that were never filled");
                if (t) {
                    const Z *K = nullptr;
                    for (auto k : m.triples)
                        if (fits(*t, keys[k].K))
                            K = &keys[k].K;
                    check(K != nullptr, step + ": a triple for no key in the buffers");
                    taken++;
                    takeTriple(*t, *K, seen, step + " extra triple");
                    takeTriple(*t->clone(), *K, *std::make_unique<Seen>(), step + " cloned triple");
                } else
                    c.label("drained");
                break;
            }
            case 4:
                c << " stop";
                stop(s.boolean());
                m.ok = false;
                c.label("stopped");
                break;
            default:
                c << " empty";
                B::empty_queues();
                m.sets.clear();
                m.triples.clear();
                c.label("emptied");
        }
        sizes(step);
    }
    if (taken > 0 && made > 1)
        c.nt();
    B::empty_queues();
}

// fills of many values, drained and refilled
static void large(Ctx &c)
{
    auto &s = c.src;
    ref::Key key = ref::genKey(s), other = ref::genKey(s);
    Seen seen;
    B::empty_queues();
    size_t rounds = s.range(1, 3);
    for (size_t r = 0; r < rounds; r++) {
        static const uint32_t special[] = {31,  32,  33,  63,  64,  65,  99, 100,
                                           101, 127, 128, 129, 255, 256, 257};
        uint32_t n = static_cast<uint32_t>(s.pick({3, 2}) == 0 ? s.range(6, 80)
                                                               : special[s.upto(r == 0 ? 14 : 8)]);
        const ref::Key &k = s.chance(1, 4) ? other : key;
        c << " fill(" << n << ")";
        B::init(n);
        B::populate(*ref::modP(k.K, true));
        check(B::get_current_queue_size() == n, "size after a fill");
        // some of the relations, all of the exponents
        size_t every = s.range(1, 3);
        size_t got = 0, extra = 0;
        auto name = [&](const char *what, size_t i) {
            return "round " + std::to_string(r) + " " + what + " " + std::to_string(i);
        };
        auto triple = [&](Triple &t, bool full, const Str &what) {
            if (full)
                takeTriple(t, k.K, seen, what);
            else
                seen.add(ref::of(*t.get_exp()), what);
        };
        while (auto t = B::getTwoTriplesAndAQuadruple()) {
            bool full = got % every == 0;
            triple(*t->get_triple1(), full, name("triple 1 of", got));
            triple(*t->get_triple2(), full, name("triple 2 of", got));
            if (full)
                takeQuad(*t->get_quad(), k.K, seen, name("quadruple of", got));
            else {
                seen.add(ref::of(*t->get_quad()->get_exp1()), name("first of quadruple", got));
                seen.add(ref::of(*t->get_quad()->get_exp2()), name("second of quadruple", got));
            }
            got++;
            check(B::get_current_queue_size() == n - got, "size while draining");
        }
        check(got == n, "values handed out after a fill of " + std::to_string(n) + ": " +
                          std::to_string(got));
        while (auto t = B::getTriple()) {
            triple(*t, extra % every == 0, name("extra triple", extra));
            extra++;
        }
        check(B::getTwoTriplesAndAQuadruple() == nullptr, "a value from drained buffers");
    }
    c.nt();
    B::empty_queues();
}

// encrypting with buffers that run out at any point
static void fallback(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, tiny());
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    c << dump(e.man);
    B::empty_queues();
    uint32_t n = static_cast<uint32_t>(s.upto(6));
    if (n > 0) {
        B::init(n);
        B::populate(*e.context->getElGamalPublicKey());
        B::stop_populate();
    }
    size_t drop = s.upto(3);
    for (size_t i = 0; i < drop; i++)
        if (s.boolean())
            B::getTriple();
        else
            B::getTwoTriplesAndAQuadruple();
    c << " filled " << n << " dropped " << drop;
    std::map<Z, Str> pads;
    size_t used = B::get_current_queue_size();
    size_t rounds = s.range(1, 2), selections = 0;
    for (size_t i = 0; i < rounds; i++) {
        Ballot b = genBallot(s, e.in, style);
        c << dump(b);
        auto l = encryptBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(ref::genQ(s)),
                               nullptr, 1 + s.upto(1000), false);
        CBallot m = of(*l);
        Str why = refuses(m, gen::hash(e.man), e.key.K, e.extBase);
        check(why.empty(), "a ballot encrypted with precomputed values is refused: " + why);
        auto want = plain(b, e.in);
        for (size_t k = 0; k < m.contests.size(); k++) {
            check(!m.contests[k].ext || pads.emplace(m.contests[k].ext->pad, "").second,
                  "the extra data uses a value used before");
            check(!m.contests[k].proof || pads.emplace(m.contests[k].proof->a, "").second,
                  "the limit proof uses a value used before");
            for (size_t x = 0; x < m.contests[k].sels.size(); x++) {
                auto &z = m.contests[k].sels[x];
                selections++;
                check(pads.emplace(z.ct.a, "").second, "a precomputed value was used twice");
                check(pads.emplace(z.proof->a0, "").second && pads.emplace(z.proof->a1, "").second,
                      "a precomputed commitment was used twice");
                // the vote it encrypts
                Z d = ref::mulp(z.ct.b, ref::inv(ref::powp(z.ct.a, e.key.s)));
                Z v = Z(static_cast<unsigned long>(want[k].votes[x].second));
                check(d == ref::powp(e.key.K, v) || d == ref::gpow(v),
                      "the encrypted vote is wrong");
                check(z.nonce && ref::gpow(*z.nonce) == z.ct.a, "the recorded nonce is wrong");
            }
        }
    }
    if (used > 0) {
        c.nt();
        c.label(used < selections ? "ran out" : "enough");
    }
    B::empty_queues();
}

// the documented way to use them: a thread fills while others take
static void threaded(Ctx &c)
{
    auto &s = c.src;
    ref::Key key = ref::genKey(s);
    uint32_t max = static_cast<uint32_t>(s.range(3, 12));
    B::empty_queues();
    B::init(max);
    size_t takers = s.range(1, 3), each = s.range(1, 8);
    uint64_t delay = s.upto(30);
    bool stop = s.boolean();
    c << "max " << max << " takers " << takers << " each " << each << " stop " << stop << " after "
      << delay << "ms";
    std::atomic<bool> done{false};
    std::thread filler([&] {
        B::populate(*ref::modP(key.K, true));
        done = true;
    });
    std::vector<Vec<U<TwoTriplesAndAQuadruple>>> got(takers);
    std::vector<Vec<U<Triple>>> extra(takers);
    std::vector<std::thread> th;
    for (size_t t = 0; t < takers; t++)
        th.emplace_back([&, t] {
            for (int tries = 0; tries < 4000 && got[t].size() < each; tries++) {
                auto x = B::getTwoTriplesAndAQuadruple();
                if (x)
                    got[t].push_back(move(x));
                auto y = B::getTriple();
                if (y)
                    extra[t].push_back(move(y));
                if (done)
                    break;
                std::this_thread::yield();
            }
        });
    if (stop) {
        std::this_thread::sleep_for(std::chrono::milliseconds(delay));
        B::stop_populate();
    }
    for (auto &t : th)
        t.join();
    if (!stop)
        for (int i = 0; i < 100 && !done; i++)
            std::this_thread::sleep_for(std::chrono::milliseconds(10));
    B::stop_populate();
    filler.join();
    check(B::get_current_queue_size() <= max, "more values than the limit");
    Seen seen;
    size_t n = 0;
    for (size_t t = 0; t < takers; t++) {
        for (auto &x : got[t]) {
            Str w = "thread " + std::to_string(t) + " value " + std::to_string(n++);
            takeTriple(*x->get_triple1(), key.K, seen, w + " triple 1");
            takeTriple(*x->get_triple2(), key.K, seen, w + " triple 2");
            takeQuad(*x->get_quad(), key.K, seen, w + " quadruple");
        }
        for (auto &x : extra[t])
            takeTriple(*x, key.K, seen,
                       "thread " + std::to_string(t) + " extra " + std::to_string(n++));
    }
    while (auto x = B::getTwoTriplesAndAQuadruple())
        takeTriple(*x->get_triple1(), key.K, seen, "left over " + std::to_string(n++));
    while (auto x = B::getTriple())
        takeTriple(*x, key.K, seen, "left over extra " + std::to_string(n++));
    if (n > 1)
        c.nt();
    B::empty_queues();
}

Spec pbt::spec()
{
    Spec p;
    p.property = "K01";
    p.subs = {
      {"history", history, 1200, 40000,
       "histories of up to 14 operations over two keys against a model of the "
       "queues; non-trivial: "
       "something was filled and taken"},
      {"large", large, 24, 1200,
       "fills of 6 to 257 values, drained to the end, one to three times; all "
       "non-trivial"},
      {"fallback", fallback, 200, 6000,
       "ballots encrypted with buffers filled to any level; non-trivial: some "
       "values were there"},
      {"threaded", threaded, 240, 8000,
       "a filling thread and up to three taking threads; non-trivial: several "
       "values were taken",
       true},
    };
    p.assumptions = {"a populate call runs in one thread at a time"};
    return p;
}
