// H02: nonce sequences against the reference, over read histories.
#include "nonces.hpp"
#include "ref.hpp"

#include <unordered_map>

using namespace ref;
using namespace pbt;
using namespace electionguard;

static void eq(const Z &got, const Z &want, const std::string &what)
{
    if (got != want)
        fail(what + ": got " + got.get_str(16) + " want " + want.get_str(16));
}

static std::string genHeader(Src &s)
{
    static const std::vector<std::string> v = {"", "a", "constant-extended-data", "b", "null",
                                               "0", "1", "aa", "a|b", "\xc3\xa9"};
    if (s.chance(2, 3))
        return s.of(v);
    std::string r;
    size_t n = s.upto(100);
    for (size_t i = 0; i < n; i++)
        r += static_cast<char>(s.range(32, 126));
    return r;
}

struct Made {
    std::unique_ptr<Nonces> n;
    Z seed;
};
static Made make(Ctx &c, const Z &seed)
{
    auto &s = c.src;
    Made m;
    auto q = modQ(seed);
    switch (s.pick({2, 2, 2, 2})) {
        case 0:
            m.n = std::make_unique<Nonces>(*q);
            m.seed = seed;
            c << "no header";
            break;
        case 1: {
            std::string h = genHeader(s);
            m.n = std::make_unique<Nonces>(*q, h);
            m.seed = H({seed, h});
            c << "header " << show(h, 20);
            break;
        }
        case 2: {
            Z z = genQ(s);
            auto e = modQ(z);
            m.n = std::make_unique<Nonces>(*q, e.get());
            m.seed = H({seed, z});
            c << "header Q " << shortHex(z);
            break;
        }
        default: {
            Z z = genP(s);
            auto e = modP(z);
            m.n = std::make_unique<Nonces>(*q, e.get());
            m.seed = H({seed, z});
            c << "header P " << shortHex(z);
            break;
        }
    }
    return m;
}

static void history(Ctx &c)
{
    auto &s = c.src;
    Z seed = genQ(s);
    c << "seed " << shortHex(seed) << " ";
    Made m = make(c, seed);
    uint64_t next = 0;
    std::map<std::string, Z> seen; // canonical request -> value
    std::map<Z, std::string> inv;
    auto note = [&](const std::string &req, const Z &v) {
        check(v < QQ(), "nonce out of range");
        auto it = seen.find(req);
        if (it != seen.end())
            check(it->second == v, "the same nonce read twice differs");
        seen[req] = v;
        auto j = inv.find(v);
        if (j != inv.end())
            check(j->second == req, "two different requests gave the same nonce: " + req + " and " +
                                      j->second);
        inv[v] = req;
    };
    auto key = [](uint64_t i) { return i == 0 ? std::string("null") : std::to_string(i); };
    size_t ops = s.many(1, 25, 400, 200);
    for (size_t k = 0; k < ops; k++) {
        switch (s.pick({3, 2, 2, 3})) {
            case 0: {
                uint64_t i = s.edgy64();
                Z v = of(m.n->get(i));
                c << " get(" << i << ")";
                eq(v, H({m.seed, i}), "get(" + std::to_string(i) + ")");
                note(key(i), v);
                next = i + 1;
                break;
            }
            case 1: {
                uint64_t i = s.edgy64();
                std::string h = genHeader(s);
                Z v = of(m.n->get(i, h));
                c << " get(" << i << "," << show(h, 12) << ")";
                eq(v, H({m.seed, i, h}), "get with header");
                note(key(i) + "|" + (h.empty() ? "null" : h), v);
                next = i + 1;
                break;
            }
            case 2: {
                uint64_t i = s.edgy64(), n = s.many(0, 8, 300, 200);
                if (i > UINT64_MAX - n)
                    i -= n;
                auto v = m.n->get(i, n);
                c << " get(" << i << ".." << n << ")";
                check(v.size() == n, "batch size");
                for (uint64_t j = 0; j < n; j++) {
                    eq(of(v[j]), H({m.seed, i + j}), "batch item");
                    note(key(i + j), of(v[j]));
                }
                if (n > 0)
                    next = i + n;
                break;
            }
            default: {
                Z v = of(m.n->next());
                c << " next";
                eq(v, H({m.seed, next}), "next item " + std::to_string(next));
                note(key(next), v);
                next++;
            }
        }
    }
    if (ops > 1)
        c.nt();
}

// different seeds or headers give different sequences
static void independence(Ctx &c)
{
    auto &s = c.src;
    Z a = genQ(s), b = s.boolean() ? genQ(s) : modq(a + 1);
    Made x = make(c, a);
    c << " vs ";
    Made y = make(c, b);
    uint64_t i = s.upto(3);
    bool same = x.seed == y.seed;
    c << " item " << i << (same ? " same" : " different");
    if (!same)
        c.nt();
    Z vx = of(x.n->get(i)), vy = of(y.n->get(i));
    check((vx == vy) == same, "nonces of different sequences coincide (or equal ones differ)");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "H02";
    sp.subs = {
      {"history", history, 480000, 2000000,
       "a sequence (seed, header of any kind) and up to 25 indexed/headed/batched/next reads compared "
       "with the specified hashes; non-trivial: at least two reads"},
      {"independence", independence, 480000, 2000000,
       "two sequences with different or equal seed and header; non-trivial: different"},
    };
    sp.assumptions = {"batches do not run past index 2^64-1",
                      "next() continues after the last item read"};
    return sp;
}
