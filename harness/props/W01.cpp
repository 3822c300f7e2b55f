// W01: memory released by the library, searched for the secrets it held.
#include "electionguard/hash.hpp"
#include "electionguard/precompute_buffers.hpp"
#include "nonces.hpp"
#include "ser.hpp"

#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <unordered_set>

using namespace pbt;
using namespace gen;
using namespace electionguard;
using Bytes = std::vector<uint8_t>;

// --------------------------------------------------------------- the search
// A value is searched for by its eight-byte pieces, in either byte order, and
// by the hexadecimal text of these. Pieces with few different bytes are left
// out: they may occur by chance.
struct Watch {
    std::unordered_set<uint64_t> raw;     // eight bytes as they lie in memory
    std::unordered_set<uint64_t> hexHead; // the first eight digits of a piece
    std::unordered_set<std::string> hex;
    size_t blocks = 0, found = 0;
    size_t size = 0;

    void add(const Z &v)
    {
        Bytes le;
        for (Z z = v; z > 0; z >>= 8)
            le.push_back(static_cast<uint8_t>(Z(z & 255).get_ui()));
        add(le);
    }
    void add(const Bytes &le) // least significant first
    {
        static const char *up = "0123456789ABCDEF", *low = "0123456789abcdef";
        for (size_t i = 0; i + 8 <= le.size(); i += 8) {
            std::set<uint8_t> distinct(le.begin() + static_cast<long>(i),
                                       le.begin() + static_cast<long>(i) + 8);
            if (distinct.size() < 6)
                continue;
            uint8_t f[8], r[8];
            for (size_t k = 0; k < 8; k++) {
                f[k] = le[i + k];
                r[7 - k] = le[i + k];
            }
            uint64_t x;
            memcpy(&x, f, 8);
            raw.insert(x);
            memcpy(&x, r, 8);
            raw.insert(x);
            for (auto *d : {up, low}) {
                std::string t;
                for (auto b : r) {
                    t += d[b >> 4];
                    t += d[b & 15];
                }
                memcpy(&x, t.data(), 8);
                hexHead.insert(x);
                hex.insert(t);
            }
        }
    }
    bool rich() const { return !raw.empty(); }
};
static thread_local Watch *watching = nullptr;

__attribute__((noinline)) static void search(void *p)
{
    Watch *w = watching;
    watching = nullptr;
    size_t n = malloc_usable_size(p);
    auto *c = static_cast<const char *>(p);
    w->blocks++;
    for (size_t i = 0; i + 8 <= n; i++) {
        uint64_t x;
        memcpy(&x, c + i, 8);
        bool hit = w->raw.count(x) > 0;
        if (!hit && i + 16 <= n && w->hexHead.count(x) > 0)
            hit = w->hex.count(std::string(c + i, 16)) > 0;
        if (hit) {
            w->found++;
            w->size = n;
            break;
        }
    }
    watching = w;
}
void *operator new(size_t n)
{
    void *p = calloc(1, n == 0 ? 1 : n);
    if (p == nullptr)
        throw std::bad_alloc();
    return p;
}
void operator delete(void *p) noexcept
{
    if (p != nullptr && watching != nullptr)
        search(p);
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

template <typename F> static void during(Ctx &c, Watch &w, const Str &what, F f)
{
    if (!w.rich())
        return;
    c.nt();
    watching = &w;
    try {
        f();
    } catch (...) {
        watching = nullptr;
        throw;
    }
    watching = nullptr;
    check(w.found == 0, what + ": released memory holds the value (" + std::to_string(w.found) +
                          " of " + std::to_string(w.blocks) + " blocks, one of " +
                          std::to_string(w.size) + " bytes)");
}

// ----------------------------------------------------------------- elements
static Z valueOf(ElementModP &e) { return ref::of(e); }
static Z valueOf(ElementModQ &e) { return ref::of(e); }

template <typename T, typename Make> static void element(Ctx &c, const char *name, Make make)
{
    auto &s = c.src;
    U<T> t = make(s);
    Z v = valueOf(*t);
    c << name << " " << ref::shortHex(v);
    for (size_t n = s.upto(4); n > 0; n--) {
        switch (s.upto(4)) {
            case 0:
                c << " hex";
                t->toHex();
                break;
            case 1:
                c << " bytes";
                t->toBytes();
                break;
            case 2:
                c << " clone";
                t = t->clone();
                break;
            case 3:
                c << " copy";
                t = std::make_unique<T>(static_cast<const T &>(*t));
                break;
            default:
                c << " hash";
                hash_elems(CryptoHashableType(t.get()));
        }
    }
    Watch w;
    w.add(v);
    switch (s.upto(3)) {
        case 0:
            c << " destroyed";
            during(c, w, "destroying an element", [&] { t.reset(); });
            break;
        case 1: {
            c << " overwritten";
            U<T> o = make(s);
            if (valueOf(*o) == v)
                discard();
            during(c, w, "overwriting an element", [&] { *t = *o; });
            break;
        }
        case 2: {
            c << " copied and destroyed";
            during(c, w, "destroying the copies of an element", [&] {
                auto m = std::make_unique<T>(static_cast<const T &>(*t));
                auto n = m->clone();
                t.reset();
                m.reset();
                n.reset();
            });
            break;
        }
        default: {
            c << " in a list";
            Vec<U<T>> list;
            for (size_t n = s.upto(4); n > 0; n--) {
                list.push_back(make(s));
                w.add(valueOf(*list.back()));
            }
            list.push_back(std::move(t));
            during(c, w, "destroying a list of elements", [&] { list.clear(); });
        }
    }
}
static void elements(Ctx &c)
{
    auto &s = c.src;
    if (s.boolean())
        element<ElementModQ>(c, "q", [](Src &s) { return ref::modQ(ref::genQ(s)); });
    else
        element<ElementModP>(c, "p",
                             [](Src &s) { return ref::modP(ref::genP(s), s.chance(1, 4)); });
}

// ------------------------------------------------------- objects with secrets
static void owners(Ctx &c)
{
    auto &s = c.src;
    Watch w;
    auto drop = [&](const char *what, auto &&p) {
        c << what;
        c.label(what);
        during(c, w, Str("destroying ") + what, [&] { p.reset(); });
    };
    auto secret = [&] {
        Z z = ref::genQ(s);
        w.add(z);
        return ref::modQ(z);
    };
    switch (s.upto(7)) {
        case 0: {
            auto kp = std::make_unique<ElGamalKeyPair>(secret(), ref::modP(ref::genP(s)));
            if (s.boolean())
                kp = std::make_unique<ElGamalKeyPair>(static_cast<const ElGamalKeyPair &>(*kp));
            drop("a key pair", kp);
            break;
        }
        case 1: {
            Z z = ref::genExp(s);
            if (z < 2)
                discard();
            w.add(z);
            auto kp = ElGamalKeyPair::fromSecret(*ref::modQ(z), s.boolean());
            drop("a key pair from a secret", kp);
            break;
        }
        case 2: {
            auto t =
              std::make_unique<Triple>(secret(), ref::modP(ref::genP(s)), ref::modP(ref::genP(s)));
            if (s.boolean())
                t = t->clone();
            drop("a triple", t);
            break;
        }
        case 3: {
            auto t = std::make_unique<Quadruple>(secret(), secret(), ref::modP(ref::genP(s)),
                                                 ref::modP(ref::genP(s)));
            if (s.boolean())
                t = t->clone();
            drop("a quadruple", t);
            break;
        }
        case 4: {
            auto n = s.boolean()
                       ? std::make_unique<Nonces>(*secret())
                       : std::make_unique<Nonces>(*secret(), NoncesHeaderType(genText(s, 5)));
            for (size_t k = s.upto(3); k > 0; k--)
                w.add(ref::of(*n->get(s.upto(5))));
            drop("a nonce sequence", n);
            break;
        }
        case 5: {
            CBallot b = ser::genAnyCiphertext(s, {true, 2, 2, false});
            auto l = lib(b);
            if (s.boolean())
                l = std::make_unique<CiphertextBallot>(static_cast<const CiphertextBallot &>(*l));
            if (b.nonce)
                w.add(*b.nonce);
            for (auto &k : b.contests) {
                if (k.nonce)
                    w.add(*k.nonce);
                for (auto &x : k.sels)
                    if (x.nonce)
                        w.add(*x.nonce);
            }
            if (s.boolean())
                l->toJson(true);
            drop("an encrypted ballot", l);
            break;
        }
        case 6: {
            ser::AnyOpts o;
            CContest k = ser::genAnyContest(s, "c", 1, o);
            auto l = lib(k);
            if (k.nonce)
                w.add(*k.nonce);
            for (auto &x : k.sels)
                if (x.nonce)
                    w.add(*x.nonce);
            drop("an encrypted contest", l);
            break;
        }
        default: {
            ser::CompactM m = ser::genAnyCompact(s, 1);
            w.add(m.nonce);
            auto l = ser::lib(m);
            if (s.boolean())
                l->toMsgPack();
            drop("a compact encrypted ballot", l);
        }
    }
}

// --------------------------------------------------------- one-time block keys
static Bytes be32(const Z &z)
{
    Bytes b(32, 0);
    Z v = z;
    for (size_t i = 0; i < 32; i++, v >>= 8)
        b[31 - i] = static_cast<uint8_t>(Z(v & 255).get_ui());
    return b;
}
static void blockKeys(Ctx &c)
{
    auto &s = c.src;
    ref::Key k = ref::genKey(s);
    Z r = ref::genExp(s), ctx = ref::genQ(s);
    size_t blocks = s.range(1, 4);
    Bytes msg = s.bytes(32 * blocks);
    Z pad = ref::gpow(r), dh = ref::powp(k.K, r);
    Z session = ref::H({pad, dh});
    Watch w;
    for (size_t i = 0; i <= blocks; i++) {
        Bytes m;
        auto le = [&](uint32_t x) {
            for (int b = 0; b < 4; b++)
                m.push_back(static_cast<uint8_t>(x >> (8 * b)));
        };
        le(static_cast<uint32_t>(i));
        Bytes x = be32(ctx);
        m.insert(m.end(), x.begin(), x.end());
        le(static_cast<uint32_t>(blocks * 256));
        Bytes key = ref::hmac(be32(session), m);
        std::reverse(key.begin(), key.end());
        w.add(key);
    }
    c << blocks << " blocks, context " << ref::shortHex(ctx);
    PrecomputeBufferContext::empty_queues();
    auto lr = ref::modQ(r), lc = ref::modQ(ctx);
    auto lk = ref::modP(k.K);
    U<HashedElGamalCiphertext> h;
    auto copy = msg;
    during(c, w, "encrypting bytes",
           [&] { h = hashedElgamalEncrypt(copy, *lr, *lk, *lc, NO_PADDING, false); });
    auto ls = ref::modQ(k.s);
    Bytes got;
    if (s.boolean()) {
        during(c, w, "decrypting bytes", [&] { got = h->decrypt(*ls, *lc, false); });
        check(got == msg, "decryption");
    } else {
        Bytes mac = h->getMac();
        mac[s.upto(31)] ^= static_cast<uint8_t>(s.range(1, 255));
        auto bad =
          std::make_unique<HashedElGamalCiphertext>(h->getPad()->clone(), h->getData(), mac);
        bool refused = false;
        during(c, w, "refusing bytes", [&] {
            try {
                got = bad->decrypt(*ls, *lc, false);
            } catch (const std::exception &) {
                refused = true;
            }
        });
        check(refused, "a wrong mac was accepted");
    }
}

Spec pbt::spec()
{
    Spec p;
    p.property = "W01";
    const Str rule = "; non-trivial: the value has a piece of eight bytes with six different ones";
    p.subs = {
      {"elements", elements, 250000, 8000000,
       "elements used in any way, then copied, destroyed or overwritten" + rule},
      {"owners", owners, 80000, 3000000,
       "key pairs, precomputed values, nonce sequences and ballots with nonces" + rule},
      {"block-keys", blockKeys, 400, 40000,
       "byte oriented encryption, decryption and refusal, searched for the derived keys" + rule},
    };
    p.assumptions = {"memory is released through operator delete; the stack and registers are not "
                     "searched"};
    return p;
}
