// A01: the C interface against the reference models and the C++ objects,
// under AddressSanitizer with exact heap accounting.
extern "C" {
#include "electionguard/ballot.h"
#include "electionguard/ballot_code.h"
#include "electionguard/ballot_compact.h"
#include "electionguard/chaum_pedersen.h"
#include "electionguard/collections.h"
#include "electionguard/election.h"
#include "electionguard/elgamal.h"
#include "electionguard/encrypt.h"
#include "electionguard/group.h"
#include "electionguard/hash.h"
#include "electionguard/manifest.h"
#include "electionguard/status.h"
}
#include "electionguard/precompute_buffers.hpp"
#include "ser.hpp"

#include <cstring>
#include <sanitizer/allocator_interface.h>

using namespace pbt;
using namespace gen;
namespace eg = electionguard;
using ref::UQ;

typedef eg_electionguard_status_t St;
#define OK(call) check((call) == ELECTIONGUARD_STATUS_SUCCESS, #call)
#define IS(status, call)                                                                           \
    do {                                                                                           \
        St st_ = (call);                                                                           \
        check(st_ == (status), Str(#call) + " gave " + eg_electionguard_get_status(st_) +          \
                                 " for " + eg_electionguard_get_status(status));                   \
    } while (0)

// ----------------------------------------------------------- reused addresses
// While a Reuse lives, operator new hands out what operator delete took last.
// (AddressSanitizer keeps freed memory away for long.)
static thread_local std::map<size_t, Vec<void *>> *g_freed;
extern "C" {
void *__real__Znwm(size_t);
void __real__ZdlPv(void *);
void *__wrap__Znwm(size_t n)
{
    if (g_freed) {
        auto *m = g_freed;
        g_freed = nullptr;
        void *p = nullptr;
        auto it = m->find(n);
        if (it != m->end() && !it->second.empty()) {
            p = it->second.back();
            it->second.pop_back();
        }
        g_freed = m;
        if (p)
            return p;
    }
    return __real__Znwm(n);
}
void __wrap__ZdlPv(void *p)
{
    size_t n = p && g_freed ? __sanitizer_get_allocated_size(p) : 0;
    if (n > 0 && n <= 4096) {
        auto *m = g_freed;
        g_freed = nullptr;
        (*m)[n].push_back(p);
        g_freed = m;
        return;
    }
    __real__ZdlPv(p);
}
void __wrap__ZdlPvm(void *p, size_t) { __wrap__ZdlPv(p); }
}
struct Reuse {
    std::map<size_t, Vec<void *>> m;
    Reuse() { g_freed = &m; }
    ~Reuse()
    {
        g_freed = nullptr;
        for (auto &e : m)
            for (void *p : e.second)
                __real__ZdlPv(p);
    }
};

// ------------------------------------------------------------------ plumbing
// handles that are released at the end of the scope
struct Bag {
    Vec<std::function<void()>> f;
    ~Bag()
    {
        for (size_t i = f.size(); i > 0; i--)
            f[i - 1]();
    }
};
static int g_unfreed; // handles that were not freed when asked to
#define OWN(bag, freefn, h)                                                                        \
    (bag).f.push_back([=] {                                                                        \
        if (freefn(h) != ELECTIONGUARD_STATUS_SUCCESS)                                             \
            g_unfreed++;                                                                           \
    })

// texts as long as a sub asks for, and ballots that are refused
static size_t g_len;
static bool g_refused;
static Str longer(const Str &t) { return g_len ? t + Str(g_len, 'y') : t; }

static char *m(const Str &s) { return const_cast<char *>(s.c_str()); }
// the pointers of a list of strings
struct Ptrs {
    Vec<char *> v;
    explicit Ptrs(const Vec<Str> &s)
    {
        for (auto &x : s)
            v.push_back(m(x));
        v.push_back(nullptr);
    }
    char **data() { return v.data(); }
};
template <typename T> struct Hs { // handles
    Vec<T *> v;
    T **data() { return v.empty() ? nullptr : v.data(); }
    uint64_t size() const { return v.size(); }
};

static Str takeC(const char *p, const char *what)
{
    check(p != nullptr, Str(what) + ": no text");
    Str r(p);
    check(eg_free_int_ptr(const_cast<char *>(p)) == ELECTIONGUARD_STATUS_SUCCESS, "free of a text");
    return r;
}
#define TEXT(fn, h)                                                                                \
    [&] {                                                                                          \
        char *t_ = nullptr;                                                                        \
        OK(fn(h, &t_));                                                                            \
        return takeC(t_, #fn);                                                                     \
    }()
#define CTEXT(fn, h)                                                                               \
    [&] {                                                                                          \
        const char *t_ = nullptr;                                                                  \
        OK(fn(h, &t_));                                                                            \
        return takeC(t_, #fn);                                                                     \
    }()
#define TEXT_AT(fn, h, i)                                                                          \
    [&] {                                                                                          \
        char *t_ = nullptr;                                                                        \
        OK(fn(h, i, &t_));                                                                         \
        return takeC(t_, #fn);                                                                     \
    }()

static Z zq(eg_element_mod_q_t *h)
{
    check(h != nullptr, "no element");
    uint64_t *d = nullptr, n = 0;
    OK(eg_element_mod_q_get_data(h, &d, &n));
    check(n == MAX_Q_LEN, "size of an element mod q");
    return ref::fromLimbs(d, n);
}
static Z zp(eg_element_mod_p_t *h)
{
    check(h != nullptr, "no element");
    uint64_t *d = nullptr, n = 0;
    OK(eg_element_mod_p_get_data(h, &d, &n));
    check(n == MAX_P_LEN, "size of an element mod p");
    return ref::fromLimbs(d, n);
}
static eg_element_mod_q_t *mkq(const Z &z)
{
    eg_element_mod_q_t *h = nullptr;
    auto l = ref::limbs(z, MAX_Q_LEN);
    OK(eg_element_mod_q_new(l.data(), &h));
    return h;
}
static eg_element_mod_p_t *mkp(const Z &z)
{
    eg_element_mod_p_t *h = nullptr;
    auto l = ref::limbs(z, MAX_P_LEN);
    OK(eg_element_mod_p_new(l.data(), &h));
    return h;
}
static Z takeq(eg_element_mod_q_t *h)
{
    Z z = zq(h);
    OK(eg_element_mod_q_free(h));
    return z;
}
// value of an owned / borrowed element a getter gives
#define OWNQ(fn, ...)                                                                              \
    [&] {                                                                                          \
        eg_element_mod_q_t *q_ = nullptr;                                                          \
        OK(fn(__VA_ARGS__, &q_));                                                                  \
        return takeq(q_);                                                                          \
    }()
#define REFQ(fn, h)                                                                                \
    [&] {                                                                                          \
        eg_element_mod_q_t *q_ = nullptr;                                                          \
        OK(fn(h, &q_));                                                                            \
        return zq(q_);                                                                             \
    }()
#define REFP(fn, h)                                                                                \
    [&] {                                                                                          \
        eg_element_mod_p_t *p_ = nullptr;                                                          \
        OK(fn(h, &p_));                                                                            \
        return zp(p_);                                                                             \
    }()
// getters out of range: a failure that leaves the output alone
#define RANGE(T, fn, h, size)                                                                      \
    do {                                                                                           \
        for (uint64_t i_ : {(uint64_t)(size), (uint64_t)(size) + 1, UINT64_MAX}) {                 \
            T *o_ = reinterpret_cast<T *>(8);                                                      \
            IS(ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC, fn(h, i_, &o_));                              \
            check(o_ == reinterpret_cast<T *>(8), #fn " wrote its output and failed");             \
        }                                                                                          \
    } while (0)

static Vec<uint8_t> takeJson(char *p, uint64_t size)
{
    check(p && size == strlen(p) + 1, "size of a JSON text");
    Vec<uint8_t> r(p, p + size - 1);
    OK(eg_free_int_ptr(p));
    return r;
}
static Vec<uint8_t> takeBytes(uint8_t *p, uint64_t size)
{
    check(p != nullptr, "no bytes");
    Vec<uint8_t> r(p, p + size);
    OK(eg_delete_int_ptr(p));
    return r;
}
#define TOJSON(fn, h)                                                                              \
    [&] {                                                                                          \
        char *d_ = nullptr;                                                                        \
        uint64_t n_ = 0;                                                                           \
        OK(fn(h, &d_, &n_));                                                                       \
        return takeJson(d_, n_);                                                                   \
    }()
#define TOBYTES(fn, h)                                                                             \
    [&] {                                                                                          \
        uint8_t *d_ = nullptr;                                                                     \
        uint64_t n_ = 0;                                                                           \
        OK(fn(h, &d_, &n_));                                                                       \
        return takeBytes(d_, n_);                                                                  \
    }()
// a document, NUL terminated for the JSON readers, in a buffer of its own size
static St readJson(St (*fn)(char *, void **), const Vec<uint8_t> &d, void **out)
{
    Vec<char> b(d.begin(), d.end());
    b.push_back(0);
    b.shrink_to_fit();
    return fn(b.data(), out);
}
#define FROMJSON(fn, d, out)                                                                       \
    readJson(reinterpret_cast<St (*)(char *, void **)>(fn), d, reinterpret_cast<void **>(out))
static St readBytes(St (*fn)(uint8_t *, uint64_t, void **), const Vec<uint8_t> &d, void **out)
{
    U<uint8_t[]> b(new uint8_t[d.size()]);
    std::copy(d.begin(), d.end(), b.get());
    return fn(b.get(), d.size(), out);
}
#define FROMBYTES(fn, d, out)                                                                      \
    readBytes(reinterpret_cast<St (*)(uint8_t *, uint64_t, void **)>(fn), d,                       \
              reinterpret_cast<void **>(out))

// ------------------------------------------------------------------ elements
static ref::CT ctOf(eg_elgamal_ciphertext_t *h)
{
    check(h != nullptr, "no ciphertext");
    return {REFP(eg_elgamal_ciphertext_get_pad, h), REFP(eg_elgamal_ciphertext_get_data, h)};
}
static ref::Disj disjOf(eg_disjunctive_chaum_pedersen_proof_t *h)
{
    ref::Disj d;
    d.a0 = REFP(eg_disjunctive_chaum_pedersen_proof_get_zero_pad, h);
    d.b0 = REFP(eg_disjunctive_chaum_pedersen_proof_get_zero_data, h);
    d.a1 = REFP(eg_disjunctive_chaum_pedersen_proof_get_one_pad, h);
    d.b1 = REFP(eg_disjunctive_chaum_pedersen_proof_get_one_data, h);
    d.c0 = REFQ(eg_disjunctive_chaum_pedersen_proof_get_zero_challenge, h);
    d.c1 = REFQ(eg_disjunctive_chaum_pedersen_proof_get_one_challenge, h);
    d.c = REFQ(eg_disjunctive_chaum_pedersen_proof_get_challenge, h);
    d.v0 = REFQ(eg_disjunctive_chaum_pedersen_proof_get_zero_response, h);
    d.v1 = REFQ(eg_disjunctive_chaum_pedersen_proof_get_one_response, h);
    return d;
}
static ref::Cons consOf(eg_constant_chaum_pedersen_proof_t *h, uint64_t L)
{
    ref::Cons d;
    d.a = REFP(eg_constant_chaum_pedersen_proof_get_pad, h);
    d.b = REFP(eg_constant_chaum_pedersen_proof_get_data, h);
    d.c = REFQ(eg_constant_chaum_pedersen_proof_get_challenge, h);
    d.v = REFQ(eg_constant_chaum_pedersen_proof_get_response, h);
    d.L = L;
    return d;
}

static Z anyLimbs(Src &s, const Z &mod, size_t n)
{
    switch (s.pick({3, 1, 1, 1})) {
        case 0:
            return ref::genZ(s, mod, n);
        case 1: // just below or above the modulus
            // (the modulus itself is taken by the checked constructors)
            return s.boolean() ? Z(mod + static_cast<unsigned long>(s.range(1, 3)))
                               : Z(mod - static_cast<unsigned long>(s.range(1, 3)));
        case 2:
            return (Z(1) << (64 * n)) - 1 - static_cast<unsigned long>(s.upto(2));
        default: {
            Vec<uint64_t> l;
            for (size_t i = 0; i < n; i++)
                l.push_back(s.edgy64());
            return ref::fromLimbs(l.data(), n);
        }
    }
}
static void groupBody(Ctx &c)
{
    auto &s = c.src;
    Bag bag;
    {
        Z z = anyLimbs(s, ref::PP(), MAX_P_LEN);
        auto l = ref::limbs(z, MAX_P_LEN);
        eg_element_mod_p_t *h = nullptr;
        if (z < ref::PP()) {
            OK(eg_element_mod_p_new(l.data(), &h));
        } else {
            c.nt();
            c.label("out of range p");
            IS(ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC, eg_element_mod_p_new(l.data(), &h));
            check(h == nullptr, "eg_element_mod_p_new wrote its output and failed");
            OK(eg_element_mod_p_new_unchecked(l.data(), &h));
        }
        OWN(bag, eg_element_mod_p_free, h);
        check(zp(h) == z, "value of an element mod p");
        check(TEXT(eg_element_mod_p_to_hex, h) == ref::hex(z), "hex of an element mod p");
    }
    Z e;
    {
        Z z = anyLimbs(s, ref::QQ(), MAX_Q_LEN);
        auto l = ref::limbs(z, MAX_Q_LEN);
        eg_element_mod_q_t *h = nullptr, *g = nullptr;
        Str hx = ref::hex(z);
        if (s.boolean())
            for (auto &ch : hx)
                ch = static_cast<char>(tolower(ch));
        if (z < ref::QQ()) {
            OK(eg_element_mod_q_new(l.data(), &h));
            OK(eg_element_mod_q_from_hex(m(hx), &g));
        } else {
            c.nt();
            c.label("out of range q");
            IS(ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC, eg_element_mod_q_new(l.data(), &h));
            IS(ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC, eg_element_mod_q_from_hex(m(hx), &g));
            check(!h && !g, "a failing constructor wrote its output");
            OK(eg_element_mod_q_new_unchecked(l.data(), &h));
            OK(eg_element_mod_q_from_hex_unchecked(m(hx), &g));
        }
        OWN(bag, eg_element_mod_q_free, h);
        OWN(bag, eg_element_mod_q_free, g);
        check(zq(h) == z && zq(g) == z, "value of an element mod q");
        check(TEXT(eg_element_mod_q_to_hex, g) == ref::hex(z), "hex of an element mod q");
        e = ref::modq(z);
    }
    if (s.chance(1, 4)) {
        Z b = ref::genP(s);
        auto *hb = mkp(b);
        auto *he = mkq(e);
        eg_element_mod_p_t *r = nullptr;
        OK(eg_element_mod_q_pow_mod_p(hb, he, &r));
        check(zp(r) == ref::powp(b, e), "power");
        check(zp(hb) == b && zq(he) == e, "the operands of a power changed");
        OK(eg_element_mod_p_free(hb));
        OK(eg_element_mod_q_free(he));
        OK(eg_element_mod_p_free(r));
        c.nt();
        c.label("power");
    }
    // bad hex
    if (s.chance(1, 3)) {
        static const Vec<Str> bad = {"G0", "0x", "zz", " 00", "1-", "..", "-1"};
        Str t = s.of(bad);
        if (s.boolean())
            t = Str(64 + 2 * s.range(1, 8), 'F');
        for (bool unchecked : {false, true}) {
            eg_element_mod_q_t *h = nullptr;
            UQ cpp;
            try {
                cpp = eg::ElementModQ::fromHex(t, unchecked);
            } catch (const std::exception &) {
            }
            IS(cpp ? ELECTIONGUARD_STATUS_SUCCESS : ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC,
               unchecked ? eg_element_mod_q_from_hex_unchecked(m(t), &h)
                         : eg_element_mod_q_from_hex(m(t), &h));
            if (cpp)
                check(takeq(h) == ref::of(*cpp), "value of an odd hex text");
            else
                check(h == nullptr, "from_hex wrote its output and failed");
        }
        c.label("bad hex");
        c.nt();
    }
    // constants, always the same
    struct KP {
        St (*f)(eg_element_mod_p_t **);
        Z v;
    };
    for (auto &k : Vec<KP>{{eg_element_mod_p_constant_g, ref::GG()},
                           {eg_element_mod_p_constant_p, ref::PP()},
                           {eg_element_mod_p_constant_r, ref::RR()},
                           {eg_element_mod_p_constant_zero_mod_p, 0},
                           {eg_element_mod_p_constant_one_mod_p, 1},
                           {eg_element_mod_p_constant_two_mod_p, 2}}) {
        eg_element_mod_p_t *h = nullptr;
        OK(k.f(&h));
        check(zp(h) == k.v, "constant mod p");
    }
    struct KQ {
        St (*f)(eg_element_mod_q_t **);
        Z v;
    };
    for (auto &k : Vec<KQ>{{eg_element_mod_q_constant_q, ref::QQ()},
                           {eg_element_mod_q_constant_zero_mod_q, 0},
                           {eg_element_mod_q_constant_one_mod_q, 1},
                           {eg_element_mod_q_constant_two_mod_q, 2}}) {
        eg_element_mod_q_t *h = nullptr;
        OK(k.f(&h));
        check(zq(h) == k.v, "constant mod q");
    }
    {
        char *d = nullptr;
        uint64_t n = 0;
        OK(eg_constant_to_json(&d, &n));
        Vec<uint8_t> t = takeJson(d, n);
        Str js(t.begin(), t.end());
        for (const Z &z : {ref::PP(), ref::QQ(), ref::RR(), ref::GG()})
            check(js.find(ref::hex(z)) != Str::npos, "constants as JSON");
    }
    {
        eg_element_mod_q_t *h = nullptr;
        OK(eg_element_mod_q_rand_q_new(&h));
        check(takeq(h) < ref::QQ(), "random element in range");
    }
}
static void hashBody(Ctx &c)
{
    auto &s = c.src;
    Str t = longer(genText(s, 40));
    uint64_t n = s.edgy64();
    check(OWNQ(eg_hash_elems_string, m(t)) == ref::H({t}), "hash of a text");
    check(OWNQ(eg_hash_elems_int, n) == ref::H({n}), "hash of a number");
    Vec<Str> v;
    for (size_t i = s.size(1, 5); i > 0; i--)
        v.push_back(longer(genText(s, 12)));
    Vec<const char *> p;
    for (auto &x : v)
        p.push_back(x.c_str());
    Z got = OWNQ(eg_hash_elems_strings, p.data(), p.size());
    check(got == ref::H({ref::listOf(v)}), "hash of a list of texts");
    if (v.size() > 1)
        c.nt();
    Str loc = longer(genText(s, 30));
    uint64_t a = s.edgy64(), b = s.edgy64(), l = s.edgy64();
    check(OWNQ(eg_ballot_code_get_hash_for_device, a, b, l, m(loc)) == deviceHash(a, b, l, loc),
          "device hash");
    Z seed = ref::genQ(s), hash = ref::genQ(s);
    uint64_t stamp = s.edgy64();
    auto *hs = mkq(seed), *hh = mkq(hash);
    check(OWNQ(eg_ballot_code_get_ballot_code, hs, stamp, hh) == ballotCode(seed, stamp, hash),
          "ballot code");
    eg_element_mod_q_t *out = nullptr;
    IS(ELECTIONGUARD_STATUS_ERROR_INVALID_ARGUMENT,
       eg_ballot_code_get_ballot_code(nullptr, stamp, hh, &out));
    IS(ELECTIONGUARD_STATUS_ERROR_INVALID_ARGUMENT,
       eg_ballot_code_get_ballot_code(hs, stamp, nullptr, &out));
    check(!out, "ballot code of nothing");
    OK(eg_element_mod_q_free(hs));
    OK(eg_element_mod_q_free(hh));
}
static void elgamalBody(Ctx &c)
{
    auto &s = c.src;
    Bag bag;
    auto key = ref::genKey(s, 2);
    Z base = ref::genQ(s), seed = ref::genQ(s), r = ref::genExp(s);
    uint64_t v = s.upto(1);
    auto *hs = mkq(key.s), *hr = mkq(r), *hb = mkq(base), *hd = mkq(seed);
    for (auto *h : {hs, hr, hb, hd})
        OWN(bag, eg_element_mod_q_free, h);
    eg_elgamal_keypair_t *kp = nullptr;
    OK(eg_elgamal_keypair_from_secret_new(hs, &kp));
    OWN(bag, eg_elgamal_keypair_free, kp);
    eg_element_mod_p_t *pk = nullptr;
    OK(eg_elgamal_keypair_get_public_key(kp, &pk));
    check(zp(pk) == key.K, "public key");
    check(REFQ(eg_elgamal_keypair_get_secret_key, kp) == key.s, "secret key");

    eg_elgamal_ciphertext_t *ct = nullptr;
    OK(eg_elgamal_encrypt(v, hr, pk, &ct));
    OWN(bag, eg_elgamal_ciphertext_free, ct);
    auto want = ref::encrypt(v, r, key.K);
    auto got = ctOf(ct);
    check(got.a == want.a && got.b == want.b, "ciphertext");
    check(OWNQ(eg_elgamal_ciphertext_crypto_hash, ct) == ref::H({want.a, want.b}),
          "hash of a ciphertext");
    if (s.chance(1, 6)) {
        uint64_t out = 99;
        OK(eg_elgamal_ciphertext_decrypt_with_secret(ct, hs, &out));
        check(out == v, "decryption");
        c.label("decrypted");
    }
    switch (s.pick({1, 1, 1})) {
        case 0:
        case 1: {
            eg_disjunctive_chaum_pedersen_proof_t *p = nullptr;
            bool det = s.boolean();
            c.label(det ? "seeded proof" : "random proof");
            c.nt();
            if (det) {
                OK(eg_disjunctive_chaum_pedersen_proof_make_deterministic(ct, hr, pk, hb, hd, v,
                                                                          &p));
            } else {
                OK(eg_disjunctive_chaum_pedersen_proof_make(ct, hr, pk, hb, v, &p));
            }
            auto d = disjOf(p);
            check(ref::verify(want, d, key.K, base), "the proof verifies");
            auto cpp = ref::of(*reinterpret_cast<eg::DisjunctiveChaumPedersenProof *>(p));
            check(d.a0 == cpp.a0 && d.b0 == cpp.b0 && d.a1 == cpp.a1 && d.b1 == cpp.b1 &&
                    d.c0 == cpp.c0 && d.c1 == cpp.c1 && d.c == cpp.c && d.v0 == cpp.v0 &&
                    d.v1 == cpp.v1,
                  "parts of the proof");
            if (det) {
                auto w = ref::prove(want, r, key.K, base, seed, v);
                check(w.a0 == d.a0 && w.a1 == d.a1 && w.b0 == d.b0 && w.b1 == d.b1 && w.c == d.c &&
                        w.c0 == d.c0 && w.c1 == d.c1 && w.v0 == d.v0 && w.v1 == d.v1,
                      "seeded proof");
            }
            check(eg_disjunctive_chaum_pedersen_proof_is_valid(p, ct, pk, hb), "valid proof");
            bool other = eg_disjunctive_chaum_pedersen_proof_is_valid(p, ct, pk, hd);
            check(other == (seed == base), "proof for another base hash");
            if (s.chance(1, 2)) {
                check(!eg_disjunctive_chaum_pedersen_proof_is_valid(nullptr, ct, pk, hb) &&
                        !eg_disjunctive_chaum_pedersen_proof_is_valid(p, nullptr, pk, hb) &&
                        !eg_disjunctive_chaum_pedersen_proof_is_valid(p, ct, nullptr, hb) &&
                        !eg_disjunctive_chaum_pedersen_proof_is_valid(p, ct, pk, nullptr),
                      "a proof with nothing is valid");
            }
            OK(eg_disjunctive_chaum_pedersen_proof_free(p));
            break;
        }
        default: {
            eg_constant_chaum_pedersen_proof_t *p = nullptr;
            c.label("constant proof");
            c.nt();
            OK(eg_constant_chaum_pedersen_proof_make(ct, hr, pk, hd, hb, v, &p));
            auto d = consOf(p, v);
            auto w = ref::proveTotal(want, r, key.K, seed, base, v);
            check(w.a == d.a && w.b == d.b && w.c == d.c && w.v == d.v, "constant proof");
            check(eg_constant_chaum_pedersen_proof_is_valid(p, ct, pk, hb), "valid proof");
            check(eg_constant_chaum_pedersen_proof_is_valid(p, ct, pk, hd) == (seed == base),
                  "proof for another base hash");
            if (s.chance(1, 2)) {
                check(!eg_constant_chaum_pedersen_proof_is_valid(nullptr, ct, pk, hb) &&
                        !eg_constant_chaum_pedersen_proof_is_valid(p, nullptr, pk, hb) &&
                        !eg_constant_chaum_pedersen_proof_is_valid(p, ct, nullptr, hb) &&
                        !eg_constant_chaum_pedersen_proof_is_valid(p, ct, pk, nullptr),
                      "a constant proof with nothing is valid");
            }
            OK(eg_constant_chaum_pedersen_proof_free(p));
        }
    }

    // what cannot be done is reported, and nothing is returned
    if (s.chance(1, 2)) {
        c.label("refused");
        const St bad = ELECTIONGUARD_STATUS_ERROR_INVALID_ARGUMENT;
        eg_disjunctive_chaum_pedersen_proof_t *p = nullptr;
        eg_constant_chaum_pedersen_proof_t *q = nullptr;
        eg_elgamal_keypair_t *k2 = nullptr;
        eg_elgamal_ciphertext_t *c2 = nullptr;
        eg_element_mod_q_t *sk = nullptr;
        eg_element_mod_p_t *pk2 = nullptr;
        IS(bad, eg_elgamal_keypair_from_secret_new(nullptr, &k2));
        IS(bad, eg_elgamal_keypair_get_secret_key(nullptr, &sk));
        IS(bad, eg_elgamal_keypair_get_public_key(nullptr, &pk2));
        IS(bad, eg_disjunctive_chaum_pedersen_proof_make(nullptr, hr, pk, hb, v, &p));
        IS(bad, eg_disjunctive_chaum_pedersen_proof_make(ct, nullptr, pk, hb, v, &p));
        IS(bad, eg_disjunctive_chaum_pedersen_proof_make(ct, hr, nullptr, hb, v, &p));
        IS(bad, eg_disjunctive_chaum_pedersen_proof_make(ct, hr, pk, nullptr, v, &p));
        IS(bad,
           eg_disjunctive_chaum_pedersen_proof_make_deterministic(nullptr, hr, pk, hb, hd, v, &p));
        IS(bad,
           eg_disjunctive_chaum_pedersen_proof_make_deterministic(ct, nullptr, pk, hb, hd, v, &p));
        IS(bad,
           eg_disjunctive_chaum_pedersen_proof_make_deterministic(ct, hr, nullptr, hb, hd, v, &p));
        IS(bad,
           eg_disjunctive_chaum_pedersen_proof_make_deterministic(ct, hr, pk, nullptr, hd, v, &p));
        IS(bad,
           eg_disjunctive_chaum_pedersen_proof_make_deterministic(ct, hr, pk, hb, nullptr, v, &p));
        IS(bad, eg_constant_chaum_pedersen_proof_make(nullptr, hr, pk, hd, hb, v, &q));
        IS(bad, eg_constant_chaum_pedersen_proof_make(ct, nullptr, pk, hd, hb, v, &q));
        IS(bad, eg_constant_chaum_pedersen_proof_make(ct, hr, nullptr, hd, hb, v, &q));
        IS(bad, eg_constant_chaum_pedersen_proof_make(ct, hr, pk, nullptr, hb, v, &q));
        IS(bad, eg_constant_chaum_pedersen_proof_make(ct, hr, pk, hd, nullptr, v, &q));
        uint64_t many = 2 + s.edgy64() / 2;
        check(eg_disjunctive_chaum_pedersen_proof_make(ct, hr, pk, hb, many, &p) !=
                ELECTIONGUARD_STATUS_SUCCESS,
              "a proof that more than one is zero or one");
        check(eg_disjunctive_chaum_pedersen_proof_make_deterministic(
                ct, hr, pk, hb, hd, many, &p) != ELECTIONGUARD_STATUS_SUCCESS,
              "a seeded proof that more than one is zero or one");
        auto *zero = mkq(Z(0));
        OWN(bag, eg_element_mod_q_free, zero);
        check(eg_elgamal_encrypt(v, zero, pk, &c2) != ELECTIONGUARD_STATUS_SUCCESS,
              "encryption with a zero nonce");
        check(!p && !q && !k2 && !c2 && !sk && !pk2, "a refused call returned something");
    }
}

// ------------------------------------------------------------------ manifest
// what a variant of a constructor cannot carry is absent
static eg_language_t *mk(const Lang &l)
{
    eg_language_t *h = nullptr;
    OK(eg_language_new(m(l.value), m(l.language), &h));
    return h;
}
static eg_internationalized_text_t *mk(const Text &t)
{
    Hs<eg_language_t> v;
    for (auto &l : t)
        v.v.push_back(mk(l));
    eg_internationalized_text_t *h = nullptr;
    OK(eg_internationalized_text_new(v.data(), v.size(), &h));
    for (auto *x : v.v)
        OK(eg_language_free(x));
    return h;
}
static eg_annotated_string_t *mk(const Ann &a)
{
    eg_annotated_string_t *h = nullptr;
    OK(eg_annotated_string_new(m(a.annotation), m(a.value), &h));
    return h;
}
static eg_contact_information_t *mk(const Contact &k)
{
    eg_contact_information_t *h = nullptr;
    if (k.address.empty() && k.email.empty() && k.phone.empty()) {
        OK(eg_contact_information_new(m(k.name), &h));
        return h;
    }
    Hs<eg_annotated_string_t> e, p;
    for (auto &x : k.email)
        e.v.push_back(mk(x));
    for (auto &x : k.phone)
        p.v.push_back(mk(x));
    Ptrs a(k.address);
    OK(eg_contact_information_new_with_collections(m(k.name), a.data(), k.address.size(), e.data(),
                                                   e.size(), p.data(), p.size(), &h));
    for (auto *x : e.v)
        OK(eg_annotated_string_free(x));
    for (auto *x : p.v)
        OK(eg_annotated_string_free(x));
    return h;
}
static eg_geopolitical_unit_t *mk(const Unit &u)
{
    eg_geopolitical_unit_t *h = nullptr;
    auto t = static_cast<eg_reporting_unit_type_t>(u.type);
    if (!u.contact) {
        OK(eg_geopolitical_unit_new(m(u.id), m(u.name), t, &h));
        return h;
    }
    auto *k = mk(*u.contact);
    OK(eg_geopolitical_unit_new_with_contact_info(m(u.id), m(u.name), t, k, &h));
    OK(eg_contact_information_free(k));
    return h;
}
static eg_ballot_style_t *mk(const Style &b)
{
    eg_ballot_style_t *h = nullptr;
    Ptrs u(b.units), p(b.parties);
    if (b.parties.empty() && b.image.empty()) {
        OK(eg_ballot_style_new(m(b.id), u.data(), b.units.size(), &h));
    } else {
        OK(eg_ballot_style_new_with_parties(m(b.id), u.data(), b.units.size(), p.data(),
                                            b.parties.size(), m(b.image), &h));
    }
    return h;
}
static eg_party_t *mk(const PartyM &p)
{
    eg_party_t *h = nullptr;
    if (p.name->empty()) {
        OK(eg_party_new(m(p.id), &h));
        return h;
    }
    auto *n = mk(*p.name);
    OK(eg_party_new_with_extras(m(p.id), n, m(p.abbr), m(p.color), m(p.logo), &h));
    OK(eg_internationalized_text_free(n));
    return h;
}
static eg_candidate_t *mk(const Cand &k)
{
    eg_candidate_t *h = nullptr;
    if (!k.name) {
        if (k.party.empty()) {
            OK(eg_candidate_new(m(k.id), k.writeIn, &h));
        } else {
            OK(eg_candidate_new_with_party(m(k.id), m(k.party), k.writeIn, &h));
        }
        return h;
    }
    auto *n = mk(*k.name);
    OK(eg_candidate_new_with_extras(m(k.id), n, m(k.party), m(k.image), k.writeIn, &h));
    OK(eg_internationalized_text_free(n));
    return h;
}
static eg_selection_description_t *mk(const Sel &x)
{
    eg_selection_description_t *h = nullptr;
    OK(eg_selection_description_new(m(x.id), m(x.cand), x.seq, &h));
    return h;
}
static Hs<eg_selection_description_t> mks(const Vec<Sel> &v)
{
    Hs<eg_selection_description_t> r;
    for (auto &x : v)
        r.v.push_back(mk(x));
    return r;
}
static eg_contest_description_t *mk(const Contest &k)
{
    eg_contest_description_t *h = nullptr;
    auto v = static_cast<eg_vote_variation_type_t>(k.variation);
    auto s = mks(k.sels);
    Ptrs p(k.primaryParties);
    uint64_t np = k.primaryParties.size();
    eg_internationalized_text_t *t = nullptr, *u = nullptr;
    if (k.title) {
        t = mk(*k.title);
        u = mk(*k.subtitle);
        if (np == 0) {
            OK(eg_contest_description_new_with_title(m(k.id), m(k.district), k.seq, v, k.elected,
                                                     k.votesAllowed, m(k.name), t, u, s.data(),
                                                     s.size(), &h));
        } else {
            OK(eg_contest_description_new_with_title_and_parties(
              m(k.id), m(k.district), k.seq, v, k.elected, k.votesAllowed, m(k.name), t, u,
              s.data(), s.size(), p.data(), np, &h));
        }
        OK(eg_internationalized_text_free(t));
        OK(eg_internationalized_text_free(u));
    } else if (np == 0) {
        OK(eg_contest_description_new(m(k.id), m(k.district), k.seq, v, k.elected, m(k.name),
                                      s.data(), s.size(), &h));
    } else {
        OK(eg_contest_description_new_with_parties(m(k.id), m(k.district), k.seq, v, k.elected,
                                                   m(k.name), s.data(), s.size(), p.data(), np,
                                                   &h));
    }
    for (auto *x : s.v)
        OK(eg_selection_description_free(x));
    return h;
}
static eg_contest_description_with_placeholders_t *mkWith(const Contest &k)
{
    eg_contest_description_with_placeholders_t *h = nullptr;
    auto v = static_cast<eg_vote_variation_type_t>(k.variation);
    auto s = mks(k.sels), q = mks(k.placeholders);
    Ptrs p(k.primaryParties);
    uint64_t np = k.primaryParties.size();
    if (k.title) {
        auto *t = mk(*k.title), *u = mk(*k.subtitle);
        if (np == 0) {
            OK(eg_contest_description_with_placeholders_new_with_title(
              m(k.id), m(k.district), k.seq, v, k.elected, k.votesAllowed, m(k.name), t, u,
              s.data(), s.size(), q.data(), q.size(), &h));
        } else {
            OK(eg_contest_description_with_placeholders_new_with_title_and_parties(
              m(k.id), m(k.district), k.seq, v, k.elected, k.votesAllowed, m(k.name), t, u,
              s.data(), s.size(), p.data(), np, q.data(), q.size(), &h));
        }
        OK(eg_internationalized_text_free(t));
        OK(eg_internationalized_text_free(u));
    } else if (np == 0) {
        OK(eg_contest_description_with_placeholders_new(m(k.id), m(k.district), k.seq, v, k.elected,
                                                        m(k.name), s.data(), s.size(), q.data(),
                                                        q.size(), &h));
    } else {
        OK(eg_contest_description_with_placeholders_new_with_parties(
          m(k.id), m(k.district), k.seq, v, k.elected, m(k.name), s.data(), s.size(), p.data(), np,
          q.data(), q.size(), &h));
    }
    for (auto *x : s.v)
        OK(eg_selection_description_free(x));
    for (auto *x : q.v)
        OK(eg_selection_description_free(x));
    return h;
}
template <typename T, typename F> static auto mkAll(const Vec<T> &v, F)
{
    Hs<std::remove_pointer_t<decltype(mk(v[0]))>> r;
    for (auto &x : v)
        r.v.push_back(mk(x));
    return r;
}
static eg_election_manifest_t *mk(const Man &x)
{
    auto all = [](auto &v) { return mkAll(v, 0); };
    auto u = all(x.units);
    auto p = all(x.parties);
    auto k = all(x.cands);
    auto t = all(x.contests);
    auto b = all(x.styles);
    eg_election_manifest_t *h = nullptr;
    auto ty = static_cast<eg_election_type_t>(x.type);
    if (x.name) {
        auto *n = mk(*x.name);
        auto *i = mk(*x.contact);
        OK(eg_election_manifest_new_with_contact(
          m(x.scope), ty, x.start * 1000, x.end * 1000, u.data(), u.size(), p.data(), p.size(),
          k.data(), k.size(), t.data(), t.size(), b.data(), b.size(), n, i, &h));
        OK(eg_internationalized_text_free(n));
        OK(eg_contact_information_free(i));
    } else {
        OK(eg_election_manifest_new(m(x.scope), ty, x.start * 1000, x.end * 1000, u.data(),
                                    u.size(), p.data(), p.size(), k.data(), k.size(), t.data(),
                                    t.size(), b.data(), b.size(), &h));
    }
    for (auto *o : u.v)
        OK(eg_geopolitical_unit_free(o));
    for (auto *o : p.v)
        OK(eg_party_free(o));
    for (auto *o : k.v)
        OK(eg_candidate_free(o));
    for (auto *o : t.v)
        OK(eg_contest_description_free(o));
    for (auto *o : b.v)
        OK(eg_ballot_style_free(o));
    return h;
}

// reading back through the getters, checking the hash of every part
static Lang of(eg_language_t *h)
{
    Lang r{TEXT(eg_language_get_value, h), TEXT(eg_language_get_language, h)};
    check(OWNQ(eg_language_crypto_hash, h) == hash(r), "hash of a language text");
    return r;
}
static Text of(eg_internationalized_text_t *h)
{
    Text r;
    uint64_t n = eg_internationalized_text_get_text_size(h);
    for (uint64_t i = 0; i < n; i++) {
        eg_language_t *l = nullptr;
        OK(eg_internationalized_text_get_text_at_index(h, i, &l));
        r.push_back(of(l));
    }
    RANGE(eg_language_t, eg_internationalized_text_get_text_at_index, h, n);
    check(OWNQ(eg_intertnationalized_text_crypto_hash, h) == hash(r), "hash of a text");
    return r;
}
static Ann of(eg_annotated_string_t *h)
{
    Ann r{CTEXT(eg_annotated_string_get_annotation, h), CTEXT(eg_annotated_string_get_value, h)};
    check(OWNQ(eg_annotated_string_crypto_hash, h) == hash(r), "hash of an annotated text");
    return r;
}
static Contact of(eg_contact_information_t *h)
{
    Contact r;
    r.name = CTEXT(eg_contact_information_get_name, h);
    uint64_t n = eg_contact_information_get_address_line_size(h);
    for (uint64_t i = 0; i < n; i++)
        r.address.push_back(TEXT_AT(eg_contact_information_get_address_line_at_index, h, i));
    RANGE(char, eg_contact_information_get_address_line_at_index, h, n);
    n = eg_contact_information_get_email_line_size(h);
    for (uint64_t i = 0; i < n; i++) {
        eg_annotated_string_t *a = nullptr;
        OK(eg_contact_information_get_email_line_at_index(h, i, &a));
        r.email.push_back(of(a));
    }
    RANGE(eg_annotated_string_t, eg_contact_information_get_email_line_at_index, h, n);
    n = eg_contact_information_get_phone_line_size(h);
    for (uint64_t i = 0; i < n; i++) {
        eg_annotated_string_t *a = nullptr;
        OK(eg_contact_information_get_phone_line_at_index(h, i, &a));
        r.phone.push_back(of(a));
    }
    RANGE(eg_annotated_string_t, eg_contact_information_get_phone_line_at_index, h, n);
    check(OWNQ(eg_contact_information_crypto_hash, h) == hash(r), "hash of a contact");
    return r;
}
static Unit of(eg_geopolitical_unit_t *h)
{
    Unit r;
    r.id = CTEXT(eg_geopolitical_unit_get_object_id, h);
    r.name = CTEXT(eg_geopolitical_unit_get_name, h);
    r.type = static_cast<int>(get_geopolitical_unit_get_type(h));
    // the interface has no getter for the contact of a unit
    if (auto *k = reinterpret_cast<eg::GeopoliticalUnit *>(h)->getContactInformation())
        r.contact = of(reinterpret_cast<eg_contact_information_t *>(k));
    check(OWNQ(eg_geopolitical_unit_crypto_hash, h) == hash(r), "hash of a unit");
    return r;
}
static Style of(eg_ballot_style_t *h)
{
    Style r;
    r.id = CTEXT(eg_ballot_style_get_object_id, h);
    r.image = CTEXT(eg_ballot_style_get_image_uri, h);
    uint64_t n = eg_ballot_style_get_geopolitical_unit_ids_size(h);
    for (uint64_t i = 0; i < n; i++)
        r.units.push_back(TEXT_AT(eg_ballot_style_get_geopolitical_unit_id_at_index, h, i));
    RANGE(char, eg_ballot_style_get_geopolitical_unit_id_at_index, h, n);
    n = eg_ballot_style_get_party_ids_size(h);
    for (uint64_t i = 0; i < n; i++)
        r.parties.push_back(TEXT_AT(eg_ballot_style_get_party_id_at_index, h, i));
    RANGE(char, eg_ballot_style_get_party_id_at_index, h, n);
    check(OWNQ(eg_ballot_style_crypto_hash, h) == hash(r), "hash of a ballot style");
    return r;
}
static PartyM of(eg_party_t *h)
{
    PartyM r;
    r.id = CTEXT(eg_party_get_object_id, h);
    r.abbr = CTEXT(eg_party_get_abbreviation, h);
    r.color = CTEXT(eg_party_get_color, h);
    r.logo = CTEXT(eg_party_get_logo_uri, h);
    eg_internationalized_text_t *n = nullptr;
    OK(eg_party_get_name(h, &n));
    if (n)
        r.name = of(n);
    check(OWNQ(eg_party_crypto_hash, h) == hash(r), "hash of a party");
    return r;
}
static Cand of(eg_candidate_t *h)
{
    Cand r;
    r.id = CTEXT(eg_candidate_get_object_id, h);
    check(CTEXT(eg_candidate_get_candidate_id, h) == r.id, "candidate id");
    r.party = CTEXT(eg_candidate_get_party_id, h);
    r.image = CTEXT(eg_candidate_get_image_uri, h);
    r.writeIn = eg_candidate_get_is_write_in(h);
    eg_internationalized_text_t *n = nullptr;
    OK(eg_candidate_get_name(h, &n));
    if (n)
        r.name = of(n);
    check(OWNQ(eg_candidate_crypto_hash, h) == hash(r), "hash of a candidate");
    return r;
}
static Sel of(eg_selection_description_t *h)
{
    Sel r;
    r.id = CTEXT(eg_selection_description_get_object_id, h);
    r.cand = CTEXT(eg_selection_description_get_candidate_id, h);
    r.seq = eg_selection_description_get_sequence_order(h);
    check(OWNQ(eg_selection_description_crypto_hash, h) == hash(r), "hash of a selection");
    return r;
}
static Contest of(eg_contest_description_t *h)
{
    Contest r;
    r.id = CTEXT(eg_contest_description_get_object_id, h);
    r.district = CTEXT(eg_contest_description_get_electoral_district_id, h);
    r.seq = eg_contest_description_get_sequence_order(h);
    r.variation = static_cast<int>(eg_contest_description_get_vote_variation(h));
    r.elected = eg_contest_description_get_number_elected(h);
    r.votesAllowed = eg_contest_description_get_votes_allowed(h);
    r.name = CTEXT(eg_contest_description_get_name, h);
    eg_internationalized_text_t *t = nullptr;
    OK(eg_contest_description_get_ballot_title(h, &t));
    if (t)
        r.title = of(t);
    t = nullptr;
    OK(eg_contest_description_get_ballot_subtitle(h, &t));
    if (t)
        r.subtitle = of(t);
    uint64_t n = eg_contest_description_get_selections_size(h);
    for (uint64_t i = 0; i < n; i++) {
        eg_selection_description_t *x = nullptr;
        OK(eg_contest_description_get_selection_at_index(h, i, &x));
        r.sels.push_back(of(x));
    }
    RANGE(eg_selection_description_t, eg_contest_description_get_selection_at_index, h, n);
    return r;
}
static Contest of(eg_contest_description_with_placeholders_t *h)
{
    Contest r = of(reinterpret_cast<eg_contest_description_t *>(h));
    uint64_t n = eg_contest_description_with_placeholders_get_placeholders_size(h);
    for (uint64_t i = 0; i < n; i++) {
        eg_selection_description_t *x = nullptr;
        OK(eg_contest_description_with_placeholders_get_placeholder_at_index(h, i, &x));
        r.placeholders.push_back(of(x));
        check(eg_contest_description_with_placeholders_is_placeholder(h, x), "is a placeholder");
    }
    RANGE(eg_selection_description_t,
          eg_contest_description_with_placeholders_get_placeholder_at_index, h, n);
    for (auto *v : {&r.sels, &r.placeholders})
        for (auto &x : *v) {
            eg_selection_description_t *f = nullptr;
            OK(eg_contest_description_with_placeholders_selection_for_id(h, m(x.id), &f));
            check(of(f).id == x.id, "selection for an id");
        }
    eg_selection_description_t *f = nullptr;
    IS(ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC,
       eg_contest_description_with_placeholders_selection_for_id(h, m("no such selection!"), &f));
    check(!f, "selection for an unknown id");
    return r;
}
#define LIST(sizefn, atfn, T, h, out)                                                              \
    do {                                                                                           \
        uint64_t n_ = sizefn(h);                                                                   \
        for (uint64_t j_ = 0; j_ < n_; j_++) {                                                     \
            T *x_ = nullptr;                                                                       \
            OK(atfn(h, j_, &x_));                                                                  \
            (out).push_back(of(x_));                                                               \
        }                                                                                          \
        RANGE(T, atfn, h, n_);                                                                     \
    } while (0)
static Man of(eg_election_manifest_t *h)
{
    Man r;
    r.scope = TEXT(eg_election_manifest_get_election_scope_id, h);
    r.type = static_cast<int>(eg_election_manifest_get_type(h));
    r.start = eg_election_manifest_get_start_date(h);
    r.end = eg_election_manifest_get_end_date(h);
    check(r.start % 1000 == 0 && r.end % 1000 == 0, "dates in milliseconds");
    r.start /= 1000;
    r.end /= 1000;
    LIST(eg_election_manifest_get_geopolitical_units_size,
         eg_election_manifest_get_geopolitical_unit_at_index, eg_geopolitical_unit_t, h, r.units);
    LIST(eg_election_manifest_get_parties_size, eg_election_manifest_get_party_at_index, eg_party_t,
         h, r.parties);
    LIST(eg_election_manifest_get_candidates_size, eg_election_manifest_get_candidate_at_index,
         eg_candidate_t, h, r.cands);
    LIST(eg_election_manifest_get_contests_size, eg_election_manifest_get_contest_at_index,
         eg_contest_description_t, h, r.contests);
    LIST(eg_election_manifest_get_ballot_styles_size,
         eg_election_manifest_get_ballot_style_at_index, eg_ballot_style_t, h, r.styles);
    eg_internationalized_text_t *n = nullptr;
    OK(eg_election_manifest_get_name(h, &n));
    if (n)
        r.name = of(n);
    eg_contact_information_t *k = nullptr;
    OK(eg_election_manifest_get_contact_info(h, &k));
    if (k)
        r.contact = of(k);
    return r;
}
static Internal of(eg_internal_manifest_t *h)
{
    Internal r;
    r.hash = REFQ(eg_internal_manifest_get_manifest_hash, h);
    LIST(eg_internal_manifest_get_geopolitical_units_size,
         eg_internal_manifest_get_geopolitical_unit_at_index, eg_geopolitical_unit_t, h, r.units);
    LIST(eg_internal_manifest_get_contests_size, eg_internal_manifest_get_contest_at_index,
         eg_contest_description_with_placeholders_t, h, r.contests);
    LIST(eg_internal_manifest_get_ballot_styles_size,
         eg_internal_manifest_get_ballot_style_at_index, eg_ballot_style_t, h, r.styles);
    // candidates have no getter
    r.cands = gen::of(*reinterpret_cast<eg::InternalManifest *>(h)).cands;
    return r;
}

// what the constructors of the C interface can express
static Contest fit(Contest k)
{
    if (!k.title != !k.subtitle) {
        k.title = k.title ? k.title : k.subtitle;
        k.subtitle = k.title;
    }
    if (!k.title)
        k.votesAllowed = k.variation == 1 || k.variation == 6 ? k.elected : 0;
    return k;
}
static Man fit(Man x)
{
    if (!x.name != !x.contact)
        x.name.reset(), x.contact.reset();
    for (auto &p : x.parties)
        if (!p.name || p.name->empty())
            p.name = Text(), p.abbr = p.color = p.logo = "";
    for (auto &k : x.cands)
        if (!k.name)
            k.image = "";
    for (auto &k : x.contests)
        k = fit(k);
    return x;
}

template <typename C, typename H>
static void formats(const C &cpp, H *h, St (*json)(H *, char **, uint64_t *),
                    St (*bson)(H *, uint8_t **, uint64_t *),
                    St (*pack)(H *, uint8_t **, uint64_t *), Vec<Vec<uint8_t>> &docs)
{
    docs.push_back(TOJSON(json, h));
    docs.push_back(TOBYTES(bson, h));
    docs.push_back(TOBYTES(pack, h));
    for (size_t f = 0; f < 3; f++)
        check(docs[f] == ser::write(cpp, f), Str(ser::formatName(f)) + " differs from C++");
}
template <typename H>
static void readers(const Vec<Vec<uint8_t>> &docs, St (*json)(char *, H **),
                    St (*bson)(uint8_t *, uint64_t, H **), St (*pack)(uint8_t *, uint64_t, H **),
                    St (*release)(H *), std::function<void(H *, size_t)> test)
{
    for (size_t f = 0; f < 3; f++) {
        H *r = nullptr;
        St st = f == 0   ? FROMJSON(json, docs[f], &r)
                : f == 1 ? FROMBYTES(bson, docs[f], &r)
                         : FROMBYTES(pack, docs[f], &r);
        check(st == ELECTIONGUARD_STATUS_SUCCESS && r,
              Str("reading ") + ser::formatName(f) + " failed");
        test(r, f);
        OK(release(r));
    }
}

static void manifestBody(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.maxContests = 2;
    o.maxSels = 3;
    Man x = fit(genManifest(s, o));
    if (g_len) {
        x.scope = longer(x.scope);
        x.units[s.upto(x.units.size() - 1)].name += Str(g_len, 'y');
        x.contests[s.upto(x.contests.size() - 1)].name += Str(g_len, 'y');
    }
    c << dump(x);
    if (x.name || !x.parties.empty() || x.contests.size() > 1)
        c.nt();
    for (auto &k : x.contests) {
        if (!k.primaryParties.empty())
            c.label("primary parties");
        if (k.title)
            c.label("title");
    }
    auto *h = mk(x);
    Bag bag;
    OWN(bag, eg_election_manifest_free, h);
    auto cpp = lib(x);
    same(dump(gen::sorted(x)), dump(of(h)), "manifest through the C interface");
    check(OWNQ(eg_election_manifest_crypto_hash, h) == hash(x), "hash of the manifest");
    check(eg_election_manifest_is_valid(h) == gen::valid(x), "validity of the manifest");
    Vec<Vec<uint8_t>> docs;
    formats(*cpp, h, eg_election_manifest_to_json, eg_election_manifest_to_bson,
            eg_election_manifest_to_msgpack, docs);
    if (s.chance(1, 3))
        readers<eg_election_manifest_t>(
          docs, eg_election_manifest_from_json, eg_election_manifest_from_bson,
          eg_election_manifest_from_msgpack, eg_election_manifest_free,
          [&](eg_election_manifest_t *r, size_t f) {
              same(dump(gen::sorted(x)), dump(of(r)), Str("read ") + ser::formatName(f));
          });
    // single contests in every variant, with placeholders
    {
        Contest k = s.of(x.contests);
        for (size_t i = s.size(0, 3); i > 0; i--)
            k.placeholders.push_back(
              {k.id + "-ph-" + std::to_string(i), "ph", s.boolean() ? 100 + i : s.edgy64()});
        auto *w = mkWith(k);
        same(dump(gen::sorted(k)), dump(of(w)), "contest with placeholders");
        check(OWNQ(eg_contest_description_crypto_hash,
                   reinterpret_cast<eg_contest_description_t *>(w)) == hash(k),
              "hash of a contest with placeholders");
        OK(eg_contest_description_with_placeholders_free(w));
        k.placeholders.clear();
        auto *p = mk(k);
        same(dump(gen::sorted(k)), dump(of(p)), "contest");
        check(OWNQ(eg_contest_description_crypto_hash, p) == hash(k), "hash of a contest");
        OK(eg_contest_description_free(p));
    }
    // the internal manifest
    eg_internal_manifest_t *in = nullptr;
    OK(eg_internal_manifest_new(h, &in));
    OWN(bag, eg_internal_manifest_free, in);
    auto icpp = std::make_unique<eg::InternalManifest>(*cpp);
    same(dump(gen::of(*icpp)), dump(of(in)), "internal manifest");
    same(dump(gen::sorted(gen::internal(x))), dump(of(in)), "internal manifest");
    for (auto &b : x.styles) {
        eg_ballot_style_t *q = nullptr;
        OK(eg_internal_manifest_get_ballot_style(in, m(b.id), &q));
        same(dump(b), dump(of(q)), "ballot style by id");
    }
    eg_ballot_style_t *q = nullptr;
    OK(eg_internal_manifest_get_ballot_style(in, m("no such style!"), &q));
    check(!q, "unknown style");
    Vec<Vec<uint8_t>> idocs;
    formats(*icpp, in, eg_internal_manifest_to_json, eg_internal_manifest_to_bson,
            eg_internal_manifest_to_msgpack, idocs);
    if (s.chance(1, 3))
        readers<eg_internal_manifest_t>(
          idocs, eg_internal_manifest_from_json, eg_internal_manifest_from_bson,
          eg_internal_manifest_from_msgpack, eg_internal_manifest_free,
          [&](eg_internal_manifest_t *r, size_t f) {
              auto a = of(in);
              auto b = of(r);
              same(dump(a), dump(b), Str("internal manifest read ") + ser::formatName(f));
          });
}

// ------------------------------------------------------------------- context
static void contextBody(Ctx &c)
{
    auto &s = c.src;
    Bag bag;
    uint64_t n = s.chance(1, 2) ? s.range(1, 9) : s.edgy64(), k = s.edgy64(), max = s.edgy64();
    Z K = s.chance(1, 2) ? ref::genP(s) : Z(ref::gpow(ref::randExp(s)));
    Z com = ref::genQ(s), man = ref::genQ(s);
    bool over = s.boolean();
    std::map<Str, Str> data;
    for (size_t j = s.size(0, 3); j > 0; j--)
        data[longer(genText(s))] = longer(genText(s, 20));
    c << "n=" << n << " k=" << k << " over=" << over << " max=" << max;
    if (!data.empty())
        c.nt();
    auto *hK = mkp(K);
    auto *hc = mkq(com), *hm = mkq(man);
    OWN(bag, eg_element_mod_p_free, hK);
    OWN(bag, eg_element_mod_q_free, hc);
    OWN(bag, eg_element_mod_q_free, hm);
    eg_context_configuration_t *cfg = nullptr;
    OK(eg_ciphertext_election_context_config_make(over, max, &cfg));
    eg_linked_list_t *list = nullptr;
    OK(eg_linked_list_new(&list));
    for (auto &e : data)
        OK(eg_linked_list_append(list, m(e.first), m(e.second)));
    Str xk = ref::hex(K), xc = ref::hex(com), xm = ref::hex(man);
    eg_ciphertext_election_context_t *h = nullptr;
    bool withCfg = false, withData = false;
    size_t route = s.pick({1, 1, 1, 1, 1, 1});
    c.label("route " + std::to_string(route));
    switch (route) {
        case 0:
            OK(eg_ciphertext_election_context_make(n, k, hK, hc, hm, &h));
            break;
        case 1:
            OK(eg_ciphertext_election_context_make_with_configuration(n, k, hK, hc, hm, cfg, &h));
            withCfg = true;
            break;
        case 2:
            OK(eg_ciphertext_election_context_make_with_extended_data(n, k, hK, hc, hm, list, &h));
            withData = true;
            break;
        case 3:
            OK(eg_ciphertext_election_context_make_with_configuration_and_extended_data(
              n, k, hK, hc, hm, cfg, list, &h));
            withCfg = withData = true;
            break;
        case 4:
            OK(eg_ciphertext_election_context_make_from_hex(n, k, m(xk), m(xc), m(xm), &h));
            break;
        default:
            OK(eg_ciphertext_election_context_make_from_hex_with_extended_data(n, k, m(xk), m(xc),
                                                                               m(xm), list, &h));
            withData = true;
    }
    if (s.chance(1, 4)) { // one of the texts is not an element
        static const Vec<Str> bad = {"G0", "0x", "zz", "1-", "..", "-1", ""};
        Str t = s.of(bad);
        if (s.chance(1, 3))
            t = Str(1026, 'F');
        Str y[] = {xk, xc, xm};
        y[s.upto(2)] = t;
        bool ok = true;
        try {
            eg::CiphertextElectionContext::make(n, k, y[0], y[1], y[2]);
        } catch (const std::exception &) {
            ok = false;
        }
        for (bool with : {false, true}) {
            eg_ciphertext_election_context_t *o = nullptr;
            St st = with ? eg_ciphertext_election_context_make_from_hex_with_extended_data(
                             n, k, m(y[0]), m(y[1]), m(y[2]), list, &o)
                         : eg_ciphertext_election_context_make_from_hex(n, k, m(y[0]), m(y[1]),
                                                                        m(y[2]), &o);
            check(st == (ok ? ELECTIONGUARD_STATUS_SUCCESS : ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC),
                  "context from bad hex: C and C++ differ");
            check((o != nullptr) == ok, "output of a context from bad hex");
            if (o)
                OK(eg_ciphertext_election_context_free(o));
        }
        c.label("bad hex");
    }
    OK(eg_ciphertext_election_context_config_free(cfg));
    OK(eg_linked_list_free(list));
    OWN(bag, eg_ciphertext_election_context_free, h);
    auto test = [&](eg_ciphertext_election_context_t *x, const Str &how) {
        check(REFP(eg_ciphertext_election_context_get_elgamal_public_key, x) == K, how + "key");
        check(REFQ(eg_ciphertext_election_context_get_commitment_hash, x) == com,
              how + "commitment");
        check(REFQ(eg_ciphertext_election_context_get_manifest_hash, x) == man, how + "manifest");
        Z base = baseHash(n, k, man);
        check(REFQ(eg_ciphertext_election_context_get_crypto_base_hash, x) == base, how + "base");
        check(REFQ(eg_ciphertext_election_context_get_crypto_extended_base_hash, x) ==
                extendedHash(base, com),
              how + "extended base");
        eg_context_configuration_t *g = nullptr;
        OK(eg_ciphertext_election_context_get_configuration(x, &g));
        bool o2 = !over;
        uint64_t m2 = ~max;
        OK(eg_ciphertext_election_context_config_get_allowed_overvotes(g, &o2));
        OK(eg_ciphertext_election_context_config_get_max_ballots(g, &m2));
        check(o2 == (withCfg ? over : true), how + "overvotes");
        check(m2 == (withCfg ? max : (uint64_t)DEFAULT_MAX_BALLOTS), how + "maximum");
        eg_linked_list_t *l = nullptr;
        OK(eg_ciphertext_election_context_get_extended_data(x, &l));
        std::map<Str, Str> got;
        for (uint64_t i = 0; i < eg_linked_list_get_count(l); i++) {
            char *kk = nullptr, *vv = nullptr;
            OK(eg_linked_list_get_element_at(l, i, &kk, &vv));
            got[Str(kk)] = vv;
        }
        check(eg_linked_list_get_count(l) == (withData ? data.size() : 0), how + "data size");
        check(got == (withData ? data : std::map<Str, Str>{}), how + "extended data");
        OK(eg_linked_list_free(l));
    };
    test(h, "");
    auto *cpp = reinterpret_cast<eg::CiphertextElectionContext *>(h);
    auto js = TOJSON(eg_ciphertext_election_context_to_json, h);
    check(js == ser::write2(*cpp, 0), "JSON of a context");
    eg_ciphertext_election_context_t *r = nullptr;
    OK(FROMJSON(eg_ciphertext_election_context_from_json, js, &r));
    test(r, "JSON: ");
    OK(eg_ciphertext_election_context_free(r));
    const uint64_t big = UINT64_MAX >> 1;
    if (n <= big && k <= big && (!withCfg || max <= big)) {
        auto bs = TOBYTES(eg_ciphertext_election_context_to_bson, h);
        check(bs == ser::write2(*cpp, 1), "BSON of a context");
        r = nullptr;
        OK(FROMBYTES(eg_ciphertext_election_context_from_bson, bs, &r));
        test(r, "BSON: ");
        OK(eg_ciphertext_election_context_free(r));
    }
    // a device
    uint64_t d1 = s.edgy64(), d2 = s.edgy64(), d3 = s.edgy64();
    Str loc = longer(genText(s, 20));
    eg_encryption_device_t *d = nullptr, *e = nullptr;
    OK(eg_encryption_device_new(d1, d2, d3, m(loc), &d));
    check(OWNQ(eg_encryption_device_get_hash, d) == deviceHash(d1, d2, d3, loc), "device hash");
    auto dj = TOJSON(eg_encryption_device_to_json, d);
    OK(FROMJSON(eg_encryption_device_from_json, dj, &e));
    check(OWNQ(eg_encryption_device_get_hash, e) == deviceHash(d1, d2, d3, loc),
          "device hash after JSON");
    check(TOJSON(eg_encryption_device_to_json, e) == dj, "device JSON");
    OK(eg_encryption_device_free(d));
    OK(eg_encryption_device_free(e));
}

// ------------------------------------------------------------------- ballots
static eg_plaintext_ballot_selection_t *mk(const BSel &x)
{
    eg_plaintext_ballot_selection_t *h = nullptr;
    if (x.writeIn.empty()) {
        OK(eg_plaintext_ballot_selection_new(m(x.id), x.vote, x.placeholder, &h));
    } else {
        OK(eg_plaintext_ballot_selection_new_with_write_in(m(x.id), x.vote, x.placeholder,
                                                           m(x.writeIn), &h));
    }
    return h;
}
static eg_plaintext_ballot_contest_t *mk(const BContest &k)
{
    Hs<eg_plaintext_ballot_selection_t> v;
    for (auto &x : k.sels)
        v.v.push_back(mk(x));
    eg_plaintext_ballot_contest_t *h = nullptr;
    OK(eg_plaintext_ballot_contest_new(m(k.id), v.data(), v.size(), &h));
    for (auto *x : v.v)
        OK(eg_plaintext_ballot_selection_free(x));
    return h;
}
static eg_plaintext_ballot_t *mk(const Ballot &b)
{
    Hs<eg_plaintext_ballot_contest_t> v;
    for (auto &x : b.contests)
        v.v.push_back(mk(x));
    eg_plaintext_ballot_t *h = nullptr;
    OK(eg_plaintext_ballot_new(m(b.id), m(b.style), v.data(), v.size(), &h));
    for (auto *x : v.v)
        OK(eg_plaintext_ballot_contest_free(x));
    return h;
}
static BSel of(eg_plaintext_ballot_selection_t *h)
{
    BSel r;
    r.id = TEXT(eg_plaintext_ballot_selection_get_object_id, h);
    r.vote = eg_plaintext_ballot_selection_get_vote(h);
    r.placeholder = eg_plaintext_ballot_selection_get_is_placeholder(h);
    r.writeIn = TEXT(eg_plaintext_ballot_selection_get_write_in, h);
    check(eg_plaintext_ballot_selection_is_valid(h, m(r.id)) == (r.vote <= 1),
          "validity of a selection");
    check(!eg_plaintext_ballot_selection_is_valid(h, m(r.id + "x")), "selection with another id");
    return r;
}
static BContest of(eg_plaintext_ballot_contest_t *h)
{
    BContest r;
    r.id = TEXT(eg_plaintext_ballot_contest_get_object_id, h);
    LIST(eg_plaintext_ballot_contest_get_selections_size,
         eg_plaintext_ballot_contest_get_selection_at_index, eg_plaintext_ballot_selection_t, h,
         r.sels);
    return r;
}
static Ballot of(eg_plaintext_ballot_t *h)
{
    Ballot r;
    r.id = TEXT(eg_plaintext_ballot_get_object_id, h);
    r.style = TEXT(eg_plaintext_ballot_get_style_id, h);
    LIST(eg_plaintext_ballot_get_contests_size, eg_plaintext_ballot_get_contest_at_index,
         eg_plaintext_ballot_contest_t, h, r.contests);
    return r;
}
static void plaintextBody(Ctx &c)
{
    auto &s = c.src;
    Ballot b = ser::genAnyPlaintext(s, UINT64_MAX >> 1);
    b.id = longer(b.id);
    if (g_len)
        for (auto &k : b.contests)
            for (auto &x : k.sels)
                if (s.chance(1, 3))
                    x.writeIn += Str(g_len, 'y');
    c << dump(b);
    if (!b.contests.empty())
        c.nt();
    auto *h = mk(b);
    Bag bag;
    OWN(bag, eg_plaintext_ballot_free, h);
    auto cpp = lib(b);
    same(dump(b), dump(of(h)), "plaintext ballot");
    for (size_t i = 0; i < b.contests.size(); i++) {
        eg_plaintext_ballot_contest_t *k = nullptr;
        OK(eg_plaintext_ballot_get_contest_at_index(h, i, &k));
        Str id = s.chance(1, 4) ? Str("other") : b.contests[i].id;
        uint64_t ns = s.upto(4), ne = s.upto(3), va = s.upto(3);
        auto &kp = cpp->getContests()[i].get();
        check(eg_plaintext_ballot_contest_is_valid(k, m(id), ns, ne, va) ==
                (kp.isValid(id, ns, ne, va) == eg::eg_valid_contest_return_type_t::SUCCESS),
              "validity of a contest");
    }
    Vec<Vec<uint8_t>> docs;
    formats(*cpp, h, eg_plaintext_ballot_to_json, eg_plaintext_ballot_to_bson,
            eg_plaintext_ballot_to_msgpack, docs);
    readers<eg_plaintext_ballot_t>(
      docs, eg_plaintext_ballot_from_json, eg_plaintext_ballot_from_bson,
      eg_plaintext_ballot_from_msgpack, eg_plaintext_ballot_free,
      [&](eg_plaintext_ballot_t *r, size_t f) {
          same(dump(b), dump(of(r)), Str("plaintext ballot read ") + ser::formatName(f));
      });
    // texts with a length of their own
    Str t = longer(genText(s, 30));
    uint64_t n = s.edgy64();
    eg_extended_data_t *e = nullptr;
    OK(eg_extended_data_new(m(t), n, &e));
    check(TEXT(eg_extended_data_get_value, e) == t && eg_extended_data_get_length(e) == n,
          "extended data");
    OK(eg_extended_data_free(e));
}

static CSel of(eg_ciphertext_ballot_selection_t *h)
{
    CSel r;
    r.id = TEXT(eg_ciphertext_ballot_selection_get_object_id, h);
    r.seq = eg_ciphertext_ballot_selection_get_sequence_order(h);
    r.desc = REFQ(eg_ciphertext_ballot_selection_get_description_hash, h);
    r.placeholder = eg_ciphertext_ballot_selection_get_is_placeholder(h);
    eg_elgamal_ciphertext_t *ct = nullptr;
    OK(eg_ciphertext_ballot_selection_get_ciphertext(h, &ct));
    r.ct = ctOf(ct);
    r.hash = REFQ(eg_ciphertext_ballot_selection_get_crypto_hash, h);
    eg_element_mod_q_t *n = nullptr;
    OK(eg_ciphertext_ballot_selection_get_nonce(h, &n));
    if (n)
        r.nonce = zq(n);
    eg_disjunctive_chaum_pedersen_proof_t *p = nullptr;
    OK(eg_ciphertext_ballot_selection_get_proof(h, &p));
    if (p)
        r.proof = disjOf(p);
    auto *q = mkq(r.desc);
    check(OWNQ(eg_ciphertext_ballot_selection_crypto_hash_with, h, q) == hashSel(r),
          "hash of an encrypted selection");
    OK(eg_element_mod_q_free(q));
    return r;
}
static CContest of(eg_ciphertext_ballot_contest_t *h)
{
    CContest r;
    r.id = TEXT(eg_ciphertext_ballot_contest_get_object_id, h);
    r.seq = eg_ciphertext_ballot_contest_get_sequence_order(h);
    r.desc = REFQ(eg_ciphertext_ballot_contest_get_description_hash, h);
    LIST(eg_ciphertext_ballot_contest_get_selections_size,
         eg_ciphertext_ballot_contest_get_selection_at_index, eg_ciphertext_ballot_selection_t, h,
         r.sels);
    eg_element_mod_q_t *n = nullptr;
    OK(eg_ciphertext_ballot_contest_get_nonce(h, &n));
    if (n)
        r.nonce = zq(n);
    eg_elgamal_ciphertext_t *ct = nullptr;
    OK(eg_ciphertext_ballot_contest_get_ciphertext_accumulation(h, &ct));
    r.acc = ctOf(ct);
    r.hash = REFQ(eg_ciphertext_ballot_contest_get_crypto_hash, h);
    auto *cpp = reinterpret_cast<eg::CiphertextBallotContest *>(h);
    eg_constant_chaum_pedersen_proof_t *p = nullptr;
    OK(eg_ciphertext_ballot_contest_get_proof(h, &p));
    check((p == nullptr) == (cpp->getProof() == nullptr), "contest proof");
    if (p)
        r.proof = consOf(p, ref::of(*cpp->getProof()).L);
    // no getters for the extended data
    r.ext = gen::of(*cpp).ext;
    return r;
}
static CBallot of(eg_ciphertext_ballot_t *h)
{
    CBallot r;
    r.id = TEXT(eg_ciphertext_ballot_get_object_id, h);
    r.style = TEXT(eg_ciphertext_ballot_get_style_id, h);
    r.manifest = REFQ(eg_ciphertext_ballot_get_manifest_hash, h);
    r.seed = REFQ(eg_ciphertext_ballot_get_ballot_code_seed, h);
    LIST(eg_ciphertext_ballot_get_contests_size, eg_ciphertext_ballot_get_contest_at_index,
         eg_ciphertext_ballot_contest_t, h, r.contests);
    r.code = REFQ(eg_ciphertext_ballot_get_ballot_code, h);
    OK(eg_ciphertext_ballot_get_timestamp(h, &r.timestamp));
    eg_element_mod_q_t *n = nullptr;
    OK(eg_ciphertext_ballot_get_nonce(h, &n));
    if (n)
        r.nonce = zq(n);
    r.hash = REFQ(eg_ciphertext_ballot_get_crypto_hash, h);
    return r;
}
// encrypted ballots with arbitrary contents, through documents
static void ciphertextBody(Ctx &c)
{
    auto &s = c.src;
    ser::AnyOpts o;
    o.nonces = s.boolean();
    o.maxContests = 2;
    o.maxSels = 2;
    CBallot b = ser::genAnyCiphertext(s, o);
    b.style = longer(b.style);
    c << dump(b);
    if (!b.contests.empty())
        c.nt();
    auto cpp = lib(b);
    CBallot view = ser::sorted(b);
    bool nonces = ser::allNonces(b) && s.boolean();
    Vec<Vec<uint8_t>> docs;
    for (size_t f = 0; f < 3; f++)
        docs.push_back(ser::write(*cpp, f, nonces));
    auto *direct = reinterpret_cast<eg_ciphertext_ballot_t *>(cpp.get());
    same(dump(view), dump(of(direct)), "encrypted ballot");
    {
        Vec<Vec<uint8_t>> plain = {TOJSON(eg_ciphertext_ballot_to_json, direct),
                                   TOBYTES(eg_ciphertext_ballot_to_bson, direct),
                                   TOBYTES(eg_ciphertext_ballot_to_msgpack, direct)};
        for (size_t f = 0; f < 3; f++)
            check(plain[f] == ser::write(*cpp, f, false), "encrypted ballot without nonces");
        if (ser::allNonces(b)) {
            Vec<Vec<uint8_t>> with = {TOJSON(eg_ciphertext_ballot_to_json_with_nonces, direct),
                                      TOBYTES(eg_ciphertext_ballot_to_bson_with_nonces, direct),
                                      TOBYTES(eg_ciphertext_ballot_to_msgpack_with_nonces, direct)};
            for (size_t f = 0; f < 3; f++)
                check(with[f] == ser::write(*cpp, f, true), "encrypted ballot with nonces");
            c.label("nonces");
        }
    }
    Str want = dump(nonces ? view : withoutNonces(view));
    readers<eg_ciphertext_ballot_t>(
      docs, eg_ciphertext_ballot_from_json, eg_ciphertext_ballot_from_bson,
      eg_ciphertext_ballot_from_msgpack, eg_ciphertext_ballot_free,
      [&](eg_ciphertext_ballot_t *r, size_t f) {
          same(want, dump(of(r)), Str("encrypted ballot read ") + ser::formatName(f));
      });
    // submitted
    eg_ballot_box_state_t st =
      s.boolean() ? ELECTIONGUARD_BALLOT_BOX_STATE_CAST : ELECTIONGUARD_BALLOT_BOX_STATE_SPOILED;
    if (s.chance(1, 5))
        st = ELECTIONGUARD_BALLOT_BOX_STATE_UNKNOWN;
    if (!ser::allNonces(b))
        return;
    eg_submitted_ballot_t *sb = nullptr;
    OK(eg_submitted_ballot_from(direct, st, &sb));
    check(eg_submitted_ballot_get_state(sb) == st, "state of a submitted ballot");
    same(dump(view), dump(of(direct)), "the ballot that was submitted");
    auto *scpp = reinterpret_cast<eg::SubmittedBallot *>(sb);
    Vec<Vec<uint8_t>> sdocs;
    formats(*scpp, sb, eg_submitted_ballot_to_json, eg_submitted_ballot_to_bson,
            eg_submitted_ballot_to_msgpack, sdocs);
    readers<eg_submitted_ballot_t>(
      sdocs, eg_submitted_ballot_from_json, eg_submitted_ballot_from_bson,
      eg_submitted_ballot_from_msgpack, eg_submitted_ballot_free,
      [&](eg_submitted_ballot_t *r, size_t f) {
          check(eg_submitted_ballot_get_state(r) == st, "state after reading");
          same(dump(withoutNonces(view)), dump(of(reinterpret_cast<eg_ciphertext_ballot_t *>(r))),
               Str("submitted ballot read ") + ser::formatName(f));
      });
    OK(eg_submitted_ballot_free(sb));
}

// encryption: everything but the selection proofs is determined
static void encryptBody(Ctx &c)
{
    auto &s = c.src;
    Bag bag;
    auto e = genElection(s, tiny(), 2);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    b.id = longer(b.id);
    bool bad = g_refused || s.chance(1, 4);
    if (bad) {
        size_t how = s.pick({1, 1, 1});
        c.label("refused ballot");
        if (how == 0)
            b.style = "no such style!";
        else if (how == 1 && !b.contests.empty()) // more entries than the contest offers
            for (int i = 0; i < 60; i++)
                b.contests[0].sels.push_back({"x" + std::to_string(i), 0, false, ""});
        else
            b.style = "";
    }
    c << dump(e.man) << dump(b);
    // everything through C
    auto *hm = mk(fit(e.man));
    OWN(bag, eg_election_manifest_free, hm);
    eg_internal_manifest_t *in = nullptr;
    {
        auto docs = ser::write(*e.internalManifest, 0);
        OK(FROMJSON(eg_internal_manifest_from_json, docs, &in));
    }
    OWN(bag, eg_internal_manifest_free, in);
    eg_ciphertext_election_context_t *ctx = nullptr;
    {
        auto doc = ser::write2(*e.context, 0);
        OK(FROMJSON(eg_ciphertext_election_context_from_json, doc, &ctx));
    }
    OWN(bag, eg_ciphertext_election_context_free, ctx);
    auto *pb = mk(b);
    OWN(bag, eg_plaintext_ballot_free, pb);
    Z seed = ref::randExp(s), nonce = ref::randExp(s);
    auto *hs = mkq(seed);
    OWN(bag, eg_element_mod_q_free, hs);
    auto lb = lib(b);

    // what C++ does
    enum How { Fine, Invalid, Runtime, Else } how = Fine;
    U<eg::CiphertextBallot> cpp;
    try {
        cpp = eg::encryptBallot(*lb, *e.internalManifest, *e.context, *ref::modQ(seed),
                                ref::modQ(nonce), 0, false);
    } catch (const std::invalid_argument &) {
        how = Invalid;
    } catch (const std::runtime_error &) {
        how = Runtime;
    } catch (const std::exception &) {
        how = Else;
    }
    St want[] = {ELECTIONGUARD_STATUS_SUCCESS, ELECTIONGUARD_STATUS_ERROR_INVALID_ARGUMENT,
                 ELECTIONGUARD_STATUS_ERROR_RUNTIME_ERROR, ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC};
    DumpOpts det;
    det.selProofs = false;
    auto z = [](CBallot x) { // the time of encryption is not determined
        x.timestamp = 0;
        x.code = 0;
        return x;
    };
    eg_ciphertext_ballot_t *out = nullptr;
    IS(want[how], eg_encrypt_ballot_with_nonce(pb, in, ctx, hs, mkq(nonce), false, &out));
    check((out != nullptr) == (how == Fine), "output of an encryption");
    if (how != Fine) {
        c.nt();
        IS(want[how], eg_encrypt_ballot(pb, in, ctx, hs, true, &out));
        eg_compact_ciphertext_ballot_t *co = nullptr;
        IS(want[how],
           eg_encrypt_compact_ballot_with_nonce(pb, in, ctx, hs, mkq(nonce), false, &co));
        IS(want[how], eg_encrypt_compact_ballot(pb, in, ctx, hs, false, &co));
        eg_encryption_device_t *d = nullptr;
        eg_encryption_mediator_t *med = nullptr;
        OK(eg_encryption_device_new(1, 2, 3, "x", &d));
        OK(eg_encryption_mediator_new(in, ctx, d, &med));
        IS(want[how], eg_encryption_mediator_encrypt_ballot(med, pb, &out));
        IS(want[how], eg_encryption_mediator_encrypt_ballot_verify_proofs(med, pb, &out));
        IS(want[how], eg_encryption_mediator_compact_encrypt_ballot(med, pb, &co));
        IS(want[how], eg_encryption_mediator_compact_encrypt_ballot_verify_proofs(med, pb, &co));
        check(!out && !co, "output of a refused encryption");
        OK(eg_encryption_mediator_free(med));
        OK(eg_encryption_device_free(d));
        return;
    }
    OWN(bag, eg_ciphertext_ballot_free, out);
    c.nt();
    CBallot got = of(out);
    same(dump(z(gen::of(*cpp)), det), dump(z(got), det), "ballot encrypted through C");
    check(got.timestamp != 0 && got.code == ballotCode(seed, got.timestamp, got.hash),
          "ballot code");
    check(refuses(got, e.in.hash, e.key.K, e.extBase).empty(), "verification of the ballot");
    eg_element_mod_q_t *ext = nullptr, *mh = nullptr;
    eg_element_mod_p_t *pk = nullptr;
    OK(eg_ciphertext_election_context_get_crypto_extended_base_hash(ctx, &ext));
    OK(eg_ciphertext_election_context_get_elgamal_public_key(ctx, &pk));
    OK(eg_internal_manifest_get_manifest_hash(in, &mh));
    // contests and selections of the ballot
    for (size_t i = 0; i < got.contests.size(); i++) {
        eg_ciphertext_ballot_contest_t *k = nullptr;
        OK(eg_ciphertext_ballot_get_contest_at_index(out, i, &k));
        auto &x = got.contests[i];
        auto *hd = mkq(x.desc);
        check(OWNQ(eg_ciphertext_ballot_contest_crypto_hash_with, k, hd) == x.hash,
              "hash of a contest");
        Z sum = 0;
        ref::CT acc{1, 1};
        for (auto &y : x.sels) {
            sum = ref::modq(sum + *y.nonce);
            acc.a = ref::mulp(acc.a, y.ct.a);
            acc.b = ref::mulp(acc.b, y.ct.b);
        }
        check(OWNQ(eg_ciphertext_ballot_contest_aggregate_nonce, k) == sum, "aggregate nonce");
        eg_elgamal_ciphertext_t *ac = nullptr;
        OK(eg_ciphertext_ballot_contest_elgamal_accumulate(k, &ac));
        check(ctOf(ac).a == acc.a && ctOf(ac).b == acc.b, "accumulation");
        OK(eg_elgamal_ciphertext_free(ac));
        if (s.chance(1, 4)) {
            auto *other = mkq(ref::modq(x.desc + 1));
            check(eg_ciphertext_ballot_contest_is_valid_encryption(k, hd, pk, ext),
                  "valid contest");
            check(!eg_ciphertext_ballot_contest_is_valid_encryption(k, other, pk, ext),
                  "contest of another description");
            size_t j = s.upto(x.sels.size() - 1);
            eg_ciphertext_ballot_selection_t *y = nullptr;
            OK(eg_ciphertext_ballot_contest_get_selection_at_index(k, j, &y));
            auto *sd = mkq(x.sels[j].desc);
            check(eg_ciphertext_ballot_selection_is_valid_encryption(y, sd, pk, ext),
                  "valid selection");
            check(!eg_ciphertext_ballot_selection_is_valid_encryption(y, other, pk, ext),
                  "selection of another description");
            OK(eg_element_mod_q_free(sd));
            OK(eg_element_mod_q_free(other));
            c.label("contest verified");
        }
        OK(eg_element_mod_q_free(hd));
    }
    check(OWNQ(eg_ciphertext_ballot_crypto_hash_with, out, mh) == got.hash, "hash of the ballot");
    if (s.chance(1, 4)) {
        check(eg_ciphertext_ballot_is_valid_encryption(out, mh, pk, ext), "valid ballot");
        check(!eg_ciphertext_ballot_is_valid_encryption(out, ext, pk, ext) ||
                e.extBase == e.in.hash,
              "ballot of another manifest");
        c.label("ballot verified");
    }
    // single contest and selection
    if (s.chance(1, 3)) {
        auto ks = contestsOf(e.in, style);
        auto norm = normalise(b, e.in);
        size_t i = s.upto(ks.size() - 1);
        eg_contest_description_with_placeholders_t *d = nullptr;
        for (uint64_t j = 0; j < eg_internal_manifest_get_contests_size(in); j++) {
            OK(eg_internal_manifest_get_contest_at_index(in, j, &d));
            if (CTEXT(eg_contest_description_get_object_id,
                      reinterpret_cast<eg_contest_description_t *>(d)) == ks[i]->id)
                break;
        }
        BContest bc;
        for (auto &x : norm.contests)
            if (x.id == ks[i]->id)
                bc = x;
        auto *hb = mk(bc);
        auto *hn = mkq(nonce);
        bool verify = s.chance(1, 4);
        eg_ciphertext_ballot_contest_t *ec = nullptr;
        eg_internal_manifest_t *inm = in;
        OK(eg_encrypt_contest(hb, inm, d, pk, ext, hn, verify, &ec));
        auto lc = eg::encryptContest(
          *reinterpret_cast<eg::PlaintextBallotContest *>(hb), *e.internalManifest,
          *reinterpret_cast<eg::ContestDescriptionWithPlaceholders *>(d), *ref::modP(e.key.K),
          *ref::modQ(e.extBase), *ref::modQ(nonce), false);
        same(dump(gen::of(*lc), det), dump(of(ec), det), "contest encrypted through C");
        OK(eg_ciphertext_ballot_contest_free(ec));
        if (!bc.sels.empty()) {
            eg_plaintext_ballot_selection_t *ps = nullptr;
            OK(eg_plaintext_ballot_contest_get_selection_at_index(hb, 0, &ps));
            eg_selection_description_t *sd = nullptr;
            St st =
              eg_contest_description_with_placeholders_selection_for_id(d, m(bc.sels[0].id), &sd);
            if (st == ELECTIONGUARD_STATUS_SUCCESS && bc.sels[0].vote <= 1) {
                bool ph = s.boolean();
                eg_ciphertext_ballot_selection_t *es = nullptr;
                OK(eg_encrypt_selection(ps, sd, pk, ext, hn, ph, verify, &es));
                auto ls = eg::encryptSelection(
                  *reinterpret_cast<eg::PlaintextBallotSelection *>(ps),
                  *reinterpret_cast<eg::SelectionDescription *>(sd), *ref::modP(e.key.K),
                  *ref::modQ(e.extBase), *ref::modQ(nonce), ph, false);
                same(dump(gen::of(*ls), det), dump(of(es), det), "selection encrypted through C");
                OK(eg_ciphertext_ballot_selection_free(es));
                c.label("selection");
            }
        }
        OK(eg_element_mod_q_free(hn));
        OK(eg_plaintext_ballot_contest_free(hb));
        c.label("contest");
    }
    // compact
    if (s.chance(1, 3)) {
        eg_compact_ciphertext_ballot_t *co = nullptr;
        OK(eg_encrypt_compact_ballot_with_nonce(pb, in, ctx, hs, mkq(nonce), false, &co));
        check(TEXT(eg_compact_ciphertext_ballot_get_object_id, co) == b.id, "compact ballot id");
        uint8_t *d = nullptr;
        uint64_t n = 0;
        OK(eg_compact_ciphertext_ballot_to_msgpack(co, &d, &n));
        Vec<uint8_t> doc(d, d + n);
        OK(eg_compact_ciphertext_ballot_msgpack_free(d));
        auto *cc = reinterpret_cast<eg::CompactCiphertextBallot *>(co);
        check(doc == cc->toMsgPack(), "compact ballot bytes");
        eg_compact_ciphertext_ballot_t *r = nullptr;
        OK(FROMBYTES(eg_compact_ciphertext_ballot_from_msgpack, doc, &r));
        same(ser::dumpCompact(*cc),
             ser::dumpCompact(*reinterpret_cast<eg::CompactCiphertextBallot *>(r)),
             "compact ballot read back");
        auto full = eg::expandCompactCiphertextBallot(*cc, *e.internalManifest, *e.context);
        DumpOpts none = det;
        CBallot x = gen::of(*full);
        check(x.hash == got.hash && x.id == got.id && x.style == got.style && x.seed == got.seed &&
                *x.nonce == *got.nonce,
              "compact ballot expands to the same ballot");
        OK(eg_compact_ciphertext_ballot_free(r));
        OK(eg_compact_ciphertext_ballot_free(co));
        auto cpb = eg::CompactPlaintextBallot::make(*lb);
        auto pd = cpb->toMsgPack();
        eg_compact_plaintext_ballot_t *pr = nullptr;
        OK(FROMBYTES(eg_compact_plaintext_ballot_from_msgpack, pd, &pr));
        d = nullptr;
        OK(eg_compact_plaintext_ballot_to_msgpack(pr, &d, &n));
        check(Vec<uint8_t>(d, d + n) == pd, "compact plaintext ballot");
        OK(eg_compact_plaintext_ballot_msgpack_free(d));
        OK(eg_compact_plaintext_ballot_free(pr));
        c.label("compact");
    }
    // the chain of codes of a mediator
    if (s.chance(1, 3)) {
        uint64_t d1 = s.edgy64(), d2 = s.edgy64(), d3 = s.edgy64();
        Str loc = genText(s, 20);
        eg_encryption_device_t *d = nullptr;
        eg_encryption_mediator_t *med = nullptr;
        OK(eg_encryption_device_new(d1, d2, d3, m(loc), &d));
        OK(eg_encryption_mediator_new(in, ctx, d, &med));
        Z last = deviceHash(d1, d2, d3, loc);
        for (size_t i = 0; i < 3; i++) {
            size_t kind = s.pick({2, 1, 2, 1});
            eg_ciphertext_ballot_t *o = nullptr;
            if (kind < 2) {
                if (kind == 0)
                    OK(eg_encryption_mediator_encrypt_ballot(med, pb, &o));
                else
                    OK(eg_encryption_mediator_encrypt_ballot_verify_proofs(med, pb, &o));
                CBallot x = of(o);
                check(x.seed == last, "seed of a ballot is the code before it");
                check(x.code == ballotCode(x.seed, x.timestamp, x.hash), "code of a ballot");
                last = x.code;
                OK(eg_ciphertext_ballot_free(o));
            } else {
                eg_compact_ciphertext_ballot_t *co = nullptr;
                if (kind == 2)
                    OK(eg_encryption_mediator_compact_encrypt_ballot(med, pb, &co));
                else
                    OK(eg_encryption_mediator_compact_encrypt_ballot_verify_proofs(med, pb, &co));
                auto *cc = reinterpret_cast<eg::CompactCiphertextBallot *>(co);
                check(ref::of(*cc->getBallotCodeSeed()) == last,
                      "seed of a compact ballot is the code before it");
                last = ref::of(*cc->getBallotCode());
                OK(eg_compact_ciphertext_ballot_free(co));
            }
        }
        OK(eg_encryption_mediator_free(med));
        OK(eg_encryption_device_free(d));
        c.label("mediator");
    }
    if (s.chance(1, 4)) {
        eg_ciphertext_ballot_t *o = nullptr;
        OK(eg_encrypt_ballot(pb, in, ctx, hs, s.boolean(), &o));
        CBallot x = of(o);
        check(x.id == b.id && x.seed == seed && *x.nonce != nonce, "fresh nonce");
        check(refuses(x, e.in.hash, e.key.K, e.extBase).empty(), "verification of the ballot");
        OK(eg_ciphertext_ballot_free(o));
        c.label("random nonce");
    }
}

static void refusedBody(Ctx &c)
{
    struct Flag {
        Flag() { g_refused = true; }
        ~Flag() { g_refused = false; }
    } f;
    encryptBody(c);
    // a mediator for another manifest
    auto &s = c.src;
    auto e = genElection(s, tiny(), 2);
    Internal in = e.in;
    bool other = s.chance(3, 4);
    if (other)
        in.hash = ref::modq(in.hash + 1);
    Bag bag;
    eg_internal_manifest_t *hi = nullptr;
    eg_ciphertext_election_context_t *ctx = nullptr;
    auto docs = ser::write(*lib(in), 0);
    OK(FROMJSON(eg_internal_manifest_from_json, docs, &hi));
    OWN(bag, eg_internal_manifest_free, hi);
    auto doc = ser::write2(*e.context, 0);
    OK(FROMJSON(eg_ciphertext_election_context_from_json, doc, &ctx));
    OWN(bag, eg_ciphertext_election_context_free, ctx);
    eg_encryption_device_t *d = nullptr;
    OK(eg_encryption_device_new(1, 2, 3, "x", &d));
    OWN(bag, eg_encryption_device_free, d);
    eg_encryption_mediator_t *med = nullptr;
    bool ok = true;
    try {
        eg::EncryptionDevice dev(1, 2, 3, "x");
        eg::EncryptionMediator em(*lib(in), *e.context, dev);
    } catch (const std::exception &) {
        ok = false;
    }
    St st = eg_encryption_mediator_new(hi, ctx, d, &med);
    check((st == ELECTIONGUARD_STATUS_SUCCESS) == ok && (med != nullptr) == ok,
          "mediator: C and C++ differ");
    if (med)
        OK(eg_encryption_mediator_free(med));
}
// compact ballots through documents
static void compactBody(Ctx &c)
{
    auto &s = c.src;
    auto x = ser::genAnyCompact(s, UINT64_MAX >> 1);
    x.id = longer(x.id);
    if (g_len && !x.writeIns.empty())
        x.writeIns[s.upto(x.writeIns.size() - 1)] += Str(g_len, 'y');
    c << ser::dump(x);
    if (!x.votes.empty())
        c.nt();
    auto plain = ser::libPlain(x);
    auto full = ser::lib(x);
    auto pd = plain->toMsgPack(), fd = full->toMsgPack();
    uint8_t *d = nullptr;
    uint64_t n = 0;
    eg_compact_plaintext_ballot_t *p = nullptr;
    OK(FROMBYTES(eg_compact_plaintext_ballot_from_msgpack, pd, &p));
    same(ser::dumpCompact(*plain),
         ser::dumpCompact(*reinterpret_cast<eg::CompactPlaintextBallot *>(p)),
         "compact plaintext ballot read");
    OK(eg_compact_plaintext_ballot_to_msgpack(p, &d, &n));
    check(Vec<uint8_t>(d, d + n) == pd, "compact plaintext ballot written");
    OK(eg_compact_plaintext_ballot_msgpack_free(d));
    OK(eg_compact_plaintext_ballot_free(p));
    eg_compact_ciphertext_ballot_t *f = nullptr;
    OK(FROMBYTES(eg_compact_ciphertext_ballot_from_msgpack, fd, &f));
    same(ser::dumpCompact(*full),
         ser::dumpCompact(*reinterpret_cast<eg::CompactCiphertextBallot *>(f)),
         "compact ballot read");
    check(TEXT(eg_compact_ciphertext_ballot_get_object_id, f) == x.id, "compact ballot id");
    OK(eg_compact_ciphertext_ballot_to_msgpack(f, &d, &n));
    check(Vec<uint8_t>(d, d + n) == fd, "compact ballot written");
    OK(eg_compact_ciphertext_ballot_msgpack_free(d));
    OK(eg_compact_ciphertext_ballot_free(f));
}

// -------------------------------------------------------------------- errors
static void errorBody(Ctx &c)
{
    auto &s = c.src;
    switch (s.pick({3, 1, 1})) {
        case 0: {
            // a document with one byte changed, removed or cut off: either
            // both interfaces read it to the same object or both refuse it
            Vec<uint8_t> d;
            size_t type = s.upto(8), f = s.upto(2);
            ManOpts o;
            o.maxContests = 1;
            o.maxSels = 2;
            switch (type) {
                case 0:
                    d = ser::write(*lib(genManifest(s, o)), f);
                    break;
                case 1:
                    d = ser::write(*lib(gen::internal(genManifest(s, o))), f);
                    break;
                case 2:
                    d = ser::write(*lib(ser::genAnyPlaintext(s, 3)), f);
                    break;
                case 3:
                    d = ser::write(*lib(ser::genAnyCiphertext(s)), f, false);
                    break;
                case 4:
                    d = ser::write(*lib(ser::genAnyCiphertext(s), 1), f);
                    break;
                case 5:
                    f = 2;
                    d = ser::libPlain(ser::genAnyCompact(s, 3))->toMsgPack();
                    break;
                case 6:
                    f = 2;
                    d = ser::lib(ser::genAnyCompact(s, 3))->toMsgPack();
                    break;
                case 7:
                    f &= 1;
                    d = ser::write2(*eg::CiphertextElectionContext::make(
                                      s.upto(9), s.upto(9), ref::modP(ref::genP(s)),
                                      ref::modQ(ref::genQ(s)), ref::modQ(ref::genQ(s))),
                                    f);
                    break;
                default:
                    f = 0;
                    d = ser::write2(eg::EncryptionDevice(s.upto(9), s.edgy64(), 1, genText(s)), f);
            }
            for (size_t n = s.range(1, 2); n > 0 && !d.empty(); n--) {
                size_t at = s.upto(d.size() - 1);
                switch (s.pick({2, 1, 1, 1})) {
                    case 0:
                        d[at] = static_cast<uint8_t>(s.upto(255));
                        break;
                    case 1:
                        d.resize(at);
                        break;
                    case 2:
                        d.erase(d.begin() + static_cast<long>(at));
                        break;
                    default:
                        d.insert(d.begin() + static_cast<long>(at),
                                 static_cast<uint8_t>(s.upto(255)));
                }
            }
            if (f == 0)
                d.erase(std::remove(d.begin(), d.end(), 0), d.end());
            c.label("type " + std::to_string(type) + " " + ser::formatName(f));
            auto run = [&](auto *h, auto *cppNull, auto json, auto bson, auto pack, auto release) {
                using H = std::remove_pointer_t<decltype(h)>;
                using C = std::remove_pointer_t<decltype(cppNull)>;
                U<C> l;
                try {
                    if constexpr (std::is_same_v<decltype(json), int>)
                        l = C::fromMsgPack(d);
                    else if constexpr (std::is_same_v<decltype(pack), int>)
                        l = ser::read2<C>(d, f);
                    else
                        l = ser::read<C>(d, f);
                } catch (const std::exception &) {
                }
                H *r = nullptr;
                St st = ELECTIONGUARD_STATUS_SUCCESS;
                if constexpr (std::is_same_v<decltype(json), int>) {
                    st = FROMBYTES(pack, d, &r);
                } else if constexpr (std::is_same_v<decltype(bson), int>) {
                    st = FROMJSON(json, d, &r);
                } else if constexpr (std::is_same_v<decltype(pack), int>) {
                    st = f == 0 ? FROMJSON(json, d, &r) : FROMBYTES(bson, d, &r);
                } else {
                    st = f == 0   ? FROMJSON(json, d, &r)
                         : f == 1 ? FROMBYTES(bson, d, &r)
                                  : FROMBYTES(pack, d, &r);
                }
                if (l) {
                    c.label("still readable");
                    check(st == ELECTIONGUARD_STATUS_SUCCESS && r, "C refuses what C++ reads");
                    if constexpr (std::is_same_v<decltype(pack), int>) {
                        check(l->toJson() == reinterpret_cast<C *>(r)->toJson(),
                              "C and C++ read another object");
                    } else if constexpr (!std::is_same_v<decltype(json), int>) {
                        Vec<uint8_t> a, b;
                        bool fa = false, fb = false;
                        try {
                            a = ser::write(*l, 2);
                        } catch (const std::exception &) {
                            fa = true;
                        }
                        try {
                            b = ser::write(*reinterpret_cast<C *>(r), 2);
                        } catch (const std::exception &) {
                            fb = true;
                        }
                        check(fa == fb && a == b, "C and C++ read another object");
                    }
                    OK(release(r));
                } else {
                    c.nt();
                    check(st == ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC && !r,
                          "C reads what C++ refuses");
                }
            };
            switch (type) {
                case 0:
                    run((eg_election_manifest_t *)nullptr, (eg::Manifest *)nullptr,
                        eg_election_manifest_from_json, eg_election_manifest_from_bson,
                        eg_election_manifest_from_msgpack, eg_election_manifest_free);
                    break;
                case 1:
                    run((eg_internal_manifest_t *)nullptr, (eg::InternalManifest *)nullptr,
                        eg_internal_manifest_from_json, eg_internal_manifest_from_bson,
                        eg_internal_manifest_from_msgpack, eg_internal_manifest_free);
                    break;
                case 2:
                    run((eg_plaintext_ballot_t *)nullptr, (eg::PlaintextBallot *)nullptr,
                        eg_plaintext_ballot_from_json, eg_plaintext_ballot_from_bson,
                        eg_plaintext_ballot_from_msgpack, eg_plaintext_ballot_free);
                    break;
                case 3:
                    run((eg_ciphertext_ballot_t *)nullptr, (eg::CiphertextBallot *)nullptr,
                        eg_ciphertext_ballot_from_json, eg_ciphertext_ballot_from_bson,
                        eg_ciphertext_ballot_from_msgpack, eg_ciphertext_ballot_free);
                    break;
                case 4:
                    run((eg_submitted_ballot_t *)nullptr, (eg::SubmittedBallot *)nullptr,
                        eg_submitted_ballot_from_json, eg_submitted_ballot_from_bson,
                        eg_submitted_ballot_from_msgpack, eg_submitted_ballot_free);
                    break;
                case 5:
                    run((eg_compact_plaintext_ballot_t *)nullptr,
                        (eg::CompactPlaintextBallot *)nullptr, 0, 0,
                        eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_free);
                    break;
                case 6:
                    run((eg_compact_ciphertext_ballot_t *)nullptr,
                        (eg::CompactCiphertextBallot *)nullptr, 0, 0,
                        eg_compact_ciphertext_ballot_from_msgpack,
                        eg_compact_ciphertext_ballot_free);
                    break;
                case 7:
                    run((eg_ciphertext_election_context_t *)nullptr,
                        (eg::CiphertextElectionContext *)nullptr,
                        eg_ciphertext_election_context_from_json,
                        eg_ciphertext_election_context_from_bson, 0,
                        eg_ciphertext_election_context_free);
                    break;
                default:
                    run((eg_encryption_device_t *)nullptr, (eg::EncryptionDevice *)nullptr,
                        eg_encryption_device_from_json, 0, 0, eg_encryption_device_free);
            }
            break;
        }
        case 1: {
            c.label("null");
            c.nt();
            const St bad = ELECTIONGUARD_STATUS_ERROR_INVALID_ARGUMENT;
#define N(fn) IS(bad, fn(nullptr))
            N(eg_element_mod_p_free);
            N(eg_element_mod_q_free);
            N(eg_elgamal_keypair_free);
            N(eg_elgamal_ciphertext_free);
            N(eg_disjunctive_chaum_pedersen_proof_free);
            N(eg_constant_chaum_pedersen_proof_free);
            N(eg_annotated_string_free);
            N(eg_language_free);
            N(eg_internationalized_text_free);
            N(eg_contact_information_free);
            N(eg_geopolitical_unit_free);
            N(eg_ballot_style_free);
            N(eg_party_free);
            N(eg_candidate_free);
            N(eg_selection_description_free);
            N(eg_contest_description_free);
            N(eg_contest_description_with_placeholders_free);
            N(eg_election_manifest_free);
            N(eg_internal_manifest_free);
            N(eg_ciphertext_election_context_config_free);
            N(eg_ciphertext_election_context_free);
            N(eg_extended_data_free);
            N(eg_plaintext_ballot_selection_free);
            N(eg_plaintext_ballot_contest_free);
            N(eg_plaintext_ballot_free);
            N(eg_ciphertext_ballot_selection_free);
            N(eg_ciphertext_ballot_contest_free);
            N(eg_ciphertext_ballot_free);
            N(eg_submitted_ballot_free);
            N(eg_compact_plaintext_ballot_free);
            N(eg_compact_ciphertext_ballot_free);
            N(eg_encryption_device_free);
            N(eg_encryption_mediator_free);
            N(eg_free_int_ptr);
            N(eg_delete_int_ptr);
#undef N
            break;
        }
        default: {
            uint64_t v = s.chance(1, 2) ? s.upto(9) : s.upto(15);
            static const char *names[] = {"ELECTIONGUARD_STATUS_SUCCESS",
                                          "ELECTIONGUARD_STATUS_ERROR_INVALID_ARGUMENT",
                                          "ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE",
                                          "ELECTIONGUARD_STATUS_ERROR_IO_ERROR",
                                          "ELECTIONGUARD_STATUS_ERROR_BAD_ACCESS",
                                          "ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC",
                                          "ELECTIONGUARD_STATUS_ERROR_ALREADY_EXISTS",
                                          "ELECTIONGUARD_STATUS_ERROR_RUNTIME_ERROR",
                                          "ELECTIONGUARD_STATUS_UNKNOWN"};
            Str t = eg_electionguard_get_status(static_cast<St>(v));
            check(t == names[v < 8 ? v : 8], "text of a status");
            if (v > 0)
                c.nt();
        }
    }
}

// ---------------------------------------------------------------- precompute
static void precomputeBody(Ctx &c)
{
    using B = eg::PrecomputeBufferContext;
    auto &s = c.src;
    Bag bag;
    B::empty_queues();
    B::init(1);
    size_t max = 1, have = 0;
    bool running = true;
    auto key = ref::genKey(s, 2);
    auto *pk = mkp(key.K);
    OWN(bag, eg_element_mod_p_free, pk);
    size_t n = s.range(1, 8);
    for (size_t i = 0; i < n; i++) {
        switch (s.pick({2, 3, 1, 2})) {
            case 0:
                max = s.range(1, 4);
                c << " init " << max;
                OK(eg_precompute_init(static_cast<int>(max)));
                running = true;
                break;
            case 1:
                c << " populate";
                OK(eg_precompute_populate(pk));
                if (running && max > have)
                    have = max, c.nt();
                break;
            case 2:
                c << " stop";
                OK(eg_precompute_stop());
                running = false;
                break;
            default: {
                c << " take";
                auto t = B::getTwoTriplesAndAQuadruple();
                check((t != nullptr) == (have > 0), "what was filled through C is not there");
                if (t) {
                    have--;
                    Z e = ref::of(*t->get_triple1()->get_exp());
                    check(ref::of(*t->get_triple1()->get_pubkey_to_exp()) == ref::powp(key.K, e),
                          "filled for another key");
                }
            }
        }
        int count = -1, size = -1;
        OK(eg_precompute_status(&count, &size));
        check(count == static_cast<int>(have) && size == static_cast<int>(max),
              "eg_precompute_status gives " + std::to_string(count) + "/" + std::to_string(size) +
                ", expected " + std::to_string(have) + "/" + std::to_string(max));
    }
    B::empty_queues();
}

// -------------------------------------------------- long texts, used addresses
static void longBody(Ctx &c)
{
    auto &s = c.src;
    Fn bodies[] = {hashBody, contextBody, manifestBody, plaintextBody, ciphertextBody, compactBody};
    size_t k = s.upto(5);
    static const size_t around[] = {256, 4096, 65536, 131072};
    struct Flag {
        explicit Flag(size_t n) { g_len = n; }
        ~Flag() { g_len = 0; }
    } f(around[s.pick({2, 1, 4, 1})] - 20 + s.upto(40));
    c.label("length " + std::to_string(g_len >> 8));
    bodies[k](c);
    c.nt();
}
static void reuseBody(Ctx &c)
{
    auto &s = c.src;
    Fn bodies[] = {groupBody,   hashBody,      elgamalBody,    manifestBody,
                   contextBody, plaintextBody, ciphertextBody, compactBody};
    Fn body = bodies[s.pick({2, 2, 1, 4, 3, 3, 2, 2})];
    Reuse r;
    for (size_t n = s.range(2, 4); n > 0; n--)
        body(c);
    c.nt();
}

// a body, after which every handle has been freed
template <void (*Body)(Ctx &)> static void freed(Ctx &c)
{
    g_unfreed = 0;
    Body(c);
    check(g_unfreed == 0, "freeing a handle reported an error");
}

// --------------------------------------------------------------------- leaks
// Every body frees what it made: run again with the same choices, so that
// everything kept on purpose is there already, the heap must not grow.
static void leakBody(Ctx &c)
{
    auto &s = c.src;
    Fn bodies[] = {groupBody,   hashBody,      elgamalBody,    manifestBody,
                   contextBody, plaintextBody, ciphertextBody, encryptBody,
                   errorBody,   refusedBody,   compactBody};
    static const char *names[] = {"group",   "hash",      "elgamal",    "manifest",
                                  "context", "plaintext", "ciphertext", "encrypt",
                                  "error",   "refused",   "compact"};
    size_t k = s.pick({4, 2, 1, 9, 6, 6, 6, 2, 14, 5, 2});
    size_t skip = s.record.size();
    uint64_t es = s.u64();
    skip = s.record.size();
    entropySeed(es);
    bodies[k](c);
    c.label(names[k]);
    Vec<uint64_t> rec(s.record.begin() + static_cast<long>(skip), s.record.end());
    auto again = [&] {
        size_t before = __sanitizer_get_current_allocated_bytes();
        {
            Src s2(rec);
            s2.inner = true;
            Ctx c2(s2);
            entropySeed(es);
            bodies[k](c2);
        }
        return static_cast<long>(__sanitizer_get_current_allocated_bytes()) -
               static_cast<long>(before);
    };
    again();
    long a = again(), b = a > 0 ? again() : 0;
    check(a <= 0 || b <= 0, Str(names[k]) + ": the heap grows by " + std::to_string(a) + ", then " +
                              std::to_string(b) + " bytes");
}

Spec pbt::spec()
{
    Spec s;
    s.property = "A01";
    s.subs = {
      {"group", freed<groupBody>, 3000, 40000,
       "any limbs (in and out of range), hex texts good and bad, powers, constants; non-trivial: "
       "an out of range value, a bad text or a power"},
      {"hash", freed<hashBody>, 1500, 60000,
       "texts, lists of texts, numbers, devices and ballot codes; non-trivial: a list of two or "
       "more"},
      {"elgamal", freed<elgamalBody>, 100, 4000,
       "keys, nonces, votes, base hashes: encryption and proofs against the reference; all "
       "non-trivial"},
      {"manifest", freed<manifestBody>, 600, 8000,
       "manifests built with the C constructors (every variant) and read with the getters, in "
       "every format, and the internal manifest; non-trivial: parties, names or several contests"},
      {"context", freed<contextBody>, 500, 20000,
       "contexts by every constructor, configurations, extended data, devices; non-trivial: "
       "extended data"},
      {"plaintext", freed<plaintextBody>, 500, 20000,
       "plaintext ballots by constructors and documents; non-trivial: a contest"},
      {"ciphertext", freed<ciphertextBody>, 200, 6000,
       "arbitrary encrypted and submitted ballots through documents and getters; non-trivial: a "
       "contest"},
      {"encrypt", freed<encryptBody>, 40, 1500,
       "elections and ballots encrypted through C against C++ and the reference verifier, also "
       "contests, selections, compact ballots, the mediator and refused ballots; all non-trivial"},
      {"errors", freed<errorBody>, 5000, 40000,
       "damaged documents (C against C++), null handles, status values; non-trivial: refused"},
      {"precompute", freed<precomputeBody>, 60, 3000,
       "histories of init, populate, stop, status through C against a count; non-trivial: filled"},
      {"refused", freed<refusedBody>, 60, 3000,
       "encryptions that fail and mediators for another manifest, C against C++; all non-trivial"},
      {"compact", freed<compactBody>, 400, 20000,
       "compact ballots through documents; non-trivial: votes"},
      {"long", freed<longBody>, 90, 3000,
       "the bodies above with texts of about 2^8, 2^12, 2^16 and 2^17 bytes; all non-trivial"},
      {"reuse", freed<reuseBody>, 200, 6000,
       "the bodies above several times in a row with an allocator that hands out the addresses "
       "just freed, so that handles of other objects come back; all non-trivial"},
      {"leaks", freed<leakBody>, 280, 3000,
       "any of the above again with the same choices, comparing the live heap before and after"},
    };
    s.assumptions = {"Handles are the C++ objects, so where the C interface has no getter the "
                     "harness reads the object",
                     "Constructors take over the contents of the handles they are given; the "
                     "caller still frees those handles, as the tests of the repository do"};
    return s;
}
