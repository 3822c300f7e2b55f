// C02: constant (selection limit) Chaum-Pedersen proofs.
#include "electionguard/precompute_buffers.hpp"
#include "ref.hpp"

using namespace ref;
using namespace pbt;
using namespace electionguard;

static bool libVerdict(const CT &ct, const Cons &p, const Z &K, const Z &hdr)
{
    return lib(p)->isValid(*lib(ct), *modP(K), *modQ(hdr));
}
static uint64_t genTotal(Src &s)
{
    switch (s.pick({4, 2, 1})) {
        case 0:
            return s.upto(12);
        case 1:
            return s.upto(1000000);
        default:
            return s.edgy64();
    }
}
static Z zOf(uint64_t v)
{
    Z z;
    mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &v);
    return z;
}
static CT encTotal(uint64_t t, const Z &r, const Z &K)
{
    return {gpow(r), mulp(powp(K, r), gpow(zOf(t)))};
}

static void honest(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z hdr = genQ(s), seed = genQ(s), r;
    uint64_t L;
    CT ct;
    std::unique_ptr<ElGamalCiphertext> lct;
    if (s.boolean()) { // a real aggregate of bits
        size_t n = s.range(1, 6);
        std::vector<std::unique_ptr<ElGamalCiphertext>> own;
        std::vector<std::reference_wrapper<ElGamalCiphertext>> v;
        L = 0;
        r = 0;
        for (size_t i = 0; i < n; i++) {
            Z ri = randExp(s);
            uint64_t m = s.upto(1);
            own.push_back(lib(encrypt(m, ri, k.K)));
            v.emplace_back(*own.back());
            r = modq(r + ri);
            L += m;
        }
        lct = elgamalAdd(v);
        ct = of(*lct);
        c << "aggregate of " << n << " ";
    } else {
        r = genExp(s);
        L = genTotal(s);
        ct = encTotal(L, r, k.K);
        lct = lib(ct);
    }
    bool pre = s.chance(1, 4);
    c << "total " << L << " r=" << shortHex(r) << " q=" << shortHex(hdr) << (pre ? " pre" : "");
    c.nt();
    PrecomputeBufferContext::empty_queues();
    if (pre) {
        PrecomputeBufferContext::init(1);
        PrecomputeBufferContext::populate(*k.kp->getPublicKey());
        c.label("precomputed");
    }
    auto p = ConstantChaumPedersenProof::make(*lct, *modQ(r), *k.kp->getPublicKey(), *modQ(seed),
                                              *modQ(hdr), L);
    Cons d = of(*p);
    check(d.L == L, "the proof states another total");
    if (!pre) {
        Cons w = proveTotal(ct, r, k.K, seed, hdr, L);
        check(w.a == d.a && w.b == d.b && w.c == d.c && w.v == d.v,
              "proof differs from the specified function of its seed");
    } else {
        auto q = ConstantChaumPedersenProof::make(*lct, *modQ(r), *k.kp->getPublicKey(), *modQ(seed),
                                                  *modQ(hdr), L);
        Cons e = of(*q);
        check(d.a != ct.a && e.a != ct.a, "the proof commits with the nonce of the ciphertext");
        check(d.a != e.a && d.v != e.v, "two proofs share a precomputed value");
        check(verify(ct, e, k.K, hdr), "a second proof does not verify independently");
    }
    PrecomputeBufferContext::empty_queues();
    check(verify(ct, d, k.K, hdr), "an honest proof does not verify independently");
    check(p->isValid(*lct, *k.kp->getPublicKey(), *modQ(hdr)), "an honest proof is refused");
}

static void forgery(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z hdr = genQ(s), r = randExp(s), K = k.K;
    uint64_t L = genTotal(s);
    CT ct = encTotal(L, r, K);
    Cons p;
    size_t kind = s.upto(8);
    c.label("forgery " + std::to_string(kind));
    c.nt();
    auto challenge = [&] { p.c = H({hdr, ct.a, ct.b, p.a, p.b}); };
    switch (kind) {
        case 0: { // simulated for any total: challenge is not the hash
            p.L = genTotal(s);
            p.c = randExp(s), p.v = randExp(s);
            p.a = mulp(gpow(p.v), inv(powp(ct.a, p.c)));
            p.b = mulp(mulp(gpow(modq(zOf(p.L) * p.c)), powp(K, p.v)), inv(powp(ct.b, p.c)));
            c << "simulated, total " << p.L;
            break;
        }
        case 1: { // another total
            uint64_t o = s.boolean() ? L + 1 : (s.boolean() ? L - 1 : genTotal(s));
            if (o == L)
                discard();
            p = proveTotal(ct, r, K, genQ(s), hdr, o);
            c << "total " << L << " claimed " << o;
            break;
        }
        case 2: { // pad outside the subgroup, even challenge
            ct.a = PP() - ct.a;
            for (int i = 0; i < 200; i++) {
                p = proveTotal(ct, r, K, randExp(s), hdr, L);
                if (mpz_even_p(p.c.get_mpz_t()))
                    break;
            }
            if (!mpz_even_p(p.c.get_mpz_t()))
                discard();
            c << "pad not in the subgroup";
            break;
        }
        case 3: {
            ct.b = PP() - ct.b;
            for (int i = 0; i < 200; i++) {
                p = proveTotal(ct, r, K, randExp(s), hdr, L);
                if (mpz_even_p(p.c.get_mpz_t()))
                    break;
            }
            if (!mpz_even_p(p.c.get_mpz_t()))
                discard();
            c << "data not in the subgroup";
            break;
        }
        case 4:
        case 5: { // one equation broken
            Z u = randExp(s);
            p.L = L;
            p.a = gpow(u), p.b = powp(K, u);
            (kind == 4 ? p.a : p.b) = mulp(kind == 4 ? p.a : p.b, s.boolean() ? GG() : gpow(randExp(s)));
            challenge();
            p.v = modq(u + p.c * r);
            c << "equation " << kind - 4 << " broken";
            break;
        }
        case 6: { // response outside its range: v = small, v + Q
            Z u = randExp(s);
            // choose r so that v comes out small: v = u + c r, so pick u after c cannot be done;
            // instead pick the ciphertext nonce 0 mod q offset: with r = 0 the response is u
            r = 0;
            ct = encTotal(L, r, K);
            Z small = static_cast<unsigned long>(s.upto(188));
            u = small;
            p.L = L;
            p.a = gpow(u), p.b = powp(K, u);
            challenge();
            p.v = s.boolean() && small != 0 ? small + QQ() : (small == 0 ? Z(0) : small + QQ());
            c << "response out of range " << shortHex(p.v);
            break;
        }
        case 7: { // all ones: trivial group elements
            ct = {1, 1};
            p.L = L = s.range(1, 9);
            p.a = 1, p.b = 1;
            challenge();
            p.v = randExp(s);
            c << "trivial elements";
            break;
        }
        default: { // header of another election
            p = proveTotal(ct, r, K, genQ(s), modq(hdr + 1 + genQ(s)), L);
            if (p.c == H({hdr, ct.a, ct.b, p.a, p.b}))
                discard();
            c << "other context";
        }
    }
    check(!verify(ct, p, K, hdr), "harness: the forgery verifies");
    check(!libVerdict(ct, p, K, hdr), "a forged proof was accepted");
}

static void mutate(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = genExp(s), hdr = genQ(s), seed = genQ(s), K = k.K;
    uint64_t L = genTotal(s);
    CT ct = encTotal(L, r, K);
    Cons p = proveTotal(ct, r, K, seed, hdr, L);
    c << "total " << L;
    // the verdict on an altered proof does not depend on the honest one having been checked
    const CT ct0 = ct;
    const Cons p0 = p;
    const Z K0 = K, hdr0 = hdr;
    if (s.boolean())
        check(libVerdict(ct0, p0, K0, hdr0), "an honest proof is refused");
    Z *ps[] = {&ct.a, &ct.b, &p.a, &p.b};
    Z *qs[] = {&p.c, &p.v, &hdr};
    size_t n = s.range(1, 2);
    for (size_t i = 0; i < n; i++) {
        switch (s.pick({4, 4, 1, 2, 2})) {
            case 0: {
                Z &z = *ps[s.upto(3)];
                c << " P";
                switch (s.upto(5)) {
                    case 0:
                        z = mulp(z, GG());
                        break;
                    case 1:
                        z = PP() - z;
                        break;
                    case 2:
                        z = z ^ (Z(1) << s.upto(4095));
                        break;
                    case 3:
                        z = static_cast<unsigned long>(s.upto(1));
                        break;
                    case 4:
                        z = inv(z);
                        break;
                    default:
                        z = gpow(randExp(s));
                }
                break;
            }
            case 1: {
                Z &z = *qs[s.upto(2)];
                c << " Q";
                switch (s.upto(4)) {
                    case 0:
                        z = modq(z + 1);
                        break;
                    case 1:
                        z = modq(QQ() - z);
                        break;
                    case 2:
                        z = z ^ (Z(1) << s.upto(255));
                        break;
                    case 3:
                        z = static_cast<unsigned long>(s.upto(1));
                        break;
                    default:
                        z = QQ();
                }
                break;
            }
            case 2:
                K = gpow(genExp(s));
                c << " key";
                break;
            case 3:
                p.L = s.boolean() ? p.L + 1 : genTotal(s);
                c << " total";
                break;
            default:
                switch (s.upto(2)) {
                    case 0:
                        std::swap(p.a, p.b);
                        break;
                    case 1:
                        std::swap(ct.a, ct.b);
                        break;
                    default:
                        ct = encTotal(L, r + 1, K);
                }
                c << " exchange";
        }
    }
    for (Z *z : qs)
        if (*z >= (Z(1) << 256))
            *z = modq(*z);
    bool want = verify(ct, p, K, hdr);
    if (!want)
        c.nt();
    bool got = libVerdict(ct, p, K, hdr);
    check(got == want, std::string("library says ") + (got ? "valid" : "invalid") +
                         ", specification says " + (want ? "valid" : "invalid"));
    if (s.chance(1, 4))
        check(libVerdict(ct0, p0, K0, hdr0), "an honest proof is refused after an altered one");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "C02";
    sp.subs = {
      {"honest", honest, 420, 40000,
       "key, aggregate nonce, context hash, total (0..2^64-1), real aggregates of bits, with and "
       "without precomputed values; all non-trivial"},
      {"forgery", forgery, 420, 40000,
       "nine kinds of forged proofs that satisfy every condition but one; all non-trivial"},
      {"mutate", mutate, 560, 50000,
       "one or two mutated parts; library verdict equals the independent verdict; non-trivial: the "
       "specification refuses it"},
    };
    sp.assumptions = {"SHA-256 of the reference is OpenSSL's", "GMP arithmetic is correct"};
    return sp;
}
