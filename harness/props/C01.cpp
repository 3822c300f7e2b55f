// C01: disjunctive (zero-or-one) Chaum-Pedersen proofs, library verdict against an
// independent verifier, over honest proofs, mutants and targeted forgeries.
#include "electionguard/precompute_buffers.hpp"
#include "ref.hpp"

using namespace ref;
using namespace pbt;
using namespace electionguard;

static bool libVerdict(const CT &ct, const Disj &p, const Z &K, const Z &hdr)
{
    return lib(p)->isValid(*lib(ct), *modP(K), *modQ(hdr));
}
static void same(const Disj &a, const Disj &b, const std::string &what)
{
    check(a.a0 == b.a0 && a.b0 == b.b0, what + ": zero commitment");
    check(a.a1 == b.a1 && a.b1 == b.b1, what + ": one commitment");
    check(a.c0 == b.c0 && a.c1 == b.c1 && a.c == b.c, what + ": challenge");
    check(a.v0 == b.v0 && a.v1 == b.v1, what + ": response");
}

static void honest(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = genExp(s), hdr = genQ(s), seed = genQ(s);
    uint64_t m = s.upto(1);
    size_t route = s.upto(2);
    CT ct = encrypt(m, r, k.K);
    auto lct = lib(ct);
    c << "s=" << shortHex(k.s) << " r=" << shortHex(r) << " q=" << shortHex(hdr) << " m=" << m
      << " route " << route;
    c.nt();
    std::unique_ptr<DisjunctiveChaumPedersenProof> p;
    if (route == 0) {
        p = DisjunctiveChaumPedersenProof::make(*lct, *modQ(r), *k.kp->getPublicKey(), *modQ(hdr),
                                                *modQ(seed), m);
        c.label("seeded");
        same(of(*p), prove(ct, r, k.K, hdr, seed, m), "seeded proof differs from the specified one");
    } else if (route == 1) {
        p = DisjunctiveChaumPedersenProof::make(*lct, *modQ(r), *k.kp->getPublicKey(), *modQ(hdr), m);
        c.label("random");
    } else {
        auto t = std::make_unique<TwoTriplesAndAQuadruple>(
          std::make_unique<Triple>(*k.kp->getPublicKey()),
          std::make_unique<Triple>(*k.kp->getPublicKey()),
          std::make_unique<Quadruple>(*k.kp->getPublicKey()));
        auto t1 = t->get_triple1();
        r = of(t1->get_exp());
        lct = elgamalEncrypt_with_precomputed(m, *t1->get_g_to_exp(), *t1->get_pubkey_to_exp());
        ct = of(*lct);
        check(ct.a == gpow(r) && ct.b == encrypt(m, r, k.K).b, "precomputed ciphertext");
        p = DisjunctiveChaumPedersenProof::make_with_precomputed(*lct, std::move(t), *modQ(hdr), m);
        c.label("precomputed");
    }
    Disj d = of(*p);
    check(verify(ct, d, k.K, hdr), "an honest proof does not verify independently");
    check(p->isValid(*lct, *k.kp->getPublicKey(), *modQ(hdr)), "an honest proof is refused");
    check(of(*lct).a == ct.a && of(*lct).b == ct.b, "the ciphertext was modified");
    same(of(*p), d, "the proof was modified by verification");
    if (route != 0) // a shared exponent would give the nonce away
        check(d.a0 != ct.a && d.a1 != ct.a && d.a0 != d.a1,
              "the proof commits with the nonce of the ciphertext");
    if (route == 1) {
        // fresh randomness: no commitment or challenge share occurs in a second proof
        Disj e = of(*DisjunctiveChaumPedersenProof::make(*lct, *modQ(r), *k.kp->getPublicKey(),
                                                         *modQ(hdr), m));
        check(d.a0 != e.a0 && d.a1 != e.a1 && d.b0 != e.b0 && d.b1 != e.b1 && d.c0 != e.c0 &&
                d.c1 != e.c1 && d.v0 != e.v0 && d.v1 != e.v1 && d.a0 != e.a1 && d.a1 != e.a0 &&
                d.a0 != d.a1,
              "two random proofs share secrets");
    }
}

struct Forged {
    CT ct;
    Disj p;
    Z K, hdr;
};

// Proofs that satisfy every condition of the specification except the named one.
static Forged forge(Ctx &c, size_t kind)
{
    auto &s = c.src;
    Forged f;
    Key k = genKey(s);
    f.K = k.K;
    f.hdr = genQ(s);
    Z r = randExp(s);
    uint64_t m = s.upto(1);
    f.ct = encrypt(m, r, k.K);
    auto sim0 = [&] { // satisfy both zero equations by choosing a0, b0
        f.p.a0 = mulp(gpow(f.p.v0), inv(powp(f.ct.a, f.p.c0)));
        f.p.b0 = mulp(powp(f.K, f.p.v0), inv(powp(f.ct.b, f.p.c0)));
    };
    auto sim1 = [&] {
        f.p.a1 = mulp(gpow(f.p.v1), inv(powp(f.ct.a, f.p.c1)));
        f.p.b1 = mulp(mulp(gpow(f.p.c1), powp(f.K, f.p.v1)), inv(powp(f.ct.b, f.p.c1)));
    };
    auto challenge = [&] {
        f.p.c = H({f.hdr, f.ct.a, f.ct.b, f.p.a0, f.p.b0, f.p.a1, f.p.b1});
    };
    // honest in the branch of m with a chosen simulated challenge/response
    auto finish = [&](const Z &fc, const Z &fv, const Z &u) {
        if (m == 0) {
            f.p.c1 = fc, f.p.v1 = fv;
            sim1();
            f.p.a0 = gpow(u), f.p.b0 = powp(f.K, u);
            challenge();
            f.p.c0 = modq(f.p.c - fc);
            f.p.v0 = modq(u + f.p.c0 * r);
        } else {
            f.p.c0 = fc, f.p.v0 = fv;
            sim0();
            f.p.a1 = gpow(u), f.p.b1 = powp(f.K, u);
            challenge();
            f.p.c1 = modq(f.p.c - fc);
            f.p.v1 = modq(u + f.p.c1 * r);
        }
    };
    switch (kind) {
        case 0: { // everything simulated for any plaintext; the challenge is not the hash
            f.ct = encrypt(s.upto(5), r, f.K);
            f.p.c0 = randExp(s), f.p.c1 = randExp(s), f.p.v0 = randExp(s), f.p.v1 = randExp(s);
            sim0();
            sim1();
            f.p.c = modq(f.p.c0 + f.p.c1);
            c << "challenge is not the hash";
            break;
        }
        case 1: { // the challenge is the hash; the shares do not add up
            f.ct = encrypt(s.upto(5), r, f.K);
            f.p.c0 = randExp(s), f.p.c1 = randExp(s), f.p.v0 = randExp(s), f.p.v1 = randExp(s);
            sim0();
            sim1();
            challenge();
            c << "challenge shares do not add up";
            break;
        }
        case 2: { // a share of zero
            // simulated challenge zero: g^v = a
            finish(0, randExp(s), randExp(s));
            c << "zero challenge share";
            break;
        }
        case 3: { // a response of zero
            finish(randExp(s), 0, randExp(s));
            c << "zero response";
            break;
        }
        case 4: { // non-canonical share or response: x + Q (still below 2^256 only for small x)
            Z small = static_cast<unsigned long>(s.range(0, 188));
            if (s.boolean()) {
                finish(small, randExp(s), randExp(s));
                (m == 0 ? f.p.c1 : f.p.c0) = small + QQ();
                c << "challenge share + Q";
            } else {
                finish(randExp(s), small, randExp(s));
                (m == 0 ? f.p.v1 : f.p.v0) = small + QQ();
                c << "response + Q";
            }
            break;
        }
        case 5: { // pad outside the subgroup, equations still hold (even challenges)
            f.ct.a = PP() - f.ct.a;
            for (int i = 0; i < 200; i++) {
                finish(modq(2 * (randExp(s) / 4)), randExp(s), randExp(s));
                if (mpz_even_p(f.p.c0.get_mpz_t()) && mpz_even_p(f.p.c1.get_mpz_t()))
                    break;
            }
            if (!mpz_even_p(f.p.c0.get_mpz_t()) || !mpz_even_p(f.p.c1.get_mpz_t()))
                discard();
            c << "pad not in the subgroup";
            break;
        }
        case 6: {
            f.ct.b = PP() - f.ct.b;
            for (int i = 0; i < 200; i++) {
                finish(modq(2 * (randExp(s) / 4)), randExp(s), randExp(s));
                if (mpz_even_p(f.p.c0.get_mpz_t()) && mpz_even_p(f.p.c1.get_mpz_t()))
                    break;
            }
            if (!mpz_even_p(f.p.c0.get_mpz_t()) || !mpz_even_p(f.p.c1.get_mpz_t()))
                discard();
            c << "data not in the subgroup";
            break;
        }
        case 7:
        case 8:
        case 9:
        case 10: { // exactly one equation broken, challenge still the hash and the shares add up
            Z fc = randExp(s), fv = randExp(s), u = randExp(s);
            Z d = s.boolean() ? GG() : gpow(randExp(s));
            if (m == 0) {
                f.p.c1 = fc, f.p.v1 = fv;
                sim1();
                f.p.a0 = gpow(u), f.p.b0 = powp(f.K, u);
            } else {
                f.p.c0 = fc, f.p.v0 = fv;
                sim0();
                f.p.a1 = gpow(u), f.p.b1 = powp(f.K, u);
            }
            Z &t = kind == 7 ? f.p.a0 : kind == 8 ? f.p.b0 : kind == 9 ? f.p.a1 : f.p.b1;
            t = mulp(t, d);
            challenge();
            if (m == 0) {
                f.p.c0 = modq(f.p.c - fc);
                f.p.v0 = modq(u + f.p.c0 * r);
            } else {
                f.p.c1 = modq(f.p.c - fc);
                f.p.v1 = modq(u + f.p.c1 * r);
            }
            c << "equation " << kind - 7 << " broken";
            break;
        }
        default: { // proof made for one bit, ciphertext holds another value
            uint64_t other = s.boolean() ? 1 - m : s.range(2, 9);
            CT real = encrypt(other, r, f.K);
            f.ct = real;
            f.p = prove(f.ct, r, f.K, f.hdr, genQ(s), m);
            c << "proof for " << m << ", ciphertext of " << other;
        }
    }
    return f;
}
static void forgery(Ctx &c)
{
    auto &s = c.src;
    size_t kind = s.upto(11);
    Forged f = forge(c, kind);
    c.label("forgery " + std::to_string(kind));
    c.nt();
    bool want = verify(f.ct, f.p, f.K, f.hdr);
    check(!want, "harness: the forgery verifies");
    check(!libVerdict(f.ct, f.p, f.K, f.hdr), "a forged proof was accepted");
}

static void mutate(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = genExp(s), hdr = genQ(s), seed = genQ(s), K = k.K;
    uint64_t m = s.upto(1);
    CT ct = encrypt(m, r, K);
    Disj p = prove(ct, r, K, hdr, seed, m);
    c << "m=" << m;
    auto mutP = [&](Z &z) {
        switch (s.pick({2, 1, 1, 1, 1, 1, 1})) {
            case 0:
                z = mulp(z, GG());
                break;
            case 1:
                z = PP() - z;
                break;
            case 2:
                z = z ^ (Z(1) << s.upto(4095));
                break;
            case 3:
                z = static_cast<unsigned long>(s.upto(1));
                break;
            case 4:
                z = gpow(randExp(s));
                break;
            case 5:
                z = inv(z);
                break;
            default:
                z = PP() - 1 + s.upto(1) * Z(1);
        }
    };
    auto mutQ = [&](Z &z) {
        switch (s.pick({2, 1, 1, 1, 1})) {
            case 0:
                z = modq(z + 1);
                break;
            case 1:
                z = modq(QQ() - z);
                break;
            case 2:
                z = z ^ (Z(1) << s.upto(255));
                break;
            case 3:
                z = static_cast<unsigned long>(s.upto(1));
                break;
            default:
                z = s.boolean() ? Z(QQ()) : randExp(s);
        }
    };
    // the verdict on an altered proof does not depend on the honest one having been checked
    const CT ct0 = ct;
    const Disj p0 = p;
    const Z K0 = K, hdr0 = hdr;
    if (s.boolean())
        check(libVerdict(ct0, p0, K0, hdr0), "an honest proof is refused");
    Z *ps[] = {&ct.a, &ct.b, &p.a0, &p.b0, &p.a1, &p.b1};
    Z *qs[] = {&p.c0, &p.c1, &p.c, &p.v0, &p.v1, &hdr};
    size_t n = s.range(1, 2);
    for (size_t i = 0; i < n; i++) {
        switch (s.pick({4, 4, 1, 2})) {
            case 0: {
                size_t j = s.upto(5);
                c << " P" << j;
                mutP(*ps[j]);
                break;
            }
            case 1: {
                size_t j = s.upto(5);
                c << " Q" << j;
                mutQ(*qs[j]);
                break;
            }
            case 2:
                K = gpow(genExp(s));
                c << " key";
                break;
            default: // exchange parts
                switch (s.upto(4)) {
                    case 0:
                        std::swap(p.a0, p.a1);
                        std::swap(p.b0, p.b1);
                        std::swap(p.c0, p.c1);
                        std::swap(p.v0, p.v1);
                        break;
                    case 1:
                        std::swap(p.c0, p.c1);
                        std::swap(p.v0, p.v1);
                        break;
                    case 2:
                        std::swap(ct.a, ct.b);
                        break;
                    case 3:
                        p = prove(ct, r, K, modq(hdr + 1), seed, m);
                        break;
                    default: {
                        Disj o = prove(encrypt(m, r + 1, K), r + 1, K, hdr, seed, m);
                        p = o;
                    }
                }
                c << " exchange";
        }
    }
    Z lim = Z(1) << 256;
    for (Z *z : qs)
        if (*z >= lim)
            *z = modq(*z);
    bool want = verify(ct, p, K, hdr);
    if (!want)
        c.nt();
    bool got = libVerdict(ct, p, K, hdr);
    check(got == want, std::string("library says ") + (got ? "valid" : "invalid") +
                         ", specification says " + (want ? "valid" : "invalid"));
    if (s.chance(1, 4))
        check(libVerdict(ct0, p0, K0, hdr0), "an honest proof is refused after an altered one");
}

static void badPlaintext(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = randExp(s);
    uint64_t m = s.range(2, UINT64_MAX);
    if (s.boolean())
        m = s.range(2, 20);
    c << "m=" << m;
    c.nt();
    auto ct = lib(encrypt(1, r, k.K));
    try {
        if (s.boolean())
            DisjunctiveChaumPedersenProof::make(*ct, *modQ(r), *k.kp->getPublicKey(), *modQ(5), m);
        else
            DisjunctiveChaumPedersenProof::make(*ct, *modQ(r), *k.kp->getPublicKey(), *modQ(5),
                                                *modQ(7), m);
    } catch (const std::exception &) {
        return;
    }
    fail("a proof that " + std::to_string(m) + " is zero or one was made");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "C01";
    sp.subs = {
      {"honest", honest, 520, 30000,
       "key, nonce, context hash, bit, and seeded / random / precomputed route; accepted by the "
       "library and the independent verifier; all non-trivial"},
      {"forgery", forgery, 520, 30000,
       "12 kinds of forged proofs that satisfy every condition of the specification but one; all "
       "non-trivial"},
      {"mutate", mutate, 650, 40000,
       "one or two mutated, exchanged or re-bound parts of an honest proof; library verdict equals the "
       "independent verdict; non-trivial: the specification refuses it"},
      {"badPlaintext", badPlaintext, 60, 1000, "plaintexts above one; all non-trivial"},
    };
    sp.assumptions = {"SHA-256 of the reference is OpenSSL's", "GMP arithmetic is correct"};
    return sp;
}
