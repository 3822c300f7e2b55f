// E01: ElGamal encryption, decryption and homomorphic addition against exact integers.
#include "ref.hpp"

using namespace ref;
using namespace pbt;
using namespace electionguard;

static void same(const CT &got, const CT &want, const std::string &what)
{
    check(got.a == want.a, what + ": pad differs");
    check(got.b == want.b, what + ": data differs");
}
template <typename F> static void refused(F f, const std::string &what)
{
    try {
        f();
    } catch (const std::exception &) {
        return;
    }
    fail(what + " was not refused");
}

static void encryptOne(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = genExp(s);
    uint64_t m = s.upto(1);
    c << "s=" << shortHex(k.s) << " r=" << shortHex(r) << " m=" << m;
    if (r > 3 && k.s > 3)
        c.nt();
    c.label(m ? "one" : "zero");
    auto er = modQ(r);
    auto ct = elgamalEncrypt(m, *er, *k.kp->getPublicKey());
    CT want = ref::encrypt(m, r, k.K);
    same(of(*ct), want, "elgamalEncrypt");
    check(of(*er) == r && of(*k.kp->getPublicKey()) == k.K, "an input was modified");
    // a second time, with an unaccelerated copy of the key, and from precomputed exponentiations
    same(of(*elgamalEncrypt(m, *er, *modP(k.K))), want, "elgamalEncrypt with a plain key");
    auto gr = modP(want.a), kr = modP(powp(k.K, r));
    auto pc = elgamalEncrypt_with_precomputed(m, *gr, *kr);
    same(of(*pc), want, "elgamalEncrypt_with_precomputed");
    check(of(*gr) == want.a && of(*kr) == powp(k.K, r), "a precomputed input was modified");
    uint64_t d = ct->decrypt(*k.kp->getSecretKey());
    check(d == m, "decrypted to " + std::to_string(d));
    same(of(*ct), want, "ciphertext changed by decrypting");
    check(of(*ct->crypto_hash()) == H({want.a, want.b}), "ciphertext hash");
}

// decryption of ciphertexts in general: 0, 1 or no result
static void decrypt(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = genExp(s);
    CT ct;
    uint64_t want = UINT64_MAX;
    switch (s.pick({2, 2, 2, 2, 1})) {
        case 0: {
            want = s.upto(1);
            ct = ref::encrypt(want, r, k.K);
            c << "bit " << want;
            break;
        }
        case 1: { // other plaintexts have no answer
            uint64_t m = s.range(2, 1000);
            ct = ref::encrypt(m, r, k.K);
            c << "m=" << m;
            break;
        }
        case 2: { // another key
            Z o = genExp(s);
            uint64_t m = s.upto(1);
            ct = ref::encrypt(m, r, gpow(o));
            if (o == k.s)
                want = m;
            c << "other key";
            break;
        }
        case 3: { // plaintext -1 (g^(q-1)) or a sign flip
            ct = ref::encrypt(0, r, k.K);
            if (s.boolean())
                ct.b = mulp(ct.b, inv(GG()));
            else
                ct.b = PP() - ct.b;
            c << "inverse";
            break;
        }
        default: {
            ct.a = gpow(r);
            ct.b = genP(s);
            if (ct.b == 0)
                ct.b = 1;
            Z sh = powp(ct.a, k.s);
            if (ct.b == sh)
                want = 0;
            else if (ct.b == mulp(sh, GG()))
                want = 1;
            c << "arbitrary data";
        }
    }
    if (want == UINT64_MAX)
        c.nt();
    uint64_t d = lib(ct)->decrypt(*k.kp->getSecretKey());
    check(d == want, "decrypted to " + std::to_string(d) + ", expected " + std::to_string(want));
}

static void add(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    size_t n = s.many(1, 14, 300, 60);
    std::vector<std::unique_ptr<ElGamalCiphertext>> own;
    std::vector<std::reference_wrapper<ElGamalCiphertext>> v;
    Z R = 0;
    uint64_t M = 0;
    std::vector<Z> rs;
    std::vector<uint64_t> ms;
    std::vector<size_t> which;
    for (size_t i = 0; i < n; i++) {
        if (!own.empty() && s.chance(1, 5)) { // the same object again
            size_t j = s.upto(own.size() - 1);
            which.push_back(j);
            v.emplace_back(*own[j]);
            R += rs[j];
            M += ms[j];
            c << " again" << j;
            continue;
        }
        Z r = s.chance(1, 3) ? genExp(s) : randExp(s);
        // cancel the running nonce now and then
        if (s.chance(1, 12) && modq(R) != 0)
            r = modq(QQ() - modq(R));
        uint64_t m = s.upto(1);
        own.push_back(lib(ref::encrypt(m, r, k.K)));
        which.push_back(own.size() - 1);
        rs.push_back(r);
        ms.push_back(m);
        v.emplace_back(*own.back());
        R += r;
        M += m;
        c << " m" << m << ":" << shortHex(r);
    }
    if (n > 1)
        c.nt();
    std::vector<CT> before;
    for (auto &x : own)
        before.push_back(of(*x));
    auto sum = elgamalAdd(v);
    CT want = ref::encrypt(M, modq(R), k.K);
    same(of(*sum), want, "elgamalAdd of " + std::to_string(n));
    for (size_t i = 0; i < own.size(); i++)
        same(of(*own[i]), before[i], "operand of elgamalAdd");
    if (modq(R) != 0) {
        uint64_t d = sum->decrypt(*k.kp->getSecretKey());
        check(d == (M <= 1 ? M : UINT64_MAX), "sum decrypted to " + std::to_string(d));
    }
}

// thousands of ciphertexts, as a tally has
static void tally(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    std::vector<std::unique_ptr<ElGamalCiphertext>> own;
    std::vector<Z> rs;
    size_t kinds = s.range(1, 5);
    for (size_t i = 0; i < kinds; i++) {
        rs.push_back(randExp(s));
        own.push_back(lib(ref::encrypt(i % 2, rs.back(), k.K)));
    }
    size_t n = s.range(200, 5000);
    uint64_t x = s.u64();
    std::vector<std::reference_wrapper<ElGamalCiphertext>> v;
    Z R = 0;
    uint64_t M = 0;
    for (size_t i = 0; i < n; i++) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        size_t j = (x >> 33) % kinds;
        v.emplace_back(*own[j]);
        R += rs[j];
        M += j % 2;
    }
    c << n << " of " << kinds << " kinds, total " << M;
    c.nt();
    same(of(*elgamalAdd(v)), ref::encrypt(M, modq(R), k.K), "elgamalAdd of " + std::to_string(n));
}

static void refusals(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    c.nt();
    switch (s.upto(2)) {
        case 0: {
            uint64_t m = s.upto(1);
            c << "zero nonce m=" << m;
            refused([&] { elgamalEncrypt(m, *modQ(0), *k.kp->getPublicKey()); }, "a zero nonce");
            break;
        }
        case 1:
            c << "empty sum";
            refused([&] { elgamalAdd({}); }, "an empty sum");
            break;
        default: {
            Z z = static_cast<unsigned long>(s.upto(1));
            bool f = s.boolean();
            c << "secret " << shortHex(z);
            refused([&] { ElGamalKeyPair::fromSecret(*modQ(z), f); }, "secret key below two");
        }
    }
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "E01";
    sp.subs = {
      {"encrypt", encryptOne, 650, 120000,
       "key (accelerated or not), nonce and bit; direct, plain-key and precomputed encryption "
       "equal "
       "(g^r, g^m K^r) and decrypt to m; non-trivial: nonce and secret above 3"},
      {"decrypt", decrypt, 500, 100000,
       "ciphertexts of 0/1, of other numbers, under other keys, inverted, arbitrary; non-trivial: "
       "no "
       "plaintext exists, so decryption must say so"},
      {"add", add, 650, 120000,
       "1..14 ciphertexts, repeats and cancelling nonces included; the sum equals the encryption "
       "of "
       "the sums; non-trivial: at least two"},
      {"tally", tally, 40, 4000, "sums of 200 to 5000 ciphertexts of a few kinds; all non-trivial"},
      {"refusals", refusals, 60, 3000, "zero nonce, empty sum, secret below two; all non-trivial"},
    };
    sp.assumptions = {"messages are 0 or 1, as the interface documents"};
    return sp;
}
