#include "ref.hpp"

#include <openssl/hmac.h>
#include <openssl/sha.h>

namespace ref
{
    const Z &PP()
    {
        static const Z v(
      "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
      "93c467e37db0c7a4d1be3f810152cb56a1cecc3af65cc0190c03df34709affbd"
      "8e4b59fa03a9f0eed0649ccb621057d11056ae9132135a08e43b4673d74bafea"
      "58deb878cc86d733dbe7bf38154b36cf8a96d1567899aaae0c09d4c8b6b7b86f"
      "d2a1ea1de62ff8643ec7c271827977225e6ac2f0bd61c746961542a3ce3bea5d"
      "b54fe70e63e6d09f8fc28658e80567a47cfde60ee741e5d85a7bd46931ced822"
      "0365594964b839896fcaabccc9b31959c083f22ad3ee591c32fab2c7448f2a05"
      "7db2db49ee52e0182741e53865f004cc8e704b7c5c40bf304c4d8c4f13edf604"
      "7c555302d2238d8ce11df2424f1b66c2c5d238d0744db679af2890487031f9c0"
      "aea1c4bb6fe9554ee528fdf1b05e5b256223b2f09215f3719f9c7ccc69ddf172"
      "d0d6234217fcc0037f18b93ef5389130b7a661e5c26e54214068bbcafea32a67"
      "818bd3075ad1f5c7e9cc3d1737fb28171baf84dbb6612b7881c1a48e439cd03a"
      "92bf52225a2b38e6542e9f722bce15a381b5753ea842763381ccae83512b3051"
      "1b32e5e8d80362149ad030aaba5f3a5798bb22aa7ec1b6d0f17903f4e22d8407"
      "34aa85973f79a93ffb82a75c47c03d43d2f9ca02d03199baceddd4533a52566a"
      "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
          16);
        return v;
    }
    const Z &QQ()
    {
        static const Z v = (Z(1) << 256) - 189;
        return v;
    }
    const Z &RR()
    {
        static const Z v = (PP() - 1) / QQ();
        return v;
    }
    const Z &GG()
    {
        static const Z v = powp(2, RR());
        return v;
    }

    Z fromLimbs(const uint64_t *l, size_t n)
    {
        Z z;
        mpz_import(z.get_mpz_t(), n, -1, 8, 0, 0, l);
        return z;
    }
    std::vector<uint64_t> limbs(const Z &z, size_t n)
    {
        std::vector<uint64_t> v(n + mpz_size(z.get_mpz_t()), 0);
        size_t c = 0;
        mpz_export(v.data(), &c, -1, 8, 0, 0, z.get_mpz_t());
        v.resize(n);
        return v;
    }
    Z of(const eg::ElementModP &e) { return fromLimbs(e.get(), 64); }
    Z of(const eg::ElementModQ &e) { return fromLimbs(e.get(), 4); }
    UP modP(const Z &z, bool fixedBase)
    {
        return std::make_unique<eg::ElementModP>(limbs(z, 64), true, fixedBase);
    }
    UQ modQ(const Z &z) { return std::make_unique<eg::ElementModQ>(limbs(z, 4), true); }

    std::string hex(const Z &z)
    {
        std::string s = z.get_str(-16);
        if (s.size() % 2)
            s = "0" + s;
        return s;
    }
    Z fromBytes(const std::vector<uint8_t> &b)
    {
        Z z;
        mpz_import(z.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data());
        return z;
    }
    std::vector<uint8_t> toBytes(const Z &z, size_t n)
    {
        size_t c = (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8;
        std::vector<uint8_t> raw(c + 1), out(n, 0);
        mpz_export(raw.data(), &c, 1, 1, 0, 0, z.get_mpz_t());
        for (size_t i = 0; i < c && i < n; i++)
            out[n - 1 - i] = raw[c - 1 - i];
        return out;
    }

    std::vector<uint8_t> sha256(const std::string &s)
    {
        std::vector<uint8_t> r(32);
        SHA256(reinterpret_cast<const unsigned char *>(s.data()), s.size(), r.data());
        return r;
    }
    std::vector<uint8_t> hmac(const std::vector<uint8_t> &key, const std::vector<uint8_t> &msg)
    {
        std::vector<uint8_t> r(32);
        unsigned n = 32;
        HMAC(EVP_sha256(), key.data(), static_cast<int>(key.size()), msg.data(), msg.size(),
             r.data(), &n);
        return r;
    }

    Z H(const std::vector<Item> &items)
    {
        std::string s = "|";
        if (items.empty())
            s += "null|";
        for (auto &i : items)
            s += i.t + "|";
        return modq(fromBytes(sha256(s)));
    }
    Item list(const std::vector<Item> &items)
    {
        Item r;
        if (!items.empty())
            r.t = hex(H(items));
        return r;
    }
    Z powp(const Z &b, const Z &e)
    {
        Z r;
        mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), PP().get_mpz_t());
        return r;
    }
    bool residue(const Z &z) { return z > 0 && z < PP() && powp(z, QQ()) == 1; }

    NonceSeq::NonceSeq(const Z &s, const std::vector<Item> &headers)
    {
        if (headers.empty())
            seed = s;
        else {
            std::vector<Item> v{Item(s)};
            v.insert(v.end(), headers.begin(), headers.end());
            seed = H(v);
        }
    }

    CT of(const eg::ElGamalCiphertext &c) { return {of(*c.getPad()), of(*c.getData())}; }
    Disj of(const eg::DisjunctiveChaumPedersenProof &p)
    {
        return {of(*p.getProofZeroPad()),       of(*p.getProofZeroData()),
                of(*p.getProofOnePad()),        of(*p.getProofOneData()),
                of(*p.getProofZeroChallenge()), of(*p.getProofOneChallenge()),
                of(*p.getChallenge()),          of(*p.getProofZeroResponse()),
                of(*p.getProofOneResponse())};
    }
    static bool inQ(const Z &z) { return z > 0 && z < QQ(); }
    bool verify(const CT &ct, const Disj &p, const Z &K, const Z &hdr)
    {
        if (!inQ(p.c0) || !inQ(p.c1) || !inQ(p.v0) || !inQ(p.v1))
            return false;
        for (const Z *z : {&ct.a, &ct.b, &p.a0, &p.b0, &p.a1, &p.b1})
            if (*z <= 0 || *z >= PP())
                return false;
        if (p.c != H({hdr, ct.a, ct.b, p.a0, p.b0, p.a1, p.b1}))
            return false;
        if (modq(p.c0 + p.c1) != p.c)
            return false;
        for (const Z *z : {&ct.a, &ct.b, &p.a0, &p.b0, &p.a1, &p.b1})
            if (!residue(*z))
                return false;
        return gpow(p.v0) == mulp(p.a0, powp(ct.a, p.c0)) &&
               gpow(p.v1) == mulp(p.a1, powp(ct.a, p.c1)) &&
               powp(K, p.v0) == mulp(p.b0, powp(ct.b, p.c0)) &&
               mulp(gpow(p.c1), powp(K, p.v1)) == mulp(p.b1, powp(ct.b, p.c1));
    }
    Cons of(const eg::ConstantChaumPedersenProof &p)
    {
        return {of(*p.getPad()), of(*p.getData()), of(*p.getChallenge()), of(*p.getResponse()),
                p.getConstant()};
    }
    bool verify(const CT &ct, const Cons &p, const Z &K, const Z &hdr)
    {
        if (!inQ(p.c) || !inQ(p.v))
            return false;
        for (const Z *z : {&ct.a, &ct.b, &p.a, &p.b})
            if (*z <= 0 || *z >= PP())
                return false;
        if (p.c != H({hdr, ct.a, ct.b, p.a, p.b}))
            return false;
        for (const Z *z : {&ct.a, &ct.b, &p.a, &p.b})
            if (!residue(*z))
                return false;
        Z L;
        mpz_import(L.get_mpz_t(), 1, -1, 8, 0, 0, &p.L);
        return gpow(p.v) == mulp(p.a, powp(ct.a, p.c)) &&
               mulp(gpow(modq(L * p.c)), powp(K, p.v)) == mulp(p.b, powp(ct.b, p.c));
    }

    Z inv(const Z &z)
    {
        Z r;
        mpz_invert(r.get_mpz_t(), z.get_mpz_t(), PP().get_mpz_t());
        return r;
    }
    CT encrypt(uint64_t m, const Z &r, const Z &K)
    {
        return {gpow(r), mulp(powp(K, r), gpow(Z(static_cast<unsigned long>(m))))};
    }
    Disj prove(const CT &ct, const Z &r, const Z &K, const Z &hdr, const Z &seed, uint64_t m)
    {
        NonceSeq n(seed, {"disjoint-chaum-pedersen-proof"});
        Z fc = n.get(0), fv = n.get(1), u = n.get(2); // simulated challenge, response; commitment
        Disj p;
        Z nc = modq(QQ() - fc);
        Z fa = mulp(gpow(fv), powp(ct.a, nc));
        Z fb = mulp(powp(K, fv), powp(ct.b, nc));
        Z ra = gpow(u), rb = powp(K, u);
        if (m == 0) {
            p.a0 = ra, p.b0 = rb;
            p.a1 = fa, p.b1 = mulp(fb, gpow(fc));
        } else {
            p.a0 = fa, p.b0 = fb;
            p.a1 = ra, p.b1 = rb;
        }
        p.c = H({hdr, ct.a, ct.b, p.a0, p.b0, p.a1, p.b1});
        Z rc = modq(p.c - fc), rv = modq(u + rc * r);
        if (m == 0) {
            p.c0 = rc, p.v0 = rv, p.c1 = fc, p.v1 = fv;
        } else {
            p.c1 = rc, p.v1 = rv, p.c0 = fc, p.v0 = fv;
        }
        return p;
    }
    Cons proveTotal(const CT &ct, const Z &r, const Z &K, const Z &seed, const Z &hdr, uint64_t L)
    {
        NonceSeq n(seed, {"constant-chaum-pedersen-proof"});
        Z u = n.get(0);
        Cons p;
        p.a = gpow(u);
        p.b = powp(K, u);
        p.c = H({hdr, ct.a, ct.b, p.a, p.b});
        p.v = modq(u + p.c * r);
        p.L = L;
        return p;
    }
    std::unique_ptr<eg::ElGamalCiphertext> lib(const CT &c)
    {
        return std::make_unique<eg::ElGamalCiphertext>(modP(c.a), modP(c.b));
    }
    std::unique_ptr<eg::DisjunctiveChaumPedersenProof> lib(const Disj &p)
    {
        return std::make_unique<eg::DisjunctiveChaumPedersenProof>(
          modP(p.a0), modP(p.b0), modP(p.a1), modP(p.b1), modQ(p.c0), modQ(p.c1), modQ(p.c),
          modQ(p.v0), modQ(p.v1));
    }
    std::unique_ptr<eg::ConstantChaumPedersenProof> lib(const Cons &p)
    {
        return std::make_unique<eg::ConstantChaumPedersenProof>(modP(p.a), modP(p.b), modQ(p.c),
                                                                modQ(p.v), p.L);
    }

    HCT of(const eg::HashedElGamalCiphertext &c)
    {
        return {of(*c.getPad()), c.getData(), c.getMac()};
    }
    static std::vector<uint8_t> kdf(const Z &session, const Z &ctx, uint32_t bits, uint32_t i)
    {
        std::vector<uint8_t> m;
        auto le = [&](uint32_t x) {
            for (int k = 0; k < 4; k++)
                m.push_back(static_cast<uint8_t>(x >> (8 * k)));
        };
        le(i);
        auto b = toBytes(ctx, 32);
        m.insert(m.end(), b.begin(), b.end());
        le(bits);
        return hmac(toBytes(session, 32), m);
    }
    static std::vector<uint8_t> hmacOf(const HCT &c, const Z &session, const Z &ctx)
    {
        // zero blocks: the length field is zero and the library leaves start/length out
        auto n = static_cast<uint32_t>(c.data.size() / 32);
        auto mk = n == 0 ? hmac(toBytes(session, 32), toBytes(ctx, 32))
                         : kdf(session, ctx, n * 256, 0);
        auto m = toBytes(c.pad, 512);
        m.insert(m.end(), c.data.begin(), c.data.end());
        return hmac(mk, m);
    }
    HCT hashedEncrypt(const std::vector<uint8_t> &plain, const Z &pad, const Z &shared,
                      const Z &ctx)
    {
        Z session = H({pad, shared});
        HCT c;
        c.pad = pad;
        c.data = plain;
        auto n = static_cast<uint32_t>(plain.size() / 32);
        for (uint32_t i = 0; i < n; i++) {
            auto k = kdf(session, ctx, n * 256, i + 1);
            for (size_t j = 0; j < 32; j++)
                c.data[i * 32 + j] ^= k[j];
        }
        c.mac = hmacOf(c, session, ctx);
        return c;
    }
    bool hashedDecrypt(const HCT &c, const Z &shared, const Z &ctx, std::vector<uint8_t> &out)
    {
        if (c.data.empty() || c.data.size() % 32 != 0)
            return false;
        Z session = H({c.pad, shared});
        if (hmacOf(c, session, ctx) != c.mac)
            return false;
        auto n = static_cast<uint32_t>(c.data.size() / 32);
        out = c.data;
        for (uint32_t i = 0; i < n; i++) {
            auto k = kdf(session, ctx, n * 256, i + 1);
            for (size_t j = 0; j < 32; j++)
                out[i * 32 + j] ^= k[j];
        }
        return true;
    }

    // ------------------------------------------------------------ generators
    static uint64_t word(uint64_t k, uint64_t i) { return pbt::mix(k, i); }
    static Z randBits(uint64_t key, size_t n)
    {
        std::vector<uint64_t> v(n);
        for (size_t i = 0; i < n; i++)
            v[i] = word(key, i);
        return fromLimbs(v.data(), n);
    }
    Z genZ(pbt::Src &s, const Z &mod, size_t n)
    {
        Z r;
        switch (s.pick({2, 4, 2, 2, 3, 2, 2})) {
            case 0:
                r = static_cast<unsigned long>(s.upto(3));
                break;
            case 1: // dense random
                r = randBits(s.u64(), n);
                break;
            case 2: // just below the modulus
                r = mod - 1 - static_cast<unsigned long>(s.upto(3));
                break;
            case 3: { // random with a random bit length
                r = randBits(s.u64(), n);
                r >>= s.upto(n * 64 - 1);
                break;
            }
            case 4: { // limb patterns: 0, all ones, random, one, top bit
                std::vector<uint64_t> v(n);
                uint64_t k = s.u64();
                unsigned zeroHeavy = static_cast<unsigned>(s.upto(2));
                for (size_t i = 0; i < n; i++) {
                    uint64_t w = word(k, i);
                    switch ((w >> 8) % (zeroHeavy == 0 ? 3 : 6)) {
                        case 0:
                            v[i] = 0;
                            break;
                        case 1:
                            v[i] = UINT64_MAX;
                            break;
                        case 2:
                            v[i] = word(k, i + 1000);
                            break;
                        case 3:
                            v[i] = zeroHeavy == 1 ? 0 : 1;
                            break;
                        case 4:
                            v[i] = zeroHeavy == 1 ? 0 : (1ULL << 63);
                            break;
                        default:
                            v[i] = zeroHeavy == 1 ? 0 : UINT64_MAX;
                    }
                }
                r = fromLimbs(v.data(), n);
                break;
            }
            case 5: { // 2^k + small delta
                uint64_t k = s.upto(n * 64 - 1);
                r = (Z(1) << k) + static_cast<unsigned long>(s.upto(2)) - 1;
                break;
            }
            default: { // a run of ones
                uint64_t hi = s.range(1, n * 64), lo = s.upto(hi - 1);
                r = (Z(1) << hi) - (Z(1) << lo);
                break;
            }
        }
        if (r < 0)
            r = 0;
        Z o;
        mpz_mod(o.get_mpz_t(), r.get_mpz_t(), mod.get_mpz_t());
        return o;
    }
    Z genExp(pbt::Src &s)
    {
        Z z = genQ(s);
        return z == 0 ? Z(1) : z;
    }
    Z randExp(pbt::Src &s)
    {
        Z z = modq(randBits(s.u64(), 4));
        return z == 0 ? Z(1) : z;
    }

    Key genKey(pbt::Src &s, unsigned pool)
    {
        Key k;
        if (pool > 0 && s.chance(3, 4)) {
            uint64_t i = s.upto(pool - 1);
            k.s = i == 0 ? Z(2) : modq(randBits(0x5eed00 + i, 4));
            k.kp = eg::ElGamalKeyPair::fromSecret(*modQ(k.s), true);
        } else {
            k.s = genExp(s);
            if (k.s < 2)
                k.s = 2;
            k.kp = eg::ElGamalKeyPair::fromSecret(*modQ(k.s), false);
        }
        k.K = gpow(k.s);
        return k;
    }

    std::string shortHex(const Z &z)
    {
        std::string h = z.get_str(16);
        if (h.size() > 20)
            h = h.substr(0, 10) + ".." + h.substr(h.size() - 8) + "(" + std::to_string(h.size()) +
                ")";
        return h;
    }
} // namespace ref
