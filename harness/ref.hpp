// Independent reference model: exact integers (GMP), SHA-256 / HMAC (OpenSSL),
// the ElectionGuard hash encoding and the proof verification equations.
// Shares no code and no constants with the library under test.
#pragma once
#include "electionguard/chaum_pedersen.hpp"
#include "electionguard/elgamal.hpp"
#include "electionguard/group.hpp"
#include "pbt.hpp"

#include <gmpxx.h>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
    using Z = mpz_class;
    namespace eg = electionguard;
    using UP = std::unique_ptr<eg::ElementModP>;
    using UQ = std::unique_ptr<eg::ElementModQ>;

    const Z &PP();
    const Z &QQ();
    const Z &RR();
    const Z &GG();

    Z fromLimbs(const uint64_t *l, size_t n);
    std::vector<uint64_t> limbs(const Z &z, size_t n);
    Z of(const eg::ElementModP &e);
    Z of(const eg::ElementModQ &e);
    inline Z of(const UP &e) { return of(*e); }
    inline Z of(const UQ &e) { return of(*e); }
    UP modP(const Z &z, bool fixedBase = false);
    UQ modQ(const Z &z);

    std::string hex(const Z &z); // upper case, whole bytes, "00" for zero
    Z fromBytes(const std::vector<uint8_t> &b);
    std::vector<uint8_t> toBytes(const Z &z, size_t n);

    std::vector<uint8_t> sha256(const std::string &s);
    std::vector<uint8_t> hmac(const std::vector<uint8_t> &key, const std::vector<uint8_t> &msg);

    // hash encoding: an Item is the canonical text of one argument
    struct Item {
        std::string t;
        Item() : t("null") {}
        Item(std::nullptr_t) : t("null") {}
        Item(const Z &z) : t(hex(z)) {}
        Item(const std::string &s) : t(s.empty() ? "null" : s) {}
        Item(const char *s) : Item(std::string(s)) {}
        Item(uint64_t n) : t(n == 0 ? "null" : std::to_string(n)) {}
    };
    Z H(const std::vector<Item> &items);
    Item list(const std::vector<Item> &items); // nested list argument
    template <typename T> Item listOf(const std::vector<T> &v)
    {
        std::vector<Item> i;
        for (auto &x : v)
            i.emplace_back(x);
        return list(i);
    }

    inline Z modp(const Z &z)
    {
        Z r;
        mpz_mod(r.get_mpz_t(), z.get_mpz_t(), PP().get_mpz_t());
        return r;
    }
    inline Z modq(const Z &z)
    {
        Z r;
        mpz_mod(r.get_mpz_t(), z.get_mpz_t(), QQ().get_mpz_t());
        return r;
    }
    inline Z mulp(const Z &a, const Z &b) { return modp(a * b); }
    Z powp(const Z &b, const Z &e);
    inline Z gpow(const Z &e) { return powp(GG(), e); }
    bool residue(const Z &z);

    // nonce sequence of the specification
    struct NonceSeq {
        Z seed;
        NonceSeq(const Z &s, const std::vector<Item> &headers);
        Z get(uint64_t i) const { return H({seed, i}); }
        Z get(uint64_t i, const Item &header) const { return H({seed, i, header}); }
    };

    struct CT {
        Z a, b;
    };
    CT of(const eg::ElGamalCiphertext &c);
    struct Disj {
        Z a0, b0, a1, b1, c0, c1, c, v0, v1;
    };
    Disj of(const eg::DisjunctiveChaumPedersenProof &p);
    bool verify(const CT &ct, const Disj &p, const Z &K, const Z &hdr);
    struct Cons {
        Z a, b, c, v;
        uint64_t L = 0;
    };
    Cons of(const eg::ConstantChaumPedersenProof &p);
    bool verify(const CT &ct, const Cons &p, const Z &K, const Z &hdr);

    CT encrypt(uint64_t m, const Z &r, const Z &K);
    // the specified seeded provers
    Disj prove(const CT &ct, const Z &r, const Z &K, const Z &hdr, const Z &seed, uint64_t m);
    Cons proveTotal(const CT &ct, const Z &r, const Z &K, const Z &seed, const Z &hdr, uint64_t L);
    Z inv(const Z &z); // modulo P
    std::unique_ptr<eg::ElGamalCiphertext> lib(const CT &c);
    std::unique_ptr<eg::DisjunctiveChaumPedersenProof> lib(const Disj &p);
    std::unique_ptr<eg::ConstantChaumPedersenProof> lib(const Cons &p);

    // byte oriented ElGamal
    struct HCT {
        Z pad;
        std::vector<uint8_t> data, mac;
    };
    HCT of(const eg::HashedElGamalCiphertext &c);
    // plain is a whole number of blocks
    HCT hashedEncrypt(const std::vector<uint8_t> &plain, const Z &pad, const Z &shared,
                      const Z &ctx);
    // empty optional: refused
    bool hashedDecrypt(const HCT &c, const Z &shared, const Z &ctx, std::vector<uint8_t> &out);

    // ------------------------------------------------------------ generators
    // canonical elements, biased to carries, borrows and zero limbs
    Z genZ(pbt::Src &s, const Z &mod, size_t limbCount);
    inline Z genP(pbt::Src &s) { return genZ(s, PP(), 64); }
    inline Z genQ(pbt::Src &s) { return genZ(s, QQ(), 4); }
    // 0 < x < Q
    Z genExp(pbt::Src &s);
    // uniformly random exponent (cheap: one choice)
    Z randExp(pbt::Src &s);

    // The library keeps a permanent lookup table per fixed base key, so the
    // harness draws accelerated keys from a small pool.
    struct Key {
        Z s, K;
        std::unique_ptr<eg::ElGamalKeyPair> kp;
    };
    Key genKey(pbt::Src &s, unsigned pool = 3);

    std::string shortHex(const Z &z);
} // namespace ref
