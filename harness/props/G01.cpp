// G01: modular arithmetic equals exact integer arithmetic.
#include "ref.hpp"

using namespace ref;
using namespace pbt;
using namespace electionguard;

static void eq(const Z &got, const Z &want, const std::string &what)
{
    if (got != want)
        fail(what + ": got " + got.get_str(16) + " want " + want.get_str(16));
}

// the two representations of the same element must both be left alone
static void untouched(const ElementModQ &e, const Z &z) { eq(of(e), z, "operand was modified"); }
static void untouched(const ElementModP &e, const Z &z) { eq(of(e), z, "operand was modified"); }

static void qops(Ctx &c)
{
    auto &s = c.src;
    Z a = genQ(s), b = genQ(s), d = genQ(s);
    // related operands: sums landing exactly on the modulus and on 2^256
    switch (s.pick({6, 1, 1, 1, 1})) {
        case 1:
            b = modq(QQ() - a);
            break;
        case 2:
            b = modq(QQ() - a + static_cast<unsigned long>(s.upto(400)));
            break;
        case 3:
            b = a;
            break;
        case 4:
            b = modq(a + static_cast<unsigned long>(s.upto(2)));
            break;
        default:
            break;
    }
    c << "a=" << shortHex(a) << " b=" << shortHex(b) << " c=" << shortHex(d);
    if (a > 1 && b > 1)
        c.nt();
    if (a + b >= QQ())
        c.label("sum wraps");
    if (a + b >= (Z(1) << 256))
        c.label("sum carries");
    if (a < b)
        c.label("difference borrows");
    auto ea = modQ(a), eb = modQ(b), ed = modQ(d);
    eq(of(add_mod_q(*ea, *eb)), modq(a + b), "a+b mod q");
    eq(of(sub_mod_q(*ea, *eb)), modq(a - b), "a-b mod q");
    eq(of(a_plus_bc_mod_q(*ea, *eb, *ed)), modq(a + b * d), "a+bc mod q");
    eq(modq(of(sub_from_q(*ea))), modq(QQ() - a), "q-a");
    check(of(sub_from_q(*ea)) <= QQ(), "q-a out of range");
    // aliased operands
    eq(of(add_mod_q(*ea, *ea)), modq(a + a), "a+a mod q");
    eq(of(sub_mod_q(*ea, *ea)), Z(0), "a-a mod q");
    eq(of(a_plus_bc_mod_q(*ea, *ea, *ea)), modq(a + a * a), "a+aa mod q");
    untouched(*ea, a);
    untouched(*eb, b);
    untouched(*ed, d);
}

static void qsum(Ctx &c)
{
    auto &s = c.src;
    size_t n = s.many(1, 40, 300);
    std::vector<UQ> own;
    std::vector<std::reference_wrapper<ElementModQ>> refs;
    Z sum = 0;
    for (size_t i = 0; i < n; i++) {
        Z z = genQ(s);
        own.push_back(modQ(z));
        sum += z;
    }
    for (auto &o : own)
        refs.push_back(*o);
    c << n << " terms";
    if (n > 1)
        c.nt();
    eq(of(add_mod_q(refs)), modq(sum), "sum mod q");
    refs.clear();
    bool threw = false;
    try {
        add_mod_q(refs);
    } catch (const std::exception &) {
        threw = true;
    }
    check(threw, "sum of no elements must be refused");
}

static void pops(Ctx &c)
{
    auto &s = c.src;
    Z a = genP(s), b = genP(s);
    switch (s.pick({6, 1, 1, 1, 1})) {
        case 1:
            b = modp(PP() - a);
            break;
        case 2:
            b = modp(PP() - a + static_cast<unsigned long>(s.upto(400)));
            break;
        case 3:
            b = a;
            break;
        case 4: // a + b around 2^4096
            b = modp((Z(1) << 4096) - a + static_cast<unsigned long>(s.upto(2)) - 1);
            break;
        default:
            break;
    }
    c << "a=" << shortHex(a) << " b=" << shortHex(b);
    if (a > 1 && b > 1)
        c.nt();
    if (a + b >= (Z(1) << 4096))
        c.label("sum carries");
    auto ea = modP(a), eb = modP(b);
    eq(of(add_mod_p(*ea, *eb)), modp(a + b), "a+b mod p");
    eq(of(mul_mod_p(*ea, *eb)), mulp(a, b), "a*b mod p");
    eq(of(mul_mod_p(*ea, *ea)), mulp(a, a), "a*a mod p");
    eq(of(mod_p(*ea)), a, "a mod p");
    untouched(*ea, a);
    untouched(*eb, b);
    if (s.chance(1, 3)) {
        size_t n = s.many(0, 12, 300, 100);
        std::vector<UP> ps;
        std::vector<UQ> qs;
        std::vector<ElementModPOrQ> v;
        Z prod = 1;
        Z last = 1;
        for (size_t i = 0; i < n; i++) {
            if (!v.empty() && s.chance(1, 5)) { // the same object again
                auto again = v.back();
                v.push_back(again);
                prod = mulp(prod, last);
                continue;
            }
            if (s.boolean()) {
                Z z = last = genP(s);
                ps.push_back(modP(z));
                v.emplace_back(ps.back().get());
                prod = mulp(prod, z);
            } else {
                Z z = last = genQ(s);
                qs.push_back(modQ(z));
                v.emplace_back(qs.back().get());
                prod = mulp(prod, z);
            }
        }
        c.label("product list");
        c << " list of " << n;
        eq(of(mul_mod_p(v)), prod, "product of list mod p");
    }
}

static Z genBase(Src &s)
{
    switch (s.pick({3, 2, 1})) {
        case 0:
            return genP(s);
        case 1:
            return gpow(genQ(s));
        default:
            return GG();
    }
}

static void powQ(Ctx &c)
{
    auto &s = c.src;
    Z b = genBase(s), e = genQ(s);
    if (s.chance(1, 8)) { // the corners together
        b = s.boolean() ? Z(s.upto(2)) : Z(PP() - 1 - s.upto(1));
        e = s.boolean() ? Z(s.upto(2)) : Z(QQ() - 1 - s.upto(1));
    }
    c << "base=" << shortHex(b) << " exp=" << shortHex(e);
    if (b > 1 && e > 1)
        c.nt();
    if (e > 0 && e < (Z(1) << 192))
        c.label("exponent with zero top limb");
    auto eb = modP(b);
    auto ee = modQ(e);
    Z want = powp(b, e);
    eq(of(pow_mod_p(*eb, *ee)), want, "b^e mod p");
    eq(of(g_pow_p(*ee)), gpow(e), "g^e mod p");
    // the exponent as a wide element
    auto ep = ee->toElementModP();
    eq(of(*ep), e, "widening");
    eq(of(pow_mod_p(*eb, *ep)), want, "b^e mod p (wide exponent)");
    untouched(*eb, b);
    untouched(*ee, e);
}

static void powP(Ctx &c)
{
    auto &s = c.src;
    Z b = genBase(s), e = genP(s);
    if (s.chance(1, 8)) {
        b = s.boolean() ? Z(s.upto(2)) : Z(PP() - 1 - s.upto(1));
        e = s.boolean() ? Z(s.upto(2)) : Z(PP() - 1 - s.upto(1));
    }
    c << "base=" << shortHex(b) << " exp=" << shortHex(e);
    if (b > 1 && e > (Z(1) << 256))
        c.nt();
    auto eb = modP(b);
    auto ee = modP(e);
    eq(of(pow_mod_p(*eb, *ee)), powp(b, e), "b^e mod p (wide exponent)");
    if (s.boolean())
        eq(of(g_pow_p(*ee)), gpow(e), "g^e mod p (wide exponent)");
    untouched(*eb, b);
    untouched(*ee, e);
}

// The tables are permanent (4 MB each), so bases come from a fixed pool; a
// case is a history of accelerated and plain exponentiations.
static const Z &poolBase(size_t i)
{
    static std::vector<Z> pool;
    if (pool.empty()) {
        pool.push_back(gpow(5));
        pool.push_back(PP() - 1);
        pool.push_back(2);
        pool.push_back((Z(1) << 4095) + 12345);
        pool.push_back(gpow(QQ() - 7));
        pool.push_back(modp((Z(1) << 2000) - (Z(1) << 700)));
        pool.push_back(1);
        pool.push_back(0);
        pool.push_back(GG());
        pool.push_back(modp(PP() - (Z(1) << 64)));
        pool.push_back(gpow(1000003));
        // same low / high words, different elsewhere
        pool.push_back((Z(1) << 4095) + (Z(1) << 2048) + 12345);
        pool.push_back((Z(1) << 4094) + 12345);
        // and enough others that no small cache holds them all
        for (unsigned long i = 0; i < 14; i++)
            pool.push_back(gpow(modq((Z(1) << 200) * (i + 3) + i)));
    }
    return pool[i % pool.size()];
}
static void fixedBase(Ctx &c)
{
    auto &s = c.src;
    size_t n = s.many(1, 12, 150, 100);
    bool any = false, few = n > 12 && s.boolean();
    size_t one = s.upto(25);
    for (size_t i = 0; i < n; i++) {
        Z b = poolBase(few ? one : s.upto(25));
        Z e;
        if (s.boolean()) {
            e = genQ(s);
        } else {
            // sparse bytes: exercises single table windows
            e = 0;
            size_t k = s.size(1, 4);
            for (size_t j = 0; j < k; j++)
                e += Z(static_cast<unsigned long>(s.upto(255))) << (8 * s.upto(31));
            e = modq(e);
        }
        bool fixed = s.chance(4, 5);
        auto eb = modP(b, fixed);
        auto ee = modQ(e);
        if (s.chance(1, 6)) {
            eb->setIsFixedBase(!fixed);
            fixed = !fixed;
        }
        check(eb->isFixedBase() == fixed, "fixed base flag");
        auto copy = eb->clone();
        c << (fixed ? "F" : "p") << shortHex(b) << "^" << shortHex(e) << " ";
        if (fixed && e > 1)
            any = true;
        Z want = powp(b, e);
        eq(of(pow_mod_p(*eb, *ee)), want, "fixed-base exponentiation");
        if (s.chance(1, 4))
            eq(of(pow_mod_p(*copy, *ee)), want, "exponentiation of a copy");
    }
    if (any)
        c.nt();
}

// group constants
static void constants(Ctx &c)
{
    c << "group constants";
    c.nt();
    namespace e = electionguard;
    eq(of(e::P()), ref::PP(), "P");
    eq(of(e::Q()), ref::QQ(), "Q");
    eq(of(e::R()), ref::RR(), "R");
    eq(of(e::G()), ref::GG(), "G");
    eq(of(e::ZERO_MOD_P()), 0, "0 mod p");
    eq(of(e::ONE_MOD_P()), 1, "1 mod p");
    eq(of(e::TWO_MOD_P()), 2, "2 mod p");
    eq(of(e::ZERO_MOD_Q()), 0, "0 mod q");
    eq(of(e::ONE_MOD_Q()), 1, "1 mod q");
    eq(of(e::TWO_MOD_Q()), 2, "2 mod q");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "G01";
    sp.subs = {
      {"qops", qops, 210000, 8000000,
       "triples in [0,Q) biased to carries/borrows/zero limbs and to sums at Q and 2^256; "
       "non-trivial: both operands > 1"},
      {"qsum", qsum, 7000, 300000, "lists of 1..40 elements mod Q; non-trivial: >= 2 terms"},
      {"pops", pops, 42000, 2000000,
       "pairs in [0,P) (add, multiply, reduce) and mixed product lists; non-trivial: operands > 1"},
      {"pow-q-exponent", powQ, 1120, 60000,
       "base in [0,P), exponent in [0,Q), plain exponentiation; non-trivial: both > 1"},
      {"pow-p-exponent", powP, 210, 10000,
       "base and exponent in [0,P); non-trivial: exponent > 2^256"},
      {"fixed-base", fixedBase, 1750, 100000,
       "histories of accelerated/plain exponentiations over 26 bases; non-trivial: an accelerated "
       "one with exponent > 1"},
      {"constants", constants, 1, 1, "the group constants"},
    };
    sp.assumptions = {
      "operands are canonical (in [0,P) or [0,Q)); q-a may be returned as Q for a=0",
      "GMP is correct"};
    return sp;
}
