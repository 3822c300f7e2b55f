// G02: element encoding, decoding, comparison and range checks.
#include "ref.hpp"

using namespace ref;
using namespace pbt;
using namespace electionguard;

template <typename E> struct T;
template <> struct T<ElementModP> {
    static const size_t limbs = 64;
    static const Z &mod() { return PP(); }
    static UP mk(const Z &z) { return modP(z); }
    static UP bytes(const std::vector<uint8_t> &b, bool u) { return bytes_to_p(b, u); }
    static UP raw(const uint8_t *b, size_t n, bool u) { return bytes_to_p(b, n, u); }
    static const char *name() { return "P"; }
};
template <> struct T<ElementModQ> {
    static const size_t limbs = 4;
    static const Z &mod() { return QQ(); }
    static UQ mk(const Z &z) { return modQ(z); }
    static UQ bytes(const std::vector<uint8_t> &b, bool u) { return bytes_to_q(b, u); }
    static UQ raw(const uint8_t *b, size_t n, bool u) { return bytes_to_q(b, n, u); }
    static const char *name() { return "Q"; }
};

static void eq(const Z &got, const Z &want, const std::string &what)
{
    if (got != want)
        fail(what + ": got " + got.get_str(16) + " want " + want.get_str(16));
}
template <typename F> static bool throws(F f)
{
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

// any value that fits the element's width
template <typename E> static Z genWide(Src &s)
{
    Z top = Z(1) << (64 * T<E>::limbs);
    switch (s.pick({5, 2, 2})) {
        case 0:
            return genZ(s, T<E>::mod(), T<E>::limbs);
        case 1: // around and above the modulus
            return T<E>::mod() + static_cast<unsigned long>(s.upto(40)) - 2;
        default: { // anything above the modulus
            Z r = T<E>::mod() + genZ(s, top - T<E>::mod(), T<E>::limbs);
            return r;
        }
    }
}

template <typename E> static void roundTrip(Ctx &c)
{
    auto &s = c.src;
    Z z = genWide<E>(s);
    bool big = z > T<E>::mod();
    if (z > 255)
        c.nt();
    if (big)
        c.label("above the modulus");
    c << T<E>::name() << " " << shortHex(z);
    auto e = T<E>::mk(z);
    eq(of(*e), z, "construction");
    // hex
    std::string h = e->toHex();
    check(h == hex(z), "toHex gives " + h + " for " + hex(z));
    check(e->toHex() == h, "toHex changes when repeated");
    eq(of(*E::fromHex(h, true)), z, "hex round trip");
    // decorated hex: lower case, leading zeros
    std::string d = h;
    if (s.boolean())
        for (auto &ch : d)
            ch = static_cast<char>(tolower(ch));
    if (s.boolean() && d.size() > 1 && d[0] == '0')
        d = d.substr(1);
    size_t z0 = s.size(0, 6);
    d = std::string(z0, '0') + d;
    c << " hex " << (d.size() > 40 ? d.substr(0, 40) + ".." : d);
    eq(of(*E::fromHex(d, true)), z, "hex with case/leading zeros " + d);
    if (z <= T<E>::mod())
        eq(of(*E::fromHex(d)), z, "checked hex decode");
    else
        check(throws([&] { E::fromHex(d); }), "value above the modulus accepted from hex");
    // bytes
    auto b = e->toBytes();
    check(b == toBytes(z, T<E>::limbs * 8), "toBytes differs");
    eq(of(*T<E>::bytes(b, true)), z, "bytes round trip");
    if (z <= T<E>::mod())
        eq(of(*T<E>::bytes(b, false)), z, "checked bytes decode");
    else
        check(throws([&] { T<E>::bytes(b, false); }), "value above the modulus accepted (bytes)");
    // limbs
    auto l = limbs(z, T<E>::limbs);
    if (z <= T<E>::mod())
        eq(of(E(l)), z, "checked limb construction");
    else
        check(throws([&] { E e2(l); }), "value above the modulus accepted (limbs)");
    check(e->length() == T<E>::limbs, "length");
    // bounds
    check(e->isInBounds() == (z > 0 && z < T<E>::mod()), "isInBounds wrong");
    // an element that takes another value converts as that value, whatever was read before
    Z y = s.pick({3, 1}) == 0 ? genWide<E>(s) : z;
    auto f = T<E>::mk(y);
    if (s.boolean())
        f->toHex();
    *e = *f;
    eq(of(*e), y, "assigned element");
    check(e->toHex() == hex(y), "toHex of an element that was assigned a new value is stale");
    check(e->toBytes() == toBytes(y, T<E>::limbs * 8), "toBytes of an assigned element");
    check(e->isInBounds() == (y > 0 && y < T<E>::mod()), "isInBounds of an assigned element");
    E copied(*e);
    check(copied.toHex() == hex(y), "toHex of a copied element differs");
    eq(of(*f), y, "the element assigned from");
}

template <typename E> static void byteStrings(Ctx &c)
{
    auto &s = c.src;
    size_t n = 0;
    switch (s.pick({4, 3, 1, 1})) {
        case 0:
            n = s.range(1, T<E>::limbs * 8);
            break;
        case 1:
            n = s.range(1, 40);
            break;
        case 2:
            n = T<E>::limbs * 8 + s.range(1, 20);
            break;
        default:
            n = T<E>::limbs * 8;
    }
    auto b = s.bytes(n);
    size_t zeros = s.pick({3, 1}) == 0 ? 0 : s.upto(n);
    for (size_t i = 0; i < zeros; i++)
        b[i] = 0;
    Z v = fromBytes(b);
    c << T<E>::name() << " " << n << " bytes, value " << shortHex(v);
    if (n > 1)
        c.nt();
    if (n > T<E>::limbs * 8) {
        c.label("over-long");
        check(throws([&] { T<E>::bytes(b, false); }), "over-long byte string accepted");
        check(throws([&] { T<E>::bytes(b, true); }), "over-long byte string accepted unchecked");
        check(throws([&] { T<E>::raw(b.data(), b.size(), true); }), "over-long buffer accepted");
        // over-long non-zero hex
        std::string h = hexOf(b);
        if (v >= (Z(1) << (64 * T<E>::limbs)))
            check(throws([&] { E::fromHex(h, true); }), "over-long hex accepted");
        // over-long limb vector
        std::vector<uint64_t> l(T<E>::limbs + s.range(1, 3), 7);
        check(throws([&] { E e(l, true); }), "over-long limb vector accepted");
        return;
    }
    auto e = T<E>::bytes(b, true);
    eq(of(*e), v, "decoded byte string");
    eq(of(*T<E>::raw(b.data(), b.size(), true)), v, "decoded buffer");
    check(throws([&] { T<E>::raw(b.data(), b.size(), false); }) == (v > T<E>::mod()),
          "range check on byte string");
    check(throws([&] { T<E>::raw(nullptr, b.size(), true); }), "null buffer accepted");
    eq(of(*E::fromHex(hexOf(b), true)), v, "decoded hex of byte string");
    // short limb vectors are zero extended
    size_t k = s.range(0, T<E>::limbs);
    std::vector<uint64_t> l(k);
    for (auto &x : l)
        x = s.edgy64();
    eq(of(E(l, true)), fromLimbs(l.data(), k), "short limb vector");
    uint64_t u = s.edgy64();
    Z uz;
    mpz_import(uz.get_mpz_t(), 1, -1, 8, 0, 0, &u);
    eq(of(*E::fromUint64(u)), uz, "fromUint64");
    eq(of(*E::fromUint64(u, true)), uz, "fromUint64 unchecked");
}

template <typename E> static void compare(Ctx &c)
{
    auto &s = c.src;
    Z a = genWide<E>(s), b = a;
    switch (s.pick({2, 3, 3})) {
        case 0:
            b = genWide<E>(s);
            break;
        case 1: { // differ in exactly one bit
            uint64_t bit = s.upto(T<E>::limbs * 64 - 1);
            mpz_combit(b.get_mpz_t(), bit);
            break;
        }
        default:
            break;
    }
    c << T<E>::name() << " " << shortHex(a) << " vs " << shortHex(b);
    c.label(a == b ? "equal" : a < b ? "less" : "greater");
    if (a > 0 && b > 0)
        c.nt();
    auto x = T<E>::mk(a), y = T<E>::mk(b);
    check((*x == *y) == (a == b), "operator==");
    check((*y == *x) == (a == b), "operator== reversed");
    check((*x != *y) == (a != b), "operator!=");
    check((*x < *y) == (a < b), "operator<");
    check((*y < *x) == (b < a), "operator< reversed");
}

template <typename E> static void malformed(Ctx &c)
{
    auto &s = c.src;
    // a hex string with at least one foreign character after a first hex digit
    size_t n = s.range(1, T<E>::limbs == 4 ? 64 : 200);
    static const std::string digits = "0123456789abcdefABCDEF";
    std::string h;
    h += digits[1 + s.upto(digits.size() - 2)];
    while (h.size() < n)
        h += digits[s.upto(digits.size() - 1)];
    size_t k = s.range(1, 3);
    std::string good = h;
    for (size_t i = 0; i < k; i++) {
        static const std::string bad = "gGzxX-+ .,_:/@`\n\t\"\\|{";
        char ch = s.chance(4, 5) ? bad[s.upto(bad.size() - 1)]
                                 : static_cast<char>(s.range(128, 255));
        size_t pos = s.range(1, h.size());
        if (s.boolean() && pos < h.size())
            h[pos] = ch;
        else
            h.insert(h.begin() + pos, ch);
    }
    c << T<E>::name() << " " << show(h, 80);
    c.nt();
    if (h.size() > T<E>::limbs * 16)
        c.label("over-long too");
    check(throws([&] { E::fromHex(h, true); }), "malformed hex accepted: " + show(h, 200));
    check(throws([&] { E::fromHex(h, false); }), "malformed hex accepted (checked)");
}

static void residueCheck(Ctx &c)
{
    auto &s = c.src;
    Z z;
    switch (s.pick({3, 3, 1, 1})) {
        case 0:
            z = gpow(genQ(s));
            break;
        case 1:
            z = genP(s);
            break;
        case 2: // negated residue: right size, not in the subgroup
            z = PP() - gpow(genQ(s));
            break;
        default: // residue + P (same class, out of range) where it fits
            z = genZ(s, (Z(1) << 4096) - PP(), 64) + PP();
            break;
    }
    bool want = residue(z);
    c << shortHex(z) << (want ? " member" : " non-member");
    c.label(want ? "member" : "non-member");
    if (z > 1)
        c.nt();
    auto e = modP(z);
    check(e->isValidResidue() == want, "isValidResidue wrong for " + shortHex(z));
    check(e->isInBounds() == (z > 0 && z < PP()), "isInBounds wrong");
}

template <typename E> static void zeroAndMinimal(Ctx &c)
{
    auto &s = c.src;
    // zero and tiny values written in every way
    uint64_t v = s.upto(300);
    char buf[40];
    snprintf(buf, sizeof buf, s.boolean() ? "%llx" : "%llX", static_cast<unsigned long long>(v));
    std::string h = std::string(s.upto(2 * 8 * T<E>::limbs + 10), '0') + buf;
    c << T<E>::name() << " '" << show(h, 40) << "'";
    c.nt();
    Z want = static_cast<unsigned long>(v);
    eq(of(*E::fromHex(h)), want, "decode of " + show(h, 40));
    eq(of(*E::fromHex(T<E>::mk(want)->toHex())), want, "round trip of a small value");
    std::vector<uint8_t> zeros(s.range(1, T<E>::limbs * 8), 0);
    eq(of(*T<E>::bytes(zeros, false)), 0, "zero bytes");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "G02";
    sp.subs = {
      {"roundtrip-p", roundTrip<ElementModP>, 120000, 1000000,
       "values of the full width, in and above range; non-trivial: > 255"},
      {"roundtrip-q", roundTrip<ElementModQ>, 450000, 3000000, "same for Q"},
      {"bytes-p", byteStrings<ElementModP>, 120000, 1000000,
       "byte strings of 1..532 bytes with leading zeros; non-trivial: > 1 byte"},
      {"bytes-q", byteStrings<ElementModQ>, 300000, 3000000, "same, 1..52 bytes"},
      {"compare-p", compare<ElementModP>, 180000, 1000000,
       "pairs equal, one bit apart or random; non-trivial: both non-zero"},
      {"compare-q", compare<ElementModQ>, 300000, 2000000, "same for Q"},
      {"malformed-p", malformed<ElementModP>, 90000, 500000,
       "hex text with 1..3 foreign characters after the first digit; all non-trivial"},
      {"malformed-q", malformed<ElementModQ>, 180000, 1000000, "same for Q"},
      {"small-p", zeroAndMinimal<ElementModP>, 30000, 200000,
       "values 0..300 written with any number of leading zeros; all non-trivial"},
      {"small-q", zeroAndMinimal<ElementModQ>, 30000, 200000, "same for Q"},
      {"residue", residueCheck, 4500, 60000,
       "subgroup members, negated members, random and out-of-range values; non-trivial: > 1"},
    };
    sp.assumptions = {"leading white space before hex digits is tolerated by the library and not generated",
                      "the modulus itself is accepted by the checked constructors"};
    return sp;
}
