// H01: hash_elems against an independent implementation of the encoding.
#include "electionguard/crypto_hashable.hpp"
#include "electionguard/hash.hpp"
#include "ref.hpp"

#include <deque>

using namespace ref;
using namespace pbt;
using namespace electionguard;

class Hashable : public CryptoHashable
{
  public:
    Z v;
    explicit Hashable(Z z) : v(std::move(z)) {}
    std::unique_ptr<ElementModQ> crypto_hash() override { return modQ(v); }
    std::unique_ptr<ElementModQ> crypto_hash() const override { return modQ(v); }
};

struct Pool {
    std::deque<ElementModP> ps;
    std::deque<ElementModQ> qs;
    std::deque<Hashable> hs;
};

static std::string genString(Src &s)
{
    size_t n = 0;
    switch (s.pick({3, 3, 1})) {
        case 0:
            n = s.upto(12);
            break;
        case 1: // around SHA-256 block boundaries
            n = 50 + s.upto(90);
            break;
        default:
            n = s.upto(2000);
    }
    uint64_t style = s.upto(3);
    std::string r;
    uint64_t k = s.u64();
    for (size_t i = 0; i < n; i++) {
        uint64_t w = mix(k, i);
        switch (style) {
            case 0:
                r += static_cast<char>('a' + w % 26);
                break;
            case 1:
                r += "|null0"[w % 6];
                break;
            case 2:
                r += "0123456789ABCDEFabcdef"[w % 22];
                break;
            default:
                r += static_cast<char>(w & 0xff);
        }
    }
    return r;
}

static std::string bytesText(const std::vector<uint8_t> &b)
{
    return hex(fromBytes(b));
}

// one argument: the library value, the reference text, and an equivalent
// library value passed another way
static void genArg(Ctx &c, Pool &p, CryptoHashableType &a, CryptoHashableType &alt, Item &want)
{
    auto &s = c.src;
    switch (s.pick({1, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2})) {
        case 0:
            a = nullptr;
            alt = nullptr;
            c << " null";
            c.label("null");
            break;
        case 1: {
            uint64_t v = s.edgy64();
            a = v;
            alt = v;
            want = Item(v);
            c << " n:" << v;
            c.label(v == 0 ? "zero number" : "number");
            break;
        }
        case 2: {
            std::string v = genString(s);
            a = v;
            alt = v;
            want = Item(v);
            c << " s:" << show(v, 24);
            c.label(v.empty() ? "empty string" : "string");
            break;
        }
        case 3: {
            Z z = genP(s);
            p.ps.emplace_back(limbs(z, 64), true);
            auto &e = p.ps.back();
            want = Item(z);
            uint64_t w = s.upto(2);
            alt = &e;
            if (w == 0)
                a = &e;
            else if (w == 1)
                a = std::ref(e);
            else
                a = std::cref(e);
            c << " P:" << shortHex(z);
            c.label("P");
            break;
        }
        case 4: {
            Z z = genQ(s);
            p.qs.emplace_back(limbs(z, 4), true);
            auto &e = p.qs.back();
            want = Item(z);
            uint64_t w = s.upto(2);
            alt = &e;
            if (w == 0)
                a = &e;
            else if (w == 1)
                a = std::ref(e);
            else
                a = std::cref(e);
            c << " Q:" << shortHex(z);
            c.label("Q");
            break;
        }
        case 5: {
            Z z = genQ(s);
            p.hs.emplace_back(z);
            auto &e = p.hs.back();
            want = Item(z);
            uint64_t w = s.upto(2);
            CryptoHashable *base = &e;
            alt = base;
            if (w == 0)
                a = base;
            else if (w == 1)
                a = std::ref(*base);
            else
                a = std::cref(*static_cast<const CryptoHashable *>(base));
            c << " H:" << shortHex(z);
            c.label("hashable");
            break;
        }
        case 6: {
            size_t n = s.many(0, 80, 70000, 200);
            auto b = s.bytes(n);
            if (n > 0 && s.chance(1, 3))
                for (size_t i = 0; i < 1 + s.upto(2) && i < n; i++)
                    b[i] = 0;
            a = b;
            alt = b;
            want.t = bytesText(b);
            c << " bytes" << n;
            c.label("bytes");
            break;
        }
        case 7: {
            std::vector<uint64_t> v(s.many(0, 6, 400, 100));
            std::vector<Item> it;
            for (auto &x : v) {
                x = s.edgy64();
                it.emplace_back(x);
            }
            a = v;
            alt = v;
            want = list(it);
            c << " nlist" << v.size();
            c.label(v.empty() ? "empty list" : "number list");
            break;
        }
        case 8: {
            std::vector<std::string> v(s.many(0, 6, 400, 100));
            std::vector<Item> it;
            for (auto &x : v) {
                x = genString(s);
                it.emplace_back(x);
            }
            a = v;
            alt = v;
            want = list(it);
            c << " slist" << v.size();
            c.label(v.empty() ? "empty list" : "string list");
            break;
        }
        case 9: {
            size_t n = s.many(0, 5, 300, 200);
            std::vector<ElementModP *> v1;
            std::vector<std::reference_wrapper<ElementModP>> v2;
            std::vector<std::reference_wrapper<const ElementModP>> v3;
            std::vector<Item> it;
            for (size_t i = 0; i < n; i++) {
                Z z = genP(s);
                p.ps.emplace_back(limbs(z, 64), true);
                v1.push_back(&p.ps.back());
                v2.push_back(p.ps.back());
                v3.push_back(p.ps.back());
                it.emplace_back(z);
            }
            uint64_t w = s.upto(2);
            if (w == 0)
                a = v1;
            else if (w == 1)
                a = v2;
            else
                a = v3;
            alt = v1;
            want = list(it);
            c << " Plist" << n;
            c.label(n == 0 ? "empty list" : "P list");
            break;
        }
        case 10: {
            size_t n = s.many(0, 5, 300, 200);
            std::vector<ElementModQ *> v1;
            std::vector<std::reference_wrapper<ElementModQ>> v2;
            std::vector<std::reference_wrapper<const ElementModQ>> v3;
            std::vector<Item> it;
            for (size_t i = 0; i < n; i++) {
                Z z = genQ(s);
                p.qs.emplace_back(limbs(z, 4), true);
                v1.push_back(&p.qs.back());
                v2.push_back(p.qs.back());
                v3.push_back(p.qs.back());
                it.emplace_back(z);
            }
            uint64_t w = s.upto(2);
            if (w == 0)
                a = v1;
            else if (w == 1)
                a = v2;
            else
                a = v3;
            alt = v1;
            want = list(it);
            c << " Qlist" << n;
            c.label(n == 0 ? "empty list" : "Q list");
            break;
        }
        default: {
            size_t n = s.many(0, 5, 300, 200);
            std::vector<CryptoHashable *> v1;
            std::vector<std::reference_wrapper<CryptoHashable>> v2;
            std::vector<std::reference_wrapper<const CryptoHashable>> v3;
            std::vector<Item> it;
            for (size_t i = 0; i < n; i++) {
                Z z = genQ(s);
                p.hs.emplace_back(z);
                CryptoHashable *b = &p.hs.back();
                v1.push_back(b);
                v2.push_back(*b);
                v3.push_back(*b);
                it.emplace_back(z);
            }
            uint64_t w = s.upto(2);
            if (w == 0)
                a = v1;
            else if (w == 1)
                a = v2;
            else
                a = v3;
            alt = v1;
            want = list(it);
            c << " Hlist" << n;
            c.label(n == 0 ? "empty list" : "hashable list");
            break;
        }
    }
}

static void lists(Ctx &c)
{
    auto &s = c.src;
    size_t n = s.many(0, 14, 300, 300);
    Pool p;
    std::vector<CryptoHashableType> a(n), alt(n);
    std::vector<Item> want(n);
    c << n << " args:";
    for (size_t i = 0; i < n; i++)
        genArg(c, p, a[i], alt[i], want[i]);
    if (n > 0)
        c.nt();
    Z w = H(want);
    Z g = of(hash_elems(a));
    check(g == w, "hash differs from the specified encoding: got " + g.get_str(16) + " want " +
                    w.get_str(16));
    check(g < QQ(), "hash out of range");
    check(of(hash_elems(alt)) == w, "hash depends on how the arguments are passed");
    check(of(hash_elems(a)) == w, "hash changes when repeated");
    if (n == 1) {
        check(of(hash_elems(a[0])) == w, "single argument hash differs from one-element list");
        check(of(hash_elems(alt[0])) == w, "single argument hash differs (alternative)");
        c.label("single");
    }
}

// metamorphic: a change of one argument changes the hash
static void sensitivity(Ctx &c)
{
    auto &s = c.src;
    size_t n = s.size(1, 8);
    Pool p;
    std::vector<CryptoHashableType> a(n), alt(n);
    std::vector<Item> want(n);
    for (size_t i = 0; i < n; i++)
        genArg(c, p, a[i], alt[i], want[i]);
    size_t k = s.upto(n - 1);
    CryptoHashableType x, y;
    Item t;
    c << " | replace " << k << " by";
    genArg(c, p, x, y, t);
    bool same = t.t == want[k].t;
    // texts with separators may legitimately collide with a different split
    Z before = of(hash_elems(a));
    a[k] = x;
    Z after = of(hash_elems(a));
    if (same)
        check(before == after, "equal texts hash differently");
    else {
        c.nt();
        check(before != after, "changed argument does not change the hash");
    }
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "H01";
    sp.subs = {
      {"lists", lists, 600000, 4000000,
       "argument lists of 0..14 values of all 24 supported alternatives compared with SHA-256 over "
       "the specified text; non-trivial: not empty"},
      {"sensitivity", sensitivity, 300000, 2000000,
       "one argument replaced; non-trivial: its canonical text differs"},
    };
    sp.assumptions = {"OpenSSL SHA-256 is correct", "byte strings encode as the hex number without leading zero bytes"};
    return sp;
}
