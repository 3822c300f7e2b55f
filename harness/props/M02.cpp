// M02: hashes of the manifest and all of its parts.
#include "electionguard/hash.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

static Str hx(const Z &z) { return ref::hex(z); }
template <typename L> static void agree(const L &l, const Z &want, const char *what)
{
    same(hx(want), hx(ref::of(l.crypto_hash())), Str("hash of ") + what);
    auto &m = const_cast<L &>(l);
    same(hx(want), hx(ref::of(m.crypto_hash())), Str("second hash of ") + what);
    // through the base class, as lists of objects are hashed
    CryptoHashable &b = m;
    same(hx(want), hx(ref::of(b.crypto_hash())), Str("hash through the interface of ") + what);
    const CryptoHashable &cb = m;
    same(hx(want), hx(ref::of(cb.crypto_hash())), Str("const hash through the interface of ") + what);
    L copy(l);
    same(hx(want), hx(ref::of(copy.crypto_hash())), Str("hash of a copy of ") + what);
    same(hx(ref::H({want})), hx(ref::of(hash_elems(std::ref(b)))), Str("hash of a list holding ") + what);
}
static void agree(const Manifest &l, const Z &want)
{
    same(hx(want), hx(ref::of(l.crypto_hash())), "hash of the manifest");
    auto &m = const_cast<Manifest &>(l);
    same(hx(want), hx(ref::of(m.crypto_hash())), "second hash of the manifest");
    CryptoHashable &b = m;
    same(hx(want), hx(ref::of(b.crypto_hash())), "interface hash of the manifest");
}

static void parts(Ctx &c)
{
    auto &s = c.src;
    switch (s.upto(9)) {
        case 0: {
            Lang x{genText(s), genText(s)};
            c << dump(x);
            agree(*lib(x), hash(x), "language");
            c.label("language");
            break;
        }
        case 1: {
            Text x = genI18n(s, 4);
            c << dump(x);
            agree(*lib(x), hash(x), "internationalized text");
            c.label("text");
            break;
        }
        case 2: {
            Ann x{genText(s), genText(s)};
            c << dump(x);
            agree(*lib(x), hash(x), "annotated string");
            c.label("annotated");
            break;
        }
        case 3: {
            Contact x = genContact(s);
            c.label("contact");
            // the shorter constructors
            switch (s.upto(3)) {
                case 0:
                    x.address.clear(), x.email.clear(), x.phone.clear();
                    c << dump(x);
                    agree(ContactInformation(x.name), hash(x), "contact (name)");
                    break;
                case 1: {
                    x.email.clear(), x.phone.clear();
                    bool named = s.boolean();
                    if (!named)
                        x.name = "";
                    c << dump(x);
                    agree(named ? ContactInformation(x.address, x.name) : ContactInformation(x.address),
                          hash(x), "contact (address)");
                    break;
                }
                case 2: {
                    x.email.clear();
                    std::vector<U<AnnotatedString>> ph;
                    for (auto &a : x.phone)
                        ph.push_back(lib(a));
                    c << dump(x);
                    agree(ContactInformation(x.address, std::move(ph), x.name), hash(x),
                          "contact (phone)");
                    break;
                }
                default:
                    c << dump(x);
                    agree(*lib(x), hash(x), "contact");
            }
            break;
        }
        case 4: {
            Unit x{genText(s), genText(s), static_cast<int>(s.upto(28)), std::nullopt};
            if (s.boolean())
                x.contact = genContact(s);
            c << dump(x);
            agree(*lib(x), hash(x), "unit");
            if (!x.contact)
                agree(GeopoliticalUnit(x.id, x.name, static_cast<ReportingUnitType>(x.type)), hash(x),
                      "unit (short constructor)");
            c.label("unit");
            break;
        }
        case 5: {
            Style x;
            x.id = genText(s);
            for (size_t i = 0, n = s.size(0, 4); i < n; i++)
                x.units.push_back(genText(s, 5));
            for (size_t i = 0, n = s.size(0, 3); i < n; i++)
                x.parties.push_back(genText(s, 5));
            x.image = genText(s, 5);
            c << dump(x);
            agree(*lib(x), hash(x), "style");
            Style y{x.id, x.units, {}, ""};
            agree(BallotStyle(y.id, y.units), hash(y), "style (short constructor)");
            c.label("style");
            break;
        }
        case 6: {
            PartyM x{genText(s), genOptText(s), genText(s, 4), genText(s, 4), genText(s, 4)};
            c << dump(x);
            agree(*lib(x), hash(x), "party");
            c.label("party");
            break;
        }
        case 7: {
            Cand x{genText(s), genOptText(s), genText(s, 4), genText(s, 4), s.boolean()};
            c << dump(x);
            agree(*lib(x), hash(x), "candidate");
            Cand y{x.id, std::nullopt, "", "", x.writeIn};
            agree(Candidate(y.id, y.writeIn), hash(y), "candidate (id)");
            y.party = x.party;
            agree(Candidate(y.id, y.party, y.writeIn), hash(y), "candidate (party)");
            if (x.name) {
                y = x;
                y.image = "";
                agree(Candidate(y.id, lib(*y.name), y.party, y.writeIn), hash(y),
                      "candidate (name, party)");
                y.party = "";
                agree(Candidate(y.id, lib(*y.name), y.writeIn), hash(y), "candidate (name)");
            }
            c.label("candidate");
            break;
        }
        case 8: {
            Sel x{genText(s), genText(s), s.edgy64()};
            c << dump(x);
            agree(*lib(x), hash(x), "selection");
            c.label("selection");
            break;
        }
        default: {
            Contest x;
            x.id = genText(s);
            x.district = genText(s, 5);
            x.seq = s.edgy64();
            x.variation = static_cast<int>(s.upto(12));
            x.elected = s.boolean() ? s.upto(5) : s.edgy64();
            x.votesAllowed = s.boolean() ? s.upto(5) : s.edgy64();
            x.name = genText(s);
            x.title = genOptText(s);
            x.subtitle = genOptText(s);
            for (size_t i = 0, n = s.size(0, 4); i < n; i++)
                x.sels.push_back({genText(s, 5), genText(s, 5), s.boolean() ? s.upto(5) : s.edgy64()});
            for (size_t i = 0, n = s.size(0, 2); i < n; i++)
                x.placeholders.push_back({genText(s, 5), genText(s, 5), s.upto(9)});
            c << dump(x);
            agree(*lib(x), hash(x), "contest");
            agree(*libWith(x), hash(x), "contest with placeholders");
            c.label("contest");
        }
    }
    c.nt();
}

// a manifest under preparation: any of the lists may still be empty
static void thin(Src &s, Man &m)
{
    if (!s.chance(1, 10))
        return;
    if (s.boolean())
        m.units.clear();
    if (s.boolean())
        m.parties.clear();
    if (s.boolean())
        m.cands.clear();
    if (s.boolean())
        m.contests.clear();
    if (s.boolean())
        m.styles.clear();
}

static void whole(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.encryptable = false;
    Man m = genManifest(s, o);
    thin(s, m);
    c << dump(m);
    if (m.contests.size() > 1 || m.units.size() > 1)
        c.nt();
    c.label(isSorted(m) ? "in order" : "out of order");
    auto l = lib(m);
    agree(*l, hash(m));
    // reading the parts in any way leaves the hash alone
    (void)dump(of(*l));
    (void)l->isValid();
    (void)l->toJson();
    agree(*l, hash(m));
    check(ref::of(*InternalManifest(*l).getManifestHash()) == hash(m),
          "internal manifest carries another hash");
    if (!m.name && !m.contact) {
        auto f = lib(m);
        std::vector<U<GeopoliticalUnit>> u;
        for (auto &x : m.units)
            u.push_back(lib(x));
        std::vector<U<Party>> p;
        for (auto &x : m.parties)
            p.push_back(lib(x));
        std::vector<U<Candidate>> cd;
        for (auto &x : m.cands)
            cd.push_back(lib(x));
        std::vector<U<ContestDescription>> cs;
        for (auto &x : m.contests)
            cs.push_back(lib(x));
        std::vector<U<BallotStyle>> st;
        for (auto &x : m.styles)
            st.push_back(lib(x));
        Manifest shortOne(m.scope, static_cast<ElectionType>(m.type), f->getStartDate(),
                          f->getEndDate(), std::move(u), std::move(p), std::move(cd), std::move(cs),
                          std::move(st));
        agree(shortOne, hash(m));
        c.label("short constructor");
    }
}

template <typename T> static bool drop(Src &s, Vec<T> &v)
{
    if (v.empty())
        return false;
    v.erase(v.begin() + static_cast<long>(s.upto(v.size() - 1)));
    return true;
}
static void other(Src &s, Str &x)
{
    Str y = x;
    switch (s.upto(3)) {
        case 0:
            y += "z";
            break;
        case 1:
            if (!y.empty())
                y[s.upto(y.size() - 1)] = 'Z';
            else
                y = "Z";
            break;
        case 2:
            y = genText(s, 6);
            break;
        default:
            y = y.empty() ? "null" : "";
    }
    x = y;
}
static void otherText(Src &s, Text &t)
{
    if (t.empty() || s.chance(1, 4))
        t.push_back({"v", "l"});
    else if (s.chance(1, 4))
        drop(s, t);
    else {
        auto &l = t[s.upto(t.size() - 1)];
        other(s, s.boolean() ? l.value : l.language);
    }
}
static void otherOpt(Src &s, Opt<Text> &t)
{
    if (!t)
        t = genI18n(s);
    else if (s.chance(1, 3))
        t = std::nullopt;
    else
        otherText(s, *t);
}
static void otherContact(Src &s, Contact &k)
{
    switch (s.upto(3)) {
        case 0:
            other(s, k.name);
            break;
        case 1:
            if (!k.address.empty() && s.boolean())
                other(s, k.address[s.upto(k.address.size() - 1)]);
            else
                k.address.push_back("x");
            break;
        case 2:
            if (!k.email.empty() && s.boolean()) {
                auto &a = k.email[s.upto(k.email.size() - 1)];
                other(s, s.boolean() ? a.annotation : a.value);
            } else
                k.email.push_back({"a", "b"});
            break;
        default:
            if (!k.phone.empty() && s.boolean()) {
                auto &a = k.phone[s.upto(k.phone.size() - 1)];
                other(s, s.boolean() ? a.annotation : a.value);
            } else
                k.phone.push_back({"a", "b"});
    }
}
static void otherContactOpt(Src &s, Opt<Contact> &k)
{
    if (!k)
        k = genContact(s);
    else if (s.chance(1, 3))
        k = std::nullopt;
    else
        otherContact(s, *k);
}
template <typename T> static void swapTwo(Src &s, Vec<T> &v)
{
    if (v.size() > 1) {
        size_t i = s.upto(v.size() - 2);
        std::swap(v[i], v[i + 1]);
    }
}
// change one hashed thing
static const char *vary(Src &s, Man &m)
{
    switch (s.upto(12)) {
        case 0:
            other(s, m.scope);
            return "scope";
        case 1:
            m.type = static_cast<int>(s.upto(7));
            return "type";
        case 2:
            (s.boolean() ? m.start : m.end) += s.range(1, 100000);
            return "dates";
        case 3:
            otherOpt(s, m.name);
            return "name";
        case 4:
            otherContactOpt(s, m.contact);
            return "contact";
        case 5: {
            if (m.units.empty())
                return "none";
            auto &u = m.units[s.upto(m.units.size() - 1)];
            switch (s.upto(3)) {
                case 0:
                    other(s, u.id);
                    break;
                case 1:
                    other(s, u.name);
                    break;
                case 2:
                    u.type = static_cast<int>(s.upto(28));
                    break;
                default:
                    otherContactOpt(s, u.contact);
            }
            return "unit";
        }
        case 6: {
            if (m.parties.empty())
                return "none";
            auto &p = m.parties[s.upto(m.parties.size() - 1)];
            switch (s.upto(4)) {
                case 0:
                    other(s, p.id);
                    break;
                case 1:
                    otherOpt(s, p.name);
                    break;
                case 2:
                    other(s, p.abbr);
                    break;
                case 3:
                    other(s, p.color);
                    break;
                default:
                    other(s, p.logo);
            }
            return "party";
        }
        case 7: {
            if (m.styles.empty())
                return "none";
            auto &p = m.styles[s.upto(m.styles.size() - 1)];
            switch (s.upto(3)) {
                case 0:
                    other(s, p.id);
                    break;
                case 1:
                    p.units.push_back("more");
                    break;
                case 2:
                    p.parties.push_back("more");
                    break;
                default:
                    other(s, p.image);
            }
            return "style";
        }
        case 8:
        case 9: {
            if (m.contests.empty())
                return "none";
            auto &c = m.contests[s.upto(m.contests.size() - 1)];
            switch (s.upto(8)) {
                case 0:
                    other(s, c.id);
                    break;
                case 1:
                    other(s, c.district);
                    break;
                case 2:
                    c.seq += 1 + s.upto(3);
                    break;
                case 3:
                    c.variation = static_cast<int>(s.upto(12));
                    break;
                case 4:
                    c.elected += 1 + s.upto(3);
                    break;
                case 5:
                    c.votesAllowed += 1 + s.upto(3);
                    break;
                case 6:
                    other(s, c.name);
                    break;
                case 7:
                    otherOpt(s, c.title);
                    break;
                default:
                    otherOpt(s, c.subtitle);
            }
            return "contest";
        }
        case 10: {
            if (m.contests.empty())
                return "none";
            auto &c = m.contests[s.upto(m.contests.size() - 1)];
            if (c.sels.empty() || s.chance(1, 4)) {
                c.sels.push_back({"new", "newc", 77});
                return "selection added";
            }
            if (s.chance(1, 4)) {
                drop(s, c.sels);
                return "selection removed";
            }
            if (s.chance(1, 4)) {
                swapTwo(s, c.sels);
                return "selections exchanged";
            }
            auto &x = c.sels[s.upto(c.sels.size() - 1)];
            switch (s.upto(2)) {
                case 0:
                    other(s, x.id);
                    break;
                case 1:
                    other(s, x.cand);
                    break;
                default:
                    x.seq += 1 + s.upto(3);
            }
            return "selection";
        }
        case 11:
            switch (s.upto(3)) {
                case 0:
                    drop(s, m.units);
                    break;
                case 1:
                    drop(s, m.parties);
                    break;
                case 2:
                    drop(s, m.contests);
                    break;
                default:
                    drop(s, m.styles);
            }
            return "part removed";
        default:
            switch (s.upto(3)) {
                case 0:
                    swapTwo(s, m.units);
                    break;
                case 1:
                    swapTwo(s, m.parties);
                    break;
                case 2:
                    swapTwo(s, m.contests);
                    break;
                default:
                    swapTwo(s, m.styles);
            }
            return "parts exchanged";
    }
}
static void changed(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.encryptable = false;
    Man m = genManifest(s, o), n = m;
    const char *w = vary(s, n);
    c.label(w);
    c << w << "\n" << dump(m) << "\n" << dump(n);
    bool expectChange = hash(m) != hash(n);
    if (expectChange)
        c.nt();
    auto a = lib(m)->crypto_hash(), b = lib(n)->crypto_hash();
    check((ref::of(a) != ref::of(b)) == expectChange,
          expectChange ? Str("changing the ") + w + " leaves the manifest hash unchanged"
                       : "an unchanged manifest has another hash");
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "M02";
    nulTexts = true;
    sp.subs = {
      {"parts", parts, 160000, 8000000,
       "every hashable part with arbitrary content, optional parts present or absent, every "
       "constructor; hash by value, by interface, of a copy and inside a list against the composition; "
       "all non-trivial"},
      {"whole", whole, 50000, 2000000,
       "whole manifests, in and out of sequence order; non-trivial: more than one unit or contest"},
      {"changed", changed, 60000, 2500000,
       "a manifest and one with one hashed field changed or a part added, removed or exchanged; "
       "non-trivial: the encodings of the two differ"}};
    sp.assumptions = {"SHA-256 of the reference is OpenSSL's",
                      "candidates, write-in flags and primary party lists are not hashed content"};
    return sp;
}
