// S04: malformed documents, under AddressSanitizer and UBSan.
#include "electionguard/ballot_compact.hpp"
#include "ser.hpp"

#include <nlohmann/json.hpp>

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;
using nlohmann::json;
using Bytes = Vec<uint8_t>;

enum Kind { Plain, Cipher, Submitted, CompactPlain, CompactCipher, Mani, Intern, Context, Device };
static const char *kindName[] = {"PlaintextBallot",         "CiphertextBallot",
                                 "SubmittedBallot",         "CompactPlaintextBallot",
                                 "CompactCiphertextBallot", "Manifest",
                                 "InternalManifest",        "CiphertextElectionContext",
                                 "EncryptionDevice"};
static size_t formats(size_t kind) { return kind >= Context ? 2 : 3; }

// ------------------------------------------------- valid documents to start from
static json genDoc(Src &s, size_t kind)
{
    AnyOpts o;
    o.maxContests = 2;
    o.maxSels = 2;
    o.nonces = s.boolean();
    const uint64_t big = UINT64_MAX >> 1;
    switch (kind) {
        case Plain:
            return json::parse(lib(genAnyPlaintext(s, big))->toJson());
        case Cipher:
            return json::parse(lib(genAnyCiphertext(s, o))->toJson(s.boolean()));
        case Submitted:
            return json::parse(
              lib(genAnyCiphertext(s, o), s.boolean() ? 1 : 2)->toJson());
        case CompactPlain:
            return json::parse(libPlain(genAnyCompact(s, big))->toJson());
        case CompactCipher:
            return json::parse(lib(genAnyCompact(s, big))->toJson());
        case Mani: {
            ManOpts m;
            m.maxContests = 2;
            m.maxStyles = 2;
            return json::parse(lib(genManifest(s, m))->toJson());
        }
        case Intern: {
            ManOpts m;
            m.maxContests = 2;
            m.maxStyles = 2;
            return json::parse(lib(internal(genManifest(s, m)))->toJson());
        }
        case Context: {
            json j = {{"crypto_base_hash", ref::hex(ref::genQ(s))},
                      {"crypto_extended_base_hash", ref::hex(ref::genQ(s))},
                      {"commitment_hash", ref::hex(ref::genQ(s))},
                      {"manifest_hash", ref::hex(ref::genQ(s))},
                      {"elgamal_public_key", ref::hex(ref::genP(s))},
                      {"number_of_guardians", s.upto(5)},
                      {"quorum", s.upto(5)}};
            if (s.boolean())
                j["configuration"] = {{"allow_overvotes", s.boolean()}, {"max_votes", s.upto(9)}};
            if (s.boolean())
                j["extended_data"] = {{"a", "b"}};
            return j;
        }
        default:
            return {{"device_id", s.edgy64() >> 1},
                    {"session_id", s.upto(9)},
                    {"launch_code", s.upto(9)},
                    {"location", genText(s)}};
    }
}

// --------------------------------------------------------------- mutations
static Str genOddText(Src &s)
{
    switch (s.pick({3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 2})) {
        case 0:
            return "";
        case 1: { // hexadecimal digits of any length around the sizes that matter
            static const std::vector<size_t> lens = {1,  2,  15,  16,   17,   63,   64,  65,
                                                     66, 80, 127, 1023, 1024, 1025, 1026, 3000};
            Str t;
            Str digits = s.boolean() ? "F" : "0123456789ABCDEFabcdef";
            for (size_t n = s.of(lens); n > 0; n--)
                t += digits[s.upto(digits.size() - 1)];
            return t;
        }
        case 2:
            return Str(s.of(std::vector<size_t>{1, 2, 7, 64, 65, 1024, 2000}), '0');
        case 3: { // almost hexadecimal
            Str t = "0A1B";
            t.insert(s.upto(4), 1, s.of(std::vector<char>{'G', ' ', '-', '+', 'x', '\n', '\0', '.'}));
            return t;
        }
        case 4:
            return ref::hex(s.boolean() ? ref::PP() : ref::QQ());
        case 5: { // dates
            static const std::vector<Str> d = {"2020-03-01T08:00:00-05:00", "2020-13-45T99:99:99Z",
                                               "0000-00-00T00:00:00Z",      "9999-12-31T23:59:59Z",
                                               "2020-03-01",                "1970-01-01T00:00:00Z",
                                               "-2020-03-01T00:00:00Z",     "99999999999999-1-1T0:0:0Z",
                                               "2020-02-30T25:61:61Z"};
            return s.of(d);
        }
        case 6: { // names of enumeration values and near misses
            static const std::vector<Str> n = {"unknown", "general", "n_of_m", "one_of_m",
                                               "country", "Unknown", "other",  "borda"};
            return s.of(n);
        }
        case 7:
            return genText(s);
        case 8: { // bytes that are not UTF-8
            auto b = s.bytes(s.range(1, 6));
            return Str(b.begin(), b.end());
        }
        case 9:
            return Str(s.range(1, 40000), 'a');
        default:
            return std::to_string(s.edgy64());
    }
}
static json genOdd(Src &s, int depth)
{
    switch (s.pick({3, 2, 3, 3, 2, 6, 2, 2, depth > 0 ? 2u : 0u, depth > 0 ? 2u : 0u})) {
        case 0:
            return nullptr;
        case 1:
            return s.boolean();
        case 2:
            return s.edgy64();
        case 3:
            return -static_cast<int64_t>(s.edgy64() >> 1);
        case 4: {
            static const std::vector<double> d = {0.5,   -1.5,  1e18, 1e19, -1e19,
                                                  1e300, 1e-300, INFINITY, NAN, 4294967296.5};
            return s.of(d);
        }
        case 5:
            return genOddText(s);
        case 6:
            return json::array();
        case 7:
            return json::object();
        case 8: {
            json a = json::array();
            for (size_t n = s.range(1, 3); n > 0; n--)
                a.push_back(genOdd(s, depth - 1));
            return a;
        }
        default: {
            json a = json::object();
            static const std::vector<Str> k = {"object_id", "pad",   "data",  "text", "value",
                                               "contests",  "proof", "nonce", "",     "name"};
            for (size_t n = s.range(1, 3); n > 0; n--)
                a[s.of(k)] = genOdd(s, depth - 1);
            return a;
        }
    }
}
// the nodes of a document and the way to them, parents first
static void walk(json &j, Vec<json *> &all, Vec<json *> &parents, json *parent)
{
    all.push_back(&j);
    parents.push_back(parent);
    if (j.is_structured())
        for (auto &x : j)
            walk(x, all, parents, &j);
}
static Str mutate(Src &s, json &doc)
{
    Vec<json *> all, parents;
    walk(doc, all, parents, nullptr);
    size_t i = s.upto(all.size() - 1);
    json &n = *all[i];
    switch (s.pick({5, 4, 2, 2, 2, 2, 2, 2, 1})) {
        case 0: // another value
            n = genOdd(s, 2);
            return "replaced a value";
        case 1: // a member or element goes missing
            if (n.is_object() && !n.empty()) {
                auto it = n.begin();
                std::advance(it, s.upto(n.size() - 1));
                Str k = it.key();
                n.erase(it);
                return "removed " + k;
            }
            if (n.is_array() && !n.empty()) {
                n.erase(n.begin() + static_cast<long>(s.upto(n.size() - 1)));
                return "removed an element";
            }
            n = nullptr;
            return "nulled a value";
        case 2: // an element again
            if (n.is_array() && !n.empty()) {
                json x = n[s.upto(n.size() - 1)];
                for (size_t k = s.range(1, 3); k > 0; k--)
                    n.push_back(x);
                return "repeated an element";
            }
            n = json::array({n, n});
            return "made an array of a value";
        case 3: // an object in place of an array and the other way round
            if (n.is_array()) {
                json o = json::object();
                for (size_t k = 0; k < n.size(); k++)
                    o["k" + std::to_string(k)] = n[k];
                n = o;
                return "made an object of an array";
            }
            if (n.is_object()) {
                json a = json::array();
                for (auto &x : n)
                    a.push_back(x);
                n = a;
                return "made an array of an object";
            }
            n = json{{"value", n}};
            return "wrapped a value";
        case 4: { // a value from elsewhere in the document
            json x = *all[s.upto(all.size() - 1)];
            n = x;
            return "copied a value";
        }
        case 5: // text edits
            if (n.is_string()) {
                Str t = n.get<Str>();
                switch (s.upto(4)) {
                    case 0:
                        t += t;
                        break;
                    case 1:
                        t = t.substr(0, s.upto(t.size()));
                        break;
                    case 2:
                        t.insert(s.upto(t.size()), genOddText(s));
                        break;
                    case 3:
                        t = "0" + t;
                        break;
                    default:
                        if (!t.empty())
                            t[s.upto(t.size() - 1)] = static_cast<char>(s.upto(255));
                }
                n = t;
                return "edited a text";
            }
            n = genOddText(s);
            return "made a text of a value";
        case 6: // numbers
            n = s.edgy64();
            return "made a number of a value";
        case 7:
            if (n.is_object()) {
                n[genOddText(s)] = genOdd(s, 1);
                return "added a member";
            }
            if (n.is_array()) {
                n.push_back(genOdd(s, 2));
                return "added an element";
            }
            n = genOdd(s, 1);
            return "replaced a value";
        default: { // move a member to another name
            if (n.is_object() && n.size() > 1) {
                auto a = n.begin(), b = n.begin();
                std::advance(a, s.upto(n.size() - 1));
                std::advance(b, s.upto(n.size() - 1));
                json x = *a;
                *a = *b;
                *b = x;
                return "exchanged two members";
            }
            n = nullptr;
            return "nulled a value";
        }
    }
}
// keeps the kinds of the values, so that most documents get past the first checks
static Str mutateGently(Src &s, json &doc)
{
    Vec<json *> all, parents;
    walk(doc, all, parents, nullptr);
    json &n = *all[s.upto(all.size() - 1)];
    if (n.is_string()) {
        Str t = n.get<Str>();
        bool hex = !t.empty() && t.find_first_not_of("0123456789ABCDEF") == Str::npos;
        if (hex && s.chance(4, 5)) {
            switch (s.upto(4)) {
                case 0:
                    n = "00" + t;
                    break;
                case 1:
                    n = t.substr(t.size() / 2);
                    break;
                case 2:
                    n = ref::hex(s.boolean() ? Z(ref::PP() - s.upto(1)) : Z(ref::QQ() - s.upto(1)));
                    break;
                case 3:
                    n = ref::hex(s.edgy64());
                    break;
                default:
                    for (auto &ch : t)
                        ch = static_cast<char>(tolower(ch));
                    n = t;
            }
            return "another hexadecimal text";
        }
        n = genOddText(s);
        return "another text";
    }
    if (n.is_number()) {
        n = s.boolean() ? s.edgy64() >> 1 : s.upto(3);
        return "another number";
    }
    if (n.is_array()) {
        if (!n.empty() && s.boolean())
            n.erase(n.begin() + static_cast<long>(s.upto(n.size() - 1)));
        else if (!n.empty())
            n.push_back(n[s.upto(n.size() - 1)]);
        return "more or fewer elements";
    }
    if (n.is_object() && !n.empty()) {
        // the optional members
        static const std::vector<Str> k = {"nonce",        "extended_data", "contact_information",
                                           "name",         "write_in",      "votes_allowed",
                                           "ballot_title", "party_id",      "configuration",
                                           "text",         "email",         "address_line"};
        for (size_t i = 0; i < 3; i++) {
            auto it = n.find(s.of(k));
            if (it != n.end()) {
                if (s.boolean())
                    n.erase(it);
                else
                    *it = nullptr;
                break;
            }
        }
        return "an optional member missing";
    }
    n = s.boolean() ? json(s.boolean()) : json(nullptr);
    return "another value";
}
static Opt<Bytes> encode(const json &j, size_t f)
{
    try {
        if (f == 0) {
            Str t = j.dump(-1, ' ', false, json::error_handler_t::ignore);
            return Bytes(t.begin(), t.end());
        }
        if (f == 1)
            return json::to_bson(j);
        return json::to_msgpack(j);
    } catch (const json::exception &) {
        return std::nullopt; // the format cannot express it
    }
}

// ---------------------------------------------------- using what was accepted
template <typename F> static bool guarded(F f)
{
    try {
        f();
        return true;
    } catch (const Fail &) {
        throw;
    } catch (const std::exception &) {
        return false;
    }
}
// what was read can be written, and reading that back changes nothing more
template <typename T, typename W, typename R> static void stable(const T &t, W w, R r, size_t nf)
{
    for (size_t f = 0; f < nf; f++) {
        Opt<Bytes> d;
        guarded([&] { d = w(t, f); });
        if (!d)
            continue;
        U<T> again;
        bool ok = guarded([&] { again = r(*d, f); });
        check(ok, Str("the library refuses the ") + formatName(f) +
                    " document it wrote of an accepted object");
        check(w(*again, f) == *d, Str(formatName(f)) + ": what was accepted changes when it is "
                                                        "written and read back");
    }
}
static void useContest(const ContestDescription &k)
{
    k.crypto_hash();
    k.isValid();
    for (auto &x : k.getSelections())
        x.get().crypto_hash();
}
static void use(Src &s, PlaintextBallot &b)
{
    stable(
      b, [](auto &t, size_t f) { return write(t, f); },
      [](auto &d, size_t f) { return read<PlaintextBallot>(d, f); }, 3);
    Ballot m = of(b);
    for (auto &k : b.getContests()) {
        guarded([&] { k.get().isValid(k.get().getObjectId(), 2, 1, 1); });
        for (auto &x : k.get().getSelections())
            guarded([&] { x.get().isValid(m.id); });
    }
    auto plain = CompactPlaintextBallot::make(b);
    check(plain->getObjectId() == m.id, "compact form");
    (void)s;
}
static void useCipher(Src &s, CiphertextBallot &b)
{
    CBallot m = of(b);
    check(m.contests.size() == b.getContests().size(), "contests");
    auto one = ref::modQ(1);
    auto key = ref::modP(s.boolean() ? ref::gpow(3) : Z(0));
    guarded([&] {
        b.isValidEncryption(s.boolean() ? *b.getManifestHash() : *one, *key, *one);
    });
    guarded([&] { b.crypto_hash_with(*one); });
    guarded([&] { b.nonceSeed(); });
    for (auto &k : b.getContests()) {
        guarded([&] { k.get().crypto_hash_with(*one); });
        guarded([&] { k.get().aggregateNonce(); });
        guarded([&] { k.get().elgamalAccumulate(); });
        if (auto e = k.get().getHashedElGamalCiphertext())
            guarded([&] { e->crypto_hash(); });
        if (auto e = k.get().getHashedElGamalCiphertext())
            guarded([&] { e->decrypt(*one, *one, s.boolean()); });
        for (auto &x : k.get().getSelections())
            guarded([&] { x.get().crypto_hash_with(*one); });
    }
    guarded([&] { SubmittedBallot::from(b, BallotBoxState::cast); });
}
static void use(Src &s, CiphertextBallot &b)
{
    bool n = s.boolean();
    stable(
      b, [n](auto &t, size_t f) { return write(t, f, n); },
      [](auto &d, size_t f) { return read<CiphertextBallot>(d, f); }, 3);
    useCipher(s, b);
}
static void use(Src &s, SubmittedBallot &b)
{
    stable(
      b, [](auto &t, size_t f) { return write(t, f); },
      [](auto &d, size_t f) { return read<SubmittedBallot>(d, f); }, 3);
    useCipher(s, b);
}
static const InternalManifest &someManifest()
{
    static auto *im = [] {
        Man m;
        m.scope = "s";
        m.units.push_back({"u", "u", 0, {}});
        m.cands.push_back({"c1", {}, "", "", false});
        m.cands.push_back({"c2", {}, "", "", false});
        Contest k;
        k.id = "k";
        k.district = "u";
        k.name = "k";
        k.sels = {{"a", "c1", 0}, {"b", "c2", 1}};
        m.contests.push_back(k);
        m.styles.push_back({"", {"u"}, {}, ""});
        return new InternalManifest(*lib(m));
    }();
    return *im;
}
static void use(Src &, CompactPlaintextBallot &b)
{
    stable(
      b, [](auto &t, size_t f) { return write(t, f); },
      [](auto &d, size_t f) { return read<CompactPlaintextBallot>(d, f); }, 3);
    guarded([&] { expandCompactPlaintextBallot(b, someManifest()); });
}
static void use(Src &, CompactCiphertextBallot &b)
{
    stable(
      b, [](auto &t, size_t f) { return write(t, f); },
      [](auto &d, size_t f) { return read<CompactCiphertextBallot>(d, f); }, 3);
    guarded([&] { expandCompactPlaintextBallot(*b.getPlaintext(), someManifest()); });
    b.getBallotBoxState();
}
static void use(Src &s, Manifest &m)
{
    stable(
      m, [](const Manifest &t, size_t f) { return write(t, f); },
      [](auto &d, size_t f) { return read<Manifest>(d, f); }, 3);
    bool valid = false;
    guarded([&] { valid = m.isValid(); });
    guarded([&] { m.crypto_hash(); });
    uint64_t elected = 0;
    for (auto &k : m.getContests()) {
        guarded([&] { useContest(k); });
        elected = std::max(elected, k.get().getNumberElected());
    }
    for (auto &x : m.getCandidates())
        guarded([&] { x.get().crypto_hash(); });
    for (auto &x : m.getParties())
        guarded([&] { x.get().crypto_hash(); });
    for (auto &x : m.getGeopoliticalUnits())
        guarded([&] { x.get().crypto_hash(); });
    for (auto &x : m.getBallotStyles())
        guarded([&] { x.get().crypto_hash(); });
    if (elected < 50)
        guarded([&] {
            InternalManifest im(m);
            check(im.getContests().size() == m.getContests().size(), "internal manifest");
        });
    (void)s;
    (void)valid;
}
static void use(Src &s, InternalManifest &m)
{
    stable(
      m, [](const InternalManifest &t, size_t f) { return write(t, f); },
      [](auto &d, size_t f) { return read<InternalManifest>(d, f); }, 3);
    for (auto &k : m.getContests()) {
        guarded([&] { useContest(k); });
        for (auto &x : k.get().getPlaceholders())
            guarded([&] { x.get().crypto_hash(); });
    }
    for (auto &st : m.getBallotStyles()) {
        Str id = st.get().getObjectId();
        guarded([&] { m.getContestsFor(id); });
        guarded([&] { m.getBallotStyle(id); });
        // a ballot of that style
        guarded([&] {
            PlaintextBallot empty("b", id, {});
            expandCompactPlaintextBallot(*CompactPlaintextBallot::make(empty), m);
        });
        CompactM votes;
        votes.id = "b";
        votes.style = id;
        votes.votes.resize(s.upto(4), 1);
        guarded([&] { expandCompactPlaintextBallot(*libPlain(votes), m); });
    }
}
static void use(Src &, CiphertextElectionContext &x)
{
    stable(
      x, [](auto &t, size_t f) { return write2(t, f); },
      [](auto &d, size_t f) { return read2<CiphertextElectionContext>(d, f); }, 2);
}
static void use(Src &, EncryptionDevice &x)
{
    stable(
      x, [](auto &t, size_t f) { return write2(t, f); },
      [](auto &d, size_t f) { return read2<EncryptionDevice>(d, f); }, 2);
    x.getHash();
}
template <typename T> static Str text(T &t)
{
    if constexpr (std::is_same_v<T, CiphertextBallot>)
        return t.toJson(true);
    else
        return t.toJson();
}
template <typename T, typename R> static bool feedTo(Src &s, R r)
{
    U<T> t;
    if (!guarded([&] { t = r(); }))
        return false;
    check(t != nullptr, "the parser returned nothing");
    Opt<Str> a, b; // the same document gives the same object
    guarded([&] { a = text(*t); });
    guarded([&] { b = text(*r()); });
    check(a == b, "reading the document again gives another object");
    use(s, *t);
    return true;
}
// true when the document was accepted
static bool feed(Src &s, size_t kind, const Bytes &d, size_t f)
{
    try {
        switch (kind) {
            case Plain:
                return feedTo<PlaintextBallot>(s, [&] { return read<PlaintextBallot>(d, f); });
            case Cipher:
                return feedTo<CiphertextBallot>(s, [&] { return read<CiphertextBallot>(d, f); });
            case Submitted:
                return feedTo<SubmittedBallot>(s, [&] { return read<SubmittedBallot>(d, f); });
            case CompactPlain:
                return feedTo<CompactPlaintextBallot>(
                  s, [&] { return read<CompactPlaintextBallot>(d, f); });
            case CompactCipher:
                return feedTo<CompactCiphertextBallot>(
                  s, [&] { return read<CompactCiphertextBallot>(d, f); });
            case Mani:
                return feedTo<Manifest>(s, [&] { return read<Manifest>(d, f); });
            case Intern:
                return feedTo<InternalManifest>(s, [&] { return read<InternalManifest>(d, f); });
            case Context:
                return feedTo<CiphertextElectionContext>(
                  s, [&] { return read2<CiphertextElectionContext>(d, f); });
            default:
                return feedTo<EncryptionDevice>(s, [&] { return read2<EncryptionDevice>(d, f); });
        }
    } catch (const Fail &) {
        throw;
    } catch (const Discard &) {
        throw;
    } catch (const std::exception &e) {
        fail(Str("exception from an accepted object: ") + e.what());
    } catch (...) {
        fail("something that is not an exception object was thrown");
    }
}
static Str shorten(const json &j)
{
    Str t = j.dump(-1, ' ', true, json::error_handler_t::replace);
    return t.size() > 3000 ? t.substr(0, 3000) + "..." : t;
}

static void structure(Ctx &c)
{
    auto &s = c.src;
    size_t kind = s.upto(Device), f = s.upto(formats(kind) - 1);
    json doc = genDoc(s, kind);
    c << kindName[kind] << " in " << formatName(f) << ": ";
    bool gentle = s.chance(3, 5);
    for (size_t n = s.range(1, 3); n > 0; n--)
        c << (gentle ? mutateGently(s, doc) : mutate(s, doc)) << ", ";
    c << "giving " << shorten(doc);
    auto d = encode(doc, f);
    if (!d) {
        f = formats(kind) == 3 ? 2 : 0;
        d = encode(doc, f);
        if (!d)
            discard();
    }
    bool ok = feed(s, kind, *d, f);
    c.nt();
    c.label(Str(kindName[kind]) + (ok ? " accepted" : " refused"));
}

static void bytes(Ctx &c)
{
    auto &s = c.src;
    size_t kind = s.upto(Device), f = s.upto(formats(kind) - 1);
    Bytes d;
    c << kindName[kind] << " in " << formatName(f) << ": ";
    if (s.chance(1, 12)) {
        d = s.bytes(s.range(0, 40));
        c << "random bytes";
    } else {
        Opt<Bytes> e = encode(genDoc(s, kind), f);
        if (!e)
            discard();
        d = *e;
        for (size_t n = s.range(1, 4); n > 0; n--) {
            size_t at = d.empty() ? 0 : s.upto(d.size() - 1);
            switch (s.pick({4, 2, 2, 2, 2, 1, 2})) {
                case 0:
                    if (!d.empty())
                        d[at] ^= static_cast<uint8_t>(1u << s.upto(7));
                    break;
                case 1:
                    if (!d.empty())
                        d[at] = static_cast<uint8_t>(s.upto(255));
                    break;
                case 2:
                    d.resize(at);
                    break;
                case 3: {
                    auto x = s.bytes(s.range(1, 5));
                    d.insert(d.begin() + static_cast<long>(at), x.begin(), x.end());
                    break;
                }
                case 4: {
                    size_t len = std::min<size_t>(s.range(1, 30), d.size() - at);
                    d.erase(d.begin() + static_cast<long>(at),
                            d.begin() + static_cast<long>(at + len));
                    break;
                }
                case 5: { // a block again
                    size_t len = std::min<size_t>(s.range(1, 200), d.size() - at);
                    Bytes x(d.begin() + static_cast<long>(at),
                            d.begin() + static_cast<long>(at + len));
                    d.insert(d.begin() + static_cast<long>(at), x.begin(), x.end());
                    break;
                }
                default: // a length or type byte at its limits
                    for (size_t k = at; k < d.size() && k < at + 4; k++)
                        d[k] = s.boolean() ? 0xff : 0x7f;
            }
        }
        c << d.size() << " bytes " << hexOf(Bytes(d.begin(), d.begin() + std::min<long>(
                                                                  300, static_cast<long>(d.size()))));
    }
    bool ok = feed(s, kind, d, f);
    c.nt();
    c.label(Str(kindName[kind]) + (ok ? " accepted" : " refused"));
}

// deep documents: each level costs the sender a byte or two
static void deep(Ctx &c)
{
    auto &s = c.src;
    size_t kind = s.upto(Device), f = s.upto(formats(kind) - 1);
    size_t depth = s.range(1, s.boolean() ? 300 : 300000);
    bool objects = s.boolean();
    json doc = genDoc(s, kind);
    Bytes d;
    c << kindName[kind] << " in " << formatName(f) << " with " << depth << " levels of "
      << (objects ? "objects" : "arrays");
    Str member = doc.begin().key();
    {
        auto it = doc.begin();
        std::advance(it, s.upto(doc.size() - 1));
        member = it.key();
    }
    c << " in " << member;
    if (f == 0) {
        doc[member] = "@@";
        Str t = doc.dump(), in;
        for (size_t i = 0; i < depth; i++)
            in += objects ? "{\"a\":" : "[";
        in += "1";
        in += Str(depth, objects ? '}' : ']');
        t.replace(t.find("\"@@\""), 4, in);
        d.assign(t.begin(), t.end());
    } else if (f == 2) {
        doc[member] = "@@";
        d = json::to_msgpack(doc);
        Bytes mark = {0xa2, '@', '@'}, in;
        for (size_t i = 0; i < depth; i++) {
            if (objects) {
                in.push_back(0x81);
                in.push_back(0xa1);
                in.push_back('a');
            } else
                in.push_back(0x91);
        }
        in.push_back(1);
        auto it = std::search(d.begin(), d.end(), mark.begin(), mark.end());
        it = d.erase(it, it + 3);
        d.insert(it, in.begin(), in.end());
    } else {
        // BSON does not check its lengths before it has read the content
        Bytes head = {0xff, 0xff, 0xff, 0x7f};
        for (size_t i = 0; i < depth; i++) {
            d.insert(d.end(), head.begin(), head.end());
            d.push_back(objects ? 3 : 4);
            d.push_back(objects ? 'a' : '0');
            d.push_back(0);
        }
        d.insert(d.end(), {5, 0, 0, 0, 0});
        d.insert(d.end(), depth, 0);
    }
    bool ok = feed(s, kind, d, f);
    c.nt();
    c.label(Str(ok ? "accepted" : "refused") + (depth > 10000 ? " very deep" : ""));
}

// the dates of a manifest: what is not a date is refused, what is one is understood
static void dates(Ctx &c)
{
    auto &s = c.src;
    json doc = genDoc(s, Mani);
    static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    Str text[2];
    Opt<int64_t> want[2];
    for (int i = 0; i < 2; i++) {
        int64_t y = static_cast<int64_t>(s.range(1900, 2200)), mo = static_cast<int64_t>(s.range(1, 12)),
                d = static_cast<int64_t>(s.range(1, static_cast<uint64_t>(days[mo - 1]))),
                h = static_cast<int64_t>(s.upto(23)), mi = static_cast<int64_t>(s.upto(59)),
                se = static_cast<int64_t>(s.upto(59)), oh = 0, om = 0;
        bool offset = s.boolean(), minus = false, bad = s.chance(1, 3);
        if (offset) {
            oh = static_cast<int64_t>(s.upto(12));
            om = static_cast<int64_t>(s.of(std::vector<int>{0, 30, 45}));
            minus = s.boolean();
        }
        size_t how = bad ? s.upto(6) : 99;
        if (how == 0)
            mo = 13 + static_cast<int64_t>(s.upto(20));
        if (how == 1)
            d = 32 + static_cast<int64_t>(s.upto(60));
        if (how == 2)
            y = static_cast<int64_t>(s.boolean() ? s.range(2263, 9999) : s.range(1000, 1676));
        if (how == 3)
            h = 60 + static_cast<int64_t>(s.upto(30));
        char buf[100];
        snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:%02d", static_cast<int>(y),
                 static_cast<int>(mo), static_cast<int>(d), static_cast<int>(h),
                 static_cast<int>(mi), static_cast<int>(se));
        text[i] = buf;
        if (offset) {
            snprintf(buf, sizeof buf, "%c%02d:%02d", minus ? '-' : '+', static_cast<int>(oh),
                     static_cast<int>(om));
            text[i] += buf;
        } else
            text[i] += "Z";
        if (how == 4)
            text[i] = text[i].substr(0, s.upto(18));
        if (how == 5)
            text[i] = s.of(std::vector<Str>{"", "today", "T", "-", "Z", "2020", "null"});
        if (how == 6)
            text[i][s.upto(18)] = 'x';
        if (!bad) {
            // days since 1970-01-01 in the proleptic Gregorian calendar
            int64_t yy = y - (mo <= 2), era = yy / 400, yoe = yy - era * 400,
                    doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1,
                    doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
            want[i] = (era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + se -
                      (minus ? -1 : 1) * (oh * 3600 + om * 60);
        }
    }
    doc["start_date"] = text[0];
    doc["end_date"] = text[1];
    size_t f = s.upto(2);
    c << "start " << text[0] << " end " << text[1] << " in " << formatName(f);
    c.nt();
    auto d = encode(doc, f);
    if (!d)
        discard();
    U<Manifest> m;
    bool ok = guarded([&] { m = read<Manifest>(*d, f); });
    c.label(ok ? "accepted" : "refused");
    if (want[0] && want[1]) {
        check(ok, "a manifest with valid dates is refused");
        auto secs = [](std::chrono::system_clock::time_point t) {
            return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count();
        };
        check(secs(m->getStartDate()) == *want[0], "the start date is another one");
        check(secs(m->getEndDate()) == *want[1], "the end date is another one");
        use(s, *m);
    } else
        check(!ok, "a manifest with an impossible date is accepted");
}

Spec pbt::spec()
{
    Spec p;
    p.property = "S04";
    p.subs = {
      {"structure", structure, 30000, 1000000,
       "valid documents of nine types in three formats with 1 to 3 structural mutations; every "
       "case is non-trivial",
       false, 60},
      {"bytes", bytes, 30000, 1000000,
       "valid documents with 1 to 4 byte level mutations, and random bytes; every case is "
       "non-trivial",
       false, 60},
      {"deep", deep, 400, 10000,
       "documents with up to 300000 nested arrays or objects in one member; every case is "
       "non-trivial",
       false, 60},
      {"dates", dates, 3000, 100000,
       "manifests whose dates are valid in either notation or impossible; every case is "
       "non-trivial",
       false, 60},
    };
    return p;
}
