// S02: manifests, contexts and devices through every serialization format.
#include "ser.hpp"

#include <algorithm>

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;

static Str hex(const ElementModQ *q) { return ref::of(*q).get_str(16); }

// every hash an election derives from a manifest
static Str hashes(const Manifest &m)
{
    Str r = hex(m.crypto_hash().get());
    for (auto &k : m.getContests()) {
        r += " " + hex(k.get().crypto_hash().get());
        for (auto &x : k.get().getSelections())
            r += "," + hex(x.get().crypto_hash().get());
    }
    return r;
}
static Str hashes(const InternalManifest &m)
{
    Str r = hex(m.getManifestHash());
    for (auto &k : m.getContests()) {
        r += " " + hex(k.get().crypto_hash().get());
        for (auto &x : k.get().getSelections())
            r += "," + hex(x.get().crypto_hash().get());
    }
    return r;
}

// not serialized and without an accessor
static Man comparable(Man m)
{
    for (auto &k : m.contests)
        k.primaryParties.clear();
    return m;
}

// a manifest under preparation: any of the lists may still be empty
static void thin(Src &s, Man &m)
{
    if (!s.chance(1, 10))
        return;
    if (s.boolean())
        m.units.clear();
    if (s.boolean())
        m.parties.clear();
    if (s.boolean())
        m.cands.clear();
    if (s.boolean())
        m.contests.clear();
    if (s.boolean())
        m.styles.clear();
}

// (not a valid one) parts that share their place in the order
static void tie(Src &s, Man &m)
{
    if (!s.chance(1, 8))
        return;
    for (size_t i = 1; i < m.contests.size(); i++)
        if (s.boolean())
            m.contests[i].seq = m.contests[s.upto(i - 1)].seq;
    for (auto &k : m.contests)
        for (size_t i = 1; i < k.sels.size(); i++)
            if (s.boolean())
                k.sels[i].seq = k.sels[s.upto(i - 1)].seq;
}

static void manifest(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.encryptable = false;
    o.maxSels = 5;
    Man m = genManifest(s, o);
    thin(s, m);
    tie(s, m);
    bool wild = s.chance(1, 6);
    if (wild)
        for (auto &k : m.contests) {
            k.elected = s.edgy64() >> 1;
            k.votesAllowed = s.edgy64() >> 1;
        }
    c << dump(m);
    auto l = lib(m);
    Str want = dump(comparable(sorted(m))), hash = gen::hash(m).get_str(16), all = hashes(*l);
    same(want, dump(comparable(of(*l))), "the manifest as built");
    check(hex(l->crypto_hash().get()) == hash, "the manifest hash as built");
    if (!isSorted(m))
        c.nt(), c.label("stored out of sequence order");
    if (m.contests.size() > 1)
        c.nt();
    Str doc = l->toJson();
    bool ok = l->isValid();
    for (size_t f = 0; f < 3; f++) {
        auto d = write(static_cast<const Manifest &>(*l), f);
        auto r = read<Manifest>(d, f);
        same(want, dump(comparable(of(*r))), Str("manifest through ") + formatName(f));
        check(hex(r->crypto_hash().get()) == hash,
              Str(formatName(f)) + ": the manifest hash changed");
        same(all, hashes(*r), Str(formatName(f)) + ": contest or selection hashes");
        check(r->isValid() == ok, Str(formatName(f)) + ": validity changed");
        check(write(static_cast<const Manifest &>(*r), f) == d && r->toJson() == doc,
              Str(formatName(f)) + ": serialized again differs");
        // the election derived from it is the same
        if (f == s.upto(2) && !wild) {
            InternalManifest a(*l), b(*r);
            same(dump(of(a)), dump(of(b)), "internal manifest of the manifest read back");
            same(hashes(a), hashes(b), "hashes of its internal manifest");
        }
    }
}

static void internalM(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.encryptable = false;
    o.minContests = 0;
    o.maxElected = 4;
    Man m = genManifest(s, o);
    Internal in = internal(m);
    c << dump(m);
    U<InternalManifest> l;
    if (s.boolean()) {
        l = std::make_unique<InternalManifest>(*lib(m));
        c.label("from a manifest");
    } else {
        if (s.chance(1, 2)) // any placeholders and any hash
            for (auto &k : in.contests) {
                if (s.boolean())
                    k.placeholders.clear();
                if (!k.placeholders.empty() && s.boolean())
                    k.placeholders[0].cand = genText(s);
            }
        if (s.boolean())
            in.hash = ref::genQ(s);
        l = lib(in);
        c.label("from parts");
    }
    Internal want = sorted(in);
    for (auto &k : want.contests)
        k.primaryParties.clear();
    auto view = [](const InternalManifest &i) {
        Internal x = of(i);
        for (auto &k : x.contests)
            k.primaryParties.clear();
        return dump(x);
    };
    same(dump(want), view(*l), "the internal manifest as built");
    if (!in.contests.empty())
        c.nt();
    Str doc = l->toJson(), all = hashes(*l);
    for (size_t f = 0; f < 3; f++) {
        auto d = write(static_cast<const InternalManifest &>(*l), f);
        auto r = read<InternalManifest>(d, f);
        same(dump(want), view(*r), Str("internal manifest through ") + formatName(f));
        same(all, hashes(*r), Str(formatName(f)) + ": hashes");
        check(write(static_cast<const InternalManifest &>(*r), f) == d && r->toJson() == doc,
              Str(formatName(f)) + ": serialized again differs");
        for (auto &st : m.styles) {
            Str a, b;
            for (auto &k : l->getContestsFor(st.id))
                a += k.get().getObjectId() + ";";
            for (auto &k : r->getContestsFor(st.id))
                b += k.get().getObjectId() + ";";
            same(a, b, Str(formatName(f)) + ": contests of a style");
        }
    }
}

static Str dumpContext(const CiphertextElectionContext &x)
{
    std::map<Str, Str> e;
    for (auto &kv : x.getExtendedData())
        e.insert(kv);
    std::ostringstream o;
    o << x.getNumberOfGuardians() << "/" << x.getQuorum() << " key "
      << ref::of(*x.getElGamalPublicKey()).get_str(16)
      << (x.getElGamalPublicKey()->isFixedBase() ? " fixed" : "") << " commitment "
      << hex(x.getCommitmentHash()) << " manifest " << hex(x.getManifestHash()) << " base "
      << hex(x.getCryptoBaseHash()) << " extended " << hex(x.getCryptoExtendedBaseHash())
      << " overvotes " << x.getConfiguration()->getAllowOverVotes() << " max "
      << x.getConfiguration()->getMaxNumberOfBallots();
    for (auto &kv : e)
        o << " " << show(kv.first, 200) << "=" << show(kv.second, 200);
    return o.str();
}

static void context(Ctx &c)
{
    auto &s = c.src;
    uint64_t n = genStamp(s), k = genStamp(s);
    Z K = s.boolean() ? ref::genP(s) : ref::gpow(ref::randExp(s));
    Z com = ref::genQ(s), man = ref::genQ(s), base = ref::genQ(s), ext = ref::genQ(s);
    bool over = s.boolean();
    uint64_t max = genStamp(s);
    std::unordered_map<Str, Str> data;
    for (size_t i = s.many(0, 3, 300, 100); i > 0; i--) {
        Str value = genText(s, 40), key = genText(s);
        key.erase(std::remove(key.begin(), key.end(), '\0'), key.end()); // not in BSON
        data[key] = value;
    }
    auto config = [&] { return std::make_unique<ContextConfiguration>(over, max); };
    U<CiphertextElectionContext> l;
    switch (s.upto(4)) {
        case 0:
            l = std::make_unique<CiphertextElectionContext>(
              n, k, ref::modP(K, true), ref::modQ(com), ref::modQ(man), ref::modQ(base),
              ref::modQ(ext), config(), data);
            break;
        case 1:
            l = std::make_unique<CiphertextElectionContext>(n, k, ref::modP(K, true),
                                                            ref::modQ(com), ref::modQ(man),
                                                            ref::modQ(base), ref::modQ(ext));
            break;
        case 2:
            l = CiphertextElectionContext::make(n, k, ref::modP(K), ref::modQ(com), ref::modQ(man),
                                                config(), data);
            break;
        case 3:
            l = CiphertextElectionContext::make(n, k, ref::modP(K), ref::modQ(com), ref::modQ(man),
                                                data);
            break;
        default:
            l = CiphertextElectionContext::make(n, k, ref::modP(K), ref::modQ(com), ref::modQ(man),
                                                config());
    }
    Str want = dumpContext(*l), doc = l->toJson();
    c << want;
    if (!l->getExtendedData().empty())
        c.nt(), c.label("extended data");
    if (!l->getConfiguration()->getAllowOverVotes())
        c.nt(), c.label("no overvotes");
    for (size_t f = 0; f < 2; f++) {
        auto d = write2(*l, f);
        auto r = read2<CiphertextElectionContext>(d, f);
        same(want, dumpContext(*r), Str("context through ") + formatName(f));
        check(r->toJson() == doc && write2(*r, f) == d,
              Str(formatName(f)) + ": serialized again differs");
    }
}

static void device(Ctx &c)
{
    auto &s = c.src;
    uint64_t a = genStamp(s), b = genStamp(s), k = genStamp(s);
    Str loc = genText(s, 40);
    EncryptionDevice l(a, b, k, loc);
    c << a << " " << b << " " << k << " " << show(loc);
    if (a > 0 || b > 0)
        c.nt();
    Z want = deviceHash(a, b, k, loc);
    check(ref::of(*l.getHash()) == want, "device hash as built");
    Str doc = l.toJson();
    for (size_t f = 0; f < 2; f++) {
        auto d = write2(l, f);
        auto r = read2<EncryptionDevice>(d, f);
        check(ref::of(*r->getHash()) == want, Str(formatName(f)) + ": device hash changed");
        check(r->getDeviceUuid() == a && r->getSessionUuid() == b && r->getLaunchCode() == k &&
                r->getLocation() == loc,
              Str(formatName(f)) + ": device data changed");
        check(r->toJson() == doc && write2(*r, f) == d,
              Str(formatName(f)) + ": serialized again differs");
    }
}

Spec pbt::spec()
{
    Spec p;
    p.property = "S02";
    nulTexts = true;
    p.subs = {
      {"manifest", manifest, 12000, 400000,
       "generated manifests with every optional part present or absent, stored in any order; "
       "non-trivial: several contests or stored out of sequence order"},
      {"internal", internalM, 12000, 400000,
       "internal manifests derived from manifests or built from parts; non-trivial: with contests"},
      {"context", context, 15000, 400000,
       "contexts with arbitrary hashes, keys, configuration and extended data; non-trivial: with "
       "extended data or overvotes disallowed"},
      {"device", device, 20000, 400000,
       "devices with arbitrary identifiers and location; non-trivial: non-zero identifiers"},
    };
    p.assumptions = {"texts are valid UTF-8 without NUL characters",
                     "numbers are below 2^63, the range every format can represent",
                     "dates are whole seconds, the resolution of the documents",
                     "primary party identifiers have no accessor and are not compared"};
    return p;
}
