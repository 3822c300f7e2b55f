// X01: the election context.
#include "ser.hpp"

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;

struct In {
    uint64_t n = 0, k = 0;
    Z K, com, man;
    bool over = true;
    uint64_t max = DEFAULT_MAX_BALLOTS;
    std::unordered_map<Str, Str> data;
};
static In gen1(Src &s)
{
    In i;
    i.n = s.chance(1, 2) ? s.range(1, 9) : s.edgy64();
    i.k = s.chance(1, 2) ? s.range(1, 9) : s.edgy64();
    i.K = s.chance(1, 2) ? ref::genP(s) : ref::gpow(ref::randExp(s));
    i.com = ref::genQ(s);
    i.man = ref::genQ(s);
    i.over = s.boolean();
    i.max = s.edgy64();
    for (size_t j = s.many(0, 3, 300, 100); j > 0; j--)
        i.data[genText(s)] = genText(s, 20);
    return i;
}
static U<CiphertextElectionContext> make1(const In &i, size_t route)
{
    auto cfg = [&] { return ContextConfiguration::make(i.over, i.max); };
    auto K = [&] { return ref::modP(i.K); };
    auto q = [](const Z &z) { return ref::modQ(z); };
    using C = CiphertextElectionContext;
    Str hk = ref::hex(i.K), hc = ref::hex(i.com), hm = ref::hex(i.man);
    switch (route) {
        case 0:
            return C::make(i.n, i.k, K(), q(i.com), q(i.man));
        case 1:
            return C::make(i.n, i.k, K(), q(i.com), q(i.man), cfg());
        case 2:
            return C::make(i.n, i.k, K(), q(i.com), q(i.man), i.data);
        case 3:
            return C::make(i.n, i.k, K(), q(i.com), q(i.man), cfg(), i.data);
        case 4:
            return C::make(i.n, i.k, hk, hc, hm);
        case 5:
            return C::make(i.n, i.k, hk, hc, hm, cfg());
        case 6:
            return C::make(i.n, i.k, hk, hc, hm, i.data);
        default:
            return C::make(i.n, i.k, hk, hc, hm, cfg(), i.data);
    }
}

static void against(const CiphertextElectionContext &x, const In &i, const Z &base, const Z &ext,
                    bool config, bool data, const Str &how)
{
    check(x.getNumberOfGuardians() == i.n, how + "number of guardians");
    check(x.getQuorum() == i.k, how + "quorum");
    check(ref::of(*x.getElGamalPublicKey()) == i.K, how + "public key");
    check(ref::of(*x.getCommitmentHash()) == i.com, how + "commitment hash");
    check(ref::of(*x.getManifestHash()) == i.man, how + "manifest hash");
    check(ref::of(*x.getCryptoBaseHash()) == base, how + "base hash");
    check(ref::of(*x.getCryptoExtendedBaseHash()) == ext, how + "extended base hash");
    check(x.getConfiguration() != nullptr, how + "configuration missing");
    check(x.getConfiguration()->getAllowOverVotes() == (config ? i.over : true),
          how + "overvote setting");
    check(x.getConfiguration()->getMaxNumberOfBallots() ==
            (config ? i.max : static_cast<uint64_t>(DEFAULT_MAX_BALLOTS)),
          how + "maximum number of ballots");
    check(x.getExtendedData() == (data ? i.data : std::unordered_map<Str, Str>{}),
          how + "extended data");
}

static void routes(Ctx &c)
{
    auto &s = c.src;
    In i = gen1(s);
    c << i.n << "/" << i.k << " key " << ref::shortHex(i.K) << " commitment "
      << ref::shortHex(i.com) << " manifest " << ref::shortHex(i.man);
    Z base = baseHash(i.n, i.k, i.man), ext = extendedHash(base, i.com);
    if (i.n > 1 && i.k > 1)
        c.nt();
    for (size_t r = 0; r < 8; r++) {
        auto x = make1(i, r);
        bool config = r % 2 == 1, data = r % 4 >= 2;
        Str how = "make " + std::to_string(r) + ": ";
        against(*x, i, base, ext, config, data, how);
        check(x->getElGamalPublicKey()->isFixedBase(), how + "the key is not marked fixed base");
    }
    // direct construction keeps whatever it is given
    Z b2 = ref::genQ(s), e2 = ref::genQ(s);
    auto q = [](const Z &z) { return ref::modQ(z); };
    using C = CiphertextElectionContext;
    auto cfg = [&] { return std::make_unique<ContextConfiguration>(i.over, i.max); };
    against(C(i.n, i.k, ref::modP(i.K), q(i.com), q(i.man), q(b2), q(e2)), i, b2, e2, false, false,
            "constructor: ");
    against(C(i.n, i.k, ref::modP(i.K), q(i.com), q(i.man), q(b2), q(e2), cfg()), i, b2, e2, true,
            false, "constructor with configuration: ");
    against(C(i.n, i.k, ref::modP(i.K), q(i.com), q(i.man), q(b2), q(e2), i.data), i, b2, e2,
            false, true, "constructor with data: ");
    against(C(i.n, i.k, ref::modP(i.K), q(i.com), q(i.man), q(b2), q(e2), cfg(), i.data), i, b2, e2,
            true, true, "constructor with everything: ");
}

// any changed input gives another election
static void bound(Ctx &c)
{
    auto &s = c.src;
    In i = gen1(s), j = i;
    size_t what = s.upto(5);
    bool changesBase = true, changesExt = true;
    switch (what) {
        case 0:
            j.n = s.boolean() ? i.n + 1 + s.upto(3) : s.edgy64();
            c.label("guardians");
            break;
        case 1:
            j.k = s.boolean() ? i.k + 1 + s.upto(3) : s.edgy64();
            c.label("quorum");
            break;
        case 2:
            j.man = s.boolean() ? ref::modq(i.man + (Z(1) << s.upto(255))) : ref::genQ(s);
            c.label("manifest");
            break;
        case 3:
            j.com = s.boolean() ? ref::modq(i.com + (Z(1) << s.upto(255))) : ref::genQ(s);
            changesBase = false;
            c.label("commitment");
            break;
        case 4:
            std::swap(j.n, j.k);
            c.label("swapped counts");
            break;
        default:
            j.over = !i.over;
            j.max = s.edgy64();
            changesBase = changesExt = false;
            c.label("settings");
    }
    if (what == 3 ? j.com == i.com
        : what == 2 ? j.man == i.man
                    : j.n == i.n && j.k == i.k && what < 5)
        discard();
    c.nt();
    size_t r = s.upto(7), r2 = s.upto(7);
    auto a = make1(i, r), b = make1(j, r2);
    c << "routes " << r << "," << r2 << " change " << what;
    check((ref::of(*a->getCryptoBaseHash()) != ref::of(*b->getCryptoBaseHash())) == changesBase,
          changesBase ? "the base hash did not change" : "the base hash changed");
    check((ref::of(*a->getCryptoExtendedBaseHash()) != ref::of(*b->getCryptoExtendedBaseHash())) ==
            changesExt,
          changesExt ? "the extended base hash did not change" : "the extended base hash changed");
}

// an encryption mediator only serves the election its context was made for
static void mediator(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    Man m = genManifest(s, o);
    Z h = gen::hash(m);
    In i = gen1(s);
    size_t what = s.upto(2);
    i.man = what == 0 ? h : what == 1 ? ref::modq(h + (Z(1) << s.upto(255))) : ref::genQ(s);
    InternalManifest im(*lib(m));
    auto ctx = make1(i, s.upto(7));
    EncryptionDevice d(s.u64(), s.u64(), s.u64(), genText(s));
    c << "case " << what << " " << dump(m);
    c.nt();
    c.label(i.man == h ? "matching" : "foreign");
    bool threw = false;
    try {
        EncryptionMediator med(im, *ctx, d);
    } catch (const std::exception &) {
        threw = true;
    }
    check(threw == (i.man != h), threw ? "a mediator for the right manifest was refused"
                                       : "a mediator for another manifest was made");
}

Spec pbt::spec()
{
    Spec p;
    p.property = "X01";
    p.subs = {
      {"routes", routes, 20000, 300000,
       "arbitrary counts, keys, hashes, settings and extended data through all twelve ways to make "
       "a context; non-trivial: several guardians and a quorum above one"},
      {"bound", bound, 40000, 400000,
       "pairs of contexts that differ in one input; every case is non-trivial"},
      {"mediator", mediator, 30000, 400000,
       "mediators for matching and foreign manifests; every case is non-trivial"},
    };
    p.assumptions = {"the hash function is collision free on the generated pairs"};
    return p;
}
