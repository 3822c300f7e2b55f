// S01: ballots through every serialization format.
#include "electionguard/precompute_buffers.hpp"
#include "ser.hpp"

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;

static const uint64_t Max = UINT64_MAX >> 1; // the largest number every format holds

static void plaintext(Ctx &c)
{
    auto &s = c.src;
    Ballot b = genAnyPlaintext(s, s.chance(1, 5) ? UINT64_MAX : Max);
    c << dump(b);
    bool big = false;
    for (auto &k : b.contests)
        for (auto &x : k.sels) {
            big = big || x.vote > Max;
            if (!x.writeIn.empty())
                c.nt(), c.label("write-in");
            if (x.vote > 1)
                c.nt();
        }
    auto l = lib(b);
    Str doc = l->toJson();
    for (size_t f = 0; f < 3; f++) {
        Vec<uint8_t> d;
        try {
            d = write(*l, f);
        } catch (const std::exception &) {
            check(f == 1 && big, Str(formatName(f)) + " refused a ballot");
            c.label("too big for BSON");
            continue;
        }
        auto r = read<PlaintextBallot>(d, f);
        same(dump(b), dump(of(*r)), Str("plaintext ballot through ") + formatName(f));
        check(write(*r, f) == d, Str(formatName(f)) + ": serialized again differs");
        check(r->toJson() == doc, Str(formatName(f)) + ": the formats disagree");
        // a second trip through another format
        size_t g = s.upto(2);
        if (!big) {
            auto r2 = read<PlaintextBallot>(write(*r, g), g);
            same(dump(b), dump(of(*r2)), Str("through ") + formatName(f) + " and " + formatName(g));
        }
    }
    same(dump(b), dump(of(*l)), "the ballot that was serialized");
}

static void encrypted(Ctx &c)
{
    auto &s = c.src;
    AnyOpts o;
    o.nonces = s.boolean();
    CBallot b = genAnyCiphertext(s, o);
    CBallot view = ser::sorted(b);
    c << dump(b);
    auto l = lib(b);
    same(dump(view), dump(of(*l)), "the ballot as built");
    if (b.contests.size() > 0)
        c.nt();
    for (auto &k : b.contests)
        c.label(k.ext ? "extended data" : "no extended data");
    CBallot bare = withoutNonces(view), full = view;
    // an absent nonce is read back as zero
    auto orZero = [](Opt<Z> &z) {
        if (!z)
            z = Z(0);
    };
    orZero(full.nonce);
    for (auto &k : full.contests) {
        orZero(k.nonce);
        for (auto &x : k.sels)
            orZero(x.nonce);
    }
    for (bool with : {false, true}) {
        Str doc = l->toJson(with);
        for (size_t f = 0; f < 3; f++) {
            Str what = Str(formatName(f)) + (with ? " with nonces" : "");
            auto d = write(*l, f, with);
            auto r = read<CiphertextBallot>(d, f);
            same(dump(with ? full : bare), dump(of(*r)), "encrypted ballot through " + what);
            if (!with || allNonces(b))
                check(write(*r, f, with) == d && r->toJson(with) == doc,
                      what + ": serialized again differs");
            if (!with) // without asking, no nonces
                check(write(*l, f) == d, what + ": the default is without nonces");
        }
    }
    same(dump(view), dump(of(*l)), "the ballot that was serialized");
}

static void submitted(Ctx &c)
{
    auto &s = c.src;
    AnyOpts o;
    o.nonces = s.boolean();
    CBallot b = genAnyCiphertext(s, o);
    CBallot view = ser::sorted(b);
    int state = static_cast<int>(s.of(Vec<uint64_t>{1, 2, 999}));
    c << "state " << state << " " << dump(b);
    U<SubmittedBallot> l;
    if (s.boolean()) {
        l = lib(b, state);
        c.label("built");
    } else {
        l = SubmittedBallot::from(*lib(b), static_cast<BallotBoxState>(state));
        c.label("from an encrypted ballot");
    }
    check(static_cast<int>(l->getState()) == state, "state as built");
    if (b.contests.size() > 0)
        c.nt();
    Str doc = l->toJson();
    for (size_t f = 0; f < 3; f++) {
        auto d = write(*l, f);
        auto r = read<SubmittedBallot>(d, f);
        same(dump(withoutNonces(view)), dump(withoutNonces(of(*r))),
             Str("submitted ballot through ") + formatName(f));
        check(static_cast<int>(r->getState()) == state, Str(formatName(f)) + ": state");
        check(write(*r, f) == d && r->toJson() == doc,
              Str(formatName(f)) + ": serialized again differs");
    }
    check(static_cast<int>(l->getState()) == state && l->toJson() == doc,
          "the ballot that was serialized");
}

static void compact(Ctx &c)
{
    auto &s = c.src;
    CompactM m = genAnyCompact(s, s.chance(1, 5) ? UINT64_MAX : Max);
    c << ser::dump(m);
    bool big = false;
    for (auto v : m.votes)
        big = big || v > Max;
    if (!m.votes.empty() || !m.writeIns.empty())
        c.nt();
    auto p = libPlain(m);
    auto l = ser::lib(m);
    Str want = ser::dump(m), wantP = dumpCompact(*p);
    same(want, dumpCompact(*l), "the compact ballot as built");
    Str doc = l->toJson(), docP = p->toJson();
    for (size_t f = 0; f < 3; f++) {
        Vec<uint8_t> d, dp;
        try {
            d = write(*l, f);
            dp = write(*p, f);
        } catch (const std::exception &) {
            check(f == 1 && big, Str(formatName(f)) + " refused a ballot");
            continue;
        }
        auto r = read<CompactCiphertextBallot>(d, f);
        same(want, dumpCompact(*r), Str("compact ballot through ") + formatName(f));
        check(write(*r, f) == d && r->toJson() == doc,
              Str(formatName(f)) + ": serialized again differs");
        auto rp = read<CompactPlaintextBallot>(dp, f);
        same(wantP, dumpCompact(*rp), Str("compact plaintext through ") + formatName(f));
        check(write(*rp, f) == dp && rp->toJson() == docP,
              Str(formatName(f)) + ": serialized again differs");
    }
}

// really encrypted ballots: the trip keeps them valid
static void verified(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 2;
    o.maxSels = 2;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z seed = ref::genQ(s), nonce = ref::genExp(s);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    InternalManifest &im = *e.internalManifest;
    auto l = encryptBallot(*lib(b), im, *e.context, *ref::modQ(seed), ref::modQ(nonce),
                           genStamp(s), false);
    CBallot m = of(*l);
    size_t f = s.upto(2);
    size_t kind = s.upto(2);
    c << " " << formatName(f) << " kind " << kind;
    c.label(formatName(f));
    c.nt();
    U<CiphertextBallot> r;
    if (kind == 0) {
        r = read<CiphertextBallot>(write(*l, f, true), f);
        same(dump(m), dump(of(*r)), "encrypted ballot");
    } else if (kind == 1) {
        r = read<CiphertextBallot>(write(*l, f), f);
        same(dump(withoutNonces(m)), dump(of(*r)), "published ballot");
    } else {
        auto sub = SubmittedBallot::from(*l, s.boolean() ? BallotBoxState::cast
                                                         : BallotBoxState::spoiled);
        auto back = read<SubmittedBallot>(write(*sub, f), f);
        same(dump(withoutNonces(m)), dump(withoutNonces(of(*back))), "submitted ballot");
        check(back->getState() == sub->getState(), "state");
        r = move(back);
    }
    check(r->isValidEncryption(*e.context->getManifestHash(), *e.context->getElGamalPublicKey(),
                               *e.context->getCryptoExtendedBaseHash()),
          "the ballot no longer verifies after the trip");
}

Spec pbt::spec()
{
    Spec p;
    p.property = "S01";
    nulTexts = true;
    p.subs = {
      {"plaintext", plaintext, 10000, 300000,
       "arbitrary plaintext ballots (any text, votes to 2^64-1); non-trivial: with write-ins or "
       "votes above one"},
      {"encrypted", encrypted, 2500, 40000,
       "encrypted ballots with arbitrary element values, optional nonces and extended data, stored "
       "in any order; non-trivial: at least one contest"},
      {"submitted", submitted, 2500, 40000,
       "the same as submitted ballots in any state; non-trivial: at least one contest"},
      {"compact", compact, 6000, 150000,
       "arbitrary compact ballots; non-trivial: with votes or write-ins"},
      {"verified", verified, 64, 3000,
       "really encrypted ballots; every case is non-trivial"},
    };
    p.assumptions = {"texts are valid UTF-8 without NUL characters",
                     "numbers above 2^63-1 may be refused by BSON, which cannot represent them",
                     "an absent nonce is read back as the zero nonce"};
    return p;
}
