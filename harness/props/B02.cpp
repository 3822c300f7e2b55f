// B02: every ballot the library produces verifies, decided by the library's
// verification and by an independent verifier over public data.
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"
#include "ser.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

static ManOpts small()
{
    ManOpts o = tiny();
    o.maxSels = 2;
    return o;
}

// independent verification against the public manifest as well
static void independent(const CBallot &g, const Election &e, const Str &how)
{
    Str r = refuses(g, e.in.hash, e.key.K, e.extBase);
    check(r.empty(), how + "independent verification fails: " + r);
    check(g.code == ballotCode(g.seed, g.timestamp, g.hash), how + "ballot code");
    auto style = contestsOf(e.in, g.style);
    check(style.size() == g.contests.size(), how + "contests of the ballot style");
    for (size_t i = 0; i < style.size(); i++) {
        auto &d = *style[i];
        auto &c = g.contests[i];
        check(c.id == d.id && c.desc == hash(d) && c.seq == d.seq, how + "contest of the manifest");
        check(c.proof->L == d.elected, how + "limit proven is not the contest's limit");
        auto all = sorted(d).sels;
        auto ph = sorted(d).placeholders;
        all.insert(all.end(), ph.begin(), ph.end());
        check(all.size() == c.sels.size(), how + "selections of the contest");
        for (size_t k = 0; k < all.size(); k++)
            check(c.sels[k].id == all[k].id && c.sels[k].desc == hash(all[k]) &&
                    c.sels[k].seq == all[k].seq,
                  how + "selection of the manifest");
    }
}

static void library(CiphertextBallot &b, const Election &e, const Str &how)
{
    check(b.isValidEncryption(*e.internalManifest->getManifestHash(),
                              *e.context->getElGamalPublicKey(),
                              *e.context->getCryptoExtendedBaseHash()),
          how + "the library refuses its own ballot");
}
static void libraryPieces(CiphertextBallot &b, const Election &e, const Str &how)
{
    auto &K = *e.context->getElGamalPublicKey();
    auto &base = *e.context->getCryptoExtendedBaseHash();
    for (auto &k : b.getContests()) {
        auto *d = findContest(e.in, k.get().getObjectId());
        check(k.get().isValidEncryption(*ref::modQ(hash(*d)), K, base),
              how + "the library refuses a contest of its own");
        for (auto &s : k.get().getSelections())
            for (auto *list : {&d->sels, &d->placeholders})
                for (auto &x : *list)
                    if (x.id == s.get().getObjectId())
                        check(s.get().isValidEncryption(*ref::modQ(hash(x)), K, base),
                              how + "the library refuses a selection of its own");
    }
}

static U<CiphertextBallot> produce(Ctx &c, const Election &e, const Ballot &b)
{
    auto &s = c.src;
    auto p = lib(b);
    bool inline_ = s.chance(1, 3);
    if (inline_)
        c.label("checked in-line");
    switch (s.pick({3, 1, 1})) {
        case 0: {
            auto seed = ref::modQ(ref::genQ(s));
            U<ElementModQ> nonce;
            if (s.boolean())
                nonce = ref::modQ(ref::genExp(s));
            uint64_t t = s.boolean() ? s.edgy64() >> 1 : 0;
            return encryptBallot(*p, *e.internalManifest, *e.context, *seed, move(nonce), t,
                                 inline_);
        }
        case 1: {
            EncryptionDevice dev(s.u64(), s.upto(100), s.upto(100), genText(s, 6));
            EncryptionMediator m(*e.internalManifest, *e.context, dev);
            return m.encrypt(*p, inline_);
        }
        default: { // assembled by hand from encrypted contests, in any order
            c.label("assembled");
            auto nonce = ref::modQ(ref::genExp(s));
            auto seed =
              CiphertextBallot::nonceSeed(*e.internalManifest->getManifestHash(), b.id, *nonce);
            auto contests = encryptContests(*p, *e.internalManifest, *e.context, *seed, inline_);
            auto order = s.shuffle(contests.size());
            Vec<U<CiphertextBallotContest>> v;
            for (auto i : order) {
                auto &x = *contests[i];
                if (s.boolean()) {
                    // the contest too is put together from its selections, in any order
                    c.label("contest assembled");
                    auto sels = x.getSelections();
                    Vec<U<CiphertextBallotSelection>> w;
                    for (auto j : s.shuffle(sels.size()))
                        w.push_back(make_unique<CiphertextBallotSelection>(sels[j].get()));
                    auto d = e.internalManifest->getContests();
                    uint64_t limit = 0;
                    for (auto &k : d)
                        if (k.get().getObjectId() == x.getObjectId())
                            limit = k.get().getNumberElected();
                    auto extra = x.getHashedElGamalCiphertext();
                    v.push_back(CiphertextBallotContest::make(
                      x.getObjectId(), x.getSequenceOrder(), *x.getDescriptionHash(), move(w),
                      *e.context->getElGamalPublicKey(), *e.context->getCryptoExtendedBaseHash(),
                      *ref::modQ(ref::genQ(s)), limit, x.getNonce()->clone(), nullptr, nullptr,
                      extra->clone()));
                } else
                    v.push_back(move(contests[i]));
            }
            return CiphertextBallot::make(b.id, b.style, *e.internalManifest->getManifestHash(),
                                          move(v), move(nonce), s.edgy64() >> 1,
                                          ref::modQ(ref::genQ(s)));
        }
    }
}

static void fresh(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, small());
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    if (s.chance(1, 4)) {
        uint32_t n = static_cast<uint32_t>(s.range(1, 6));
        c.label("precomputed");
        PrecomputeBufferContext::init(n);
        PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
        PrecomputeBufferContext::stop_populate();
    }
    auto enc = produce(c, e, b);
    PrecomputeBufferContext::empty_queues();
    CBallot g = of(*enc);
    independent(g, e, "");
    library(*enc, e, "");
    if (s.chance(1, 4))
        libraryPieces(*enc, e, "");
    bool over = false, marks = false;
    for (auto &p : plain(b, e.in)) {
        over = over || p.over;
        for (auto &v : p.votes)
            marks = marks || v.second;
    }
    if (over)
        c.label("overvote");
    if (g.contests.size() > 1)
        c.label("several contests");
    if (g.contests.size() > 1 || g.contests[0].sels.size() > 2 || over)
        c.nt();
    (void)marks;
}

// the same after a trip through a document; public form and form with nonces
static void trip(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = small();
    o.maxContests = 2;
    o.maxElected = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto enc = produce(c, e, b);
    independent(of(*enc), e, "");
    bool nonces = s.boolean(), submitted = s.boolean();
    U<CiphertextBallot> back;
    Str how;
    size_t f = s.upto(2);
    static const char *formats[] = {"json", "bson", "msgpack"};
    how = Str(submitted ? "submitted " : "") + formats[f] + (nonces ? " with nonces: " : ": ");
    c.label(how);
    if (submitted) {
        auto sub =
          SubmittedBallot::from(*enc, s.boolean() ? BallotBoxState::cast : BallotBoxState::spoiled);
        library(*sub, e, how + "before: ");
        back = f == 0   ? SubmittedBallot::fromJson(sub->toJson())
               : f == 1 ? SubmittedBallot::fromBson(sub->toBson())
                        : SubmittedBallot::fromMsgPack(sub->toMsgPack());
    } else
        back = f == 0   ? CiphertextBallot::fromJson(enc->toJson(nonces))
               : f == 1 ? CiphertextBallot::fromBson(enc->toBson(nonces))
                        : CiphertextBallot::fromMsgPack(enc->toMsgPack(nonces));
    independent(of(*back), e, how);
    library(*back, e, how);
    c.nt();
}

// dozens of selections or contests
static void large(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, vast(s));
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto enc = produce(c, e, b);
    independent(of(*enc), e, "");
    library(*enc, e, "");
    c.nt();
}

// the hashes of parts with any content, as recomputed by a verifier
static void hashes(Ctx &c)
{
    auto &s = c.src;
    ser::AnyOpts o;
    o.cheap = true;
    if (s.chance(1, 8)) {
        bool contests = s.boolean();
        o.maxContests = contests ? s.range(1, 150) : 2;
        o.maxSels = contests ? 2 : s.range(1, 150);
    }
    CBallot b = ser::genAnyCiphertext(s, o);
    auto l = lib(b);
    CBallot seen = of(*l);
    size_t sels = 0;
    auto cs = l->getContests();
    for (size_t i = 0; i < cs.size(); i++) {
        auto &k = cs[i].get();
        auto &m = seen.contests[i];
        auto ss = k.getSelections();
        for (size_t j = 0; j < ss.size(); j++) {
            check(ref::of(*ss[j].get().crypto_hash_with(*ref::modQ(m.sels[j].desc))) ==
                    hashSel(m.sels[j]),
                  "hash of a selection");
            sels++;
        }
        if (m.sels.empty())
            continue;
        check(ref::of(*k.crypto_hash_with(*ref::modQ(m.desc))) == hashContest(m),
              "hash of a contest of " + std::to_string(ss.size()) + " selections");
    }
    if (!cs.empty())
        check(ref::of(*l->crypto_hash_with(*ref::modQ(b.manifest))) == hashBallot(seen, b.manifest),
              "hash of a ballot of " + std::to_string(cs.size()) + " contests");
    c << cs.size() << " contests, " << sels << " selections";
    if (sels > 1)
        c.nt();
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B02";
    nulTexts = true;
    sp.subs = {
      {"fresh", fresh, 220, 60000,
       "ballots encrypted directly, by a device or assembled from encrypted contests in any order, "
       "with "
       "and without precomputed values and in-line checking; non-trivial: several contests, more "
       "than "
       "two selections or an overvote"},
      {"trip", trip, 90, 25000,
       "ballots serialized in one of three formats, as encrypted or submitted ballots, with and "
       "without "
       "nonces; all non-trivial"},
      {"hashes", hashes, 12000, 1000000,
       "ballots of any content, up to 150 selections or contests: the hash of each part against "
       "the "
       "reference; non-trivial: several selections"},
      {"large", large, 8, 2000, "ballots of 17 to 74 selections or contests; all non-trivial"}};
    sp.assumptions = {"timestamps stay below 2^63 (BSON has no larger integers)",
                      "the reference verifier implements the proof equations of the specification"};
    return sp;
}
