// B01: what an encrypted ballot contains, decided by decrypting it with the
// secret key, against the voter's marks.
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

// the vote inside a ciphertext: 0, 1, or -1 for anything else
static int voteOf(const ref::CT &ct, const Z &secret)
{
    Z m = ref::mulp(ct.b, ref::powp(ct.a, ref::QQ() - secret));
    if (m == 1)
        return 0;
    if (m == ref::GG())
        return 1;
    return -1;
}

static void checkContest(Ctx &c, const CContest &got, const PlainContest &want, const Contest &d,
                         const Z &secret, const Z &base)
{
    check(got.id == want.id, "contest id " + show(got.id));
    check(got.seq == d.seq, "contest sequence order");
    check(got.desc == hash(d), "contest description hash");
    check(got.sels.size() == want.votes.size(), "number of encrypted selections");
    uint64_t total = 0;
    ref::CT sum{1, 1};
    std::set<Str> seen;
    for (auto &s : got.sels) {
        check(seen.insert(s.id).second, "selection encrypted twice: " + show(s.id));
        bool found = false;
        size_t i = 0;
        for (auto &w : want.votes) {
            if (w.first == s.id) {
                int v = voteOf(s.ct, secret);
                check(v >= 0, "selection " + show(s.id) + " decrypts to neither 0 nor 1");
                check(static_cast<uint64_t>(v) == w.second,
                      "selection " + show(s.id) + " decrypts to " + std::to_string(v) + ", voter marked " +
                        std::to_string(w.second));
                check(s.placeholder == (i >= d.sels.size()), "placeholder flag of " + show(s.id));
                total += static_cast<uint64_t>(v);
                found = true;
                break;
            }
            i++;
        }
        check(found, "selection not in the contest: " + show(s.id));
        sum = {ref::mulp(sum.a, s.ct.a), ref::mulp(sum.b, s.ct.b)};
    }
    check(total == d.elected, "contest total " + std::to_string(total) + " is not the selection limit");
    check(sum.a == got.acc.a && sum.b == got.acc.b, "stored total is not the sum");
    // the extra data
    check(got.ext.has_value(), "no extended data");
    check(got.ext->data.size() == 512, "extended data has another size");
    std::vector<uint8_t> out;
    check(ref::hashedDecrypt(*got.ext, ref::powp(got.ext->pad, secret), base, out),
          "extended data does not decrypt");
    check(out == extendedBlock(want.extended), "extended data holds something else: " +
                                                 Str(out.begin() + 2, out.end()).substr(0, 120));
    if (want.over)
        c.label("overvote"), c.nt();
    if (want.extended.find("write_ins") != Str::npos)
        c.label("write-in"), c.nt();
    if (want.extended.size() > 510)
        c.label("truncated extra data");
    uint64_t marks = 0;
    for (size_t i = 0; i < d.sels.size(); i++)
        marks += want.votes[i].second;
    if (!want.over && marks < d.elected)
        c.label("undervote");
    if (marks > 0)
        c.nt(), c.label("marks");
    if (marks > 1)
        c.label("several marks");
}

static void checkBallot(Ctx &c, const CiphertextBallot &enc, const Ballot &b, const Election &e)
{
    CBallot got = of(enc);
    auto want = plain(b, e.in);
    check(got.id == b.id, "ballot id");
    check(got.style == b.style, "ballot style");
    check(got.contests.size() == want.size(), "number of encrypted contests");
    for (size_t i = 0; i < want.size(); i++)
        checkContest(c, got.contests[i], want[i], *findContest(e.in, want[i].id), e.key.s,
                     e.extBase);
    // the library's own decryption agrees
    auto secret = ref::modQ(e.key.s);
    // (it is slow: one selection each)
    size_t i = 0, pickSel = c.src.upto(7);
    for (auto &k : enc.getContests()) {
        auto &w = want[i++];
        for (auto &s : k.get().getSelections())
            for (auto &v : w.votes)
                if (pickSel-- == 0 && v.first == s.get().getObjectId())
                    check(s.get().getCiphertext()->decrypt(*secret) == v.second,
                          "library decryption differs");
        auto ext = k.get().getHashedElGamalCiphertext();
        auto plainBytes = ext->decrypt(*secret, *e.context->getCryptoExtendedBaseHash(), true);
        Str t(plainBytes.begin(), plainBytes.end());
        check(t == w.extended.substr(0, 510), "library decryption of the extended data differs");
    }
}

static U<CiphertextBallot> encryptSomehow(Ctx &c, const Election &e, const Ballot &b)
{
    auto &s = c.src;
    auto plainBallot = lib(b);
    bool check = s.chance(1, 5);
    U<CiphertextBallot> r;
    switch (s.pick({4, 1})) {
        case 0: {
            auto seed = ref::modQ(ref::genQ(s));
            U<ElementModQ> nonce;
            if (s.boolean())
                nonce = ref::modQ(ref::genExp(s));
            r = encryptBallot(*plainBallot, *e.internalManifest, *e.context, *seed, move(nonce),
                              s.upto(2) ? s.edgy64() : 0, check);
            break;
        }
        default: {
            c.label("mediator");
            EncryptionDevice dev(s.u64(), s.upto(100), s.upto(100), genText(s, 6));
            EncryptionMediator m(*e.internalManifest, *e.context, dev);
            r = m.encrypt(*plainBallot, check);
        }
    }
    // the given ballot is not changed
    same(dump(b), dump(of(*plainBallot)), "the plaintext ballot");
    return r;
}

static void ballots(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, tiny());
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto enc = encryptSomehow(c, e, b);
    checkBallot(c, *enc, b, e);
}

// wider contests, one at a time
static void wide(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 1;
    bool wider = s.chance(1, 12);
    o.maxSels = wider ? 36 : 9;
    o.maxElected = wider ? 20 : 9;
    o.maxStyles = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    BallotOpts bo;
    Ballot b = genBallot(s, e.in, style, bo);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto enc = encryptSomehow(c, e, b);
    checkBallot(c, *enc, b, e);
}

// long write-ins, so that the extra data meets its capacity
static void capacity(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 1;
    o.maxSels = 2;
    o.maxStyles = 1;
    o.maxUnits = 1;
    o.allWriteIn = true;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    const Contest &d = *contestsOf(e.in, style)[0];
    Ballot b;
    b.id = "b";
    b.style = style;
    b.contests.push_back({d.id, {}});
    for (auto &x : d.sels)
        b.contests[0].sels.push_back({x.id, 1, false, Str(s.upto(40), 'w')});
    // aim at the boundary
    Str base = plain(b, e.in)[0].extended;
    long aim = 500 + static_cast<long>(s.upto(20));
    for (auto &x : b.contests[0].sels)
        for (auto &ds : d.sels)
            for (auto &k : e.man.cands)
                if (ds.id == x.id && ds.cand == k.id && k.writeIn && aim > (long)base.size()) {
                    x.writeIn += Str(static_cast<size_t>(aim) - base.size(), 'z');
                    aim = 0;
                }
    c << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto enc = encryptSomehow(c, e, b);
    checkBallot(c, *enc, b, e);
    size_t n = plain(b, e.in)[0].extended.size();
    if (n >= 509 && n <= 512)
        c.label("at capacity");
}

// precomputed values may or may not suffice for the whole ballot
static void precomputed(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, tiny());
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    uint32_t n = static_cast<uint32_t>(s.range(1, 5));
    c << "buffer " << n << "\n" << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    PrecomputeBufferContext::init(n);
    PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
    PrecomputeBufferContext::stop_populate();
    size_t need = 0;
    for (auto &p : plain(b, e.in))
        need += p.votes.size();
    c.label(need > n ? "runs out" : "suffices");
    auto enc = encryptSomehow(c, e, b);
    PrecomputeBufferContext::empty_queues();
    checkBallot(c, *enc, b, e);
}

// single contests through encryptContest and single selections
static void pieces(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, tiny());
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    Ballot n = normalise(b, e.in);
    auto want = plain(b, e.in);
    auto seed = ref::modQ(ref::genQ(s));
    auto *K = e.context->getElGamalPublicKey();
    auto *base = e.context->getCryptoExtendedBaseHash();
    size_t k = s.upto(n.contests.size() - 1);
    const BContest *given = &n.contests[k];
    for (auto &x : b.contests)
        if (x.id == n.contests[k].id) {
            given = &x;
            break;
        }
    for (auto &d : e.internalManifest->getContests())
        if (d.get().getObjectId() == given->id) {
            auto enc = encryptContest(*lib(*given), *e.internalManifest, d.get(), *K, *base, *seed,
                                      s.chance(1, 4));
            // on its own a contest is recorded in the order given
            want[k].extended = extendedJson(*given, want[k].over, e.in);
            checkContest(c, of(*enc), want[k], *findContest(e.in, given->id), e.key.s, e.extBase);
            for (auto &ds : d.get().getSelections()) {
                uint64_t v = s.upto(1);
                bool ph = s.boolean();
                BSel sel{ds.get().getObjectId(), v, false, ""};
                auto es = encryptSelection(*lib(sel), ds.get(), *K, *base, *seed, ph, s.chance(1, 4));
                CSel g = of(*es);
                check(g.id == sel.id && g.placeholder == ph && g.seq == ds.get().getSequenceOrder(),
                      "selection");
                check(g.desc == ref::of(*ds.get().crypto_hash()), "selection description hash");
                check(voteOf(g.ct, e.key.s) == static_cast<int>(v), "selection vote");
                break;
            }
        }
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B01";
    nulTexts = true;
    sp.subs = {
      {"ballots", ballots, 300, 40000,
       "whole elections (contests out of order, several styles, huge sequence orders) and ballots with "
       "omitted contests and selections, overvotes and write-ins, encrypted directly or through a "
       "device and decrypted with the secret key; non-trivial: a mark, an overvote or a write-in"},
      {"wide", wide, 80, 15000,
       "one contest with up to 9 selections and limits up to 9; same rule"},
      {"capacity", capacity, 80, 15000, "write-ins filling the extra data to its capacity; same rule"},
      {"precomputed", precomputed, 100, 20000,
       "buffers with 1 to 5 precomputed entries, running out in the middle or not; same rule"},
      {"pieces", pieces, 120, 20000, "one contest and one selection encrypted on their own; same rule"}};
    sp.assumptions = {"the generator of the group and the secret key are those of the reference"};
    return sp;
}
