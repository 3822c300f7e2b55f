// B07: malformed ballots.
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

static const DumpOpts NoSelProofs{true, false, true};

static void classification(Ctx &c)
{
    auto &s = c.src;
    BContest k;
    k.id = genText(s, 3);
    Str id = s.chance(3, 4) ? k.id : genText(s, 3);
    size_t n = s.many(0, 8, 300, 100);
    for (size_t i = 0; i < n; i++) {
        uint64_t v = 0;
        switch (s.pick({4, 5, 1, 1})) {
            case 0:
                break;
            case 1:
                v = 1;
                break;
            case 2:
                v = s.upto(4);
                break;
            default:
                v = s.edgy64();
        }
        k.sels.push_back({"s" + std::to_string(s.upto(9)), v, s.chance(1, 8), ""});
    }
    uint64_t limit = s.pick({4, 1}) == 0 ? n + s.upto(2) : s.upto(8);
    uint64_t elected = s.upto(6), allowed = s.pick({1, 2}) == 0 ? 0 : s.upto(8);
    if (s.chance(1, 8))
        elected = s.edgy64();
    if (s.chance(1, 8))
        allowed = s.edgy64();
    c << dump(k) << " for " << show(id) << " selections " << limit << " elected " << elected
      << " votes " << allowed;
    auto l = lib(k);
    Verdict want = classify(k, id, limit, elected, allowed);
    auto name = [](int v) {
        static const char *names[] = {"valid", "overvoted", "invalid id", "too many selections"};
        return Str(v >= 0 && v <= 3 ? names[v] : "?");
    };
    int got = static_cast<int>(l->isValid(id, limit, elected, allowed, true));
    check(got == static_cast<int>(want), "classified " + name(got) + ", should be " + name(want));
    int gotNo = static_cast<int>(l->isValid(id, limit, elected, allowed, false));
    if (want == OVER)
        check(gotNo == static_cast<int>(OVERVOTE_ERROR), "overvote without support is no error");
    else
        check(gotNo == static_cast<int>(want), "without support for overvotes: " + name(gotNo));
    if (allowed == 0)
        check(static_cast<int>(l->isValid(id, limit, elected)) == static_cast<int>(want),
              "default arguments");
    c.label(name(want));
    if (want != OK || n > 1)
        c.nt();
    // selections
    if (n > 0) {
        auto &x = k.sels[0];
        Str sid = s.boolean() ? x.id : genText(s, 3);
        check(lib(x)->isValid(sid) == (x.id == sid && x.vote <= 1), "selection verdict");
    }
}

static void malform(Ctx &c, Ballot &b, const Election &e)
{
    auto &s = c.src;
    auto contest = [&]() -> BContest & {
        if (b.contests.empty())
            b.contests.push_back({s.of(e.in.contests).id, {}});
        return b.contests[s.upto(b.contests.size() - 1)];
    };
    auto sel = [&]() -> BSel & {
        auto &k = contest();
        if (k.sels.empty())
            k.sels.push_back({"unknown", 1, false, "w"});
        return k.sels[s.upto(k.sels.size() - 1)];
    };
    Str what;
    switch (s.upto(15)) {
        case 0:
            b.style = s.boolean() ? b.style + "?" : "";
            what = "unknown style";
            break;
        case 1: {
            b.style = s.of(e.in.styles).id;
            what = "another style";
            break;
        }
        case 2:
            b.contests.insert(b.contests.begin() + static_cast<long>(s.upto(b.contests.size())),
                              {"foreign contest", {{"a", 1, false, ""}, {"b", 1, false, ""}}});
            what = "foreign contest";
            break;
        case 3: {
            BContest k = contest();
            for (auto &x : k.sels)
                x.vote = s.upto(2);
            b.contests.push_back(k);
            what = "contest twice";
            break;
        }
        case 4:
            contest().id = s.boolean() ? Str() : "mislabelled";
            what = "mislabelled contest";
            break;
        case 5: {
            auto &k = contest();
            k.sels.insert(k.sels.begin() + static_cast<long>(s.upto(k.sels.size())),
                          {"unknown selection", s.upto(2), false, "w"});
            what = "unknown selection";
            break;
        }
        case 6: {
            auto &k = contest();
            if (!k.sels.empty()) {
                BSel x = s.of(k.sels);
                x.vote = s.upto(2);
                k.sels.push_back(x);
            }
            what = "selection twice";
            break;
        }
        case 7:
            sel().vote = s.of(Vec<uint64_t>{2, 3, 255, 256, 0xffffffffULL});
            what = "vote above one";
            break;
        case 8:
            sel().vote = s.of(Vec<uint64_t>{0x100000000ULL, 0x100000001ULL, 1ULL << 63, UINT64_MAX,
                                            UINT64_MAX - 1});
            what = "huge vote";
            break;
        case 9:
            sel().id = "";
            what = "selection without identifier";
            break;
        case 10:
            b.contests.clear();
            what = "no contests";
            break;
        case 11:
            contest().sels.clear();
            what = "no selections";
            break;
        case 12: { // a vote for a placeholder
            auto *k = findContest(e.in, contest().id);
            if (k && !k->placeholders.empty())
                contest().sels.push_back({s.of(k->placeholders).id, 1, s.boolean(), ""});
            what = "placeholder marked";
            break;
        }
        case 13: {
            auto &x = sel();
            x.writeIn = s.boolean() ? Str("\xff\xfe") : Str("\xc3");
            what = "write-in that is no text";
            break;
        }
        case 14: {
            auto &k = contest();
            for (size_t i = 0; i < 20; i++)
                k.sels.push_back({"extra" + std::to_string(i), 1, false, ""});
            what = "many selections";
            break;
        }
        default:
            b.id = s.boolean() ? Str() : Str(300, 'b');
            what = "odd identifier";
    }
    c << what << "; ";
    c.label(what);
}

static bool utf8(const Str &t)
{
    return t.find('\xff') == Str::npos && t != "\xc3";
}

static void malformed(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 3;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    c << dump(e.man);
    size_t n = s.range(1, 3);
    for (size_t i = 0; i < n; i++)
        malform(c, b, e);
    c << dump(b);
    bool known = false;
    for (auto &st : e.in.styles)
        known = known || st.id == b.style;
    bool mustRefuse = !known, mayRefuse = false;
    Ballot norm;
    if (known) {
        norm = normalise(b, e.in);
        if (norm.contests.empty())
            mustRefuse = true;
        for (auto &k : norm.contests) {
            auto *d = findContest(e.in, k.id);
            bool big = false;
            for (auto &x : k.sels) {
                big = big || x.vote > 1;
                mayRefuse = mayRefuse || !utf8(x.writeIn);
            }
            if (big && classify(k, d->id, d->sels.size(), d->elected, d->votesAllowed) != OVER)
                mustRefuse = true;
        }
    }
    Z seed = ref::genQ(s), nonce = ref::genExp(s);
    bool compact = s.chance(1, 3), device = s.chance(1, 4);
    PrecomputeBufferContext::empty_queues();
    U<CiphertextBallot> enc;
    U<CompactCiphertextBallot> cmp;
    EncryptionDevice dev(1, 2, 3, "d");
    Str err;
    try {
        auto l = lib(b);
        if (device) {
            EncryptionMediator m(*e.internalManifest, *e.context, dev);
            if (compact)
                cmp = m.compactEncrypt(*l, false);
            else
                enc = m.encrypt(*l, false);
        } else if (compact)
            cmp = encryptCompactBallot(*l, *e.internalManifest, *e.context, *ref::modQ(seed),
                                       ref::modQ(nonce), 7, false);
        else
            enc = encryptBallot(*l, *e.internalManifest, *e.context, *ref::modQ(seed),
                                ref::modQ(nonce), 7, false);
    } catch (const std::exception &ex) {
        err = ex.what();
        if (err.empty())
            err = "exception";
    }
    if (!err.empty()) {
        check(mustRefuse || mayRefuse, "an acceptable ballot was refused: " + err);
        c.label("refused");
        c.nt();
        return;
    }
    check(!mustRefuse, "a malformed ballot was encrypted");
    c.label("acceptable");
    if (mayRefuse) { // only what the votes say matters then
        if (enc)
            for (auto &k : of(*enc).contests)
                for (auto &x : k.sels) {
                    Z m = ref::mulp(x.ct.b, ref::powp(x.ct.a, ref::QQ() - e.key.s));
                    check(m == 1 || m == ref::GG(), "a vote other than 0 and 1 was encrypted");
                }
        return;
    }
    if (device) {
        seed = ref::of(*dev.getHash());
        nonce = ref::of(enc ? *enc->getNonce() : *cmp->getNonce());
    }
    uint64_t t = enc ? enc->getTimestamp() : cmp->getTimestamp();
    CBallot want = refEncrypt(b, e.in, e.key.K, e.extBase, seed, nonce, t);
    if (enc)
        same(dump(want, NoSelProofs), dump(of(*enc), NoSelProofs), "the encrypted ballot");
    else
        check(ref::of(*cmp->getBallotCode()) == want.code, "code of the compact ballot");
    c.nt();
}

// encryptContest and encryptSelection with what does not fit
static void misfits(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 2;
    Election e = genElection(s, o);
    auto &d = s.of(e.in.contests);
    auto ld = libWith(d);
    BContest k;
    k.id = s.chance(4, 5) ? d.id : "other";
    size_t n = s.upto(d.sels.size() + 1);
    for (size_t i = 0; i < n; i++)
        k.sels.push_back({i < d.sels.size() ? d.sels[i].id : "unknown", s.of(Vec<uint64_t>{0, 1, 1, 2}),
                          false, ""});
    c << dump(d) << dump(k);
    PrecomputeBufferContext::empty_queues();
    Verdict v = classify(k, d.id, d.sels.size(), d.elected, d.votesAllowed);
    bool refuse = v == BAD || v == MANY;
    if (v == OK)
        for (auto &x : k.sels)
            refuse = refuse || x.vote > 1;
    auto &K = *e.context->getElGamalPublicKey();
    auto &base = *e.context->getCryptoExtendedBaseHash();
    bool threw = false;
    U<CiphertextBallotContest> r;
    try {
        r = encryptContest(*lib(k), *e.internalManifest, *ld, K, base, *ref::modQ(ref::genQ(s)),
                           false);
    } catch (const std::exception &) {
        threw = true;
    }
    check(threw == refuse, threw ? "an acceptable contest was refused" : "a misfit was encrypted");
    c.label(threw ? "contest refused" : "contest accepted");
    auto &ds = s.of(d.sels);
    BSel x{s.chance(2, 3) ? ds.id : "other", s.of(Vec<uint64_t>{0, 1, 2, 256, UINT64_MAX}), false, ""};
    c << dump(x);
    threw = false;
    U<CiphertextBallotSelection> es;
    try {
        es = encryptSelection(*lib(x), *lib(ds), K, base, *ref::modQ(ref::genQ(s)), false, false);
    } catch (const std::exception &) {
        threw = true;
    }
    check(threw == (x.id != ds.id || x.vote > 1),
          threw ? "an acceptable selection was refused" : "a misfit selection was encrypted");
    if (refuse || threw)
        c.nt();
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B07";
    sp.subs = {
      {"classify", classification, 200000, 20000000,
       "contests against limits of every kind; non-trivial: not valid, or several selections"},
      {"malformed", malformed, 1200, 60000,
       "ballots with one to three of 16 malformations, refused exactly when they must be and otherwise "
       "equal to the reference encryption of the normalised ballot; all non-trivial but ambiguous ones"},
      {"misfits", misfits, 900, 50000,
       "single contests and selections that do not fit their description; non-trivial: refused"}};
    sp.assumptions = {};
    return sp;
}
