// B06: compact ballots against the ballots they stand for.
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

// proofs may use fresh randomness
static const DumpOpts NoProofs{true, false, false};

static void fill(Ctx &c, const Election &e)
{
    PrecomputeBufferContext::init(static_cast<uint32_t>(c.src.range(1, 4)));
    PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
    PrecomputeBufferContext::stop_populate();
}

static Str dumpCompact(const CompactPlaintextBallot &p)
{
    std::ostringstream o;
    o << show(p.getObjectId(), 200) << " " << show(p.getStyleId(), 200) << " [";
    for (auto v : p.getSelections())
        o << v << ",";
    o << "] [";
    for (auto &w : p.getWriteIns())
        o << show(w, 4000) << ",";
    o << "]";
    return o.str();
}
static Str dumpCompact(const CompactCiphertextBallot &p)
{
    std::ostringstream o;
    o << dumpCompact(*p.getPlaintext()) << " id " << show(p.getObjectId(), 200) << " state "
      << static_cast<int>(p.getBallotBoxState()) << " time " << p.getTimestamp() << " seed "
      << ref::of(*p.getBallotCodeSeed()).get_str(16) << " code "
      << ref::of(*p.getBallotCode()).get_str(16) << " nonce "
      << ref::of(*p.getNonce()).get_str(16);
    return o.str();
}
template <typename T> static U<T> trip(Ctx &c, const T &t, size_t f)
{
    (void)c;
    switch (f) {
        case 1:
            return T::fromJson(t.toJson());
        case 2:
            return T::fromBson(t.toBson());
        case 3:
            return T::fromMsgPack(t.toMsgPack());
        default:
            return nullptr;
    }
}

static Ballot unflagged(Ballot b)
{
    for (auto &k : b.contests)
        for (auto &s : k.sels)
            s.placeholder = false;
    return b;
}

static void plaintext(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    Man m = genManifest(s, o);
    Internal in = internal(m);
    Str style = genStyle(s, in);
    if (style.empty())
        discard();
    Ballot raw = genBallot(s, in, style);
    if (s.chance(1, 4)) // compression does not look at the votes
        for (auto &k : raw.contests)
            for (auto &x : k.sels)
                x.vote = s.edgy64() >> 1;
    c << dump(m) << dump(raw);
    InternalManifest lm(*lib(m));
    // positional for any ballot
    auto cp = s.boolean() ? compressPlaintextBallot(*lib(raw)) : CompactPlaintextBallot::make(*lib(raw));
    Vec<uint64_t> votes;
    Vec<Str> ws;
    for (auto &k : raw.contests)
        for (auto &x : k.sels) {
            votes.push_back(x.vote);
            ws.push_back(x.writeIn);
        }
    check(cp->getObjectId() == raw.id && cp->getStyleId() == raw.style, "identifiers");
    check(cp->getSelections() == votes, "votes of the compact ballot");
    check(cp->getWriteIns() == ws, "write-ins of the compact ballot");
    // complete ballots come back
    Ballot n = normalise(raw, in);
    auto cn = compressPlaintextBallot(*lib(n));
    size_t f = s.upto(3);
    if (f > 0) {
        auto back = trip(c, *cn, f);
        same(dumpCompact(*cn), dumpCompact(*back), "compact ballot after serialization");
        cn = move(back);
        c.label("serialized");
    }
    auto ex = expandCompactPlaintextBallot(*cn, lm);
    same(dump(unflagged(n)), dump(of(*ex)), "expanded ballot");
    if (n.contests.size() > 1)
        c.nt();
    for (auto &w : ws)
        if (!w.empty())
            c.nt(), c.label("write-in");
    // truncated or foreign compact ballots are refused
    auto v = cn->getSelections();
    auto w = cn->getWriteIns();
    Str st = style;
    switch (s.upto(2)) {
        case 0:
            if (v.empty())
                return;
            v.resize(s.upto(v.size() - 1));
            break;
        case 1:
            if (w.empty())
                return;
            w.resize(s.upto(w.size() - 1));
            break;
        default:
            st += " unknown";
    }
    CompactPlaintextBallot bad(raw.id, st, v, w);
    bool threw = false;
    try {
        expandCompactPlaintextBallot(bad, lm);
    } catch (const std::exception &) {
        threw = true;
    }
    check(threw, "a truncated or foreign compact ballot was expanded");
}

static void ciphertext(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 2;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z seed = ref::genQ(s), nonce = ref::genExp(s);
    uint64_t t = s.edgy64() >> 1;
    bool given = s.boolean();
    c << dump(e.man) << dump(b) << " time " << t;
    PrecomputeBufferContext::empty_queues();
    if (s.chance(1, 4))
        fill(c, e), c.label("buffers filled before encryption");
    U<CompactCiphertextBallot> cp;
    switch (s.pick({3, 1, 1})) {
        case 0:
            cp = encryptCompactBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(seed),
                                      given ? ref::modQ(nonce) : nullptr, t, false);
            break;
        case 1: {
            EncryptionDevice dev(s.u64(), 1, 2, "here");
            EncryptionMediator m(*e.internalManifest, *e.context, dev);
            cp = m.compactEncrypt(*lib(b), false);
            seed = ref::of(*dev.getHash());
            given = false;
            t = 0;
            c.label("device");
            break;
        }
        default: { // compressed from a full encryption
            PrecomputeBufferContext::empty_queues();
            auto full = encryptBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(seed),
                                      given ? ref::modQ(nonce) : nullptr, t, false);
            auto n = lib(normalise(b, e.in));
            cp = s.boolean() ? compressCiphertextBallot(*n, *full)
                             : CompactCiphertextBallot::make(*n, *full);
            c.label("compressed");
        }
    }
    if (!given)
        nonce = ref::of(*cp->getNonce());
    if (t == 0)
        t = cp->getTimestamp();
    CBallot want = refEncrypt(b, e.in, e.key.K, e.extBase, seed, nonce, t);
    check(cp->getTimestamp() == t, "timestamp");
    check(ref::of(*cp->getNonce()) == nonce, "nonce");
    check(ref::of(*cp->getBallotCodeSeed()) == seed, "chain seed");
    check(ref::of(*cp->getBallotCode()) == want.code, "ballot code");
    check(cp->getObjectId() == b.id, "identifier");
    Ballot n = normalise(b, e.in);
    same(dumpCompact(*compressPlaintextBallot(*lib(n))), dumpCompact(*cp->getPlaintext()),
         "compact plaintext");
    auto state = static_cast<BallotBoxState>(s.of(Vec<int>{
      static_cast<int>(BallotBoxState::cast), static_cast<int>(BallotBoxState::spoiled),
      static_cast<int>(BallotBoxState::unknown)}));
    if (s.boolean()) {
        cp->setBallotBoxState(state);
        check(cp->getBallotBoxState() == state, "state");
    }
    size_t f = s.upto(3);
    if (f > 0) {
        auto back = trip(c, *cp, f);
        same(dumpCompact(*cp), dumpCompact(*back), "compact ballot after serialization");
        cp = move(back);
        c.label("serialized");
    }
    if (s.chance(1, 4))
        fill(c, e), c.label("buffers filled before expansion");
    auto ex = expandCompactCiphertextBallot(*cp, *e.internalManifest, *e.context);
    PrecomputeBufferContext::empty_queues();
    same(dump(want, NoProofs), dump(of(*ex), NoProofs), "expanded ballot");
    if (want.contests.size() > 1 || want.contests[0].sels.size() > 2)
        c.nt();
}

static void altered(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 2;
    o.maxElected = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z seed = ref::genQ(s), nonce = ref::genExp(s);
    uint64_t t = 1 + s.upto(1000000);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto cp = encryptCompactBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(seed),
                                   ref::modQ(nonce), t, false);
    Z code = ref::of(*cp->getBallotCode());
    auto votes = cp->getPlaintext()->getSelections();
    auto ws = cp->getPlaintext()->getWriteIns();
    Str id = b.id;
    Str what;
    bool timeless = false;
    switch (s.upto(7)) {
        case 0: {
            auto &v = s.of(votes);
            const_cast<uint64_t &>(v) = s.of(Vec<uint64_t>{1 - std::min<uint64_t>(v, 1), 2, 1, 0, v + (uint64_t(1) << s.range(8, 62))});
            what = "vote";
            break;
        }
        case 1:
            id += "x";
            what = "identifier";
            break;
        case 2:
            nonce = ref::modq(nonce + 1);
            what = "nonce";
            break;
        case 3:
            seed = ref::modq(seed + 1);
            what = "seed";
            break;
        case 4:
            t = s.of(Vec<uint64_t>{t + 1, 0, t + (uint64_t(1) << 32), t ^ (uint64_t(1) << s.upto(62))});
            timeless = t == 0;
            what = "timestamp";
            break;
        case 5:
            code = s.boolean() ? ref::modq(code + 1) : Z(0);
            what = "code";
            break;
        case 6: {
            // a ballot style with other contests
            auto &st = s.of(e.in.styles);
            style = st.id;
            what = "style";
            break;
        }
        default:
            if (!ws.empty())
                ws[0] += "w";
            what = "write-in";
    }
    c << " altered " << what;
    c.label(what);
    // what the altered data stands for
    bool ok = !timeless;
    auto cs = contestsOf(e.in, style);
    size_t need = 0;
    for (auto *k : cs)
        need += k->sels.size();
    if (cs.empty() || need > votes.size())
        ok = false;
    if (ok) {
        Ballot x;
        x.id = id;
        x.style = style;
        size_t i = 0;
        for (auto *k : cs) {
            BContest bc;
            bc.id = k->id;
            Contest d = sorted(*k);
            for (auto &y : d.sels) {
                bc.sels.push_back({y.id, votes[i], false, ws[i]});
                i++;
            }
            x.contests.push_back(bc);
        }
        auto pl = plain(x, e.in);
        for (auto &p : pl)
            for (auto &v : p.votes)
                ok = ok && v.second <= 1;
        if (ok)
            ok = refEncrypt(x, e.in, e.key.K, e.extBase, seed, nonce, t).code == code;
    }
    auto state = static_cast<BallotBoxState>(s.of(Vec<int>{
      static_cast<int>(BallotBoxState::unknown), static_cast<int>(BallotBoxState::cast),
      static_cast<int>(BallotBoxState::spoiled)}));
    auto bad = make_unique<CompactCiphertextBallot>(
      make_unique<CompactPlaintextBallot>(id, style, votes, ws), state, ref::modQ(seed),
      ref::modQ(code), t, ref::modQ(nonce));
    size_t f = s.upto(3);
    if (f > 0)
        bad = trip(c, *bad, f);
    bool expanded = false;
    try {
        auto ex = expandCompactCiphertextBallot(*bad, *e.internalManifest, *e.context);
        expanded = true;
        check(ref::of(*ex->getBallotCode()) == code, "expanded to another code");
    } catch (const Fail &) {
        throw;
    } catch (const std::exception &) {
    }
    check(expanded == ok, expanded ? "an altered compact ballot was expanded (" + what + ")"
                                   : "a proper compact ballot was refused (" + what + ")");
    if (!ok)
        c.nt();
    else
        c.label("stands for the same votes");
}

// A compact ballot needs its plaintext, chain seed, code and nonce.
static void missing(Ctx &c)
{
    auto &s = c.src;
    Man m = genManifest(s, tiny());
    Internal in = internal(m);
    Str style = genStyle(s, in);
    if (style.empty())
        discard();
    Ballot n = normalise(genBallot(s, in, style), in);
    InternalManifest lm(*lib(m));
    auto p = lib(n);
    size_t gone = s.upto(4);
    auto q = [&](size_t k) { return k == gone ? nullptr : ref::modQ(ref::genQ(s)); };
    uint64_t t = s.edgy64();
    c << dump(m) << dump(n) << " without part " << gone;
    if (s.boolean()) {
        CiphertextBallot full(n.id, n.style, *lm.getManifestHash(), q(0), {}, q(1), t, q(2),
                              ref::modQ(ref::genQ(s)));
        U<CompactCiphertextBallot> cp;
        try {
            cp = s.boolean() ? compressCiphertextBallot(*p, full)
                             : CompactCiphertextBallot::make(*p, full);
        } catch (const std::exception &) {
        }
        check(!cp == (gone <= 2), "compression of a ballot without its parts");
        if (cp) {
            check(cp->getTimestamp() == t && *cp->getNonce() == *full.getNonce() &&
                    *cp->getBallotCode() == *full.getBallotCode() &&
                    *cp->getBallotCodeSeed() == *full.getBallotCodeSeed(),
                  "parts of the compact ballot");
            same(dumpCompact(*compressPlaintextBallot(*p)), dumpCompact(*cp->getPlaintext()),
                 "compact plaintext");
        }
        c.label("compress");
    } else {
        CompactCiphertextBallot cp(gone == 3 ? nullptr : CompactPlaintextBallot::make(*p),
                                   BallotBoxState::cast, q(0), q(1), t, q(2));
        static auto context = CiphertextElectionContext::make(
          3, 2, g_pow_p(*ElementModQ::fromUint64(12345)), ref::modQ(Z(5)), ref::modQ(Z(7)));
        bool expanded = false;
        try {
            expandCompactCiphertextBallot(cp, lm, *context);
            expanded = true;
        } catch (const std::exception &) {
        }
        check(!expanded, "a compact ballot with missing or arbitrary parts was expanded");
        c.label("expand");
    }
    if (gone < 4)
        c.nt();
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B06";
    nulTexts = true;
    sp.subs = {
      {"plaintext", plaintext, 15000, 1500000,
       "ballots of generated elections compressed, serialized and expanded, then truncated; "
       "non-trivial: several contests or a write-in"},
      {"ciphertext", ciphertext, 110, 30000,
       "compact encryptions of every origin, serialized or not, with buffers filled before encryption "
       "or expansion, against the reference encrypter; non-trivial: several contests or more than two "
       "selections"},
      {"altered", altered, 160, 30000,
       "one field of a compact ballot changed; expansion must fail unless the votes it stands for have "
       "the same code; non-trivial: must fail"},
      {"missing", missing, 200, 60000,
       "ballots without chain seed, code, nonce or plaintext compressed or expanded; non-trivial: a part "
       "is absent"}};
    sp.assumptions = {"timestamps stay below 2^63 (BSON has no larger integers)",
                      "write-ins are not part of the ballot hash, so altering them is not detected by "
                      "the code"};
    return sp;
}
