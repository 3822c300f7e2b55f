// B04: histories of encryptions through one device; the codes must form one
// chain from the device's hash.
#include "electionguard/ballot_code.hpp"
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

// the hash a ballot must have, without any exponentiation where possible
static void fullCode(const CBallot &g, const Z &seed, const Z &manifest, const Str &how)
{
    check(g.seed == seed, how + "chain seed is not the previous code");
    check(g.hash == hashBallot(g, manifest), how + "ballot hash");
    check(g.manifest == manifest, how + "manifest hash");
    for (auto &c : g.contests) {
        check(c.hash == hashContest(c), how + "contest hash");
        for (auto &s : c.sels)
            check(s.hash == hashSel(s), how + "selection hash");
    }
    check(g.code == ballotCode(seed, g.timestamp, g.hash),
          how + "code is not the hash of seed, timestamp and ballot hash");
}

static void chain(Ctx &c, size_t most)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 2;
    o.maxElected = 2;
    if (most > 5) {
        o.maxContests = 1;
        o.maxSels = 1;
        o.maxElected = 1;
    }
    Election e = genElection(s, o);
    if (genStyle(s, e.in).empty())
        discard();
    uint64_t d = s.edgy64(), ss = s.edgy64(), l = s.edgy64();
    Str loc = genText(s, 10);
    EncryptionDevice dev(d, ss, l, loc);
    Z first = deviceHash(d, ss, l, loc);
    check(ref::of(*dev.getHash()) == first, "device hash");
    check(ref::of(*BallotCode::getHashForDevice(d, ss, l, loc)) == first, "getHashForDevice");
    PrecomputeBufferContext::empty_queues();
    if (s.chance(1, 5)) {
        PrecomputeBufferContext::init(static_cast<uint32_t>(s.range(1, 6)));
        PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
        PrecomputeBufferContext::stop_populate();
        c.label("precomputed");
    }
    EncryptionMediator m(*e.internalManifest, *e.context, dev);
    // an unrelated chain of the same device must not interfere
    EncryptionMediator other(*e.internalManifest, *e.context, dev);
    Z otherPrev = first;
    Z prev = first;
    size_t n = most > 5 ? s.range(10, most) : s.range(1, most);
    std::set<Z> codes;
    size_t done = 0, failed = 0;
    bool both[2] = {false, false};
    c << "device " << d << " " << ss << " " << l << " " << loc << "\n" << dump(e.man);
    for (size_t i = 0; i < n; i++) {
        Str how = "step " + std::to_string(i) + ": ";
        Str style = genStyle(s, e.in);
        Ballot b = genBallot(s, e.in, style);
        size_t kind = s.pick({4, 3, 2, 1});
        bool verify = s.chance(1, 8);
        c << "\n" << how;
        if (kind == 2) { // a ballot that is refused, sometimes after part of it was encrypted
            c << "refused";
            if (s.boolean() || b.contests.empty() || b.contests.back().sels.empty())
                b.style += " unknown";
            else {
                // a value other than 0 or 1 within the limits
                bool ok = false;
                for (auto &k : b.contests) {
                    auto *dc = findContest(e.in, k.id);
                    if (dc->elected >= 2 && !k.sels.empty()) {
                        for (auto &x : k.sels)
                            x.vote = 0;
                        k.sels.back().vote = 2;
                        ok = true;
                        break;
                    }
                }
                if (!ok)
                    b.style += " unknown";
            }
            bool threw = false;
            try {
                if (s.boolean())
                    m.encrypt(*lib(b), verify);
                else
                    m.compactEncrypt(*lib(b), verify);
            } catch (const std::exception &) {
                threw = true;
            }
            check(threw, how + "a malformed ballot was encrypted");
            failed++;
            continue;
        }
        c << (kind == 0 ? "full " : kind == 1 ? "compact " : "other chain ") << dump(b);
        if (kind == 3) {
            auto enc = other.encrypt(*lib(b), verify);
            CBallot g = of(*enc);
            fullCode(g, otherPrev, e.in.hash, how + "other chain: ");
            otherPrev = g.code;
            continue;
        }
        Z code;
        uint64_t ts = 0;
        if (kind == 0) {
            auto enc = m.encrypt(*lib(b), verify);
            CBallot g = of(*enc);
            fullCode(g, prev, e.in.hash, how);
            code = g.code;
            ts = g.timestamp;
            check(ref::of(*BallotCode::getBallotCode(*ref::modQ(prev), ts, *ref::modQ(g.hash))) ==
                    code,
                  how + "getBallotCode");
        } else {
            auto enc = m.compactEncrypt(*lib(b), verify);
            check(ref::of(*enc->getBallotCodeSeed()) == prev,
                  how + "chain seed is not the previous code");
            code = ref::of(*enc->getBallotCode());
            ts = enc->getTimestamp();
            CBallot want =
              refEncrypt(b, e.in, e.key.K, e.extBase, prev, ref::of(*enc->getNonce()), ts);
            check(want.code == code, how + "code of the compact ballot");
        }
        check(ts != 0, how + "no timestamp");
        check(codes.insert(code).second, how + "code repeated");
        prev = code;
        both[kind] = true;
        done++;
    }
    PrecomputeBufferContext::empty_queues();
    if (done >= 2)
        c.nt();
    if (both[0] && both[1])
        c.label("mixed full and compact");
    if (failed && done)
        c.label("with refused ballots");
}

static void history(Ctx &c) { chain(c, 5); }
static void longer(Ctx &c) { chain(c, 70); }

// hundreds of ballots of the smallest kind
static void veryLong(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 1;
    o.maxSels = 1;
    Man man = genManifest(s, o);
    for (auto &k : man.contests)
        k.elected = 0;
    Election e = electionOf(s, man);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    uint64_t d = s.edgy64(), ss = s.edgy64(), l = s.edgy64();
    Str loc = genText(s, 10) + Str(s.many(0, 3, 70000, 4), 'y');
    EncryptionDevice dev(d, ss, l, loc);
    Z prev = deviceHash(d, ss, l, loc);
    EncryptionMediator m(*e.internalManifest, *e.context, dev);
    PrecomputeBufferContext::empty_queues();
    size_t n = s.range(80, 700);
    uint64_t x = s.u64();
    c << n << " ballots, device " << d << " " << ss << " " << l << " location of " << loc.size();
    c.nt();
    std::set<Z> codes;
    for (size_t i = 0; i < n; i++) {
        Str how = "ballot " + std::to_string(i) + ": ";
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        Ballot b;
        b.id = "ballot-" + std::to_string(i);
        b.style = style;
        Z code;
        if ((x >> 33) % 3 == 0) {
            auto enc = m.compactEncrypt(*lib(b), false);
            check(ref::of(*enc->getBallotCodeSeed()) == prev,
                  how + "chain seed is not the previous code");
            code = ref::of(*enc->getBallotCode());
        } else {
            CBallot g = of(*m.encrypt(*lib(b), false));
            fullCode(g, prev, e.in.hash, how);
            code = g.code;
        }
        check(codes.insert(code).second, how + "code repeated");
        prev = code;
    }
}

// the code function by itself, and its sensitivity
static void codes(Ctx &c)
{
    auto &s = c.src;
    Z seed = ref::genQ(s), hash = ref::genQ(s);
    uint64_t t = s.edgy64();
    c << "seed " << ref::shortHex(seed) << " time " << t << " hash " << ref::shortHex(hash);
    auto code = [](const Z &a, uint64_t b, const Z &h) {
        return ref::of(*BallotCode::getBallotCode(*ref::modQ(a), b, *ref::modQ(h)));
    };
    Z v = code(seed, t, hash);
    check(v == ballotCode(seed, t, hash), "ballot code");
    check(code(hash, t, seed) == ballotCode(hash, t, seed), "ballot code, exchanged");
    Z seed2 = ref::genQ(s), hash2 = ref::genQ(s);
    uint64_t t2 = s.edgy64();
    check((seed2 == seed) == (code(seed2, t, hash) == v), "seed does not influence the code");
    check((hash2 == hash) == (code(seed, t, hash2) == v), "hash does not influence the code");
    check((t2 == t) == (code(seed, t2, hash) == v), "timestamp does not influence the code");
    uint64_t a = s.edgy64(), b = s.edgy64(), l = s.edgy64();
    Str loc = genText(s, 20);
    auto dh = ref::of(*BallotCode::getHashForDevice(a, b, l, loc));
    check(dh == deviceHash(a, b, l, loc), "device hash");
    EncryptionDevice dev(a, b, l, loc);
    check(dev.getDeviceUuid() == a && dev.getSessionUuid() == b && dev.getLaunchCode() == l &&
            dev.getLocation() == loc,
          "device parameters");
    check(ref::of(*dev.getHash()) == dh, "hash of the device");
    if (t > 0xffffffffULL || a > 0xffffffffULL)
        c.nt();
}

// ballots built directly: explicit seed and timestamp
static void direct(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 1;
    o.maxContests = 2;
    o.maxElected = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z seed = ref::genQ(s), nonce = ref::genExp(s);
    uint64_t t = s.edgy64();
    c << dump(b) << " seed " << ref::shortHex(seed) << " time " << t;
    PrecomputeBufferContext::empty_queues();
    auto enc = encryptBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(seed),
                             ref::modQ(nonce), t, false);
    CBallot g = of(*enc);
    check(t == 0 || g.timestamp == t, "timestamp differs from the given one");
    check(g.timestamp != 0, "no timestamp");
    fullCode(g, seed, e.in.hash, "");
    auto cmp = encryptCompactBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(seed),
                                    ref::modQ(nonce), g.timestamp, false);
    check(ref::of(*cmp->getBallotCode()) == g.code, "the compact ballot has another code");
    check(ref::of(*cmp->getBallotCodeSeed()) == seed, "the compact ballot has another seed");
    check(cmp->getTimestamp() == g.timestamp, "the compact ballot has another timestamp");
    c.nt();
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B04";
    sp.subs = {{"history", history, 320, 50000,
                "up to five full, compact and refused encryptions through one mediator, another "
                "chain of the same "
                "device interleaved, with and without precomputed values; non-trivial: at least "
                "two ballots in "
                "the chain"},
               {"long", longer, 16, 1500, "chains of 10 to 70 ballots with one contest; same rule"},
               {"hundreds", veryLong, 12, 400,
                "chains of 80 to 700 ballots of one selection; all non-trivial"},
               {"codes", codes, 20000, 2000000,
                "code and device hashes for generated arguments and single changes; non-trivial: a "
                "number above "
                "32 bits"},
               {"direct", direct, 250, 50000,
                "explicit seeds and timestamps, full and compact; all non-trivial"}};
    sp.assumptions = {"timestamps come from the system clock and are taken as given"};
    return sp;
}
