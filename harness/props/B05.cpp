// B05: nonce derivation, reproducibility and absence of nonce reuse.
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

static const DumpOpts NoSelProofs{true, false, true};

// every nonce and every pad of a ballot, labelled
static void collect(const CBallot &b, const Str &tag, std::map<Z, Str> &nonces,
                    std::map<Z, Str> &pads)
{
    auto add = [&](std::map<Z, Str> &m, const Z &v, const Str &what, const char *kind) {
        auto r = m.emplace(v, what);
        check(r.second, Str(kind) + " of " + what + " was already used by " + r.first->second);
    };
    for (auto &c : b.contests) {
        Str ct = tag + " contest " + c.id;
        check(c.nonce.has_value(), "no nonce in " + ct);
        add(nonces, *c.nonce, ct, "nonce");
        check(c.ext.has_value(), "no extended data in " + ct);
        add(pads, c.ext->pad, ct + " extended data", "pad");
        for (auto &s : c.sels) {
            Str st = ct + " selection " + s.id;
            check(s.nonce.has_value(), "no nonce in " + st);
            check(*s.nonce > 0 && *s.nonce < ref::QQ(), "nonce of " + st + " out of range");
            add(nonces, *s.nonce, st, "nonce");
            add(pads, s.ct.a, st, "pad");
            // proof commitments hide nonces too
            if (s.proof) {
                add(pads, s.proof->a0, st + " proof zero", "commitment");
                add(pads, s.proof->a1, st + " proof one", "commitment");
            }
        }
        if (c.proof)
            add(pads, c.proof->a, ct + " limit proof", "commitment");
    }
    check(b.nonce.has_value(), "no ballot nonce");
    add(nonces, *b.nonce, tag + " ballot", "nonce");
}

static void derived(Ctx &c)
{
    auto &s = c.src;
    Election e = genElection(s, tiny());
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z seed = ref::genQ(s), nonce = ref::genQ(s);
    uint64_t t = 1 + (s.edgy64() >> 1);
    c << dump(e.man) << dump(b) << "\nseed " << ref::shortHex(seed) << " nonce "
      << ref::shortHex(nonce) << " time " << t;
    PrecomputeBufferContext::empty_queues();
    auto enc = encryptBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(seed),
                             ref::modQ(nonce), t, s.chance(1, 8));
    CBallot g = of(*enc);
    CBallot want = refEncrypt(b, e.in, e.key.K, e.extBase, seed, nonce, t);
    same(dump(want, NoSelProofs), dump(g, NoSelProofs), "encryption with a given nonce");
    check(ref::of(*enc->nonceSeed()) == ref::H({e.in.hash, b.id, nonce}), "nonce seed");
    std::map<Z, Str> n, p;
    collect(g, "ballot", n, p);
    size_t k = 0;
    for (auto &x : g.contests)
        k += x.sels.size();
    if (k > 2)
        c.nt();
}

// pairs: again the same, and with one input changed
static void pairs(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 2;
    o.maxElected = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z seed = ref::genQ(s), nonce = s.chance(1, 10) ? Z(0) : ref::genExp(s);
    uint64_t t = 1 + s.upto(1000);
    PrecomputeBufferContext::empty_queues();
    auto enc = [&](const Ballot &x, const Z &sd, const Z &nc, uint64_t ts) {
        return of(*encryptBallot(*lib(x), *e.internalManifest, *e.context, *ref::modQ(sd),
                                 ref::modQ(nc), ts, false));
    };
    CBallot g1 = enc(b, seed, nonce, t);
    Ballot b2 = b;
    Z seed2 = seed, nonce2 = nonce;
    uint64_t t2 = t;
    size_t kind = s.upto(4);
    static const char *names[] = {"same", "other nonce", "other ballot id", "other seed and time",
                                  "both"};
    c << names[kind] << " " << dump(e.man) << dump(b);
    c.label(names[kind]);
    if (kind == 1 || kind == 4) {
        nonce2 = s.boolean() ? ref::genExp(s) : ref::modq(nonce + 1);
        if (nonce2 == nonce || nonce2 == 0)
            discard();
    }
    if (kind == 2 || kind == 4) {
        if (s.chance(1, 4)) { // two that differ only far behind
            b.id += Str(s.range(1, 300), 'y');
            g1 = enc(b, seed, nonce, t);
        }
        b2.id = s.boolean() ? b.id + "x" : genText(s, 6);
        if (b2.id == b.id || (b2.id.empty() && b.id == "null") || (b.id.empty() && b2.id == "null"))
            discard();
    }
    if (kind == 3) {
        seed2 = ref::modq(seed + 1);
        t2 = t + 1;
    }
    CBallot g2 = enc(b2, seed2, nonce2, t2);
    if (kind == 0)
        same(dump(g1, NoSelProofs), dump(g2, NoSelProofs), "a second encryption");
    else if (kind == 3) {
        g1.seed = g2.seed = 0;
        g1.code = g2.code = 0;
        g1.timestamp = g2.timestamp = 0;
        same(dump(g1, NoSelProofs), dump(g2, NoSelProofs),
             "encryption at another place of the chain");
    } else {
        std::map<Z, Str> n, p;
        collect(g1, "first", n, p);
        if (kind == 2)
            n.erase(*g1.nonce); // given, the same for both
        collect(g2, "second", n, p);
        check(g1.code != g2.code, "the same ballot code");
    }
    c.nt();
}

// nothing supplied: everything fresh, also across devices and with buffers
static void freshness(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 2;
    o.maxElected = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    EncryptionDevice dev(1, 2, 3, "x");
    EncryptionMediator m(*e.internalManifest, *e.context, dev);
    std::map<Z, Str> n, p;
    size_t k = s.range(2, 4);
    bool buffered = s.chance(1, 2);
    c << k << " encryptions" << (buffered ? " with buffers " : " ") << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    if (buffered) {
        PrecomputeBufferContext::init(static_cast<uint32_t>(s.range(1, 12)));
        PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
        PrecomputeBufferContext::stop_populate();
        c.label("with buffers");
    }
    std::map<uint64_t, Str> words; // of ballot nonces, each of which is random
    auto unrelated = [&](const Z &nonce, const Str &tag) {
        for (auto w : ref::limbs(nonce, MAX_Q_LEN)) {
            auto r = words.emplace(w, tag);
            check(r.second,
                  "the ballot nonce of " + tag + " is related to that of " + r.first->second);
        }
    };
    for (size_t i = 0; i < k; i++) {
        Str tag = "encryption " + std::to_string(i);
        auto plainBallot = lib(b);
        switch (s.pick({2, 1, 1})) {
            case 0: {
                CBallot x = of(*encryptBallot(*plainBallot, *e.internalManifest, *e.context,
                                              *dev.getHash(), nullptr, 5, false));
                collect(x, tag, n, p);
                unrelated(*x.nonce, tag);
                break;
            }
            case 1: {
                CBallot x = of(*m.encrypt(*plainBallot, false));
                collect(x, tag, n, p);
                unrelated(*x.nonce, tag);
                break;
            }
            default: {
                auto x = encryptCompactBallot(*plainBallot, *e.internalManifest, *e.context,
                                              *dev.getHash(), nullptr, 5, false);
                check(n.emplace(ref::of(*x->getNonce()), tag).second, "ballot nonce repeated");
                CBallot w = refEncrypt(b, e.in, e.key.K, e.extBase, ref::of(*dev.getHash()),
                                       ref::of(*x->getNonce()), 5);
                n.erase(*w.nonce);
                collect(w, tag, n, p);
                unrelated(*w.nonce, tag);
            }
        }
    }
    PrecomputeBufferContext::empty_queues();
    c.nt();
}

// the contest and selection functions on their own
static void pieces(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 1;
    o.maxStyles = 1;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    Ballot b = genBallot(s, e.in, style);
    Z nonce = ref::genExp(s);
    c << dump(e.man) << dump(b);
    PrecomputeBufferContext::empty_queues();
    auto ns =
      CiphertextBallot::nonceSeed(*e.internalManifest->getManifestHash(), b.id, *ref::modQ(nonce));
    check(ref::of(*ns) == ref::H({e.in.hash, b.id, nonce}), "nonce seed");
    CBallot want = refEncrypt(b, e.in, e.key.K, e.extBase, 1, nonce, 1);
    auto got = encryptContests(*lib(b), *e.internalManifest, *e.context, *ns, false);
    check(got.size() == want.contests.size(), "number of contests");
    for (size_t i = 0; i < got.size(); i++)
        same(dump(want.contests[i], NoSelProofs), dump(of(*got[i]), NoSelProofs), "contest");
    // one selection from the contest nonce
    auto *d = contestsOf(e.in, style)[0];
    size_t k = s.upto(d->sels.size() - 1);
    auto &ds = d->sels[k];
    for (auto &w : want.contests[0].sels)
        if (w.id == ds.id) {
            uint64_t vote = 0;
            auto pl = plain(b, e.in)[0];
            for (auto &v : pl.votes)
                if (v.first == ds.id)
                    vote = v.second;
            auto es = encryptSelection(*lib(BSel{ds.id, vote, false, ""}), *lib(ds),
                                       *e.context->getElGamalPublicKey(),
                                       *e.context->getCryptoExtendedBaseHash(),
                                       *ref::modQ(*want.contests[0].nonce), false, false);
            same(dump(w, NoSelProofs), dump(of(*es), NoSelProofs), "selection");
        }
    if (d->sels.size() + d->placeholders.size() > 2)
        c.nt();
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B05";
    sp.subs = {
      {"derived", derived, 400, 80000,
       "whole ballots with a given nonce against the reference encrypter (everything but the "
       "random "
       "selection proofs); non-trivial: more than two selections"},
      {"pairs", pairs, 300, 50000,
       "two encryptions with the same inputs, or with another nonce, identifier, seed or time; all "
       "non-trivial"},
      {"fresh", freshness, 180, 40000,
       "two to four encryptions without a nonce, full, compact, by a device, with and without "
       "buffers; all non-trivial"},
      {"pieces", pieces, 200, 40000, "contests and selections on their own; same rule as derived"}};
    sp.assumptions = {"with precomputed values the selection nonces come from the buffer instead",
                      "SHA-256 and the random source give no collisions in the explored cases"};
    return sp;
}
