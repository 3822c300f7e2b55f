// B03: altered ballots, the library's verdict against the independent one.
#include "electionguard/precompute_buffers.hpp"
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

struct Genuine {
    Election e;
    Ballot b;
    CBallot g;
};

// genuine ballots are slow to make: each worker keeps a pool of them, every
// one a function of its number only
static const Genuine &genuine(uint64_t i)
{
    static std::map<uint64_t, U<Genuine>> pool;
    auto &p = pool[i];
    if (p)
        return *p;
    p = make_unique<Genuine>();
    PrecomputeBufferContext::empty_queues();
    for (uint64_t k = 0;; k++) {
        Src s(mix(0xb03, i * 100 + k));
        s.inner = true;
        ManOpts o = tiny();
        o.maxSels = 2;
        o.maxElected = 1 + i % 2;
        o.maxContests = 1 + i % 3;
        p->e = genElection(s, o, 2);
        Str style = genStyle(s, p->e.in);
        if (style.empty())
            continue;
        p->b = genBallot(s, p->e.in, style);
        auto n = contestsOf(p->e.in, style).size();
        if (n < (i % 3 == 2 ? 2u : 1u))
            continue;
        auto enc =
          encryptBallot(*lib(p->b), *p->e.internalManifest, *p->e.context, *ref::modQ(ref::genQ(s)),
                        ref::modQ(ref::genExp(s)), 1 + s.upto(1000000), false);
        p->g = of(*enc);
        return *p;
    }
}

static const Genuine &large(uint64_t i)
{
    static std::map<uint64_t, U<Genuine>> pool;
    auto &p = pool[i];
    if (p)
        return *p;
    p = make_unique<Genuine>();
    PrecomputeBufferContext::empty_queues();
    for (uint64_t k = 0;; k++) {
        Src s(mix(0xb03a, i * 100 + k));
        s.inner = true;
        p->e = genElection(s, vast(s), 2);
        Str style = genStyle(s, p->e.in);
        if (style.empty())
            continue;
        p->b = genBallot(s, p->e.in, style);
        p->g = of(*encryptBallot(*lib(p->b), *p->e.internalManifest, *p->e.context,
                                 *ref::modQ(ref::genQ(s)), ref::modQ(ref::genExp(s)),
                                 1 + s.upto(1000000), false));
        return *p;
    }
}

static void order(CBallot &b)
{
    // the order in which a ballot presents its parts
    std::stable_sort(b.contests.begin(), b.contests.end(),
                     [](auto &x, auto &y) { return x.seq < y.seq; });
    for (auto &c : b.contests)
        std::stable_sort(c.sels.begin(), c.sels.end(),
                         [](auto &x, auto &y) { return x.seq < y.seq; });
}
// make the public hashes consistent again, as a forger would
static void rehash(CBallot &b, bool sums)
{
    order(b);
    for (auto &c : b.contests) {
        for (auto &s : c.sels)
            s.hash = hashSel(s);
        c.hash = hashContest(c);
        if (sums) {
            c.acc = {1, 1};
            for (auto &s : c.sels)
                c.acc = {ref::mulp(c.acc.a, s.ct.a), ref::mulp(c.acc.b, s.ct.b)};
        }
    }
    b.hash = hashBallot(b, b.manifest);
}

static void bumpP(Src &s, Z &v)
{
    switch (s.pick({2, 2, 1, 1, 1})) {
        case 0:
            v = ref::mulp(v, ref::GG());
            break;
        case 1:
            v = ref::modp(ref::PP() - v); // out of the subgroup
            break;
        case 2:
            v = ref::modp(v + 1);
            break;
        case 3:
            v = s.of(Vec<Z>{0, 1, ref::PP() - 1, ref::GG()});
            break;
        default: {
            Z m = Z(1) << static_cast<unsigned long>(s.upto(4095));
            v ^= m;
            if (v >= ref::PP())
                v = 2;
        }
    }
}
static void bumpQ(Src &s, Z &v)
{
    switch (s.pick({2, 2, 1})) {
        case 0:
            v = ref::modq(v + 1);
            break;
        case 1: {
            Z m = Z(1) << static_cast<unsigned long>(s.upto(255));
            v ^= m;
            if (v >= ref::QQ())
                v = 3;
            break;
        }
        default:
            v = s.of(Vec<Z>{0, 1, ref::QQ() - 1});
    }
}
static void bumpId(Src &s, Str &id)
{
    switch (s.pick({2, 1, 1})) {
        case 0:
            id += "x";
            break;
        case 1:
            id = "";
            break;
        default:
            id = genText(s, 5);
    }
}

struct Target {
    Z manifest, K, base;
    bool sameKey = true;
};

static Str alter(Ctx &c, CBallot &b, Target &t, const Genuine &gen)
{
    auto &s = c.src;
    auto &con = b.contests[s.upto(b.contests.size() - 1)];
    auto &sel = con.sels[s.upto(con.sels.size() - 1)];
    auto *p = &*sel.proof;
    auto *l = &*con.proof;
    switch (s.upto(33)) {
        case 0:
            bumpId(s, b.id);
            return "ballot id";
        case 1:
            bumpQ(s, b.manifest);
            return "ballot manifest hash";
        case 2:
            bumpQ(s, b.hash);
            return "ballot hash";
        case 3:
            bumpId(s, con.id);
            return "contest id";
        case 4:
            bumpQ(s, con.desc);
            return "contest description hash";
        case 5:
            bumpQ(s, con.hash);
            return "contest hash";
        case 6:
            bumpP(s, s.boolean() ? con.acc.a : con.acc.b);
            return "contest total";
        case 7:
            bumpP(s, s.boolean() ? l->a : l->b);
            return "limit proof commitment";
        case 8:
            bumpQ(s, s.boolean() ? l->c : l->v);
            return "limit proof challenge or response";
        case 9:
            l->L = s.boolean() ? l->L + 1 : s.upto(3);
            return "limit proof constant";
        case 10:
            con.proof.reset();
            return "limit proof removed";
        case 11:
            bumpId(s, sel.id);
            return "selection id";
        case 12:
            bumpQ(s, sel.desc);
            return "selection description hash";
        case 13:
            bumpQ(s, sel.hash);
            return "selection hash";
        case 14:
            bumpP(s, sel.ct.a);
            return "selection pad";
        case 15:
            bumpP(s, sel.ct.b);
            return "selection data";
        case 16:
            bumpP(s, *s.of(Vec<Z *>{&p->a0, &p->b0, &p->a1, &p->b1}));
            return "selection proof commitment";
        case 17:
            bumpQ(s, *s.of(Vec<Z *>{&p->c0, &p->c1, &p->c, &p->v0, &p->v1}));
            return "selection proof challenge or response";
        case 18:
            if (s.boolean()) {
                std::swap(p->a0, p->a1);
                std::swap(p->b0, p->b1);
            }
            std::swap(p->c0, p->c1);
            std::swap(p->v0, p->v1);
            return "selection proof sides exchanged";
        case 19: { // challenges that still add up
            Z d = ref::randExp(s);
            p->c0 = ref::modq(p->c0 + d);
            p->c1 = ref::modq(p->c1 - d);
            return "challenges redistributed";
        }
        case 20:
            con.sels.erase(con.sels.begin() + static_cast<long>(s.upto(con.sels.size() - 1)));
            return "selection dropped";
        case 21: {
            CSel x = sel;
            if (s.boolean())
                x.seq = con.sels.back().seq + 1;
            con.sels.push_back(x);
            return "selection duplicated";
        }
        case 22: {
            auto &o = con.sels[s.upto(con.sels.size() - 1)];
            std::swap(o.ct, sel.ct);
            std::swap(o.proof, sel.proof);
            return "ciphertexts exchanged";
        }
        case 23: {
            auto &o = con.sels[s.upto(con.sels.size() - 1)];
            std::swap(o.seq, sel.seq);
            return "selection order exchanged";
        }
        case 24:
            b.contests.erase(b.contests.begin() + static_cast<long>(s.upto(b.contests.size() - 1)));
            return "contest dropped";
        case 25: {
            CContest x = con;
            x.seq = b.contests.back().seq + s.upto(1);
            b.contests.push_back(x);
            return "contest duplicated";
        }
        case 26: {
            auto &o = b.contests[s.upto(b.contests.size() - 1)];
            std::swap(o.seq, con.seq);
            return "contest order exchanged";
        }
        case 27: { // a contest or selection of another genuine ballot
            const Genuine &other = genuine(s.upto(11));
            auto &oc = other.g.contests[s.upto(other.g.contests.size() - 1)];
            if (s.boolean())
                con = oc;
            else
                sel = oc.sels[s.upto(oc.sels.size() - 1)];
            return "part of another ballot";
        }
        case 28: { // a vote replaced by a proper encryption of one or two
            Z r = ref::randExp(s);
            uint64_t v = s.range(0, 2);
            sel.ct = {ref::gpow(r), ref::mulp(ref::gpow(v), ref::powp(t.K, r))};
            Z seed = ref::randExp(s);
            sel.proof = ref::prove(sel.ct, r, t.K, t.base, seed, v == 0 ? 0 : 1);
            sel.nonce = r;
            return "vote replaced by " + std::to_string(v);
        }
        case 29:
            bumpQ(s, t.manifest);
            return "against another manifest";
        case 30:
            bumpQ(s, t.base);
            return "against another base hash";
        case 31: {
            t.K = ref::gpow(ref::randExp(s));
            t.sameKey = false;
            return "against another key";
        }
        case 32: { // one selection takes another's identity, its own proof broken
            auto &o = con.sels[s.upto(con.sels.size() - 1)];
            sel.id = o.id;
            if (s.boolean())
                p->v0 = ref::modq(p->v0 + 1);
            return "identifier taken over";
        }
        default:
            return "nothing";
    }
}

// what has been altered, at times in the place of something that was accepted
template <typename T, typename M, typename F>
static std::unique_ptr<T> instead(Ctx &c, const M &genuine, const M &altered, F accepts)
{
    auto &s = c.src;
    if (!s.chance(1, 4))
        return lib(altered);
    std::unique_ptr<T> l = lib(genuine);
    check(accepts(*l), "the genuine one was refused");
    auto other = lib(altered);
    c.label("in the place of an accepted one");
    if (s.boolean()) {
        *l = *other;
        return l;
    }
    other.reset();
    l.reset();
    return lib(altered);
}

static void whole(Ctx &c)
{
    auto &s = c.src;
    const Genuine &g = genuine(s.upto(11));
    CBallot b = g.g;
    Target t{g.e.in.hash, g.e.key.K, g.e.extBase, true};
    size_t n = s.pick({8, 2, 1}) + 1;
    Str what;
    for (size_t i = 0; i < n; i++) {
        bool empty = b.contests.empty();
        for (auto &k : b.contests)
            empty = empty || k.sels.empty() || !k.proof;
        if (empty)
            break;
        Str w = alter(c, b, t, g);
        c.label(w);
        what += w + "; ";
    }
    size_t fix = s.pick({2, 1, 2});
    if (fix > 0) {
        bool empty = false;
        for (auto &k : b.contests)
            empty = empty || k.sels.empty();
        if (!empty)
            rehash(b, fix == 2);
        what += fix == 2 ? "hashes and totals made consistent" : "hashes made consistent";
    }
    // a copied nonce must not influence anything
    if (s.boolean()) {
        b.nonce.reset();
        for (auto &k : b.contests) {
            k.nonce.reset();
            for (auto &x : k.sels)
                x.nonce.reset();
        }
    }
    c << what << "\n" << dump(b);
    auto gK = g.e.context->getElGamalPublicKey();
    auto l = instead<CiphertextBallot>(c, g.g, b, [&](CiphertextBallot &x) {
        return x.isValidEncryption(*ref::modQ(g.e.in.hash), *gK, *ref::modQ(g.e.extBase));
    });
    CBallot seen = of(*l);
    {
        CBallot w = b;
        order(w);
        bool ties = false;
        std::set<uint64_t> q;
        for (auto &k : b.contests) {
            ties = ties || !q.insert(k.seq).second;
            std::set<uint64_t> r;
            for (auto &x : k.sels)
                ties = ties || !r.insert(x.seq).second;
        }
        if (!ties)
            same(dump(w), dump(seen), "the ballot as constructed");
    }
    Str why = refuses(seen, t.manifest, t.K, t.base);
    bool accepted = false;
    Str err;
    auto K = ref::modP(t.K, t.sameKey && g.e.context->getElGamalPublicKey()->isFixedBase());
    try {
        accepted = l->isValidEncryption(*ref::modQ(t.manifest), *K, *ref::modQ(t.base));
    } catch (const std::exception &e) {
        err = e.what();
        c.label("refused by exception");
    }
    check(accepted == why.empty(),
          accepted ? "accepted an altered ballot (" + what + "), independent reason: " + why
                   : "refused a proper ballot (" + what + ") " + err);
    c.label(accepted ? "accepted" : "refused: " + why);
    if (!accepted)
        c.nt();
    // verification leaves the ballot alone
    same(dump(seen), dump(of(*l)), "the ballot after verification");
}

// one part anywhere in a ballot with dozens of selections or contests
static void vastBallots(Ctx &c)
{
    auto &s = c.src;
    const Genuine &g = large(s.upto(3));
    CBallot b = g.g;
    // mostly behind the middle
    auto place = [&](size_t n) { return s.chance(1, 4) ? s.upto(n - 1) : s.range(n / 2, n - 1); };
    auto &con = b.contests[place(b.contests.size())];
    auto &sel = con.sels[place(con.sels.size())];
    Str what;
    bool sums = true;
    switch (s.pick({2, 2, 2, 1, 1, 1, 1, 1})) {
        case 0:
            bumpP(s,
                  *s.of(Vec<Z *>{&sel.proof->a0, &sel.proof->b0, &sel.proof->a1, &sel.proof->b1}));
            what = "selection proof commitment";
            break;
        case 1:
            bumpQ(s, *s.of(Vec<Z *>{&sel.proof->c0, &sel.proof->c1, &sel.proof->c, &sel.proof->v0,
                                    &sel.proof->v1}));
            what = "selection proof challenge or response";
            break;
        case 2: { // a vote of two, and the limit proof of the new total
            Z r = ref::randExp(s);
            sel.ct = {ref::gpow(r), ref::mulp(ref::gpow(2), ref::powp(g.e.key.K, r))};
            sel.proof = ref::prove(sel.ct, r, g.e.key.K, g.e.extBase, ref::randExp(s), 1);
            what = "vote replaced";
            break;
        }
        case 3:
            bumpP(s, s.boolean() ? con.proof->a : con.proof->b);
            what = "limit proof commitment";
            break;
        case 4:
            bumpQ(s, s.boolean() ? con.proof->c : con.proof->v);
            what = "limit proof challenge or response";
            break;
        case 5:
            bumpP(s, s.boolean() ? con.acc.a : con.acc.b);
            sums = false;
            what = "contest total";
            break;
        case 6:
            sel.proof.reset();
            what = "selection proof removed";
            break;
        default:
            con.proof.reset();
            what = "limit proof removed";
    }
    rehash(b, sums);
    if (s.chance(1, 6)) {
        bumpQ(s, s.boolean() ? sel.hash : con.hash);
        what += ", a hash left wrong";
    }
    c << what << " in " << con.id << " / " << sel.id << " of " << b.contests.size() << " contests, "
      << con.sels.size() << " selections";
    c.label(what);
    c.nt();
    if (dump(b) == dump(g.g))
        discard();
    auto l = lib(b);
    bool accepted = false;
    try {
        accepted = l->isValidEncryption(
          *ref::modQ(g.e.in.hash), *g.e.context->getElGamalPublicKey(), *ref::modQ(g.e.extBase));
    } catch (const std::exception &) {
    }
    check(!accepted, "accepted an altered ballot (" + what + ")");
}

// contests and selections verified on their own
static void parts(Ctx &c)
{
    auto &s = c.src;
    const Genuine &g = genuine(s.upto(11));
    CBallot b = g.g;
    Target t{g.e.in.hash, g.e.key.K, g.e.extBase, true};
    size_t ci = s.upto(b.contests.size() - 1);
    size_t si = s.upto(b.contests[ci].sels.size() - 1);
    Z cdesc = b.contests[ci].desc, sdesc = b.contests[ci].sels[si].desc;
    const CContest gc = b.contests[ci];
    const CSel gs = gc.sels[si];
    auto gK = g.e.context->getElGamalPublicKey();
    b.contests = {CContest(b.contests[ci])};
    ci = 0;
    if (s.boolean()) { // the one selection most alterations meet
        b.contests[0].sels = {CSel(b.contests[0].sels[si])};
        si = 0;
    }
    Str what = alter(c, b, t, g);
    if (s.boolean() && !b.contests.empty()) {
        bool empty = false;
        for (auto &k : b.contests)
            empty = empty || k.sels.empty();
        if (!empty)
            rehash(b, s.boolean());
    }
    if (s.chance(1, 8))
        bumpQ(s, cdesc), what += "; against another contest description";
    if (s.chance(1, 8))
        bumpQ(s, sdesc), what += "; against another selection description";
    if (ci >= b.contests.size())
        discard();
    CContest k = b.contests[ci];
    auto K = ref::modP(t.K, t.sameKey && g.e.context->getElGamalPublicKey()->isFixedBase());
    auto base = ref::modQ(t.base);
    c << what << "\n" << dump(k);
    c.label(what);
    bool oneSel = s.boolean();
    if (oneSel) {
        if (si >= k.sels.size())
            discard();
        CSel x = k.sels[si];
        Str why = refuses(x, sdesc, t.K, t.base);
        auto l = instead<CiphertextBallotSelection>(c, gs, x, [&](CiphertextBallotSelection &y) {
            return y.isValidEncryption(*ref::modQ(gs.desc), *gK, *ref::modQ(g.e.extBase));
        });
        bool ok = false;
        try {
            ok = l->isValidEncryption(*ref::modQ(sdesc), *K, *base);
        } catch (const std::exception &e) {
            c.label("refused by exception");
        }
        check(ok == why.empty(),
              Str(ok ? "accepted" : "refused") + " selection (" + what + "), independent: " + why);
        if (!ok)
            c.nt();
        return;
    }
    Str why;
    bool ok = false;
    try {
        auto l = instead<CiphertextBallotContest>(c, gc, k, [&](CiphertextBallotContest &y) {
            return y.isValidEncryption(*ref::modQ(gc.desc), *gK, *ref::modQ(g.e.extBase));
        });
        CContest seen = of(*l);
        why = refuses(seen, cdesc, t.K, t.base);
        ok = l->isValidEncryption(*ref::modQ(cdesc), *K, *base);
    } catch (const std::exception &e) {
        c.label("refused by exception");
        why = why.empty() ? e.what() : why;
        if (!k.sels.empty() && why == e.what())
            fail(Str("exception on a proper contest: ") + e.what());
    }
    check(ok == why.empty(),
          Str(ok ? "accepted" : "refused") + " contest (" + what + "), independent: " + why);
    if (!ok)
        c.nt();
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "B03";
    sp.subs = {
      {"whole", whole, 480, 120000,
       "genuine ballots with 1 to 3 alterations of 33 kinds, the public hashes and totals "
       "recomputed as a "
       "forger would or not, checked against the right or another key, base hash or manifest; "
       "non-trivial: refused by the independent verifier"},
      {"large", vastBallots, 20, 6000,
       "ballots of 17 to 74 selections or contests, one part altered and the hashes made "
       "consistent; "
       "all non-trivial"},
      {"parts", parts, 480, 80000, "the same on single contests and selections; same rule"}};
    sp.assumptions = {"the reference verifier implements the proof equations of the specification",
                      "genuine ballots come from a pool of 12 small elections"};
    return sp;
}
