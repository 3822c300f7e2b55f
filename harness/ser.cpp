#include "ser.hpp"

#include <algorithm>

using namespace pbt;

namespace ser
{
    Str dumpCompact(const eg::CompactPlaintextBallot &p)
    {
        std::ostringstream o;
        o << show(p.getObjectId(), 200) << " " << show(p.getStyleId(), 200) << " [";
        for (auto v : p.getSelections())
            o << v << ",";
        o << "] [";
        for (auto &w : p.getWriteIns())
            o << show(w, 4000) << ",";
        o << "]";
        return o.str();
    }
    Str dumpCompact(const eg::CompactCiphertextBallot &p)
    {
        std::ostringstream o;
        o << dumpCompact(*p.getPlaintext()) << " id " << show(p.getObjectId(), 200) << " state "
          << static_cast<int>(p.getBallotBoxState()) << " time " << p.getTimestamp() << " seed "
          << ref::of(*p.getBallotCodeSeed()).get_str(16) << " code "
          << ref::of(*p.getBallotCode()).get_str(16) << " nonce "
          << ref::of(*p.getNonce()).get_str(16);
        return o.str();
    }
    Str dump(const CompactM &m)
    {
        std::ostringstream o;
        o << show(m.id, 200) << " " << show(m.style, 200) << " [";
        for (auto v : m.votes)
            o << v << ",";
        o << "] [";
        for (auto &w : m.writeIns)
            o << show(w, 4000) << ",";
        o << "] id " << show(m.id, 200) << " state " << m.state << " time " << m.timestamp
          << " seed " << m.seed.get_str(16) << " code " << m.code.get_str(16) << " nonce "
          << m.nonce.get_str(16);
        return o.str();
    }
    U<eg::CompactPlaintextBallot> libPlain(const CompactM &m)
    {
        return std::make_unique<eg::CompactPlaintextBallot>(m.id, m.style, m.votes, m.writeIns);
    }
    U<eg::CompactCiphertextBallot> lib(const CompactM &m)
    {
        return std::make_unique<eg::CompactCiphertextBallot>(
          libPlain(m), static_cast<eg::BallotBoxState>(m.state), ref::modQ(m.seed),
          ref::modQ(m.code), m.timestamp, ref::modQ(m.nonce));
    }
    uint64_t genStamp(Src &s) { return s.edgy64() >> 1; }

    static Z genEl(Src &s, bool p, const AnyOpts &o)
    {
        if (o.cheap || s.chance(1, 3))
            return Z(static_cast<unsigned long>(s.upto(300)));
        return p ? ref::genP(s) : ref::genQ(s);
    }
    static Opt<Z> genNonce(Src &s, const AnyOpts &o)
    {
        if (!o.nonces && s.boolean())
            return {};
        return genEl(s, false, o);
    }
    CSel genAnySel(Src &s, const Str &id, uint64_t seq, const AnyOpts &o)
    {
        CSel r;
        r.id = id;
        r.seq = seq;
        r.desc = genEl(s, false, o);
        r.ct = {genEl(s, true, o), genEl(s, true, o)};
        r.placeholder = s.boolean();
        r.nonce = genNonce(s, o);
        r.hash = genEl(s, false, o);
        ref::Disj d;
        for (Z *z : {&d.a0, &d.b0, &d.a1, &d.b1})
            *z = genEl(s, true, o);
        for (Z *z : {&d.c0, &d.c1, &d.c, &d.v0, &d.v1})
            *z = genEl(s, false, o);
        r.proof = d;
        return r;
    }
    // values (mostly distinct), small or anywhere in the range every format holds
    static Vec<uint64_t> genSeqs(Src &s, size_t n)
    {
        Vec<uint64_t> v;
        bool big = s.chance(1, 4);
        bool ties = s.chance(1, 6);
        uint64_t at = s.upto(2);
        for (size_t i = 0; i < n; i++) {
            v.push_back(at);
            if (ties && s.boolean())
                continue;
            at += big ? 1 + s.upto(UINT64_MAX >> 8) : 1 + s.upto(2);
        }
        if (s.chance(1, 3)) {
            Vec<uint64_t> w;
            for (auto i : s.shuffle(n))
                w.push_back(v[i]);
            return w;
        }
        return v;
    }
    CContest genAnyContest(Src &s, const Str &id, uint64_t seq, const AnyOpts &o)
    {
        CContest r;
        r.id = id;
        r.seq = seq;
        r.desc = genEl(s, false, o);
        std::set<Str> used;
        auto seqs = genSeqs(s, s.many(0, o.maxSels, o.maxSels > 2 ? 60 : 20, 200));
        for (auto q : seqs)
            r.sels.push_back(genAnySel(s, genId(s, used, "s"), q, o));
        r.nonce = genNonce(s, o);
        r.acc = {genEl(s, true, o), genEl(s, true, o)};
        r.hash = genEl(s, false, o);
        ref::Cons k;
        k.a = genEl(s, true, o);
        k.b = genEl(s, true, o);
        k.c = genEl(s, false, o);
        k.v = genEl(s, false, o);
        k.L = genStamp(s);
        r.proof = k;
        if (s.chance(2, 3)) {
            ref::HCT h;
            h.pad = genEl(s, true, o);
            h.data = s.bytes(s.upto(4) * 16 + s.upto(1));
            h.mac = s.bytes(s.pick({4, 1, 1}) == 0 ? 32 : s.upto(3));
            // the first bytes decide whether a hexadecimal text is well formed
            if (!h.data.empty() && s.chance(1, 3))
                h.data[0] = static_cast<uint8_t>(s.upto(2));
            if (!h.mac.empty() && s.chance(1, 3))
                h.mac[0] = static_cast<uint8_t>(s.upto(2));
            r.ext = h;
        }
        return r;
    }
    CBallot genAnyCiphertext(Src &s, const AnyOpts &o)
    {
        CBallot b;
        b.id = genText(s);
        b.style = genText(s);
        b.manifest = genEl(s, false, o);
        b.seed = genEl(s, false, o);
        std::set<Str> used;
        for (auto q : genSeqs(s, s.many(0, o.maxContests, 40, 200)))
            b.contests.push_back(genAnyContest(s, genId(s, used, "c"), q, o));
        b.code = genEl(s, false, o);
        b.timestamp = genStamp(s);
        b.nonce = genNonce(s, o);
        b.hash = genEl(s, false, o);
        return b;
    }
    Ballot genAnyPlaintext(Src &s, uint64_t maxVote)
    {
        Ballot b;
        b.id = genText(s);
        b.style = genText(s);
        std::set<Str> used;
        for (size_t i = s.many(0, 4, 300, 200); i > 0; i--) {
            BContest k;
            k.id = genId(s, used, "c");
            for (size_t j = s.many(0, 4, 300, 200); j > 0; j--) {
                BSel x;
                x.id = genId(s, used, "s");
                x.vote = std::min(maxVote, s.edgy64());
                x.placeholder = s.boolean();
                if (s.boolean())
                    x.writeIn = genText(s, s.boolean() ? 12 : 200);
                k.sels.push_back(x);
            }
            b.contests.push_back(k);
        }
        return b;
    }
    CompactM genAnyCompact(Src &s, uint64_t maxVote)
    {
        CompactM m;
        m.id = genText(s);
        m.style = genText(s);
        for (size_t i = s.many(0, 8, 400, 100); i > 0; i--)
            m.votes.push_back(std::min(maxVote, s.edgy64()));
        for (size_t i = s.many(0, 8, 400, 100); i > 0; i--)
            m.writeIns.push_back(genText(s, 30));
        m.state = static_cast<int>(s.of(Vec<uint64_t>{1, 2, 999}));
        m.seed = ref::genQ(s);
        m.code = ref::genQ(s);
        m.nonce = ref::genQ(s);
        m.timestamp = genStamp(s);
        return m;
    }
    CBallot sorted(CBallot b)
    {
        for (auto &k : b.contests)
            std::stable_sort(k.sels.begin(), k.sels.end(),
                             [](const CSel &l, const CSel &r) { return l.seq < r.seq; });
        std::stable_sort(b.contests.begin(), b.contests.end(),
                         [](const CContest &l, const CContest &r) { return l.seq < r.seq; });
        return b;
    }
    bool allNonces(const CBallot &b)
    {
        if (!b.nonce)
            return false;
        for (auto &k : b.contests) {
            if (!k.nonce)
                return false;
            for (auto &x : k.sels)
                if (!x.nonce)
                    return false;
        }
        return true;
    }
} // namespace ser
