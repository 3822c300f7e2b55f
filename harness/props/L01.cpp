// L01: what the library writes to its log.
#include "electionguard/ballot_compact.hpp"
#include "electionguard/hash.hpp"
#include "electionguard/precompute_buffers.hpp"
#include "nonces.hpp"
#include "ser.hpp"

#include <algorithm>
#include <functional>
#include <spdlog/spdlog.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;

// everything that reaches standard output and standard error while f runs
static Str logOf(const std::function<void()> &f)
{
    fflush(stdout);
    fflush(stderr);
    int fd = memfd_create("log", 0);
    int out = dup(1), err = dup(2);
    if (fd < 0 || out < 0 || err < 0)
        abort();
    dup2(fd, 1);
    dup2(fd, 2);
    std::exception_ptr x;
    try {
        f();
    } catch (...) {
        x = std::current_exception();
    }
    for (auto &l : {spdlog::default_logger()})
        if (l)
            l->flush();
    fflush(stdout);
    fflush(stderr);
    std::cout.flush();
    std::cerr.flush();
    dup2(out, 1);
    dup2(err, 2);
    close(out);
    close(err);
    Str r;
    lseek(fd, 0, SEEK_SET);
    char buf[65536];
    for (ssize_t n; (n = ::read(fd, buf, sizeof buf)) > 0;)
        r.append(buf, static_cast<size_t>(n));
    close(fd);
    if (x)
        std::rethrow_exception(x);
    return r;
}

struct Secrets {
    Vec<std::pair<Str, Vec<Str>>> all;
    static Str str(const Vec<uint8_t> &v) { return Str(v.begin(), v.end()); }
    void number(const Str &what, const Z &z)
    {
        if (mpz_sizeinbase(z.get_mpz_t(), 2) < 100) // may occur by chance
            return;
        Str h = z.get_str(16), up = h;
        for (auto &ch : up)
            ch = static_cast<char>(toupper(ch));
        auto be = ref::toBytes(z, (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8), le = be;
        std::reverse(le.begin(), le.end());
        Vec<Str> forms{up, h, z.get_str(10), str(be), str(le)};
        Str dec, limb; // as a list of bytes or of words
        for (size_t i = 0; i < 8; i++)
            dec += (i ? " " : "") + std::to_string(be[i]);
        forms.push_back(dec);
        all.push_back({what, forms});
        (void)limb;
    }
    void bytes(const Str &what, const Vec<uint8_t> &v)
    {
        if (std::set<uint8_t>(v.begin(), v.end()).size() < 8) // may occur by chance
            return;
        Str up = hexOf(v), lo = up;
        for (auto &ch : up)
            ch = static_cast<char>(toupper(ch));
        for (auto &ch : lo)
            ch = static_cast<char>(tolower(ch));
        all.push_back({what, {str(v), up, lo}});
    }
    void text(const Str &what, const Str &t) { bytes(what, Vec<uint8_t>(t.begin(), t.end())); }
    void absent(const Str &log) const
    {
        for (auto &x : all)
            for (auto &f : x.second) {
                auto at = log.find(f);
                if (at == Str::npos)
                    continue;
                auto from = log.rfind('\n', at);
                from = from == Str::npos ? 0 : from + 1;
                fail(x.first + " is written to the log: " +
                     show(log.substr(from, std::min<size_t>(at - from + 40, 300)), 400));
            }
    }
};

static Ballot marked(Ctx &c, Ballot b, Secrets &x)
{
    int n = 0;
    for (auto &k : b.contests)
        for (auto &sel : k.sels)
            if (!sel.writeIn.empty()) { // cannot occur by chance
                sel.writeIn =
                  "Wxyz" + std::to_string(1000 + c.src.upto(8999)) + "Qgh" + std::to_string(n++);
                x.text("a write-in", sel.writeIn);
                c.label("write-in");
            }
    return b;
}
static void secretsOf(Secrets &x, const CBallot &m, const Z &manifest)
{
    if (m.nonce) {
        x.number("the ballot nonce", *m.nonce);
        x.number("the nonce seed", ref::H({manifest, m.id, *m.nonce}));
    }
    for (auto &k : m.contests) {
        if (k.nonce) {
            x.number("a contest nonce", *k.nonce);
            x.number("the nonce of the extended data",
                     ref::NonceSeq(*k.nonce, {"constant-extended-data"}).get(0));
        }
        Z sum = 0;
        for (auto &sel : k.sels)
            if (sel.nonce) {
                x.number("a selection nonce", *sel.nonce);
                sum += *sel.nonce;
                if (sel.proof) {
                    auto &p = *sel.proof;
                    x.number("a proof secret", ref::modq(p.v0 - p.c0 * *sel.nonce));
                    x.number("a proof secret", ref::modq(p.v1 - p.c1 * *sel.nonce));
                }
            }
        x.number("an aggregate nonce", ref::modq(sum));
        if (k.proof)
            x.number("a limit proof secret", ref::modq(k.proof->v - k.proof->c * sum));
    }
}

static void fill(Ctx &c, const ElementModP &k)
{
    PrecomputeBufferContext::empty_queues();
    PrecomputeBufferContext::init(static_cast<uint32_t>(c.src.range(1, 6)));
    PrecomputeBufferContext::populate(k);
    PrecomputeBufferContext::stop_populate();
    c.label("precomputed");
}
template <typename F> static void quietly(F f)
{
    try {
        f();
    } catch (const Fail &) {
        throw;
    } catch (const std::exception &) {
    }
}

// all that is done with one ballot
static void life(Ctx &c, const Election &e, const Ballot &b, Secrets &x, const Z &seed,
                 const Z &nonce, uint64_t stamp, uint64_t plan, bool alter)
{
    x.number("the secret key", e.key.s);
    x.number("the ballot nonce", nonce);
    auto plainBallot = lib(b);
    if (plan & 1) {
        size_t f = (plan >> 1) % 3;
        plainBallot = read<PlaintextBallot>(write(*plainBallot, f), f);
    }
    bool pre = c.labels.count("precomputed") != 0;
    U<CiphertextBallot> l;
    switch ((plan >> 3) % 4) {
        case 0:
            l = encryptBallot(*plainBallot, *e.internalManifest, *e.context, *ref::modQ(seed),
                              ref::modQ(nonce), stamp, (plan >> 5) & 1, pre);
            break;
        case 1: {
            auto cp =
              encryptCompactBallot(*plainBallot, *e.internalManifest, *e.context, *ref::modQ(seed),
                                   ref::modQ(nonce), stamp, (plan >> 5) & 1);
            size_t f = (plan >> 6) % 3;
            cp = read<CompactCiphertextBallot>(write(*cp, f), f);
            l = expandCompactCiphertextBallot(*cp, *e.internalManifest, *e.context);
            break;
        }
        default: {
            EncryptionDevice d(11, 12, 13, "place");
            EncryptionMediator med(*e.internalManifest, *e.context, d);
            l = med.encrypt(*plainBallot, (plan >> 5) & 1);
            if ((plan >> 6) & 1) {
                auto cp = compressCiphertextBallot(*plainBallot, *l);
                x.number("the ballot nonce", ref::of(*cp->getNonce()));
            }
        }
    }
    auto K = e.context->getElGamalPublicKey();
    auto base = e.context->getCryptoExtendedBaseHash();
    auto hash = e.context->getManifestHash();
    CBallot m = of(*l);
    secretsOf(x, m, e.in.hash);
    // one or two of the things done with a ballot afterwards
    auto other = ref::modQ(ref::modq(seed + 5));
    auto contests = l->getContests();
    for (int i = 0; i < 2 && !contests.empty(); i++) {
        auto &k = contests[(plan >> 32) % contests.size()].get();
        auto sels = k.getSelections();
        size_t f = (plan >> (12 + 2 * i)) % 3;
        switch ((plan >> (20 + 4 * i)) % 9) {
            case 0:
                l->isValidEncryption(*hash, *K, *base);
                break;
            case 1:
                quietly([&] { l->isValidEncryption(*other, *K, *base); });
                break;
            case 2:
                quietly([&] { l->isValidEncryption(*hash, *K, *other); });
                break;
            case 3:
                quietly([&] { l->isValidEncryption(*hash, *ref::modP(ref::gpow(7)), *base); });
                break;
            case 4: {
                quietly([&] { k.isValidEncryption(*other, *K, *base); });
                auto agg = k.aggregateNonce();
                x.number("an aggregate nonce", ref::of(*agg));
                break;
            }
            case 5:
                if (!sels.empty()) {
                    auto &sel = sels[(plan >> 40) % sels.size()].get();
                    quietly([&] { sel.isValidEncryption(*other, *K, *base); });
                    sel.getCiphertext()->decrypt(*ref::modQ(e.key.s));
                }
                break;
            case 6: {
                auto ext = k.getHashedElGamalCiphertext();
                HashedElGamalCiphertext h(ext->getPad()->clone(), ext->getData(), ext->getMac());
                quietly([&] {
                    x.bytes("the extended data", h.decrypt(*ref::modQ(e.key.s), *base, plan & 1));
                });
                quietly([&] { h.decrypt(*ref::modQ(e.key.s), *other, true); });
                break;
            }
            case 7: {
                write(*l, f);
                read<CiphertextBallot>(write(*l, f, true), f);
                break;
            }
            default: {
                auto sub = SubmittedBallot::from(*l, plan & 2 ? BallotBoxState::cast
                                                              : BallotBoxState::spoiled);
                read<SubmittedBallot>(write(*sub, f), f);
            }
        }
    }
    if (!alter)
        return;
    // altered copies that still own their nonces
    CBallot bad = m;
    if (!bad.contests.empty()) {
        auto &k = bad.contests[plan % bad.contests.size()];
        switch ((plan >> 9) % 4) {
            case 0:
                k.hash = ref::modq(k.hash + 1);
                break;
            case 1:
                k.acc.a = ref::mulp(k.acc.a, ref::GG());
                break;
            case 2:
                if (!k.sels.empty() && k.sels[0].proof)
                    k.sels[0].proof->v0 = ref::modq(k.sels[0].proof->v0 + 1);
                break;
            default:
                if (k.proof)
                    k.proof->v = ref::modq(k.proof->v + 1);
        }
        quietly([&] { lib(bad)->isValidEncryption(*hash, *K, *base); });
    }
}

static void ballots(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.allWriteIn = s.boolean();
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    c << dump(e.man);
    Secrets x;
    Ballot b = marked(c, genBallot(s, e.in, style), x);
    Str why;
    switch (s.pick({6, 1, 1})) {
        case 1:
            b.style = "no such style";
            c.label("refused");
            break;
        case 2:
            if (!b.contests.empty() && !b.contests[0].sels.empty()) {
                b.contests[0].sels[0].vote = s.range(2, 5);
                c.label("refused");
            }
            break;
        default:
            break;
    }
    c << dump(b);
    if (s.chance(1, 4))
        fill(c, *e.context->getElGamalPublicKey());
    else
        PrecomputeBufferContext::empty_queues();
    Z seed = ref::H({"chain", s.u64()}), nonce = ref::randExp(s);
    uint64_t stamp = genStamp(s), plan = s.u64();
    if (c.labels.count("write-in") || b.contests.size() > 1)
        c.nt();
    Str log =
      logOf([&] { quietly([&] { life(c, e, b, x, seed, nonce, stamp, plan, s.chance(1, 3)); }); });
    if (!log.empty())
        c.label("captured");
    x.absent(log);
    PrecomputeBufferContext::empty_queues();
}

// messages without times, process numbers and public numbers
static Str messages(const Str &log)
{
    Str r;
    std::istringstream in(log);
    for (Str l; std::getline(in, l);) {
        auto at = l.find(" :: ");
        if (at != Str::npos && l[0] == '[')
            l = l.substr(at);
        Str t;
        for (size_t i = 0; i < l.size();) {
            size_t j = i;
            while (j < l.size() && isxdigit(static_cast<unsigned char>(l[j])))
                j++;
            if (j - i >= 24) {
                t += "#";
                i = j;
            } else if (j > i) {
                t += l.substr(i, j - i);
                i = j;
            } else
                t += l[i++];
        }
        r += t + "\n";
    }
    return r;
}
static void votes(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.allWriteIn = s.boolean();
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    c << dump(e.man);
    BallotOpts bo;
    bo.overvotes = false;
    bo.omit = false;
    Ballot a = normalise(genBallot(s, e.in, style, bo), e.in);
    Ballot b = a;
    bool differs = false;
    for (auto &k : b.contests) {
        auto *d = findContest(e.in, k.id);
        // other marks, at most as many as the contest allows
        uint64_t left = s.upto(d->elected);
        auto p = s.shuffle(k.sels.size());
        Vec<uint64_t> v(k.sels.size(), 0);
        for (size_t i = 0; i < p.size() && left; i++, left--)
            v[p[i]] = 1;
        for (size_t i = 0; i < v.size(); i++) {
            differs = differs || v[i] != k.sels[i].vote;
            k.sels[i].vote = v[i];
        }
    }
    if (differs)
        c.nt();
    c << dump(a) << dump(b);
    PrecomputeBufferContext::empty_queues();
    uint64_t stamp = genStamp(s), plan = s.u64();
    // Some messages depend on public numbers, so one difference means nothing: a message tells
    // the vote if its count for one ballot is always above that for the other.
    std::map<Str, std::pair<uint64_t, uint64_t>> range[2];
    for (int round = 0; round < 12; round++) {
        Z seed = ref::H({"chain", s.u64()}), nonce = ref::randExp(s);
        for (int i = 0; i < 2; i++) {
            Secrets ignored;
            std::map<Str, uint64_t> count;
            std::istringstream in(messages(
              logOf([&] { life(c, e, i ? b : a, ignored, seed, nonce, stamp, plan, false); })));
            for (Str l; std::getline(in, l);)
                count[l]++;
            for (auto &kv : count)
                if (round && !range[i].count(kv.first))
                    range[i][kv.first] = {0, 0};
            for (auto &kv : range[i])
                count.insert({kv.first, 0});
            for (auto &kv : count) {
                auto at = range[i].insert({kv.first, {kv.second, kv.second}}).first;
                at->second.first = std::min(at->second.first, kv.second);
                at->second.second = std::max(at->second.second, kv.second);
            }
        }
        Str telling;
        for (int i = 0; i < 2; i++)
            for (auto &kv : range[i]) {
                auto o = range[1 - i].find(kv.first);
                uint64_t most = o == range[1 - i].end() ? 0 : o->second.second;
                if (kv.second.first > most)
                    telling = kv.first;
            }
        if (telling.empty()) {
            if (round)
                c.label("public numbers matter");
            return;
        }
        check(round < 11, "a message depends on the votes: " + show(telling, 300));
    }
}

static void primitive(Ctx &c, const Vec<size_t> &ops)
{
    auto &s = c.src;
    Secrets x;
    Z sec = ref::randExp(s), r = ref::randExp(s), seed = ref::randExp(s),
      ctx = ref::H({"context", s.u64()});
    uint64_t m = s.upto(1);
    size_t len = s.range(20, 200);
    auto msg = s.bytes(len);
    msg[0] |= 1;
    auto key = ref::genKey(s);
    bool own = s.chance(1, 8);
    bool pre = s.chance(1, 3);
    size_t op = s.of(ops);
    uint64_t vote = s.size(0, 5), more = s.size(0, 3);
    c << "op " << op << " bit " << m << " length " << len;
    c.nt();
    c.label("op " + std::to_string(op));
    PrecomputeBufferContext::empty_queues();
    Str log = logOf([&] {
        auto kp = own ? ElGamalKeyPair::fromSecret(*ref::modQ(sec), false) : nullptr;
        auto *pair = own ? kp.get() : key.kp.get();
        auto &K = *pair->getPublicKey();
        auto &S = *pair->getSecretKey();
        x.number("the secret key", ref::of(S));
        auto n = ref::modQ(r);
        auto h = ref::modQ(ctx);
        x.number("the nonce", r);
        switch (op) {
            case 0: { // a selection and its proof
                auto ct = elgamalEncrypt(m, *n, K);
                if (pre)
                    ct->decrypt(S);
                auto p = DisjunctiveChaumPedersenProof::make(*ct, *n, K, *h, *ref::modQ(seed), m);
                auto d = ref::of(*p);
                x.number("the seed", seed);
                x.number("a proof secret", ref::modq(d.v0 - d.c0 * r));
                x.number("a proof secret", ref::modq(d.v1 - d.c1 * r));
                quietly([&] { p->isValid(*ct, K, *ref::modQ(ref::modq(ctx + m))); });
                break;
            }
            case 1: {
                auto ct = elgamalEncrypt(m, *n, K);
                auto p = DisjunctiveChaumPedersenProof::make(*ct, *n, K, *h, m);
                auto d = ref::of(*p);
                x.number("a proof secret", ref::modq(d.v0 - d.c0 * r));
                x.number("a proof secret", ref::modq(d.v1 - d.c1 * r));
                quietly([&] { p->isValid(*ct, *ref::modP(ref::gpow(9)), *h); });
                break;
            }
            case 2: {
                auto ct = elgamalEncrypt(m, *n, K);
                auto p = ConstantChaumPedersenProof::make(*ct, *n, K, *ref::modQ(seed), *h, m);
                auto d = ref::of(*p);
                x.number("the seed", seed);
                x.number("a proof secret", ref::modq(d.v - d.c * r));
                quietly([&] { p->isValid(*ct, K, *ref::modQ(ref::modq(ctx + m))); });
                break;
            }
            case 3: {
                x.bytes("the message", msg);
                auto ct = hashedElgamalEncrypt(msg, *n, K, *h, BYTES_512, true, pre);
                ct->decrypt(S, *h, true);
                quietly([&] { ct->decrypt(S, *ref::modQ(ref::modq(ctx + 1)), true); });
                quietly([&] { ct->decrypt(*ref::modQ(ref::modq(sec + 1)), *h, true); });
                break;
            }
            case 4: {
                x.number("the seed", seed);
                Nonces ns(*ref::modQ(seed), "header");
                for (uint64_t i = 0; i < 4; i++)
                    x.number("a nonce of the sequence", ref::of(*ns.get(i)));
                auto batch = ns.get(5, 3);
                for (auto &q : batch)
                    x.number("a nonce of the sequence", ref::of(*q));
                x.number("a nonce of the sequence", ref::of(*ns.next()));
                break;
            }
            case 5: {
                PrecomputeBufferContext::init(static_cast<uint32_t>(1 + len % 4));
                PrecomputeBufferContext::populate(K);
                PrecomputeBufferContext::stop_populate();
                while (auto t = PrecomputeBufferContext::getTriple())
                    x.number("a precomputed exponent", ref::of(*t->get_exp()));
                while (auto t = PrecomputeBufferContext::getTwoTriplesAndAQuadruple()) {
                    x.number("a precomputed exponent", ref::of(*t->get_triple1()->get_exp()));
                    x.number("a precomputed exponent", ref::of(*t->get_triple2()->get_exp()));
                    x.number("a precomputed exponent", ref::of(*t->get_quad()->get_exp1()));
                    x.number("a precomputed exponent", ref::of(*t->get_quad()->get_exp2()));
                }
                break;
            }
            case 6: {
                for (int i = 0; i < 4; i++)
                    x.number("a random element", ref::of(*rand_q()));
                x.number("a random element", ref::of(*rand_p()));
                break;
            }
            case 7: { // arithmetic on secrets
                auto a = ref::modQ(sec), b = ref::modQ(seed);
                x.number("an operand", sec);
                x.number("an operand", seed);
                x.number("a sum", ref::of(*add_mod_q(*a, *b)));
                x.number("a difference", ref::of(*sub_mod_q(*a, *b)));
                x.number("a product", ref::of(*a_plus_bc_mod_q(*a, *b, *n)));
                if (pre)
                    pow_mod_p(*ref::modP(ref::gpow(3)), *b);
                a->toHex();
                a->clone();
                ElementModQ::fromHex(a->toHex());
                break;
            }
            case 9: { // a single selection or contest, acceptable or not
                Str t = "Wxyz" + std::to_string(len) + "Ghij" + std::to_string(r.get_ui());
                x.text("a write-in", t);
                x.number("the nonce seed", seed);
                PlaintextBallotSelection sel("sel", vote, own, t);
                SelectionDescription d("sel", "cand", len);
                auto sh = d.crypto_hash();
                x.number("the selection nonce", ref::NonceSeq(ref::of(*sh), {seed}).get(len));
                sel.isValid(len % 2 ? "sel" : "other");
                if (pre)
                    quietly(
                      [&] { encryptSelection(sel, d, K, *h, *ref::modQ(seed), false, false); });
                Vec<U<PlaintextBallotSelection>> v;
                v.push_back(std::make_unique<PlaintextBallotSelection>("sel", vote, own, t));
                v.push_back(std::make_unique<PlaintextBallotSelection>("two", more, own, t));
                PlaintextBallotContest k("contest", std::move(v));
                k.isValid(len % 5 ? "contest" : "other", 1 + len % 3, 1, 1 + len % 2);
                break;
            }
            case 8: { // hashing secrets
                auto a = ref::modQ(sec);
                x.number("an operand", sec);
                Str t = "Wxyz" + std::to_string(len) + "Ghij" + std::to_string(r.get_ui());
                x.text("a text", t);
                hash_elems({a.get(), t, static_cast<uint64_t>(m)});
                break;
            }
            default: { // sums
                Vec<U<ElGamalCiphertext>> v;
                Vec<std::reference_wrapper<ElGamalCiphertext>> refs;
                Z sum = 0;
                for (int i = 0; i < 3; i++) {
                    Z ri = ref::modq(r + i * seed);
                    x.number("the nonce", ri);
                    v.push_back(elgamalEncrypt(m, *ref::modQ(ri), K));
                    refs.push_back(*v.back());
                }
                elgamalAdd(refs);
            }
        }
    });
    x.absent(log);
    PrecomputeBufferContext::empty_queues();
}

static void primitives(Ctx &c) { primitive(c, {0, 1, 2, 3, 5, 10}); }
static void values(Ctx &c) { primitive(c, {4, 6, 7, 8, 9}); }

Spec pbt::spec()
{
    Spec p;
    p.property = "L01";
    p.subs = {
      {"ballots", ballots, 90, 6000,
       "an election and a ballot with distinctive write-ins that is encrypted (directly, compactly "
       "or "
       "by a mediator), verified against right and wrong inputs, decrypted, serialized, read back, "
       "altered and verified again, or refused; the log at trace level is searched for the "
       "secrets; "
       "non-trivial: with a write-in or several contests"},
      {"votes", votes, 70, 5000,
       "two acceptable ballots that differ only in their marks: the messages are the same; "
       "non-trivial: the marks differ"},
      {"primitives", primitives, 250, 15000,
       "encryption, proofs, precomputed values and sums of one secret; every case is non-trivial"},
      {"values", values, 3000, 100000,
       "nonce sequences, random draws, arithmetic and hashing of secrets, single selections and "
       "contests, acceptable or not; every case is non-trivial"},
    };
    p.warmup = [] {
        // the logger exists from the first message on
        Language("a", "b").crypto_hash();
        spdlog::set_level(spdlog::level::trace);
        spdlog::apply_all([](std::shared_ptr<spdlog::logger> l) {
            l->set_level(spdlog::level::trace);
            for (auto &k : l->sinks())
                k->set_level(spdlog::level::trace);
        });
    };
    p.assumptions = {
      "secrets are searched for as text, hexadecimal, decimal and bytes; other encodings are not "
      "recognised",
      "the log goes to standard output or standard error, at trace level"};
    return p;
}
