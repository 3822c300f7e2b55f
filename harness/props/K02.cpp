// K02: concurrent use of shared objects, under ThreadSanitizer.
#include "electionguard/hash.hpp"
#include "electionguard/precompute_buffers.hpp"
#include "ser.hpp"

#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;
using B = PrecomputeBufferContext;

// runs the same-time part: all threads start together, the first failure counts
struct Team {
    std::mutex m;
    Str error;
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    void add(std::function<void()> f)
    {
        th.emplace_back([this, f] {
            ready++;
            while (!go)
                std::this_thread::yield();
            try {
                f();
            } catch (const Fail &e) {
                std::lock_guard<std::mutex> l(m);
                error = error.empty() ? e.msg : error;
            } catch (const std::exception &e) {
                std::lock_guard<std::mutex> l(m);
                error = error.empty() ? Str("unexpected exception: ") + e.what() : error;
            }
        });
    }
    void run()
    {
        while (ready < static_cast<int>(th.size()))
            std::this_thread::yield();
        go = true;
        for (auto &t : th)
            t.join();
        check(error.empty(), error);
    }
};

// shared elements: arithmetic, fixed base exponentiation, hashing, texts
static void elements(Ctx &c)
{
    auto &s = c.src;
    Vec<Z> kz, qz;
    Vec<ref::UP> keys;
    Vec<ref::UQ> qs;
    size_t nk = s.range(1, 3), nq = s.range(1, 3);
    for (size_t i = 0; i < nk; i++) {
        // new keys: their tables are built while several threads want them
        Z z = ref::gpow(ref::randExp(s));
        kz.push_back(z);
        keys.push_back(ref::modP(z, s.chance(3, 4)));
    }
    for (size_t i = 0; i < nq; i++) {
        qz.push_back(ref::genQ(s));
        qs.push_back(ref::modQ(qz.back()));
    }
    size_t threads = s.range(2, 4);
    struct Op {
        size_t kind, k, q;
        Str want;
    };
    Vec<Vec<Op>> plan(threads);
    for (auto &p : plan)
        for (size_t i = s.range(1, 4); i > 0; i--) {
            Op o{s.upto(10), s.upto(nk - 1), s.upto(nq - 1), ""};
            const Z &K = kz[o.k], &q = qz[o.q];
            switch (o.kind) {
                case 0:
                    o.want = ref::powp(K, q).get_str(16);
                    break;
                case 1:
                    o.want = ref::hex(K);
                    break;
                case 2:
                    o.want = ref::H({K, q}).get_str(16);
                    break;
                case 3:
                    o.want = ref::gpow(q).get_str(16);
                    break;
                case 4:
                    o.want = ref::mulp(K, K).get_str(16);
                    break;
                case 6: // read from text
                case 7: // read from bytes
                case 8: // to bytes
                    o.want = K.get_str(16) + " " + q.get_str(16);
                    break;
                case 9:
                    o.want = "1 1";
                    break;
                case 10:
                    o.want = ref::H({q, Z(0)}).get_str(16);
                    break;
                default:
                    o.want = ref::encrypt(1, q == 0 ? Z(1) : q, K).b.get_str(16);
            }
            c << "op " << o.kind << "(" << o.k << "," << o.q << ") ";
            p.push_back(o);
        }
    c.nt();
    c.label(std::to_string(threads) + " threads");
    Team team;
    for (size_t t = 0; t < threads; t++)
        team.add([&, t] {
            for (auto &o : plan[t]) {
                ElementModP &K = *keys[o.k];
                ElementModQ &q = *qs[o.q];
                Str got;
                switch (o.kind) {
                    case 0:
                        got = ref::of(*pow_mod_p(K, q)).get_str(16);
                        break;
                    case 1:
                        got = K.toHex();
                        break;
                    case 2:
                        got = ref::of(*hash_elems({&K, &q})).get_str(16);
                        break;
                    case 3:
                        got = ref::of(*g_pow_p(q)).get_str(16);
                        break;
                    case 4:
                        got = ref::of(*mul_mod_p(K, K)).get_str(16);
                        break;
                    case 6:
                        got = ref::of(*ElementModP::fromHex(ref::hex(kz[o.k]))).get_str(16) + " " +
                              ref::of(*ElementModQ::fromHex(ref::hex(qz[o.q]))).get_str(16);
                        break;
                    case 7:
                        got = ref::of(*bytes_to_p(K.toBytes())).get_str(16) + " " +
                              ref::of(*bytes_to_q(q.toBytes())).get_str(16);
                        break;
                    case 8:
                        got = ref::fromBytes(K.toBytes()).get_str(16) + " " +
                              ref::fromBytes(q.toBytes()).get_str(16);
                        break;
                    case 9: {
                        auto r = rand_q();
                        got = Str(K.isValidResidue() ? "1" : "0") +
                              (ref::of(*r) < ref::QQ() ? " 1" : " 0");
                        break;
                    }
                    case 10:
                        got = ref::of(*hash_elems({&q, ref::modQ(0).get()})).get_str(16);
                        break;
                    default: {
                        auto one = ref::modQ(1);
                        got = ref::of(*elgamalEncrypt(1, ref::of(q) == 0 ? *one : q, K)->getData())
                                .get_str(16);
                    }
                }
                check(got == o.want, "operation " + std::to_string(o.kind) +
                                       " gives another result with other threads at work");
            }
        });
    team.run();
}

// a shared election: encryption, verification, serialization and hashing
static void ballots(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 2;
    o.maxSels = 2;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    c << dump(e.man);
    B::empty_queues();
    // a fresh key object, so that nothing about it has been computed yet
    auto context =
      CiphertextElectionContext::make(e.guardians, e.quorum, ref::modP(e.key.K),
                                      ref::modQ(e.commitment), ref::modQ(gen::hash(e.man)));
    InternalManifest im(*e.manifest);
    EncryptionDevice device(1, 2, 3, "place");
    Ballot shared = genBallot(s, e.in, style);
    auto sharedPlain = lib(shared);
    Z seed = ref::genQ(s), nonce = ref::randExp(s);
    auto sharedEnc =
      encryptBallot(*sharedPlain, im, *e.context, *ref::modQ(seed), ref::modQ(nonce), 7, false);
    Str sharedJson = sharedEnc->toJson(true), sharedPlainJson = sharedPlain->toJson(),
        manJson = e.manifest->toJson();
    auto fresh = CiphertextBallot::fromJson(sharedJson);
    auto sharedPack = sharedEnc->toMsgPack(true);
    Z manHash = gen::hash(e.man);
    size_t threads = s.range(2, 3);
    struct Job {
        size_t kind;
        Ballot b;
        Z seed, nonce;
        CBallot want;
    };
    Vec<Vec<Job>> plan(threads);
    for (auto &p : plan)
        for (size_t i = s.range(1, 2); i > 0; i--) {
            Job j;
            j.kind = s.pick({3, 2, 2, 1, 2, 2, 2, 2});
            c << "job " << j.kind << " ";
            if (j.kind == 0) {
                j.b = genBallot(s, e.in, style);
                j.seed = ref::genQ(s);
                j.nonce = ref::randExp(s);
                j.want = refEncrypt(j.b, e.in, e.key.K, e.extBase, j.seed, j.nonce, 5);
            }
            p.push_back(std::move(j));
        }
    c.nt();
    static const DumpOpts NoSelProofs{true, false, true};
    Team team;
    for (size_t t = 0; t < threads; t++)
        team.add([&, t] {
            for (auto &j : plan[t])
                switch (j.kind) {
                    case 0: {
                        auto l = encryptBallot(*lib(j.b), im, *context, *ref::modQ(j.seed),
                                               ref::modQ(j.nonce), 5, false);
                        same(dump(j.want, NoSelProofs), dump(of(*l), NoSelProofs),
                             "ballot encrypted with other threads at work");
                        break;
                    }
                    case 1:
                        check(fresh->isValidEncryption(*context->getManifestHash(),
                                                       *context->getElGamalPublicKey(),
                                                       *context->getCryptoExtendedBaseHash()),
                              "a valid ballot is refused with other threads at work");
                        break;
                    case 2:
                        check(fresh->toJson(true) == sharedJson &&
                                sharedPlain->toJson() == sharedPlainJson,
                              "serialized form differs");
                        break;
                    case 3: {
                        EncryptionMediator med(im, *context, device);
                        auto l = med.encrypt(*sharedPlain, false);
                        CBallot m = of(*l);
                        check(ref::of(*l->getBallotCodeSeed()) == deviceHash(1, 2, 3, "place"),
                              "chain seed of the first ballot");
                        break;
                    }
                    case 4: {
                        check(ref::of(*e.manifest->crypto_hash()) == manHash, "manifest hash");
                        check(e.manifest->toJson() == manJson, "manifest document");
                        InternalManifest again(*e.manifest);
                        same(dump(sorted(e.in)), dump(of(again)), "internal manifest");
                        break;
                    }
                    case 6: { // documents read by several threads
                        check(CiphertextBallot::fromJson(sharedJson)->toJson(true) == sharedJson,
                              "a ballot read from JSON");
                        check(CiphertextBallot::fromMsgPack(sharedPack)->toJson(true) == sharedJson,
                              "a ballot read from MessagePack");
                        check(PlaintextBallot::fromJson(sharedPlainJson)->toJson() ==
                                sharedPlainJson,
                              "a plaintext ballot read");
                        break;
                    }
                    case 7: { // decryption
                        auto secret = ref::modQ(e.key.s);
                        CBallot m = of(*fresh);
                        for (auto &k : fresh->getContests()) {
                            for (auto &x : k.get().getSelections())
                                check(x.get().getCiphertext()->decrypt(*secret) <= 1,
                                      "a selection decrypts to something else");
                            auto ext = k.get().getHashedElGamalCiphertext();
                            if (ext)
                                ext->decrypt(*secret, *context->getCryptoExtendedBaseHash(), true);
                        }
                        break;
                    }
                    default: {
                        auto cp = CompactCiphertextBallot::make(*sharedPlain, *fresh);
                        check(ref::of(*cp->getNonce()) == ref::of(*fresh->getNonce()),
                              "compact ballot");
                        context->toJson();
                        auto sub = SubmittedBallot::from(*fresh, BallotBoxState::cast);
                        check(sub->getState() == BallotBoxState::cast, "submitted ballot");
                        // refusals are logged
                        check(!fresh->isValidEncryption(*ref::modQ(1),
                                                        *context->getElGamalPublicKey(),
                                                        *context->getCryptoExtendedBaseHash()),
                              "accepted for another manifest");
                    }
                }
        });
    team.run();
}

// threads that share no object at all: what one does never shows in another
static void apart(Ctx &c)
{
    auto &s = c.src;
    size_t threads = s.range(2, 4), rounds = s.range(20, 120);
    struct Own {
        Man m;
        U<Manifest> l;
        Str json, text;
        Z hash;
        Vec<uint8_t> bson;
        Ballot b;
        Str plain;
        U<EncryptionDevice> d;
        Z device, nonce, want;
        Vec<uint8_t> message;
    };
    Vec<Own> own(threads);
    for (auto &o : own) {
        ManOpts mo;
        mo.maxContests = 1;
        mo.minContests = 0;
        mo.maxSels = 2;
        mo.encryptable = false;
        o.m = genManifest(s, mo);
        o.l = lib(o.m);
        o.json = o.l->toJson();
        o.bson = o.l->toBson();
        o.text = dump(of(*o.l));
        o.hash = gen::hash(o.m);
        o.b = Ballot{};
        std::set<Str> none;
        o.b.id = genId(s, none, "b");
        o.b.style = genId(s, none, "s");
        o.plain = lib(o.b)->toJson();
        uint64_t id = s.u64() >> 1;
        o.d = make_unique<EncryptionDevice>(id, 2, 3, "place");
        o.device = deviceHash(id, 2, 3, "place");
        o.nonce = ref::randExp(s);
        o.want = ref::of(*hash_elems({o.b.id, ref::modQ(o.nonce).get()}));
        c << dump(o.m) << "\n";
    }
    Vec<size_t> kinds;
    for (size_t t = 0; t < threads; t++)
        kinds.push_back(s.pick({3, 2, 1, 1}));
    if (s.boolean()) // often all the same
        for (auto &k : kinds)
            k = kinds[0];
    c.nt();
    Team team;
    for (size_t t = 0; t < threads; t++)
        team.add([&, t] {
            auto &o = own[t];
            for (size_t i = 0; i < rounds; i++)
                switch (kinds[t]) {
                    case 0:
                        check(o.l->toJson() == o.json, "the document of a manifest differs");
                        check(ref::of(*o.l->crypto_hash()) == o.hash, "the manifest hash differs");
                        break;
                    case 1: {
                        auto r = Manifest::fromBson(o.bson);
                        check(r->toJson() == o.json, "a manifest read differs");
                        if (i == 0)
                            same(o.text, dump(of(*r)), "a manifest read");
                        break;
                    }
                    case 2: {
                        check(lib(o.b)->toJson() == o.plain, "a plaintext ballot differs");
                        check(ref::of(*o.d->getHash()) == o.device, "a device hash differs");
                        break;
                    }
                    default: {
                        auto n = ref::modQ(o.nonce);
                        check(ref::of(*n) == o.nonce && n->toHex() == ref::hex(o.nonce),
                              "an element differs");
                        check(ref::of(*hash_elems({o.b.id, n.get()})) == o.want, "a hash differs");
                    }
                }
        });
    team.run();
}

// many accelerated bases: tables are built, shared and used by several threads
static void tables(Ctx &c)
{
    auto &s = c.src;
    size_t nk = s.chance(1, 2) ? s.range(2, 5) : s.range(9, 18), threads = s.range(2, 4);
    Vec<Z> kz;
    Vec<ref::UP> keys;
    for (size_t i = 0; i < nk; i++) {
        kz.push_back(ref::gpow(ref::randExp(s)));
        keys.push_back(ref::modP(kz.back(), true));
    }
    Z q = ref::randExp(s);
    auto lq = ref::modQ(q);
    Vec<Str> want;
    for (auto &k : kz)
        want.push_back(ref::powp(k, q).get_str(16));
    Vec<Vec<size_t>> plan(threads);
    for (auto &p : plan) {
        for (size_t i = s.range(2, 8); i > 0; i--) {
            p.push_back(s.upto(nk - 1));
            c << p.back() << " ";
        }
        c << "/ ";
    }
    c.nt();
    c.label(std::to_string(nk) + " bases");
    Team team;
    for (size_t t = 0; t < threads; t++)
        team.add([&, t] {
            for (auto k : plan[t])
                for (int again = 0; again < 3; again++)
                    check(ref::of(*pow_mod_p(*keys[k], *lq)).get_str(16) == want[k],
                          "an accelerated base gives another power with other threads at work");
        });
    team.run();
    for (size_t k = 0; k < nk; k++)
        check(ref::of(*pow_mod_p(*keys[k], *lq)).get_str(16) == want[k],
              "an accelerated base gives another power afterwards");
}

// buffers filled, watched, stopped and drained while ballots are encrypted
static void buffers(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxContests = 1;
    o.maxSels = 2;
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    B::empty_queues();
    uint32_t max = static_cast<uint32_t>(s.range(1, 6));
    B::init(max);
    bool stop = s.boolean(), empty = s.chance(1, 3), drain = s.boolean(), watch = s.boolean();
    uint64_t delay = s.upto(20);
    size_t threads = s.range(1, 2), fillers = s.range(1, 2);
    bool again = s.chance(1, 3);
    Vec<Ballot> bs;
    for (size_t i = 0; i < threads; i++)
        bs.push_back(genBallot(s, e.in, style));
    c << dump(e.man) << "max " << max << " stop " << stop << " empty " << empty << " drain "
      << drain << " watch " << watch << " delay " << delay << " fillers " << fillers << " again "
      << again;
    c.nt();
    std::mutex m;
    Vec<CBallot> got;
    Vec<Z> exps;
    auto K = e.context->getElGamalPublicKey();
    {
        Team team;
        for (size_t i = 0; i < fillers; i++)
            team.add([&] { B::populate(*K); });
        if (again)
            team.add([&] {
                std::this_thread::sleep_for(std::chrono::milliseconds(delay / 2));
                B::init(max);
            });
        for (size_t t = 0; t < threads; t++)
            team.add([&, t] {
                auto l = encryptBallot(*lib(bs[t]), *e.internalManifest, *e.context, *ref::modQ(5),
                                       nullptr, 9, false);
                CBallot x = of(*l);
                std::lock_guard<std::mutex> g(m);
                got.push_back(x);
            });
        if (stop)
            team.add([&] {
                std::this_thread::sleep_for(std::chrono::milliseconds(delay));
                B::stop_populate();
                if (empty)
                    B::empty_queues();
            });
        if (watch)
            team.add([&] {
                for (int i = 0; i < 5; i++) {
                    check(B::get_current_queue_size() <= max && B::get_max_queue_size() == max,
                          "sizes out of range");
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
                }
            });
        if (drain)
            team.add([&] {
                for (int i = 0; i < 4; i++) {
                    auto x = B::getTwoTriplesAndAQuadruple();
                    auto y = B::getTriple();
                    std::lock_guard<std::mutex> g(m);
                    if (x) {
                        exps.push_back(ref::of(*x->get_triple1()->get_exp()));
                        exps.push_back(ref::of(*x->get_triple2()->get_exp()));
                        exps.push_back(ref::of(*x->get_quad()->get_exp1()));
                    }
                    if (y)
                        exps.push_back(ref::of(*y->get_exp()));
                }
            });
        team.run();
    }
    B::stop_populate();
    B::empty_queues();
    std::set<Z> pads, used;
    for (auto &x : exps)
        check(used.insert(x).second, "a precomputed value reached two takers");
    for (auto &b : got) {
        Str why = refuses(b, gen::hash(e.man), e.key.K, e.extBase);
        check(why.empty(), "ballot encrypted while buffers change is refused: " + why);
        for (auto &k : b.contests)
            for (auto &x : k.sels) {
                check(pads.insert(x.ct.a).second, "an encryption nonce was used twice");
                check(x.nonce && used.insert(*x.nonce).second,
                      "a precomputed value reached two takers");
            }
    }
}

// The first use of the library in a process, by several threads at once.  A
// case starts a new process that runs the plan in VERIF_COLD.
static int coldMain(const Str &plan)
{
    Vec<Str> per(1);
    for (char ch : plan)
        if (ch == '/')
            per.emplace_back();
        else
            per.back() += ch;
    Z q = 12345, K = ref::gpow(777);
    const Z wantPow = ref::powp(K, q), wantG = ref::gpow(q), wantH = ref::H({K, q}),
            wantEnc = ref::encrypt(1, q, K).b;
    auto lk = ref::modP(K, true);
    auto lq = ref::modQ(q);
    Team team;
    for (auto &ops : per)
        team.add([&, ops] {
            for (char op : ops)
                switch (op) {
                    case '0':
                        check(ref::of(*pow_mod_p(*lk, *lq)) == wantPow, "first exponentiation");
                        break;
                    case '1':
                        check(ref::of(*g_pow_p(*lq)) == wantG, "first power of the generator");
                        break;
                    case '2':
                        check(ref::of(*hash_elems({lk.get(), lq.get()})) == wantH, "first hash");
                        break;
                    case '3': { // logs what it does
                        auto ct = elgamalEncrypt(1, *lq, *lk);
                        check(ref::of(*ct->getData()) == wantEnc, "first encryption");
                        break;
                    }
                    default: {
                        auto r = rand_q();
                        check(ref::of(*r) < ref::QQ(), "first random element");
                    }
                }
        });
    try {
        team.run();
    } catch (const Fail &e) {
        fprintf(stderr, "%s\n", e.msg.c_str());
        return 1;
    }
    return 0;
}

static void cold(Ctx &c)
{
    auto &s = c.src;
    Str plan;
    size_t threads = s.range(2, 4);
    for (size_t t = 0; t < threads; t++) {
        plan += t ? "/" : "";
        for (size_t i = s.range(1, 3); i > 0; i--)
            plan += static_cast<char>('0' + s.upto(4));
    }
    c << "operations of the threads: " << plan;
    c.nt();
    Str cmd = "VERIF_COLD=" + plan + " exec /proc/" + std::to_string(getpid()) + "/exe 2>&1";
    FILE *f = popen(cmd.c_str(), "r");
    check(f != nullptr, "popen");
    Str out;
    char buf[4096];
    for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;)
        out.append(buf, n);
    int rc = pclose(f);
    check(rc == 0, "concurrent first use of the library: status " + std::to_string(rc) + " " +
                     out.substr(0, 1500));
}

Spec pbt::spec()
{
    if (const char *plan = getenv("VERIF_COLD"))
        exit(coldMain(plan));
    Spec p;
    p.property = "K02";
    p.subs = {
      {"elements", elements, 60, 20000,
       "2 to 4 threads with up to four operations each on shared elements and new keys; every case "
       "is non-trivial",
       true},
      {"tables", tables, 8, 4000,
       "2 to 4 threads that use 2 to 5 new accelerated bases; every case is non-trivial", true},
      {"ballots", ballots, 24, 4000,
       "2 or 3 threads that encrypt, verify, serialize and hash with one shared election; every "
       "case is non-trivial",
       true},
      {"apart", apart, 60, 8000,
       "2 to 4 threads, each with a manifest, ballot, device and element of its own, written, read "
       "and hashed up to 120 times; every case is non-trivial",
       true},
      {"buffers", buffers, 24, 4000,
       "ballots encrypted while buffers are filled, watched, drained, stopped and emptied; every "
       "case is non-trivial",
       true},
      {"cold", cold, 40, 4000,
       "a new process whose first operations are made by 2 to 4 threads at once; every case is "
       "non-trivial",
       true},
    };
    p.assumptions = {"schedules are those the operating system produces; ThreadSanitizer reports "
                     "any unsynchronised pair of accesses on the executed paths whatever their "
                     "order"};
    return p;
}
