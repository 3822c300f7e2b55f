// S03: what published ballots contain.
#include "electionguard/precompute_buffers.hpp"
#include "ser.hpp"

#include <algorithm>
#include <nlohmann/json.hpp>

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;
using json = nlohmann::json;

struct Secret {
    Str what;
    Vec<Vec<uint8_t>> forms; // encodings to look for
};
static Vec<uint8_t> raw(const Str &s) { return Vec<uint8_t>(s.begin(), s.end()); }
static Str lower(Str s)
{
    for (auto &ch : s)
        ch = static_cast<char>(tolower(ch));
    return s;
}
// only values that cannot occur by chance
static void addNumber(Vec<Secret> &v, const Str &what, const Z &z)
{
    if (mpz_sizeinbase(z.get_mpz_t(), 2) < 100)
        return;
    Str h = z.get_str(16);
    Str up = h;
    for (auto &ch : up)
        ch = static_cast<char>(toupper(ch));
    size_t n = (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8;
    auto be = ref::toBytes(z, n), le = be;
    std::reverse(le.begin(), le.end());
    v.push_back({what, {raw(up), raw(lower(h)), raw(z.get_str(10)), be, le}});
}
static void addText(Vec<Secret> &v, const Str &what, const Str &t)
{
    Str h;
    static const char *digits = "0123456789ABCDEF";
    for (unsigned char ch : t) {
        h += digits[ch >> 4];
        h += digits[ch & 15];
    }
    v.push_back({what, {raw(t), raw(h), raw(lower(h))}});
}
static bool contains(const Vec<uint8_t> &d, const Vec<uint8_t> &p)
{
    return std::search(d.begin(), d.end(), std::boyer_moore_horspool_searcher(p.begin(), p.end())) !=
           d.end();
}
static void absent(const Vec<uint8_t> &doc, const Vec<Secret> &secrets, const Str &where)
{
    for (auto &x : secrets)
        for (auto &f : x.forms)
            check(!contains(doc, f), x.what + " appears in " + where);
}
static Vec<Secret> nonces(const CBallot &b)
{
    Vec<Secret> v;
    if (b.nonce)
        addNumber(v, "the ballot nonce", *b.nonce);
    for (auto &k : b.contests) {
        if (k.nonce)
            addNumber(v, "the nonce of contest " + k.id, *k.nonce);
        for (auto &x : k.sels)
            if (x.nonce)
                addNumber(v, "the nonce of selection " + x.id, *x.nonce);
    }
    return v;
}
template <typename T> static Z toZ(const T &t) { return t; }

// the hexadecimal text of every nonce appears in the explicit form
static void present(const CiphertextBallot &l, const CBallot &b)
{
    auto count = [](const Str &doc, const Z &z) {
        Str h = ref::hex(z);
        size_t n = 0;
        for (size_t at = doc.find(h); at != Str::npos; at = doc.find(h, at + 1))
            n++;
        return n;
    };
    Str doc = l.toJson(true);
    if (b.nonce)
        check(count(doc, *b.nonce) > 0, "the ballot nonce is missing from the form with nonces");
    for (auto &k : b.contests) {
        if (k.nonce)
            check(count(doc, *k.nonce) > 0, "a contest nonce is missing");
        for (auto &x : k.sels)
            if (x.nonce)
                check(count(doc, *x.nonce) > 0, "a selection nonce is missing");
    }
    for (size_t f = 0; f < 3; f++) {
        auto r = read<CiphertextBallot>(write(l, f, true), f);
        same(dump(b), dump(of(*r)), "the form with nonces");
    }
}

static U<SubmittedBallot> submit(Src &s, const CiphertextBallot &l)
{
    return SubmittedBallot::from(
      l, s.of(Vec<BallotBoxState>{BallotBoxState::cast, BallotBoxState::spoiled,
                                  BallotBoxState::unknown}));
}

static void arbitrary(Ctx &c)
{
    auto &s = c.src;
    CBallot b = genAnyCiphertext(s);
    b = ser::sorted(b);
    b.nonce = ref::randExp(s);
    for (auto &k : b.contests) {
        k.nonce = ref::randExp(s);
        for (auto &x : k.sels)
            x.nonce = ref::randExp(s);
    }
    c << dump(b);
    if (!b.contests.empty())
        c.nt();
    auto l = lib(b);
    auto secrets = nonces(b);
    for (size_t f = 0; f < 3; f++) {
        absent(write(*l, f), secrets, Str("the ballot in ") + formatName(f));
        absent(write(*l, f, false), secrets, Str("the ballot in ") + formatName(f));
        auto sub = submit(s, *l);
        absent(write(*sub, f), secrets, Str("the submitted ballot in ") + formatName(f));
        auto built = lib(b, 1);
        absent(write(*built, f), secrets, Str("the submitted ballot in ") + formatName(f));
        // a ballot read back with its nonces is not published with them either
        auto r = read<CiphertextBallot>(write(*l, f, true), f);
        absent(write(*r, f), secrets, Str("the ballot read back in ") + formatName(f));
        auto sr = submit(s, *r);
        absent(write(*sr, f), secrets, Str("the submitted ballot read back in ") + formatName(f));
    }
    present(*l, b);
}

// everything that may not depend on the votes: structure, names, numbers and
// the sizes of the fixed size parts
static void skeleton(const json &j, const Str &key, Str &out)
{
    if (j.is_object()) {
        out += "{";
        for (auto &kv : j.items()) {
            out += kv.key() + ":";
            skeleton(kv.value(), kv.key(), out);
        }
        out += "}";
    } else if (j.is_array()) {
        out += "[";
        for (auto &x : j)
            skeleton(x, key, out);
        out += "]";
    } else if (j.is_string()) {
        static const std::set<Str> names{"object_id", "style_id", "manifest_hash",
                                         "description_hash"};
        static const std::set<Str> fixed{"data", "mac"};
        Str t = j.get<Str>();
        if (names.count(key))
            out += "'" + t + "'";
        else if (key == "mac")
            out += std::to_string(t.size());
        else
            out += "*"; // an element: its size varies by itself
        out += ",";
    } else
        out += j.dump() + ",";
}
static Str skeletonOf(const Str &doc)
{
    json j = json::parse(doc);
    // the encrypted write-ins have a constant size
    Str sizes;
    for (auto &k : j["contests"])
        if (!k["extended_data"].is_null())
            sizes += std::to_string(k["extended_data"]["data"].get<Str>().size()) + ",";
    j.erase("timestamp");
    Str out;
    skeleton(j, "", out);
    return out + " extended " + sizes;
}

static void encrypted(Ctx &c)
{
    auto &s = c.src;
    ManOpts o = tiny();
    o.maxSels = 3;
    o.allWriteIn = s.boolean();
    Election e = genElection(s, o);
    Str style = genStyle(s, e.in);
    if (style.empty())
        discard();
    c << dump(e.man);
    bool pre = s.chance(1, 4);
    PrecomputeBufferContext::empty_queues();
    if (pre) {
        PrecomputeBufferContext::init(static_cast<uint32_t>(s.range(1, 6)));
        PrecomputeBufferContext::populate(*e.context->getElGamalPublicKey());
        PrecomputeBufferContext::stop_populate();
        c.label("precomputed");
    }
    Str skel[2];
    for (int i = 0; i < 2; i++) {
        Ballot b = genBallot(s, e.in, style);
        b.id = "ballot";
        Vec<Secret> texts;
        int n = 0;
        for (auto &k : b.contests)
            for (auto &x : k.sels)
                if (!x.writeIn.empty()) {
                    // cannot occur by chance
                    x.writeIn = "Wxyz" + std::to_string(1000 + s.upto(8999)) + "Qgh" +
                                std::to_string(n++);
                    addText(texts, "a write-in", x.writeIn);
                    c.label("write-in");
                }
        c << dump(b);
        U<CiphertextBallot> l;
        if (s.boolean()) {
            l = encryptBallot(*lib(b), *e.internalManifest, *e.context, *ref::modQ(ref::genQ(s)),
                              ref::modQ(ref::randExp(s)), genStamp(s), false);
        } else {
            EncryptionDevice d(1, 2, 3, "place");
            EncryptionMediator med(*e.internalManifest, *e.context, d);
            l = s.boolean() ? med.encrypt(*lib(b), false) : med.encrypt(*lib(b));
        }
        CBallot m = of(*l);
        auto secrets = nonces(m);
        check(m.nonce.has_value(), "no ballot nonce");
        // what each proof hides
        auto votes = plain(b, e.in);
        for (size_t k = 0; k < m.contests.size(); k++) {
            Z sum = 0;
            for (auto &x : m.contests[k].sels) {
                check(x.nonce && x.proof, "selection without nonce or proof");
                sum += *x.nonce;
                auto &p = *x.proof;
                addNumber(secrets, "a proof secret", ref::modq(p.v0 - p.c0 * *x.nonce));
                addNumber(secrets, "a proof secret", ref::modq(p.v1 - p.c1 * *x.nonce));
            }
            auto &p = *m.contests[k].proof;
            addNumber(secrets, "the aggregate nonce", ref::modq(sum));
            addNumber(secrets, "a limit proof secret", ref::modq(p.v - p.c * sum));
        }
        secrets.insert(secrets.end(), texts.begin(), texts.end());
        if (!texts.empty() || m.contests.size() > 1)
            c.nt();
        auto sub = submit(s, *l);
        Vec<Str> docs;
        for (size_t f = 0; f < 3; f++) {
            absent(write(*l, f), secrets, Str("the ballot in ") + formatName(f));
            absent(write(*sub, f), secrets, Str("the submitted ballot in ") + formatName(f));
            // the form with nonces still hides the votes and write-ins
            absent(write(*l, f, true), texts, Str("the form with nonces in ") + formatName(f));
        }
        present(*l, m);
        skel[i] = skeletonOf(l->toJson());
    }
    // two ballots of a style with different votes look the same
    same(skel[0], skel[1], "published form for other votes");
    PrecomputeBufferContext::empty_queues();
}

Spec pbt::spec()
{
    Spec p;
    p.property = "S03";
    p.subs = {
      {"arbitrary", arbitrary, 5000, 200000,
       "encrypted and submitted ballots with arbitrary contents and random nonces, built or read "
       "back; non-trivial: at least one contest"},
      {"encrypted", encrypted, 140, 5000,
       "pairs of really encrypted ballots of one style with different votes and distinctive "
       "write-ins; non-trivial: with a write-in or several contests"},
    };
    p.assumptions = {"secrets are searched for as text, hexadecimal, decimal and bytes in either "
                     "order; other encodings of them are not recognised",
                     "compact ballots carry the ballot nonce by design and are not for publication"};
    return p;
}
