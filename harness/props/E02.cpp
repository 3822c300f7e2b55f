// E02: byte oriented (hashed) ElGamal against an independent implementation.
#include "electionguard/hmac.hpp"
#include "electionguard/precompute_buffers.hpp"
#include "ref.hpp"

using namespace ref;
using namespace pbt;
using namespace electionguard;
using Bytes = std::vector<uint8_t>;

static Bytes genMsg(Ctx &c, size_t n)
{
    auto &s = c.src;
    Bytes b;
    switch (s.pick({2, 1, 1, 1})) {
        case 0:
            b = s.bytes(n);
            break;
        case 1:
            b = Bytes(n, 0);
            break;
        case 2:
            b = Bytes(n, 0xff);
            break;
        default:
            b = s.bytes(n);
            for (size_t i = 0; i < n && i < 8; i++)
                b[n - 1 - i] = 0; // looks like padding
            if (n > 1) {
                b[0] = static_cast<uint8_t>(s.upto(2));
                b[1] = static_cast<uint8_t>(s.upto(255));
            }
    }
    return b;
}
static Bytes padded(const Bytes &m, bool trunc)
{
    size_t n = m.size();
    Bytes d = m;
    if (n > 510) {
        check(trunc, "reference: too long");
        d.resize(510);
        n = 510;
    }
    size_t pad = 510 - n;
    Bytes p{static_cast<uint8_t>(pad >> 8), static_cast<uint8_t>(pad & 255)};
    p.insert(p.end(), d.begin(), d.end());
    p.resize(512, 0);
    return p;
}
static void same(const HCT &got, const HCT &want)
{
    check(got.pad == want.pad, "pad differs from the specification");
    check(got.data == want.data, "data differs from the specification");
    check(got.mac == want.mac, "mac differs from the specification");
}

struct Case {
    Key k;
    Z r, ctx;
    Bytes msg, plain; // plain: what is encrypted, whole blocks
    bool pad = false, trunc = false;
    bool ok = true;
};
static Case genCase(Ctx &c)
{
    auto &s = c.src;
    Case x;
    x.k = genKey(s);
    x.r = genExp(s);
    x.ctx = genQ(s);
    x.pad = s.chance(2, 3);
    x.trunc = s.boolean();
    size_t n;
    if (x.pad) {
        switch (s.pick({3, 2, 2})) {
            case 0:
                n = s.upto(40);
                break;
            case 1:
                n = s.range(500, 520);
                break;
            default:
                n = s.upto(1100);
        }
        x.ok = n <= 510 || x.trunc;
    } else {
        n = 32 * s.many(1, 64, 2100, 60);
        if (s.chance(1, 6))
            n += s.range(1, 31);
        x.ok = n % 32 == 0;
    }
    x.msg = genMsg(c, n);
    if (x.ok)
        x.plain = x.pad ? padded(x.msg, x.trunc) : x.msg;
    c << (x.pad ? "padded " : "blocks ") << n << " bytes" << (x.trunc ? " trunc" : "")
      << " r=" << shortHex(x.r) << " ctx=" << shortHex(x.ctx);
    return x;
}
static std::unique_ptr<HashedElGamalCiphertext> enc(const Case &x)
{
    return hashedElgamalEncrypt(x.msg, *modQ(x.r), *x.k.kp->getPublicKey(), *modQ(x.ctx),
                                x.pad ? BYTES_512 : NO_PADDING, x.trunc);
}

static void roundtrip(Ctx &c)
{
    auto &s = c.src;
    Case x = genCase(c);
    if (x.msg.size() > 0)
        c.nt();
    std::unique_ptr<HashedElGamalCiphertext> ct;
    try {
        ct = enc(x);
    } catch (const std::exception &e) {
        check(!x.ok, std::string("refused: ") + e.what());
        c.label("refused");
        return;
    }
    check(x.ok, "a message of this length was not refused");
    if (x.pad && x.msg.size() > 510)
        c.label("truncated");
    HCT want = hashedEncrypt(x.plain, gpow(x.r), powp(x.k.K, x.r), x.ctx);
    same(of(*ct), want);
    check(ct->getData().size() == (x.pad ? 512 : x.msg.size()), "ciphertext length");
    check(of(*ct->crypto_hash()) == H({want.pad, fromBytes(want.data), fromBytes(want.mac)}),
          "hash of the ciphertext");
    Bytes out = ct->decrypt(*modQ(x.k.s), *modQ(x.ctx), x.pad);
    Bytes exp = x.msg;
    if (x.pad && exp.size() > 510)
        exp.resize(510);
    check(out == exp, "decrypted to " + hexOf(out) + " instead of " + hexOf(exp));
    if (s.chance(1, 3))
        check(ct->decrypt(*modQ(x.k.s), *modQ(x.ctx), false) == x.plain, "raw decryption");
}

static void tamper(Ctx &c)
{
    auto &s = c.src;
    Case x = genCase(c);
    if (!x.ok)
        discard();
    HCT h = hashedEncrypt(x.plain, gpow(x.r), powp(x.k.K, x.r), x.ctx);
    HCT o = h;
    Z sec = x.k.s, ctx = x.ctx;
    switch (s.pick({3, 3, 2, 2, 2, 2, 2, 2})) {
        case 0: {
            size_t i = s.upto(h.data.size() - 1);
            h.data[i] ^= static_cast<uint8_t>(1 << s.upto(7));
            c << " data byte " << i;
            break;
        }
        case 1: {
            size_t i = s.upto(31);
            h.mac[i] ^= static_cast<uint8_t>(1 << s.upto(7));
            c << " mac byte " << i;
            break;
        }
        case 2:
            switch (s.upto(3)) {
                case 0:
                    h.pad = mulp(h.pad, GG());
                    break;
                case 1:
                    h.pad = PP() - h.pad;
                    break;
                case 2:
                    h.pad = h.pad ^ (Z(1) << s.upto(4095));
                    h.pad = modp(h.pad);
                    break;
                default:
                    h.pad = gpow(genExp(s));
            }
            c << " pad";
            break;
        case 3:
            sec = s.boolean() ? genExp(s) : (sec ^ (Z(1) << s.upto(255)));
            if (sec >= QQ())
                sec = modq(sec);
            c << " key";
            break;
        case 4:
            ctx = s.boolean() ? genQ(s) : modq(ctx ^ (Z(1) << s.upto(255)));
            c << " context";
            break;
        case 5: { // length changes
            size_t n = h.data.size();
            switch (s.upto(3)) {
                case 0:
                    h.data.resize(n - 32);
                    break;
                case 1:
                    h.data.resize(n + 32, 0);
                    break;
                case 2:
                    h.data.resize(n - s.range(1, 31));
                    break;
                default:
                    h.data.clear();
            }
            c << " length";
            break;
        }
        case 6: { // mac length
            if (s.boolean())
                h.mac.resize(s.upto(31));
            else
                h.mac.push_back(static_cast<uint8_t>(s.upto(255)));
            c << " mac length";
            break;
        }
        default: { // parts of another message
            HCT p =
              hashedEncrypt(Bytes(x.plain.size(), 7), gpow(x.r + 1), powp(x.k.K, x.r + 1), x.ctx);
            switch (s.upto(2)) {
                case 0:
                    h.data = p.data;
                    break;
                case 1:
                    h.mac = p.mac;
                    break;
                default:
                    h.pad = p.pad;
            }
            c << " spliced";
        }
    }
    bool changed =
      h.pad != o.pad || h.data != o.data || h.mac != o.mac || sec != x.k.s || ctx != x.ctx;
    if (!changed)
        discard();
    if (h.pad == 0)
        discard();
    c.nt();
    Bytes dummy;
    check(!hashedDecrypt(h, powp(h.pad, sec), ctx, dummy),
          "harness: the mutant still authenticates");
    HashedElGamalCiphertext ct(modP(h.pad), h.data, h.mac);
    bool look = x.pad ? s.boolean() : false;
    try {
        auto out = ct.decrypt(*modQ(sec), *modQ(ctx), look);
        fail("a tampered message was accepted, giving " + hexOf(out));
    } catch (const Fail &) {
        throw;
    } catch (const std::exception &) {
    }
}

// messages of thousands of blocks
static void vast(Ctx &c)
{
    auto &s = c.src;
    Case x;
    x.k = genKey(s);
    x.r = genExp(s);
    x.ctx = genQ(s);
    size_t n = 32 * s.range(1000, s.chance(1, 4) ? 70000 : 9000);
    uint64_t v = s.u64();
    x.msg.resize(n);
    for (auto &b : x.msg) {
        v = v * 6364136223846793005ULL + 1442695040888963407ULL;
        b = static_cast<uint8_t>(v >> 56);
    }
    c << n << " bytes, r=" << shortHex(x.r) << " ctx=" << shortHex(x.ctx);
    c.nt();
    HCT want = hashedEncrypt(x.msg, gpow(x.r), powp(x.k.K, x.r), x.ctx);
    auto ct = enc(x);
    same(of(*ct), want);
    check(ct->decrypt(*modQ(x.k.s), *modQ(x.ctx), false) == x.msg, "decrypted to something else");
    size_t i = s.boolean() ? s.upto(n - 1) : n - 1 - s.upto(31);
    c << " then byte " << i;
    want.data[i] ^= static_cast<uint8_t>(1 << s.upto(7));
    HashedElGamalCiphertext bad(modP(want.pad), want.data, want.mac);
    bool accepted = true;
    try {
        bad.decrypt(*modQ(x.k.s), *modQ(x.ctx), false);
    } catch (const std::exception &) {
        accepted = false;
    }
    check(!accepted, "a tampered message was accepted");
}

// authenticated messages with arbitrary padding fields
static void padding(Ctx &c)
{
    auto &s = c.src;
    Key k = genKey(s);
    Z r = randExp(s), ctx = genQ(s);
    size_t n = 32 * s.range(1, 16);
    Bytes p = s.boolean() ? Bytes(n, 0) : s.bytes(n);
    size_t pad;
    switch (s.pick({2, 2, 1})) {
        case 0:
            pad = s.upto(n);
            break;
        case 1:
            pad = s.range(n - 4, n + 3);
            break;
        default:
            pad = s.upto(65535);
    }
    p[0] = static_cast<uint8_t>(pad >> 8);
    p[1] = static_cast<uint8_t>(pad & 255);
    size_t zeros = std::min<size_t>(s.boolean() ? pad : s.upto(pad), n - 2);
    for (size_t i = 0; i < zeros; i++)
        p[n - 1 - i] = 0;
    if (s.chance(1, 3) && pad > 0 && pad <= n - 2)
        p[n - s.range(1, pad)] = static_cast<uint8_t>(s.range(1, 255));
    bool ok = pad <= n - 2;
    for (size_t i = 0; ok && i < pad; i++)
        ok = p[n - 1 - i] == 0;
    c << "n=" << n << " pad=" << pad << (ok ? " ok" : " bad");
    c.nt();
    c.label(ok ? "good padding" : "bad padding");
    HCT h = hashedEncrypt(p, gpow(r), powp(k.K, r), ctx);
    HashedElGamalCiphertext ct(modP(h.pad), h.data, h.mac);
    Bytes out;
    try {
        out = ct.decrypt(*modQ(k.s), *modQ(ctx), true);
    } catch (const std::exception &) {
        check(!ok, "well padded message refused");
        return;
    }
    check(ok, "badly padded message accepted");
    check(out == Bytes(p.begin() + 2, p.end() - static_cast<long>(pad)), "wrong bytes");
}

// with precomputed values in the buffers the message must still come back
static void precomputed(Ctx &c)
{
    auto &s = c.src;
    Case x = genCase(c);
    if (!x.ok)
        discard();
    PrecomputeBufferContext::empty_queues();
    PrecomputeBufferContext::init(static_cast<uint32_t>(s.range(1, 4)));
    PrecomputeBufferContext::populate(*x.k.kp->getPublicKey());
    std::set<std::string> pads;
    size_t n = s.range(1, 6);
    c << " x" << n;
    bool used = false;
    for (size_t i = 0; i < n; i++) {
        auto ct = enc(x);
        HCT got = of(*ct);
        bool pre = got.pad != gpow(x.r);
        used |= pre;
        if (pre)
            check(pads.insert(got.pad.get_str(16)).second,
                  "the same precomputed pad was used twice");
        same(got, hashedEncrypt(x.plain, got.pad, powp(got.pad, x.k.s), x.ctx));
        Bytes exp = x.msg;
        if (x.pad && exp.size() > 510)
            exp.resize(510);
        check(ct->decrypt(*modQ(x.k.s), *modQ(x.ctx), x.pad) == exp, "wrong bytes");
    }
    if (used)
        c.nt();
    PrecomputeBufferContext::empty_queues();
}

// the keyed hash behind key derivation and authentication
static void keyed(Ctx &c)
{
    auto &s = c.src;
    size_t kn = s.pick({3, 2, 1}) == 0 ? 32 : s.range(1, s.boolean() ? 70 : 300);
    size_t mn = s.chance(1, 4) ? s.range(1, 3000) : s.range(1, 140);
    Bytes key = s.bytes(kn), msg = s.bytes(mn);
    uint32_t length = 0, start = 0;
    if (s.boolean()) {
        length = static_cast<uint32_t>(s.u64() >> s.range(32, 63));
        start = static_cast<uint32_t>(s.u64() >> s.range(32, 64 - 1));
    }
    c << "key of " << kn << ", message of " << mn << ", length " << length << ", start " << start;
    c.nt();
    Bytes all;
    auto le = [&](uint32_t x) {
        for (int i = 0; i < 4; i++)
            all.push_back(static_cast<uint8_t>(x >> (8 * i)));
    };
    if (length > 0)
        le(start);
    all.insert(all.end(), msg.begin(), msg.end());
    if (length > 0)
        le(length);
    check(get_hmac(key, msg, length, start) == hmac(key, all), "keyed hash");
}

pbt::Spec pbt::spec()
{
    Spec sp;
    sp.property = "E02";
    sp.subs = {
      {"roundtrip", roundtrip, 2500, 100000,
       "both padding modes, message lengths around and beyond every limit, with/without "
       "truncation; "
       "ciphertext equals the specified one and decrypts; non-trivial: non-empty message"},
      {"tamper", tamper, 2500, 100000,
       "one altered pad, data, mac, length, key or context, or spliced messages; decryption must "
       "fail; "
       "all non-trivial"},
      {"vast", vast, 40, 2000,
       "messages of 1000 to 70000 blocks, also with an altered byte; all non-trivial"},
      {"padding", padding, 1500, 60000,
       "authenticated plaintexts with arbitrary padding fields; all non-trivial"},
      {"keyed", keyed, 2000, 100000,
       "the keyed hash for keys of 1 to 300 and messages of 1 to 3000 bytes; all non-trivial"},
      {"precomputed", precomputed, 300, 8000,
       "encryption while precomputed values are available; non-trivial: one was used"},
    };
    sp.assumptions = {"unpadded messages have at least one block",
                      "context hashes are canonical elements mod Q"};
    return sp;
}
