// Serialization round trips and generators of arbitrary serializable values.
#pragma once
#include "electionguard/ballot_compact.hpp"
#include "gen.hpp"

#include <memory>
#include <string>
#include <vector>

namespace ser
{
    using namespace gen;
    inline const char *formatName(size_t f)
    {
        static const char *n[] = {"JSON", "BSON", "MessagePack"};
        return n[f];
    }
    // one document in one format, as bytes
    template <typename T, typename... A> Vec<uint8_t> write(const T &t, size_t f, A... a)
    {
        if (f == 0) {
            auto s = t.toJson(a...);
            return Vec<uint8_t>(s.begin(), s.end());
        }
        if (f == 1)
            return t.toBson(a...);
        return t.toMsgPack(a...);
    }
    template <typename T> U<T> read(const Vec<uint8_t> &d, size_t f)
    {
        if (f == 0)
            return T::fromJson(Str(d.begin(), d.end()));
        if (f == 1)
            return T::fromBson(d);
        return T::fromMsgPack(d);
    }
    // the types without MessagePack
    template <typename T> Vec<uint8_t> write2(const T &t, size_t f)
    {
        if (f == 0) {
            auto s = t.toJson();
            return Vec<uint8_t>(s.begin(), s.end());
        }
        return t.toBson();
    }
    template <typename T> U<T> read2(const Vec<uint8_t> &d, size_t f)
    {
        if (f == 0)
            return T::fromJson(Str(d.begin(), d.end()));
        return T::fromBson(d);
    }

    Str dumpCompact(const eg::CompactPlaintextBallot &p);
    Str dumpCompact(const eg::CompactCiphertextBallot &p);

    struct AnyOpts {
        bool nonces = true;    // nonces present (else each may be absent)
        size_t maxContests = 3, maxSels = 3;
        bool cheap = false; // small elements only
    };
    // an encrypted ballot with arbitrary contents (it need not verify)
    CBallot genAnyCiphertext(pbt::Src &, const AnyOpts & = {});
    CSel genAnySel(pbt::Src &, const Str &id, uint64_t seq, const AnyOpts &);
    CContest genAnyContest(pbt::Src &, const Str &id, uint64_t seq, const AnyOpts &);
    // a plaintext ballot with arbitrary contents; votes below limit
    Ballot genAnyPlaintext(pbt::Src &, uint64_t maxVote);
    struct CompactM {
        Str id, style;
        Vec<uint64_t> votes;
        Vec<Str> writeIns;
        int state = 0;
        Z seed, code, nonce;
        uint64_t timestamp = 0;
    };
    CompactM genAnyCompact(pbt::Src &, uint64_t maxVote);
    U<eg::CompactPlaintextBallot> libPlain(const CompactM &);
    U<eg::CompactCiphertextBallot> lib(const CompactM &);
    Str dump(const CompactM &);
    uint64_t genStamp(pbt::Src &); // fits every format
    // contests and selections in the order the accessors show them
    CBallot sorted(CBallot);
    bool allNonces(const CBallot &);
} // namespace ser
