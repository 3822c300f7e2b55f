// Plain models of the election data (manifest, plaintext ballots, encrypted
// ballots), generators for them, builders and extractors for the library's
// objects, the specified hashes and an independent ballot encrypter/verifier.
#pragma once
#include "electionguard/ballot.hpp"
#include "electionguard/ballot_compact.hpp"
#include "electionguard/election.hpp"
#include "electionguard/encrypt.hpp"
#include "electionguard/manifest.hpp"
#include "ref.hpp"

#include <optional>

namespace gen
{
    using ref::Z;
    namespace eg = electionguard;
    template <typename T> using Opt = std::optional<T>;
    template <typename T> using Vec = std::vector<T>;
    template <typename T> using U = std::unique_ptr<T>;
    using Str = std::string;

    // ------------------------------------------------------------- manifest
    struct Lang {
        Str value, language;
    };
    using Text = Vec<Lang>;
    struct Ann {
        Str annotation, value;
    };
    struct Contact {
        Vec<Str> address;
        Vec<Ann> email, phone;
        Str name;
    };
    struct Unit {
        Str id, name;
        int type = 0;
        Opt<Contact> contact;
    };
    struct Style {
        Str id;
        Vec<Str> units, parties;
        Str image;
    };
    struct PartyM {
        Str id;
        Opt<Text> name;
        Str abbr, color, logo;
    };
    struct Cand {
        Str id;
        Opt<Text> name;
        Str party, image;
        bool writeIn = false;
    };
    struct Sel {
        Str id, cand;
        uint64_t seq = 0;
    };
    struct Contest {
        Str id, district;
        uint64_t seq = 0;
        int variation = 1;
        uint64_t elected = 1, votesAllowed = 1;
        Str name;
        Opt<Text> title, subtitle;
        Vec<Sel> sels;
        Vec<Str> primaryParties;
        Vec<Sel> placeholders; // internal manifest only
    };
    struct Man {
        Str scope;
        int type = 1;
        uint64_t start = 0, end = 0; // seconds
        Vec<Unit> units;
        Vec<PartyM> parties;
        Vec<Cand> cands;
        Vec<Contest> contests;
        Vec<Style> styles;
        Opt<Text> name;
        Opt<Contact> contact;
    };
    struct Internal {
        Vec<Unit> units;
        Vec<Cand> cands;
        Vec<Contest> contests;
        Vec<Style> styles;
        Z hash;
    };

    Str electionType(int i); // 0..7
    Str unitType(int i);     // 0..28
    Str variation(int i);    // 0..12
    Str isoDate(uint64_t secs);

    Z hash(const Lang &);
    Z hash(const Text &);
    Z hash(const Ann &);
    Z hash(const Contact &);
    Z hash(const Unit &);
    Z hash(const Style &);
    Z hash(const PartyM &);
    Z hash(const Cand &);
    Z hash(const Sel &);
    Z hash(const Contest &);
    Z hash(const Man &);

    U<eg::Language> lib(const Lang &);
    U<eg::InternationalizedText> lib(const Text &);
    U<eg::AnnotatedString> lib(const Ann &);
    U<eg::ContactInformation> lib(const Contact &);
    U<eg::GeopoliticalUnit> lib(const Unit &);
    U<eg::BallotStyle> lib(const Style &);
    U<eg::Party> lib(const PartyM &);
    U<eg::Candidate> lib(const Cand &);
    U<eg::SelectionDescription> lib(const Sel &);
    U<eg::ContestDescription> lib(const Contest &);
    U<eg::ContestDescriptionWithPlaceholders> libWith(const Contest &);
    U<eg::Manifest> lib(const Man &);
    U<eg::InternalManifest> lib(const Internal &);

    Lang of(const eg::Language &);
    Text of(const eg::InternationalizedText &);
    Ann of(const eg::AnnotatedString &);
    Contact of(const eg::ContactInformation &);
    Unit of(const eg::GeopoliticalUnit &);
    Style of(const eg::BallotStyle &);
    PartyM of(const eg::Party &);
    Cand of(const eg::Candidate &);
    Sel of(const eg::SelectionDescription &);
    Contest of(const eg::ContestDescription &);
    Contest of(const eg::ContestDescriptionWithPlaceholders &);
    Man of(const eg::Manifest &);
    Internal of(const eg::InternalManifest &);

    Str dump(const Lang &);
    Str dump(const Text &);
    Str dump(const Ann &);
    Str dump(const Contact &);
    Str dump(const Unit &);
    Str dump(const Style &);
    Str dump(const PartyM &);
    Str dump(const Cand &);
    Str dump(const Sel &);
    Str dump(const Contest &);
    Str dump(const Man &);
    Str dump(const Internal &);

    // contests and selections in sequence order, as the accessors show them
    Contest sorted(Contest);
    Man sorted(Man);
    bool isSorted(const Man &);
    Internal sorted(Internal);

    // the specified derivation
    Internal internal(const Man &);
    bool valid(const Contest &);
    bool valid(const Man &);
    // contests of a style in sequence order
    Vec<const Contest *> contestsOf(const Internal &, const Str &style);
    const Contest *findContest(const Internal &, const Str &id);

    // --------------------------------------------------------- plaintext
    struct BSel {
        Str id;
        uint64_t vote = 0;
        bool placeholder = false;
        Str writeIn;
    };
    struct BContest {
        Str id;
        Vec<BSel> sels;
    };
    struct Ballot {
        Str id, style;
        Vec<BContest> contests;
    };
    U<eg::PlaintextBallotSelection> lib(const BSel &);
    U<eg::PlaintextBallotContest> lib(const BContest &);
    U<eg::PlaintextBallot> lib(const Ballot &);
    BSel of(const eg::PlaintextBallotSelection &);
    BContest of(const eg::PlaintextBallotContest &);
    Ballot of(const eg::PlaintextBallot &);
    Str dump(const BSel &);
    Str dump(const BContest &);
    Str dump(const Ballot &);

    // --------------------------------------------------------- encrypted
    struct CSel {
        Str id;
        uint64_t seq = 0;
        Z desc;
        ref::CT ct;
        bool placeholder = false;
        Opt<Z> nonce;
        Z hash;
        Opt<ref::Disj> proof;
    };
    struct CContest {
        Str id;
        uint64_t seq = 0;
        Z desc;
        Vec<CSel> sels;
        Opt<Z> nonce;
        ref::CT acc;
        Z hash;
        Opt<ref::Cons> proof;
        Opt<ref::HCT> ext;
    };
    struct CBallot {
        Str id, style;
        Z manifest, seed;
        Vec<CContest> contests;
        Z code;
        uint64_t timestamp = 0;
        Opt<Z> nonce;
        Z hash;
    };
    U<eg::CiphertextBallotSelection> lib(const CSel &);
    U<eg::CiphertextBallotContest> lib(const CContest &);
    U<eg::CiphertextBallot> lib(const CBallot &);
    U<eg::SubmittedBallot> lib(const CBallot &, int state);
    CSel of(eg::CiphertextBallotSelection &);
    CContest of(const eg::CiphertextBallotContest &);
    CBallot of(const eg::CiphertextBallot &);
    struct DumpOpts {
        bool nonces = true, selProofs = true, contestProofs = true;
    };
    Str dump(const CSel &, DumpOpts = {});
    Str dump(const CContest &, DumpOpts = {});
    Str dump(const CBallot &, DumpOpts = {});
    // a nonce absent from a document is read back as zero
    CBallot withoutNonces(CBallot);

    Z hashSel(const CSel &);
    Z hashContest(const CContest &); // over the stored selection hashes
    Z hashBallot(const CBallot &, const Z &manifest);
    Z ballotCode(const Z &seed, uint64_t timestamp, const Z &hash);
    Z deviceHash(uint64_t device, uint64_t session, uint64_t launch, const Str &location);

    // Verification from public data.  Selections and contests must be in the
    // order the accessors give.  "" accepts, otherwise the first reason.
    Str refuses(const CSel &, const Z &desc, const Z &K, const Z &base);
    Str refuses(const CContest &, const Z &desc, const Z &K, const Z &base);
    Str refuses(const CBallot &, const Z &manifest, const Z &K, const Z &base);

    // --------------------------------------------------- reference encrypter
    enum Verdict { OK = 0, OVER = 1, BAD = 2, MANY = 3 };
    Verdict classify(const BContest &, const Str &id, uint64_t selections, uint64_t elected,
                     uint64_t votesAllowed);
    // first entry per contest and selection of the style; missing ones zero
    Ballot normalise(const Ballot &, const Internal &);
    struct PlainContest {
        Str id;
        bool over = false;
        Vec<std::pair<Str, uint64_t>> votes; // selections then placeholders
        Str extended;                        // JSON text or empty
    };
    Vec<PlainContest> plain(const Ballot &, const Internal &);
    Str extendedJson(const BContest &, bool over, const Internal &);
    // what hashed ElGamal encrypts for a text in the 512 byte mode
    Vec<uint8_t> extendedBlock(const Str &json);
    // everything the specification determines: all but the selection proofs
    CBallot refEncrypt(const Ballot &, const Internal &, const Z &K, const Z &base, const Z &seed,
                       const Z &nonce, uint64_t timestamp);

    // ---------------------------------------------------------- generators
    Str genText(pbt::Src &, size_t max = 12); // valid UTF-8
    extern bool nulTexts;                     // texts may contain NUL
    Str genId(pbt::Src &, std::set<Str> &used, const char *prefix);
    Text genI18n(pbt::Src &, size_t max = 2);
    Contact genContact(pbt::Src &);
    Opt<Text> genOptText(pbt::Src &);
    struct ManOpts {
        size_t maxContests = 3, maxSels = 4, maxStyles = 3, maxUnits = 4, maxElected = 3;
        bool extras = true;      // names, contacts, odd types, dates
        bool unordered = true;   // stored out of sequence order
        bool encryptable = true; // every contest has a selection
        bool bigSeq = true;
        bool allWriteIn = false;
        bool large = false; // now and then hundreds of one kind of part
        size_t minContests = 1, minSels = 0;
    };
    ManOpts vast(pbt::Src &); // one style with dozens of selections or of contests
    Man genManifest(pbt::Src &, const ManOpts & = {});
    struct BallotOpts {
        bool overvotes = true, omit = true, writeIns = true, extraPlaceholderFlag = true;
        bool shuffle = true;
    };
    Ballot genBallot(pbt::Src &, const Internal &, const Str &style, const BallotOpts & = {});
    Str genStyle(pbt::Src &, const Internal &); // a style with at least one contest, or ""

    // a whole election: manifest, key, context
    struct Election {
        Man man;
        Internal in;
        ref::Key key;
        uint64_t guardians = 1, quorum = 1;
        Z commitment, base, extBase;
        U<eg::Manifest> manifest;
        U<eg::InternalManifest> internalManifest;
        U<eg::CiphertextElectionContext> context;
    };
    ManOpts tiny(); // small elections for checks that encrypt
    Election genElection(pbt::Src &, const ManOpts &, unsigned keyPool = 3);
    Election electionOf(pbt::Src &, const Man &, unsigned keyPool = 3);
    Z baseHash(uint64_t n, uint64_t k, const Z &manifestHash);
    Z extendedHash(const Z &base, const Z &commitment);

    void same(const Str &expected, const Str &actual, const Str &what);
} // namespace gen
