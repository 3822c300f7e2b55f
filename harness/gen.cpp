#include "gen.hpp"

#include <algorithm>
#include <nlohmann/json.hpp>

namespace gen
{
    using ref::H;
    using ref::Item;
    using ref::list;
    using std::make_unique;
    using std::move;

    // ---------------------------------------------------------------- names
    static const char *kElection[] = {
      "unknown", "general", "partisanPrimaryClosed", "partisanPrimaryOpen", "primary", "runoff",
      "special", "other"};
    static const char *kUnit[] = {"unknown",
                                  "ballotBatch",
                                  "ballotStyleArea",
                                  "borough",
                                  "city",
                                  "cityCouncil",
                                  "combinedPrecinct",
                                  "congressional",
                                  "country",
                                  "county",
                                  "countyCouncil",
                                  "dropBox",
                                  "judicial",
                                  "municipality",
                                  "polling_place",
                                  "precinct",
                                  "school",
                                  "special",
                                  "splitPrecinct",
                                  "state",
                                  "stateHouse",
                                  "stateSenate",
                                  "township",
                                  "utility",
                                  "village",
                                  "voteCenter",
                                  "ward",
                                  "water",
                                  "other"};
    static const char *kVariation[] = {
      "unknown",   "one_of_m",     "approval", "borda", "cumulative",     "majority", "n_of_m",
      "plurality", "proportional", "range",    "rcv",   "super_majority", "other"};
    Str electionType(int i) { return kElection[i]; }
    Str unitType(int i) { return kUnit[i]; }
    Str variation(int i) { return kVariation[i]; }

    Str isoDate(uint64_t secs)
    {
        // civil from days (proleptic Gregorian)
        int64_t days = static_cast<int64_t>(secs / 86400), rem = static_cast<int64_t>(secs % 86400);
        int64_t z = days + 719468;
        int64_t era = z / 146097, doe = z - era * 146097;
        int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        int64_t y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        int64_t mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1;
        int64_t m = mp < 10 ? mp + 3 : mp - 9;
        if (m <= 2)
            y++;
        char b[64];
        snprintf(b, sizeof b, "%lld-%02lld-%02lldT%02lld:%02lld:%02lldZ", (long long)y,
                 (long long)m, (long long)d, (long long)(rem / 3600), (long long)(rem / 60 % 60),
                 (long long)(rem % 60));
        return b;
    }

    // ---------------------------------------------------------------- hashes
    template <typename T> static Item hashes(const Vec<T> &v)
    {
        Vec<Item> i;
        for (auto &x : v)
            i.emplace_back(hash(x));
        return list(i);
    }
    template <typename T> static Item hashOpt(const Opt<T> &o)
    {
        return o ? Item(hash(*o)) : Item(nullptr);
    }
    Z hash(const Lang &l) { return H({l.value, l.language}); }
    Z hash(const Text &t) { return H({hashes(t)}); }
    Z hash(const Ann &a) { return H({a.annotation, a.value}); }
    Z hash(const Contact &c)
    {
        return H({c.name, ref::listOf(c.address), hashes(c.email), hashes(c.phone)});
    }
    Z hash(const Unit &u) { return H({u.id, u.name, unitType(u.type), hashOpt(u.contact)}); }
    Z hash(const Style &s)
    {
        return H({s.id, ref::listOf(s.units), ref::listOf(s.parties), s.image});
    }
    Z hash(const PartyM &p) { return H({p.id, hashOpt(p.name), p.abbr, p.color, p.logo}); }
    Z hash(const Cand &c) { return H({c.id, hashOpt(c.name), c.party, c.image}); }
    Z hash(const Sel &s) { return H({s.id, s.seq, s.cand}); }
    Z hash(const Contest &c)
    {
        return H({c.id, c.seq, c.district, variation(c.variation), hashOpt(c.title),
                  hashOpt(c.subtitle), c.name, c.elected, c.votesAllowed, hashes(c.sels)});
    }
    Z hash(const Man &m)
    {
        return H({m.scope, electionType(m.type), isoDate(m.start), isoDate(m.end), hashOpt(m.name),
                  hashOpt(m.contact), hashes(m.units), hashes(m.parties), hashes(m.contests),
                  hashes(m.styles)});
    }

    // -------------------------------------------------------------- builders
    template <typename T> static auto libs(const Vec<T> &v)
    {
        Vec<decltype(lib(v[0]))> r;
        for (auto &x : v)
            r.push_back(lib(x));
        return r;
    }
    template <typename T> static auto libOpt(const Opt<T> &o) -> decltype(lib(*o))
    {
        return o ? lib(*o) : nullptr;
    }
    U<eg::Language> lib(const Lang &l) { return make_unique<eg::Language>(l.value, l.language); }
    U<eg::InternationalizedText> lib(const Text &t)
    {
        return make_unique<eg::InternationalizedText>(libs(t));
    }
    U<eg::AnnotatedString> lib(const Ann &a)
    {
        return make_unique<eg::AnnotatedString>(a.annotation, a.value);
    }
    U<eg::ContactInformation> lib(const Contact &c)
    {
        return make_unique<eg::ContactInformation>(c.address, libs(c.email), libs(c.phone), c.name);
    }
    U<eg::GeopoliticalUnit> lib(const Unit &u)
    {
        return make_unique<eg::GeopoliticalUnit>(
          u.id, u.name, static_cast<eg::ReportingUnitType>(u.type), libOpt(u.contact));
    }
    U<eg::BallotStyle> lib(const Style &s)
    {
        return make_unique<eg::BallotStyle>(s.id, s.units, s.parties, s.image);
    }
    U<eg::Party> lib(const PartyM &p)
    {
        return make_unique<eg::Party>(p.id, libOpt(p.name), p.abbr, p.color, p.logo);
    }
    U<eg::Candidate> lib(const Cand &c)
    {
        return make_unique<eg::Candidate>(c.id, libOpt(c.name), c.party, c.image, c.writeIn);
    }
    U<eg::SelectionDescription> lib(const Sel &s)
    {
        return make_unique<eg::SelectionDescription>(s.id, s.cand, s.seq);
    }
    U<eg::ContestDescription> lib(const Contest &c)
    {
        return make_unique<eg::ContestDescription>(
          c.id, c.district, c.seq, static_cast<eg::VoteVariationType>(c.variation), c.elected,
          c.votesAllowed, c.name, libOpt(c.title), libOpt(c.subtitle), libs(c.sels),
          c.primaryParties);
    }
    U<eg::ContestDescriptionWithPlaceholders> libWith(const Contest &c)
    {
        return make_unique<eg::ContestDescriptionWithPlaceholders>(
          c.id, c.district, c.seq, static_cast<eg::VoteVariationType>(c.variation), c.elected,
          c.votesAllowed, c.name, libOpt(c.title), libOpt(c.subtitle), libs(c.sels),
          c.primaryParties, libs(c.placeholders));
    }
    static std::chrono::system_clock::time_point tp(uint64_t secs)
    {
        return std::chrono::system_clock::time_point(
          std::chrono::seconds(static_cast<int64_t>(secs)));
    }
    U<eg::Manifest> lib(const Man &m)
    {
        return make_unique<eg::Manifest>(m.scope, static_cast<eg::ElectionType>(m.type),
                                         tp(m.start), tp(m.end), libs(m.units), libs(m.parties),
                                         libs(m.cands), libs(m.contests), libs(m.styles),
                                         libOpt(m.name), libOpt(m.contact));
    }
    U<eg::InternalManifest> lib(const Internal &m)
    {
        Vec<U<eg::ContestDescriptionWithPlaceholders>> c;
        for (auto &x : m.contests)
            c.push_back(libWith(x));
        return make_unique<eg::InternalManifest>(libs(m.units), libs(m.cands), move(c),
                                                 libs(m.styles), *ref::modQ(m.hash));
    }

    // ------------------------------------------------------------ extractors
    template <typename T> static auto ofs(const Vec<std::reference_wrapper<T>> &v)
    {
        Vec<decltype(of(v[0].get()))> r;
        for (auto &x : v)
            r.push_back(of(x.get()));
        return r;
    }
    template <typename T> static auto ofOpt(const T *p) -> Opt<decltype(of(*p))>
    {
        if (p == nullptr)
            return std::nullopt;
        return of(*p);
    }
    Lang of(const eg::Language &l) { return {l.getValue(), l.getLanguage()}; }
    Text of(const eg::InternationalizedText &t) { return ofs(t.getText()); }
    Ann of(const eg::AnnotatedString &a) { return {a.getAnnotation(), a.getValue()}; }
    Contact of(const eg::ContactInformation &c)
    {
        return {c.getAddressLine(), ofs(c.getEmail()), ofs(c.getPhone()), c.getName()};
    }
    Unit of(const eg::GeopoliticalUnit &u)
    {
        return {u.getObjectId(), u.getName(), static_cast<int>(u.getType()),
                ofOpt(u.getContactInformation())};
    }
    Style of(const eg::BallotStyle &s)
    {
        return {s.getObjectId(), s.getGeopoliticalUnitIds(), s.getPartyIds(), s.getImageUri()};
    }
    PartyM of(const eg::Party &p)
    {
        return {p.getObjectId(), ofOpt(p.getName()), p.getAbbreviation(), p.getColor(),
                p.getLogoUri()};
    }
    Cand of(const eg::Candidate &c)
    {
        return {c.getObjectId(), ofOpt(c.getName()), c.getPartyId(), c.getImageUri(),
                c.isWriteIn()};
    }
    Sel of(const eg::SelectionDescription &s)
    {
        return {s.getObjectId(), s.getCandidateId(), s.getSequenceOrder()};
    }
    Contest of(const eg::ContestDescription &c)
    {
        Contest r;
        r.id = c.getObjectId();
        r.district = c.getElectoralDistrictId();
        r.seq = c.getSequenceOrder();
        r.variation = static_cast<int>(c.getVoteVariation());
        r.elected = c.getNumberElected();
        r.votesAllowed = c.getVotesAllowed();
        r.name = c.getName();
        r.title = ofOpt(c.getBallotTitle());
        r.subtitle = ofOpt(c.getBallotSubtitle());
        r.sels = ofs(c.getSelections());
        return r;
    }
    Contest of(const eg::ContestDescriptionWithPlaceholders &c)
    {
        Contest r = of(static_cast<const eg::ContestDescription &>(c));
        r.placeholders = ofs(c.getPlaceholders());
        return r;
    }
    static uint64_t secs(std::chrono::system_clock::time_point t)
    {
        return static_cast<uint64_t>(
          std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count());
    }
    Man of(const eg::Manifest &m)
    {
        Man r;
        r.scope = m.getElectionScopeId();
        r.type = static_cast<int>(m.getElectionType());
        r.start = secs(m.getStartDate());
        r.end = secs(m.getEndDate());
        r.units = ofs(m.getGeopoliticalUnits());
        r.parties = ofs(m.getParties());
        r.cands = ofs(m.getCandidates());
        r.contests = ofs(m.getContests());
        r.styles = ofs(m.getBallotStyles());
        r.name = ofOpt(m.getName());
        r.contact = ofOpt(m.getContactInformation());
        return r;
    }
    Internal of(const eg::InternalManifest &m)
    {
        Internal r;
        r.units = ofs(m.getGeopoliticalUnits());
        r.cands = ofs(m.getCandidates());
        r.contests = ofs(m.getContests());
        r.styles = ofs(m.getBallotStyles());
        r.hash = ref::of(*m.getManifestHash());
        return r;
    }

    // ----------------------------------------------------------------- dumps
    static Str q(const Str &s)
    {
        Str r = "'";
        for (unsigned char ch : s) {
            if (ch < 32 || ch == '\'' || ch == '\\') {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", ch);
                r += b;
            } else
                r += static_cast<char>(ch);
        }
        return r + "'";
    }
    static Str q(uint64_t n) { return std::to_string(n); }
    static Str q(const Vec<Str> &v)
    {
        Str r = "[";
        for (auto &x : v)
            r += q(x) + ",";
        return r + "]";
    }
    template <typename T> static Str dumps(const Vec<T> &v)
    {
        Str r = "[";
        for (auto &x : v)
            r += dump(x) + ",\n";
        return r + "]";
    }
    template <typename T> static Str dumpOpt(const Opt<T> &o) { return o ? dump(*o) : "none"; }
    Str dump(const Lang &l) { return q(l.value) + "@" + q(l.language); }
    Str dump(const Text &t) { return "text" + dumps(t); }
    Str dump(const Ann &a) { return q(a.annotation) + ":" + q(a.value); }
    Str dump(const Contact &c)
    {
        return "contact{name=" + q(c.name) + " address=" + q(c.address) +
               " email=" + dumps(c.email) + " phone=" + dumps(c.phone) + "}";
    }
    Str dump(const Unit &u)
    {
        return "unit{" + q(u.id) + " name=" + q(u.name) + " type=" + q(u.type) + " " +
               dumpOpt(u.contact) + "}";
    }
    Str dump(const Style &s)
    {
        return "style{" + q(s.id) + " units=" + q(s.units) + " parties=" + q(s.parties) +
               " image=" + q(s.image) + "}";
    }
    Str dump(const PartyM &p)
    {
        return "party{" + q(p.id) + " name=" + dumpOpt(p.name) + " abbr=" + q(p.abbr) +
               " color=" + q(p.color) + " logo=" + q(p.logo) + "}";
    }
    Str dump(const Cand &c)
    {
        return "candidate{" + q(c.id) + " name=" + dumpOpt(c.name) + " party=" + q(c.party) +
               " image=" + q(c.image) + (c.writeIn ? " writein" : "") + "}";
    }
    Str dump(const Sel &s)
    {
        return "sel{" + q(s.id) + " cand=" + q(s.cand) + " seq=" + q(s.seq) + "}";
    }
    Str dump(const Contest &c)
    {
        return "contest{" + q(c.id) + " district=" + q(c.district) + " seq=" + q(c.seq) +
               " variation=" + q(c.variation) + " elected=" + q(c.elected) +
               " votesAllowed=" + q(c.votesAllowed) + " name=" + q(c.name) +
               " title=" + dumpOpt(c.title) + " subtitle=" + dumpOpt(c.subtitle) +
               "\n sels=" + dumps(c.sels) + " placeholders=" + dumps(c.placeholders) + "}";
    }
    Str dump(const Man &m)
    {
        return "manifest{scope=" + q(m.scope) + " type=" + q(m.type) + " start=" + q(m.start) +
               " end=" + q(m.end) + "\nunits=" + dumps(m.units) + "\nparties=" + dumps(m.parties) +
               "\ncands=" + dumps(m.cands) + "\ncontests=" + dumps(m.contests) +
               "\nstyles=" + dumps(m.styles) + "\nname=" + dumpOpt(m.name) + "\n" +
               dumpOpt(m.contact) + "}";
    }
    Str dump(const Internal &m)
    {
        return "internal{\nunits=" + dumps(m.units) + "\ncands=" + dumps(m.cands) +
               "\ncontests=" + dumps(m.contests) + "\nstyles=" + dumps(m.styles) +
               "\nhash=" + ref::hex(m.hash) + "}";
    }

    // ---------------------------------------------------------------- orders
    template <typename T> static void bySeq(Vec<T> &v)
    {
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.seq < b.seq; });
    }
    Contest sorted(Contest c)
    {
        bySeq(c.sels);
        bySeq(c.placeholders);
        return c;
    }
    Man sorted(Man m)
    {
        bySeq(m.contests);
        for (auto &c : m.contests)
            c = sorted(c);
        return m;
    }
    Internal sorted(Internal m)
    {
        bySeq(m.contests);
        for (auto &c : m.contests)
            c = sorted(c);
        return m;
    }
    bool isSorted(const Man &m) { return dump(sorted(m)) == dump(m); }

    // --------------------------------------------------------------- internal
    Internal internal(const Man &m)
    {
        Internal r;
        r.units = m.units;
        r.cands = m.cands;
        r.styles = m.styles;
        r.hash = hash(m);
        r.contests = m.contests;
        bySeq(r.contests);
        for (auto &c : r.contests) {
            uint64_t mx = 0;
            for (auto &s : c.sels)
                mx = std::max(mx, s.seq);
            for (uint64_t i = 0; i < c.elected; i++) {
                uint64_t n = mx + 1 + i;
                Str b = c.id + "-" + std::to_string(n);
                c.placeholders.push_back({b + "-placeholder", b + "-candidate", n});
            }
        }
        return r;
    }
    template <typename T, typename F> static bool distinctIds(const Vec<T> &v, F f)
    {
        std::set<Str> ids;
        for (auto &x : v)
            if (f(x).empty() || !ids.insert(f(x)).second)
                return false;
        return true;
    }
    bool valid(const Contest &c)
    {
        if (c.elected > c.sels.size())
            return false;
        if (c.votesAllowed != 0 && c.votesAllowed < c.elected)
            return false;
        std::set<uint64_t> seqs;
        for (auto &s : c.sels)
            if (!seqs.insert(s.seq).second)
                return false;
        return distinctIds(c.sels, [](const Sel &s) { return s.id; }) &&
               distinctIds(c.sels, [](const Sel &s) { return s.cand; });
    }
    bool valid(const Man &m)
    {
        auto id = [](auto &x) { return x.id; };
        if (!distinctIds(m.units, id) || !distinctIds(m.styles, id) ||
            !distinctIds(m.parties, id) || !distinctIds(m.cands, id) ||
            !distinctIds(m.contests, id))
            return false;
        std::set<Str> units, parties;
        for (auto &u : m.units)
            units.insert(u.id);
        for (auto &p : m.parties)
            parties.insert(p.id);
        for (auto &s : m.styles) {
            if (s.units.empty())
                return false;
            for (auto &u : s.units)
                if (!units.count(u))
                    return false;
        }
        for (auto &c : m.cands)
            if (!c.party.empty() && !parties.count(c.party))
                return false;
        std::set<uint64_t> seqs;
        for (auto &c : m.contests)
            if (!valid(c) || !units.count(c.district) || !seqs.insert(c.seq).second)
                return false;
        return true;
    }
    Vec<const Contest *> contestsOf(const Internal &m, const Str &style)
    {
        Vec<const Contest *> r;
        for (auto &s : m.styles)
            if (s.id == style) {
                for (auto &c : m.contests)
                    if (std::find(s.units.begin(), s.units.end(), c.district) != s.units.end())
                        r.push_back(&c);
                break;
            }
        std::stable_sort(r.begin(), r.end(), [](auto *a, auto *b) { return a->seq < b->seq; });
        return r;
    }
    const Contest *findContest(const Internal &m, const Str &id)
    {
        for (auto &c : m.contests)
            if (c.id == id)
                return &c;
        return nullptr;
    }

    // --------------------------------------------------------- plain ballots
    U<eg::PlaintextBallotSelection> lib(const BSel &s)
    {
        return make_unique<eg::PlaintextBallotSelection>(s.id, s.vote, s.placeholder, s.writeIn);
    }
    U<eg::PlaintextBallotContest> lib(const BContest &c)
    {
        return make_unique<eg::PlaintextBallotContest>(c.id, libs(c.sels));
    }
    U<eg::PlaintextBallot> lib(const Ballot &b)
    {
        return make_unique<eg::PlaintextBallot>(b.id, b.style, libs(b.contests));
    }
    BSel of(const eg::PlaintextBallotSelection &s)
    {
        return {s.getObjectId(), s.getVote(), s.getIsPlaceholder(), s.getWriteIn()};
    }
    BContest of(const eg::PlaintextBallotContest &c)
    {
        return {c.getObjectId(), ofs(c.getSelections())};
    }
    Ballot of(const eg::PlaintextBallot &b)
    {
        return {b.getObjectId(), b.getStyleId(), ofs(b.getContests())};
    }
    Str dump(const BSel &s)
    {
        return q(s.id) + "=" + q(s.vote) + (s.placeholder ? "(placeholder)" : "") +
               (s.writeIn.empty() ? "" : " writein=" + q(s.writeIn));
    }
    Str dump(const BContest &c) { return "contest{" + q(c.id) + " " + dumps(c.sels) + "}"; }
    Str dump(const Ballot &b)
    {
        return "ballot{" + q(b.id) + " style=" + q(b.style) + " " + dumps(b.contests) + "}";
    }

    // ------------------------------------------------------ encrypted ballots
    static ref::UQ qOpt(const Opt<Z> &z) { return z ? ref::modQ(*z) : nullptr; }
    static Opt<Z> ofQ(const eg::ElementModQ *e)
    {
        if (e == nullptr)
            return std::nullopt;
        return ref::of(*e);
    }
    U<eg::CiphertextBallotSelection> lib(const CSel &s)
    {
        return make_unique<eg::CiphertextBallotSelection>(
          s.id, s.seq, *ref::modQ(s.desc), ref::lib(s.ct), s.placeholder, qOpt(s.nonce),
          ref::modQ(s.hash), s.proof ? ref::lib(*s.proof) : nullptr);
    }
    U<eg::CiphertextBallotContest> lib(const CContest &c)
    {
        U<eg::HashedElGamalCiphertext> ext;
        if (c.ext)
            ext = make_unique<eg::HashedElGamalCiphertext>(ref::modP(c.ext->pad), c.ext->data,
                                                           c.ext->mac);
        return make_unique<eg::CiphertextBallotContest>(
          c.id, c.seq, *ref::modQ(c.desc), libs(c.sels), qOpt(c.nonce), ref::lib(c.acc),
          ref::modQ(c.hash), c.proof ? ref::lib(*c.proof) : nullptr, move(ext));
    }
    U<eg::CiphertextBallot> lib(const CBallot &b)
    {
        return make_unique<eg::CiphertextBallot>(
          b.id, b.style, *ref::modQ(b.manifest), ref::modQ(b.seed), libs(b.contests),
          ref::modQ(b.code), b.timestamp, qOpt(b.nonce), ref::modQ(b.hash));
    }
    U<eg::SubmittedBallot> lib(const CBallot &b, int state)
    {
        return make_unique<eg::SubmittedBallot>(
          b.id, b.style, *ref::modQ(b.manifest), ref::modQ(b.seed), libs(b.contests),
          ref::modQ(b.code), b.timestamp, qOpt(b.nonce), ref::modQ(b.hash),
          static_cast<eg::BallotBoxState>(state));
    }
    CSel of(eg::CiphertextBallotSelection &s)
    {
        CSel r;
        r.id = s.getObjectId();
        r.seq = s.getSequenceOrder();
        r.desc = ref::of(*s.getDescriptionHash());
        r.ct = ref::of(*s.getCiphertext());
        r.placeholder = s.getIsPlaceholder();
        r.nonce = ofQ(s.getNonce());
        r.hash = ref::of(*s.getCryptoHash());
        if (s.getProof() != nullptr)
            r.proof = ref::of(*s.getProof());
        return r;
    }
    CContest of(const eg::CiphertextBallotContest &c)
    {
        CContest r;
        r.id = c.getObjectId();
        r.seq = c.getSequenceOrder();
        r.desc = ref::of(*c.getDescriptionHash());
        for (auto &s : c.getSelections())
            r.sels.push_back(of(s.get()));
        r.nonce = ofQ(c.getNonce());
        r.acc = ref::of(*c.getCiphertextAccumulation());
        r.hash = ref::of(*c.getCryptoHash());
        if (c.getProof() != nullptr)
            r.proof = ref::of(*c.getProof());
        if (auto e = c.getHashedElGamalCiphertext())
            r.ext = ref::of(*e);
        return r;
    }
    CBallot of(const eg::CiphertextBallot &b)
    {
        CBallot r;
        r.id = b.getObjectId();
        r.style = b.getStyleId();
        r.manifest = ref::of(*b.getManifestHash());
        r.seed = ref::of(*b.getBallotCodeSeed());
        for (auto &c : b.getContests())
            r.contests.push_back(of(c.get()));
        r.code = ref::of(*b.getBallotCode());
        r.timestamp = b.getTimestamp();
        r.nonce = ofQ(b.getNonce());
        r.hash = ref::of(*b.getCryptoHash());
        return r;
    }
    static Str z(const Z &v) { return v.get_str(16); }
    static Str zOpt(const Opt<Z> &v) { return v ? z(*v) : "none"; }
    Str dump(const CSel &s, DumpOpts o)
    {
        Str r = "sel{" + q(s.id) + " seq=" + q(s.seq) + " desc=" + z(s.desc) +
                "\n  pad=" + z(s.ct.a) + "\n  data=" + z(s.ct.b) + "\n  " +
                (s.placeholder ? "placeholder " : "") + "hash=" + z(s.hash);
        if (o.nonces)
            r += "\n  nonce=" + zOpt(s.nonce);
        if (o.selProofs) {
            if (s.proof) {
                auto &p = *s.proof;
                for (auto *v : {&p.a0, &p.b0, &p.a1, &p.b1, &p.c0, &p.c1, &p.c, &p.v0, &p.v1})
                    r += "\n  proof " + z(*v);
            } else
                r += " noproof";
        }
        return r + "}\n";
    }
    Str dump(const CContest &c, DumpOpts o)
    {
        Str r = "contest{" + q(c.id) + " seq=" + q(c.seq) + " desc=" + z(c.desc) + "\n";
        for (auto &s : c.sels)
            r += dump(s, o);
        r += " acc pad=" + z(c.acc.a) + "\n acc data=" + z(c.acc.b) + "\n hash=" + z(c.hash);
        if (o.nonces)
            r += "\n contest nonce=" + zOpt(c.nonce);
        if (o.contestProofs) {
            if (c.proof) {
                auto &p = *c.proof;
                for (auto *v : {&p.a, &p.b, &p.c, &p.v})
                    r += "\n limit proof " + z(*v);
                r += " L=" + q(p.L);
            } else
                r += " noproof";
        }
        if (c.ext)
            r += "\n ext pad=" + z(c.ext->pad) + "\n ext data=" + pbt::hexOf(c.ext->data) +
                 "\n ext mac=" + pbt::hexOf(c.ext->mac);
        else
            r += "\n noext";
        return r + "}\n";
    }
    Str dump(const CBallot &b, DumpOpts o)
    {
        Str r = "ballot{" + q(b.id) + " style=" + q(b.style) + " manifest=" + z(b.manifest) +
                "\nseed=" + z(b.seed) + "\n";
        for (auto &c : b.contests)
            r += dump(c, o);
        r += "code=" + z(b.code) + " timestamp=" + q(b.timestamp) + " hash=" + z(b.hash);
        if (o.nonces)
            r += " ballot nonce=" + zOpt(b.nonce);
        return r + "}";
    }
    CBallot withoutNonces(CBallot b)
    {
        b.nonce = Z(0);
        for (auto &c : b.contests) {
            c.nonce = Z(0);
            for (auto &s : c.sels)
                s.nonce = Z(0);
        }
        return b;
    }

    Z hashSel(const CSel &s) { return H({s.id, s.desc, H({s.ct.a, s.ct.b})}); }
    Z hashContest(const CContest &c)
    {
        Vec<Item> v{c.id, c.desc};
        for (auto &s : c.sels)
            v.emplace_back(s.hash);
        return H(v);
    }
    Z hashBallot(const CBallot &b, const Z &manifest)
    {
        Vec<Item> v{b.id, manifest};
        for (auto &c : b.contests)
            v.emplace_back(c.hash);
        return H(v);
    }
    Z ballotCode(const Z &seed, uint64_t timestamp, const Z &hash)
    {
        return H({seed, timestamp, hash});
    }
    Z deviceHash(uint64_t d, uint64_t s, uint64_t l, const Str &loc) { return H({d, s, l, loc}); }

    Str refuses(const CSel &s, const Z &desc, const Z &K, const Z &base)
    {
        if (s.desc != desc)
            return "selection description hash";
        if (s.hash != hashSel(s))
            return "selection hash";
        if (!s.proof)
            return "no selection proof";
        if (!ref::verify(s.ct, *s.proof, K, base))
            return "selection proof";
        return "";
    }
    Str refuses(const CContest &c, const Z &desc, const Z &K, const Z &base)
    {
        if (c.sels.empty())
            return "no selections";
        if (c.desc != desc)
            return "contest description hash";
        if (c.hash != hashContest(c))
            return "contest hash";
        ref::CT sum{1, 1};
        for (auto &s : c.sels)
            sum = {ref::mulp(sum.a, s.ct.a), ref::mulp(sum.b, s.ct.b)};
        if (sum.a != c.acc.a || sum.b != c.acc.b)
            return "accumulation";
        if (!c.proof)
            return "no limit proof";
        if (!ref::verify(sum, *c.proof, K, base))
            return "limit proof";
        return "";
    }
    Str refuses(const CBallot &b, const Z &manifest, const Z &K, const Z &base)
    {
        if (b.contests.empty())
            return "no contests";
        if (b.manifest != manifest)
            return "manifest hash";
        if (b.hash != hashBallot(b, manifest))
            return "ballot hash";
        // cheap reasons first; any reason refuses
        for (auto &c : b.contests) {
            if (c.sels.empty())
                return "no selections";
            if (c.hash != hashContest(c))
                return "contest hash";
            for (auto &s : c.sels)
                if (s.hash != hashSel(s))
                    return "selection hash";
        }
        for (auto &c : b.contests) {
            Str r = refuses(c, c.desc, K, base);
            if (!r.empty())
                return r;
            for (auto &s : c.sels) {
                r = refuses(s, s.desc, K, base);
                if (!r.empty())
                    return r;
            }
        }
        return "";
    }

    // --------------------------------------------------- reference encrypter
    Verdict classify(const BContest &c, const Str &id, uint64_t selections, uint64_t elected,
                     uint64_t votesAllowed)
    {
        if (c.id != id)
            return BAD;
        if (c.sels.size() > selections)
            return MANY;
        Z sum = 0;
        uint64_t marked = 0;
        for (auto &s : c.sels) {
            sum += static_cast<unsigned long>(s.vote);
            marked += s.vote >= 1 ? 1 : 0;
        }
        uint64_t limit = votesAllowed == 0 ? elected : votesAllowed;
        if (marked > elected || sum > static_cast<unsigned long>(limit))
            return OVER;
        return OK;
    }
    Ballot normalise(const Ballot &b, const Internal &in)
    {
        Ballot r;
        r.id = b.id;
        r.style = b.style;
        for (auto *c : contestsOf(in, b.style)) {
            BContest n;
            n.id = c->id;
            const BContest *given = nullptr;
            for (auto &x : b.contests)
                if (x.id == c->id) {
                    given = &x;
                    break;
                }
            Contest sc = sorted(*c);
            for (auto &s : sc.sels) {
                BSel v{s.id, 0, false, ""};
                if (given)
                    for (auto &x : given->sels)
                        if (x.id == s.id) {
                            v = x;
                            break;
                        }
                n.sels.push_back(v);
            }
            r.contests.push_back(n);
        }
        return r;
    }
    Str extendedJson(const BContest &c, bool over, const Internal &in)
    {
        nlohmann::json j;
        if (over) {
            j["error"] = "overvote";
            nlohmann::json ids;
            for (auto &s : c.sels)
                if (s.vote == 1)
                    ids.push_back(s.id);
            j["error_data"] = ids;
        }
        const Contest *d = findContest(in, c.id);
        nlohmann::json w;
        for (auto &s : c.sels)
            if (s.vote == 1 && d)
                for (auto &ds : d->sels)
                    if (ds.id == s.id)
                        for (auto &cand : in.cands)
                            if (cand.id == ds.cand && cand.writeIn)
                                w[s.id] = s.writeIn;
        if (!w.is_null())
            j["write_ins"] = w;
        return j.is_null() ? "" : j.dump();
    }
    Vec<PlainContest> plain(const Ballot &b, const Internal &in)
    {
        Vec<PlainContest> r;
        Ballot n = normalise(b, in);
        for (auto &c : n.contests) {
            const Contest *d = findContest(in, c.id);
            PlainContest p;
            p.id = c.id;
            p.over = classify(c, d->id, d->sels.size(), d->elected, d->votesAllowed) == OVER;
            uint64_t total = 0;
            for (auto &s : c.sels) {
                uint64_t v = p.over ? 0 : s.vote;
                total += v;
                p.votes.emplace_back(s.id, v);
            }
            for (auto &s : sorted(*d).placeholders) {
                uint64_t v = total < d->elected ? 1 : 0;
                total += v;
                p.votes.emplace_back(s.id, v);
            }
            p.extended = extendedJson(c, p.over, in);
            r.push_back(p);
        }
        return r;
    }
    Vec<uint8_t> extendedBlock(const Str &j)
    {
        size_t n = std::min<size_t>(j.size(), 510), pad = 510 - n;
        Vec<uint8_t> p{static_cast<uint8_t>(pad >> 8), static_cast<uint8_t>(pad & 255)};
        p.insert(p.end(), j.begin(), j.begin() + static_cast<long>(n));
        p.resize(512, 0);
        return p;
    }
    CBallot refEncrypt(const Ballot &b, const Internal &in, const Z &K, const Z &base,
                       const Z &seed, const Z &nonce, uint64_t timestamp)
    {
        CBallot r;
        r.id = b.id;
        r.style = b.style;
        r.manifest = in.hash;
        r.seed = seed;
        r.timestamp = timestamp;
        r.nonce = nonce;
        Z nonceSeed = H({in.hash, b.id, nonce});
        for (auto &p : plain(b, in)) {
            const Contest *d = findContest(in, p.id);
            CContest c;
            c.id = d->id;
            c.seq = d->seq;
            c.desc = hash(*d);
            ref::NonceSeq cn(c.desc, {nonceSeed});
            c.nonce = cn.get(d->seq);
            Z proofSeed = cn.get(d->seq + 1);
            Vec<Sel> all = sorted(*d).sels, ph = sorted(*d).placeholders;
            size_t real = all.size();
            all.insert(all.end(), ph.begin(), ph.end());
            Z total = 0;
            c.acc = {1, 1};
            for (size_t i = 0; i < all.size(); i++) {
                CSel s;
                s.id = all[i].id;
                s.seq = all[i].seq;
                s.desc = hash(all[i]);
                s.placeholder = i >= real;
                s.nonce = ref::NonceSeq(s.desc, {*c.nonce}).get(s.seq);
                s.ct = ref::encrypt(p.votes[i].second, *s.nonce, K);
                s.hash = hashSel(s);
                total = ref::modq(total + *s.nonce);
                c.acc = {ref::mulp(c.acc.a, s.ct.a), ref::mulp(c.acc.b, s.ct.b)};
                c.sels.push_back(s);
            }
            bySeq(c.sels);
            c.hash = hashContest(c);
            c.proof = ref::proveTotal(c.acc, total, K, proofSeed, base, d->elected);
            Z en = ref::NonceSeq(*c.nonce, {"constant-extended-data"}).get(0);
            c.ext =
              ref::hashedEncrypt(extendedBlock(p.extended), ref::gpow(en), ref::powp(K, en), base);
            r.contests.push_back(c);
        }
        bySeq(r.contests);
        r.hash = hashBallot(r, in.hash);
        r.code = ballotCode(seed, timestamp, r.hash);
        return r;
    }

    // ------------------------------------------------------------ generators
    bool nulTexts = false;
    Str genText(pbt::Src &s, size_t max)
    {
        static const Vec<Str> odd = {
          "|", "-",    "\"", "\\", "{}",   "null", "0",    "00",   "\n",  "\t", " ",
          "é", "日本", "😀", "'",  "<b>&", "FF",   "\x01", "\x7f", "[1]", "%s", "a-1-placeholder"};
        Str r;
        if (max >= 3 && s.chance(1, 40)) // texts that differ only far behind
            r = Str(s.range(20, s.boolean() ? 70 : 300), 'l');
        size_t n = s.many(0, max, 300, 500);
        for (size_t i = 0; i < n; i++) {
            if (nulTexts && s.chance(1, 30))
                r += '\0';
            else if (s.chance(1, 5))
                r += s.of(odd);
            else
                r += static_cast<char>('a' + s.upto(25));
        }
        return r;
    }
    Str genId(pbt::Src &s, std::set<Str> &used, const char *prefix)
    {
        Str r;
        switch (s.pick({15, 6, 1})) {
            case 0:
                r = prefix + std::to_string(s.upto(9));
                break;
            case 2: // identifiers that differ only far behind
                r = prefix + Str(s.range(10, s.boolean() ? 70 : 300), '-') +
                    std::to_string(s.upto(9));
                break;
            default:
                r = genText(s, 8);
        }
        if (r.empty())
            r = prefix;
        while (!used.insert(r).second)
            r += "x";
        return r;
    }
    Text genI18n(pbt::Src &s, size_t max)
    {
        Text t;
        size_t n = s.many(0, max, 40, 400);
        for (size_t i = 0; i < n; i++)
            t.push_back({genText(s, 10), s.boolean() ? genText(s, 3) : Str("en")});
        return t;
    }
    Opt<Text> genOptText(pbt::Src &s)
    {
        if (!s.boolean())
            return std::nullopt;
        return genI18n(s);
    }
    static Vec<Ann> genAnns(pbt::Src &s)
    {
        Vec<Ann> v;
        size_t n = s.many(0, 2, 40, 400);
        for (size_t i = 0; i < n; i++)
            v.push_back({genText(s, 5), genText(s, 8)});
        return v;
    }
    Contact genContact(pbt::Src &s)
    {
        Contact c;
        size_t n = s.many(0, 3, 40, 400);
        for (size_t i = 0; i < n; i++)
            c.address.push_back(genText(s, 8));
        c.email = genAnns(s);
        c.phone = genAnns(s);
        c.name = genText(s, 8);
        return c;
    }
    template <typename T> static void mixOrder(pbt::Src &s, Vec<T> &v)
    {
        auto p = s.shuffle(v.size());
        Vec<T> r;
        for (size_t i : p)
            r.push_back(v[i]);
        v = r;
    }
    static uint64_t genSeqStep(pbt::Src &s, bool big)
    {
        if (!big)
            return s.range(1, 3);
        switch (s.pick({6, 2, 1})) {
            case 0:
                return 1;
            case 1:
                return s.range(1, 9);
            default:
                return s.of(Vec<uint64_t>{1, 255, 65536, 0x7fffffffULL, 0x80000000ULL,
                                          0xffffffffULL, 0x100000000ULL, 0x123456789abcULL});
        }
    }
    Man genManifest(pbt::Src &s, const ManOpts &o)
    {
        Man m;
        std::set<Str> ids, uid, pid, cid, coid, sid;
        m.scope = o.extras ? genText(s, 8) : "scope";
        if (o.extras) {
            m.type = static_cast<int>(s.upto(7));
            m.start =
              s.pick({3, 1}) == 0 ? 1600000000 + s.upto(100000000) : s.upto(253402300799ULL);
            m.end = s.pick({3, 1}) == 0 ? m.start + s.upto(1000000) : s.upto(253402300799ULL);
            if (m.end > 253402300799ULL)
                m.end = 253402300799ULL;
            // whole seconds that fit the clock's nanosecond range
            m.start %= 9000000000ULL;
            m.end %= 9000000000ULL;
            m.name = genOptText(s);
            if (s.boolean())
                m.contact = genContact(s);
        }
        size_t dim = o.large && s.chance(1, 200) ? s.range(1, 5) : 0;
        size_t hundreds = dim > 0 ? s.many(20, 60, 300, 3) : 0;
        size_t nu = dim == 1 ? hundreds : s.range(1, o.maxUnits);
        for (size_t i = 0; i < nu; i++) {
            Unit u;
            u.id = genId(s, uid, "unit");
            if (o.extras) {
                u.name = genText(s, 8);
                u.type = static_cast<int>(s.upto(28));
                if (s.chance(1, 3))
                    u.contact = genContact(s);
            }
            m.units.push_back(u);
        }
        size_t np = !o.extras ? 0 : dim == 2 ? hundreds : s.size(0, 3);
        for (size_t i = 0; i < np; i++) {
            PartyM p;
            p.id = genId(s, pid, "party");
            p.name = genOptText(s);
            p.abbr = genText(s, 3);
            p.color = genText(s, 3);
            p.logo = genText(s, 5);
            m.parties.push_back(p);
        }
        size_t nc = dim == 3 ? hundreds : s.range(o.minContests, o.maxContests);
        uint64_t cseq = s.upto(2);
        std::set<Str> selIds;
        for (size_t i = 0; i < nc; i++) {
            Contest c;
            c.id = genId(s, coid, "contest");
            c.district = s.of(m.units).id;
            c.seq = cseq;
            cseq += genSeqStep(s, o.bigSeq);
            size_t ns = dim == 4 && i == 0
                          ? hundreds
                          : s.range(std::max<size_t>(o.minSels, o.encryptable ? 1 : 0), o.maxSels);
            c.elected = std::min<uint64_t>({s.range(s.chance(1, 10) ? 0 : 1, o.maxElected), ns});
            if (dim == 4 && i == 0 && s.boolean())
                c.elected = s.upto(ns);
            c.variation = o.extras ? static_cast<int>(s.upto(12)) : 6;
            switch (s.pick({3, 1, 1})) {
                case 0:
                    c.votesAllowed = c.elected;
                    break;
                case 1:
                    c.votesAllowed = 0;
                    break;
                default:
                    c.votesAllowed = c.elected + s.upto(3);
            }
            if (o.extras) {
                c.name = genText(s, 8);
                c.title = genOptText(s);
                c.subtitle = genOptText(s);
                if (s.chance(1, 4))
                    c.primaryParties.push_back(genText(s, 4));
            }
            uint64_t sseq = s.upto(2);
            std::set<Str> own;
            // selection identifiers are unique within the contest only
            bool shared = s.chance(1, 6);
            for (size_t k = 0; k < ns; k++) {
                Cand cand;
                cand.id = genId(s, cid, "cand");
                cand.writeIn = o.allWriteIn || s.chance(1, 3);
                if (o.extras) {
                    cand.name = genOptText(s);
                    if (!m.parties.empty() && s.boolean())
                        cand.party = s.of(m.parties).id;
                    cand.image = genText(s, 4);
                }
                m.cands.push_back(cand);
                c.sels.push_back({genId(s, shared ? own : selIds, "sel"), cand.id, sseq});
                own.insert(c.sels.back().id);
                sseq += genSeqStep(s, o.bigSeq);
            }
            if (o.unordered && s.chance(1, 3))
                mixOrder(s, c.sels);
            m.contests.push_back(c);
        }
        if (o.unordered && s.chance(1, 3))
            mixOrder(s, m.contests);
        size_t nst = dim == 5 ? hundreds : s.range(1, o.maxStyles);
        for (size_t i = 0; i < nst; i++) {
            Style st;
            st.id = genId(s, sid, "style");
            size_t k = s.range(1, m.units.size() + 1);
            if (k > m.units.size()) { // all of them
                for (auto &u : m.units)
                    st.units.push_back(u.id);
            } else
                for (size_t j = 0; j < k; j++)
                    st.units.push_back(s.of(m.units).id); // may repeat
            if (o.extras) {
                if (!m.parties.empty() && s.boolean())
                    st.parties.push_back(s.of(m.parties).id);
                st.image = genText(s, 4);
            }
            m.styles.push_back(st);
        }
        return m;
    }
    Str genStyle(pbt::Src &s, const Internal &in)
    {
        Vec<Str> ok;
        for (auto &st : in.styles)
            if (!contestsOf(in, st.id).empty())
                ok.push_back(st.id);
        if (ok.empty())
            return "";
        return s.of(ok);
    }
    Ballot genBallot(pbt::Src &s, const Internal &in, const Str &style, const BallotOpts &o)
    {
        Ballot b;
        std::set<Str> none;
        b.id = genId(s, none, "ballot");
        b.style = style;
        for (auto *c : contestsOf(in, style)) {
            if (o.omit && s.chance(1, 6))
                continue;
            BContest bc;
            bc.id = c->id;
            Contest d = sorted(*c);
            uint64_t budget = o.overvotes && s.chance(1, 4)
                                ? d.sels.size()
                                : s.upto(std::min<uint64_t>(d.elected, d.sels.size()));
            auto order = s.shuffle(d.sels.size());
            std::set<size_t> marked(order.begin(), order.begin() + static_cast<long>(budget));
            for (size_t i = 0; i < d.sels.size(); i++) {
                bool on = marked.count(i) > 0;
                if (!on && o.omit && s.chance(1, 4))
                    continue;
                BSel v{d.sels[i].id, on ? 1ULL : 0ULL, false, ""};
                if (o.extraPlaceholderFlag && s.chance(1, 12))
                    v.placeholder = true;
                if (o.writeIns) {
                    bool wi = false;
                    for (auto &cd : in.cands)
                        wi = wi || (cd.id == d.sels[i].cand && cd.writeIn);
                    if (s.chance(wi ? 3 : 1, 4))
                        v.writeIn = s.chance(1, 12) ? genText(s, 600) : genText(s, 20);
                }
                bc.sels.push_back(v);
            }
            if (o.shuffle && s.chance(1, 3))
                mixOrder(s, bc.sels);
            b.contests.push_back(bc);
        }
        if (o.shuffle && s.chance(1, 3))
            mixOrder(s, b.contests);
        return b;
    }
    ManOpts tiny()
    {
        ManOpts o;
        o.maxContests = 2;
        o.maxSels = 3;
        o.maxElected = 2;
        o.maxStyles = 2;
        o.maxUnits = 2;
        o.extras = false;
        return o;
    }
    ManOpts vast(pbt::Src &s)
    {
        ManOpts o = tiny();
        o.maxUnits = o.maxStyles = 1;
        if (s.boolean()) {
            o.maxContests = 1;
            o.minSels = s.range(33, 70);
            o.maxSels = o.minSels + 4;
            o.maxElected = s.boolean() ? 1 : 5;
        } else {
            o.minContests = s.range(17, 34);
            o.maxContests = o.minContests + 2;
            o.maxSels = o.maxElected = 1;
        }
        return o;
    }
    Z baseHash(uint64_t n, uint64_t k, const Z &mh)
    {
        return H({ref::PP(), ref::QQ(), ref::GG(), n, k, mh});
    }
    Z extendedHash(const Z &base, const Z &commitment) { return H({base, commitment}); }
    Election genElection(pbt::Src &s, const ManOpts &o, unsigned keyPool)
    {
        return electionOf(s, genManifest(s, o), keyPool);
    }
    Election electionOf(pbt::Src &s, const Man &man, unsigned keyPool)
    {
        Election e;
        e.man = man;
        e.in = internal(e.man);
        e.key = ref::genKey(s, keyPool);
        e.quorum = s.range(1, 3);
        e.guardians = e.quorum + s.upto(2);
        e.commitment = ref::genQ(s);
        e.base = baseHash(e.guardians, e.quorum, e.in.hash);
        e.extBase = extendedHash(e.base, e.commitment);
        e.manifest = lib(e.man);
        e.internalManifest = make_unique<eg::InternalManifest>(*e.manifest);
        e.context = eg::CiphertextElectionContext::make(
          e.guardians, e.quorum, ref::modP(e.key.K, e.key.kp->getPublicKey()->isFixedBase()),
          ref::modQ(e.commitment), ref::modQ(e.in.hash));
        return e;
    }

    void same(const Str &expected, const Str &actual, const Str &what)
    {
        if (expected == actual)
            return;
        size_t i = 0;
        while (i < expected.size() && i < actual.size() && expected[i] == actual[i])
            i++;
        size_t from = i > 60 ? i - 60 : 0;
        pbt::fail(what + " differs at " + std::to_string(i) + ": expected ..." +
                  expected.substr(from, 160) + "... got ..." + actual.substr(from, 160));
    }
} // namespace gen
