// V01: histories of copy, assign, clone, move and destroy, under AddressSanitizer.
#include "electionguard/precompute_buffers.hpp"
#include "ser.hpp"

using namespace pbt;
using namespace gen;
using namespace ser;
using namespace electionguard;

enum : unsigned { COPY = 1, ASSIGN = 2, CLONE = 4, MOVE = 8, MOVEASSIGN = 16 };

// A pool of objects, each with what it has to look like.  ops tells which
// operations the type defines.
template <typename T, unsigned ops, typename Make, typename View>
static void history(Ctx &c, const char *name, Make make, View view)
{
    auto &s = c.src;
    struct Slot {
        U<T> t;
        Str want;
    };
    Vec<Slot> pool;
    auto add = [&] {
        auto t = make(s);
        Str v = view(*t);
        pool.push_back({std::move(t), v});
    };
    c << name << ": ";
    c.label(name);
    add();
    c << pool[0].want.substr(0, 400) << " ";
    size_t copies = 0;
    for (size_t n = s.range(1, 12); n > 0; n--) {
        if (pool.empty())
            add();
        size_t i = s.upto(pool.size() - 1), j = s.upto(pool.size() - 1);
        switch (s.pick({3, 4, 3, 3, 2, 3, 2})) {
            case 0:
                if (pool.size() < 5) {
                    c << "new ";
                    add();
                }
                break;
            case 1:
                if constexpr (ops & COPY) {
                    c << "copy " << i << " ";
                    pool.push_back({std::make_unique<T>(static_cast<const T &>(*pool[i].t)),
                                    pool[i].want});
                    copies++;
                }
                break;
            case 2:
                if constexpr (ops & ASSIGN) {
                    c << "assign " << i << "=" << j << " ";
                    *pool[i].t = *pool[j].t;
                    pool[i].want = pool[j].want;
                    copies++;
                }
                break;
            case 3:
                if constexpr (ops & CLONE) {
                    c << "clone " << i << " ";
                    pool.push_back({pool[i].t->clone(), pool[i].want});
                    copies++;
                }
                break;
            case 4:
                if constexpr (ops & MOVE) {
                    c << "move " << i << " ";
                    auto moved = std::make_unique<T>(std::move(*pool[i].t));
                    pool[i].t = std::move(moved);
                    copies++;
                }
                break;
            case 5: // the rest survives it
                c << "destroy " << i << " ";
                pool.erase(pool.begin() + static_cast<long>(i));
                break;
            default:
                if constexpr (ops & MOVEASSIGN) {
                    if (i != j) {
                        c << "move " << j << " to " << i << " ";
                        *pool[i].t = std::move(*pool[j].t);
                        pool[i].want = pool[j].want;
                        pool.erase(pool.begin() + static_cast<long>(j));
                        copies++;
                    }
                } else if constexpr (ops & COPY) {
                    // a vector that grows
                    c << "vector of " << i << " ";
                    std::vector<T> v;
                    for (int k = 0; k < 3; k++)
                        v.push_back(static_cast<const T &>(*pool[i].t));
                    for (auto &x : v)
                        same(pool[i].want, view(x), Str(name) + " in a vector");
                    copies++;
                }
        }
        for (auto &x : pool)
            same(x.want, view(*x.t), Str(name) + " after a step of the history");
        if (pool.size() > 6)
            pool.erase(pool.begin());
    }
    if (copies > 0)
        c.nt();
}

static Str hx(const Z &z) { return z.get_str(16); }
static Str sum(const CryptoHashable &h)
{
    return " hash " + hx(ref::of(*h.crypto_hash()));
}

template <typename F> static Str attempt(F f)
{
    try {
        return f();
    } catch (const std::exception &) {
        return " refused";
    }
}

// ------------------------------------------------------------------- elements
static void elements(Ctx &c)
{
    switch (c.src.upto(6)) {
        case 0:
            history<ElementModP, COPY | ASSIGN | CLONE>(
              c, "ElementModP",
              [](Src &s) {
                  auto r = ref::modP(ref::genP(s), s.boolean());
                  if (s.chance(1, 6)) // made without the range check
                      r = ElementModP::fromHex(ref::hex(ref::PP() + s.upto(1000)), true);
                  if (s.boolean())
                      r->toHex(); // fills the cached text
                  return r;
              },
              [](const ElementModP &t) {
                  return hx(ref::of(t)) + " " + t.toHex() + (t.isFixedBase() ? " fixed" : "") +
                         hexOf(t.toBytes());
              });
            break;
        case 1:
            history<ElementModQ, COPY | ASSIGN | CLONE>(
              c, "ElementModQ",
              [](Src &s) {
                  if (s.chance(1, 6)) // made without the range check
                      return ElementModQ::fromHex(ref::hex(ref::QQ() + s.upto(180)), true);
                  return ref::modQ(ref::genQ(s));
              },
              [](const ElementModQ &t) {
                  return hx(ref::of(t)) + " " + t.toHex() + hexOf(t.toBytes());
              });
            break;
        case 2:
            history<ElGamalKeyPair, COPY | ASSIGN>(
              c, "ElGamalKeyPair",
              [](Src &s) {
                  return std::make_unique<ElGamalKeyPair>(ref::modQ(ref::genQ(s)),
                                                          ref::modP(ref::genP(s), s.boolean()));
              },
              [](ElGamalKeyPair &t) {
                  return hx(ref::of(*t.getSecretKey())) + " " + hx(ref::of(*t.getPublicKey())) +
                         (t.getPublicKey()->isFixedBase() ? " fixed" : "");
              });
            break;
        case 3:
            history<ElGamalCiphertext, COPY | ASSIGN | CLONE>(
              c, "ElGamalCiphertext",
              [](Src &s) {
                  return ref::lib(ref::CT{ref::genP(s), ref::genP(s)});
              },
              [](const ElGamalCiphertext &t) {
                  auto x = ref::of(t);
                  return hx(x.a) + " " + hx(x.b) + sum(t);
              });
            break;
        case 4:
            history<HashedElGamalCiphertext, COPY | ASSIGN | CLONE>(
              c, "HashedElGamalCiphertext",
              [](Src &s) {
                  auto data = s.bytes(s.upto(70)), mac = s.bytes(s.upto(33));
                  return std::make_unique<HashedElGamalCiphertext>(ref::modP(ref::genP(s)), data,
                                                                   mac);
              },
              [](const HashedElGamalCiphertext &t) {
                  auto x = ref::of(t);
                  return hx(x.pad) + " " + hexOf(x.data) + " " + hexOf(x.mac) + sum(t);
              });
            break;
        case 5:
            history<DisjunctiveChaumPedersenProof, COPY | ASSIGN | CLONE>(
              c, "DisjunctiveChaumPedersenProof",
              [](Src &s) {
                  return ref::lib(*genAnySel(s, "x", 0, {}).proof);
              },
              [](const DisjunctiveChaumPedersenProof &t) {
                  auto x = ref::of(t);
                  Str r;
                  for (Z *z : {&x.a0, &x.b0, &x.a1, &x.b1, &x.c0, &x.c1, &x.c, &x.v0, &x.v1})
                      r += hx(*z) + " ";
                  return r;
              });
            break;
        default:
            history<ConstantChaumPedersenProof, COPY | ASSIGN>(
              c, "ConstantChaumPedersenProof",
              [](Src &s) {
                  return ref::lib(
                    ref::Cons{ref::genP(s), ref::genP(s), ref::genQ(s), ref::genQ(s), s.edgy64()});
              },
              [](const ConstantChaumPedersenProof &t) {
                  auto x = ref::of(t);
                  return hx(x.a) + " " + hx(x.b) + " " + hx(x.c) + " " + hx(x.v) + " " +
                         std::to_string(x.L);
              });
    }
}

// ------------------------------------------------------------- precomputed values
static U<Triple> genTriple(Src &s)
{
    return std::make_unique<Triple>(ref::modQ(ref::genQ(s)), ref::modP(ref::genP(s)),
                                    ref::modP(ref::genP(s)));
}
static U<Quadruple> genQuad(Src &s)
{
    return std::make_unique<Quadruple>(ref::modQ(ref::genQ(s)), ref::modQ(ref::genQ(s)),
                                       ref::modP(ref::genP(s)), ref::modP(ref::genP(s)));
}
static Str view3(Triple &t)
{
    return hx(ref::of(*t.get_exp())) + " " + hx(ref::of(*t.get_g_to_exp())) + " " +
           hx(ref::of(*t.get_pubkey_to_exp()));
}
static Str view4(Quadruple &t)
{
    return hx(ref::of(*t.get_exp1())) + " " + hx(ref::of(*t.get_exp2())) + " " +
           hx(ref::of(*t.get_g_to_exp1())) + " " +
           hx(ref::of(*t.get_g_to_exp2_mult_by_pubkey_to_exp1()));
}
static void precomputed(Ctx &c)
{
    constexpr unsigned all = COPY | ASSIGN | CLONE | MOVE | MOVEASSIGN;
    switch (c.src.upto(2)) {
        case 0:
            history<Triple, all>(c, "Triple", genTriple, view3);
            break;
        case 1:
            history<Quadruple, all>(c, "Quadruple", genQuad, view4);
            break;
        default:
            history<TwoTriplesAndAQuadruple, all>(
              c, "TwoTriplesAndAQuadruple",
              [](Src &s) {
                  return std::make_unique<TwoTriplesAndAQuadruple>(genTriple(s), genTriple(s),
                                                                   genQuad(s));
              },
              [](TwoTriplesAndAQuadruple &t) {
                  return view3(*t.get_triple1()) + "|" + view3(*t.get_triple2()) + "|" +
                         view4(*t.get_quad());
              });
    }
}

// -------------------------------------------------------------------- ballots
static const AnyOpts Some{false, 2, 2, true};
// leaves out any of the optional parts
static void strip(Src &s, CSel &x)
{
    if (s.chance(1, 4))
        x.proof.reset();
}
static void strip(Src &s, CContest &k)
{
    if (s.chance(1, 4))
        k.proof.reset();
    for (auto &x : k.sels)
        strip(s, x);
}
static bool complete(const CContest &k)
{
    bool ok = k.proof.has_value();
    for (auto &x : k.sels)
        ok = ok && x.proof;
    return ok;
}
static void ballots(Ctx &c)
{
    switch (c.src.upto(5)) {
        case 0:
            history<PlaintextBallotSelection, COPY | ASSIGN | CLONE | MOVE>(
              c, "PlaintextBallotSelection",
              [](Src &s) {
                  return lib(BSel{genText(s), s.edgy64(), s.boolean(), genText(s)});
              },
              [](const PlaintextBallotSelection &t) { return dump(of(t)); });
            break;
        case 1:
            history<PlaintextBallotContest, COPY | ASSIGN | MOVE>(
              c, "PlaintextBallotContest",
              [](Src &s) {
                  Ballot b = genAnyPlaintext(s, UINT64_MAX);
                  return lib(b.contests.empty() ? BContest{genText(s), {}} : b.contests[0]);
              },
              [](const PlaintextBallotContest &t) {
                  return dump(of(t)) + std::to_string(t.isValid(t.getObjectId(), 2, 1, 1));
              });
            break;
        case 2:
            history<PlaintextBallot, COPY | ASSIGN>(
              c, "PlaintextBallot",
              [](Src &s) { return lib(genAnyPlaintext(s, UINT64_MAX)); },
              [](const PlaintextBallot &t) { return dump(of(t)) + t.toJson(); });
            break;
        case 3:
            history<CiphertextBallotSelection, COPY | ASSIGN>(
              c, "CiphertextBallotSelection",
              [](Src &s) {
                  CSel x = genAnySel(s, genText(s), s.edgy64(), Some);
                  strip(s, x);
                  return lib(x);
              },
              [](CiphertextBallotSelection &t) {
                  return dump(of(t)) + hx(ref::of(*t.crypto_hash_with(*ref::modQ(3))));
              });
            break;
        case 4:
            history<CiphertextBallotContest, COPY | ASSIGN>(
              c, "CiphertextBallotContest",
              [](Src &s) {
                  CContest x = genAnyContest(s, genText(s), s.edgy64(), Some);
                  strip(s, x);
                  return lib(x);
              },
              [](const CiphertextBallotContest &t) {
                  return dump(of(t)) + attempt([&] {
                             return hx(ref::of(*t.crypto_hash_with(*ref::modQ(3))));
                         }) +
                         attempt([&] { return hx(ref::of(*t.elgamalAccumulate()->getData())); });
              });
            break;
        default:
            history<CiphertextBallot, COPY | ASSIGN>(
              c, "CiphertextBallot",
              [](Src &s) {
                  CBallot b = genAnyCiphertext(s, Some);
                  if (s.boolean())
                      for (auto &k : b.contests)
                          strip(s, k);
                  return lib(b);
              },
              [](const CiphertextBallot &t) {
                  CBallot b = of(t);
                  bool ok = true;
                  for (auto &k : b.contests)
                      ok = ok && complete(k);
                  return dump(b) + attempt([&] {
                             return hx(ref::of(*t.crypto_hash_with(*ref::modQ(3))));
                         }) +
                         (ok ? t.toJson(true) + t.toJson(false) : "");
              });
    }
}
// a submitted ballot keeps a copy of the ballot it is made from
static void submitted(Ctx &c)
{
    auto &s = c.src;
    CBallot b = genAnyCiphertext(s, Some);
    auto l = lib(b);
    Str want = dump(of(*l)), doc = l->toJson(true);
    BallotBoxState st = s.boolean() ? BallotBoxState::cast : BallotBoxState::spoiled;
    auto sub = SubmittedBallot::from(*l, st);
    auto sub2 = SubmittedBallot::from(*l, BallotBoxState::unknown);
    c << want;
    c.nt();
    same(want, dump(of(*l)), "the ballot a submitted ballot was made from");
    check(l->toJson(true) == doc, "the ballot a submitted ballot was made from");
    Str got = dump(of(*sub)), json = sub->toJson();
    same(dump(of(*sub2)), got, "two submitted ballots of one ballot");
    if (s.boolean())
        sub2.reset();
    l.reset();
    same(got, dump(of(*sub)), "a submitted ballot after the original is gone");
    check(sub->toJson() == json && sub->getState() == st, "a submitted ballot changed");
}

// ------------------------------------------------------------------- manifest
static Man someMan(Src &s)
{
    ManOpts o;
    o.maxContests = 2;
    o.encryptable = false;
    Man m = genManifest(s, o);
    return m;
}
template <typename M, typename T> static Str full(const T &t) { return dump(of(t)) + sum(t); }
static void parts(Ctx &c)
{
    constexpr unsigned three = COPY | ASSIGN | MOVE;
    constexpr unsigned four = three | MOVEASSIGN;
    switch (c.src.upto(10)) {
        case 0:
            history<AnnotatedString, four>(
              c, "AnnotatedString", [](Src &s) { return lib(Ann{genText(s), genText(s)}); },
              [](const AnnotatedString &t) { return dump(of(t)) + sum(t); });
            break;
        case 1:
            history<Language, four>(
              c, "Language", [](Src &s) { return lib(Lang{genText(s), genText(s)}); },
              [](const Language &t) { return dump(of(t)) + sum(t); });
            break;
        case 2:
            history<InternationalizedText, three>(
              c, "InternationalizedText", [](Src &s) { return lib(genI18n(s, 3)); },
              [](const InternationalizedText &t) { return dump(of(t)) + sum(t); });
            break;
        case 3:
            history<ContactInformation, three>(
              c, "ContactInformation", [](Src &s) { return lib(genContact(s)); },
              [](const ContactInformation &t) { return dump(of(t)) + sum(t); });
            break;
        case 4:
            history<GeopoliticalUnit, three>(
              c, "GeopoliticalUnit",
              [](Src &s) {
                  Unit u;
                  u.id = genText(s);
                  u.name = genText(s);
                  u.type = static_cast<int>(s.upto(28));
                  if (s.boolean())
                      u.contact = genContact(s);
                  return lib(u);
              },
              [](const GeopoliticalUnit &t) { return dump(of(t)) + sum(t); });
            break;
        case 5:
            history<BallotStyle, three>(
              c, "BallotStyle",
              [](Src &s) {
                  Style x;
                  x.id = genText(s);
                  for (size_t n = s.upto(3); n > 0; n--)
                      x.units.push_back(genText(s));
                  for (size_t n = s.upto(2); n > 0; n--)
                      x.parties.push_back(genText(s));
                  if (s.boolean())
                      x.image = genText(s);
                  return lib(x);
              },
              [](const BallotStyle &t) { return dump(of(t)) + sum(t); });
            break;
        case 6:
            history<Party, three>(
              c, "Party",
              [](Src &s) {
                  PartyM x;
                  x.id = genText(s);
                  x.name = genOptText(s);
                  x.abbr = genText(s);
                  x.color = genText(s);
                  x.logo = genText(s);
                  return lib(x);
              },
              [](const Party &t) { return dump(of(t)) + sum(t); });
            break;
        case 7:
            history<Candidate, three>(
              c, "Candidate",
              [](Src &s) {
                  Cand x;
                  x.id = genText(s);
                  x.name = genOptText(s);
                  x.party = genText(s);
                  x.image = genText(s);
                  x.writeIn = s.boolean();
                  return lib(x);
              },
              [](const Candidate &t) { return dump(of(t)) + sum(t); });
            break;
        case 8:
            history<SelectionDescription, three>(
              c, "SelectionDescription",
              [](Src &s) {
                  return lib(Sel{genText(s), genText(s), s.edgy64()});
              },
              [](const SelectionDescription &t) { return dump(of(t)) + sum(t); });
            break;
        case 9:
            history<ContestDescription, three>(
              c, "ContestDescription",
              [](Src &s) {
                  Man m = someMan(s);
                  Contest k = m.contests.empty() ? Contest() : m.contests[0];
                  if (s.chance(1, 3)) {
                      k.elected = s.edgy64();
                      k.votesAllowed = s.edgy64();
                  }
                  return lib(k);
              },
              [](const ContestDescription &t) {
                  return dump(of(t)) + sum(t) + (t.isValid() ? " valid" : "");
              });
            break;
        default:
            history<ContestDescriptionWithPlaceholders, three>(
              c, "ContestDescriptionWithPlaceholders",
              [](Src &s) {
                  Internal m = internal(someMan(s));
                  Contest k = m.contests.empty() ? Contest() : m.contests[0];
                  if (s.chance(1, 3)) {
                      k.elected = s.edgy64();
                      k.votesAllowed = s.edgy64();
                  }
                  return libWith(k);
              },
              [](const ContestDescriptionWithPlaceholders &t) {
                  Str r = dump(of(t)) + sum(t) + (t.isValid() ? " valid" : "");
                  for (auto &x : t.getSelections())
                      r += t.IsPlaceholder(x.get()) ? "p" : "-";
                  for (auto &x : t.getPlaceholders())
                      r += t.IsPlaceholder(x.get()) ? "p" : "-";
                  return r;
              });
    }
}
static void manifests(Ctx &c)
{
    auto &s = c.src;
    switch (s.upto(2)) {
        case 0:
            history<Manifest, MOVE>(
              c, "Manifest", [](Src &x) { return lib(someMan(x)); },
              [](const Manifest &t) { return dump(of(t)) + sum(t) + t.toJson(); });
            break;
        case 1:
            history<InternalManifest, MOVE>(
              c, "InternalManifest",
              [](Src &x) {
                  Man m = someMan(x);
                  if (x.boolean())
                      return lib(internal(m));
                  return std::make_unique<InternalManifest>(*lib(m)); // the manifest is gone
              },
              [](const InternalManifest &t) { return dump(of(t)) + t.toJson(); });
            break;
        default: { // made from a manifest that stays as it is, and goes away
            Man m = someMan(s);
            auto l = lib(m);
            Str doc = l->toJson(), before = dump(of(*l)) + sum(*l);
            InternalManifest a(*l), b(*l);
            c << before.substr(0, 400);
            c.nt();
            same(before, dump(of(*l)) + sum(*l), "the manifest an internal manifest was made from");
            check(l->toJson() == doc, "the manifest an internal manifest was made from");
            Str want = dump(of(a));
            same(want, dump(of(b)), "two internal manifests of one manifest");
            l.reset();
            same(want, dump(of(a)), "an internal manifest after the manifest is gone");
            same(dump(sorted(internal(m))), dump(of(b)), "an internal manifest");
        }
    }
}

// what getters and factories hand out does not depend on what they were given
static void owned(Ctx &c)
{
    auto &s = c.src;
    c.nt();
    switch (s.upto(3)) {
        case 0: { // constructors that take references keep copies
            auto desc = ref::modQ(ref::genQ(s));
            Z want = ref::of(*desc);
            CSel x = genAnySel(s, "x", 1, {true, 1, 1, true});
            CiphertextBallotSelection sel(
              "x", 1, *desc, ref::lib(x.ct), false, ref::modQ(5), ref::modQ(6), ref::lib(*x.proof));
            *desc = *ref::modQ(0);
            c << "selection " << hx(want);
            check(ref::of(*sel.getDescriptionHash()) == want, "description hash follows its source");
            desc.reset();
            check(ref::of(*sel.getDescriptionHash()) == want, "description hash is gone");
            break;
        }
        case 1: { // elements made of a vector or another element
            auto z = ref::genP(s);
            auto v = ref::limbs(z, 64);
            ElementModP p(v);
            ElementModP q(p);
            v.assign(v.size(), 7);
            q = *ref::modP(1);
            c << "element " << hx(z);
            check(ref::of(p) == z && ref::of(q) == 1, "element follows its source");
            // accelerating a copy is its own business
            ElementModP r(p);
            r.setIsFixedBase(true);
            check(!p.isFixedBase() && r.isFixedBase(), "accelerated through a copy");
            break;
        }
        case 2: { // a key pair does not follow the elements it was made from
            auto sec = ref::modQ(ref::genQ(s));
            Z want = ref::of(*sec);
            ElGamalKeyPair kp(sec->clone(), ref::modP(ref::genP(s)));
            ElGamalKeyPair copy(static_cast<const ElGamalKeyPair &>(kp));
            *kp.getSecretKey() = *ref::modQ(1);
            c << "key pair " << hx(want);
            check(ref::of(*copy.getSecretKey()) == want && ref::of(*sec) == want,
                  "key pair follows its source");
            break;
        }
        default: { // a nonce sequence copied to a ballot
            CBallot b = genAnyCiphertext(s, {true, 1, 1, true});
            auto l = lib(b);
            CiphertextBallot copy(static_cast<const CiphertextBallot &>(*l));
            Str want = dump(of(copy));
            c << want;
            *l->getNonce() = *ref::modQ(1);
            for (auto &k : l->getContests()) {
                *k.get().getNonce() = *ref::modQ(2);
                for (auto &x : k.get().getSelections())
                    *x.get().getNonce() = *ref::modQ(3);
            }
            same(want, dump(of(copy)), "a copy follows changes of the ballot");
        }
    }
}

Spec pbt::spec()
{
    Spec p;
    p.property = "V01";
    nulTexts = true;
    const Str rule = "; up to 12 steps on a pool of up to 6 objects; non-trivial with at least one "
                     "copy, assignment, clone or move";
    p.subs = {
      {"elements", elements, 8000, 400000, "group elements, keys, ciphertexts and proofs" + rule},
      {"precomputed", precomputed, 3000, 100000, "precomputed values" + rule},
      {"ballots", ballots, 8000, 400000,
       "ballots, contests and selections with any combination of optional parts" + rule},
      {"submitted", submitted, 1500, 60000,
       "submitted ballots whose original goes away; every case is non-trivial"},
      {"parts", parts, 10000, 500000, "the parts of a manifest" + rule},
      {"manifests", manifests, 3000, 80000, "manifests and internal manifests" + rule},
      {"owned", owned, 2500, 80000,
       "objects whose sources change or go away; every case is non-trivial"},
    };
    return p;
}
