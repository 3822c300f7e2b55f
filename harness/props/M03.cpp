// M03: the internal manifest against the specified derivation.
#include "gen.hpp"

using namespace pbt;
using namespace gen;
using namespace electionguard;

static void derive(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.encryptable = false;
    o.maxElected = 4;
    o.maxSels = 5;
    o.minContests = 0;
    Man m = genManifest(s, o);
    if (s.chance(1, 8)) // neither limits nor contests need to be consistent to be listed
        for (auto &x : m.contests)
            x.elected = s.upto(6);
    c << dump(m);
    Internal want = sorted(internal(m));
    auto l = lib(m);
    InternalManifest in(*l);
    same(dump(want), dump(of(in)), "internal manifest");
    check(ref::of(*in.getManifestHash()) == hash(m), "manifest hash");
    // contest hashes are those of the manifest's contests
    for (auto &x : in.getContests())
        for (auto &y : m.contests)
            if (y.id == x.get().getObjectId())
                check(ref::of(x.get().crypto_hash()) == hash(y), "contest hash differs");

    for (auto &x : in.getContests()) {
        auto &k = x.get();
        auto ph = k.getPlaceholders();
        check(ph.size() == k.getNumberElected(), "number of placeholders");
        std::set<Str> ids;
        std::set<uint64_t> seqs;
        for (auto &y : k.getSelections())
            seqs.insert(y.get().getSequenceOrder());
        for (auto &y : ph) {
            check(ids.insert(y.get().getObjectId()).second, "placeholder id repeated");
            check(seqs.insert(y.get().getSequenceOrder()).second, "placeholder sequence collides");
            check(k.IsPlaceholder(y.get()), "placeholder not recognised");
            Str id = y.get().getObjectId();
            auto &f = k.selectionFor(id).get();
            bool shadowed = false;
            for (auto &z : k.getSelections())
                shadowed = shadowed || z.get().getObjectId() == id;
            if (!shadowed)
                same(dump(of(y.get())), dump(of(f)), "selectionFor(placeholder)");
        }
        for (auto &y : k.getSelections()) {
            check(k.IsPlaceholder(y.get()) == (ids.count(y.get().getObjectId()) > 0),
                  "selection mistaken for a placeholder");
            Str id = y.get().getObjectId();
            same(dump(of(y.get())), dump(of(k.selectionFor(id).get())), "selectionFor");
        }
        Str no = "no such selection!";
        bool threw = false;
        try {
            k.selectionFor(no);
        } catch (const std::exception &) {
            threw = true;
        }
        check(threw, "selectionFor finds an unknown selection");
        if (ph.size() > 1)
            c.nt();
    }

    auto checkStyles = [&](const InternalManifest &i, const Str &how) {
        for (auto &st : m.styles) {
            auto *b = i.getBallotStyle(st.id);
            check(b != nullptr, how + "style not found");
            same(dump(st), dump(of(*b)), how + "ballot style");
            auto got = i.getContestsFor(st.id);
            Str a, g;
            for (auto *k : contestsOf(want, st.id))
                a += dump(*k);
            for (auto &k : got)
                g += dump(of(k.get()));
            same(a, g, how + "contests of the style");
            if (got.empty())
                c.label("style without contests");
            if (got.size() < m.contests.size() && !got.empty())
                c.nt(), c.label("style with some contests");
        }
        for (const Str &no : {Str("no such style!"), Str("")}) {
            if (i.getBallotStyle(no) != nullptr && !no.empty())
                fail(how + "an unknown style was found");
            bool threw = false;
            try {
                i.getContestsFor(no);
            } catch (const std::exception &) {
                threw = true;
            }
            check(threw, how + "contests of an unknown style");
        }
    };
    checkStyles(in, "");
    // moved, and rebuilt from parts
    Internal raw = want;
    auto again = lib(raw);
    same(dump(want), dump(of(*again)), "internal manifest from parts");
    checkStyles(*again, "from parts: ");
    InternalManifest moved(std::move(in));
    same(dump(want), dump(of(moved)), "moved internal manifest");
    checkStyles(moved, "moved: ");
    // the source manifest stays the same and may go away
    same(dump(sorted(m)), dump(of(*l)), "source manifest");
    l.reset();
    same(dump(want), dump(of(moved)), "internal manifest after its source is gone");
}

static void stylesNoUnits(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    Man m = genManifest(s, o);
    Style bare;
    std::set<Str> used;
    for (auto &x : m.styles)
        used.insert(x.id);
    bare.id = genId(s, used, "bare");
    bool ghost = s.boolean();
    if (ghost)
        bare.units.push_back("no such unit!");
    m.styles.insert(m.styles.begin() + static_cast<long>(s.upto(m.styles.size())), bare);
    c << dump(m);
    c.nt();
    InternalManifest in(*lib(m));
    Internal want = sorted(internal(m));
    same(dump(want), dump(of(in)), "internal manifest");
    try {
        auto got = in.getContestsFor(bare.id);
        check(got.empty(), "a style without known units has contests");
    } catch (const std::exception &) {
        check(!ghost, "a style with only unknown units is reported as an error");
        c.label("reported");
    }
    for (auto &st : m.styles)
        if (st.id != bare.id) {
            Str a, g;
            for (auto *k : contestsOf(want, st.id))
                a += dump(*k);
            for (auto &k : in.getContestsFor(st.id))
                g += dump(of(k.get()));
            same(a, g, "contests of the style");
        }
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "M03";
    nulTexts = true;
    sp.subs = {
      {"derive", derive, 90000, 2500000,
       "whole manifests with repeated style units, gaps and huge sequence orders; every style, contest, "
       "selection and placeholder looked up; non-trivial: several placeholders in a contest, or a style "
       "with some but not all contests"},
      {"odd-styles", stylesNoUnits, 40000, 1200000,
       "manifests with a style that has no unit or only unknown units; all non-trivial"}};
    sp.assumptions = {"sequence orders stay below 2^63, so that orders after the largest exist"};
    return sp;
}
