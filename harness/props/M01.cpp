// M01: manifest validation against the rules evaluated on a plain model.
#include "gen.hpp"

using namespace pbt;
using namespace gen;

static void verdicts(Ctx &c, const Man &m)
{
    bool want = valid(m);
    c.label(want ? "well formed" : "inconsistent");
    auto l = lib(m);
    check(l->isValid() == want, want ? "a well-formed manifest is called invalid"
                                     : "an inconsistent manifest is called valid");
    check(l->isValid() == want, "the second verdict differs from the first");
    for (auto &x : m.contests) {
        bool w = valid(x);
        check(lib(x)->isValid() == w,
              w ? "a well-formed contest is called invalid" : "an inconsistent contest is called valid");
        check(libWith(x)->isValid() == w, "the verdict on a contest with placeholders differs");
    }
}

template <typename T> static T *one(Src &s, Vec<T> &v)
{
    return v.empty() ? nullptr : &v[s.upto(v.size() - 1)];
}
// break (or try to break) exactly one rule
static const char *damage(Src &s, Man &m)
{
    switch (s.upto(23)) {
        case 0:
            if (auto *x = one(s, m.units))
                x->id = s.of(m.units).id;
            return "unit id repeated";
        case 1:
            if (auto *x = one(s, m.units))
                x->id = "";
            return "unit id empty";
        case 2:
            if (auto *x = one(s, m.styles))
                x->id = s.of(m.styles).id;
            return "style id repeated";
        case 3:
            if (auto *x = one(s, m.styles))
                x->id = "";
            return "style id empty";
        case 4:
            if (auto *x = one(s, m.styles))
                x->units.clear();
            return "style without units";
        case 5:
            if (auto *x = one(s, m.styles))
                x->units.insert(x->units.begin() + static_cast<long>(s.upto(x->units.size())),
                                s.boolean() ? "nowhere" : "");
            return "style with unknown unit";
        case 6:
            if (auto *x = one(s, m.parties))
                x->id = s.of(m.parties).id;
            return "party id repeated";
        case 7:
            if (auto *x = one(s, m.parties))
                x->id = "";
            return "party id empty";
        case 8:
            if (auto *x = one(s, m.cands))
                x->id = s.of(m.cands).id;
            return "candidate id repeated";
        case 9:
            if (auto *x = one(s, m.cands))
                x->id = "";
            return "candidate id empty";
        case 10:
            if (auto *x = one(s, m.cands))
                x->party = "nobody";
            return "candidate with unknown party";
        case 11:
            if (auto *x = one(s, m.cands))
                x->party = "";
            return "candidate without party";
        case 12:
            if (auto *x = one(s, m.contests))
                x->id = s.of(m.contests).id;
            return "contest id repeated";
        case 13:
            if (auto *x = one(s, m.contests))
                x->id = "";
            return "contest id empty";
        case 14:
            if (auto *x = one(s, m.contests))
                x->seq = s.of(m.contests).seq;
            return "contest sequence repeated";
        case 15:
            if (auto *x = one(s, m.contests))
                x->district = s.boolean() ? "nowhere" : "";
            return "contest with unknown district";
        case 16:
            if (auto *x = one(s, m.contests))
                x->elected = x->sels.size() + s.range(0, 2);
            return "number elected at or above the selections";
        case 17:
            if (auto *x = one(s, m.contests))
                x->votesAllowed = s.chance(1, 4) ? s.edgy64() : s.upto(x->elected + 1);
            return "votes allowed";
        case 18:
            if (auto *x = one(s, m.contests))
                if (auto *y = one(s, x->sels))
                    y->id = s.of(x->sels).id;
            return "selection id repeated";
        case 19:
            if (auto *x = one(s, m.contests))
                if (auto *y = one(s, x->sels))
                    (s.boolean() ? y->id : y->cand) = "";
            return "selection id or candidate empty";
        case 20:
            if (auto *x = one(s, m.contests))
                if (auto *y = one(s, x->sels))
                    y->cand = s.of(x->sels).cand;
            return "selection candidate repeated";
        case 21:
            if (auto *x = one(s, m.contests))
                if (auto *y = one(s, x->sels))
                    y->seq = s.of(x->sels).seq;
            return "selection sequence repeated";
        case 22: { // removing a referenced unit or party
            if (s.boolean() && !m.units.empty())
                m.units.erase(m.units.begin() + static_cast<long>(s.upto(m.units.size() - 1)));
            else if (!m.parties.empty())
                m.parties.erase(m.parties.begin() +
                                static_cast<long>(s.upto(m.parties.size() - 1)));
            return "unit or party removed";
        }
        default:
            switch (s.upto(4)) {
                case 0:
                    m.contests.clear();
                    break;
                case 1:
                    m.styles.clear();
                    break;
                case 2:
                    m.cands.clear();
                    break;
                case 3:
                    m.parties.clear();
                    break;
                default:
                    m.units.clear();
            }
            return "list emptied";
    }
}

static void mutated(Ctx &c)
{
    auto &s = c.src;
    ManOpts o;
    o.large = true;
    o.encryptable = false;
    Man m = genManifest(s, o);
    bool before = valid(m);
    check(before, "harness: generated manifest is not valid");
    size_t n = s.pick({1, 6, 2});
    for (size_t i = 0; i < n; i++) {
        const char *w = damage(s, m);
        c << w << "; ";
        c.label(w);
    }
    c << dump(m);
    if (n > 0)
        c.nt();
    verdicts(c, m);
}

// a tiny alphabet of names, so that every kind of collision happens by chance
static void small(Ctx &c)
{
    auto &s = c.src;
    Vec<Str> ids{"a", "b", "c", ""};
    auto id = [&] { return s.chance(1, 14) ? Str("") : ids[s.upto(2)]; };
    Man m;
    m.scope = "s";
    auto n = [&](size_t k) { return s.upto(k); };
    for (size_t i = 0, k = s.chance(2, 3) ? 3 : n(2); i < k; i++)
        m.units.push_back({k == 3 && s.chance(7, 8) ? ids[i] : id(), "", 0, std::nullopt});
    for (size_t i = 0, k = n(2); i < k; i++)
        m.parties.push_back({s.chance(3, 4) ? ids[i] : id(), std::nullopt, "", "", ""});
    for (size_t i = 0, k = n(2); i < k; i++)
        m.cands.push_back({s.chance(3, 4) ? ids[i] : id(), std::nullopt, s.chance(2, 3) ? "" : id(), "", false});
    for (size_t i = 0, k = n(2); i < k; i++) {
        Contest x;
        x.id = s.chance(3, 4) ? ids[i] : id();
        x.district = id();
        x.seq = s.chance(3, 4) ? i : s.upto(2);
        x.elected = s.upto(2);
        x.votesAllowed = s.upto(3);
        for (size_t j = 0, q = s.range(x.elected > 0 ? x.elected - 1 : 0, 3); j < q; j++)
            x.sels.push_back({s.chance(5, 6) ? ids[j] : id(), s.chance(5, 6) ? ids[j] : id(),
                              s.chance(5, 6) ? j : s.upto(2)});
        m.contests.push_back(x);
    }
    for (size_t i = 0, k = n(2); i < k; i++) {
        Style st;
        st.id = s.chance(3, 4) ? ids[i] : id();
        for (size_t j = 0, q = s.chance(1, 12) ? 0 : s.range(1, 3); j < q; j++)
            st.units.push_back(id());
        if (s.boolean())
            st.parties.push_back(id());
        m.styles.push_back(st);
    }
    c << dump(m);
    if (!m.contests.empty() || !m.styles.empty())
        c.nt();
    verdicts(c, m);
}

Spec pbt::spec()
{
    Spec sp;
    sp.property = "M01";
    nulTexts = true;
    sp.subs = {
      {"mutated", mutated, 500000, 15000000,
       "a well-formed generated manifest with zero to two single-rule damages; non-trivial: damaged"},
      {"small", small, 500000, 15000000,
       "manifests over a three-letter name space, where collisions and dangling references happen by "
       "chance; non-trivial: has a contest or a style"}};
    sp.assumptions = {"the rules are those the library documents in its code: selection-to-candidate "
                      "and style-to-party references are not among them"};
    return sp;
}
