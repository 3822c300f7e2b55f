// A02: histories of the C string list against a sequence, with failing
// allocations, under AddressSanitizer.
#include "electionguard/collections.h"
#include "gen.hpp"

#include <cstring>
#include <sanitizer/allocator_interface.h>

using namespace pbt;
using namespace gen;

// ------------------------------------------------------- allocation failures
static long failAt = -1; // the allocation that fails, counted from 0
static bool failed = false;
static bool refuse()
{
    if (failAt < 0)
        return false;
    if (failAt-- == 0) {
        failed = true;
        return true;
    }
    return false;
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return refuse() ? nullptr : __real_calloc(n, m); }
char *__wrap_strdup(const char *s) { return refuse() ? nullptr : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n)
{
    return refuse() ? nullptr : __real_strndup(s, n);
}
}

static Str genKey(Src &s)
{
    switch (s.pick({3, 1, 2, 1})) {
        case 0:
            return Str(1, static_cast<char>('a' + s.upto(3)));
        case 1:
            return "";
        case 2: {
            Str t;
            for (auto b : s.bytes(s.size(0, 12)))
                if (b)
                    t += static_cast<char>(b);
            return t;
        }
        default:
            return Str(s.range(1, 3000), 'x');
    }
}

static void history(Ctx &c)
{
    auto &s = c.src;
    {
        struct L {
            eg_linked_list_t *h;
            Vec<std::pair<Str, Str>> m;
        };
        Vec<L> lists;
        auto make = [&] {
            eg_linked_list_t *h = nullptr;
            check(eg_linked_list_new(&h) == ELECTIONGUARD_STATUS_SUCCESS && h, "new");
            lists.push_back({h, {}});
        };
        make();
        bool faults = s.chance(1, 3);
        size_t removed = 0, appended = 0;
        for (size_t n = s.chance(1, 150) ? s.range(40, 600) : s.range(1, 40); n > 0; n--) {
            size_t li = s.upto(lists.size() - 1);
            L &l = lists[li];
            switch (s.pick({6, 3, 3, 2, 1, 1, 1})) {
                case 0: {
                    Str k = genKey(s), v = genKey(s);
                    c << "append " << show(k, 10) << "=" << show(v, 10) << " ";
                    // buffers of exactly the right size, gone afterwards
                    char *kb = static_cast<char *>(malloc(k.size() + 1)),
                         *vb = static_cast<char *>(malloc(v.size() + 1));
                    memcpy(kb, k.c_str(), k.size() + 1);
                    memcpy(vb, v.c_str(), v.size() + 1);
                    if (faults && s.chance(1, 3)) {
                        failed = false;
                        failAt = static_cast<long>(s.upto(3));
                        c << "with failing allocation " << failAt << " ";
                        auto st = eg_linked_list_append(l.h, kb, vb);
                        failAt = -1;
                        if (failed) {
                            c.label("allocation failed");
                            check(st == ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC,
                                  "append without memory reports " + std::to_string(st));
                        } else {
                            check(st == ELECTIONGUARD_STATUS_SUCCESS, "append");
                            l.m.push_back({k, v});
                        }
                    } else {
                        check(eg_linked_list_append(l.h, kb, vb) == ELECTIONGUARD_STATUS_SUCCESS,
                              "append");
                        l.m.push_back({k, v});
                    }
                    memset(kb, '#', k.size());
                    memset(vb, '#', v.size());
                    free(kb);
                    free(vb);
                    appended++;
                    break;
                }
                case 1:
                    c << "delete ";
                    check(eg_linked_list_delete_last(l.h) == ELECTIONGUARD_STATUS_SUCCESS,
                          "delete");
                    if (!l.m.empty()) {
                        l.m.pop_back();
                        removed++;
                    }
                    break;
                case 2: {
                    uint64_t at = s.chance(1, 4) ? s.edgy64() : s.upto(l.m.size() + 1);
                    char *k = nullptr, *v = nullptr, *w = nullptr;
                    c << "get " << at << " ";
                    auto a = eg_linked_list_get_element_at(l.h, at, &k, &v);
                    auto b = eg_linked_list_get_value_at(l.h, at, &w);
                    if (at < l.m.size()) {
                        check(a == ELECTIONGUARD_STATUS_SUCCESS &&
                                b == ELECTIONGUARD_STATUS_SUCCESS,
                              "get of an existing position");
                        check(l.m[at].first == k && l.m[at].second == v && l.m[at].second == w,
                              "get gives another element");
                    } else {
                        check(a == ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE &&
                                b == ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE,
                              "get of a position that does not exist");
                        c.label("out of range");
                    }
                    break;
                }
                case 3:
                    break;
                case 4:
                    if (lists.size() < 3) {
                        c << "new ";
                        make();
                    }
                    break;
                case 5:
                    if (lists.size() > 1) {
                        c << "free ";
                        check(eg_linked_list_free(l.h) == ELECTIONGUARD_STATUS_SUCCESS, "free");
                        lists.erase(lists.begin() + static_cast<long>(li));
                    }
                    check(eg_linked_list_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS,
                          "free of nothing");
                    break;
                default: { // a list that cannot be made
                    if (!faults)
                        break;
                    failed = false;
                    failAt = 0;
                    eg_linked_list_t *h = nullptr;
                    auto st = eg_linked_list_new(&h);
                    failAt = -1;
                    check(!failed || st == ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC,
                          "new without memory");
                    if (st == ELECTIONGUARD_STATUS_SUCCESS)
                        eg_linked_list_free(h);
                }
            }
            for (auto &x : lists) {
                check(eg_linked_list_get_count(x.h) == x.m.size(), "count");
                for (size_t i = 0; i < x.m.size(); i++) {
                    char *k = nullptr, *v = nullptr;
                    check(eg_linked_list_get_element_at(x.h, i, &k, &v) ==
                            ELECTIONGUARD_STATUS_SUCCESS,
                          "element " + std::to_string(i));
                    check(k && v && x.m[i].first == k && x.m[i].second == v,
                          "element " + std::to_string(i) + " differs");
                }
            }
        }
        if (appended > 1 && (removed > 0 || faults))
            c.nt();
        for (auto &x : lists)
            eg_linked_list_free(x.h);
    }
}

// no memory is lost over a history
static void leaks(Ctx &c)
{
    auto &s = c.src;
    // drawn first, so that nothing but the list allocates afterwards
    struct Op {
        size_t kind;
        Str k, v;
        long fail;
    };
    Vec<Op> ops;
    for (size_t n = s.range(1, 30); n > 0; n--) {
        Op o{s.pick({3, 2, 1}), genKey(s), genKey(s),
             s.chance(1, 4) ? static_cast<long>(s.upto(3)) : -1};
        c << o.kind << "/" << o.fail << " ";
        ops.push_back(o);
    }
    c.nt();
    size_t before = __sanitizer_get_current_allocated_bytes();
    eg_linked_list_t *h = nullptr;
    if (eg_linked_list_new(&h) != ELECTIONGUARD_STATUS_SUCCESS)
        fail("new");
    size_t empty = __sanitizer_get_current_allocated_bytes();
    for (auto &o : ops) {
        failAt = o.fail;
        if (o.kind == 0)
            eg_linked_list_append(h, const_cast<char *>(o.k.c_str()),
                                  const_cast<char *>(o.v.c_str()));
        else if (o.kind == 1)
            eg_linked_list_delete_last(h);
        else
            while (eg_linked_list_get_count(h) > 0)
                eg_linked_list_delete_last(h);
        failAt = -1;
        if (eg_linked_list_get_count(h) == 0)
            check(__sanitizer_get_current_allocated_bytes() == empty,
                  "an emptied list holds memory");
    }
    eg_linked_list_free(h);
    size_t after = __sanitizer_get_current_allocated_bytes();
    check(after == before, "memory is lost: " + std::to_string(after - before) + " bytes");
}

Spec pbt::spec()
{
    Spec p;
    p.property = "A02";
    p.subs = {
      {"history", history, 150000, 5000000,
       "up to 40 operations on up to three lists, with failing allocations in a third of the "
       "cases; non-trivial with two appends and a removal or failing allocations"},
      {"leaks", leaks, 80000, 2000000,
       "up to 30 operations with the allocator's balance; every case is non-trivial"},
    };
    return p;
}
