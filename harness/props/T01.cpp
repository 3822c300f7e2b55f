// T01: the task queue, thread pool, semaphore and scheduler, under ThreadSanitizer.
#include "async.hpp"
#include "pbt.hpp"

#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <thread>

using namespace pbt;
namespace eg = electionguard;
template <typename T> using Vec = std::vector<T>;
using Str = std::string;

// threads that start together; the first failure counts
struct Team {
    std::mutex m;
    Str error;
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    Vec<std::thread> th;
    void add(std::function<void()> f)
    {
        th.emplace_back([this, f] {
            ready++;
            while (!go)
                std::this_thread::yield();
            try {
                f();
            } catch (const std::exception &e) {
                std::lock_guard<std::mutex> l(m);
                error = error.empty() ? Str(e.what()) : error;
            }
        });
    }
    void run(std::function<void()> f = {})
    {
        while (ready < static_cast<int>(th.size()))
            std::this_thread::yield();
        go = true;
        if (f)
            f();
        for (auto &t : th)
            t.join();
        check(error.empty(), error);
    }
};

// exceptions without content: their reference counts are invisible to ThreadSanitizer
template <int N> struct Thrown {
};
static void throwing(uint64_t id)
{
    switch (id % 3) {
        case 0:
            throw Thrown<0>();
        case 1:
            throw Thrown<1>();
        default:
            throw Thrown<2>();
    }
}
template <typename F> static int thrown(F &&f)
{
    try {
        f();
        return -1;
    } catch (const Thrown<0> &) {
        return 0;
    } catch (const Thrown<1> &) {
        return 1;
    } catch (const Thrown<2> &) {
        return 2;
    }
}

static void rest(uint64_t n)
{
    for (uint64_t i = 0; i < n; i++)
        std::this_thread::yield();
}

// a value that can only be moved and tells whether it was
struct Item {
    int v = -1;
    std::unique_ptr<Str> text;
    Item() = default;
    explicit Item(int x) : v(x), text(new Str(std::to_string(x))) {}
    bool whole() const { return text && *text == std::to_string(v); }
};

// a history by one thread against a deque
static void queue(Ctx &c)
{
    auto &s = c.src;
    eg::AsyncQueue<Item> q;
    std::deque<int> want;
    int n = 0;
    size_t steps = s.many(1, 40, 3000);
    bool drained = false, refilled = false;
    for (size_t i = 0; i < steps; i++) {
        check(q.empty() == want.empty(), "empty()");
        switch (s.pick({4, 2, 2, 1})) {
            case 0:
                q.push(Item(n));
                want.push_back(n++);
                refilled = refilled || drained;
                c << " push";
                break;
            case 1: {
                Item x(-7);
                bool got = q.pop(x);
                check(got == !want.empty(), "pop(value) of an empty queue");
                check(x.whole() && x.v == (got ? want.front() : -7), "pop(value): another value");
                if (got)
                    want.pop_front();
                c << " pop";
                break;
            }
            case 2: {
                auto x = q.pop();
                check(!x == want.empty(), "pop() of an empty queue");
                if (x) {
                    check(x->whole() && x->v == want.front(), "pop(): another value");
                    want.pop_front();
                }
                c << " take";
                break;
            }
            default:
                while (!want.empty()) {
                    auto x = q.pop();
                    check(x && x->whole() && x->v == want.front(), "draining: another value");
                    want.pop_front();
                }
                check(!q.pop(), "drained");
                drained = true;
                c << " drain";
        }
    }
    if (refilled)
        c.nt();
}

// several producers and consumers
static void traffic(Ctx &c)
{
    auto &s = c.src;
    size_t P = s.range(1, 3), C = s.range(1, 3);
    uint64_t k = s.many(1, 60, 2000, 20);
    c << P << " producers of " << k << " items, " << C << " consumers";
    Vec<uint64_t> pr, cr;
    for (size_t i = 0; i < P; i++)
        pr.push_back(s.upto(3));
    for (size_t i = 0; i < C; i++)
        cr.push_back(s.upto(7));
    eg::AsyncQueue<Item> q;
    std::atomic<uint64_t> taken{0};
    Vec<Vec<int>> got(C);
    Team t;
    for (size_t p = 0; p < P; p++)
        t.add([&, p] {
            for (uint64_t i = 0; i < k; i++) {
                q.push(Item(static_cast<int>(p * 1000000 + i)));
                rest(pr[p]);
            }
        });
    for (size_t j = 0; j < C; j++)
        t.add([&, j] {
            while (taken < P * k) {
                if (cr[j] & 4)
                    q.empty();
                if (cr[j] & 1) {
                    auto x = q.pop();
                    if (!x)
                        continue;
                    check(x->whole(), "an item without its content");
                    got[j].push_back(x->v);
                } else {
                    Item x;
                    if (!q.pop(x))
                        continue;
                    check(x.whole(), "an item without its content");
                    got[j].push_back(x.v);
                }
                taken++;
                rest(cr[j] & 2);
            }
        });
    t.run();
    std::set<int> all;
    for (auto &g : got) {
        std::map<int, int> last;
        for (int v : g) {
            check(all.insert(v).second, "an item was popped twice");
            auto it = last.find(v / 1000000);
            check(it == last.end() || it->second < v, "the items of one producer out of order");
            last[v / 1000000] = v;
        }
    }
    check(all.size() == P * k, "an item was lost");
    check(q.empty() && !q.pop(), "the drained queue is not empty");
    if (P + C > 2 && k > 4)
        c.nt();
}

// tasks submitted from several threads: each runs once and its future tells how it ended
static void pool(Ctx &c)
{
    auto &s = c.src;
    bool single = s.chance(1, 4); // through the scheduler
    size_t n = s.range(1, 4), S = s.range(1, 3);
    uint64_t k = s.many(0, 30, 400, 30);
    c << (single ? "scheduler" : "pool") << " of " << n << " threads, " << S << " submitters of "
      << k << " tasks";
    struct Job {
        int kind;
        uint64_t delay;
    };
    Vec<Vec<Job>> jobs(S);
    for (auto &j : jobs)
        for (uint64_t i = 0; i < k; i++)
            j.push_back({static_cast<int>(s.pick({4, 2, 1, 1})), s.upto(4)});
    bool collect = s.boolean(); // before the pool goes
    Vec<std::atomic<int>> ran(S * k);
    for (auto &r : ran)
        r = 0;
    Vec<Vec<std::future<uint64_t>>> values(S);
    Vec<Vec<std::future<void>>> voids(S);
    Vec<Vec<std::future<std::unique_ptr<Str>>>> owned(S);
    auto outcome = [&] {
        for (size_t i = 0; i < S; i++) {
            size_t a = 0, b = 0, d = 0;
            for (uint64_t x = 0; x < k; x++) {
                uint64_t id = i * k + x;
                switch (jobs[i][x].kind) {
                    case 0:
                        check(values[i][a++].get() == id * 3 + 1, "a task's answer");
                        break;
                    case 1:
                        voids[i][b++].get();
                        break;
                    case 2: {
                        auto &v = voids[i][b++];
                        check(thrown([&] { v.get(); }) == static_cast<int>(id % 3),
                              "a task's exception is lost");
                        break;
                    }
                    default: {
                        auto p = owned[i][d++].get();
                        check(p && *p == std::to_string(id), "a task's object");
                    }
                }
                if (collect)
                    check(ran[id] == 1, "a finished task has not run once");
            }
        }
    };
    auto submitAll = [&](auto &&submit) {
        Team t;
        for (size_t i = 0; i < S; i++)
            t.add([&, i] {
                for (uint64_t x = 0; x < k; x++) {
                    uint64_t id = i * k + x, w = jobs[i][x].delay;
                    auto *r = &ran[id];
                    switch (jobs[i][x].kind) {
                        case 0:
                            values[i].push_back(submit([=] {
                                rest(w);
                                (*r)++;
                                return id * 3 + 1;
                            }));
                            break;
                        case 1:
                            voids[i].push_back(submit([=] {
                                rest(w);
                                (*r)++;
                            }));
                            break;
                        case 2:
                            voids[i].push_back(submit([=] {
                                (*r)++;
                                rest(w);
                                throwing(id);
                            }));
                            break;
                        default:
                            owned[i].push_back(submit([=] {
                                rest(w);
                                (*r)++;
                                return std::make_unique<Str>(std::to_string(id));
                            }));
                    }
                }
            });
        t.run();
    };
    if (single) {
        collect = true;
        submitAll([](auto f) { return eg::Scheduler::submit(f); });
        outcome();
        c.label("scheduler");
    } else {
        {
            eg::ThreadPool p(static_cast<std::uint_fast32_t>(n));
            submitAll([&](auto f) { return p.submit(f); });
            if (collect)
                outcome();
            else
                c.label("destroyed at once");
        }
        if (!collect)
            outcome();
    }
    for (auto &r : ran)
        check(r == 1, r == 0 ? "a task did not run" : "a task ran twice");
    if (k > 2)
        c.nt();
}

// never more holders than the semaphore has places
static void semaphore(Ctx &c)
{
    auto &s = c.src;
    size_t n = s.range(1, 4), T = s.range(1, 5);
    uint64_t k = s.range(1, 60);
    c << n << " places, " << T << " threads, " << k << " rounds";
    eg::AsyncSemaphore sem(static_cast<std::uint_fast32_t>(n));
    check(sem.getCount() == n, "places of a new semaphore");
    Vec<Vec<uint64_t>> plan(T);
    for (auto &p : plan)
        for (uint64_t i = 0; i < k; i++)
            p.push_back(s.upto(7));
    std::atomic<int> inside{0}, most{0};
    uint64_t plain = 0; // guarded by the semaphore if it has one place
    Team t;
    for (size_t i = 0; i < T; i++)
        t.add([&, i] {
            for (auto w : plan[i]) {
                if (w == 7) {
                    sem.wait();
                    continue;
                }
                std::unique_lock<eg::AsyncSemaphore> l(sem);
                int now = ++inside;
                int m = most;
                while (now > m && !most.compare_exchange_weak(m, now))
                    ;
                check(now <= static_cast<int>(n), "more holders than places");
                if (n == 1)
                    plain++;
                rest(w);
                --inside;
            }
        });
    t.run();
    check(sem.getCount() == n, "places afterwards");
    if (n == 1) {
        uint64_t want = 0;
        for (auto &p : plan)
            for (auto w : p)
                want += w != 7;
        check(plain == want, "lost update under a semaphore of one place");
    }
    // every place can be used at once
    for (size_t i = 0; i < n; i++)
        sem.lock();
    check(sem.getCount() == 0, "all places taken");
    for (size_t i = 0; i < n; i++)
        sem.unlock();
    check(sem.getCount() == n, "all places given back");
    if (T > n)
        c.nt();
}

// wait_all gives every result once, and passes an exception on
static void all(Ctx &c)
{
    auto &s = c.src;
    size_t n = s.many(0, 8, 60, 20);
    bool fails = n > 0 && s.chance(1, 4);
    size_t which = fails ? s.upto(n - 1) : n;
    bool ahead = s.boolean(); // some results are there before the wait
    c << n << " tasks" << (fails ? ", one fails" : "");
    Vec<std::promise<std::unique_ptr<int>>> p(n);
    Vec<std::future<std::unique_ptr<int>>> f;
    for (auto &x : p)
        f.push_back(x.get_future());
    auto order = s.shuffle(n);
    size_t first = ahead ? s.upto(n) : 0;
    auto fulfil = [&](size_t i) {
        if (order[i] == which)
            p[order[i]].set_exception(std::make_exception_ptr(Thrown<1>()));
        else
            p[order[i]].set_value(std::make_unique<int>(static_cast<int>(order[i])));
    };
    check(!eg::isReady(std::future<int>()), "a future of nothing is ready");
    for (size_t i = 0; i < n; i++)
        check(!eg::isReady(f[i]), "an unfinished task is ready");
    for (size_t i = 0; i < first; i++) {
        fulfil(i);
        check(eg::isReady(f[order[i]]), "a finished task is not ready");
    }
    Team t;
    t.add([&] {
        for (size_t i = first; i < n; i++) {
            fulfil(i);
            rest(i % 3);
        }
    });
    std::multiset<int> got, want;
    bool threw = false;
    t.run([&] {
        threw = thrown([&] {
                    for (auto &x : eg::wait_all(f))
                        got.insert(x ? *x : -1);
                }) == 1;
    });
    for (size_t i = 0; i < n; i++)
        if (i != which)
            want.insert(static_cast<int>(i));
    check(threw == fails, "the exception of a task");
    check(fails || got == want, "the results of all tasks");
    if (n > 1)
        c.nt();
}

Spec pbt::spec()
{
    Spec s;
    s.property = "T01";
    s.subs = {
      {"queue", queue, 3000, 200000,
       "histories of push, pop, draining and emptiness tests of move-only items against a deque; "
       "non-trivial: refilled after draining"},
      {"traffic", traffic, 900, 60000,
       "one to three producers and consumers at different speeds; non-trivial: three threads or "
       "more and more than four items each",
       true},
      {"pool", pool, 700, 50000,
       "tasks of four kinds (value, nothing, exception, move-only object) submitted by one to three "
       "threads to a pool or the scheduler, futures read before or after the pool is gone; "
       "non-trivial: more than two tasks each",
       true},
      {"semaphore", semaphore, 900, 60000,
       "one to five threads and one to four places; non-trivial: more threads than places", true},
      {"all", all, 900, 60000,
       "futures fulfilled in any order before or during the wait, also with an exception; "
       "non-trivial: two or more",
       true}};
    s.assumptions = {"a thread pool has at least one thread",
                     "interleavings are those the operating system produces under "
                     "ThreadSanitizer"};
    return s;
}
