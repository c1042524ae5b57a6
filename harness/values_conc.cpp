// Observable values updated by several threads (V03).
#include "mc.hpp"
#include "lin.hpp"

#include <memory>
#include <numeric>
#include <optional>
#include <thread>
#include <xitren/comm/values/observable.hpp>

namespace v = xitren::comm::values;
namespace C = mc::conc;

namespace {

enum { op_begin = 1, op_end, told };
struct Op {
    int kind, arg;
};
char const* const op_name[] = {"x++", "x--", "++x", "--x", "x+=", "x-=", "x="};

template <class O>
auto
run(O& x, Op o)
{
    switch (o.kind) {
    case 0: return x++;
    case 1: return x--;
    case 2: return ++x;
    case 3: return --x;
    case 4: return x += o.arg;
    case 5: return x -= o.arg;
    default: return x = static_cast<typename O::observable_type>(o.arg);
    }
}
// The sequential meaning: {answer, new value}.
template <class T>
std::pair<long, long>
meaning(long s, Op o)
{
    // integers of every width wrap around, as what is added and subtracted in them does
    auto const t = [](long x) { return static_cast<long>(static_cast<T>(x)); };
    switch (o.kind) {
    case 0: return {s, t(s + 1)};
    case 1: return {s, t(s - 1)};
    case 2: return {t(s + 1), t(s + 1)};
    case 3: return {t(s - 1), t(s - 1)};
    case 4: return {t(s + o.arg), t(s + o.arg)};
    case 5: return {t(s - o.arg), t(s - o.arg)};
    default: return {t(o.arg), t(o.arg)};
    }
}

template <class T>
long
published(int kind, long answer)
{
    return static_cast<long>(static_cast<T>(kind == 0 ? answer + 1 : kind == 1 ? answer - 1 : answer));
}

template <class O>
void
body(int threads, int per, int observers, std::vector<Op> const& alphabet, long start = 5)
{
    using T = typename O::observable_type;
    std::vector<std::unique_ptr<v::observed<T>>> obs;
    auto x = std::make_unique<O>();
    for (long i = 0; i < observers; i++) {
        obs.push_back(std::make_unique<v::observed<T>>([i](T const n) { C::event(told, i, static_cast<long>(n)); }));
        MC_CHECK(x->add_observer(*obs.back()) == xitren::comm::observer_errors::ok, "add_observer is refused");
    }
    *x = static_cast<T>(start);
    std::size_t const first = C::events();
    struct Rec {
        Op   op;
        long answer;
        int  thread;
        lin::Span at;
    };
    int const                     n = threads * per;
    std::vector<Rec>              recs(static_cast<std::size_t>(n));
    for (auto& r : recs) {
        r.op = alphabet[static_cast<std::size_t>(mc::choose(static_cast<int>(alphabet.size())))];
        if (r.op.arg == -1)
            r.op.arg = static_cast<int>(&r - recs.data()) * 7 + 20;
    }
    auto work = [&](int t) {
        for (int i = 0; i < per; i++) {
            auto& r = recs[static_cast<std::size_t>(t * per + i)];
            C::event(op_begin, t * per + i);
            long const a = static_cast<long>(run(*x, r.op));
            C::event(op_end, t * per + i, a);
        }
    };
    {
        std::vector<std::thread> th;
        for (int t = 1; t < threads; t++)
            th.emplace_back(work, t);
        work(0);
        for (auto& t : th)
            t.join();
    }
    std::vector<lin::Span> spans(recs.size());
    for (std::size_t i = first; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == op_begin) {
            spans[static_cast<std::size_t>(e.a)].begin = i;
            recs[static_cast<std::size_t>(e.a)].thread = e.thread;
        }
        if (e.kind == op_end) {
            spans[static_cast<std::size_t>(e.a)].end    = i;
            recs[static_cast<std::size_t>(e.a)].answer = e.b;
        }
    }
    long const final = static_cast<long>(x->value());
    // the answers and the final value
    struct M {
        long x;
        int  left;
    };
    bool const ok = lin::linearizable(spans, M{start, n}, [&](M& m, std::size_t i) {
        auto const [a, s] = meaning<T>(m.x, recs[i].op);
        if (a != recs[i].answer)
            return false;
        m.x = s;
        return --m.left > 0 || s == final;
    });
    if (!ok) {
        char        b[400];
        int         o = 0;
        for (auto const& r : recs)
            o += snprintf(b + o, sizeof b - static_cast<std::size_t>(o), " t%d:%s%d->%ld", r.thread, op_name[r.op.kind], r.op.arg, r.answer);
        mc::fail("updates are lost or mixed up: final value %ld after%s (from %ld)", final, b, start);
    }
    // every observer is told exactly once about every update, by its thread, while it lasts
    std::vector<std::vector<int>> seen(recs.size(), std::vector<int>(static_cast<std::size_t>(observers), 0));
    std::uint64_t h = static_cast<std::uint64_t>(final);
    for (std::size_t i = first; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind != told)
            continue;
        std::size_t k = recs.size();
        for (std::size_t j = 0; j < recs.size(); j++)
            if (recs[j].thread == e.thread && spans[j].begin < i && i < spans[j].end)
                k = j;
        MC_CHECK(k < recs.size(), "observer %ld is told %ld outside of any update", e.a, e.b);
        auto const& r = recs[k];
        long const  want = published<T>(r.op.kind, r.answer);
        MC_CHECK(e.b == want, "observer %ld is told %ld about an update to %ld", e.a, e.b, want);
        MC_CHECK(++seen[k][static_cast<std::size_t>(e.a)] == 1, "observer %ld is told twice about one update", e.a);
        h = mc::mix(h, k * 8 + static_cast<std::size_t>(e.a));
    }
    for (std::size_t k = 0; k < recs.size(); k++)
        for (int j = 0; j < observers; j++)
            MC_CHECK(seen[k][static_cast<std::size_t>(j)] == 1, "observer %d is not told about an update", j);
    // the observer's own copy is the value of an update that nothing came after
    for (int j = 0; j < observers; j++) {
        long const c     = static_cast<long>(obs[static_cast<std::size_t>(j)]->value());
        bool       found = false;
        for (std::size_t a = 0; a < recs.size(); a++) {
            bool last = true;
            for (std::size_t b = 0; b < recs.size(); b++)
                if (spans[a].end < spans[b].begin)
                    last = false;
            auto const& r = recs[a];
            if (last && (published<T>(r.op.kind, r.answer)) == c)
                found = true;
        }
        MC_CHECK(found, "observer %d is left with %ld, which is not the value of a last update", j, c);
    }
    mc::outcome(h);
}

// A reader never sees a value that was not there.
template <class O>
void
read_body()
{
    v::observed<long> o;
    auto x = std::make_unique<O>();
    x->add_observer(o);
    std::thread t([&] {
        ++*x;
        (*x)++;
    });
    long a = x->value(), c = o.value(), b = x->value();
    MC_CHECK(a >= 0 && a <= b && b <= 2, "a reader sees %ld, then %ld", a, b);
    MC_CHECK(c >= 0 && c <= b, "an observer is ahead of its value: %ld, %ld", c, b);
    t.join();
    MC_CHECK(x->value() == 2 && o.value() == 2, "after two increments: %ld, observer %ld", x->value(), o.value());
    mc::outcome(static_cast<std::uint64_t>(a * 9 + b * 3 + c));
}

// A mirror's handler adds up another value, which has a mirror of its own.
template <class A, class B>
void
cascade_body(int threads, int per)
{
    auto y = std::make_unique<B>();
    v::observed<long> my([](long const n) { C::event(told, 1, n); });
    y->add_observer(my);
    auto x = std::make_unique<A>();
    v::observed<long> mx([&y](long const n) {
        C::event(told, 0, n);
        ++*y;
    });
    x->add_observer(mx);
    *x = 0;
    *y = 0;
    std::size_t const first = C::events();
    auto work = [&](int t) {
        for (int i = 0; i < per; i++)
            t == 0 ? ++*x : t == 1 ? --*x : (*x += 10);
    };
    {
        std::vector<std::thread> th;
        for (int t = 1; t < threads; t++)
            th.emplace_back(work, t);
        work(0);
        for (auto& t : th)
            t.join();
    }
    long const n = threads * per, want = threads > 2 ? 10L * per : 0;
    MC_CHECK(x->value() == want, "the value is %ld, not %ld", x->value(), want);
    MC_CHECK(y->value() == n, "%ld changes of one value changed the other %ld times", n, y->value());
    long          sx = 0;
    std::uint64_t h  = 0;
    std::vector<int> seen(static_cast<std::size_t>(n) + 1, 0);
    for (std::size_t i = first; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == told && e.a == 0)
            sx++;
        if (e.kind == told && e.a == 1) {
            MC_CHECK(e.b >= 1 && e.b <= n, "a mirror is told %ld", e.b);
            MC_CHECK(++seen[static_cast<std::size_t>(e.b)] == 1, "a mirror is told %ld twice", e.b);
        }
        h = mc::mix(h, static_cast<std::uint64_t>(e.b * 2 + e.a));
    }
    MC_CHECK(sx == n && std::accumulate(seen.begin(), seen.end(), 0L) == n, "a mirror is not told about every change");
    mc::outcome(h);
}

std::vector<Op> const all   = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 3}, {5, 2}, {6, -1}};
std::vector<Op> const three = {{0, 0}, {3, 0}, {4, 10}, {6, -1}};

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, int q, int t, std::function<void()> f, char const* text) {
        Config k;
        k.name           = n;
        k.body           = std::move(f);
        k.bound_quick    = q;
        k.bound_thorough = t;
        k.what           = text;
        c.push_back(std::move(k));
    };
    add("V03-fixed-2x1-o2", 6, 9, [] { body<v::observable<long, 2>>(2, 1, 2, all); }, "fixed list: 2 threads, 1 operation each, 2 mirrors: every choice of operations");
    add("V03-fixed-2x2-o1", 4, 7, [] { body<v::observable<long, 4>>(2, 2, 1, three); }, "fixed list: 2 threads, 2 operations each, 1 mirror: every choice of operations");
    add("V03-fixed-3x1-o1", 4, 7, [] { body<v::observable<long, 1>>(3, 1, 1, three); }, "fixed list: 3 threads, 1 operation each, 1 mirror: every choice of operations");
    add("V03-dynamic-2x1-o2", 6, 9, [] { body<v::observable_dynamic<long>>(2, 1, 2, all); }, "dynamic list: 2 threads, 1 operation each, 2 mirrors: every choice of operations");
    add("V03-dynamic-2x2-o1", 4, 7, [] { body<v::observable_dynamic<long>>(2, 2, 1, three); }, "dynamic list: 2 threads, 2 operations each, 1 mirror: every choice of operations");
    add("V03-dynamic-3x1-o1", 4, 7, [] { body<v::observable_dynamic<long>>(3, 1, 1, three); }, "dynamic list: 3 threads, 1 operation each, 1 mirror: every choice of operations");
    add("V03-fixed-reader", 6, 9, [] { read_body<v::observable<long, 2>>(); }, "fixed list: one thread changes the value, another one reads value and mirror");
    add("V03-dynamic-reader", 6, 9, [] { read_body<v::observable_dynamic<long>>(); }, "dynamic list: one thread changes the value, another one reads value and mirror");
    add("V03-fixed-byte-2x1", 4, 6, [] { body<v::observable<unsigned char, 2>>(2, 1, 1, {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 200}, {5, 100}, {6, 255}}, 255); }, "fixed list, bytes that wrap around: 2 threads, 1 operation each, 1 mirror");
    add("V03-dynamic-byte-2x1", 4, 6, [] { body<v::observable_dynamic<signed char>>(2, 1, 1, {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 20}, {5, 30}, {6, -7}}, -3); }, "dynamic list, signed bytes: 2 threads, 1 operation each, 1 mirror");
    add("V03-fixed-unsigned-2x2", 3, 5, [] { body<v::observable<unsigned, 2>>(2, 2, 1, {{0, 0}, {3, 0}, {5, 10}}, 1); }, "fixed list, unsigned numbers that wrap around: 2 threads, 2 operations each, 1 mirror");
    add("V03-dynamic-2x2-o3", 3, 5, [] { body<v::observable_dynamic<long>>(2, 2, 3, three); }, "dynamic list: 2 threads, 2 operations each, 3 mirrors");
    add("V03-fixed-unseen-3x2", 3, 5, [] { body<v::observable<long, 1>>(3, 2, 0, {{1, 0}, {4, 3}}); }, "fixed list: 3 threads, 2 operations each, nobody subscribed");
    add("V03-fixed-cascade", 4, 6, [] { cascade_body<v::observable<long, 2>, v::observable_dynamic<long>>(2, 2); }, "a mirror's handler changes another value: 2 threads, 2 changes each");
    add("V03-dynamic-cascade", 3, 5, [] { cascade_body<v::observable_dynamic<long>, v::observable<long, 1>>(3, 1); }, "a mirror's handler changes another value: 3 threads");
    return c;
}
