// Pipelines (P01 .. P07): pipeline_stage and pipeline_stage_pool under every schedule.
#include "mc.hpp"

#include <algorithm>
#include <chrono>
#include <memory>
#include <deque>
#include <limits>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

using namespace xitren::comm;
namespace C = mc::conc;

namespace {

// The property a configuration decides.
enum Mask : unsigned { P01 = 1, P02 = 2, P03 = 4, P04 = 8, P05 = 16, P06 = 32, P07 = 64 };
unsigned what;
#define P_CHECK(mask, ...)                                                                                             \
    do {                                                                                                               \
        if (what & (mask))                                                                                             \
            MC_CHECK(__VA_ARGS__);                                                                                     \
    } while (0)

struct null_log {
    struct sink {
        template <class T>
        sink&
        operator<<(T const&)
        {
            return *this;
        }
    };
    static sink trace() { return {}; }
    static sink debug() { return {}; }
    static sink warning() { return {}; }
    static sink error() { return {}; }
};

// An item whose parts would disagree if it were handed over before it is complete.
struct item {
    long              id{-1};
    std::vector<long> body;
    long              check{0};
    item() = default;
    explicit item(long i) : id{i}, body{i, i * 3 + 1, i ^ 0x55}, check{~i} {}
    bool
    ok() const
    {
        return body.size() == 3 && body[0] == id && body[1] == id * 3 + 1 && body[2] == (id ^ 0x55) && check == ~id;
    }
};

// Items that need no copying with care, and items of many words.
struct small {
    long id{-1};
    small() = default;
    explicit small(long i) : id{i} {}
    bool ok() const { return id >= 0; }
};
struct wide {
    long id{-1};
    long body[40];
    wide() = default;
    explicit wide(long i) : id{i}
    {
        for (long k = 0; k < 40; k++)
            body[k] = i * 40 + k;
    }
    bool
    ok() const
    {
        for (long k = 0; k < 40; k++)
            if (body[k] != id * 40 + k)
                return false;
        return true;
    }
};
// Items that cannot always be copied: the n-th copy that the producer's push makes fails.
struct Fault {};
struct brittle : item {
    static inline thread_local int fails_at{0};
    static void
    maybe()
    {
        if (fails_at && --fails_at == 0)
            throw Fault{};
    }
    brittle() = default;
    explicit brittle(long i) : item{i} {}
    brittle(brittle const& o) : item{(maybe(), o)} {}
    brittle(brittle&& o) noexcept : item{std::move(o)} {}
    brittle&
    operator=(brittle const& o)
    {
        maybe();
        item::operator=(o);
        return *this;
    }
    brittle&
    operator=(brittle&& o) noexcept
    {
        item::operator=(std::move(o));
        return *this;
    }
};

enum { push_begin = 1, push_end, handle_begin, handle_end, destroy_begin, destroy_end, stats_read, relay, told, read_begin, read_end, push_fails };
constexpr int ch_done = 0, ch_gate = 1, ch_busy = 2, ch_worker = 3;

// ---- what must hold of a finished execution ----

struct Rules {
    long items;
    bool fifo;               // one worker: in order, one at a time
    int  pool{0};            // handlers report a worker number below it
};

void
check_log(Rules const& r)
{
    std::vector<std::size_t> pb(static_cast<std::size_t>(r.items), 0), pe(pb), hb(pb), he(pb);
    std::vector<int>         nh(static_cast<std::size_t>(r.items), 0);
    std::size_t              destroyed = 0;
    long                     open      = 0;
    std::vector<int>         busy(16, 0);
    std::uint64_t            h = 0;
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& e  = C::event_at(i);
        auto const  id = static_cast<std::size_t>(e.a);
        switch (e.kind) {
        case push_begin: pb[id] = i + 1; break;
        case push_end: pe[id] = i + 1; break;
        case handle_begin:
            MC_CHECK(e.a >= 0 && e.a < r.items, "the handler got an item (%ld) that nobody pushed", e.a);
            P_CHECK(P01 | P03 | P04, pb[id], "the handler got item %ld before it was pushed", e.a);
            nh[id]++;
            P_CHECK(P01 | P03, nh[id] == 1, "the handler got item %ld more than once", e.a);
            P_CHECK(P02, !destroyed, "the handler runs after the destructor has returned");
            hb[id] = i + 1;
            open++;
            P_CHECK(P01, !r.fifo || open == 1, "the handler of a single stage runs twice at the same time");
            if (r.pool) {
                P_CHECK(P03, e.b >= 0 && e.b < r.pool, "a pool of %d threads reports worker %ld", r.pool, e.b);
                busy[static_cast<std::size_t>(e.b) % 16]++;
                P_CHECK(P03, busy[static_cast<std::size_t>(e.b) % 16] == 1, "worker %ld handles two items at a time", e.b);
            }
            h = mc::mix(h, id * 16 + static_cast<std::size_t>(e.b));
            break;
        case handle_end:
            he[id] = i + 1;
            open--;
            if (r.pool)
                busy[static_cast<std::size_t>(e.b) % 16]--;
            break;
        case destroy_end:
            destroyed = i + 1;
            break;
        default: break;
        }
    }
    for (std::size_t k = 0; k < nh.size(); k++) {
        P_CHECK(P01 | P02 | P03, nh[k] >= 1, "item %zu was pushed, but the handler never got it", k);
        P_CHECK(P02, he[k] && he[k] < destroyed, "the handler of item %zu had not returned when the destructor did", k);
    }
    if (r.fifo) {
        // by the end of their pushes, the one that was handled last so far
        std::vector<std::size_t> by_begin(nh.size()), by_end;
        for (std::size_t a = 0; a < nh.size(); a++)
            by_begin[a] = a;
        by_end = by_begin;
        std::sort(by_begin.begin(), by_begin.end(), [&](std::size_t a, std::size_t b) { return pb[a] < pb[b]; });
        std::sort(by_end.begin(), by_end.end(), [&](std::size_t a, std::size_t b) { return pe[a] < pe[b]; });
        std::size_t last = nh.size(), k = 0;
        for (std::size_t b : by_begin) {
            for (; k < by_end.size() && pe[by_end[k]] < pb[b]; k++)
                if (last == nh.size() || hb[by_end[k]] > hb[last])
                    last = by_end[k];
            if (last != nh.size())
                P_CHECK(P01, hb[last] < hb[b], "item %zu was pushed before item %zu, but handled after it", last, b);
        }
    }
    mc::outcome(h);
}

template <std::size_t B, class I = item>
using stage = pipeline_stage<I, I, B, null_log>;
template <std::size_t B, std::size_t P, class I = item>
using pool = pipeline_stage_pool<I, I, B, P, null_log>;

template <class I>
void
take(I const& d, long b)
{
    C::event(handle_begin, d.id, b);
    P_CHECK(P04, d.ok(), "the handler got item %ld incomplete or damaged", d.id);
}

template <class I = item, class Q>
void
put(Q& q, long id, bool lvalue)
{
    I x{id};
    C::event(push_begin, id);
    if (lvalue)
        q.push(x);
    else
        q.push(I{id});
    C::event(push_end, id);
}

// One stage, `producers` threads (the main thread is the first) with `per` items each. Producers keep
// the backlog within the buffer; `late` lets the destructor run without waiting for anything.
template <std::size_t B, class I = item>
void
stage_body(int producers, long per, std::uint64_t work, bool reader)
{
    long const total = producers * per;
    auto       make  = std::make_unique<stage<B, I>>([work](pipeline_stage_exception, I const d, std::pair<int, int> const m) {
        take(d, 0);
        P_CHECK(P04, m.first >= 0 && m.second >= 0, "negative statistics");
        C::spend(work);
        C::event(handle_end, d.id, 0);
        C::signal(ch_done);
        return d;
    });
    auto& q    = *make;
    auto  feed = [&q, per, producers](long first) {
        for (long i = 0; i < per; i++) {
            // my share of the buffer: at most B items of all producers are on their way
            long const before = i * producers;    // an upper bound of what was pushed when I push my i-th
            if (before + producers > static_cast<long>(B))
                C::await(ch_done, before + producers - static_cast<long>(B));
            put<I>(q, first + i, (i & 1) == 0);
        }
    };
    std::vector<std::thread> t;
    for (int p = 1; p < producers; p++)
        t.emplace_back(feed, p * per);
    if (reader)
        t.emplace_back([&q] {
            for (int i = 0; i < 2; i++) {
                C::event(stats_read);
                int const a = q.time_for_unit(), b = q.buffer_utilization();
                P_CHECK(P04, a >= 0 && b >= 0, "negative statistics");
            }
        });
    feed(0);
    for (auto& x : t)
        x.join();
    C::event(destroy_begin);
    make.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({total, true});
}

// `before` items pass on the schedule without deviations, then `items` more on every schedule.
template <std::size_t B, class Q, class M>
void
long_body(long before, long items)
{
    C::hurry(true);
    auto  make = std::make_unique<Q>([before](pipeline_stage_exception, small const d, M const) {
        if (d.id < before)
            P_CHECK(P01 | P03, d.id == C::signals(ch_done), "the handler got item %ld as number %ld", d.id, C::signals(ch_done));
        else
            take(small{d.id - before}, 0);
        if (d.id >= before)
            C::event(handle_end, d.id - before, 0);
        C::signal(ch_done);
        return d;
    });
    auto& q = *make;
    for (long i = 0; i < before + items; i++) {
        if (i >= static_cast<long>(B))
            C::await(ch_done, i + 1 - static_cast<long>(B));
        if (i == before)
            C::hurry(false);
        if (i < before)
            q.push(small{i});
        else {
            C::event(push_begin, i - before);
            q.push(small{i});
            C::event(push_end, i - before);
        }
    }
    C::event(destroy_begin);
    make.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({items, true});
}

// A backlog of very many items: all threads are held in their handlers while `total` items are pushed,
// the last four of them on every schedule. With one thread, what it is told is known exactly.
template <std::size_t P, class Q, class M>
void
deep_body(long total)
{
    if (total > 1000)
        C::room();
    C::hurry(true);
    std::vector<int> on(static_cast<std::size_t>(total), -1);
    std::vector<int> nth(P, 0);    // each by its worker only
    std::vector<std::vector<long>> order(P);
    auto make = std::make_unique<Q>([&](pipeline_stage_exception, small const d, M const m) {
        int w = 0, load;
        if constexpr (std::is_same_v<M, measure_data>)
            w = m.id, load = m.load;
        else
            load = m.second;
        MC_CHECK(w >= 0 && w < static_cast<int>(P), "worker %d", w);
        P_CHECK(P01 | P03, d.id >= 0 && d.id < total && on[static_cast<std::size_t>(d.id)] < 0, "item %ld is handled more than once", d.id);
        on[static_cast<std::size_t>(d.id)] = w;
        auto const k = static_cast<long>(order[static_cast<std::size_t>(w)].size());
        if (P == 1 && k) {
            long sum = 0;
            for (long j = std::max(0L, k - 10); j < k; j++)
                sum += total - 1 - j;
            P_CHECK(P06, load == sum / 10, "handler number %ld is told a load of %d, it is %ld", k, load, sum / 10);
        }
        if (k)
            P_CHECK(P01 | P03, order[static_cast<std::size_t>(w)].back() < d.id, "item %ld is handled after item %ld", d.id, order[static_cast<std::size_t>(w)].back());
        order[static_cast<std::size_t>(w)].push_back(d.id);
        if (k == 0) {
            C::signal(ch_busy);
            C::await(ch_gate, 1);
        }
        return d;
    });
    long i = 0;
    while (i < static_cast<long>(P) * 8 && C::signals(ch_busy) < static_cast<long>(P)) {
        make->push(small{i++});
        C::await(ch_busy, std::min(static_cast<long>(P), C::signals(ch_busy)));
    }
    C::await(ch_busy, static_cast<long>(P));
    long const first = i;
    for (; i < total; i++) {
        if (i == total - 4)
            C::hurry(false);
        make->push(small{i});
    }
    C::hurry(true);
    C::signal(ch_gate);
    make.reset();
    C::wait_all();
    std::vector<long> waiting(P, -1);
    for (i = 0; i < total; i++) {
        P_CHECK(P01 | P02 | P03, on[static_cast<std::size_t>(i)] >= 0, "item %ld was pushed, but the handler never got it", i);
        auto const w = on[static_cast<std::size_t>(i)];
        if (w < 0)
            continue;
        if (i >= first)
            P_CHECK(P05, waiting[static_cast<std::size_t>(w)] == *std::min_element(waiting.begin(), waiting.end()),
                    "item %ld went to worker %d with a backlog of %ld, another one has %ld", i, w, waiting[static_cast<std::size_t>(w)],
                    *std::min_element(waiting.begin(), waiting.end()));
        waiting[static_cast<std::size_t>(w)]++;
    }
    mc::outcome(static_cast<std::uint64_t>(first));
}

// All threads are held in their handlers; then every sequence of pushing an item and of letting one thread go on to
// its next item. Each step is over before the next one, so that what waits for whom is known exactly.
template <std::size_t P>
void
uneven_body(int depth)
{
    C::hurry(true);
    long              gone[P]{}, last[P]{};    // each by its worker only
    std::atomic<long> taken[P]{};
    std::atomic<bool> held[P]{};
    std::vector<int>               on(P * 8 + static_cast<std::size_t>(depth), -1);
    std::vector<std::vector<long>> had(on.size());    // what the threads had taken when the item was pushed
    auto make = std::make_unique<pool<32, P, small>>([&](pipeline_stage_exception, small const d, measure_data const m) {
        MC_CHECK(m.id >= 0 && m.id < static_cast<int>(P), "worker %d", m.id);
        auto const w = static_cast<std::size_t>(m.id);
        MC_CHECK(d.id >= 0 && d.id < static_cast<long>(on.size()) && on[static_cast<std::size_t>(d.id)] < 0, "item %ld is handled more than once", d.id);
        on[static_cast<std::size_t>(d.id)] = m.id;
        bool const new_one = ++taken[w] == 1;
        MC_CHECK(new_one || last[w] < d.id, "item %ld is handled after item %ld", d.id, last[w]);
        last[w] = d.id;
        if (new_one)
            C::signal(ch_busy);
        held[w] = true;
        C::await(ch_worker + m.id, ++gone[w]);
        held[w] = false;
        return d;
    });
    long i = 0;
    while (i < static_cast<long>(P) * 8 && C::signals(ch_busy) < static_cast<long>(P)) {
        make->push(small{i++});
        C::await(ch_busy, std::min(static_cast<long>(P), C::signals(ch_busy)));
    }
    C::await(ch_busy, static_cast<long>(P));
    long const first = i;
    for (int k = 0; k < depth; k++) {
        int const c = mc::choose(static_cast<int>(P) + 1);
        if (c == 0) {
            for (auto const& t : taken)
                had[static_cast<std::size_t>(i)].push_back(t);
            make->push(small{i++});
        } else if (held[c - 1])
            C::signal(ch_worker + c - 1);
        else
            continue;    // it has nothing to do
        for (std::size_t n = 0; n < 3 * P; n++)
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
    }
    long const total = i;
    for (long k = 0; k < total; k++)
        for (int w = 0; w < static_cast<int>(P); w++)
            C::signal(ch_worker + w);
    make.reset();
    C::wait_all();
    std::vector<long> pushed(P, 0);
    for (i = 0; i < total; i++) {
        auto const n = static_cast<std::size_t>(i);
        MC_CHECK(on[n] >= 0, "item %ld was pushed, but the handler never got it", i);
        if (on[n] < 0)
            continue;
        auto const w = static_cast<std::size_t>(on[n]);
        if (i >= first) {
            long least = std::numeric_limits<long>::max();
            for (std::size_t k = 0; k < P; k++)
                least = std::min(least, pushed[k] - had[n][k]);
            MC_CHECK(pushed[w] - had[n][w] == least, "item %ld went to worker %zu with a backlog of %ld, another one has %ld", i, w, pushed[w] - had[n][w], least);
        }
        pushed[w]++;
    }
    mc::outcome(static_cast<std::uint64_t>(total));
}

// Items go through two stages: the handler of the first pushes into the second.
template <std::size_t B>
void
chain_body(long items)
{
    {
        stage<B> second{[](pipeline_stage_exception, item const d, std::pair<int, int> const) {
            take(d, 1);
            C::event(handle_end, d.id, 1);
            return d;
        }};
        {
            stage<B> first{[&second](pipeline_stage_exception, item const d, std::pair<int, int> const) {
                P_CHECK(P04, d.ok(), "the first stage got item %ld incomplete or damaged", d.id);
                put(second, d.id, true);
                return d;
            }};
            for (long i = 0; i < items; i++)
                first.push(item{i});
        }
        C::event(relay);
        C::event(destroy_begin);
    }
    C::event(destroy_end);
    C::wait_all();
    check_log({items, true});
    // the first stage had handled everything when its destructor returned
    std::size_t r = 0, n = 0;
    for (std::size_t i = 0; i < C::events(); i++) {
        if (C::event_at(i).kind == relay)
            r = i + 1;
        if (C::event_at(i).kind == push_end) {
            n++;
            P_CHECK(P02, !r, "the first stage handled an item after its destructor had returned");
        }
    }
    P_CHECK(P01 | P02, n == static_cast<std::size_t>(items), "the first stage passed on %zu of %ld items", n, items);
}

template <std::size_t B, std::size_t P, class I = item>
void
pool_body(int producers, long per, std::uint64_t work)
{
    long const total = producers * per;
    auto make = std::make_unique<pool<B, P, I>>([work](pipeline_stage_exception, I const d, measure_data const m) {
        take(d, m.id);
        P_CHECK(P04, m.time >= 0 && m.load >= 0, "negative statistics");
        C::spend(work);
        C::event(handle_end, d.id, m.id);
        C::signal(ch_done);
        return d;
    });
    auto& q    = *make;
    auto  feed = [&q, per, producers](long first) {
        for (long i = 0; i < per; i++) {
            long const before = i * producers;
            if (before + producers > static_cast<long>(B))
                C::await(ch_done, before + producers - static_cast<long>(B));
            put<I>(q, first + i, (i & 1) == 0);
        }
    };
    std::vector<std::thread> t;
    for (int p = 1; p < producers; p++)
        t.emplace_back(feed, p * per);
    feed(0);
    for (auto& x : t)
        x.join();
    C::event(destroy_begin);
    make.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({total, false, static_cast<int>(P)});
}

// Every push went to a worker with a smallest backlog. The backlog of a worker seen by a push is
// known exactly when no worker takes an item during the push.
template <std::size_t P>
void
check_balance(long total)
{
    std::vector<long> assigned(static_cast<std::size_t>(total), -1);
    for (std::size_t i = 0; i < C::events(); i++)
        if (C::event_at(i).kind == handle_begin)
            assigned[static_cast<std::size_t>(C::event_at(i).a)] = C::event_at(i).b;
    std::vector<long> pushed(P, 0), taken(P, 0);
    std::vector<bool> in(P, false);
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == push_end)
            pushed[static_cast<std::size_t>(assigned[static_cast<std::size_t>(e.a)])]++;
        else if (e.kind == handle_begin)
            taken[static_cast<std::size_t>(e.b)]++, in[static_cast<std::size_t>(e.b)] = true;
        else if (e.kind == handle_end)
            in[static_cast<std::size_t>(e.b)] = false;
        else if (e.kind == push_begin) {
            auto const w = static_cast<std::size_t>(assigned[static_cast<std::size_t>(e.a)]);
            // A worker that is in its handler when the push ends has taken exactly the items whose
            // handlers have begun by then; another one may have taken one more.
            std::vector<long> t2 = taken;
            std::vector<bool> in2 = in;
            for (std::size_t k = i; k < C::events() && !(C::event_at(k).kind == push_end && C::event_at(k).a == e.a); k++) {
                auto const& x = C::event_at(k);
                if (x.kind == handle_begin)
                    t2[static_cast<std::size_t>(x.b)]++, in2[static_cast<std::size_t>(x.b)] = true;
                else if (x.kind == handle_end)
                    in2[static_cast<std::size_t>(x.b)] = false;
            }
            // the smallest the backlog of w can have been, the largest that of the others
            long best = std::numeric_limits<long>::max();
            for (std::size_t k = 0; k < P; k++)
                best = std::min(best, pushed[k] - taken[k]);
            long const mine = std::max(0L, pushed[w] - t2[w] - (in2[w] ? 0 : 1));
            MC_CHECK(mine <= best, "item %ld went to worker %zu with a backlog of %ld, another one has at most %ld", e.a, w,
                     mine, best);
        }
    }
}

// All workers of the pool are held in their handlers: what is pushed then must be spread, because it
// goes to a worker with the smallest backlog.
template <std::size_t P>
void
balance_body(long rounds)
{
    constexpr long n_first = static_cast<long>(P);
    long const     total   = n_first + rounds * static_cast<long>(P);
    auto make = std::make_unique<pool<16, P>>([](pipeline_stage_exception, item const d, measure_data const m) {
        take(d, m.id);
        if (d.id < n_first) {
            C::signal(ch_busy);
            C::await(ch_gate, 1);
        }
        C::event(handle_end, d.id, m.id);
        return d;
    });
    auto& q = *make;
    // Fill all workers. An item may queue up behind a worker that is held: only when its queue has
    // become empty the next is pushed, so that the workers fill one after the other.
    for (long i = 0; i < n_first; i++) {
        put(q, i, true);
    }
    for (long i = n_first; i < total; i++)
        put(q, i, false);
    C::signal(ch_gate);
    C::event(destroy_begin);
    make.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({total, false, static_cast<int>(P)});
    check_balance<P>(total);
}

// Every sequence of pushing an item and letting one worker finish the item it has, each worker being
// held in its handler until then.
template <std::size_t P>
void
steps_body(int depth)
{
    long gone[P]{};    // each by its worker only
    auto make = std::make_unique<pool<16, P, small>>([&gone](pipeline_stage_exception, small const d, measure_data const m) {
        take(d, m.id);
        C::await(ch_worker + m.id, ++gone[m.id]);
        C::event(handle_end, d.id, m.id);
        return d;
    });
    auto& q = *make;
    long  total = 0;
    for (int i = 0; i < depth; i++) {
        int const c = mc::choose(static_cast<int>(P) + 1);
        if (c == 0)
            put<small>(q, total++, true);
        else
            C::signal(ch_worker + c - 1);
    }
    for (int k = 0; k < depth; k++)
        for (int w = 0; w < static_cast<int>(P); w++)
            C::signal(ch_worker + w);
    C::event(destroy_begin);
    make.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({total, false, static_cast<int>(P)});
    check_balance<P>(total);
}

// The handler pushes into its own stage.
template <std::size_t B>
void
feedback_body(long items)
{
    std::unique_ptr<stage<B>> s;
    stage<B>*                 self = nullptr;
    s = std::make_unique<stage<B>>([&self, items](pipeline_stage_exception, item const d, std::pair<int, int> const) {
        take(d, 0);
        if (d.id < items)
            put(*self, d.id + items, d.id & 1);
        C::event(handle_end, d.id, 0);
        return d;
    });
    self = s.get();
    for (long i = 0; i < items; i++)
        put(*s, i, i & 1);
    C::event(destroy_begin);
    s.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({2 * items, true});
}

// The same in a pool, which is destroyed when all that has happened.
template <std::size_t B, std::size_t P>
void
pool_feedback_body(long items)
{
    std::unique_ptr<pool<B, P>> s;
    pool<B, P>*                 self = nullptr;
    s = std::make_unique<pool<B, P>>([&self, items](pipeline_stage_exception, item const d, measure_data const m) {
        take(d, m.id);
        if (d.id < items)
            put(*self, d.id + items, d.id & 1);
        C::event(handle_end, d.id, m.id);
        C::signal(ch_done);
        return d;
    });
    self = s.get();
    for (long i = 0; i < items; i++)
        put(*s, i, i & 1);
    C::await(ch_done, 2 * items);
    C::event(destroy_begin);
    s.reset();
    C::event(destroy_end);
    C::wait_all();
    check_log({2 * items, false, static_cast<int>(P)});
}

// Two of a kind have nothing to do with each other. The second goes on after the first is gone.
template <class Q, class M>
void
pair_body(long pool_size)
{
    auto const handler = [](long first) {
        return [first](pipeline_stage_exception, item const d, M const m) {
            long w = 0;
            if constexpr (std::is_same_v<M, measure_data>)
                w = m.id;
            if ((d.id >= 10) != (first >= 10))
                mc::fail("item %ld is handled by another pipeline", d.id);
            take(d, w + (first >= 10 ? 8 : 0));
            C::event(handle_end, d.id, w + (first >= 10 ? 8 : 0));
            return d;
        };
    };
    long handled[20]{}, ended[2]{};
    {
        auto a = std::make_unique<Q>(handler(0));
        auto b = std::make_unique<Q>(handler(10));
        put(*a, 0, true);
        put(*b, 10, true);
        C::event(destroy_begin, 0);
        a.reset();
        C::event(destroy_end, 0);
        put(*b, 11, false);
        C::event(destroy_begin, 1);
        b.reset();
        C::event(destroy_end, 1);
    }
    C::wait_all();
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == destroy_end)
            ended[e.a] = static_cast<long>(i) + 1;
        if (e.kind == handle_begin) {
            P_CHECK(P01 | P03, ++handled[e.a] == 1, "the handler got item %ld more than once", e.a);
            P_CHECK(P02, !ended[e.a / 10], "the handler runs after the destructor has returned");
            P_CHECK(P03, !pool_size || e.b % 8 < pool_size, "worker %ld of a pool of %ld", e.b % 8, pool_size);
        }
        if (e.kind == handle_end)
            P_CHECK(P02, !ended[e.a / 10] && (handled[e.a] |= 2), "the handler returns after the destructor has");
    }
    P_CHECK(P01 | P02 | P03, handled[0] && handled[10] && handled[11], "an item is not handled");
    mc::outcome(C::events());
}

// What the handlers are told, and readers: averages over the last ten items.
void
check_statistics(long items, int workers)
{
    auto const n = static_cast<std::size_t>(items);
    std::vector<int> worker(n, 0);
    for (std::size_t i = 0; i < C::events(); i++)
        if (C::event_at(i).kind == handle_begin)
            worker[static_cast<std::size_t>(C::event_at(i).a)] = static_cast<int>(C::event_at(i).b);
    std::uint64_t h = 0;
    for (int w = 0; w < workers; w++) {
        // Of the items that this worker handled: the least and the most milliseconds (other threads may
        // take time while it measures), and the least and the most there were waiting.
        std::vector<long> ms, ms_hi, lo, hi;
        std::uint64_t since = 0, before = 0, last = 0, until = 0;
        long          begun = 0, ended = 0, pushing = 0, pushed = 0;
        bool          open = false;
        auto average = [](std::vector<long> const& v, std::size_t upto) {
            long sum = 0;
            for (std::size_t k = upto > 10 ? upto - 10 : 0; k < upto; k++)
                sum += v[k];
            return sum / 10;
        };
        std::size_t read_from = 0;
        auto close = [&] {
            if (open) {
                hi.push_back(std::max(0L, pushing - begun));
                ms_hi.push_back(static_cast<long>((until - before) / 1000000));
                before = last;
            }
            open = false;
        };
        struct Told {
            std::size_t from, upto;
            long        time, load;
        };
        std::vector<Told> all;
        for (std::size_t i = 0; i < C::events(); i++) {
            auto const& e = C::event_at(i);
            bool const  mine = e.kind <= handle_end && worker[static_cast<std::size_t>(e.a)] == w;
            if (e.kind == push_begin && mine)
                pushing++;
            if (e.kind == push_end && mine)
                pushed++;
            until = e.time;
            if (e.kind == handle_begin && mine) {
                close();
                since = e.time;
                begun++;
                MC_CHECK(i + 1 < C::events(), "no statistics");
                auto t = i + 1;
                while (C::event_at(t).kind != told || C::event_at(t).thread != e.thread)
                    t++;
                all.push_back({ms.size(), ms.size(), C::event_at(t).a, C::event_at(t).b});
            }
            if (e.kind == handle_end && mine) {
                ms.push_back(static_cast<long>((e.time - since) / 1000000));
                lo.push_back(std::max(0L, pushed - begun));
                last = e.time;
                ended++;
                open = true;
            }
            if (e.kind == read_begin)
                read_from = static_cast<std::size_t>(ended);
            if (e.kind == read_end)
                all.push_back({read_from ? read_from - 1 : 0, static_cast<std::size_t>(ended), e.a, e.b});
        }
        close();
        for (auto const& t : all) {
            bool time = false, load = false;
            for (std::size_t u = t.from; u <= t.upto; u++) {
                time = time || (t.time >= average(ms, u) && t.time <= average(ms_hi, u));
                load = load || (t.load >= average(lo, u) && t.load <= average(hi, u));
            }
            MC_CHECK(time, "the time for an item is said to be %ld, it is %ld to %ld (or %ld to %ld) after %zu items", t.time, average(ms, t.upto), average(ms_hi, t.upto),
                     average(ms, t.from), average(ms_hi, t.from), t.upto);
            MC_CHECK(load, "the load is said to be %ld, it is %ld to %ld (or %ld to %ld) after %zu items", t.load, average(lo, t.upto), average(hi, t.upto),
                     average(lo, t.from), average(hi, t.from), t.upto);
            h = mc::mix(h, static_cast<std::uint64_t>(t.time * 100 + t.load));
        }
    }
    mc::outcome(h);
}
std::uint64_t
work_of(int pattern, long id)
{
    std::uint64_t const ms = 1000000;
    switch (pattern) {
    case 0: return (10 + 7 * static_cast<std::uint64_t>(id)) * ms;
    case 1: return id == 0 ? 1000 * ms : 0;
    case 2: return 100 * ms - 1;
    default: return id == 11 ? 2000000 * ms : id & 1 ? 30 * ms : 0;
    }
}
void
stage_statistics(long items)
{
    int const pattern = mc::choose(4), pace = mc::choose(3);
    auto make = std::make_unique<stage<16, small>>([pattern](pipeline_stage_exception, small const d, std::pair<int, int> const m) {
        C::event(handle_begin, d.id, 0);
        C::event(told, m.first, m.second);
        C::spend(work_of(pattern, d.id));
        C::event(handle_end, d.id, 0);
        C::signal(ch_done);
        return d;
    });
    for (long i = 0; i < items; i++) {
        put<small>(*make, i, true);
        if (pace == 1)
            C::await(ch_done, i + 1);
        if (pace == 2 && i % 4 == 3)
            C::await(ch_done, i);
        if (pace && i % 3 == 2) {
            C::event(read_begin);
            int const a = make->time_for_unit(), b = make->buffer_utilization();
            C::event(read_end, a, b);
        }
    }
    make.reset();
    C::wait_all();
    check_statistics(items, 1);
}
template <std::size_t P>
void
pool_statistics(long items)
{
    int const pattern = mc::choose(4), pace = mc::choose(2);
    auto make = std::make_unique<pool<32, P, small>>([pattern](pipeline_stage_exception, small const d, measure_data const m) {
        C::event(handle_begin, d.id, m.id);
        C::event(told, m.time, m.load);
        C::spend(work_of(pattern, d.id));
        C::event(handle_end, d.id, m.id);
        C::signal(ch_done);
        return d;
    });
    for (long i = 0; i < items; i++) {
        put<small>(*make, i, true);
        if (pace)
            C::await(ch_done, i + 1);
    }
    make.reset();
    C::wait_all();
    check_statistics(items, static_cast<int>(P));
}

// Pushes that fail: the item was never pushed, everything else is.
template <class Q, class M>
void
failing_body(int producers, long per)
{
    long const total = producers * per;
    std::vector<int> plan(static_cast<std::size_t>(total));
    for (auto& p : plan)
        p = mc::choose(4);
    std::vector<char> failed(static_cast<std::size_t>(total), 0);
    auto make = std::make_unique<Q>([](pipeline_stage_exception, brittle const d, M const m) {
        long w = 0;
        if constexpr (std::is_same_v<M, measure_data>)
            w = m.id;
        C::event(handle_begin, d.id, w);
        MC_CHECK(d.ok(), "the handler got item %ld incomplete or damaged", d.id);
        C::event(handle_end, d.id, w);
        return d;
    });
    auto feed = [&](long first) {
        for (long i = first; i < first + per; i++) {
            brittle const x{i};
            C::event(push_begin, i);
            brittle::fails_at = plan[static_cast<std::size_t>(i)];
            try {
                if (i & 1)
                    make->push(std::move(x));
                else
                    make->push(x);
                brittle::fails_at = 0;
                C::event(push_end, i);
            } catch (Fault const&) {
                brittle::fails_at = 0;
                failed[static_cast<std::size_t>(i)] = 1;
                C::event(push_fails, i);
            }
        }
    };
    std::vector<std::thread> t;
    for (int p = 1; p < producers; p++)
        t.emplace_back(feed, p * per);
    feed(0);
    for (auto& x : t)
        x.join();
    C::event(destroy_begin);
    make.reset();
    C::event(destroy_end);
    C::wait_all();
    std::vector<int> n(static_cast<std::size_t>(total), 0);
    for (std::size_t i = 0; i < C::events(); i++)
        if (C::event_at(i).kind == handle_end) {
            MC_CHECK(C::event_at(i).a >= 0 && C::event_at(i).a < total, "the handler got an item that nobody pushed");
            n[static_cast<std::size_t>(C::event_at(i).a)]++;
        }
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < n.size(); i++) {
        MC_CHECK(n[i] == (failed[i] ? 0 : 1), "item %zu, whose push %s, is handled %d times", i, failed[i] ? "failed" : "succeeded", n[i]);
        h = mc::mix(h, static_cast<std::uint64_t>(failed[i]));
    }
    mc::outcome(h);
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, int q, int t, std::function<void()> f, char const* text) {
        for (unsigned i = 0; i < 7; i++)
            if (mask >> i & 1) {
                Config k;
                k.name           = std::string("P0") + static_cast<char>('1' + i) + "-" + n;
                k.body           = [f, i] {
                    what = 1u << i;
                    f();
                };
                k.bound_quick    = q;
                k.bound_thorough = t;
                k.what           = text;
                c.push_back(std::move(k));
            }
    };
    add(P01 | P02 | P04, "stage-b1-1x2", 7, 9, [] { stage_body<1>(1, 2, 0, false); }, "buffer of 1, one producer, 2 items");
    add(P01 | P02 | P04, "stage-b2-1x3", 6, 7, [] { stage_body<2>(1, 3, 0, false); }, "buffer of 2, one producer, 3 items");
    add(P01 | P02, "stage-b3-1x5", 4, 5, [] { stage_body<3>(1, 5, 0, false); }, "buffer of 3, one producer, 5 items: the ring wraps");
    add(P01 | P02, "stage-b4-1x3-work", 6, 7, [] { stage_body<4>(1, 3, 5000000, false); }, "handlers that take 5 ms");
    add(P01 | P02 | P04, "stage-b2-2x1", 5, 6, [] { stage_body<2>(2, 1, 0, false); }, "two producers, one item each");
    add(P01 | P02 | P04, "stage-b3-3x1", 3, 4, [] { stage_body<3>(3, 1, 0, false); }, "three producers, one item each");
    add(P01 | P02 | P04, "stage-b2-2x2", 3, 4, [] { stage_body<2>(2, 2, 0, false); }, "buffer of 2, two producers, two items each");
    add(P01 | P02 | P04, "stage-b8-2x2", 3, 4, [] { stage_body<8>(2, 2, 0, false); }, "buffer of 8, two producers, two items each");
    add(P04, "stage-stats", 4, 5, [] { stage_body<2>(1, 2, 0, true); }, "another thread reads the statistics meanwhile");
    add(P04, "stage-stats-2x1", 3, 4, [] { stage_body<2>(2, 1, 0, true); }, "the same with two producers");
    add(P02, "stage-empty", 6, 12, [] { stage_body<2>(1, 0, 0, false); }, "nothing is pushed");
    add(P01 | P02, "chain-b4-2", 4, 5, [] { chain_body<4>(2); }, "two stages in a row, two items");
    add(P02 | P03 | P04, "pool-b2-p1-1x2", 6, 7, [] { pool_body<2, 1>(1, 2, 0); }, "a pool of one thread, 2 items");
    add(P02 | P03 | P04, "pool-b2-p2-1x2", 4, 5, [] { pool_body<2, 2>(1, 2, 0); }, "two threads, 2 items");
    add(P02 | P03 | P04, "pool-b2-p2-2x1", 3, 4, [] { pool_body<2, 2>(2, 1, 0); }, "two threads, two producers");
    add(P02 | P03 | P04, "pool-b2-p3-1x3", 2, 3, [] { pool_body<2, 3>(1, 3, 0); }, "three threads, buffer of 2, 3 items");
    add(P03, "pool-b8-p2-2x2-work", 2, 3, [] { pool_body<8, 2>(2, 2, 3000000); }, "two threads, two producers, slow handlers");
    add(P02 | P03, "pool-b1-p4-1x2", 1, 2, [] { pool_body<1, 4>(1, 2, 0); }, "four threads, buffer of 1");
    add(P02, "pool-empty", 4, 6, [] { pool_body<2, 3>(1, 0, 0); }, "nothing is pushed");
    add(P05, "pool-balance-p2", 3, 4, [] { balance_body<2>(1); }, "two threads that are held in their handlers, 4 items");
    add(P05, "pool-balance-p3", 1, 2, [] { balance_body<3>(1); }, "three threads that are held, 6 items");
    add(P01 | P04, "stage-b2-wide-2x1", 4, 5, [] { stage_body<2, wide>(2, 1, 0, false); }, "items of 40 words, two producers, one item each");
    add(P01 | P04, "stage-b1-wide-1x3", 5, 6, [] { stage_body<1, wide>(1, 3, 0, false); }, "items of 40 words, buffer of 1");
    add(P01 | P02, "stage-b2-small-1x12", 2, 3, [] { stage_body<2, small>(1, 12, 0, false); }, "buffer of 2, 12 items of one word");
    add(P01 | P02, "stage-b16-small-1x12", 2, 3, [] { stage_body<16, small>(1, 12, 0, false); }, "buffer of 16, 12 items of one word");
    add(P01, "stage-b8-small-2x6", 2, 3, [] { stage_body<12, small>(2, 6, 0, false); }, "two producers, 6 items of one word each");
    add(P01 | P02, "stage-b3-many", 0, 1, [] { stage_body<3, small>(1, 300, 0, false); }, "buffer of 3, 300 items of one word");
    add(P01 | P02, "stage-b300-many", 0, 1, [] { stage_body<300, small>(1, 301, 0, false); }, "buffer of 300, 301 items of one word");
    add(P02 | P03, "pool-b3-p1-many", 0, 1, [] { pool_body<3, 1, small>(1, 300, 0); }, "one thread with a buffer of 3, 300 items of one word");
    add(P03, "pool-b300-p3-many", 0, 1, [] { pool_body<300, 3, small>(1, 301, 0); }, "three threads with buffers of 300, 301 items of one word");
    add(P01 | P02, "stage-b3-65536", 1, 2, [] { long_body<3, stage<3, small>, std::pair<int, int>>(65534, 4); }, "buffer of 3, every schedule of 4 items, after 65534 others");
    add(P02 | P03, "pool-b3-p1-65536", 1, 2, [] { long_body<3, pool<3, 1, small>, measure_data>(65534, 4); }, "one thread with a buffer of 3, every schedule of 4 items, after 65534 others");
    add(P01 | P02 | P06, "stage-deep-70000", 1, 2, [] { deep_body<1, stage<70000, small>, std::pair<int, int>>(70000); }, "70000 items wait at once, the last 4 are pushed on every schedule");
    add(P02 | P03 | P06, "pool-p1-deep-70000", 1, 2, [] { deep_body<1, pool<70000, 1, small>, measure_data>(70000); }, "the same in a pool of one thread");
    add(P05, "pool-p2-deep-600", 1, 2, [] { deep_body<2, pool<400, 2, small>, measure_data>(600); }, "two threads that are held, 600 items wait");
    add(P03 | P05, "pool-p2-deep-140000", 1, 2, [] { deep_body<2, pool<80000, 2, small>, measure_data>(140000); }, "two threads that are held, 140000 items wait");
    add(P05, "pool-p5-deep-100", 1, 2, [] { deep_body<5, pool<100, 5, small>, measure_data>(100); }, "five threads that are held, 100 items wait");
    add(P01, "stage-feedback", 5, 6, [] { feedback_body<4>(2); }, "the handler pushes into its own stage, which is being destroyed");
    add(P01, "stage-feedback-1", 6, 8, [] { feedback_body<2>(1); }, "the same with one item");
    add(P01 | P02, "stage-two", 4, 5, [] { pair_body<stage<2>, std::pair<int, int>>(0); }, "two stages, one of which is destroyed while the other works");
    add(P02 | P03, "pool-two", 1, 2, [] { pair_body<pool<2, 2>, measure_data>(2); }, "two pools, one of which is destroyed while the other works");
    add(P03, "pool-feedback", 3, 3, [] { pool_feedback_body<4, 2>(2); }, "two threads, the handlers push into their own pool");
    add(P03 | P04, "pool-b2-p2-wide", 3, 4, [] { pool_body<2, 2, wide>(1, 2, 0); }, "two threads, items of 40 words");
    add(P03, "pool-b8-p2-small-1x24", 1, 2, [] { pool_body<24, 2, small>(1, 24, 0); }, "two threads, 24 items of one word");
    add(P03, "pool-b12-p1-small-1x12", 2, 3, [] { pool_body<12, 1, small>(1, 12, 0); }, "one thread, 12 items of one word");
    add(P05, "pool-steps-p2", 2, 3, [] { steps_body<2>(4); }, "two threads: every sequence of 4 steps, each a push or one thread finishing an item");
    add(P05, "pool-steps-p2-long", 0, 1, [] { steps_body<2>(8); }, "the same with 8 steps");
    add(P05, "pool-steps-p3", 0, 1, [] { steps_body<3>(6); }, "three threads, 6 steps");
    char const* const uneven = "all threads are held: every sequence of pushing and letting one of them go on, step by step";
    add(P05, "pool-uneven-p1", 0, 0, [] { uneven_body<1>(10); }, uneven);
    add(P05, "pool-uneven-p2", 0, 0, [] { uneven_body<2>(10); }, uneven);
    add(P05, "pool-uneven-p3", 0, 0, [] { uneven_body<3>(8); }, uneven);
    add(P05, "pool-uneven-p4", 0, 0, [] { uneven_body<4>(7); }, uneven);
    add(P05, "pool-uneven-p8", 0, 0, [] { uneven_body<8>(4); }, uneven);
    add(P06, "stage", 2, 3, [] { stage_statistics(13); }, "13 items of known durations, four patterns, three paces, read meanwhile");
    add(P06, "stage-few", 4, 5, [] { stage_statistics(3); }, "3 items");
    add(P06, "pool-p1", 2, 3, [] { pool_statistics<1>(13); }, "one thread, 13 items");
    add(P06, "pool-p2", 0, 1, [] { pool_statistics<2>(26); }, "two threads, 26 items");
    add(P06, "pool-p2-few", 2, 3, [] { pool_statistics<2>(4); }, "two threads, 4 items");
    add(P07, "stage-1x3", 3, 4, [] { failing_body<stage<4, brittle>, std::pair<int, int>>(1, 3); }, "one producer, 3 items: every combination of copies that fail");
    add(P07, "stage-2x1", 4, 5, [] { failing_body<stage<4, brittle>, std::pair<int, int>>(2, 1); }, "two producers, one item each");
    add(P07, "stage-2x2", 2, 3, [] { failing_body<stage<4, brittle>, std::pair<int, int>>(2, 2); }, "two producers, two items each");
    add(P07, "pool-p1-1x3", 2, 3, [] { failing_body<pool<4, 1, brittle>, measure_data>(1, 3); }, "a pool of one thread, 3 items");
    add(P07, "pool-p2-1x3", 1, 2, [] { failing_body<pool<4, 2, brittle>, measure_data>(1, 3); }, "two threads, 3 items");
    add(P07, "pool-p2-2x1", 2, 3, [] { failing_body<pool<4, 2, brittle>, measure_data>(2, 1); }, "two threads, two producers");
    return c;
}
