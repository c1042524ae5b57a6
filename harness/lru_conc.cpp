// The LRU cache shared by threads (L04): every history is linearizable.
#include "mc.hpp"
#include "lin.hpp"

#include <algorithm>
#include <deque>
#include <memory>
#include <string>
#include <thread>
#include <xitren/cache/lru.hpp>

namespace C = mc::conc;

namespace {

enum { op_begin = 1, op_end };
struct Op {
    bool put;
    long key;
};

// With `Stale`, every entry has expired as soon as it is there: asking for it throws, or yields nothing, and
// does not count as use.
template <std::size_t Size, class Value = long, bool Exc = true, bool Stale = false>
void
body(int threads, int per, std::vector<Op> const& alphabet, int preload)
{
    using cache = xitren::cache::lru<long, Value, Size, Exc>;
    auto c      = std::make_unique<cache>(Stale ? std::chrono::hours(0) : std::chrono::hours(1));
    auto value  = [](long n) {
        if constexpr (std::is_same_v<Value, std::string>)
            return std::string(40, 'v') + std::to_string(n);
        else
            return static_cast<Value>(n);
    };
    auto number = [](Value const& v) -> long {
        if constexpr (std::is_same_v<Value, std::string>) {
            MC_CHECK(v.size() > 40 && v.find_first_not_of('v') == 40, "a value that nobody stored");
            return std::stol(v.substr(40));
        } else
            return static_cast<long>(v);
    };
    auto ask = [&](long key) -> long {
        try {
            auto const g = c->get(key);
            MC_CHECK(!g || std::get<0>(*g) == key, "get(%ld) answers with key %ld", key, std::get<0>(*g));
            return g ? number(std::get<1>(*g)) : -1;
        } catch (xitren::cache::cache_timeout const&) {
            return -2;
        }
    };
    std::deque<std::pair<long, long>> start;
    for (long k = 0; k < preload; k++) {
        c->put(k, value(900 + k));
        start.emplace_front(k, 900 + k);
        if (start.size() > Size)
            start.pop_back();
    }
    struct Rec {
        Op   op;
        long answer;
        int  thread;
    };
    std::vector<Rec> recs(static_cast<std::size_t>(threads * per));
    for (auto& r : recs)
        r.op = alphabet[static_cast<std::size_t>(mc::choose(static_cast<int>(alphabet.size())))];
    auto work = [&](int t) {
        for (int i = 0; i < per; i++) {
            long const id = t * per + i;
            auto&      r  = recs[static_cast<std::size_t>(id)];
            C::event(op_begin, id);
            long a = 0;
            if (r.op.put) {
                c->put(r.op.key, value(10 * id + 10 + r.op.key));
            } else {
                a = ask(r.op.key);
            }
            C::event(op_end, id, a);
        }
    };
    {
        std::vector<std::thread> th;
        for (int t = 1; t < threads; t++)
            th.emplace_back(work, t);
        work(0);
        for (auto& t : th)
            t.join();
    }
    std::vector<lin::Span> spans(recs.size());
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == op_begin)
            spans[static_cast<std::size_t>(e.a)].begin = i;
        if (e.kind == op_end) {
            spans[static_cast<std::size_t>(e.a)].end   = i;
            recs[static_cast<std::size_t>(e.a)].answer = e.b;
        }
    }
    // what is left in it, newest entries first
    std::vector<std::pair<long, long>> left;
    for (long k = 0; k < 4; k++)
        if (long const v = ask(k); v != -1)
            left.emplace_back(k, v);
    struct M {
        std::deque<std::pair<long, long>> q;
        std::size_t n;
    };
    std::uint64_t h  = 0;
    bool const    ok = lin::linearizable(spans, M{start, recs.size()}, [&](M& m, std::size_t i) {
        auto const& r  = recs[i];
        auto        it = m.q.begin();
        while (it != m.q.end() && it->first != r.op.key)
            ++it;
        if (r.op.put) {
            if (it != m.q.end())
                m.q.erase(it);
            else if (m.q.size() >= Size)
                m.q.pop_back();
            m.q.emplace_front(r.op.key, 10 * static_cast<long>(i) + 10 + r.op.key);
        } else {
            if (r.answer != (it == m.q.end() || (Stale && !Exc) ? -1 : Stale ? -2 : it->second))
                return false;
            if (it != m.q.end() && !Stale) {
                auto e = *it;
                m.q.erase(it);
                m.q.push_front(e);
            }
        }
        if (--m.n == 0) {
            if (Stale && !Exc)
                return left.empty();
            if (m.q.size() != left.size())
                return false;
            for (auto const& l : left)
                if (std::none_of(m.q.begin(), m.q.end(), [&](auto const& e) { return e.first == l.first && (Stale ? l.second == -2 : e.second == l.second); }))
                    return false;
        }
        return true;
    });
    if (!ok) {
        char b[600];
        int  o = 0;
        for (auto const& r : recs)
            o += snprintf(b + o, sizeof b - static_cast<std::size_t>(o), " %s(%ld)->%ld", r.op.put ? "put" : "get", r.op.key, r.answer);
        mc::fail("no order of these operations explains the answers and what is left (%zu entries):%s", left.size(), b);
    }
    for (auto const& r : recs)
        h = mc::mix(h, static_cast<std::uint64_t>(r.answer));
    for (auto const& l : left)
        h = mc::mix(h, static_cast<std::uint64_t>(l.first * 1000 + l.second));
    mc::outcome(h);
}

std::vector<Op> const k2 = {{true, 0}, {true, 1}, {false, 0}, {false, 1}};
std::vector<Op> const k3 = {{true, 0}, {true, 1}, {true, 2}, {false, 0}, {false, 1}};

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, int q, int t, std::function<void()> f, char const* text) {
        Config k;
        k.name           = n;
        k.body           = std::move(f);
        k.bound_quick    = q;
        k.bound_thorough = t;
        k.what           = text;
        c.push_back(std::move(k));
    };
    add("L04-size1-2x1", 12, 12, [] { body<1>(2, 1, k2, 0); }, "capacity 1, 2 threads, 1 operation each: every choice of puts and gets");
    add("L04-size1-2x2", 4, 6, [] { body<1>(2, 2, k2, 1); }, "capacity 1, 2 threads, 2 operations each: every choice of puts and gets");
    add("L04-size2-2x1", 12, 12, [] { body<2>(2, 1, k3, 2); }, "capacity 2, 2 threads, 1 operation each: every choice of puts and gets");
    add("L04-size2-2x2", 4, 6, [] { body<2>(2, 2, k3, 2); }, "capacity 2, 2 threads, 2 operations each: every choice of puts and gets");
    add("L04-size2-3x1", 4, 6, [] { body<2>(3, 1, k3, 2); }, "capacity 2, 3 threads, 1 operation each: every choice of puts and gets");
    add("L04-size3-2x2", 3, 5, [] { body<3>(2, 2, k3, 3); }, "capacity 3, 2 threads, 2 operations each: every choice of puts and gets");
    add("L04-stale-2x2", 4, 6, [] { body<2, long, true, true>(2, 2, k3, 1); }, "every entry has expired at once, asking for it throws: capacity 2, 2 threads, 2 operations each");
    add("L04-stale-3x1", 4, 6, [] { body<2, long, true, true>(3, 1, k3, 2); }, "the same with 3 threads, 1 operation each");
    add("L04-stale-size1-2x2", 4, 6, [] { body<1, long, true, true>(2, 2, k2, 1); }, "the same with capacity 1");
    add("L04-stale-quiet-2x2", 3, 5, [] { body<2, long, false, true>(2, 2, k3, 1); }, "the same without exceptions");
    add("L04-strings-2x2", 3, 5, [] { body<2, std::string, false>(2, 2, k3, 2); }, "values that are strings: capacity 2, 2 threads, 2 operations each");
    add("L04-strings-3x1", 3, 5, [] { body<1, std::string, true>(3, 1, k2, 1); }, "values that are strings: capacity 1, 3 threads, 1 operation each");
    return c;
}
