// Observable values (V01, V02): arithmetic, mirroring, subscriptions.
#include "image.hpp"
#include "mc.hpp"

#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>

namespace v = xitren::comm::values;
using xitren::comm::observer_errors;

namespace {

enum : unsigned { V01 = 1, V02 = 2 };
unsigned what;
#define V_CHECK(mask, ...)                                                                                             \
    do {                                                                                                               \
        if (what & (mask))                                                                                             \
            MC_CHECK(__VA_ARGS__);                                                                                     \
    } while (0)

// What the mirrors were told, in order. tag: the handler that was called, 0: disconnected.
struct Told {
    int         mirror, tag;
    long double value;    // exact for all that is used here
    void const* src;
    bool operator==(Told const&) const = default;
    auto operator<=>(Told const&) const = default;
};
std::vector<Told>                  told;
std::function<void(int, int)>      on_told;    // mirror, handler
template <class T>
long double
wide(T x)
{
    return static_cast<long double>(x);
}

template <class T>
struct Mirror : v::observed<T> {
    using v::observed<T>::observed;
    int number{};
    void
    disconnect(void const* src) override
    {
        mc::image::Pause const p;
        told.push_back({number, 0, 0, src});
    }
};
std::string
text(std::vector<Told> const& t)
{
    std::string s;
    for (auto const& x : t)
        s += " " + std::to_string(x.mirror) + (x.tag ? ":" + std::to_string(x.value) + "(" + std::to_string(x.tag) + ")" : "!");
    return s.empty() ? " none" : s;
}

// `values` values share `mirrors` mirrors. Mirror k's handler changes value acts[k], if there is one.
template <class T, std::size_t Max>
struct World {
    using X = v::observable<T, Max>;
    using M = Mirror<T>;
    std::vector<std::unique_ptr<mc::image::Place<X>>> x;
    std::vector<std::unique_ptr<mc::image::Place<M>>> m;
    std::vector<int>              acts;
    std::vector<T>                now, shown;
    std::vector<std::vector<int>> in;         // who is subscribed, in this order
    std::vector<int>              handler;    // 0: none
    std::vector<Told>             want;

    World(int values, int mirrors, std::vector<int> what_they_do = {}) : acts{std::move(what_they_do)}, now(static_cast<std::size_t>(values)), shown(static_cast<std::size_t>(mirrors)),
                                                                          in(static_cast<std::size_t>(values)), handler(static_cast<std::size_t>(mirrors))
    {
        mc::image::reset();
        told.clear();
        acts.resize(static_cast<std::size_t>(mirrors), -1);
        on_told = [this](int k, int) { act(k); };
        for (int i = 0; i < values; i++) {
            x.push_back(std::make_unique<mc::image::Place<X>>(static_cast<std::size_t>(i)));
            x.back()->make();
            V_CHECK(V01, (*x.back())->value() == T{}, "a new value is not zero");
        }
        for (int i = 0; i < mirrors; i++) {
            m.push_back(std::make_unique<mc::image::Place<M>>(static_cast<std::size_t>(i)));
            if (i % 2)    // Every other one gets its handler when it is made.
                m.back()->make(std::function<void(T const)>(call(i, 1)));
            else
                m.back()->make();
            (*m.back())->number = i;
            handler[static_cast<std::size_t>(i)] = i % 2;
            V_CHECK(V01 | V02, (*m.back())->value() == T{}, "a new mirror is not zero");
        }
        V_CHECK(V01 | V02, told.empty(), "making a value or a mirror calls a handler");
    }
    ~World()
    {
        on_told = nullptr;
        x.clear();
        m.clear();
        told.clear();
    }
    auto
    call(int k, int tag)
    {
        return [k, tag](T const n) {
            mc::image::Pause const p;
            told.push_back({k, tag, static_cast<long double>(n), nullptr});
            on_told(k, tag);
        };
    }
    // The handler of mirror k has been called.
    void
    act(int k)
    {
        M& o = **m[static_cast<std::size_t>(k)];
        V_CHECK(V01 | V02, wide(o.value()) == wide(static_cast<T>(told.back().value)), "a handler is called before the mirror shows the value");
        int const to = acts[static_cast<std::size_t>(k)];
        if (to < 0)
            return;
        T const                n = o.value();
        mc::image::Scope const s;
        if (k % 2)
            **x[static_cast<std::size_t>(to)] += fed(n);
        else
            **x[static_cast<std::size_t>(to)] = static_cast<T>(fed(n));
    }
    static int fed(T n) { return n == T{} ? 1 : n == T(1) ? -1 : 0; }
    // What publishing n has to tell, in this order.
    void
    publish(std::size_t i, T n)
    {
        for (int k : in[i]) {
            auto const kk = static_cast<std::size_t>(k);
            shown[kk]     = n;
            if (!handler[kk])
                continue;
            want.push_back({k, handler[kk], static_cast<long double>(n), nullptr});
            int const to = acts[kk];
            if (to >= 0) {
                auto const t = static_cast<std::size_t>(to);
                change(t, k % 2 ? static_cast<T>(now[t] + static_cast<T>(fed(n))) : static_cast<T>(fed(n)));
            }
        }
    }
    void
    change(std::size_t i, T n)
    {
        now[i] = n;
        publish(i, n);
    }
    void
    check(char const* how)
    {
        // V02: who is told what, how often; V01: in which order.
        V_CHECK(V01, told == want, "%s tells the mirrors%s, instead of%s", how, text(told).c_str(), text(want).c_str());
        if (what & V02) {
            auto a = told, b = want;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            V_CHECK(V02, a == b, "%s tells the mirrors%s, instead of%s", how, text(told).c_str(), text(want).c_str());
        }
        for (std::size_t k = 0; k < m.size(); k++)
            V_CHECK(V01 | V02, wide((*m[k])->value()) == wide(shown[k]), "%s: mirror %zu shows %Lg, not %Lg", how, k, wide((*m[k])->value()), wide(shown[k]));
        for (std::size_t i = 0; i < x.size(); i++)
            V_CHECK(V01 | V02, wide((*x[i])->value()) == wide(now[i]), "%s: the value is %Lg, not %Lg", how, wide((*x[i])->value()), wide(now[i]));
        told.clear();
        want.clear();
    }

    void
    subscribe(std::size_t i, int k)
    {
        mc::step();
        mc::note("mirror %d subscribes to %zu", k, i);
        observer_errors e;
        {
            mc::image::Scope const s;
            e = (*x[i])->add_observer(**m[static_cast<std::size_t>(k)]);
        }
        bool const full = Max && in[i].size() >= Max, there = std::find(in[i].begin(), in[i].end(), k) != in[i].end();
        if (full || there)
            V_CHECK(V02, (full && e == observer_errors::list_is_full) || (there && e == observer_errors::already_contains),
                    "a subscription that is not possible is answered with %d", static_cast<int>(e));
        else {
            V_CHECK(V01 | V02, e == observer_errors::ok, "a subscription is answered with %d", static_cast<int>(e));
            in[i].push_back(k);
        }
        check("subscribing");
    }
    void
    leave(std::size_t i, int k)
    {
        mc::step();
        mc::note("mirror %d leaves %zu", k, i);
        bool const      there = std::find(in[i].begin(), in[i].end(), k) != in[i].end();
        observer_errors e;
        {
            mc::image::Scope const s;
            e = (*x[i])->remove_observer(**m[static_cast<std::size_t>(k)]);
        }
        V_CHECK(V02, e == (there ? observer_errors::ok : observer_errors::not_found), "leaving is answered with %d", static_cast<int>(e));
        std::erase(in[i], k);
        check("leaving");
    }
    void
    tell(std::size_t i, T n)
    {
        mc::step();
        mc::note("value %zu tells %Lg without changing", i, wide(n));
        publish(i, n);
        observer_errors e;
        {
            mc::image::Scope const s;
            e = (*x[i])->notify_observers(n);
        }
        V_CHECK(V01 | V02, e == observer_errors::ok, "a notification is answered with %d", static_cast<int>(e));
        check("telling");
    }
    void
    drop(std::size_t i)
    {
        for (int k : in[i])
            want.push_back({k, 0, 0, &**x[i]});
        in[i].clear();
    }
    void
    clear(std::size_t i)
    {
        mc::step();
        mc::note("value %zu is cleared", i);
        drop(i);
        {
            mc::image::Scope const s;
            (*x[i])->clear_observers();
        }
        check("clearing");
    }
    void
    renew(std::size_t i)
    {
        mc::step();
        mc::note("value %zu is destroyed, and made again", i);
        drop(i);
        x[i]->reset();
        x[i]->make();
        now[i] = T{};
        check("destruction");
    }
    // Handler 0 is none.
    void
    handle(int k, int tag)
    {
        mc::step();
        mc::note("mirror %d gets handler %d", k, tag);
        {
            mc::image::Scope const s;
            if (tag)
                (*m[static_cast<std::size_t>(k)])->on_update(call(k, tag));
            else
                (*m[static_cast<std::size_t>(k)])->on_update(nullptr);
        }
        handler[static_cast<std::size_t>(k)] = tag;
        check("replacing a handler");
    }
    // Operation c; its operand is n (assignment) or b (additions).
    void
    operate(std::size_t i, int c, T n, int b)
    {
        mc::step();
        char const* const names[] = {"=", "++x", "x++", "--x", "x--", "+=", "-="};
        mc::note("value %zu: %s (%Lg, %d)", i, names[c], wide(n), b);
        T const was = now[i];
        T const to  = result(i, c, n, b);
        T       got{};
        want.clear();
        change(i, to);
        T const back = c == 2 || c == 4 ? was : to;
        {
            mc::image::Scope const s;
            X&                     y = **x[i];
            switch (c) {
            case 0: got = y = n; break;
            case 1: got = ++y; break;
            case 2: got = y++; break;
            case 3: got = --y; break;
            case 4: got = y--; break;
            case 5: got = y += b; break;
            default: got = y -= b; break;
            }
        }
        V_CHECK(V01, got == back, "%s returns %Lg, not %Lg", names[c], wide(got), wide(back));
        check(names[c]);
    }
    T
    result(std::size_t i, int c, T n, int b) const
    {
        T const was = now[i];
        switch (c) {
        case 0: return n;
        case 1: case 2: return static_cast<T>(was + 1);
        case 3: case 4: return static_cast<T>(was - 1);
        case 5: return static_cast<T>(was + static_cast<T>(b));
        default: return static_cast<T>(was - static_cast<T>(b));
        }
    }
    // How much the operation adds.
    static long double
    adds(int c, int b)
    {
        return c == 0 ? 0 : c <= 2 ? 1 : c <= 4 ? -1 : c == 5 ? b : -static_cast<long double>(b);
    }
    std::uint64_t
    hash() const
    {
        std::uint64_t h = mc::image::canonical();
        for (std::size_t i = 0; i < x.size(); i++) {
            h = mc::hash_bytes(&now[i], sizeof now[i], h);
            for (int k : in[i])
                h = mc::mix(h, static_cast<std::uint64_t>(k) + 1);
        }
        for (std::size_t k = 0; k < m.size(); k++) {
            h = mc::hash_bytes(&shown[k], sizeof shown[k], mc::mix(h, static_cast<std::uint64_t>(handler[k])));
        }
        return h;
    }
};

// The operands whose size is an edge for some type.
inline std::vector<int>
operands()
{
    std::vector<int> v{0, 1, 2, 3, -1, -2, -3, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), std::numeric_limits<int>::min() + 1};
    for (int b : {7, 8, 15, 16, 24, 30})
        for (int n : {(1 << b) - 1, 1 << b, (1 << b) + 1})
            v.insert(v.end(), {n, -n});
    return v;
}
// The numbers of the type that are an edge for some type.
template <class T>
std::vector<T>
edges()
{
    using L = std::numeric_limits<T>;
    std::vector<T> v{0, L::max()};
    if (L::min() != 0)
        v.push_back(L::min());
    for (int b : {7, 8, 15, 16, 24, 31, 32, 53, 63}) {
        long double const n = ldexpl(1.0L, b);
        for (long double const x : {n, -n})
            if (x > static_cast<long double>(L::min()) && x < static_cast<long double>(L::max()))
                v.push_back(static_cast<T>(x));
    }
    return v;
}

// All operations with all operands, from all values that can be reached within `low` .. `high` around each of the
// start values (everything, for small types).
template <class T, std::size_t Max, int Mirrors>
void
arithmetic(std::vector<T> const& start, std::vector<int> const& by, long double window)
{
    World<T, Max> w{1, Mirrors};
    for (int k = 0; k < Mirrors; k++)
        w.subscribe(0, k);
    for (;;) {
        int const n_by = static_cast<int>(by.size()), n_start = static_cast<int>(start.size());
        int const k    = mc::choose(n_start + 4 + 2 * n_by);
        int const c    = k < n_start ? 0 : k < n_start + 4 ? k - n_start + 1 : k < n_start + 4 + n_by ? 5 : 6;
        T const   n    = c == 0 ? start[static_cast<std::size_t>(k)] : T{};
        int const b    = c >= 5 ? by[static_cast<std::size_t>((k - n_start - 4) % n_by)] : 0;
        if (c) {
            long double const to = wide(w.now[0]) + w.adds(c, b);
            if (window > 0) {
                bool near = false;
                for (T s : start)
                    near = near || (to >= wide(s) - window && to <= wide(s) + window);
                if (!near)
                    return;
            }
            // signed overflow of the types that are not promoted, in the value returned, is the user's
            if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int))
                if (to < wide(std::numeric_limits<T>::min()) + 1 || to > wide(std::numeric_limits<T>::max()) - 1)
                    return;
        }
        w.operate(0, c, n, b);
        if (mc::visit(w.hash(), 0))
            return;
    }
}

// Subscribing, leaving, clearing, destroying, changing handlers, and all operations on small numbers.
template <class T, std::size_t Max>
void
sequences(int values, int mirrors, int handlers, std::vector<int> const& acts = {}, unsigned depth = 0)
{
    World<T, Max> w{values, mirrors, acts};
    // assigning 0, 1, 2, the increments, adding and subtracting 2, telling, clearing, destroying
    constexpr int n_ops = 3 + 4 + 2 + 1 + 2;
    int const     per   = 2 * mirrors + n_ops;
    for (unsigned d = 0; !depth || d < depth; d++) {
        int const c = mc::choose(per * values + mirrors * handlers);
        if (c >= per * values) {
            int const k = (c - per * values) / handlers, tag = (c - per * values) % handlers;
            w.handle(k, tag);
        } else {
            auto const i = static_cast<std::size_t>(c / per);
            int        o = c % per;
            if (o < mirrors) {
                if (w.acts[static_cast<std::size_t>(o)] == static_cast<int>(i))
                    return;    // no circles
                w.subscribe(i, o);
            }
            else if ((o -= mirrors) < mirrors)
                w.leave(i, o);
            else if ((o -= mirrors) < 9) {
                int const op = o < 3 ? 0 : o < 7 ? o - 2 : o - 2;
                T const   n  = static_cast<T>(o < 3 ? o : 0);
                if (what == V02 && op == 0 && n == w.now[i])
                    return;    // whether that is a change, V01 says
                long double const to = op ? wide(w.now[i]) + w.adds(op, 2) : wide(n);
                if (to < (std::is_signed_v<T> ? -1 : 0) || to > 2)
                    return;
                w.operate(i, op, n, 2);
            } else if (o == 9)
                w.tell(i, T(2));
            else if (o == 10)
                w.clear(i);
            else
                w.renew(i);
        }
        // values that feed each other are kept small
        for (T n : w.now)
            if (wide(n) < -2 || wide(n) > 3)
                return;
        if (depth)
            mc::state(w.hash());
        else if (mc::visit(w.hash(), 0))
            return;
    }
}

// Lists of up to `n` mirrors, long ones: filled up to some length, thinned, told, filled up again.
template <class T, std::size_t Max>
void
many(int n, int rounds = 1)
{
    World<T, Max> w{1, n};
    int const     lengths[]{n, n - 1, n / 2, 129, 128, 127};
    int const     m = lengths[mc::choose(n > 129 ? 6 : 3)];
    for (int k = 0; k < m; k++)
        w.subscribe(0, k);
    w.operate(0, 0, T(7), 0);
    int const at[]{0, 1, m / 2, m - 2, m - 1, n - 1};
    for (int round = 0; round < rounds; round++) {
        int const c = mc::choose(10);
        if (c < 6)
            w.leave(0, at[c]);
        else if (c < 8)
            for (int k = c - 6; k < n; k += 2)
                w.leave(0, k);
        else if (c == 8)
            w.clear(0);
        else
            for (int k = m; k--;)
                w.leave(0, k);
        w.operate(0, 5, T{}, 3);
        int const d = mc::choose(6);
        if (d == 0)
            for (int k = n; k--;)
                w.subscribe(0, k);
        else if (d < 5)
            w.subscribe(0, at[d]);
        w.operate(0, 1, T{}, 0);
        mc::state(w.hash());
    }
    if (mc::choose(2))
        w.clear(0);
    w.operate(0, 4, T{}, 0);
}

// A value that has been in use for long: one of a few cycles many times over, then any operation.
template <class T, std::size_t Max>
void
worn()
{
    World<T, Max> w{1, 4};
    int const     cycle = mc::choose(6);
    long const    times = std::vector<long>{253, 65533}[static_cast<std::size_t>(mc::choose(2))];
    w.subscribe(0, 0);
    w.subscribe(0, 1);
    for (long i = 0; i < times; i++)
        switch (cycle) {
        case 0: w.operate(0, 0, static_cast<T>(i), 0); break;
        case 1: w.operate(0, 2, T{}, 0); break;
        case 2:
            w.operate(0, 5, T{}, 3);
            w.operate(0, 3, T{}, 0);
            break;
        case 3:
            w.subscribe(0, 2);
            w.leave(0, 2);
            break;
        case 4:
            w.clear(0);
            w.subscribe(0, static_cast<int>(i % 4));
            break;
        default: w.handle(static_cast<int>(i % 4), static_cast<int>(i / 4 % 3));
        }
    int const c = mc::choose(8 + 7);
    if (c < 4)
        w.subscribe(0, c);
    else if (c < 8)
        w.leave(0, c - 4);
    else
        w.operate(0, c - 8, T(5), 4);
    w.operate(0, 0, T(9), 0);
    w.operate(0, 1, T{}, 0);
    mc::state(w.hash());
    w.renew(0);
}

// Value 0 feeds value 1, which feeds value 2; each has a further mirror behind (0, 2) or before (1) the feeding one.
template <class T, std::size_t Max>
void
chain()
{
    World<T, Max> w{3, 6, {1, -1, -1, 2, -1, -1}};
    w.handle(0, 2);
    w.handle(3, 1);
    w.handle(4, 1);
    w.subscribe(0, 0);
    w.subscribe(0, 1);
    w.subscribe(1, 2);
    w.subscribe(1, 3);
    w.subscribe(2, 4);
    w.subscribe(2, 5);
    for (;;) {
        int const         c = mc::choose(3 * 9);
        auto const        i = static_cast<std::size_t>(c / 9);
        int const         o = c % 9, op = o < 3 ? 0 : o - 2;
        T const           n = static_cast<T>(o < 3 ? o : 0);
        long double const to = op ? wide(w.now[i]) + w.adds(op, 2) : wide(n);
        if (to < -2 || to > 3)
            return;
        w.operate(i, op, n, 2);
        for (T y : w.now)
            if (wide(y) < -3 || wide(y) > 4)
                return;
        if (mc::visit(w.hash(), 0))
            return;
    }
}

// Mirrors come and go from within the handlers of others (or their own) and from within disconnections, and handlers
// change the other value. A change is for those that are subscribed when it is made, in that order; those that leave
// before it is their turn are not told any more.
template <class T, std::size_t Max>
struct Changing {
    using X = v::observable<T, Max>;
    struct Actor : v::observed<T> {
        using v::observed<T>::observed;
        int       k{};
        Changing* w{};
        void
        disconnect(void const* src) override
        {
            mc::image::Pause const p;
            w->disconnected(k, src);
        }
    };
    struct Walk {
        int              of;
        bool             clearing;
        T                value;
        std::vector<int> due;
    };
    std::vector<std::unique_ptr<mc::image::Place<X>>>     x;
    std::vector<std::unique_ptr<mc::image::Place<Actor>>> a;
    std::vector<std::vector<int>>                         in;
    std::vector<T>                                        shown;
    std::vector<Walk>                                     walks;
    int                                                   budget{0};
    T                                                     next{3};
    std::uint64_t                                         h{1};

    Changing(int values, int n) : in(static_cast<std::size_t>(values)), shown(static_cast<std::size_t>(n))
    {
        for (int i = 0; i < values; i++) {
            x.push_back(std::make_unique<mc::image::Place<X>>(static_cast<std::size_t>(i)));
            x.back()->make();
        }
        for (int k = 0; k < n; k++) {
            a.push_back(std::make_unique<mc::image::Place<Actor>>(static_cast<std::size_t>(k)));
            a.back()->make(std::function<void(T const)>([this, k](T const y) {
                mc::image::Pause const p;
                told(k, y);
            }));
            (*a.back())->k = k;
            (*a.back())->w = this;
        }
    }
    ~Changing()
    {
        x.clear();
        a.clear();
    }
    X&   val(int i) { return **x[static_cast<std::size_t>(i)]; }
    auto& mirror(int k) { return **a[static_cast<std::size_t>(k)]; }
    auto& of(int i) { return in[static_cast<std::size_t>(i)]; }
    bool  has(int i, int k) { return std::find(of(i).begin(), of(i).end(), k) != of(i).end(); }
    bool
    turn(int k, bool clearing)
    {
        V_CHECK(V01 | V02, !walks.empty() && walks.back().clearing == clearing, "mirror %d is %s for nothing", k, clearing ? "disconnected" : "told");
        if (walks.empty() || walks.back().clearing != clearing)
            return false;
        auto& w = walks.back();
        V_CHECK(V01 | V02, !w.due.empty() && w.due[0] == k, "mirror %d is %s again, out of turn or after it has left", k, clearing ? "disconnected" : "told");
        if (w.due.empty() || w.due[0] != k)
            return false;
        w.due.erase(w.due.begin());
        return true;
    }
    void
    told(int k, T y)
    {
        if (!turn(k, false))
            return;
        auto const& w = walks.back();
        V_CHECK(V01 | V02, wide(y) == wide(w.value), "mirror %d is told %Lg instead of %Lg", k, wide(y), wide(w.value));
        V_CHECK(V01 | V02, wide(mirror(k).value()) == wide(w.value), "mirror %d shows %Lg instead of %Lg", k, wide(mirror(k).value()), wide(w.value));
        shown[static_cast<std::size_t>(k)] = w.value;
        act(false);
    }
    void
    disconnected(int k, void const* src)
    {
        if (!turn(k, true))
            return;
        V_CHECK(V02, src == static_cast<void const*>(&val(walks.back().of)), "mirror %d is disconnected by another one", k);
        act(true);
    }
    void
    act(bool clearing)
    {
        if (!budget)
            return;
        int const n = static_cast<int>(a.size()), v = static_cast<int>(x.size());
        int const c = mc::choose(1 + v * (2 * n + 2));
        h           = mc::mix(h, static_cast<std::uint64_t>(c));
        if (!c)
            return;
        int const  i = (c - 1) / (2 * n + 2), o = (c - 1) % (2 * n + 2);
        bool       busy = false, wiped = false;
        for (auto const& w : walks) {
            busy  = busy || w.of == i;
            wiped = wiped || (w.of == i && w.clearing);
        }
        (void)clearing;
        if (o >= n && wiped)
            return;    // who subscribes to a value that is just being cleared may stay or not
        if (o == 2 * n + 1 && busy)
            return;    // no circles
        budget--;
        if (o < n)
            leave(i, o);
        else if (o < 2 * n)
            subscribe(i, o - n);
        else if (o == 2 * n)
            clear(i, false);
        else
            change(i);
    }
    void
    subscribe(int i, int k)
    {
        mc::step();
        mc::note("mirror %d subscribes to %d%s", k, i, walks.empty() ? "" : " from within");
        observer_errors e;
        {
            mc::image::Scope const s;
            e = val(i).add_observer(mirror(k));
        }
        bool const ok = !(Max && of(i).size() >= Max) && !has(i, k);
        V_CHECK(V02, (e == observer_errors::ok) == ok, "a subscription is answered with %d", static_cast<int>(e));
        if (ok)
            of(i).push_back(k);
    }
    void
    leave(int i, int k)
    {
        mc::step();
        mc::note("mirror %d leaves %d%s", k, i, walks.empty() ? "" : " from within");
        observer_errors e;
        {
            mc::image::Scope const s;
            e = val(i).remove_observer(mirror(k));
        }
        V_CHECK(V02, (e == observer_errors::ok) == has(i, k), "leaving is answered with %d", static_cast<int>(e));
        std::erase(of(i), k);
        for (auto& w : walks)
            if (w.of == i)
                std::erase(w.due, k);
    }
    void
    done(char const* how)
    {
        V_CHECK(V01 | V02, walks.back().due.empty(), "mirror %d is there all the time and is not %s", walks.back().due[0], how);
        walks.pop_back();
        for (std::size_t k = 0; walks.empty() && k < a.size(); k++)
            V_CHECK(V01 | V02, wide((*a[k])->value()) == wide(shown[k]), "mirror %zu shows %Lg, not %Lg", k, wide((*a[k])->value()), wide(shown[k]));
    }
    void
    change(int i)
    {
        mc::step();
        T const y = next;
        next      = static_cast<T>(next + 1);
        mc::note("value %d becomes %Lg%s", i, wide(y), walks.empty() ? "" : " from within");
        walks.push_back({i, false, y, of(i)});
        T back;
        {
            mc::image::Scope const s;
            back = val(i) = y;
        }
        V_CHECK(V01 | V02, wide(back) == wide(y) && wide(val(i).value()) == wide(y), "value %d is %Lg instead of %Lg", i, wide(val(i).value()), wide(y));
        done("told");
    }
    void
    clear(int i, bool destroy)
    {
        mc::step();
        mc::note("value %d is %s%s", i, destroy ? "destroyed" : "cleared", walks.empty() ? "" : " from within");
        walks.push_back({i, true, T{}, of(i)});
        if (destroy)
            x[static_cast<std::size_t>(i)]->reset();
        else {
            mc::image::Scope const s;
            val(i).clear_observers();
        }
        done("disconnected");
        of(i).clear();
        for (auto& w : walks)
            if (w.of == i)
                w.due.clear();
        if (destroy)
            x[static_cast<std::size_t>(i)]->make();
    }
};
template <class T, std::size_t Max>
void
changing(int values, int n, int budget)
{
    mc::image::reset();
    Changing<T, Max> w{values, n};
    int const        first = mc::choose(n + 1);
    for (int i = 0; i < values; i++)
        for (int k = 0; k < first; k++)
            w.subscribe(i, i % 2 ? first - 1 - k : k);
    w.budget = budget;
    switch (mc::choose(3)) {
    case 0: w.change(0); break;
    case 1: w.clear(0, false); break;
    default: w.clear(0, true); break;
    }
    w.budget = 0;
    for (int i = 0; i < values; i++)
        w.change(i);
    for (int i = 0; i < values; i++) {
        for (int k = 0; k < n; k++)
            w.subscribe(i, k);
        w.change(i);
        w.clear(i, true);
    }
    mc::state(w.h);
    mc::outcome(w.h);
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, std::function<void()> f, char const* t, bool late = false, bool closure = true) {
        for (unsigned i = 0; i < 2; i++)
            if (mask >> i & 1) {
                Config k;
                k.name          = std::string("V0") + static_cast<char>('1' + i) + "-" + n;
                k.what          = t;
                k.closure       = closure;
                k.thorough_only = late;
                k.body          = [f, i] {
                    what = 1u << i;
                    f();
                };
                c.push_back(std::move(k));
            }
    };
#define ARITHMETIC(name, T, window, late, text, ...)                                                                   \
    add(V01, name "-fixed", [] { arithmetic<T, 2, 2>(__VA_ARGS__, window); }, text, late);                             \
    add(V01, name "-dynamic", [] { arithmetic<T, 0, 3>(__VA_ARGS__, window); }, text, late)
#define LIST(...) {__VA_ARGS__}
    char const* const every = "every value of the type, every operation with several operands";
    char const* const near  = "every value near several numbers, the largest and smallest included, every operation with several operands";
    ARITHMETIC("byte", unsigned char, 0, false, every, LIST(0, 1, 255), LIST(0, 1, 3, -2, 127, 128, -128, 255, 256, 300, -1000, 70000));
    ARITHMETIC("char", signed char, 0, false, every, LIST(0, -1, 127, -128), LIST(0, 1, 3, -2, 127, 128, -128, 255, 256, 300, -1000, 70000));
    ARITHMETIC("short", short, 0, false, every, LIST(0, -1, 32767, -32768, 16384, -16384), LIST(1, 3, -2, 100, 1000, 32768, -4000, 70000));
    ARITHMETIC("word", unsigned short, 0, false, every, LIST(0, 1, 65535, 32768), LIST(1, 3, -2, 100, 1000, 32768, -4000, 70000));
    ARITHMETIC("shorts", short, 12, false, near, edges<short>(), operands());
    ARITHMETIC("words", unsigned short, 12, false, near, edges<unsigned short>(), operands());
    ARITHMETIC("int", int, 12, false, near, edges<int>(), operands());
    ARITHMETIC("unsigned", unsigned, 12, false, near, edges<unsigned>(), operands());
    ARITHMETIC("long", long long, 12, false, near, edges<long long>(), operands());
    ARITHMETIC("size", unsigned long, 12, false, near, edges<unsigned long>(), operands());
    ARITHMETIC("float", float, 6, false, near, LIST(0.f, 0.5f, -1.25f, 1024.25f, 2147483648.f), LIST(0, 1, 3, -2, 1024, -2147483647 - 1));
    ARITHMETIC("double", double, 6, false, near, LIST(0., 0.5, -1.25, 1048576.125, 2147483648.), LIST(0, 1, 3, -2, 1048576, -2147483647 - 1));
    add(V01, "none", [] { arithmetic<int, 4, 0>({0, 7}, {1, -3, 0}, 6); }, "without mirrors");

    char const* const seq = "any number of subscriptions, ends of them, operations, clearings, destructions";
    add(V01 | V02, "fixed-1", [] { sequences<int, 1>(1, 2, 3); }, seq);
    add(V01 | V02, "fixed-2", [] { sequences<int, 2>(1, 3, 2); }, seq);
    add(V02, "fixed-3", [] { sequences<int, 3>(1, 4, 0); }, seq);
    add(V02, "fixed-8", [] { sequences<int, 8>(1, 3, 0); }, seq);
    add(V01 | V02, "fixed-two", [] { sequences<int, 2>(2, 2, 0); }, "two values that share two mirrors");
    add(V01 | V02, "fixed-two-3", [] { sequences<int, 2>(2, 3, 0); }, "two values that share three mirrors", true);
    add(V02, "fixed-long", [] { sequences<long long, 2>(1, 2, 3); }, seq);
    add(V02, "fixed-byte", [] { sequences<unsigned char, 2>(1, 3, 0); }, seq);
    add(V01 | V02, "dynamic-2", [] { sequences<int, 0>(1, 2, 3); }, seq);
    add(V02, "dynamic-3", [] { sequences<int, 0>(1, 3, 2); }, seq);
    add(V01 | V02, "dynamic-4", [] { sequences<int, 0>(1, 4, 0); }, seq, true);
    add(V01 | V02, "dynamic-two", [] { sequences<int, 0>(2, 2, 0); }, "two values that share two mirrors");
    add(V01 | V02, "dynamic-two-3", [] { sequences<int, 0>(2, 3, 0); }, "two values that share three mirrors", true);
    add(V01, "feed-fixed", [] { sequences<int, 2>(2, 2, 0, {-1, 1}); }, "two values, a mirror's handler changes the second one");
    add(V01, "feed-dynamic", [] { sequences<int, 0>(2, 2, 0, {-1, 1}); }, "two values, a mirror's handler changes the second one");
    add(V01, "feed-3", [] { chain<int, 3>(); }, "three values, the first changes the second, and that the third");
    add(V01, "feed-3-dynamic", [] { chain<long long, 0>(); }, "three values, the first changes the second, and that the third");
    char const* const long_ = "many mirrors: filled up to several lengths, thinned in many ways and filled up again";
    char const* const worn_ = "one of six cycles of operations 253 or 65533 times over, then any operation";
    add(V01 | V02, "fixed-worn", [] { worn<int, 3>(); }, worn_, false, false);
    add(V01 | V02, "dynamic-worn", [] { worn<long long, 0>(); }, worn_, false, false);
    char const* const within_ = "from within handlers and disconnections, mirrors come, go, clear, and the other value changes in every way";
    add(V01 | V02, "fixed-within", [] { changing<int, 3>(1, 3, 3); }, within_, false, false);
    add(V02, "fixed-within-4", [] { changing<int, 3>(1, 4, 2); }, within_, false, false);
    add(V02, "fixed-within-two", [] { changing<int, 3>(2, 3, 2); }, within_, false, false);
    add(V01 | V02, "dynamic-within", [] { changing<int, 0>(1, 3, 3); }, within_, false, false);
    add(V02, "dynamic-within-5", [] { changing<int, 0>(1, 5, 2); }, within_, false, false);
    add(V02, "dynamic-within-two", [] { changing<int, 0>(2, 3, 2); }, within_, false, false);
    add(V02, "fixed-within-two-long", [] { changing<int, 3>(2, 2, 3); }, within_, true, false);
    add(V02, "dynamic-within-two-long", [] { changing<int, 0>(2, 2, 3); }, within_, true, false);
    add(V02, "fixed-20", [] { many<int, 20>(21, 2); }, long_, false, false);
    add(V01 | V02, "fixed-256", [] { many<int, 256>(257); }, long_, false, false);
    add(V02, "fixed-300", [] { many<long long, 300>(301); }, long_, false, false);
    add(V02, "dynamic-20", [] { many<int, 0>(20, 2); }, long_, false, false);
    add(V01 | V02, "dynamic-300", [] { many<int, 0>(300); }, long_, false, false);
    char const* const own = "every sequence of some length on its own, whatever may be remembered outside the values";
    add(V01 | V02, "plain-fixed", [] { sequences<int, 2>(1, 2, 0, {}, 5); }, own, false, false);
    add(V01 | V02, "plain-fixed-two", [] { sequences<int, 2>(2, 1, 0, {}, 4); }, own, false, false);
    add(V01 | V02, "plain-dynamic", [] { sequences<int, 0>(1, 2, 0, {}, 5); }, own, false, false);
    add(V01 | V02, "plain-dynamic-two", [] { sequences<int, 0>(2, 1, 0, {}, 4); }, own, false, false);
    return c;
}
