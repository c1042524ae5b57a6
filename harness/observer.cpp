// Observables, fixed and dynamic (O01 .. O04): all sequences of subscriptions and notifications.
#include "image.hpp"
#include "mc.hpp"

#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <xitren/comm/observer.hpp>

using namespace xitren::comm;

namespace {

enum : unsigned { O01 = 1, O02 = 2, O03 = 4, O04 = 8 };
unsigned what;
#define O_CHECK(mask, ...)                                                                                             \
    do {                                                                                                               \
        if (what & (mask))                                                                                             \
            MC_CHECK(__VA_ARGS__);                                                                                     \
    } while (0)

// What an observer is called with.
struct Call {
    int         observer;
    bool        gone;       // disconnect, not data
    void const* src;
    std::string value;
    bool operator==(Call const&) const = default;
};
std::vector<Call> calls;
std::function<void(int)> on_data;    // what an observer does when it is told something

struct Watcher : observer<std::string> {
    int number{};
    void
    data(void const* src, std::string const& x) override
    {
        mc::image::Pause const p;
        calls.push_back({number, false, src, x});
        if (on_data)
            on_data(number);
    }
    void
    disconnect(void const* src) override
    {
        mc::image::Pause const p;
        calls.push_back({number, true, src, ""});
    }
};

// The answers of both kinds as an error code.
template <class S, class W>
observer_errors
add(S& s, W& w)
{
    mc::image::Scope const in_it;
    if constexpr (std::is_void_v<decltype(s.add_observer(w))>) {
        try {
            s.add_observer(w);
        } catch (typename S::exception const& e) {
            return e.error;
        }
        return observer_errors::ok;
    } else {
        return s.add_observer(w);
    }
}
template <class S, class W>
observer_errors
take(S& s, W& w)
{
    mc::image::Scope const in_it;
    if constexpr (std::is_void_v<decltype(s.remove_observer(w))>) {
        try {
            s.remove_observer(w);
        } catch (typename S::exception const& e) {
            return e.error;
        }
        return observer_errors::ok;
    } else {
        return s.remove_observer(w);
    }
}
template <class S, class T>
observer_errors
tell(S& s, T const& x)
{
    mc::image::Scope const in_it;
    if constexpr (std::is_void_v<decltype(s.notify_observers(x))>) {
        s.notify_observers(x);
        return observer_errors::ok;
    } else {
        return s.notify_observers(x);
    }
}

// `Subjects` observables share `n` observers. Max 0: the dynamic kind.
template <class S, std::size_t Max>
struct World {
    std::vector<std::unique_ptr<mc::image::Place<S>>> s;
    std::vector<Watcher*>                 w;
    std::vector<std::vector<char>>        in;
    std::vector<std::vector<int>>         order;   // of those that are in
    unsigned                              list;    // O01 or O02
    std::vector<int>                      acts;    // the subject that each observer notifies when it is told something, or -1
    std::vector<char>                     busy;    // subjects that are notifying
    int                                   next{0}, depth{0};
    bool                                  faulty{false};   // whether memory may run out

    World(int subjects, int watchers, std::vector<int> what_they_do = {}) : list{Max ? O01 : O02}, acts{std::move(what_they_do)}
    {
        acts.resize(static_cast<std::size_t>(watchers), -1);
        busy.assign(static_cast<std::size_t>(subjects), 0);
        on_data = nullptr;
        if (std::any_of(acts.begin(), acts.end(), [](int a) { return a >= 0; }))
            on_data = [this](int k) { act(k); };
        static Watcher all[320];    // at the same addresses in every execution
        mc::image::reset();
        for (int i = 0; i < subjects; i++) {
            s.push_back(std::make_unique<mc::image::Place<S>>(static_cast<std::size_t>(i)));
            s.back()->make();
        }
        for (int i = 0; i < watchers; i++) {
            w.push_back(&all[i]);
            w.back()->number = i;
        }
        in.assign(s.size(), std::vector<char>(w.size(), 0));
        order.resize(s.size());
        calls.clear();
    }
    ~World()
    {
        on_data = nullptr;
        s.clear();
        calls.clear();
    }
    // A notification from within one.
    void
    act(int k)
    {
        int const to = acts[static_cast<std::size_t>(k)];
        if (to < 0 || depth >= 3)
            return;
        auto const        t = static_cast<std::size_t>(to);
        std::string const x = "from within, " + std::to_string(k);
        bool const        was = busy[t];
        std::size_t const n   = calls.size();
        busy[t] = 1;
        depth++;
        auto const e = tell(**s[t], x);
        depth--;
        busy[t] = was;
        if (Max && was) {
            O_CHECK(O04, e == observer_errors::notify_recursion_detected, "a notification from within one of the same subject is answered with %d", static_cast<int>(e));
            O_CHECK(O04, calls.size() == n, "a notification from within one of the same subject reaches an observer");
        } else {
            O_CHECK(O04, e == observer_errors::ok, "a notification that is not recursive is answered with %d", static_cast<int>(e));
        }
    }
    // What has to be told, in this order.
    void
    expect(std::vector<Call>& v, std::size_t i, std::string const& x, std::vector<char>& b, int deep)
    {
        if (Max && b[i])
            return;
        char const was = b[i];
        b[i] = 1;
        for (int k : order[i]) {
            v.push_back({k, false, &**s[i], x});
            int const to = acts[static_cast<std::size_t>(k)];
            if (to >= 0 && deep < 3)
                expect(v, static_cast<std::size_t>(to), "from within, " + std::to_string(k), b, deep + 1);
        }
        b[i] = was;
    }

    std::size_t
    count(std::size_t i) const
    {
        std::size_t n = 0;
        for (char c : in[i])
            n += c != 0;
        return n;
    }
    void
    silent(char const* when)
    {
        for (auto const& c : calls) {
            O_CHECK(list, c.gone, "%s calls an observer with data", when);
            O_CHECK(O03, !c.gone, "%s disconnects an observer", when);
        }
        calls.clear();
    }
    void
    subscribe(std::size_t i, std::size_t k)
    {
        mc::step();
        mc::note("observer %zu subscribes to %zu", k, i);
        observer_errors e;
        try {
            mc::image::faults = faulty;
            mc::image::failed = false;
            e                 = add(**s[i], *w[k]);
            mc::image::faults = false;
        } catch (std::bad_alloc const&) {
            mc::image::faults = false;
            mc::note("no memory");
            O_CHECK(list, mc::image::failed, "a subscription fails for want of memory that is there");
            silent("a subscription that fails");
            return;
        }
        bool const full = Max && count(i) >= Max;
        if (full || in[i][k]) {
            O_CHECK(list, e != observer_errors::ok, "a subscription is accepted although %s", full ? "the list is full" : "the observer is subscribed");
            if (!full)
                O_CHECK(list, e == observer_errors::already_contains, "a second subscription is answered with %d", static_cast<int>(e));
            if (!in[i][k])
                O_CHECK(list, e == observer_errors::list_is_full, "a subscription to a full list is answered with %d", static_cast<int>(e));
        } else {
            O_CHECK(list, e == observer_errors::ok, "a subscription is refused (%d)", static_cast<int>(e));
            in[i][k] = 1;
            order[i].push_back(static_cast<int>(k));
        }
        silent("subscribing");
    }
    void
    leave(std::size_t i, std::size_t k)
    {
        mc::step();
        mc::note("observer %zu leaves %zu", k, i);
        auto const e = take(**s[i], *w[k]);
        if (in[i][k])
            O_CHECK(list, e == observer_errors::ok, "a subscription cannot be ended (%d)", static_cast<int>(e));
        else
            O_CHECK(list, e == observer_errors::not_found, "ending a subscription that is not there is answered with %d", static_cast<int>(e));
        in[i][k] = 0;
        std::erase(order[i], static_cast<int>(k));
        silent("leaving");
    }
    void
    notify(std::size_t i)
    {
        mc::step();
        std::string const x = "notification number " + std::to_string(next);
        next = (next + 1) % 2;
        mc::note("subject %zu: %s", i, x.c_str());
        std::vector<Call> want;
        std::vector<char> b = busy;
        expect(want, i, x, b, 0);
        busy[i]      = 1;
        auto const e = tell(**s[i], x);
        busy[i]      = 0;
        O_CHECK(list | O04, e == observer_errors::ok, "a notification is answered with %d", static_cast<int>(e));
        for (auto const& c : calls)
            O_CHECK(O03, !c.gone, "a notification disconnects an observer");
        std::vector<int> n(w.size(), 0), seen, order_wanted;
        for (auto const& c : calls)
            seen.push_back(c.observer);
        for (auto const& c : want)
            order_wanted.push_back(c.observer);
        O_CHECK(list | O04, seen == order_wanted, "the observers that are told are%s; in the order in which they subscribed they are%s", names(seen).c_str(), names(order_wanted).c_str());
        for (std::size_t k = 0; k < calls.size() && k < want.size(); k++) {
            O_CHECK(list | O04, calls[k].value == want[k].value, "an observer is told other data than was sent");
            O_CHECK(list, calls[k].src == want[k].src, "an observer is told another source");
        }
        calls.clear();
    }
    static std::string
    names(std::vector<int> const& v)
    {
        std::string t;
        for (int k : v)
            t += " " + std::to_string(k);
        return t.empty() ? " none" : t;
    }
    void
    gone(std::size_t i, void const* src, char const* when)
    {
        std::vector<int> n(w.size(), 0), seen;
        for (auto const& c : calls) {
            O_CHECK(list, c.gone, "%s tells an observer data", when);
            if (!c.gone)
                continue;
            O_CHECK(O03, c.src == src, "%s: an observer is disconnected from another source", when);
            seen.push_back(c.observer);
            n[static_cast<std::size_t>(c.observer)]++;
        }
        for (std::size_t k = 0; k < w.size(); k++) {
            O_CHECK(O03, n[k] == (in[i][k] ? 1 : 0), "%s: observer %zu, which is %ssubscribed, is disconnected %d times", when, k, in[i][k] ? "" : "not ", n[k]);
            in[i][k] = 0;
        }
        O_CHECK(O03, seen == order[i], "%s: the observers are not disconnected in the order in which they subscribed", when);
        order[i].clear();
        calls.clear();
    }
    void
    clear(std::size_t i)
    {
        mc::step();
        mc::note("subject %zu is cleared", i);
        {
            mc::image::Scope const in_it;
            (**s[i]).clear_observers();
        }
        gone(i, &**s[i], "clearing");
    }
    void
    destroy(std::size_t i, bool again = false)
    {
        mc::step();
        mc::note("subject %zu is destroyed", i);
        void const* src = &**s[i];
        s[i]->reset();
        gone(i, src, "destruction");
        if (again)
            s[i]->make();
    }
    std::uint64_t
    hash() const
    {
        std::uint64_t h = 3;
        for (auto const& a : order) {
            for (int k : a)
                h = mc::mix(h, static_cast<std::uint64_t>(k) + 1);
            h = mc::mix(h, 0);
        }
        return h;
    }
    // Everything that decides what happens from here on.
    std::uint64_t
    image() const
    {
        std::uint64_t h = mc::image::canonical(hash());
        return mc::mix(h, static_cast<std::uint64_t>(next));
    }
};

template <class S, std::size_t Max>
void
sequences(int subjects, int watchers, std::vector<int> const& acts = {}, bool faulty = false)
{
    World<S, Max> w{subjects, watchers, acts};
    w.faulty = faulty;
    for (;;) {
        int const  per = 2 * watchers + 3;
        int const  c   = mc::choose(per * subjects);
        auto const i   = static_cast<std::size_t>(c / per);
        int const  o   = c % per;
        if (o < watchers)
            w.subscribe(i, static_cast<std::size_t>(o));
        else if (o < 2 * watchers)
            w.leave(i, static_cast<std::size_t>(o - watchers));
        else if (o == 2 * watchers)
            w.notify(i);
        else if (o == 2 * watchers + 1)
            w.clear(i);
        else
            w.destroy(i, true);
        if (mc::visit(w.image(), 0))
            return;
    }
}

// Every subset of the list in every order of subscription, minus every subset in every order.
template <class S, std::size_t Max>
void
orders(int watchers)
{
    World<S, Max>            w{1, watchers};
    std::vector<std::size_t> rest;
    for (int k = 0; k < watchers; k++)
        rest.push_back(static_cast<std::size_t>(k));
    while (!rest.empty()) {
        int const k = mc::choose(static_cast<int>(rest.size()) + 1);
        if (k == static_cast<int>(rest.size()))
            break;
        w.subscribe(0, rest[static_cast<std::size_t>(k)]);
        rest.erase(rest.begin() + k);
    }
    w.notify(0);
    for (;;) {
        std::vector<std::size_t> there;
        for (std::size_t k = 0; k < w.w.size(); k++)
            if (w.in[0][k])
                there.push_back(k);
        int const k = mc::choose(static_cast<int>(there.size()) + 1);
        if (k == static_cast<int>(there.size()))
            break;
        w.leave(0, there[static_cast<std::size_t>(k)]);
        w.notify(0);
        mc::state(w.hash());
    }
    mc::outcome(w.hash());
    w.destroy(0);
}

// Lists of up to `n` observers, long ones: filled up to some length, thinned, told, filled up again.
template <class S, std::size_t Max>
void
many(int n, int rounds = 1)
{
    World<S, Max> w{1, n};
    int const     lengths[]{n, n - 1, n - 2, n / 2, 129, 128, 127};
    int const     m = lengths[mc::choose(n > 129 ? 7 : 4)];
    for (int k = 0; k < m; k++)
        w.subscribe(0, static_cast<std::size_t>(k));
    w.notify(0);
    int const at[]{0, 1, m / 2, m - 2, m - 1, n - 1};
    for (int round = 0; round < rounds; round++) {
        int const c = mc::choose(10);
        if (c < 6)
            w.leave(0, static_cast<std::size_t>(at[c]));
        else if (c < 8)
            for (int k = c - 6; k < n; k += 2)
                w.leave(0, static_cast<std::size_t>(k));
        else if (c == 8)
            w.clear(0);
        else
            for (int k = m; k--;)
                w.leave(0, static_cast<std::size_t>(k));
        w.notify(0);
        int const d = mc::choose(6);
        if (d == 0)
            for (int k = n; k--;)
                w.subscribe(0, static_cast<std::size_t>(k));
        else if (d < 5)
            w.subscribe(0, static_cast<std::size_t>(at[d]));
        w.notify(0);
        mc::state(w.hash());
    }
    if (mc::choose(2))
        w.clear(0);
    w.notify(0);
    w.destroy(0);
}

// A subject that has been in use for long: one of a few cycles many times over, then any operation or two.
template <class S, std::size_t Max>
void
worn()
{
    constexpr int n = 4;
    World<S, Max> w{1, n, {-1, -1, Max ? 0 : -1, -1}};
    int const     cycle = mc::choose(6);
    long const    times = std::vector<long>{253, 65533}[static_cast<std::size_t>(mc::choose(2))];
    w.subscribe(0, 0);
    w.subscribe(0, 1);
    for (long i = 0; i < times; i++)
        switch (cycle) {
        case 0: w.notify(0); break;
        case 1:    // the last one
            w.subscribe(0, 2);
            w.leave(0, 2);
            break;
        case 2:    // each in turn
            w.leave(0, static_cast<std::size_t>(i % 2));
            w.subscribe(0, static_cast<std::size_t>(i % 2));
            break;
        case 3:
            w.clear(0);
            w.subscribe(0, static_cast<std::size_t>(i % n));
            break;
        case 4:    // (exceptions are slow)
            if (i > 1024 && !Max)
                break;
            w.leave(0, 3);
            w.subscribe(0, 0);
            break;
        default:
            w.subscribe(0, 2);
            w.notify(0);
            w.leave(0, 2);
        }
    for (int d = 0; d < (mc::thorough() ? 2 : 1); d++) {
        int const c = mc::choose(2 * n + 2);
        if (c < n)
            w.subscribe(0, static_cast<std::size_t>(c));
        else if (c < 2 * n)
            w.leave(0, static_cast<std::size_t>(c - n));
        else if (c == 2 * n)
            w.notify(0);
        else
            w.clear(0);
        mc::state(w.hash());
    }
    w.notify(0);
    w.destroy(0);
}

// ---- recursion (O04) ----

// Watcher i of subject a notifies subject `next[i]` (or none) from its callback, up to `limit` deep.
template <class S>
struct Chain {
    struct Link : observer<int> {
        Chain* c{};
        int    number{};
        int    told{0};
        void
        data(void const*, int const& x) override
        {
            told++;
            c->log.push_back(number * 100 + x);
            int const to = c->next[static_cast<std::size_t>(number)];
            if (to >= 0 && x < 20)
                c->send(to, x + 1);
        }
    };
    std::vector<Link> l;
    std::vector<S>    s;
    std::vector<int>  at, next;
    std::vector<bool> busy;
    std::vector<int>  log, want;

    Chain(std::vector<int> a, std::vector<int> n, int subjects)
        : l(a.size()), s(static_cast<std::size_t>(subjects)), at{std::move(a)}, next{std::move(n)}, busy(static_cast<std::size_t>(subjects))
    {
        for (std::size_t i = 0; i < l.size(); i++) {
            l[i].c      = this;
            l[i].number = static_cast<int>(i);
            O_CHECK(O04, s[static_cast<std::size_t>(at[i])].add_observer(l[i]) == observer_errors::ok, "a subscription is refused");
        }
    }
    void
    send(int to, int x)
    {
        auto const t  = static_cast<std::size_t>(to);
        bool const was = busy[t];
        if (was) {
            std::size_t const n = log.size();
            auto const        e = s[t].notify_observers(x);
            O_CHECK(O04, e == observer_errors::notify_recursion_detected, "a notification from within one of the same subject is answered with %d", static_cast<int>(e));
            O_CHECK(O04, log.size() == n, "a notification from within one of the same subject reaches an observer");
        } else {
            busy[t]      = true;
            auto const e = s[t].notify_observers(x);
            busy[t]      = false;
            O_CHECK(O04, e == observer_errors::ok, "a notification that is not recursive is answered with %d", static_cast<int>(e));
        }
    }
    // What has to be told, in this order.
    void
    expect(int to, int x, std::vector<bool>& b)
    {
        auto const t = static_cast<std::size_t>(to);
        if (b[t])
            return;
        b[t] = true;
        for (std::size_t i = 0; i < l.size(); i++)
            if (at[i] == to) {
                want.push_back(static_cast<int>(i) * 100 + x);
                if (next[i] >= 0 && x < 20)
                    expect(next[i], x + 1, b);
            }
        b[t] = false;
    }
};

template <class S>
void
recursion(int subjects, int links, int rounds)
{
    std::vector<int> at, next;
    std::uint64_t    h = 5;
    for (int i = 0; i < links; i++) {
        at.push_back(mc::choose(subjects));
        next.push_back(mc::choose(subjects + 1) - 1);
        h = mc::mix(h, static_cast<std::uint64_t>(at.back() * 16 + next.back() + 1));
    }
    Chain<S> c{at, next, subjects};
    for (int r = 0; r < rounds; r++) {
        int const to = mc::choose(subjects);
        mc::step();
        mc::note("subject %d is notified", to);
        c.log.clear();
        c.want.clear();
        c.send(to, r);
        std::vector<bool> b(static_cast<std::size_t>(subjects));
        c.expect(to, r, b);
        auto const &x = c.log, &y = c.want;
        O_CHECK(O04, x == y, "%zu observers are told, it should be %zu, or in another order", x.size(), y.size());
        h = mc::mix(h, static_cast<std::uint64_t>(to) + x.size() * 8);
        mc::state(h);
    }
    mc::outcome(h);
}

// Small payloads, and observers of two types of data at once.
template <std::size_t Max>
void
payloads()
{
    struct Both : observer<int>, observer<std::vector<int>> {
        std::vector<int> a;
        std::vector<std::vector<int>> b;
        void data(void const*, int const& x) override { mc::image::Pause const p; a.push_back(x); }
        void data(void const*, std::vector<int> const& x) override { mc::image::Pause const p; b.push_back(x); }
    };
    mc::image::reset();
    static Both w;
    mc::image::Place<observable<int, Max != 0, Max>>              i;
    mc::image::Place<observable<std::vector<int>, Max != 0, Max>> v;
    i.make();
    v.make();
    bool ia = false, ib = false;
    for (unsigned d = 0;; d = (d + 1) % 3) {
        int const                     n = static_cast<int>(d);
        std::vector<int>              wa;
        std::vector<std::vector<int>> wb;
        w.a.clear();
        w.b.clear();
        mc::step();
        switch (mc::choose(8)) {
        case 0: add(*i, static_cast<observer<int>&>(w)); ia = true; break;
        case 1: add(*v, static_cast<observer<std::vector<int>>&>(w)); ib = true; break;
        case 2: take(*i, static_cast<observer<int>&>(w)); ia = false; break;
        case 3: take(*v, static_cast<observer<std::vector<int>>&>(w)); ib = false; break;
        case 4:
            tell(*i, n - 3);
            if (ia)
                wa.push_back(n - 3);
            break;
        case 5: {
            std::vector<int> const x(d, n);
            tell(*v, x);
            if (ib)
                wb.push_back(x);
            break;
        }
        case 6: {
            mc::image::Scope const in_it;
            i->clear_observers();
            ia = false;
            break;
        }
        default: {
            mc::image::Scope const in_it;
            v->clear_observers();
            ib = false;
            break;
        }
        }
        MC_CHECK(w.a == wa && w.b == wb, "an observer of two subjects is told something else than was sent");
        if (mc::visit(mc::image::canonical(d * 4 + ia * 2u + ib), 0))
            return;
    }
}

// Observers come and go from within notifications and disconnections. A notification is for those that are
// subscribed when it begins, in that order; those that leave before it is their turn are not told.
template <class S, std::size_t Max>
struct Changing {
    struct Actor : observer<int> {
        int       k{};
        Changing* w{};
        void
        data(void const* src, int const& x) override
        {
            mc::image::Pause const p;
            w->called(k, false, src, x);
        }
        void
        disconnect(void const* src) override
        {
            mc::image::Pause const p;
            w->called(k, true, src, 0);
        }
    };
    struct Walk {
        bool             clearing;
        int              value;
        std::vector<int> pending;
    };
    mc::image::Place<S> s{0};
    std::vector<Actor>  a;
    std::vector<Walk>   walks;
    std::vector<int>    order;
    int                 budget{0}, next{0}, notifying{0};
    std::uint64_t       h{1};
    unsigned const      list{Max ? O01 : O02};

    Changing(int n) : a(static_cast<std::size_t>(n))
    {
        for (int k = 0; k < n; k++)
            a[static_cast<std::size_t>(k)].k = k, a[static_cast<std::size_t>(k)].w = this;
        s.make();
    }
    bool in(int k) const { return std::find(order.begin(), order.end(), k) != order.end(); }
    void
    called(int k, bool clearing, void const* src, int x)
    {
        unsigned const m = clearing ? O03 : list;
        O_CHECK(m | O03, !walks.empty(), "observer %d is called for nothing", k);
        if (walks.empty())
            return;
        auto& w = walks.back();
        O_CHECK(list, clearing == w.clearing || !clearing, "observer %d is disconnected in a notification", k);
        O_CHECK(O03, clearing == w.clearing || clearing, "observer %d is told data while it is disconnected", k);
        if (clearing != w.clearing)
            return;
        O_CHECK(m, !w.pending.empty() && w.pending.front() == k, "observer %d is %s, and not%s", k, clearing ? "disconnected" : "told", w.pending.empty() ? "body" : (" " + std::to_string(w.pending.front())).c_str());
        if (w.pending.empty() || w.pending.front() != k)
            return std::erase(w.pending, k), void();
        w.pending.erase(w.pending.begin());
        O_CHECK(m, src == static_cast<void const*>(&*s), "observer %d is called with another source", k);
        O_CHECK(m, clearing || x == w.value, "observer %d is told %d instead of %d", k, x, w.value);
        act(clearing);
    }
    void
    act(bool clearing)
    {
        if (!budget)
            return;
        int const n = static_cast<int>(a.size());
        int const c = mc::choose(clearing ? 1 + n : 3 + 2 * n);
        h           = mc::mix(h, static_cast<std::uint64_t>(c));
        if (c == 0)
            return;
        budget--;
        if (c <= n)
            leave(c - 1);
        else if (c <= 2 * n)
            subscribe(c - 1 - n);
        else if (c == 2 * n + 1)
            clear(false);
        else
            notify();
    }
    void
    subscribe(int k)
    {
        mc::note("observer %d subscribes%s", k, walks.empty() ? "" : " from within");
        auto const e    = add(*s, a[static_cast<std::size_t>(k)]);
        bool const full = Max && order.size() >= Max;
        O_CHECK(list, (e == observer_errors::ok) == (!full && !in(k)), "a subscription is answered with %d", static_cast<int>(e));
        if (!full && !in(k))
            order.push_back(k);
    }
    void
    leave(int k)
    {
        mc::note("observer %d leaves%s", k, walks.empty() ? "" : " from within");
        auto const e = take(*s, a[static_cast<std::size_t>(k)]);
        O_CHECK(list, (e == observer_errors::ok) == in(k), "the end of a subscription is answered with %d", static_cast<int>(e));
        std::erase(order, k);
        for (auto& w : walks)
            std::erase(w.pending, k);
    }
    void
    notify()
    {
        int const x = next++;
        mc::note("notification %d%s", x, walks.empty() ? "" : " from within");
        bool const refused = Max && notifying;
        walks.push_back({false, x, refused ? std::vector<int>{} : order});
        notifying++;
        auto const e = tell(*s, x);
        notifying--;
        O_CHECK(list | O04, e == (refused ? observer_errors::notify_recursion_detected : observer_errors::ok), "a notification is answered with %d", static_cast<int>(e));
        O_CHECK(list | O04, walks.back().pending.empty(), "observer %d is not told", walks.back().pending.front());
        walks.pop_back();
    }
    void
    clear(bool destroy)
    {
        mc::note("the subject is %s%s", destroy ? "destroyed" : "cleared", walks.empty() ? "" : " from within");
        walks.push_back({true, 0, order});
        if (destroy)
            s.reset();
        else {
            mc::image::Scope const in_it;
            (*s).clear_observers();
        }
        O_CHECK(O03, walks.back().pending.empty(), "observer %d is not disconnected", walks.back().pending.front());
        walks.pop_back();
        order.clear();
        for (auto& w : walks)
            w.pending.clear();
    }
};
template <class S, std::size_t Max>
void
changing(int n, int budget)
{
    mc::image::reset();
    static_assert(sizeof(Changing<S, Max>) < 4096);
    Changing<S, Max> w{n};
    int const        first = mc::choose(n + 1);
    for (int k = 0; k < first; k++)
        w.subscribe(k);
    w.budget = budget;
    switch (mc::choose(3)) {
    case 0: w.notify(); break;
    case 1: w.clear(false); break;
    default:
        w.clear(true);
        w.s.make();
        break;
    }
    w.budget = 0;
    w.notify();
    for (int k = 0; k < n; k++) {
        w.subscribe(k);
        w.notify();
    }
    w.clear(true);
    mc::outcome(w.h);
}

template <std::size_t Max>
using fixed   = observable<std::string, true, Max>;
using dynamic = observable_dynamic<std::string>;

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, std::function<void()> f, char const* text, bool closure = false, bool late = false) {
        for (unsigned i = 0; i < 4; i++)
            if (mask >> i & 1) {
                Config k;
                k.name = std::string("O0") + static_cast<char>('1' + i) + "-" + n;
                k.what = text;
                k.closure = closure;
                k.thorough_only = late;
                k.body = [f, i] {
                    what = 1u << i;
                    f();
                };
                c.push_back(std::move(k));
            }
    };
    char const* const same = "any number of subscriptions, ends of them, notifications, clearings and destructions";
    auto const text = [&](char const* t) { return (new std::string(std::string(t) + ": " + same))->c_str(); };
    add(O01 | O03, "fixed-1", [] { sequences<fixed<1>, 1>(1, 2); }, text("room for one, two observers"), true);
    add(O01 | O03, "fixed-2", [] { sequences<fixed<2>, 2>(1, 3); }, text("room for two, three observers"), true);
    add(O01 | O03, "fixed-3", [] { sequences<fixed<3>, 3>(1, 4); }, text("room for three, four observers"), true);
    add(O01 | O03, "fixed-4", [] { sequences<fixed<4>, 4>(1, 5); }, text("room for four, five observers"), true);
    add(O01 | O03, "fixed-5", [] { sequences<fixed<5>, 5>(1, 6); }, text("room for five, six observers"), true);
    add(O01 | O03, "fixed-6", [] { sequences<fixed<6>, 6>(1, 7); }, text("room for six, seven observers"), true, true);
    add(O01 | O03, "fixed-8", [] { sequences<fixed<8>, 8>(1, 5); }, text("room for eight, five observers"), true);
    add(O01 | O03, "fixed-8-8", [] { sequences<fixed<8>, 8>(1, 8); }, text("room for eight, eight observers"), true, true);
    add(O01 | O03, "fixed-two", [] { sequences<fixed<2>, 2>(2, 3); }, text("two subjects that share three observers"), true);
    add(O01 | O03, "fixed-two-3", [] { sequences<fixed<3>, 3>(2, 4); }, text("two subjects for three that share four observers"), true);
    add(O01 | O03, "fixed-three", [] { sequences<fixed<2>, 2>(3, 3); }, text("three subjects that share three observers"), true);
    add(O01 | O03, "fixed-orders", [] { orders<fixed<5>, 5>(5); }, "room for five, five observers: every order of coming and going");
    char const* const long_ = "filled up to several lengths, thinned in many ways and filled up again";
    add(O01 | O03, "fixed-20", [] { many<fixed<20>, 20>(21, 2); }, long_);
    add(O01 | O03, "fixed-256", [] { many<fixed<256>, 256>(257); }, long_);
    add(O01 | O03, "fixed-300", [] { many<fixed<300>, 300>(301); }, long_);
    add(O02 | O03, "dynamic-20", [] { many<dynamic, 0>(20, 2); }, long_);
    add(O02 | O03, "dynamic-300", [] { many<dynamic, 0>(300); }, long_);
    char const* const worn_ = "one of six cycles of operations 253 or 65533 times over, then any operation";
    add(O01 | O03 | O04, "fixed-worn", [] { worn<fixed<3>, 3>(); }, worn_);
    add(O02 | O03, "dynamic-worn", [] { worn<dynamic, 0>(); }, worn_);
    char const* const within_ = "from within notifications and disconnections, observers come, go, clear and notify in every way";
    add(O01 | O03, "fixed-within-3", [] { changing<observable<int, true, 3>, 3>(3, 3); }, within_);
    add(O01 | O03, "fixed-within-4", [=] { changing<observable<int, true, 3>, 3>(4, thorough() ? 3 : 2); }, within_);
    add(O02 | O03, "dynamic-within-3", [] { changing<observable_dynamic<int>, 0>(3, 3); }, within_);
    add(O02 | O03, "dynamic-within-5", [=] { changing<observable_dynamic<int>, 0>(5, thorough() ? 3 : 2); }, within_);
    add(O04, "fixed-within", [] { changing<observable<int, true, 3>, 3>(3, 3); }, within_);
    add(O01, "fixed-payloads", [] { payloads<2>(); }, "numbers and vectors, one observer of both: all operations on both subjects", true);
    add(O02 | O03, "dynamic-2", [] { sequences<dynamic, 0>(1, 2); }, text("two observers"), true);
    add(O02 | O03, "dynamic-4", [] { sequences<dynamic, 0>(1, 4); }, text("four observers"), true);
    add(O02 | O03, "dynamic-5", [] { sequences<dynamic, 0>(1, 5); }, text("five observers"), true);
    add(O02 | O03, "dynamic-6", [] { sequences<dynamic, 0>(1, 6); }, text("six observers"), true, true);
    add(O02 | O03, "dynamic-8", [] { sequences<dynamic, 0>(1, 8); }, text("eight observers"), true, true);
    add(O02 | O03, "dynamic-two", [] { sequences<dynamic, 0>(2, 3); }, text("two subjects that share three observers"), true);
    add(O02, "dynamic-nested", [] { sequences<dynamic, 0>(2, 3, {1, 0, -1}); }, text("two subjects, observers that notify the other one"), true);
    add(O02 | O03, "dynamic-faults", [] { sequences<dynamic, 0>(1, 4, {}, true); }, text("four observers, every allocation may fail"), true);
    add(O02 | O03, "dynamic-orders", [] { orders<dynamic, 0>(5); }, "five observers: every order of coming and going");
    add(O02, "dynamic-payloads", [] { payloads<0>(); }, "numbers and vectors, one observer of both: all operations on both subjects", true);
    add(O04, "nested-1", [] { sequences<fixed<3>, 3>(1, 4, {-1, 0, -1, 0}); }, text("one subject, two of four observers notify it from within"), true);
    add(O04, "nested-2", [] { sequences<fixed<3>, 3>(2, 3, {0, 1, -1}); }, text("two subjects, observers that notify the first, the second and none from within"), true);
    add(O04, "nested-2-x", [] { sequences<fixed<3>, 3>(2, 3, {1, 1, 0}); }, text("the same, with others"), true);
    add(O04, "nested-3", [] { sequences<fixed<3>, 3>(3, 3, {1, 2, 0}); }, text("three subjects, each of which is notified from within by one of the observers"), true, true);
    add(O04, "recursion-1", [] { recursion<observable<int, true, 4>>(1, 3, 3); }, "one subject, three observers that may notify it from their callbacks, three rounds");
    add(O04, "recursion-2", [=] { recursion<observable<int, true, 4>>(2, 4, 3); }, "two subjects, four observers that may notify either");
    add(O04, "recursion-3", [=] { recursion<observable<int, true, 4>>(3, thorough() ? 4 : 3, 3); }, "three subjects, three observers that may notify any");
    add(O04, "plain", [] { sequences<fixed<3>, 3>(1, 4); }, text("notifications that are not recursive are never refused"), true);
    return c;
}
