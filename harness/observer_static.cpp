// Observer lists that are fixed at compile time (O06): who is told what, in which order, also from within.
#include "mc.hpp"

#include <tuple>
#include <vector>
#include <xitren/comm/observer_static.hpp>

using namespace xitren::comm;

namespace {

// What the callbacks are checked against: the notifications that are under way, outermost first.
struct Frame {
    void const*      root;
    int const*       list;     // who has to be told, in this order
    int              n;
    int              at;
    std::vector<int> value;
};
std::vector<Frame>                       frames;
std::function<void(int who, int value)>  inside;
int                                      told;

void
callback(int who, void const* src, std::vector<int> const& value)
{
    MC_CHECK(!frames.empty(), "observer %d is told something that nobody sent", who);
    Frame& f = frames.back();
    MC_CHECK(f.at < f.n, "observer %d is told once more after everybody was told", who);
    MC_CHECK(f.list[f.at] == who, "observer %d is told, but it is the turn of observer %d", who, f.list[f.at]);
    MC_CHECK(f.root == src, "observer %d is told another source than the one that sends", who);
    MC_CHECK(f.value == value, "observer %d is told another value than was sent", who);
    f.at++;
    told++;
    if (inside)
        inside(who, value.empty() ? 0 : value[0]);
}

std::vector<int> as_vector(std::vector<int> const& x) { return x; }
std::vector<int> as_vector(int x) { return {x}; }

template <class D, int Kind>
struct Obs : observer<D, Obs<D, Kind>> {
    int number{};
    void
    notification_impl(observable_impl<D> const& src, D const& x)
    {
        callback(number, &src, as_vector(x));
    }
};

template <class S, class D>
void
send(S& s, int const* list, int n, D const& x)
{
    frames.push_back({&s.root, list, n, 0, as_vector(x)});
    s.notify(x);
    MC_CHECK(!frames.empty() && frames.back().root == &s.root, "a notification is mixed up with another one");
    MC_CHECK(frames.back().at == n, "%d of %d observers are told", frames.back().at, n);
    frames.pop_back();
}

// Three objects of each of two kinds; number = kind * 3 + index.
template <class D>
struct Crowd {
    Obs<D, 0> a[3];
    Obs<D, 1> b[3];
    Crowd()
    {
        for (int i = 0; i < 3; i++) {
            a[i].number = i;
            b[i].number = 3 + i;
        }
        frames.clear();
        inside = nullptr;
        told   = 0;
    }
    template <int Kind>
    Obs<D, Kind>&
    get(int i)
    {
        if constexpr (Kind == 0)
            return a[i];
        else
            return b[i];
    }
};

// A list of Kinds..., with every choice of objects for them (also the same one twice), two values.
template <class D, int... Kinds>
void
list(bool worn = false)
{
    constexpr int n = sizeof...(Kinds);
    Crowd<D>      c;
    int           who[n], pick[n];
    int const     kinds[n] = {Kinds...};
    std::uint64_t h        = 7;
    for (int i = 0; i < n; i++) {
        pick[i] = i >= 4 && i < n - 2 ? i % 3 : mc::choose(n > 3 ? 2 : 3);
        who[i]  = kinds[i] * 3 + pick[i];
        h       = mc::mix(h, static_cast<std::uint64_t>(who[i]));
    }
    int i = 0;
    // Braces: from left to right.
    std::tuple<Obs<D, Kinds>&...> refs{c.template get<Kinds>(pick[i++])...};
    std::apply(
        [&](auto&... o) {
            observable<D, std::remove_reference_t<decltype(o)>...> s{o...};
            if (worn)
                for (int k = 0; k < 65534; k++) {
                    if constexpr (std::is_same_v<D, int>)
                        send(s, who, n, k);
                    else
                        send(s, who, n, std::vector<int>{k, 1});
                    told = 0;
                }
            for (int k = 0; k < 3; k++) {
                int const v = mc::choose(2);
                if constexpr (std::is_same_v<D, int>)
                    send(s, who, n, v ? -1 - k : 0x7fffffff);
                else
                    send(s, who, n, std::vector<int>(static_cast<std::size_t>(v * 5), k));
                mc::step();
            }
        },
        refs);
    MC_CHECK(told == 3 * n, "%d callbacks, not %d", told, 3 * n);
    mc::state(h);
    mc::outcome(mc::mix(h, static_cast<std::uint64_t>(told)));
}

template <class D, int... Kinds, class F>
void
lists_of(int left, F&& f)
{
    if constexpr (sizeof...(Kinds) > 0)
        f([] { list<D, Kinds...>(); });
    if constexpr (sizeof...(Kinds) < 4) {
        lists_of<D, Kinds..., 0>(left, f);
        lists_of<D, Kinds..., 1>(left, f);
    }
}

template <class D>
void
lists()
{
    static std::vector<void (*)()> const all = [] {
        std::vector<void (*)()> v;
        lists_of<D>(4, [&](auto f) { v.push_back(f); });
        return v;
    }();
    all[static_cast<std::size_t>(mc::choose(static_cast<int>(all.size())))]();
}

// Three subjects that share observers; whoever is told something may notify a subject, up to `depth` deep.
template <class D>
void
chains(int depth, int budget)
{
    Crowd<D>                         c;
    observable<D, Obs<D, 0>, Obs<D, 1>, Obs<D, 0>> s0{c.a[0], c.b[0], c.a[1]};
    observable<D, Obs<D, 1>>                 s1{c.b[1]};
    observable<D, Obs<D, 1>, Obs<D, 0>>         s2{c.b[0], c.a[0]};
    MC_CHECK(&s0.root != &s1.root && &s1.root != &s2.root && &s0.root != &s2.root, "two observables have the same identity");
    static constexpr int l0[] = {0, 3, 1}, l1[] = {4}, l2[] = {3, 0};
    std::uint64_t        h = 3;
    auto tell = [&](int to, int v) {
        D x;
        if constexpr (std::is_same_v<D, int>)
            x = v;
        else
            x = {v, to, static_cast<int>(frames.size())};
        switch (to) {
        case 0: send(s0, l0, 3, x); break;
        case 1: send(s1, l1, 1, x); break;
        default: send(s2, l2, 2, x);
        }
        mc::step();
    };
    int left = budget;
    inside   = [&](int who, int v) {
        if (static_cast<int>(frames.size()) > depth || left == 0)
            return;
        int const to = mc::choose(4);
        h            = mc::mix(h, static_cast<std::uint64_t>(to * 8 + who));
        mc::state(h);
        if (to == 3)
            return;
        left--;
        tell(to, v + 1);
    };
    for (int k = 0; k < 2; k++)
        tell(mc::choose(3), 10 * k);
    inside = nullptr;
    MC_CHECK(frames.empty(), "a notification does not end");
    mc::outcome(mc::mix(h, static_cast<std::uint64_t>(told)));
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, std::function<void()> f, char const* text) {
        Config k;
        k.name = std::string("O06-") + n;
        k.what = text;
        k.body = std::move(f);
        c.push_back(std::move(k));
    };
    int const more = thorough() ? 1 : 0;
    add("lists-int", [] { lists<int>(); }, "every list of up to four observers of two kinds, every choice of objects for it, three numbers");
    add("lists-vector", [] { lists<std::vector<int>>(); }, "the same, with vectors");
    add("chains-int", [=] { chains<int>(3, 4 + more); }, "three subjects that share observers, which notify any subject from their callbacks");
    add("chains-vector", [=] { chains<std::vector<int>>(2, 4 + more); }, "the same, with vectors");
    add("long-6", [] { list<int, 0, 1, 1, 0, 0, 1>(); }, "a list of six observers, every choice of objects for it, three numbers");
    add("long-9", [] { list<std::vector<int>, 0, 0, 1, 0, 1, 1, 1, 0, 0>(); }, "nine observers, every choice of the first four and the last two objects");
    add("long-18", [] { list<int, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1, 1>(); }, "eighteen observers, every choice of the first four and the last two objects");
    add("long-40", [] { list<int, 0, 1, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1, 0, 1, 0, 0, 1, 0, 1, 1>(); }, "forty observers, every choice of the first four and the last two objects");
    add("worn-1", [] { list<std::vector<int>, 0>(true); }, "one observer, every choice of three numbers after 65534 notifications");
    add("worn-3", [] { list<int, 0, 1, 0>(true); }, "three observers, every choice of objects and three numbers after 65534 notifications");
    return c;
}
