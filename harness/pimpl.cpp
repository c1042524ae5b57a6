// Objects in place (F01, F02): lifetimes, values, storage, and constructors and assignments that throw.
#include "mc.hpp"

#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <xitren/func/fast_pimpl.hpp>

using xitren::func::fast_pimpl;

namespace {
long allocations;
}

void*
operator new(std::size_t n)
{
    allocations++;
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc{};
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace {

enum : unsigned { F01 = 1, F02 = 2 };
unsigned what;

// All objects that are alive. No memory is allocated for this.
struct Registry {
    void const* alive[64];
    int         n{0};
    bool        faults{false};

    int
    find(void const* p) const
    {
        for (int i = 0; i < n; i++)
            if (alive[i] == p)
                return i;
        return -1;
    }
    void
    born(void const* p)
    {
        MC_CHECK(find(p) < 0, "an object is constructed over a living one");
        MC_CHECK(n < 64, "objects are never destroyed");
        alive[n++] = p;
    }
    void
    dead(void const* p)
    {
        int const i = find(p);
        MC_CHECK(i >= 0, "something is destroyed that is not alive");
        alive[i] = alive[--n];
    }
    void
    used(void const* p) const
    {
        MC_CHECK(find(p) >= 0, "something is used that is not alive");
    }
};
Registry reg;

struct Fault {};
void
may_throw()
{
    if (reg.faults && mc::choose(2))
        throw Fault{};
}

constexpr int moved = -999;

// Knows its own address: moving its bytes around does not go unnoticed.
template <std::size_t Align, std::size_t Extra>
struct alignas(Align) Tracked {
    int            v;
    Tracked const* self;
    unsigned char  more[Extra];

    explicit Tracked(int x) : v{x}, self{this}
    {
        MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % Align == 0, "an object is not aligned to %zu", Align);
        may_throw();
        fill();
        reg.born(this);
    }
    Tracked(Tracked const& o) : v{o.value()}, self{this}
    {
        MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % Align == 0, "an object is not aligned to %zu", Align);
        may_throw();
        fill();
        reg.born(this);
    }
    Tracked(Tracked&& o) : v{o.value()}, self{this}
    {
        MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % Align == 0, "an object is not aligned to %zu", Align);
        may_throw();
        fill();
        o.set(moved);
        reg.born(this);
    }
    Tracked&
    operator=(Tracked const& o)
    {
        reg.used(this);
        int const x = o.value();
        may_throw();
        set(x);
        return *this;
    }
    Tracked&
    operator=(Tracked&& o)
    {
        reg.used(this);
        int const x = o.value();
        may_throw();
        if (this != &o) {
            set(x);
            o.set(moved);
        }
        return *this;
    }
    ~Tracked()
    {
        check();
        reg.dead(this);
        v = -555;
    }
    int
    value() const
    {
        reg.used(this);
        check();
        return v;
    }
    void
    set(int x)
    {
        reg.used(this);
        v = x;
        fill();
    }

private:
    void
    fill()
    {
        std::memset(more, v & 0xff, Extra);
    }
    void
    check() const
    {
        MC_CHECK(self == this, "an object has been moved to another place behind its back");
        for (auto b : more)
            MC_CHECK(b == (v & 0xff), "the bytes of an object are overwritten");
    }
};

// Places for holders, with guards around them.
template <class P, int N>
struct Places {
    struct Place {
        unsigned char before[64];
        alignas(P) unsigned char room[sizeof(P)];
        unsigned char after[64];
    };
    Place place[N];
    bool  full[N]{};
    int   want[N]{};

    Places()
    {
        for (auto& p : place) {
            std::memset(p.before, 0xb1, 64);
            std::memset(p.after, 0xb2, 64);
            std::memset(p.room, 0xb3, sizeof p.room);
        }
    }
    P&
    at(int i)
    {
        return *std::launder(reinterpret_cast<P*>(place[i].room));
    }
    P const&
    cat(int i)
    {
        return at(i);
    }
    void
    check(bool storage)
    {
        int alive = 0;
        for (int i = 0; i < N; i++) {
            for (int k = 0; k < 64; k++)
                MC_CHECK(place[i].before[k] == 0xb1 && place[i].after[k] == 0xb2, "bytes beside a holder are overwritten");
            if (!full[i])
                continue;
            alive++;
            auto const* o = &*at(i);
            MC_CHECK(reg.find(o) >= 0, "a holder shows an object that is not alive");
            MC_CHECK(o == &*cat(i) && o == at(i).operator->() && o == cat(i).operator->(), "a holder shows different objects");
            MC_CHECK(at(i)->value() == want[i] && (*cat(i)).value() == want[i], "a holder has the value %d, not %d", at(i)->value(), want[i]);
            if (storage) {
                auto const a = reinterpret_cast<std::uintptr_t>(o), b = reinterpret_cast<std::uintptr_t>(&at(i));
                MC_CHECK(a >= b && a + sizeof *o <= b + sizeof(P), "an object is not inside its holder");
            }
        }
        MC_CHECK(reg.n == alive, "%d objects are alive, there are %d holders", reg.n, alive);
    }
    std::uint64_t
    hash()
    {
        std::uint64_t h = 9;
        for (int i = 0; i < N; i++)
            h = mc::mix(h, full[i] ? static_cast<std::uint64_t>(want[i] + 1000) : 0);
        return h;
    }
};

// All sequences of creating, copying, moving, assigning, changing, swapping and destroying holders.
template <std::size_t Align, std::size_t Extra, std::size_t Slack, bool Strict, int N>
void
sequences(int depth, bool faults)
{
    using T = Tracked<Align, Extra>;
    using P = fast_pimpl<T, sizeof(T) + Slack, Align * (Slack ? 2 : 1), Strict>;
    reg     = Registry{};
    Places<P, N> s;
    int          next = 0;
    for (int d = 0; d < depth; d++) {
        mc::step();
        int const op = mc::choose(8);
        int const i  = mc::choose(N);
        bool const binary = op >= 1 && op <= 4;
        int const j  = binary || op == 6 ? mc::choose(N) : i;
        bool const fits = op == 0 ? !s.full[i] : op == 1 || op == 2 ? !s.full[i] && i != j && s.full[j] : op == 3 || op == 4 || op == 6 ? s.full[i] && s.full[j] : s.full[i];
        if (!fits)
            continue;
        long const before = allocations;
        reg.faults        = faults;
        bool thrown       = false;
        try {
            switch (op) {
            case 0: new (s.place[i].room) P(++next); break;
            case 1:
                if (next & 1)
                    new (s.place[i].room) P(s.at(j));
                else
                    new (s.place[i].room) P(s.cat(j));
                break;
            case 2: new (s.place[i].room) P(std::move(s.at(j))); break;
            case 3: MC_CHECK(&(s.at(i) = s.cat(j)) == &s.at(i), "an assignment returns something else"); break;
            case 4: MC_CHECK(&(s.at(i) = std::move(s.at(j))) == &s.at(i), "an assignment returns something else"); break;
            case 5: s.at(i)->set(++next); break;
            case 6:
                reg.faults = false;
                std::swap(s.at(i), s.at(j));
                break;
            default: s.at(i).~P();
            }
        } catch (Fault const&) {
            thrown = true;
        }
        reg.faults = false;
        if (allocations != before && (what & F02))
            mc::fail("a holder allocates memory");
        if (!thrown) {
            switch (op) {
            case 0: s.full[i] = true; s.want[i] = next; break;
            case 1:
                s.full[i] = true;
                s.want[i] = s.want[j];
                break;
            case 2:
                s.full[i] = true;
                s.want[i] = s.want[j];
                s.want[j] = moved;
                break;
            case 3: s.want[i] = s.want[j]; break;
            case 4:
                if (i != j) {
                    s.want[i] = s.want[j];
                    s.want[j] = moved;
                }
                break;
            case 5: s.want[i] = next; break;
            case 6: std::swap(s.want[i], s.want[j]); break;
            default: s.full[i] = false;
            }
        } else {
            MC_CHECK(op <= 4, "something throws that must not");
        }
        if (thrown && mc::recording())
            mc::note("operation %d on %d, %d throws", op, i, j);
        if (!thrown && mc::recording())
            mc::note("operation %d on %d, %d", op, i, j);
        // The destructor must leave the rest alone; an object of a constructor that threw is not destroyed.
        s.check(what & F02);
        mc::state(s.hash());
    }
    auto const h = s.hash();
    for (int i = 0; i < N; i++)
        if (s.full[i]) {
            s.at(i).~P();
            s.full[i] = false;
            s.check(what & F02);
        }
    mc::outcome(h);
}

// Holders in a vector that grows, shrinks and is sorted.
void
in_vector(int depth)
{
    using T = Tracked<16, 8>;
    using P = fast_pimpl<T, 64, 16>;
    reg     = Registry{};
    {
        std::vector<P>   v;
        std::vector<int> m;
        for (int d = 0; d < depth; d++) {
            mc::step();
            int const k = mc::choose(7), x = 7 - d;
            switch (k) {
            case 0: v.emplace_back(x); m.push_back(x); break;
            case 1: v.insert(v.begin(), P{x}); m.insert(m.begin(), x); break;
            case 2:
                if (!v.empty()) {
                    v.erase(v.begin());
                    m.erase(m.begin());
                }
                break;
            case 3:
                std::sort(v.begin(), v.end(), [](P const& a, P const& b) { return a->value() < b->value(); });
                std::sort(m.begin(), m.end());
                break;
            case 4: {
                std::vector<P> const c(v);
                v = c;
                break;
            }
            case 5: {
                std::vector<P> c(std::move(v));
                v.clear();
                v = std::move(c);
                break;
            }
            default:
                if (!v.empty()) {
                    v.push_back(v.front());
                    m.push_back(m.front());
                }
            }
            MC_CHECK(v.size() == m.size() && reg.n == static_cast<int>(m.size()), "%d objects are alive, the vector has %zu", reg.n, m.size());
            std::uint64_t h = 3;
            for (std::size_t i = 0; i < m.size(); i++) {
                MC_CHECK(v[i]->value() == m[i], "a holder in a vector has another value");
                h = mc::mix(h, static_cast<std::uint64_t>(m[i]));
            }
            mc::state(h);
        }
        mc::outcome(mc::mix(m.size(), m.empty() ? 0 : static_cast<std::uint64_t>(m[0])));
    }
    MC_CHECK(reg.n == 0, "%d objects outlive their vector", reg.n);
}

// Types of the standard library, two holders and two plain objects that go through the same.
template <class T, class Make>
void
standard(int depth, Make make)
{
    using P = fast_pimpl<T, sizeof(T) + 8, alignof(T)>;
    P a(make(0)), b(make(1));
    T ma(make(0)), mb(make(1));
    for (int d = 0; d < depth; d++) {
        mc::step();
        switch (mc::choose(8)) {
        case 0: a = b; ma = mb; break;
        case 1: {
            P c(b);
            T mc_(mb);
            b = std::move(a);
            mb = std::move(ma);
            a = std::move(c);
            ma = std::move(mc_);
            break;
        }
        case 2: std::swap(a, b); std::swap(ma, mb); break;
        case 3: *a = make(d + 2); ma = make(d + 2); break;
        case 4: *b = *a; mb = ma; break;
        case 5: {
            P c(std::move(a));
            a  = P(make(d + 20));
            ma = make(d + 20);
            break;
        }
        case 6: {
            P const c(a);
            b  = c;
            mb = ma;
            break;
        }
        default: {
            auto& r = a;
            a = r;
        }
        }
        MC_CHECK(*a == ma && *b == mb, "a holder of a standard type has another value");
        mc::state(mc::mix(static_cast<std::uint64_t>(ma.size()), mb.size()) + (ma == mb) + (ma < mb));
    }
    mc::outcome(mc::mix(static_cast<std::uint64_t>(ma.size()), mb.size()) + (ma == mb) + (ma < mb));
}

// How arguments reach the object.
struct Arguments {
    std::string how;
    Arguments() : how{"none"} {}
    Arguments(std::string const&) : how{"copied"} {}
    Arguments(std::string&&) : how{"moved"} {}
    Arguments(int& x, std::unique_ptr<int> p) : how{"reference, owner"} { x += *p; }
    Arguments(char const* a, char const* b, char const* c) : how{std::string(a) + b + c} {}
};
struct Choosy {
    int how;
    Choosy(std::initializer_list<int>) noexcept : how{1} {}
    explicit Choosy(int x) : how{2}
    {
        if (x < 0)
            throw Fault{};
    }
    Choosy(Choosy const&) = default;
};
void
arguments()
{
    int const k = mc::choose(8);
    mc::step();
    using A = fast_pimpl<Arguments, sizeof(Arguments), alignof(Arguments), true>;
    using V = fast_pimpl<std::vector<int>, 40, 8>;
    std::string const text(100, 't');
    switch (k) {
    case 0: MC_CHECK(A{}->how == "none", "no argument arrives as some"); break;
    case 1: MC_CHECK(A{text}->how == "copied", "an argument is not copied"); break;
    case 2: MC_CHECK(A{std::string(text)}->how == "moved", "an argument is not moved"); break;
    case 3: {
        int  x = 1;
        A    a{x, std::make_unique<int>(41)};
        MC_CHECK(a->how == "reference, owner" && x == 42, "arguments do not arrive");
        break;
    }
    case 4: MC_CHECK((A{"a", "b", "c"}->how == "abc"), "arguments arrive in another order"); break;
    case 5: {
        V const v(std::size_t{3}, 7);
        MC_CHECK(v->size() == 3 && (*v)[2] == 7, "a vector of three sevens is something else");
        break;
    }
    case 6: {
        fast_pimpl<Choosy, 16, 16> const c(5);
        MC_CHECK(c->how == 2, "another constructor is taken");
        break;
    }
    default: {
        bool thrown = false;
        try {
            fast_pimpl<Choosy, 16, 16> const c(-5);
        } catch (Fault const&) {
            thrown = true;
        }
        MC_CHECK(thrown, "an exception of a constructor does not arrive");
    }
    }
    mc::state(static_cast<std::uint64_t>(k) + 1);
    mc::outcome(static_cast<std::uint64_t>(k) + 1);
}

// Every combination of constructions and assignments that may throw and that promise not to.
enum : unsigned { make = 1, copy = 2, move = 4, copy_to = 8, move_to = 16 };
unsigned now_throws;    // the operation that throws
int      living;
template <unsigned May>
struct Promises {
    int v;
    template <unsigned Op>
    static void
    maybe()
    {
        if (May & now_throws & Op)
            throw Fault{};
    }
    explicit Promises(int x) noexcept(!(May & ::make)) : v{x} { maybe<::make>(); living++; }
    Promises(Promises const& o) noexcept(!(May & ::copy)) : v{o.v} { maybe<::copy>(); living++; }
    Promises(Promises&& o) noexcept(!(May & ::move)) : v{o.v} { maybe<::move>(); living++; o.v = moved; }
    Promises&
    operator=(Promises const& o) noexcept(!(May & copy_to))
    {
        maybe<copy_to>();
        v = o.v;
        return *this;
    }
    Promises&
    operator=(Promises&& o) noexcept(!(May & move_to))
    {
        maybe<move_to>();
        v   = o.v;
        o.v = moved;
        return *this;
    }
    ~Promises() { living--; }
};
template <unsigned May>
void
promises(unsigned op)
{
    using T = Promises<May>;
    using P = fast_pimpl<T, sizeof(T) + 4, alignof(T)>;
    living     = 0;
    now_throws = 0;
    bool thrown = false;
    {
        P a(1), b(2);
        int  made = -1;
        now_throws = op;
        try {
            switch (op) {
            case ::make: made = P(5)->v; break;
            case ::copy: made = P(a)->v; break;
            case ::move: made = P(std::move(a))->v; break;
            case copy_to: b = a; break;
            default: b = std::move(a);
            }
        } catch (Fault const&) {
            thrown = true;
        }
        now_throws = 0;
        MC_CHECK(thrown == ((May & op) != 0), "an exception of a constructor or an assignment does not arrive, or one arrives that nobody threw");
        MC_CHECK(living == 2, "%d objects are alive, there are 2 holders", living);
        MC_CHECK(a->v == (!thrown && (op == ::move || op == move_to) ? moved : 1), "the source has the value %d", a->v);
        MC_CHECK(b->v == (!thrown && (op == copy_to || op == move_to) ? 1 : 2), "the target has the value %d", b->v);
        MC_CHECK(thrown || made == (op == ::make ? 5 : op == ::copy || op == ::move ? 1 : -1), "the new holder has the value %d", made);
    }
    MC_CHECK(living == 0, "%d objects are alive when their holders are gone", living);
    mc::state(May * 32 + op);
    mc::outcome(mc::mix(thrown, op));
}
template <unsigned... May>
void
all_promises(std::integer_sequence<unsigned, May...>)
{
    using F = void (*)(unsigned);
    static constexpr F f[] = {&promises<May>...};
    int const m = mc::choose(32), o = mc::choose(5);
    mc::step();
    mc::note("may throw: %d, operation %d", m, o);
    f[m](1u << o);
}

// The holder's constness is the object's.
struct Sides {
    int  mutable seen{0};
    void look() { seen = 1; }
    void look() const { seen = 2; }
};
void
constness()
{
    using P = fast_pimpl<Sides, sizeof(Sides), alignof(Sides), true>;
    int const k = mc::choose(6);
    mc::step();
    P        p;
    P const& c = p;
    switch (k) {
    case 0: p->look(); break;
    case 1: (*p).look(); break;
    case 2: c->look(); break;
    case 3: (*c).look(); break;
    case 4: (*std::move(p)).look(); break;
    default: std::as_const(p).operator->()->look();
    }
    int const seen = k == 4 ? p->seen : c->seen;
    MC_CHECK(seen == (k == 2 || k == 3 || k == 5 ? 2 : 1), "access %d shows an object of the other constness", k);
    mc::state(static_cast<std::uint64_t>(k) + 1);
    mc::outcome(static_cast<std::uint64_t>(seen));
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, std::function<void()> f, char const* text) {
        for (unsigned i = 0; i < 2; i++)
            if (mask >> i & 1) {
                Config k;
                k.name = std::string("F0") + static_cast<char>('1' + i) + "-" + n;
                k.what = text;
                k.body = [f, i] {
                    what = 1u << i;
                    f();
                };
                c.push_back(std::move(k));
            }
    };
    int const more = thorough() ? 1 : 0;
    char const* const t = "all sequences of creating, copying, moving, assigning, changing, swapping, destroying";
    add(F01 | F02, "two", [=] { sequences<8, 4, 0, true, 2>(5 + more, false); }, t);
    add(F01 | F02, "three", [=] { sequences<16, 20, 0, false, 3>(4, false); }, t);
    add(F02, "align-1", [=] { sequences<8, 1, 8, false, 2>(4 + more, false); }, t);
    add(F02, "align-64", [=] { sequences<64, 100, 0, true, 2>(4 + more, false); }, t);
    add(F02, "align-32-room", [=] { sequences<32, 3, 64, false, 2>(4 + more, false); }, t);
    add(F01 | F02, "large", [=] { sequences<8, 300, 0, true, 2>(4 + more, false); }, "the same with objects of 300 bytes");
    add(F02, "huge", [=] { sequences<16, 66000, 500, false, 2>(3, false); }, "the same with objects of 66000 bytes");
    add(F02, "throwing", [=] { sequences<8, 4, 0, true, 2>(5 + more, true); }, "the same; every construction and assignment may throw");
    add(F02, "throwing-room", [=] { sequences<32, 40, 32, false, 2>(4 + more, true); }, "the same; every construction and assignment may throw");
    add(F01, "vector", [=] { in_vector(6 + more); }, "holders in a vector: all sequences of growing, shrinking, sorting, copying, moving");
    add(F01, "strings", [=] { standard<std::string>(6 + more, [](int i) { return std::string(static_cast<std::size_t>(i * 7), static_cast<char>('a' + i)); }); }, "strings, short and long");
    add(F01, "vectors", [=] { standard<std::vector<int>>(5 + more, [](int i) { return std::vector<int>(static_cast<std::size_t>(i), i); }); }, "vectors");
    add(F01, "arguments", [] { arguments(); }, "how arguments and exceptions pass");
    add(F02, "promises", [] { all_promises(std::make_integer_sequence<unsigned, 32>{}); }, "every combination of constructions and assignments that throw and that promise not to");
    add(F01, "constness", [] { constness(); }, "access through holders that are const and that are not");
    return c;
}
