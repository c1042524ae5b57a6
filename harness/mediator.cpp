// The mediator (M01 .. M03): all sequences of modules coming, going and sending.
#include "image.hpp"
#include "mc.hpp"

#include <algorithm>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <xitren/comm/mediator.hpp>

using namespace xitren::comm;

namespace {

enum : unsigned { M01 = 1, M02 = 2, M03 = 4 };
unsigned what;
#define M_CHECK(mask, ...)                                                                                             \
    do {                                                                                                               \
        if (what & (mask))                                                                                             \
            MC_CHECK(__VA_ARGS__);                                                                                     \
    } while (0)

// Messages. P and Q have the same size, and so have R and S: only the type tells them apart. T holds every
// byte value.
struct P {
    int x;
};
struct Q {
    int x;
};
struct R {
    std::uint8_t  a;
    std::uint32_t b;
    std::uint16_t c;
} __attribute__((__packed__));
struct S {
    std::uint8_t x[7];
};
struct T {
    std::uint8_t all[256];
};

constexpr int n_types = 5, n_values = 8;
constexpr std::size_t size_of[n_types] = {sizeof(P), sizeof(Q), sizeof(R), sizeof(S), sizeof(T)};
std::size_t
id_of(int type)
{
    char const* n[] = {typeid(P).name(), typeid(Q).name(), typeid(R).name(), typeid(S).name(), typeid(T).name()};
    return std::hash<std::string>{}(n[type]);
}

P make_p(int v) { return {v * 0x01010107}; }
Q make_q(int v) { return {~v * 0x3000101}; }
R make_r(int v) { return {static_cast<std::uint8_t>(v * 77), 0xdeadbeefu + static_cast<unsigned>(v), static_cast<std::uint16_t>(v * 257)}; }
S
make_s(int v)
{
    S s;
    for (int i = 0; i < 7; i++)
        s.x[i] = static_cast<std::uint8_t>(i * v + 250);
    return s;
}
T
make_t(int v)
{
    T t;
    for (int i = 0; i < 256; i++)
        t.all[i] = static_cast<std::uint8_t>(i * 5 + v);
    return t;
}
std::vector<std::uint8_t>
bytes_of(int type, int v)
{
    P const a = make_p(v);
    Q const b = make_q(v);
    R const c = make_r(v);
    S const d = make_s(v);
    T const e = make_t(v);
    void const* q[] = {&a, &b, &c, &d, &e};
    auto const* p   = static_cast<std::uint8_t const*>(q[type]);
    return {p, p + size_of[type]};
}
// The number of the message, or -1 if it is not one.
int
which(void const* p, std::size_t n, int type)
{
    static std::vector<std::vector<std::uint8_t>> all;
    if (all.empty())
        for (int t = 0; t < n_types; t++)
            for (int v = 0; v < n_values; v++)
                all.push_back(bytes_of(t, v));
    for (int v = 0; v < n_values; v++) {
        auto const& b = all[static_cast<std::size_t>(type * n_values + v)];
        if (n == b.size() && !memcmp(p, b.data(), n))
            return v;
    }
    return -1;
}

// ---- everything that was delivered during one operation, in order ----
constexpr int the_hook = -1;
struct Got {
    int who, type, value;    // the hook of manager m is -1 - m
    bool operator==(Got const&) const = default;
};
std::vector<Got> got;

std::string
text(std::vector<Got> const& g)
{
    std::string s;
    for (auto const& x : g)
        s += " " + (x.who < 0 ? "hook" + std::to_string(-1 - x.who) : std::to_string(x.who)) + ":" + std::string{x.type < 0 ? '?' : "PQRST"[x.type]} + std::to_string(x.value);
    return s.empty() ? " nothing" : s;
}

// What a kind of modules sends and takes, and whether it answers a type by sending (-1: none).
struct Kind {
    int  sends;
    bool takes[n_types];
    int  answers;
};

// What follows the deliveries while modules come and go within them.
struct Watch {
    virtual void heard(int who, int type, int value)    = 0;
    virtual void hook(int manager, int type, int value) = 0;

protected:
    ~Watch() = default;
};
Watch* watch;

struct Base {
    int         number{};
    Kind const* kind{};
    virtual ~Base()                   = default;
    virtual void          send_it(int v) = 0;
    virtual base::module& raw()       = 0;
};

template <class Me>
void
heard(Me& me, int type, void const* p, std::size_t n)
{
    int v;
    {
        mc::image::Pause const pause;
        v = which(p, n, type);
        if (watch) {
            int const number = me.number;
            watch->heard(number, type, v);
            M_CHECK(M01, which(p, n, type) == v, "the message %c%d that module %d has got changes in its hands", "PQRST"[type], v, number);
            return;
        }
        got.push_back({me.number, type, v});
    }
    if (me.kind->answers == type && v >= 0)
        me.send_it((v + 1) % n_values);
}
#define TAKES(Type, n)                                                                                                 \
    void data(Type const& x) override { heard(*this, n, &x, sizeof x); }
#define MODULE(Name, make, ...)                                                                                        \
    struct Name : module<__VA_ARGS__>, Base {                                                                          \
        explicit Name(base::manager& m) : module<__VA_ARGS__>(m) {}                                                    \
        void          send_it(int v) override { send(make(v)); }                                                       \
        base::module& raw() override { return *this; }

MODULE(A, make_p, P, Q, R) TAKES(Q, 1) TAKES(R, 2) };
MODULE(B, make_q, Q, P) TAKES(P, 0) };
MODULE(C, make_r, R, P, Q, T) TAKES(P, 0) TAKES(Q, 1) TAKES(T, 4) };
MODULE(D, make_t, T) };                                              // takes nothing
MODULE(E, make_p, P, P, R) TAKES(P, 0) TAKES(R, 2) };                // takes what it sends: its own kind does not hear it
MODULE(F, make_t, T, R, P) TAKES(R, 2) TAKES(P, 0) };
MODULE(G, make_s, S, P, Q, R) TAKES(P, 0) TAKES(Q, 1) TAKES(R, 2) };
MODULE(H, make_p, P, Q, S) TAKES(Q, 1) TAKES(S, 3) };
// One whose construction fails after it has been registered.
struct Boom : B {
    explicit Boom(base::manager& m) : B(m) { throw std::runtime_error("no"); }
};

constexpr Kind kinds[] = {
    {0, {0, 1, 1, 0, 0}, -1}, {1, {1, 0, 0, 0, 0}, -1}, {2, {1, 1, 0, 0, 1}, -1}, {4, {0, 0, 0, 0, 0}, -1},
    {0, {1, 0, 1, 0, 0}, -1}, {4, {1, 0, 1, 0, 0}, -1}, {3, {1, 1, 1, 0, 0}, -1}, {0, {0, 1, 0, 1, 0}, -1},
    {1, {1, 0, 0, 0, 0}, 0},     // 8: answers P with Q
    {2, {1, 1, 0, 0, 1}, 1},     // 9: answers Q with R
    {3, {1, 1, 1, 0, 0}, 0},     // 10: answers P with S
    {4, {1, 0, 1, 0, 0}, 2},     // 11: answers R with T
};
struct alignas(16) Room {
    unsigned char raw[192];
    unsigned char rest[64];
};
Room rooms[512];

Base*
create(int kind, base::manager& m, void* at)
{
    static_assert(sizeof(A) < 192 && sizeof(B) < 192 && sizeof(C) < 192 && sizeof(D) < 192 && sizeof(E) < 192 && sizeof(F) < 192 && sizeof(G) < 192 && sizeof(H) < 192);
    switch (kind) {
    case 0: return new (at) A(m);
    case 1: case 8: return new (at) B(m);
    case 2: case 9: return new (at) C(m);
    case 3: return new (at) D(m);
    case 4: return new (at) E(m);
    case 5: case 11: return new (at) F(m);
    case 6: case 10: return new (at) G(m);
    default: return new (at) H(m);
    }
}

template <std::size_t Cap>
struct Mgr : manager<Cap> {
    int number{};
    void
    data(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        mc::image::Pause const pause;
        Got g{the_hook - number, -1, -1};
        for (int t = 0; t < n_types; t++)
            if (id == id_of(t))
                g = {the_hook - number, t, which(p, n, t)};
        if (watch)
            watch->hook(number, g.type, g.value);
        else
            got.push_back(g);
    }
};

// Slot i holds a module of kind `kind[i]`, which belongs to manager `of[i]`.
template <std::size_t Cap>
struct World {
    std::vector<std::unique_ptr<mc::image::Place<Mgr<Cap>>>> m;
    std::vector<int>                                         kind, of;
    std::vector<Base*>                                       live;
    std::vector<std::vector<int>>                            order;    // of those registered, by manager
    int                                                      next{0};

    World(std::vector<int> const& k, std::vector<int> const& o = {}, int managers = 1) : kind{k}, of{o}
    {
        mc::image::reset();
        got.clear();
        of.resize(kind.size());
        live.resize(kind.size());
        order.resize(static_cast<std::size_t>(managers));
        for (int i = 0; i < managers; i++) {
            m.push_back(std::make_unique<mc::image::Place<Mgr<Cap>>>(static_cast<std::size_t>(i)));
            m.back()->make();
            (*m.back())->number = i;
        }
        memset(rooms, 0xA5, kind.size() * sizeof(Room));
        ASAN_POISON_MEMORY_REGION(rooms, sizeof rooms);
    }
    ~World()
    {
        for (std::size_t i = 0; i < live.size(); i++)
            drop(i);
        m.clear();
        ASAN_UNPOISON_MEMORY_REGION(rooms, sizeof rooms);
    }
    void
    drop(std::size_t i)
    {
        if (!live[i])
            return;
        {
            mc::image::Scope const s;
            live[i]->~Base();
        }
        memset(rooms[i].raw, 0xA5, sizeof rooms[i].raw);
        ASAN_POISON_MEMORY_REGION(rooms[i].raw, sizeof rooms[i].raw);
        live[i] = nullptr;
    }
    auto& mgr(std::size_t slot) { return **m[static_cast<std::size_t>(of[slot])]; }
    auto& registered(std::size_t slot) { return order[static_cast<std::size_t>(of[slot])]; }
    bool
    in(std::size_t slot)
    {
        auto const& o = registered(slot);
        return std::find(o.begin(), o.end(), static_cast<int>(slot)) != o.end();
    }

    // What has to be delivered, in this order.
    void
    expect(std::vector<Got>& e, int manager, int type, int v, bool by_module)
    {
        if (by_module)
            e.push_back({the_hook - manager, type, v});
        for (int i : order[static_cast<std::size_t>(manager)]) {
            Kind const& k = kinds[kind[static_cast<std::size_t>(i)]];
            if (k.sends == type || !k.takes[type])
                continue;
            e.push_back({i, type, v});
            if (k.answers == type)
                expect(e, manager, k.sends, (v + 1) % n_values, true);
        }
    }
    static std::vector<Got>
    only(std::vector<Got> const& v, bool hooks)
    {
        std::vector<Got> r;
        for (auto const& x : v)
            if ((x.who < 0) == hooks)
                r.push_back(x);
        return r;
    }
    void
    check(std::vector<Got> const& e, char const* how)
    {
        // the modules
        M_CHECK(M01 | M02, only(got, false) == only(e, false), "%s: delivered%s, instead of%s", how, text(only(got, false)).c_str(), text(only(e, false)).c_str());
        // the hooks, and their place among all deliveries
        M_CHECK(M03, only(got, true) == only(e, true), "%s: the manager's hook is told%s, instead of%s", how, text(only(got, true)).c_str(), text(only(e, true)).c_str());
        M_CHECK(M03, got == e, "%s: delivered%s, instead of%s", how, text(got).c_str(), text(e).c_str());
        got.clear();
    }
    void
    silent(char const* when)
    {
        M_CHECK(M01 | M02 | M03, got.empty(), "a module %s makes messages:%s", when, text(got).c_str());
        got.clear();
    }

    void
    come(std::size_t slot)
    {
        mc::step();
        mc::note("module %zu of kind %d comes", slot, kind[slot]);
        bool refused = false;
        ASAN_UNPOISON_MEMORY_REGION(rooms[slot].raw, sizeof rooms[slot].raw);
        try {
            mc::image::Scope const s;
            live[slot] = create(kind[slot], mgr(slot), rooms[slot].raw);
        } catch (std::exception const&) {
            refused = true;
            memset(rooms[slot].raw, 0xA5, sizeof rooms[slot].raw);
            ASAN_POISON_MEMORY_REGION(rooms[slot].raw, sizeof rooms[slot].raw);
        }
        auto&      o    = registered(slot);
        bool const full = o.size() >= Cap;
        M_CHECK(M01 | M02 | M03, refused == full, "with %zu modules of at most %zu another one is %s", o.size(), Cap, refused ? "refused" : "accepted");
        if (!refused) {
            live[slot]->number = static_cast<int>(slot);
            live[slot]->kind   = &kinds[kind[slot]];
            o.push_back(static_cast<int>(slot));
        }
        silent("coming");
    }
    // A module registers, and its construction fails.
    void
    fail(std::size_t slot)
    {
        mc::step();
        mc::note("the construction of module %zu fails", slot);
        ASAN_UNPOISON_MEMORY_REGION(rooms[slot].raw, sizeof rooms[slot].raw);
        bool refused = false;
        try {
            mc::image::Scope const s;
            (void)new (rooms[slot].raw) Boom(mgr(slot));
        } catch (std::exception const&) {
            refused = true;
        }
        memset(rooms[slot].raw, 0xA5, sizeof rooms[slot].raw);
        ASAN_POISON_MEMORY_REGION(rooms[slot].raw, sizeof rooms[slot].raw);
        MC_CHECK(refused, "the exception of a module's constructor gets lost");
        silent("failing to come");
    }
    void
    go(std::size_t slot)
    {
        mc::step();
        mc::note("module %zu goes", slot);
        drop(slot);
        std::erase(registered(slot), static_cast<int>(slot));
        silent("going");
    }
    void
    take_out(std::size_t slot)
    {
        mc::step();
        mc::note("module %zu is removed%s", slot, in(slot) ? "" : " again");
        {
            mc::image::Scope const s;
            mgr(slot).remove_module(live[slot]->raw());
        }
        std::erase(registered(slot), static_cast<int>(slot));
        silent("being removed");
    }
    // Removed from the manager that it does not belong to.
    void
    take_out_wrong(std::size_t slot)
    {
        mc::step();
        mc::note("module %zu is removed from another manager", slot);
        {
            mc::image::Scope const s;
            (*m[static_cast<std::size_t>(1 - of[slot])])->remove_module(live[slot]->raw());
        }
        silent("being removed");
    }
    void
    put_back(std::size_t slot)
    {
        mc::step();
        mc::note("module %zu is registered again", slot);
        auto& o       = registered(slot);
        bool  refused = false;
        try {
            mc::image::Scope const s;
            mgr(slot).add_module(live[slot]->raw());
        } catch (std::exception const&) {
            refused = true;
        }
        bool const full = o.size() >= Cap;
        M_CHECK(M01 | M02 | M03, refused == full, "with %zu modules of at most %zu another one is %s", o.size(), Cap, refused ? "refused" : "accepted");
        if (!refused)
            o.push_back(static_cast<int>(slot));
        silent("being registered");
    }
    void
    send(std::size_t slot)
    {
        mc::step();
        int const v = next;
        next        = (next + 1) % 2;
        Kind const& k = kinds[kind[slot]];
        mc::note("module %zu sends message %c%d", slot, "PQRST"[k.sends], v);
        std::vector<Got> e;
        expect(e, of[slot], k.sends, v, true);
        {
            mc::image::Scope const s;
            live[slot]->send_it(v);
        }
        check(e, "a module sends");
    }
    void
    broadcast(std::size_t manager, int type)
    {
        mc::step();
        int const v = next;
        next        = (next + 1) % 2;
        mc::note("manager %zu sends message %c%d", manager, "PQRST"[type], v);
        std::vector<Got> e;
        expect(e, static_cast<int>(manager), type, v, false);
        {
            mc::image::Scope const s;
            auto&                  x = **m[manager];
            switch (type) {
            case 0: x.send(make_p(v)); break;
            case 1: x.send(make_q(v)); break;
            case 2: x.send(make_r(v)); break;
            case 3: x.send(make_s(v)); break;
            default: x.send(make_t(v)); break;
            }
        }
        check(e, "the manager sends");
    }
    std::uint64_t
    hash() const
    {
        std::uint64_t h = mc::mix(mc::image::hash(), static_cast<std::uint64_t>(next));
        for (std::size_t i = 0; i < live.size(); i++)
            h = live[i] ? mc::hash_bytes(rooms[i].raw, sizeof rooms[i].raw, h) : mc::mix(h, 11);
        for (std::size_t i = 0; i < m.size(); i++) {
            h = m[i]->hash(h);
            for (int k : order[i])
                h = mc::mix(h, static_cast<std::uint64_t>(k) + 3);
        }
        return h;
    }
    // Everyone hears of everyone.
    void
    all()
    {
        for (std::size_t i = 0; i < live.size(); i++)
            if (live[i])
                send(i);
        for (std::size_t k = 0; k < m.size(); k++)
            for (int t = 0; t < n_types; t++)
                broadcast(k, t);
    }
};

enum : unsigned { broadcasts = 1, removal = 2, failing = 4, quiet = 8 };

// Modules of kinds[slot] come, go (in every order), are removed by hand and put back, and send. With `quiet`
// they only come and go, and everyone sends after each step.
template <std::size_t Cap>
void
sequences(unsigned how, std::vector<int> const& kinds, std::vector<int> const& of = {}, int managers = 1)
{
    World<Cap> w{kinds, of, managers};
    int const  s = static_cast<int>(kinds.size());
    for (;;) {
        int n = s * 2;    // first comes or sends, then goes
        int const rem = how & removal ? n : 1 << 20;
        if (how & removal)
            n += s * (managers > 1 ? 2 : 1);
        int const bro = how & broadcasts ? n : 1 << 20;
        if (how & broadcasts)
            n += n_types * managers;
        int const bad = how & failing ? n : 1 << 20;
        if (how & failing)
            n += 1;
        int const  c    = mc::choose(n);
        auto const slot = static_cast<std::size_t>(c % s);
        if (c < s) {
            if (!w.live[slot])
                w.come(slot);
            else if (how & quiet)
                return;
            else
                w.send(slot);
        } else if (c < 2 * s) {
            if (!w.live[slot])
                return;    // nothing new
            w.go(slot);
        } else if (c >= bad) {
            std::size_t k = 0;
            while (k < w.live.size() && w.live[k])
                k++;
            if (k == w.live.size())
                return;
            w.fail(k);
        } else if (c >= bro) {
            w.broadcast(static_cast<std::size_t>((c - bro) / n_types), (c - bro) % n_types);
        } else if (c >= rem) {
            if (!w.live[slot])
                return;
            if (c - rem >= s)
                w.take_out_wrong(slot);
            else if (w.in(slot) || mc::choose(2))
                w.take_out(slot);
            else
                w.put_back(slot);
        }
        if (how & quiet)
            w.all();
        if (mc::visit(w.hash(), 0))
            return;
    }
}

// Many modules: `n` come to a manager for `Cap`; every single one goes, then every single other one, and others come.
template <std::size_t Cap>
void
wide(int n, int stride)
{
    std::vector<int> k;
    for (int i = 0; i < n; i++)
        k.push_back(i % 8);
    World<Cap> w{k};
    for (std::size_t i = 0; i < k.size(); i++)
        w.come(i);
    w.broadcast(0, 0);
    std::size_t const in = std::min(k.size(), Cap), steps = (in + static_cast<std::size_t>(stride) - 1) / static_cast<std::size_t>(stride);
    std::size_t const a  = static_cast<std::size_t>(mc::choose(static_cast<int>(steps))) * static_cast<std::size_t>(stride);
    std::size_t const b  = static_cast<std::size_t>(mc::choose(static_cast<int>(steps))) * static_cast<std::size_t>(stride);
    w.go(a);
    if (b != a)
        w.go(b);
    w.broadcast(0, 2);
    w.come(a);
    w.send(a);
    if (b != a)
        w.come(b);
    if (Cap < k.size())
        w.come(Cap);    // refused
    w.broadcast(0, 1);
    w.send(b);
    mc::state(w.hash());
    mc::outcome(w.hash());
}

// A manager that has been in use for long: one of a few cycles many times over, then any operation.
void
worn()
{
    World<4>   w{{0, 1, 2, 4, 5}};
    int const  cycle = mc::choose(6);
    long const times = std::vector<long>{254, 65534}[static_cast<std::size_t>(mc::choose(2))];
    for (std::size_t i = 0; i < 3; i++)
        w.come(i);
    for (long i = 0; i < times; i++)
        switch (cycle) {
        case 0: w.send(static_cast<std::size_t>(i % 3)); break;
        case 1: w.broadcast(0, static_cast<int>(i % n_types)); break;
        case 2:    // the last one
            w.go(2);
            w.come(2);
            break;
        case 3:    // each in turn
            w.go(static_cast<std::size_t>(i % 3));
            w.come(static_cast<std::size_t>(i % 3));
            break;
        case 4:
            w.take_out(1);
            w.put_back(1);
            break;
        default:    // (exceptions are slow)
            if (i < 1024)
                w.fail(4);
            w.come(3);
            w.go(3);
        }
    int const c = mc::choose(10);
    if (c < 5) {
        auto const slot = static_cast<std::size_t>(c);
        if (w.live[slot])
            w.go(slot);
        else
            w.come(slot);
    } else {
        w.come(3);
        w.come(4);    // refused
        if (c > 5)
            w.go(static_cast<std::size_t>(c - 6));
    }
    w.all();
    mc::state(w.hash());
    mc::outcome(w.hash());
}

// Messages as bytes, of every size from 0 to twice the right one, from every sender, straight to the modules.
void
sizes()
{
    std::vector<int> const k{0, 1, 2, 5, 6, 7};
    World<8>  w{k};
    for (std::size_t i = 0; i < k.size(); i++)
        w.come(i);
    int const type = mc::choose(n_types + 1);
    std::size_t const right = type < n_types ? size_of[type] : 9;
    auto const  n  = static_cast<std::size_t>(mc::choose(static_cast<int>(2 * right + 2)));
    auto const slot = static_cast<std::size_t>(mc::choose(static_cast<int>(k.size())));
    std::unique_ptr<std::uint8_t[]> bytes{new std::uint8_t[n]};    // exactly as long as it says
    auto const src = bytes_of(type % n_types, 5);
    for (std::size_t i = 0; i < n; i++)
        bytes[i] = type < n_types ? src[i % right] : static_cast<std::uint8_t>(i);
    mc::step();
    std::size_t const id = type < n_types ? id_of(type) : 12345;
    w.live[slot]->raw().receive(id, bytes.get(), n);
    bool const want = type < n_types && n == right && kinds[k[slot]].takes[type];
    M_CHECK(M03, got.size() == (want ? 1u : 0u), "%zu bytes of a message of type %d (%zu bytes) are delivered %zu times", n, type, right, got.size());
    if (want && !got.empty())
        M_CHECK(M03, got[0].who == static_cast<int>(slot) && got[0].type == type && got[0].value == 5, "a message is delivered with other contents");
    got.clear();
    // the manager's own conversion
    bool refused = false;
    int  v       = -2;
    auto& m = **w.m[0];
    try {
        switch (type) {
        case 0: { auto x = m.convert_field<P>(bytes.get(), n); v = which(&x, sizeof x, 0); break; }
        case 1: { auto x = m.convert_field<Q>(bytes.get(), n); v = which(&x, sizeof x, 1); break; }
        case 2: { auto x = m.convert_field<R>(bytes.get(), n); v = which(&x, sizeof x, 2); break; }
        case 3: { auto x = m.convert_field<S>(bytes.get(), n); v = which(&x, sizeof x, 3); break; }
        case 4: { auto x = m.convert_field<T>(bytes.get(), n); v = which(&x, sizeof x, 4); break; }
        default: refused = n != right; v = 5; break;
        }
    } catch (std::exception const&) {
        refused = true;
    }
    M_CHECK(M03, refused == (n != right), "%zu bytes are %s as a message of %zu", n, refused ? "refused" : "accepted", right);
    if (!refused)
        M_CHECK(M03, v == 5, "the conversion of the manager changes the contents");
    // a raw message that a module distributes
    w.mgr(slot).distribute(w.live[slot]->raw(), bytes.get(), n);
    int const mine = kinds[k[slot]].sends;
    std::vector<Got> e;
    if (n == size_of[mine] && which(bytes.get(), n, mine) >= 0)
        w.expect(e, 0, mine, which(bytes.get(), n, mine), true);
    else if (n == size_of[mine]) {    // not one of the messages, but of the right size
        w.expect(e, 0, mine, 0, true);
        for (auto& x : e)
            x.value = -1;
    } else
        e.push_back({the_hook, mine, -1});
    w.check(e, "bytes are distributed");
    mc::state(mc::mix(mc::mix(n, slot), static_cast<std::uint64_t>(type)));
    mc::outcome(want);
}

// Every population of n modules of these kinds, some of which send while they receive.
void
echoes(int n, std::vector<int> const& of_kinds)
{
    std::vector<int> k;
    for (int i = 0; i < n; i++)
        k.push_back(of_kinds[static_cast<std::size_t>(mc::choose(static_cast<int>(of_kinds.size())))]);
    World<8> w{k};
    for (std::size_t i = 0; i < k.size(); i++)
        w.come(i);
    w.all();
    if (n) {
        w.go(static_cast<std::size_t>(mc::choose(n)));
        w.all();
    }
    mc::state(w.hash());
    mc::outcome(w.hash());
}

// Modules come, go, are taken out, put back and send within the handlers of others (or of themselves), `budget` times
// in all. Whoever is there throughout a delivery gets the message, once; whoever has left does not get it any more;
// whoever has come meanwhile may get it, once.
template <std::size_t Cap>
struct Within final : World<Cap>, Watch {
    using W = World<Cap>;
    struct Frame {
        int              type, value, sender;    // the manager is -1
        bool             hook;                   // is still to be told
        std::vector<int> due, maybe, busy;
    };
    std::vector<Frame> frames;
    int                budget;
    int                count{0};    // messages

    Within(std::vector<int> const& k, int b) : W{k}, budget{b} { watch = nullptr; }
    ~Within() { watch = nullptr; }

    bool
    takes(int slot, int type) const
    {
        Kind const& k = kinds[this->kind[static_cast<std::size_t>(slot)]];
        return k.sends != type && k.takes[type];
    }
    bool
    busy(int slot) const
    {
        for (auto const& f : frames)
            if (f.sender == slot || std::find(f.busy.begin(), f.busy.end(), slot) != f.busy.end())
                return true;
        return false;
    }
    void
    left(int slot)
    {
        for (auto& f : frames) {
            std::erase(f.due, slot);
            std::erase(f.maybe, slot);
        }
    }
    void
    joined(int slot)
    {
        for (auto& f : frames)
            if (takes(slot, f.type))
                f.maybe.push_back(slot);
    }
    void
    say(int slot)    // -1 - t: the manager says t
    {
        mc::step();
        Frame f;
        f.sender = slot < 0 ? -1 : slot;
        f.type   = slot < 0 ? -1 - slot : kinds[this->kind[static_cast<std::size_t>(slot)]].sends;
        f.value  = count++ % n_values;
        f.hook   = slot >= 0;
        mc::note("%s%d sends message %c%d", slot < 0 ? "the manager " : "module ", slot < 0 ? 0 : slot, "PQRST"[f.type], f.value);
        for (int i : this->order[0])
            if (takes(i, f.type))
                f.due.push_back(i);
        int const type = f.type, v = f.value;
        frames.push_back(std::move(f));
        {
            mc::image::Scope const s;
            if (slot >= 0)
                this->live[static_cast<std::size_t>(slot)]->send_it(v);
            else {
                auto& x = **this->m[0];
                switch (type) {
                case 0: x.send(make_p(v)); break;
                case 1: x.send(make_q(v)); break;
                case 2: x.send(make_r(v)); break;
                case 3: x.send(make_s(v)); break;
                default: x.send(make_t(v)); break;
                }
            }
        }
        auto const& e = frames.back();
        M_CHECK(M01 | M02, e.due.empty(), "module %d is there all the time and does not get message %c%d", e.due[0], "PQRST"[type], v);
        M_CHECK(M03, !e.hook, "the manager is not told of message %c%d", "PQRST"[type], v);
        frames.pop_back();
    }
    void
    act()
    {
        if (!budget || frames.size() > 3)
            return;
        int const n = static_cast<int>(this->kind.size());
        int const c = mc::choose(3 * n + 2);
        if (!c)
            return;
        int const  slot = (c - 1) % n;
        auto const at   = static_cast<std::size_t>(slot);
        if (c == 3 * n + 1) {
            budget--;
            return say(-1 - frames.back().type);
        }
        switch ((c - 1) / n) {
        case 0:
            if (this->live[at] && busy(slot))
                return;
            budget--;
            if (this->live[at]) {
                left(slot);
                return this->go(at);
            }
            this->come(at);
            if (this->in(at))
                joined(slot);
            return;
        case 1:
            if (!this->live[at])
                return;
            budget--;
            if (this->in(at)) {
                left(slot);
                return this->take_out(at);
            }
            this->put_back(at);
            if (this->in(at))
                joined(slot);
            return;
        default:
            if (!this->live[at])
                return;
            budget--;
            say(slot);
        }
    }
    void
    heard(int who, int type, int value) override
    {
        mc::note("module %d gets %c%d", who, "PQRST"[type], value);
        M_CHECK(M01 | M02 | M03, !frames.empty(), "module %d gets message %c%d that nobody has sent", who, "PQRST"[type], value);
        if (frames.empty())
            return;
        auto& f = frames.back();
        M_CHECK(M01, f.type == type && f.value == value, "module %d gets message %c%d instead of %c%d", who, "PQRST"[type], value, "PQRST"[f.type], f.value);
        M_CHECK(M03, !f.hook, "module %d gets message %c%d before the manager", who, "PQRST"[type], value);
        if (!f.due.empty() && f.due[0] == who)
            f.due.erase(f.due.begin());
        else {
            auto const i = std::find(f.maybe.begin(), f.maybe.end(), who);
            M_CHECK(M01 | M02, i != f.maybe.end(), "module %d gets message %c%d again, out of turn or after it has left", who, "PQRST"[type], value);
            if (i == f.maybe.end())
                return;
            f.maybe.erase(i);
        }
        f.busy.push_back(who);
        std::size_t const depth = frames.size();
        act();
        if (frames.size() == depth)
            frames.back().busy.pop_back();
    }
    void
    hook(int, int type, int value) override
    {
        M_CHECK(M03, !frames.empty() && frames.back().hook && frames.back().type == type && frames.back().value == value, "the manager is told of message %c%d", type < 0 ? '?' : "PQRST"[type], value);
        if (frames.empty() || !frames.back().hook)
            return;
        frames.back().hook = false;
        act();
    }
};

template <std::size_t Cap>
void
within(std::vector<int> const& k, int in, int budget)
{
    Within<Cap> w{k, budget};
    for (int i = 0; i < in; i++)
        w.come(static_cast<std::size_t>(i));
    watch       = &w;
    int const c = mc::choose(in + 2);
    w.say(c < in ? c : c == in ? -1 : -3);
    watch = nullptr;
    for (std::size_t i = 0; i < k.size(); i++)    // and everything is as it should be afterwards
        if (w.live[i])
            w.send(i);
    w.broadcast(0, 0);
    mc::state(w.hash());
    mc::outcome(w.hash());
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, std::function<void()> f, char const* text, bool closure = false, bool late = false) {
        for (unsigned i = 0; i < 3; i++)
            if (mask >> i & 1) {
                Config k;
                k.name = std::string("M0") + static_cast<char>('1' + i) + "-" + n;
                k.what = text;
                k.closure = closure;
                k.thorough_only = late;
                k.body = [f, i] {
                    what = 1u << i;
                    f();
                };
                c.push_back(std::move(k));
            }
    };
    add(M01 | M02 | M03, "three", [] { sequences<8>(failing, {0, 1, 2}); }, "all sequences of three modules coming, sending and going, and of constructions that fail", true);
    add(M01 | M02, "five", [] { sequences<8>(0, {0, 1, 2, 3, 4}); }, "the same with five modules, two of which send the same type", true);
    add(M01 | M02, "alike", [] { sequences<8>(0, {5, 6, 7, 1, 0}); }, "types of the same size, in every position of the receivers' lists", true);
    add(M01, "same-type", [] { sequences<8>(0, {4, 4, 1, 0}); }, "several modules that send one type", true);
    add(M01 | M03, "broadcast", [] { sequences<8>(broadcasts, {0, 2, 4, 5}); }, "the manager sends, too", true);
    add(M01 | M03, "answers", [] { sequences<8>(broadcasts, {0, 8, 9, 10, 11}); }, "modules that send while they receive, up to three deep", true);
    add(M01 | M03, "echo", [] { echoes(4, {0, 1, 4, 8, 9, 10, 11}); }, "every population of four modules, some of which send while they receive");
    add(M01 | M02 | M03, "two", [] { sequences<2>(removal, {0, 1, 1, 0}, {0, 0, 1, 1}, 2); }, "two managers with modules of their own", true);
    add(M01 | M02 | M03, "within", [] { within<5>({2, 1, 4, 0}, 3, 2); }, "three modules, and two times within the deliveries one comes, goes, is taken out or put back, or someone sends");
    add(M01 | M02, "within-4", [] { within<4>({2, 1, 4, 6, 0}, 4, 2); }, "the same with four modules for a manager of four, and a fifth");
    add(M01 | M02, "within-long", [] { within<5>({2, 1, 4, 0}, 3, 3); }, "the same with three modules, three times", false, true);
    add(M01 | M02, "within-5", [] { within<5>({2, 1, 4, 6, 0}, 5, 2); }, "the same with five modules", false, true);
    add(M02 | M03, "full-1", [] { sequences<1>(broadcasts | removal | failing, {1, 4}); }, "two modules for a manager of one, removed by hand, too", true);
    add(M02, "full-2", [] { sequences<2>(failing, {0, 1, 2}); }, "three modules for a manager of two", true);
    add(M02, "removal", [] { sequences<3>(removal, {0, 1, 2}); }, "three modules that are removed by hand and put back, and go", true);
    add(M02, "full-3", [] { sequences<3>(removal, {0, 1, 2, 4}); }, "four modules for a manager of three", true);
    add(M02, "full-4", [] { sequences<4>(quiet, {0, 1, 2, 4, 5, 1}); }, "six modules for a manager of four, coming and going in all orders", true);
    add(M02, "full-5", [] { sequences<5>(quiet, {0, 1, 2, 4, 5, 1}); }, "six modules for a manager of five", true);
    add(M02, "full-6", [] { sequences<6>(quiet, {0, 1, 2, 4, 5, 1, 6}); }, "seven modules for a manager of six", true, true);
    add(M02, "wide-20", [] { wide<20>(21, 1); }, "21 modules for a manager of 20: every two of them go and come again");
    add(M02, "wide-300", [] { wide<300>(301, 37); }, "301 modules for a manager of 300");
    add(M01 | M02 | M03, "worn", [] { worn(); }, "one of six cycles of sending, coming and going 254 or 65534 times over, then any operation, then everyone sends");
    add(M03, "sizes", [] { sizes(); }, "messages of every size from 0 to twice the right one, for every type, sender and receiver");
    return c;
}
