// The LRU cache (L01 .. L03, L05): all sequences of puts, gets and waits, against a list of entries. The wall
// clock is the harness's.
#include "image.hpp"
#include "mc.hpp"

#include <deque>
#include <memory>
#include <string>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <utility>
#include <xitren/cache/lru.hpp>

namespace {

bool      fake_clock = false;
long long fake_ns    = 0;

}    // namespace

// std::chrono::system_clock asks for CLOCK_REALTIME.
extern "C" int
clock_gettime(clockid_t id, struct timespec* t)
{
    if (fake_clock && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) {
        t->tv_sec  = fake_ns / 1000000000;
        t->tv_nsec = fake_ns % 1000000000;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}

namespace {

enum : unsigned { L01 = 1, L02 = 2, L03 = 4, L05 = 16 };
unsigned what;
#define L_CHECK(mask, ...)                                                                                             \
    do {                                                                                                               \
        if (what & (mask))                                                                                             \
            MC_CHECK(__VA_ARGS__);                                                                                     \
    } while (0)

constexpr long long second = 1000000000LL;
constexpr long long epoch  = 1700000000LL * second;

// A key all of whose values have the same hash.
struct Clash {
    int  n;
    bool operator==(Clash const&) const = default;
};
}    // namespace
template <>
struct std::hash<Clash> {
    std::size_t operator()(Clash const&) const { return 4; }
};
namespace {

// A value that cannot always be copied.
struct Fragile {
    int n;
    static inline long living;
    static void
    maybe()
    {
        if (mc::image::faults && mc::choose(2)) {
            mc::image::failed = true;
            throw std::bad_alloc();
        }
    }
    explicit Fragile(int x = 0) : n{x} { living++; }
    Fragile(Fragile const& o) : n{o.n}
    {
        maybe();
        living++;
    }
    Fragile(Fragile&& o) noexcept : n{std::exchange(o.n, -1)} { living++; }
    Fragile&
    operator=(Fragile const& o)
    {
        maybe();
        n = o.n;
        return *this;
    }
    Fragile&
    operator=(Fragile&& o) noexcept
    {
        n = std::exchange(o.n, -1);
        return *this;
    }
    ~Fragile() { living--; }
    bool operator==(Fragile const& o) const { return n == o.n; }
};

template <class K>
K key_of(int i);
template <>
Clash
key_of<Clash>(int i)
{
    return {i};
}
template <>
int
key_of<int>(int i)
{
    return i * 3 - 1;
}
template <>
std::string
key_of<std::string>(int i)
{
    return i == 0 ? "" : std::string(static_cast<std::size_t>(i * 9), static_cast<char>('a' + i));
}
template <class V>
V value_of(int n);
template <>
int
value_of<int>(int n)
{
    return n;
}
template <>
Fragile
value_of<Fragile>(int n)
{
    return Fragile{n};
}
template <>
std::string
value_of<std::string>(int n)
{
    return "value number " + std::to_string(n) + " of the cache";
}

struct Entry {
    int       key, value;
    long long at;
};

template <class K, class V, std::size_t Size, bool Exc>
struct World {
    using C = xitren::cache::lru<K, V, Size, Exc>;
    mc::image::Place<C> c;
    std::deque<Entry>   q;    // most recently used first
    long long           period;
    int                 next{1};
    bool                vary{true};    // whether not all values are the same
    bool                faulty{false}; // whether operations may fail

    explicit World(long long p, std::size_t place = 0) : c{place}, period{p}
    {
        if (!place)
            mc::image::reset();
        c.make(std::chrono::nanoseconds(p));
    }
    std::uint64_t
    hash() const
    {
        std::uint64_t h = 5;
        for (auto const& e : q)
            h = mc::mix(mc::mix(h, static_cast<std::uint64_t>(e.key)), mc::mix(static_cast<std::uint64_t>(e.value), static_cast<std::uint64_t>(e.at)));
        return mc::mix(h, static_cast<std::uint64_t>(next));
    }

    std::deque<Entry>::iterator
    find(int k)
    {
        auto it = q.begin();
        while (it != q.end() && it->key != k)
            ++it;
        return it;
    }

    // False: it failed, for want of memory.
    template <class F>
    bool
    attempt(F f)
    {
        bool ok = true;
        try {
            mc::image::Scope const s;
            mc::image::faults = faulty;
            mc::image::failed = false;
            f();
        } catch (std::bad_alloc const&) {
            ok = false;
        } catch (...) {
            mc::image::faults = false;
            throw;
        }
        mc::image::faults = false;
        if (!ok) {
            mc::note("fails");
            MC_CHECK(mc::image::failed, "an operation fails although there is memory");
        }
        return ok;
    }

    void
    put(int k)
    {
        mc::step();
        mc::note("put(key %d, value %d)", k, next);
        if (!attempt([&] { c->put(key_of<K>(k), value_of<V>(next)); }))
            return;
        auto it = find(k);
        if (it != q.end())
            q.erase(it);
        else if (q.size() >= Size)
            q.pop_back();
        q.push_front({k, next, fake_ns});
        if (vary)
            next = 3 - next;
    }

    void
    get(int k)
    {
        mc::step();
        auto       it      = find(k);
        bool const held    = it != q.end();
        bool const expired = held && fake_ns - it->at >= period;
        bool       timeout = false;
        mc::note("get(key %d): %s", k, !held ? "not there" : expired ? "expired" : "there");
        decltype(c->get(key_of<K>(k))) r;
        try {
            if (!attempt([&] { r = c->get(key_of<K>(k)); }))
                return;
        } catch (xitren::cache::cache_timeout const&) {
            timeout = true;
        }
        if (!held) {
            L_CHECK(L02 | L05, !r, "an entry that was put out of the cache, or never in it, is still found");
            L_CHECK(L01 | L05, !r, "a key is found that is not in the cache");
            L_CHECK(L03 | L05, !timeout, "a key that is not in the cache has expired");
            return;
        }
        if (expired) {
            L_CHECK(L03 | L05, !r, "an entry is found %lld ns after it was put, it lives %lld ns", fake_ns - it->at, period);
            L_CHECK(L03, timeout == Exc, "an expired entry %s", Exc ? "is not reported as cache_timeout" : "is reported as an exception");
            return;
        }
        L_CHECK(L03 | L05, !timeout, "an entry expires %lld ns after it was put, it lives %lld ns", fake_ns - it->at, period);
        L_CHECK(L03, r.has_value(), "an entry is gone %lld ns after it was put, it lives %lld ns", fake_ns - it->at, period);
        L_CHECK(L01 | L02 | L05, r.has_value(), "an entry that is among the %zu most recently used ones is not found", Size);
        if (r) {
            L_CHECK(L01 | L05, std::get<0>(*r) == key_of<K>(k), "another key is found than was asked for");
            L_CHECK(L01 | L05, std::get<1>(*r) == value_of<V>(it->value), "the value found is not the one that was put last");
            L_CHECK(L01 | L03 | L05, std::get<2>(*r).time_since_epoch() == std::chrono::nanoseconds(it->at), "the time of the entry is not when it was put");
        }
        Entry const e = *it;
        q.erase(it);
        q.push_front(e);
    }
};

// `caches` caches, each asked and filled in every way. The clock stands, or goes on to the next of the `instants`
// whenever. With a depth: every sequence of that length on its own, whatever may be remembered outside the caches.
template <class K, class V, std::size_t Size, bool Exc>
void
sequences(int keys, std::vector<long long> const& instants = {}, long long period = second, int caches = 1, bool vary = true, bool faulty = false, unsigned depth = 0)
{
    Fragile::living = 0;
    fake_clock = true;
    fake_ns    = epoch;
    {
        using W = World<K, V, Size, Exc>;
        std::vector<std::unique_ptr<W>> w;
        for (int i = 0; i < caches; i++) {
            w.push_back(std::make_unique<W>(period, static_cast<std::size_t>(i)));
            w.back()->vary = vary;
            w.back()->faulty = faulty;
            L_CHECK(L03, w.back()->c->expired_after() == std::chrono::nanoseconds(period), "expired_after() is not what the constructor was given");
        }
        std::size_t t = 0;
        for (unsigned d = 0; !depth || d < depth; d++) {
            int c = mc::choose(2 * keys * caches + (t < instants.size() ? 1 : 0));
            if (c >= 2 * keys * caches) {
                mc::step();
                fake_ns = epoch + instants[t++];
                mc::note("at %lld ns", fake_ns - epoch);
            } else {
                W& x = *w[static_cast<std::size_t>(c / (2 * keys))];
                c %= 2 * keys;
                if (c < keys)
                    x.put(c);
                else
                    x.get(c - keys);
            }
            std::uint64_t h = mc::image::canonical(static_cast<std::uint64_t>(fake_ns));
            for (auto const& x : w)
                h = mc::mix(h, x->hash());
            if (depth)
                mc::state(h);
            else if (mc::visit(h, 0))
                break;
        }
    }
    L_CHECK(L05, Fragile::living == 0, "%ld values outlive their cache", Fragile::living);
    fake_clock = false;
}

// Every age around the period, for periods of many sizes.
template <bool Exc>
void
ages()
{
    fake_clock = true;
    fake_ns    = epoch;
    static long long const periods[] = {0, 1, 2, 999, 1000, 1000000, 20 * 1000000LL, second, 3600 * second, 400LL * 86400 * second};
    static long long const deltas[]  = {-1000000000LL, -1000001, -1000000, -1001, -1000, -2, -1, 0, 1, 2, 1000, 1000000, second};
    long long const p = periods[mc::choose(10)];
    long long const a = p + deltas[mc::choose(13)];
    int const mode    = mc::choose(4);
    {
        World<int, int, 2, Exc> w{p};
        w.put(0);
        if (a >= 0) {
            if (mode == 1)
                w.get(0);
            if (mode == 2) {    // refreshed half way
                fake_ns += p / 2;
                w.put(0);
            }
            if (mode == 3) {    // reading does not refresh
                fake_ns += a / 2;
                w.get(0);
                fake_ns -= a / 2;
            }
            fake_ns += a;
            w.get(0);
            w.get(1);
            w.put(0);
            w.get(0);
            w.put(1);
            w.put(2);
            w.get(0);
            w.get(1);
            w.get(2);
        }
    }
    mc::state(mc::mix(mc::mix(static_cast<std::uint64_t>(p), static_cast<std::uint64_t>(a)), static_cast<std::uint64_t>(mode)));
    fake_clock = false;
}

// A big cache: more keys than it holds, then whole passes over the keys in several orders, then every key is asked for.
template <std::size_t Size, bool Exc>
void
large(int passes)
{
    fake_clock = true;
    fake_ns    = epoch;
    {
        World<int, int, Size, Exc> w{second};
        int const n    = static_cast<int>(Size);
        int const more = mc::choose(3);    // none, one or half a cache
        int const keys = n + (more == 2 ? n / 2 : more);
        for (int k = 0; k < keys; k++)
            w.put(k);
        for (int p = 0; p < passes; p++) {
            int const op = mc::choose(6);
            for (int i = 0; i < keys; i++) {
                int const k = op & 1 ? keys - 1 - i : i;
                switch (op / 2) {
                case 0: w.get(k); break;
                case 1: w.put(k); break;
                default:
                    if (i % 3 == 0)
                        w.get(k);
                    else if (i % 7 == 0)
                        w.put(k);
                }
            }
            mc::state(w.hash());
        }
        for (int k = 0; k < keys; k++)
            w.get(k);
        mc::outcome(w.hash());
    }
    fake_clock = false;
}

// A cache that has been in use for long: one of a few cycles many times over, then a few operations of any kind.
template <class K, class V, std::size_t Size, bool Exc>
void
worn(int keys, unsigned depth)
{
    fake_clock = true;
    fake_ns    = epoch;
    {
        World<K, V, Size, Exc> w{second};
        int const              cycle = mc::choose(6);
        int const              times = std::vector<int>{254, 65533}[static_cast<std::size_t>(mc::choose(2))];
        w.put(0);
        for (int i = 0; i < times; i++)
            switch (cycle) {
            case 0: w.put(0); break;             // over and over
            case 1: w.put(i % keys); break;      // one pushes the other out
            case 2: w.get(0); break;             // (there)
            case 3: w.get(keys - 1); break;      // (not there)
            case 4:                              // one expires after the other
                w.put(i % keys);
                fake_ns += second;
                if (!Exc || i % 64 == 0)    // (exceptions are slow)
                    w.get(i % keys);
                break;
            default:
                w.put(i % keys);
                w.get(i / 2 % keys);
                fake_ns += Exc ? 1 : second / 4;
            }
        for (unsigned d = 0; d < depth; d++) {
            int const c = mc::choose(2 * keys);
            if (c < keys)
                w.put(c);
            else
                w.get(c - keys);
            mc::state(w.hash());
        }
        for (int k = 0; k < keys; k++)
            w.get(k);
        mc::outcome(w.hash());
    }
    fake_clock = false;
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, std::function<void()> f, char const* text, bool closure = true, bool late = false) {
        for (unsigned i = 0; i < 5; i++)
            if (mask >> i & 1) {
                Config k;
                k.name = std::string("L0") + static_cast<char>('1' + i) + "-" + n;
                k.what = text;
                k.closure = closure;
                k.thorough_only = late;
                k.body = [f, i] {
                    what = 1u << i;
                    f();
                };
                c.push_back(std::move(k));
            }
    };
    long long const half = second / 2;
    std::vector<long long> const fine{1, half - 1, half, second - 1, second, second + 1, second + half - 1, second + half, 2 * second - 1, 2 * second, 2 * second + 1};
    std::vector<long long> const halves{half, second, second + half, 2 * second};
    std::vector<long long> const thirds{second / 3, 2 * second / 3, second, 4 * second / 3, 5 * second / 3, 2 * second};
    // (what does not depend on the time)
    add(L01 | L02, "size1", [] { sequences<int, int, 1, true>(3); }, "capacity 1, 3 keys: any number of puts and gets");
    add(L01 | L02, "size2", [] { sequences<int, int, 2, true>(4); }, "capacity 2, 4 keys");
    add(L01 | L02, "size3", [] { sequences<int, int, 3, false>(5); }, "capacity 3, 5 keys");
    add(L01 | L02, "size4", [] { sequences<int, int, 4, true>(5); }, "capacity 4, 5 keys");
    add(L01 | L02, "size5", [] { sequences<int, int, 5, false>(6, {}, second, 1, false); }, "capacity 5, 6 keys, equal values");
    add(L01 | L02, "size6", [] { sequences<int, int, 6, true>(7, {}, second, 1, false); }, "capacity 6, 7 keys, equal values", true, true);
    add(L01 | L02, "size8", [] { sequences<int, int, 8, true>(4); }, "capacity 8, 4 keys");
    add(L01 | L02, "size2-strings", [] { sequences<std::string, std::string, 2, true>(4); }, "capacity 2, 4 keys, strings");
    add(L01 | L02, "size3-strings", [] { sequences<std::string, std::string, 3, true>(5); }, "capacity 3, 5 keys, strings");
    add(L01 | L02, "size2-clash", [] { sequences<Clash, std::string, 2, true>(3); }, "capacity 2, 3 keys with the same hash");
    add(L01 | L02, "size3-clash", [] { sequences<Clash, int, 3, false>(5); }, "capacity 3, 5 keys with the same hash");
    add(L01 | L02, "two", [] { sequences<int, int, 1, true>(2, {}, second, 2); }, "two caches of capacity 1, 2 keys");
    add(L01 | L02, "two-2", [] { sequences<int, int, 2, true>(3, {}, second, 2); }, "two caches of capacity 2, 3 keys");
    add(L01 | L02, "two-3", [] { sequences<int, int, 3, true>(4, {}, second, 2, false); }, "two caches of capacity 3, 4 keys, equal values", true, true);
    add(L01 | L02 | L03, "size1-time", [=] { sequences<int, int, 1, true>(2, fine); }, "capacity 1, 2 keys: any number of puts and gets at 12 instants up to two lives after the beginning");
    add(L01 | L02 | L03, "size1-time-quiet", [=] { sequences<int, int, 1, false>(2, fine); }, "the same without exceptions");
    add(L01 | L02 | L03, "size2-time", [=] { sequences<int, int, 2, true>(2, fine); }, "capacity 2, 2 keys, 12 instants");
    add(L01 | L02 | L03, "size2-time-3", [=] { sequences<int, int, 2, true>(3, thirds); }, "capacity 2, 3 keys, 7 instants");
    add(L01 | L02 | L03, "size2-time-quiet", [=] { sequences<int, int, 2, false>(3, {1, half, second - 1, second, second + 1, second + half}); }, "capacity 2, 3 keys, other instants, without exceptions");
    add(L01 | L02 | L03, "size3-time", [=] { sequences<int, int, 3, true>(4, {half, second}); }, "capacity 3, 4 keys, 3 instants");
    add(L01 | L02 | L03, "size3-time-quiet", [=] { sequences<int, int, 3, false>(4, halves, second, 1, false); }, "capacity 3, 4 keys, 5 instants, equal values, without exceptions");
    add(L01 | L02 | L03, "size2-time-strings", [=] { sequences<std::string, std::string, 2, false>(3, halves); }, "capacity 2, 3 keys, strings, 5 instants, without exceptions");
    add(L01 | L02 | L03, "size4-time", [=] { sequences<int, int, 4, true>(5, {half, second}, second, 1, false); }, "capacity 4, 5 keys, 3 instants, equal values", true, true);
    add(L01 | L02 | L03, "two-time", [=] { sequences<int, int, 1, true>(2, halves, second, 2); }, "two caches of capacity 1, 2 keys, 5 instants");
    add(L03, "size1-never", [=] { sequences<int, int, 1, true>(2, {second, 2 * second, 3 * second}, 1000000 * second); }, "entries that live longer than the test");
    add(L03, "size1-zero", [=] { sequences<int, int, 1, false>(2, {1, 2, 3}, 0); }, "entries that expire at once");
    add(L03, "size2-zero", [=] { sequences<int, int, 2, true>(3, {1, 2, 3}, 0); }, "entries that expire at once, capacity 2, with exceptions");
    add(L03, "size2-nanosecond", [=] { sequences<int, int, 2, true>(3, {1, 2, 3}, 1); }, "entries that live a nanosecond");
    add(L03, "size2-past", [=] { sequences<int, int, 2, true>(2, {1, 2, 3}, -1); }, "entries that expire before they are put");
    add(L03, "ages", [] { ages<true>(); }, "10 periods, 13 ages around each, refreshed or read meanwhile", false);
    add(L03, "ages-quiet", [] { ages<false>(); }, "the same without exceptions", false);
    add(L05, "size1", [] { sequences<std::string, std::string, 1, true>(3, {}, second, 1, true, true); }, "capacity 1, 3 keys, strings: any number of puts and gets, every allocation in them may fail");
    add(L05, "size2", [] { sequences<int, int, 2, true>(3, {}, second, 1, true, true); }, "capacity 2, 3 keys");
    add(L05, "size3", [] { sequences<int, int, 3, false>(4, {}, second, 1, true, true); }, "capacity 3, 4 keys");
    add(L05, "size4", [] { sequences<int, int, 4, true>(5, {}, second, 1, false, true); }, "capacity 4, 5 keys, equal values");
    add(L05, "size2-copies", [] { sequences<int, Fragile, 2, true>(3, {}, second, 1, true, true); }, "capacity 2, 3 keys: every allocation and every copy of a value may fail");
    add(L05, "size3-copies", [] { sequences<int, Fragile, 3, true>(4, {}, second, 1, true, true); }, "capacity 3, 4 keys: every allocation and every copy of a value may fail");
    add(L05, "size2-time", [=] { sequences<int, int, 2, true>(3, halves, second, 1, true, true); }, "capacity 2, 3 keys, 5 instants");
    add(L05, "size2-time-copies", [=] { sequences<int, Fragile, 2, false>(3, halves, second, 1, true, true); }, "capacity 2, 3 keys: every allocation and every copy of a value may fail, 5 instants");
    add(L05, "size2-values", [] { sequences<int, std::string, 2, true>(3, {}, second, 1, true, true); }, "capacity 2, 3 keys, strings");
    add(L05, "size2-strings", [] { sequences<std::string, std::string, 2, true>(3, {}, second, 1, true, true); }, "capacity 2, 3 keys that are strings");
    add(L05, "size3-strings", [] { sequences<std::string, std::string, 3, true>(4, {}, second, 1, true, true); }, "capacity 3, 4 keys that are strings");
    add(L01 | L02, "plain", [] { sequences<int, int, 2, true>(3, {}, second, 1, true, false, 7); }, "capacity 2, 3 keys: every sequence of 7 puts and gets on its own", false);
    add(L01 | L02, "plain-two", [] { sequences<int, int, 1, false>(2, {}, second, 2, true, false, 6); }, "two caches of capacity 1, 2 keys: every sequence of 6 puts and gets on its own", false);
    add(L01 | L02 | L03, "plain-time", [=] { sequences<int, int, 2, true>(2, halves, second, 1, true, false, 8); }, "capacity 2, 2 keys, 5 instants: every sequence of 8 puts, gets and steps in time on its own", false);
    add(L05, "plain", [] { sequences<int, std::string, 2, true>(3, {}, second, 1, true, true, 4); }, "capacity 2, 3 keys, strings: every sequence of 4 puts and gets on its own", false);
    add(L01 | L02, "large-20", [=] { large<20, true>(thorough() ? 6 : 4); }, "capacity 20, up to 30 keys, all sequences of passes over them", false);
    add(L01 | L02, "large-256", [=] { large<256, false>(thorough() ? 3 : 2); }, "capacity 256, up to 384 keys, all sequences of passes over them", false);
    add(L01 | L02, "large-300", [=] { large<300, true>(thorough() ? 3 : 2); }, "capacity 300, up to 450 keys, all sequences of passes over them", false);
    add(L01 | L02 | L03, "worn", [=] { worn<int, int, 3, true>(4, thorough() ? 3 : 1); }, "capacity 3, 4 keys: one of six cycles of puts and gets 254 or 65533 times over, then any operation, then all keys are asked for", false);
    add(L01 | L02 | L03, "worn-quiet", [=] { worn<std::string, int, 2, false>(3, thorough() ? 3 : 1); }, "capacity 2, 3 keys that are strings, without exceptions: the same", false);
    add(L05, "two", [] { sequences<int, int, 1, true>(2, {}, second, 2, true, true); }, "two caches of capacity 1, 2 keys");
    return c;
}
