// Byte order and byte images (D01, D02).
#include "mc.hpp"

#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <list>
#include <memory>
#include <vector>
#include <xitren/func/data.hpp>

namespace f = xitren::func;

namespace {

// The bytes of a number, written down without knowing how this machine stores it.
template <class T>
std::array<std::uint8_t, sizeof(T)>
little(T x)
{
    std::array<std::uint8_t, sizeof(T)> a{};
    for (auto& b : a) {
        b = static_cast<std::uint8_t>(x & 0xff);
        x = static_cast<T>(sizeof(T) > 1 ? x >> 8 : 0);
    }
    return a;
}
template <class T>
std::array<std::uint8_t, sizeof(T)>
big(T x)
{
    auto a = little(x);
    std::reverse(a.begin(), a.end());
    return a;
}

template <class W>
bool
stored(W const& w, std::array<std::uint8_t, sizeof(typename W::data_type)> const& a)
{
    return sizeof(W) == a.size() && !std::memcmp(&w, a.data(), a.size());
}

// A number of which every byte is one of `n` values.
template <class T>
T
number(int n)
{
    static constexpr std::uint8_t bytes[] = {0x00, 0xff, 0x80, 0x01, 0x7f, 0x5a};
    T                             x       = 0;
    for (std::size_t i = 0; i < sizeof(T); i++)
        x = static_cast<T>(x << 8 | bytes[mc::choose(n)]);
    return x;
}

// One number in one byte order: how it is stored, and that it is the same number again.
template <class T>
void
one(T x)
{
    mc::step();
    auto const le = little(x), be = big(x);
    T const    copy = x;
    f::lsb_t<T> l{x}, l2{T(x)}, l3, l4{copy};
    f::msb_t<T> m{x}, m2{T(x)}, m3, m4{copy};
    MC_CHECK(l3.get() == 0 && m3.get() == 0, "a default one is not zero");
    MC_CHECK(&(l3 = x) == &l3 && &(m3 = x) == &m3, "an assignment does not return what was assigned to");
    {
        f::lsb_t<T> lc{l}, ld;
        f::msb_t<T> mc{m}, md;
        ld = l;
        md = m;
        MC_CHECK(lc.get() == x && ld.get() == x && mc.get() == x && md.get() == x, "a copy of %llx is another number", static_cast<unsigned long long>(x));
    }
    MC_CHECK(stored(l, le) && stored(l2, le) && stored(l3, le) && stored(l4, le), "%llx is not stored with its low byte first", static_cast<unsigned long long>(x));
    MC_CHECK(stored(m, be) && stored(m2, be) && stored(m3, be) && stored(m4, be), "%llx is not stored with its high byte first", static_cast<unsigned long long>(x));
    MC_CHECK(l.get() == x && l3.get() == x && m.get() == x && m3.get() == x, "%llx comes back as another number", static_cast<unsigned long long>(x));
    // From bytes that came from elsewhere, at an odd address.
    alignas(8) std::uint8_t room[2 * sizeof(T) + 2];
    std::memset(room, 0xee, sizeof room);
    std::memcpy(room + 1, le.data(), sizeof(T));
    std::memcpy(room + 1 + sizeof(T), be.data(), sizeof(T));
    auto* pl = reinterpret_cast<f::lsb_t<T>*>(room + 1);
    auto* pm = reinterpret_cast<f::msb_t<T>*>(room + 1 + sizeof(T));
    MC_CHECK(pl->get() == x && pm->get() == x, "%llx is read as another number", static_cast<unsigned long long>(x));
    T const y = static_cast<T>(~x);
    *pl       = y;
    *pm       = y;
    MC_CHECK(room[0] == 0xee && room[2 * sizeof(T) + 1] == 0xee, "a store of %llx reaches other bytes", static_cast<unsigned long long>(y));
    MC_CHECK(pl->get() == y && pm->get() == y && stored(*pl, little(y)) && stored(*pm, big(y)), "%llx is overwritten wrongly", static_cast<unsigned long long>(y));
}

template <class T>
void
order(T x, T y)
{
    mc::step();
    auto check = [&](auto a, auto b) {
        auto const c = b;
        MC_CHECK((a == c) == (x == y), "== of %llx and %llx", static_cast<unsigned long long>(x), static_cast<unsigned long long>(y));
        MC_CHECK((a < c) == (x < y), "< of %llx and %llx", static_cast<unsigned long long>(x), static_cast<unsigned long long>(y));
        MC_CHECK((a > c) == (x > y), "> of %llx and %llx", static_cast<unsigned long long>(x), static_cast<unsigned long long>(y));
        MC_CHECK((a <= c) == (x <= y), "<= of %llx and %llx", static_cast<unsigned long long>(x), static_cast<unsigned long long>(y));
        MC_CHECK((a >= c) == (x >= y), ">= of %llx and %llx", static_cast<unsigned long long>(x), static_cast<unsigned long long>(y));
        MC_CHECK(a.get() == x && b.get() == y, "a comparison changes a number");
    };
    check(f::lsb_t<T>{x}, f::lsb_t<T>{y});
    check(f::msb_t<T>{x}, f::msb_t<T>{y});
}

template <class T>
void
numbers(int n)
{
    T const x = number<T>(n);
    one(x);
    mc::state(mc::mix(1, x));
    mc::outcome(mc::mix(1, x));
}
template <class T>
void
pairs(int n)
{
    T const x = number<T>(n), y = number<T>(n);
    order(x, y);
    mc::state(mc::mix(mc::mix(2, x), y));
    mc::outcome(static_cast<std::uint64_t>(x < y) * 2 + (x == y));
}
void
all16()
{
    int const hi = mc::choose(256);
    for (int lo = 0; lo < 256; lo++) {
        auto const x = static_cast<std::uint16_t>(hi << 8 | lo);
        one(x);
        for (int d = -2; d <= 2; d++) {
            order(x, static_cast<std::uint16_t>(x + d));
            order(x, static_cast<std::uint16_t>(x + d * 256));
        }
        mc::state(mc::mix(3, x));
    }
    mc::outcome(static_cast<std::uint64_t>(hi));
}

// Sequences of assignments to fields that lie side by side.
void
fields(int depth)
{
    struct __attribute__((__packed__)) Record {
        std::uint8_t            tag;
        f::msb_t<std::uint16_t> a;
        f::lsb_t<std::uint32_t> b;
        f::msb_t<std::uint64_t> c;
        f::lsb_t<std::uint16_t> d;
    };
    static_assert(sizeof(Record) == 17);
    Record        r{0xcc, {}, {}, {}, {}};
    std::uint16_t a = 0, d = 0;
    std::uint32_t b = 0;
    std::uint64_t c = 0;
    for (int i = 0; i < depth; i++) {
        mc::step();
        int const           k    = mc::choose(4), v = mc::choose(4);
        static constexpr std::uint64_t n[] = {0, ~0ULL, 0x0102030405060708ULL, 0x8000000000000001ULL};
        switch (k) {
        case 0: r.a = a = static_cast<std::uint16_t>(n[v]); break;
        case 1: r.b = b = static_cast<std::uint32_t>(n[v]); break;
        case 2: r.c = c = n[v]; break;
        default: r.d = d = static_cast<std::uint16_t>(n[v]);
        }
        std::vector<std::uint8_t> want{0xcc};
        auto put = [&](auto const& x) { want.insert(want.end(), x.begin(), x.end()); };
        put(big(a));
        put(little(b));
        put(big(c));
        put(little(d));
        MC_CHECK(!std::memcmp(&r, want.data(), want.size()), "the record has other bytes than its fields");
        MC_CHECK(r.a.get() == a && r.b.get() == b && r.c.get() == c && r.d.get() == d, "a field reads as another number");
        mc::state(mc::hash_bytes(&r, sizeof r));
    }
    mc::outcome(mc::hash_bytes(&r, sizeof r));
}

// ---- D02 ----

template <class T>
void
swaps(int n)
{
    T const x = number<T>(n);
    mc::step();
    auto b = big(x);
    T    w = 0;    // b read with the low byte first
    for (std::size_t i = sizeof(T); i-- > 0;)
        w = static_cast<T>(sizeof(T) > 1 ? w << 8 | b[i] : b[i]);
    MC_CHECK(f::swap(x) == w, "swap(%llx) is %llx", static_cast<unsigned long long>(x), static_cast<unsigned long long>(f::swap(x)));
    MC_CHECK(f::swap(f::swap(x)) == x, "swapping %llx twice changes it", static_cast<unsigned long long>(x));
    mc::state(mc::mix(4, x));
    mc::outcome(mc::mix(4, x));
}
void
swap16()
{
    int const hi = mc::choose(256);
    for (int lo = 0; lo < 256; lo++) {
        mc::step();
        auto const x = static_cast<std::uint16_t>(hi << 8 | lo);
        MC_CHECK(f::swap(x) == static_cast<std::uint16_t>(lo << 8 | hi), "swap(%x) is %x", x, f::swap(x));
        mc::state(mc::mix(5, x));
    }
    mc::outcome(static_cast<std::uint64_t>(hi));
}

// Byte images of a type of n bytes, through every kind of iterator, at every distance from the ends.
template <class T>
void
images(int alphabet)
{
    static constexpr std::uint8_t bytes[] = {0x00, 0xff, 0x80, 0x01};
    constexpr std::size_t         n       = sizeof(T);
    std::array<std::uint8_t, n>   a{};
    std::uint8_t const            fill = mc::choose(2) ? 0xa5 : 0x33;
    int const                     before = mc::choose(3), after = mc::choose(3);
    // Long types: all patterns of their first and last bytes.
    for (std::size_t i = 0; i < n; i++)
        a[i] = i < 3 || i >= n - 3 ? bytes[mc::choose(alphabet)] : static_cast<std::uint8_t>(17 * i);
    mc::step();
    T t;
    std::memcpy(&t, a.data(), n);
    auto same = [&](T const& x) { return !std::memcmp(&x, a.data(), n); };

    MC_CHECK(f::data<T>::serialize(t) == a, "the image of an object has other bytes");
    MC_CHECK(same(f::data<T>::deserialize(a.begin())), "the object of an image has other bytes");
    MC_CHECK(same(f::data<T>::deserialize(f::data<T>::serialize(t).begin())), "an object does not survive its image");
    auto ends = [&](auto const& c) {
        return std::all_of(c.begin(), c.begin() + before, [&](auto x) { return x == fill; })
               && std::all_of(c.end() - after, c.end(), [&](auto x) { return x == fill; });
    };
    std::size_t const         total = n + static_cast<std::size_t>(before + after);
    {
        std::vector<std::uint8_t> v(total, fill);
        v.shrink_to_fit();
        f::data<T>::serialize(t, v.begin() + before);
        MC_CHECK(std::equal(a.begin(), a.end(), v.begin() + before) && ends(v), "an object is written to a vector with other bytes");
        MC_CHECK(same(f::data<T>::deserialize(v.begin() + before)), "an object is read from a vector with other bytes");
        MC_CHECK(same(f::data<T>::deserialize(v.cbegin() + before)), "an object is read from a vector with other bytes");
    }
    {
        auto p = std::make_unique<std::uint8_t[]>(total);
        std::fill_n(p.get(), total, fill);
        f::data<T>::serialize(t, p.get() + before);
        std::vector<std::uint8_t> v(p.get(), p.get() + total);
        MC_CHECK(std::equal(a.begin(), a.end(), v.begin() + before) && ends(v), "an object is written to memory with other bytes");
        MC_CHECK(same(f::data<T>::deserialize(static_cast<std::uint8_t const*>(p.get() + before))), "an object is read from memory with other bytes");
    }
    {
        // 510 bytes in: the object straddles two blocks of the deque.
        std::deque<std::uint8_t> q(508 + total, fill);
        f::data<T>::serialize(t, q.begin() + 508 + before);
        MC_CHECK(std::equal(a.begin(), a.end(), q.begin() + 508 + before) && ends(q), "an object is written to a deque with other bytes");
        MC_CHECK(same(f::data<T>::deserialize(q.begin() + 508 + before)), "an object is read from a deque with other bytes");
    }
    auto const h = mc::hash_bytes(a.data(), n);
    mc::state(mc::mix(h, static_cast<std::uint64_t>(before * 3 + after)));
    mc::outcome(h);
}

struct __attribute__((__packed__)) S3 { std::uint8_t a; std::uint16_t b; };
struct S8 { std::uint16_t a, b; std::uint32_t c; };    // no padding: its bytes are nobody's
struct __attribute__((__packed__)) S15 { std::uint64_t a; std::uint8_t b[3]; f::msb_t<std::uint32_t> c; };
struct S300 { std::uint8_t a[300]; };
struct S70000 { std::uint32_t a[17500]; };

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, std::function<void()> f, char const* text) {
        Config k;
        k.name = n;
        k.what = text;
        k.body = std::move(f);
        c.push_back(std::move(k));
    };
    int const more = thorough() ? 1 : 0;
    add("D01-all-16", [] { all16(); }, "every number of 16 bits, and its order against its neighbours");
    add("D01-numbers-32", [=] { numbers<std::uint32_t>(6); }, "every number of which each byte is one of six values");
    add("D01-numbers-64", [=] { numbers<std::uint64_t>(4 + more); }, "every number of which each byte is one of four values");
    add("D01-pairs-16", [=] { pairs<std::uint16_t>(6); }, "order of every two such numbers");
    add("D01-pairs-32", [=] { pairs<std::uint32_t>(4 + more); }, "order of every two such numbers");
    add("D01-pairs-64", [=] { pairs<std::uint64_t>(2); }, "order of every two such numbers");
    add("D01-fields", [=] { fields(4 + more); }, "all sequences of assignments to the fields of a record");
    add("D02-swap-16", [] { swap16(); }, "every number of 16 bits");
    add("D02-swap-32", [=] { swaps<std::uint32_t>(6); }, "every number of which each byte is one of six values");
    add("D02-swap-64", [=] { swaps<std::uint64_t>(4 + more); }, "every number of which each byte is one of four values");
    char const* const t = "byte patterns through pointers and iterators of array, vector, deque, with bytes around them";
    add("D02-image-1", [=] { images<std::uint8_t>(4); }, t);
    add("D02-image-2", [=] { images<std::uint16_t>(4); }, t);
    add("D02-image-3", [=] { images<S3>(4); }, t);
    add("D02-image-4", [=] { images<std::uint32_t>(4); }, t);
    add("D02-image-8", [=] { images<S8>(3 + more); }, t);
    add("D02-image-15", [=] { images<S15>(3 + more); }, t);
    add("D02-image-300", [=] { images<S300>(2 + more); }, t);
    add("D02-image-70000", [=] { images<S70000>(1 + more); }, t);
    add("D02-image-double", [=] { images<double>(3 + more); }, t);
    return c;
}
