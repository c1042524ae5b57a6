// Packets (K01 .. K03): all contents over an alphabet, all sizes, all small corruptions.
#include "packet_common.hpp"
#include "mc.hpp"

#include <deque>
#include <memory>
#include <xitren/func/packet.hpp>

using namespace xitren::func;

namespace {

using Bytes = std::vector<std::uint8_t>;

struct __attribute__((__packed__)) H1 { std::uint8_t a; };
struct __attribute__((__packed__)) F1 { std::uint8_t b; };
struct __attribute__((__packed__)) H3 { std::uint8_t type; lsb_t<std::uint16_t> length; };
struct __attribute__((__packed__)) F5 { msb_t<std::uint32_t> x; std::uint8_t y; };
struct __attribute__((__packed__)) H2 { std::uint16_t magic; };
struct __attribute__((__packed__)) F8 { std::array<std::uint8_t, 6> a; msb_t<std::uint16_t> b; };

// Not packed: gaps would come in between if nobody took care.
struct N4 { std::uint32_t a; };
struct N6 { std::uint16_t a; std::uint16_t b; std::uint16_t c; };
struct N8 { std::uint64_t a; };
struct __attribute__((__packed__)) F300 { std::uint8_t a; std::array<std::uint8_t, 299> b; };

struct __attribute__((__packed__)) E3 { std::uint8_t a; lsb_t<std::uint16_t> b; };
struct __attribute__((__packed__)) E16 { lsb_t<std::uint64_t> a; msb_t<std::uint64_t> b; };

template <class T>
Bytes
image(T const& t)
{
    auto const* p = reinterpret_cast<std::uint8_t const*>(&t);
    return Bytes(p, p + sizeof t);
}
template <class T>
T
from(std::uint8_t const* p)
{
    T t;
    std::memcpy(static_cast<void*>(&t), p, sizeof t);
    return t;
}
template <class C>
Bytes
with_crc(Bytes b)
{
    auto const c = C::bytes(b.data(), b.size());
    b.insert(b.end(), c.begin(), c.end());
    return b;
}

// A T whose first and last bytes are chosen from an alphabet.
template <class T>
T
any(int alphabet, std::size_t ends)
{
    static constexpr std::uint8_t v[] = {0x00, 0xff, 0x80, 0x01, 0x55};
    std::uint8_t                  b[sizeof(T)];
    for (std::size_t i = 0; i < sizeof(T); i++)
        b[i] = i < ends || i >= sizeof(T) - ends ? v[mc::choose(alphabet)] : static_cast<std::uint8_t>(11 * i + 3);
    return from<T>(b);
}

// ---- K01 ----

template <class H, class F, class C>
struct Fixed {
    using P                      = packet<H, F, C>;
    static constexpr std::size_t n = sizeof(H) + sizeof(F) + C::size;

    static std::array<std::uint8_t, n>
    array(Bytes const& b)
    {
        std::array<std::uint8_t, n> a;
        std::copy(b.begin(), b.end(), a.begin());
        return a;
    }
    // A packet object has these bytes, and `ok` says whether they are valid.
    static void
    object(P p, Bytes const& b, bool ok, char const* how)
    {
        auto const a = p.to_array();
        MC_CHECK(Bytes(a.begin(), a.end()) == b, "%s: the bytes are %s, not %s", how, hex(Bytes(a.begin(), a.end())).c_str(), hex(b).c_str());
        MC_CHECK(p.valid() == ok, "%s: %s is %s", how, hex(b).c_str(), ok ? "not valid" : "valid");
        P const& q = p;
        MC_CHECK(image(p.header()) == Bytes(b.begin(), b.begin() + sizeof(H)) && image(q.header()) == image(p.header()), "%s: wrong header", how);
        MC_CHECK(image(p.fields()) == Bytes(b.begin() + sizeof(H), b.end() - C::size) && image(q.fields()) == image(p.fields()), "%s: wrong fields", how);
        MC_CHECK(image(p.crc()) == Bytes(b.end() - C::size, b.end()) && image(q.crc()) == image(p.crc()), "%s: wrong checksum", how);
    }
    // The ways in, for any bytes.
    static void
    ways_in(Bytes const& b)
    {
        mc::step();
        bool const ok  = with_crc<C>(Bytes(b.begin(), b.end() - C::size)) == b;
        auto       arr = array(b);
        object(P{array(b)}, b, ok, "from an array");
        object(P{arr.begin()}, b, ok, "from a pointer");
        Bytes exact(b);
        exact.shrink_to_fit();
        object(P{exact.begin()}, b, ok, "from an iterator");
        object(P::deserialize(exact.begin()), b, ok, "deserialize(iterator)");
        object(P::deserialize(static_cast<std::uint8_t const*>(exact.data())), b, ok, "deserialize(pointer)");
        auto const [good, header, fields] = P::deserialize(arr);
        MC_CHECK(good == ok, "deserialize(array): %s is %s", hex(b).c_str(), ok ? "refused" : "accepted");
        MC_CHECK(image(header) == Bytes(b.begin(), b.begin() + sizeof(H)), "deserialize(array): wrong header");
        MC_CHECK(image(fields) == Bytes(b.begin() + sizeof(H), b.end() - C::size), "deserialize(array): wrong fields");
    }
    static Bytes
    frame(H const& h, F const& f)
    {
        Bytes b = image(h), fb = image(f);
        b.insert(b.end(), fb.begin(), fb.end());
        return with_crc<C>(b);
    }
    // Types with an alignment: references to them would point anywhere.
    static void
    gaps(int alphabet, std::size_t ends)
    {
        static_assert(P::length == n && sizeof(P) == n);
        H const     h    = any<H>(alphabet, ends);
        F const     f    = any<F>(alphabet, ends);
        Bytes const want = frame(h, f);
        mc::step();
        auto const s = P::serialize(h, f);
        MC_CHECK(Bytes(s.begin(), s.end()) == want, "serialize: %s, not %s", hex(Bytes(s.begin(), s.end())).c_str(), hex(want).c_str());
        for (int x = 0; x < 3; x++) {
            Bytes b{want};
            b[static_cast<std::size_t>(x) * (n - 1) / 2] ^= static_cast<std::uint8_t>(x ? 0x41 : 0);
            bool const ok  = b == want;
            auto const arr = array(b);
            P          p{array(b)};
            auto const a = p.to_array();
            MC_CHECK(Bytes(a.begin(), a.end()) == b, "to_array: %s, not %s", hex(Bytes(a.begin(), a.end())).c_str(), hex(b).c_str());
            MC_CHECK(p.valid() == ok, "%s is %s", hex(b).c_str(), ok ? "not valid" : "valid");
            auto const [good, header, fields] = P::deserialize(arr);
            MC_CHECK(good == ok, "deserialize(array): %s is %s", hex(b).c_str(), ok ? "refused" : "accepted");
            MC_CHECK(image(header) == Bytes(b.begin(), b.begin() + sizeof(H)), "deserialize(array): wrong header");
            MC_CHECK(image(fields) == Bytes(b.begin() + sizeof(H), b.end() - C::size), "deserialize(array): wrong fields");
        }
        P const    made{h, f};
        auto const a = made.to_array();
        MC_CHECK(Bytes(a.begin(), a.end()) == want, "from header and fields: %s, not %s", hex(Bytes(a.begin(), a.end())).c_str(), hex(want).c_str());
        auto const k = mc::hash_bytes(want.data(), want.size());
        mc::state(k);
        mc::outcome(k);
    }
    static void
    contents(int alphabet, std::size_t ends)
    {
        static_assert(P::length == n && sizeof(P) == n);
        H const     h    = any<H>(alphabet, ends);
        F const     f    = any<F>(alphabet, ends);
        Bytes const want = frame(h, f);
        object(P{h, f}, want, true, "from header and fields");
        auto const s = P::serialize(h, f);
        MC_CHECK(Bytes(s.begin(), s.end()) == want, "serialize: %s, not %s", hex(Bytes(s.begin(), s.end())).c_str(), hex(want).c_str());
        ways_in(want);
        Bytes out(n + 2, 0xa5);
        P::serialize(P{h, f}, out.begin() + 1);
        MC_CHECK(out.front() == 0xa5 && out.back() == 0xa5 && Bytes(out.begin() + 1, out.end() - 1) == want, "serialize(packet, iterator) writes %s", hex(out).c_str());
        MC_CHECK(P{}.to_array() == (std::array<std::uint8_t, n>{}), "a new packet is not zero");
        auto const k = mc::hash_bytes(want.data(), want.size());
        mc::state(k);
        mc::outcome(k);
    }
    // Changes of one packet through its references, copies, and the checksum in between.
    static void
    edits(int depth)
    {
        H     h = from<H>(Bytes(sizeof(H), 0x11).data());
        F     f = from<F>(Bytes(sizeof(F), 0x22).data());
        P     p{h, f};
        Bytes b = frame(h, f);
        for (int d = 0; d < depth; d++) {
            mc::step();
            int const  where = mc::choose(4);
            std::uint8_t const x = static_cast<std::uint8_t>(mc::choose(2) ? 0x90 + d : 0x11);
            switch (where) {
            case 0: *reinterpret_cast<std::uint8_t*>(&p.header()) = x; b[0] = x; break;
            case 1: *(reinterpret_cast<std::uint8_t*>(&p.fields()) + sizeof(F) - 1) = x; b[sizeof(H) + sizeof(F) - 1] = x; break;
            case 2: {
                b       = with_crc<C>(Bytes(b.begin(), b.end() - C::size));
                p.crc() = from<typename C::value_type>(b.data() + n - C::size);
                break;
            }
            default: {
                P q{p};
                *reinterpret_cast<std::uint8_t*>(&p.fields()) = static_cast<std::uint8_t>(x + 1);
                object(q, b, with_crc<C>(Bytes(b.begin(), b.end() - C::size)) == b, "a copy");
                p = q;
            }
            }
            object(p, b, with_crc<C>(Bytes(b.begin(), b.end() - C::size)) == b, "an edited packet");
            mc::state(mc::hash_bytes(b.data(), b.size()));
        }
        mc::outcome(mc::hash_bytes(b.data(), b.size()));
    }
    // Every corruption of one byte, of two bits; two of them never make a valid packet out of a valid one.
    static void
    corruptions()
    {
        H const     h = any<H>(2, 1);
        F const     f = any<F>(2, 1);
        Bytes const b = frame(h, f);
        Bytes       c = b;
        int const   i = mc::choose(static_cast<int>(n));
        int const   k = mc::choose(2);
        auto        bad = [&] {
            if (c == b)
                return;
            mc::step();
            auto const arr = array(c);
            MC_CHECK(!P{array(c)}.valid(), "%s is valid, a corruption of %s", hex(c).c_str(), hex(b).c_str());
            MC_CHECK(!std::get<0>(P::deserialize(arr)), "%s is accepted, a corruption of %s", hex(c).c_str(), hex(b).c_str());
            mc::state(mc::hash_bytes(c.data(), c.size()));
        };
        auto const at = static_cast<std::size_t>(i);
        if (k == 0)
            for (int x = 0; x < 256; x++) {
                c[at] = static_cast<std::uint8_t>(x);
                bad();
            }
        else
            for (int bit = 0; bit < 8; bit++)
                for (std::size_t other = at * 8 + static_cast<std::size_t>(bit) + 1; other < n * 8; other++) {
                    c = b;
                    c[at] ^= static_cast<std::uint8_t>(1 << bit);
                    c[other / 8] ^= static_cast<std::uint8_t>(1 << (other % 8));
                    bad();
                }
        mc::outcome(mc::mix(mc::hash_bytes(b.data(), b.size()), static_cast<std::uint64_t>(i * 2 + k)));
    }
};

// ---- K02, K03 ----

template <class H, class F, class E, class C, std::size_t Max>
struct Variable {
    using A                            = packet_accessor<Max>;
    using In                           = typename A::template fields_in<H, F, E>;
    static constexpr std::size_t fixed = sizeof(H) + sizeof(F) + C::size;
    static constexpr std::size_t room  = (Max - fixed) / sizeof(E);

    std::unique_ptr<A> a = std::make_unique<A>();    // its own block: reading past it does not go unnoticed
    std::vector<Range> seen;

    Variable() { ranges = &seen; }
    ~Variable() { ranges = nullptr; }

    void
    only_inside(char const* how)
    {
        auto const* b = a->storage().data();
        for (auto const& r : seen) {
            auto const* p = static_cast<std::uint8_t const*>(r.first);
            MC_CHECK(r.n <= Max && (!r.n || (p >= b && p + r.n <= b + Max)), "%s: a checksum is computed over %zu bytes outside the storage", how, r.n);
        }
        seen.clear();
    }
    static std::vector<E>
    elements(std::size_t n, int pattern)
    {
        Bytes b(n * sizeof(E));
        for (std::size_t i = 0; i < b.size(); i++)
            b[i] = pattern == 0 ? 0 : pattern == 1 ? 0xff : static_cast<std::uint8_t>(i * 37 + 5);
        std::vector<E> e;
        for (std::size_t i = 0; i < n; i++)
            e.push_back(from<E>(b.data() + i * sizeof(E)));
        return e;
    }
    static Bytes
    frame(H const& h, F const& f, std::vector<E> const& e)
    {
        Bytes b = image(h), x = image(f);
        b.insert(b.end(), x.begin(), x.end());
        for (auto const& y : e) {
            x = image(y);
            b.insert(b.end(), x.begin(), x.end());
        }
        return with_crc<C>(b);
    }
    // What the accessor holds is a frame with these contents.
    void
    holds(H const& h, F const& f, std::vector<E> const& e, char const* how)
    {
        Bytes const want = frame(h, f, e);
        A const&    ca   = *a;
        MC_CHECK(a->size() == want.size(), "%s: the size is %zu, not %zu", how, a->size(), want.size());
        Bytes const got(ca.storage().begin(), ca.storage().begin() + static_cast<std::ptrdiff_t>(want.size()));
        MC_CHECK(got == want, "%s: the frame is %s, not %s", how, hex(got).c_str(), hex(want).c_str());
        auto const out = ca.template deserialize<H, F, E, C>();
        only_inside(how);
        MC_CHECK(out.valid, "%s: a frame that was just written is not valid", how);
        MC_CHECK(image(H{out.header}) == image(h) && image(F{out.fields}) == image(f), "%s: other header or fields", how);
        MC_CHECK(std::size_t{out.size} == e.size(), "%s: %zu elements, not %zu", how, std::size_t{out.size}, e.size());
        E const* p = out.data;
        MC_CHECK(e.empty() || !std::memcmp(p, e.data(), e.size() * sizeof(E)), "%s: other elements", how);
        auto const fast = ca.template deserialize_no_check<H, F, E, C>();
        H const* const  fh = fast.header;
        F const* const  ff = fast.fields;
        E const* const  fd = fast.data;
        MC_CHECK(!std::memcmp(fh, &h, sizeof h) && !std::memcmp(ff, &f, sizeof f), "%s: other header or fields without check", how);
        MC_CHECK(std::size_t{fast.size} == e.size() && (e.empty() || !std::memcmp(fd, e.data(), e.size() * sizeof(E))), "%s: other elements without check", how);
    }
    bool
    write(H const& h, F const& f, std::vector<E> const& e, std::size_t n)
    {
        In const   in{h, f, n, e.data()};
        bool const r = a->template serialize<H, F, E, C>(in);
        only_inside("serialize");
        return r;
    }

    // Sequences of frames of every size, also too large ones, in one accessor.
    void
    frames(int depth, int patterns)
    {
        H              h{};
        F              f{};
        std::vector<E> e;
        bool           any_yet = false;
        for (int d = 0; d < depth; d++) {
            mc::step();
            // Sizes: 0 .. room + 2, and those where the length in bytes wraps around.
            static constexpr std::size_t huge[] = {~std::size_t{0}, ~std::size_t{0} / sizeof(E), ~std::size_t{0} / sizeof(E) + 1,
                                                   std::size_t{0} - fixed, (std::size_t{0} - fixed) / sizeof(E) + 1, std::size_t{1} << 63};
            static std::vector<std::size_t> const sizes = [] {
                std::vector<std::size_t> v(std::begin(huge), std::end(huge));
                for (std::size_t i = 0; i <= room + 2; i++)
                    if (room <= 12 || i <= 3 || i + 3 >= room || (i * sizeof(E) + fixed + 4 >= 256 && i * sizeof(E) + fixed <= 256 + 2)
                        || (i * sizeof(E) + fixed + 2 >= 65536 && i * sizeof(E) + fixed <= 65536 + 2) || i == 256 || i == 65536)
                        v.push_back(i);
                return v;
            }();
            std::size_t const n = sizes[static_cast<std::size_t>(mc::choose(static_cast<int>(sizes.size())))];
            int const      p = mc::choose(patterns);
            H const        nh = from<H>(Bytes(sizeof(H), static_cast<std::uint8_t>(d * 16 + p)).data());
            F const        nf = any<F>(2, d == 0 ? 1 : 0);
            auto const     ne = n <= room + 2 ? elements(n, p) : elements(room + 2, p);
            bool const     ok = write(nh, nf, ne, n);
            MC_CHECK(ok == (n <= room), "a frame of %zu elements is %s, there is room for %zu", n, ok ? "accepted" : "refused", room);
            if (ok) {
                h       = nh;
                f       = nf;
                e       = ne;
                any_yet = true;
            }
            if (any_yet)
                holds(h, f, e, ok ? "a frame" : "after a frame that was refused");
            else
                MC_CHECK(a->size() == 0, "a frame that was refused has a size");
            mc::state(mc::hash_bytes(a->storage().data(), Max, a->size()));
        }
        // A copy is a frame of its own.
        if (any_yet) {
            A copy{*a};
            write(from<H>(Bytes(sizeof(H), 0x77).data()), f, elements(room, 1), room);
            *a = copy;
            holds(h, f, e, "a copy");
        }
        mc::outcome(mc::mix(mc::hash_bytes(a->storage().data(), Max), a->size()));
    }

    // What arrives: any size, bytes of a frame or not.
    void
    arrives()
    {
        mc::step();
        static constexpr std::size_t odd[] = {Max + 1, Max + sizeof(E), Max + fixed, std::size_t{1} << 32, std::size_t{1} << 63, ~std::size_t{0},
                                              std::size_t{0} - C::size, std::size_t{0} - fixed, fixed + sizeof(E) * ((~std::size_t{0} - fixed) / sizeof(E))};
        std::size_t const n = static_cast<std::size_t>(mc::choose(static_cast<int>(room) + 1));    // a frame of n elements
        int const         c = mc::choose(static_cast<int>(Max) + 1 + 9);
        std::size_t const size = c <= static_cast<int>(Max) ? static_cast<std::size_t>(c) : odd[c - static_cast<int>(Max) - 1];
        // ... or bytes whose checksum is right for that size although the rest may not be.
        bool const        right = mc::choose(2) && size >= C::size && size <= Max;
        Bytes             b     = frame(from<H>(Bytes(sizeof(H), 0x42).data()), from<F>(Bytes(sizeof(F), 0x18).data()), elements(n, mc::choose(3)));
        b.resize(Max, 0xc3);
        if (right) {
            auto const x = C::bytes(b.data(), size - C::size);
            std::copy(x.begin(), x.end(), b.begin() + static_cast<std::ptrdiff_t>(size - C::size));
        }
        std::copy(b.begin(), b.end(), a->storage().begin());
        a->size(size);
        MC_CHECK(a->size() == size, "the size is not what was set");
        verdict(b, size);
        mc::state(mc::mix(mc::hash_bytes(b.data(), b.size()), size));
        mc::outcome(mc::mix(mc::mix(n, size), right));
    }
    void
    verdict(Bytes const& b, std::size_t size)
    {
        bool const shape = size >= fixed && size <= Max && (size - fixed) % sizeof(E) == 0;
        bool       want  = shape;
        if (shape) {
            auto const x = C::bytes(b.data(), size - C::size);
            want         = std::equal(x.begin(), x.end(), b.begin() + static_cast<std::ptrdiff_t>(size - C::size));
        }
        auto const out = static_cast<A const&>(*a).template deserialize<H, F, E, C>();
        if (want) {
            bool whole = false;
            for (auto const& r : seen)
                whole |= r.first == a->storage().data() && r.n == size - C::size;
            MC_CHECK(whole, "a frame of %zu bytes is accepted without a checksum of all of it", size);
        }
        only_inside("deserialize");
        MC_CHECK(out.valid == want, "%zu of the bytes %s are %s", size, hex(b).c_str(), want ? "refused" : "accepted");
        if (want) {
            MC_CHECK(image(H{out.header}) == Bytes(b.begin(), b.begin() + sizeof(H)), "another header");
            MC_CHECK(std::size_t{out.size} == (size - fixed) / sizeof(E), "%zu elements in %zu bytes", std::size_t{out.size}, size);
            E const* p = out.data;
            MC_CHECK(!out.size || !std::memcmp(p, b.data() + sizeof(H) + sizeof(F), size - fixed), "other elements");
        }
        MC_CHECK(std::equal(b.begin(), b.end(), a->storage().begin()) && a->size() == size, "reading a frame changes it");
    }
    // Every corruption of one byte, of two bits, of two bytes side by side (some), of a valid frame.
    void
    corruptions()
    {
        std::size_t const n = static_cast<std::size_t>(mc::choose(static_cast<int>(room) + 1));
        Bytes const good = frame(from<H>(Bytes(sizeof(H), 0x42).data()), from<F>(Bytes(sizeof(F), 0x18).data()), elements(n, mc::choose(3)));
        int const   kind = mc::choose(3);
        auto const  at   = static_cast<std::size_t>(mc::choose(static_cast<int>(good.size())));
        Bytes       c    = good;
        auto        bad  = [&] {
            if (c == good)
                return;
            mc::step();
            std::copy(c.begin(), c.end(), a->storage().begin());
            a->size(c.size());
            auto const out = a->template deserialize<H, F, E, C>();
            only_inside("deserialize");
            MC_CHECK(!out.valid, "%s is accepted, a corruption of %s", hex(c).c_str(), hex(good).c_str());
            mc::state(mc::hash_bytes(c.data(), c.size()));
        };
        if (kind == 0) {
            for (int x = 0; x < 256; x++) {
                c[at] = static_cast<std::uint8_t>(x);
                bad();
            }
        } else if (kind == 1) {
            for (int bit = 0; bit < 8; bit++)
                for (std::size_t other = at * 8 + static_cast<std::size_t>(bit) + 1; other < good.size() * 8; other++) {
                    c = good;
                    c[at] ^= static_cast<std::uint8_t>(1 << bit);
                    c[other / 8] ^= static_cast<std::uint8_t>(1 << (other % 8));
                    bad();
                }
        } else if (at + 1 < good.size() - C::size) {
            // Bursts of up to 16 bits (of the contents: the checksum itself may be stored with its low byte first).
            for (int x = 0; x < 65536; x += mc::thorough() ? 1 : 61) {
                c[at]     = static_cast<std::uint8_t>(x);
                c[at + 1] = static_cast<std::uint8_t>(x >> 8);
                bad();
            }
        }
        mc::outcome(mc::mix(mc::hash_bytes(good.data(), good.size()), at * 3 + static_cast<std::size_t>(kind)));
    }
};

template <class V>
std::function<void()>
frames(int depth, int patterns)
{
    return [=] { V{}.frames(depth, patterns); };
}
template <class V>
void
arrives()
{
    V{}.arrives();
}
template <class V>
void
corrupt()
{
    V{}.corruptions();
}

using LE16 = lsb_t<std::uint16_t>;
using BE32 = msb_t<std::uint32_t>;

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, std::function<void()> f, char const* text) {
        Config k;
        k.name = n;
        k.what = text;
        k.body = std::move(f);
        c.push_back(std::move(k));
    };
    int const more = thorough() ? 1 : 0;
    using A = Fixed<H1, F1, Crc16>;
    using B = Fixed<H3, F5, Crc16>;
    using D = Fixed<H2, F8, Crc32>;
    char const* const t1 = "header and fields over an alphabet: every way in and out";
    add("K01-contents-small", [] { A::contents(5, 1); }, t1);
    add("K01-contents-16", [=] { B::contents(3 + more, 2); }, t1);
    add("K01-contents-32", [=] { D::contents(3 + more, 2); }, t1);
    add("K01-contents-long", [=] { Fixed<H3, F300, Crc16>::contents(3, 1); }, t1);
    char const* const tg = "contents of types that are aligned, not packed";
    add("K01-gaps-between", [=] { Fixed<H1, N4, Crc16>::gaps(3 + more, 1); }, tg);
    add("K01-gaps-behind", [=] { Fixed<N6, F1, Crc32>::gaps(3 + more, 1); }, tg);
    add("K01-gaps-eight", [=] { Fixed<H3, N8, Crc32>::gaps(3 + more, 1); }, tg);
    char const* const t2 = "all sequences of changes through references, of copies and of new checksums";
    add("K01-edits-small", [=] { A::edits(4 + more); }, t2);
    add("K01-edits-16", [=] { B::edits(4 + more); }, t2);
    add("K01-edits-32", [=] { D::edits(4 + more); }, t2);
    char const* const t3 = "every corruption of one byte or two bits of a packet";
    add("K03-packet-small", [] { A::corruptions(); }, t3);
    add("K03-packet-16", [] { B::corruptions(); }, t3);
    add("K03-packet-32", [] { D::corruptions(); }, t3);

    char const* const t4 = "all sequences of frames in one accessor, of every size up to two more than there is room for and of huge ones";
    int const deep = 3 + more;
    add("K02-bytes", frames<Variable<H1, F1, std::uint8_t, Crc16, 12>>(deep, 2), t4);
    add("K02-none", frames<Variable<H1, F1, std::uint8_t, Crc16, 4>>(deep, 2), t4);
    add("K02-words", frames<Variable<H3, F5, LE16, Crc16, 17>>(deep, 2), t4);
    add("K02-threes", frames<Variable<H3, F5, E3, Crc16, 24>>(deep, 2), t4);
    add("K02-fours", frames<Variable<H2, F8, BE32, Crc32, 32>>(deep, 2), t4);
    add("K02-sixteens", frames<Variable<H3, F5, E16, Crc32, 100>>(deep, 2), t4);
    add("K02-aligned", frames<Variable<H2, F8, std::uint16_t, Crc16, 20>>(deep, 2), t4);
    add("K02-long", frames<Variable<H1, F1, std::uint8_t, Crc32, 300>>(2, 3), t4);
    add("K02-long-words", frames<Variable<H3, F5, LE16, Crc16, 301>>(2, 3), t4);

    add("K02-huge", frames<Variable<H3, F5, std::uint8_t, Crc16, 70000>>(1, 3), t4);
    add("K02-huge-twice", frames<Variable<H3, F5, E16, Crc32, 66000>>(2, 1), t4);

    char const* const t5 = "bytes of a frame of every size, announced with every size, with and without the checksum that fits";
    add("K03-sizes-bytes", arrives<Variable<H1, F1, std::uint8_t, Crc16, 24>>, t5);
    add("K03-sizes-none", arrives<Variable<H1, F1, std::uint8_t, Crc16, 4>>, t5);
    add("K03-sizes-long", arrives<Variable<H3, F5, std::uint8_t, Crc16, 270>>, t5);
    add("K03-sizes-words", arrives<Variable<H3, F5, LE16, Crc16, 31>>, t5);
    add("K03-sizes-threes", arrives<Variable<H3, F5, E3, Crc16, 40>>, t5);
    add("K03-sizes-fours", arrives<Variable<H2, F8, BE32, Crc32, 48>>, t5);
    add("K03-sizes-sixteens", arrives<Variable<H3, F5, E16, Crc32, 90>>, t5);
    char const* const t6 = "every corruption of one byte or two bits, and bursts of 16 bits, of frames of every size";
    add("K03-corrupt-bytes", corrupt<Variable<H1, F1, std::uint8_t, Crc16, 12>>, t6);
    add("K03-corrupt-words", corrupt<Variable<H3, F5, LE16, Crc16, 20>>, t6);
    add("K03-corrupt-fours", corrupt<Variable<H2, F8, BE32, Crc32, 28>>, t6);
    add("K03-corrupt-threes", corrupt<Variable<H3, F5, E3, Crc16, 20>>, t6);
    return c;
}
