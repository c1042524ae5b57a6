// Standard containers that live in a static_heap (H05), against the same containers on the free store.
#include "image.hpp"
#include "mc.hpp"

#include <algorithm>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <xitren/allocators/static_heap_allocator.hpp>

using namespace xitren::allocators;

namespace {

template <std::size_t Size>
struct Heaps {
    struct Mem {
        unsigned char before[64];
        alignas(static_heap<Size>) unsigned char raw[sizeof(static_heap<Size>)];
        unsigned char after[64];
    };
    static inline Mem  mem[2];
    static_heap<Size>* h[2];
    std::size_t        total;

    std::vector<bool>  counts;    // the words of a heap that only count operations

    // `fresh`: nobody has used the heaps before.
    explicit Heaps(bool fresh = false)
    {
        using heap = static_heap<Size>;
        auto make  = [&] {
            memset(static_cast<void*>(mem), 0x5A, sizeof mem);
            for (int i = 0; i < 2; i++)
                h[i] = new (mem[i].raw) heap();
        };
        auto use = [&](int i) { h[i]->deallocate(h[i]->allocate(8)); };
        make();
        use(0);
        counts.assign((sizeof(heap) + 7) / 8, false);
        for (int n = 0; n < 3; n++) {
            unsigned char now[sizeof(heap)];
            memcpy(now, mem[0].raw, sizeof now);
            use(0);
            for (std::size_t k = 0; n && k < sizeof now; k++)
                if (now[k] != mem[0].raw[k])
                    counts[k / 8] = true;
        }
        total = h[0]->free_heap_size();
        for (auto* x : h)
            x->~heap();
        make();
        // the first request initializes a heap
        for (int i = 0; i < 2 && !fresh; i++)
            use(i);
    }
    ~Heaps()
    {
        for (int i = 0; i < 2; i++)
            h[i]->~static_heap<Size>();
    }
    void
    intact() const
    {
        for (auto const& m : mem)
            for (int i = 0; i < 64; i++)
                MC_CHECK(m.before[i] == 0x5A && m.after[i] == 0x5A, "memory around the heap was written");
    }
    bool
    inside(int i, void const* p) const
    {
        auto const* b = static_cast<unsigned char const*>(p);
        return b >= mem[i].raw && b < mem[i].raw + sizeof mem[i].raw;
    }
    // Without what only counts operations.
    std::uint64_t
    closed_hash(std::uint64_t x) const
    {
        for (auto const& m : mem) {
            unsigned char now[sizeof m.raw];
            memcpy(now, m.raw, sizeof now);
            for (std::size_t k = 0; k < sizeof now; k++)
                if (counts[k / 8])
                    now[k] = 0;
            x = mc::hash_bytes(now, sizeof now, x);
        }
        return x;
    }
    std::uint64_t
    hash() const
    {
        return mc::hash_bytes(mem[0].raw, sizeof mem[0].raw, mc::hash_bytes(mem[1].raw, sizeof mem[1].raw));
    }
};

template <class A, class B>
void
same(A const& a, B const& b, char const* when)
{
    MC_CHECK(a.size() == b.size(), "after %s the container has %zu elements, it should be %zu", when, a.size(), b.size());
    auto i = b.begin();
    for (auto const& x : a) {
        MC_CHECK(x == *i, "after %s an element is wrong", when);
        ++i;
    }
}

// Sequences of operations on three containers: #0 and #1 in heap 0, #2 in heap 1. Without a depth: of any length,
// with elements of two values, or of one; the heaps and the containers are in static memory then, the same in every execution.
template <std::size_t Size, class C, class R, class Step>
void
sequences(unsigned depth, int n_ops, Step const& step, int values = 2)
{
    Heaps<Size> w{depth && mc::choose(2)};
    {
        using A = typename C::allocator_type;
        mc::image::Place<C> place[3]{mc::image::Place<C>{0}, mc::image::Place<C>{1}, mc::image::Place<C>{2}};
        C*                  v[3];
        R                   r[3];
        for (int i = 0; i < 3; i++)
            v[i] = &place[i].make(A{*w.h[i / 2]});
        for (unsigned d = 0; depth == 0 || d < depth; d++) {
            int const o = mc::choose(n_ops);
            mc::step();
            mc::note("operation %d", o);
            try {
                step(v, r, o, depth ? d : static_cast<unsigned>(mc::choose(values)), w);
            } catch (std::bad_alloc const&) {
                // strong guarantee of the operations that are used: nothing has changed
                mc::note("  std::bad_alloc");
            }
            std::uint64_t model = 5;
            for (int i = 0; i < 3; i++) {
                same(*v[i], r[i], "an operation");
                for (auto const& x : *v[i])
                    if (sizeof x > 1 || v[i]->size() > 30)
                        MC_CHECK(w.inside(i / 2, &x), "an element is not in the heap of its container");
                model = mc::mix(place[i].hash(model), r[i].size());
            }
            for (auto* h : w.h)
                MC_CHECK(h->free_heap_size() <= w.total, "more is free than there is");
            w.intact();
            if (depth) {
                mc::state(w.hash());
                continue;
            }
            // nobody is interested in how little was free
            for (auto* h : w.h)
                h->reset_minimum_ever_free_heap_size();
            if (mc::visit(w.closed_hash(model), 0))
                break;
        }
        mc::outcome(w.closed_hash(0));
    }
    for (auto* h : w.h) {
        h->deallocate(h->allocate(8));
        MC_CHECK(h->free_heap_size() == w.total, "all containers are gone, but %zu of %zu bytes are free", h->free_heap_size(), w.total);
    }
    w.intact();
}

template <std::size_t Size>
void
vectors(unsigned depth)
{
    using C = std::vector<long, static_heap_allocator<long, Size>>;
    using R = std::vector<long>;
    sequences<Size, C, R>(depth, 15, [](C** v, R* r, int o, unsigned d, auto& w) {
        long const x = static_cast<long>(d) * 7 + 1;
        switch (o) {
        case 0: v[0]->push_back(x); r[0].push_back(x); break;
        case 1: v[1]->push_back(x); r[1].push_back(x); break;
        case 2: v[2]->push_back(x); r[2].push_back(x); break;
        case 3:
            if (!r[0].empty()) {
                v[0]->erase(v[0]->begin());
                r[0].erase(r[0].begin());
            }
            break;
        case 4: v[0]->resize(r[0].size() + 3, x); r[0].resize(r[0].size() + 3, x); break;
        case 5: v[0]->clear(); v[0]->shrink_to_fit(); r[0].clear(); break;
        case 6: v[1]->reserve(r[1].size() + 5); break;
        case 7: v[0]->shrink_to_fit(); break;
        case 8: v[0]->swap(*v[1]); r[0].swap(r[1]); break;
        case 9: *v[0] = *v[1]; r[0] = r[1]; break;
        case 10: {
            // within one heap: the memory changes hands
            *v[1] = std::move(*v[0]);
            r[1]  = r[0];
            v[0]->clear();
            r[0].clear();
            break;
        }
        case 11: {
            // from one heap to the other: the elements move, the memory stays
            *v[2] = std::move(*v[0]);
            r[2]  = r[0];
            v[0]->clear();
            r[0].clear();
            break;
        }
        case 12: *v[1] = *v[2]; r[1] = r[2]; break;
        case 13: {
            C t{*v[0]};
            same(t, r[0], "a copy");
            for (auto& y : t)
                MC_CHECK(w.inside(0, &y), "a copy is not in the heap of the original");
            break;
        }
        default: {
            // more than there is, and more than can be counted
            std::size_t const big = v[0]->max_size();
            bool              thrown = false;
            try {
                v[0]->reserve(big);
            } catch (std::bad_alloc const&) {
                thrown = true;
            } catch (std::length_error const&) {
                thrown = true;
            }
            MC_CHECK(thrown, "a vector is given room for %zu elements", big);
            break;
        }
        }
    }, 1);
}

template <std::size_t Size>
void
lists(unsigned depth)
{
    using C = std::list<long, static_heap_allocator<long, Size>>;
    using R = std::list<long>;
    sequences<Size, C, R>(depth, 10, [](C** v, R* r, int o, unsigned d, auto&) {
        long const x = static_cast<long>(d) * 5 + 1;
        switch (o) {
        case 0: v[0]->push_back(x); r[0].push_back(x); break;
        case 1: v[0]->push_front(x); r[0].push_front(x); break;
        case 2: v[1]->push_back(x); r[1].push_back(x); break;
        case 3: v[2]->push_back(x); r[2].push_back(x); break;
        case 4:
            if (!r[0].empty()) {
                v[0]->pop_front();
                r[0].pop_front();
            }
            break;
        case 5:
            if (r[0].size() > 1) {
                v[0]->erase(std::next(v[0]->begin()));
                r[0].erase(std::next(r[0].begin()));
            }
            break;
        case 6: v[1]->splice(v[1]->begin(), *v[0]); r[1].splice(r[1].begin(), r[0]); break;
        case 7: v[0]->swap(*v[1]); r[0].swap(r[1]); break;
        case 8:
            if (!r[2].empty()) {
                // to the other heap; a list may be left half assigned when memory runs out, so only what fits
                if (r[2].size() <= 2 && r[0].size() >= r[2].size()) {
                    *v[0] = std::move(*v[2]);
                    r[0]  = r[2];
                    v[2]->clear();
                    r[2].clear();
                }
            }
            break;
        default: v[0]->clear(); r[0].clear(); break;
        }
    });
}

template <std::size_t Size>
void
maps(unsigned depth)
{
    using C = std::set<long, std::less<>, static_heap_allocator<long, Size>>;
    using R = std::set<long>;
    struct Make : C {
        explicit Make(typename C::allocator_type const& a) : C(std::less<>{}, a) {}
    };
    sequences<Size, Make, R>(depth, 11, [](Make** v, R* r, int o, unsigned d, auto&) {
        int const  i = o % 3;
        long const x = static_cast<long>((d + 1) / 2) * 3 % 4;
        if (o < 6) {
            long const k = o < 3 ? x : x + 2;
            v[i]->insert(k);
            r[i].insert(k);
        } else if (o < 9) {
            v[i]->erase(x);
            r[i].erase(x);
        } else if (o == 9) {
            v[0]->swap(*v[1]);
            r[0].swap(r[1]);
        } else {
            v[1]->merge(*v[0]);
            r[1].merge(r[0]);
        }
    });
}

template <std::size_t Size>
void
strings(unsigned depth)
{
    using C = std::basic_string<char, std::char_traits<char>, static_heap_allocator<char, Size>>;
    using R = std::string;
    sequences<Size, C, R>(depth, 9, [](C** v, R* r, int o, unsigned d, auto&) {
        char const x = static_cast<char>('a' + d);
        switch (o) {
        case 0: v[0]->append(13, x); r[0].append(13, x); break;
        case 1: v[1]->append(40, x); r[1].append(40, x); break;
        case 6: v[2]->append(20, x); r[2].append(20, x); break;
        case 3: *v[0] = *v[1]; r[0] = r[1]; break;
        case 4: v[0]->swap(*v[1]); r[0].swap(r[1]); break;
        case 2: v[0]->clear(); v[0]->shrink_to_fit(); r[0].clear(); break;
        case 7: v[0]->erase(0, 9); r[0].erase(0, 9); break;
        case 5: *v[2] = std::move(*v[0]); r[2] = r[0]; v[0]->clear(); r[0].clear(); break;
        default: v[0]->insert(0, 3, x); r[0].insert(0, 3, x); break;
        }
    }, 1);
}

// Smart pointers: the objects and their counters are in the heaps, and go when nobody needs them.
struct Object {
    static inline long alive;
    long               a, b;
    explicit Object(long x) : a{x}, b{-x} { alive++; }
    Object(Object const&) = delete;
    ~Object()
    {
        alive--;
        a = b = 0;
    }
};
template <std::size_t Size>
void
pointers(unsigned depth)
{
    Heaps<Size> w{static_cast<bool>(mc::choose(2))};
    Object::alive = 0;
    {
        using A = static_heap_allocator<Object, Size>;
        struct Delete {
            A    a;
            long* calls;
            void
            operator()(Object* p)
            {
                ++*calls;
                std::allocator_traits<A>::destroy(a, p);
                a.deallocate(p, 1);
            }
        };
        long                            calls = 0;
        std::shared_ptr<Object>         s[3];
        std::weak_ptr<Object>           weak;
        std::unique_ptr<Object, Delete> own{nullptr, Delete{A{*w.h[0]}, &calls}};
        // what they are: the number of the object, where it is, who has it
        long value[3] = {0, 0, 0}, of_weak = 0, next = 1;
        int  home[1000] = {};
        long made = 0;
        for (unsigned d = 0; d < depth; d++) {
            int const o = mc::choose(10);
            mc::step();
            mc::note("operation %d", o);
            auto make = [&](int h) {
                home[next] = h;
                A const a{*w.h[h]};
                return std::allocate_shared<Object>(a, next);
            };
            try {
                switch (o) {
                case 0: s[0] = make(0); value[0] = next++; break;
                case 1: s[1] = make(1); value[1] = next++; break;
                case 2: s[0] = s[1]; value[0] = value[1]; break;
                case 3: s[0].reset(); value[0] = 0; break;
                case 4: s[1].reset(); value[1] = 0; break;
                case 5: weak = s[0]; of_weak = value[0]; break;
                case 6: {
                    s[2]     = weak.lock();
                    bool any = false;
                    for (long v : value)
                        any |= v == of_weak;
                    value[2] = any ? of_weak : 0;
                    break;
                }
                case 7: weak.reset(); of_weak = 0; break;
                case 8: {
                    A       a{*w.h[0]};
                    Object* p = a.allocate(1);
                    std::allocator_traits<A>::construct(a, p, 77);
                    own.reset(p);
                    made++;
                    break;
                }
                default: {
                    // from the one kind to the other: the counters are in the other heap
                    if (own) {
                        A const a{*w.h[1]};
                        Delete  del{A{*w.h[0]}, &calls};
                        Object* p = own.release();
                        made--;
                        home[next] = 0;
                        value[1]   = 0;
                        s[1].reset();
                        // (deletes the object if there is no memory for the counters)
                        s[1]     = std::shared_ptr<Object>(p, del, a);
                        p->a     = next;
                        p->b     = -next;
                        value[1] = next++;
                    }
                }
                }
            } catch (std::bad_alloc const&) {
                mc::note("  std::bad_alloc");
            }
            std::set<long> kept;
            for (int i = 0; i < 3; i++) {
                MC_CHECK(static_cast<bool>(s[i]) == (value[i] != 0), "a pointer is %s", s[i] ? "not empty" : "empty");
                if (!s[i])
                    continue;
                kept.insert(value[i]);
                MC_CHECK(s[i]->a == value[i] && s[i]->b == -value[i], "an object has changed");
                MC_CHECK(w.inside(home[value[i]], s[i].get()), "an object is not in the heap of its allocator");
            }
            if (own)
                MC_CHECK(own->a == 77 && w.inside(0, own.get()), "an object has changed, or is not in its heap");
            MC_CHECK(weak.expired() == !kept.count(of_weak), "an object is %s", weak.expired() ? "gone" : "still there");
            MC_CHECK(Object::alive == static_cast<long>(kept.size()) + (own ? 1 : 0), "%ld objects are alive, not %zu", Object::alive, kept.size() + (own ? 1 : 0));
            w.intact();
            mc::state(w.hash());
        }
        mc::outcome(w.hash());
    }
    MC_CHECK(Object::alive == 0, "%ld objects are left", Object::alive);
    for (auto* h : w.h) {
        h->deallocate(h->allocate(8));
        MC_CHECK(h->free_heap_size() == w.total, "all pointers are gone, but %zu of %zu bytes are free", h->free_heap_size(), w.total);
    }
    w.intact();
}

// Containers of containers, and of several kinds, in one heap.
template <std::size_t Size>
void
several(unsigned depth)
{
    Heaps<Size> w{static_cast<bool>(mc::choose(2))};
    {
        using Text = std::basic_string<char, std::char_traits<char>, static_heap_allocator<char, Size>>;
        using Item = std::pair<long const, Text>;
        using A    = static_heap_allocator<Item, Size>;
        A const                                                                                   a{*w.h[0]};
        std::map<long, Text, std::less<>, A>                                                      m{std::less<>{}, a};
        std::unordered_map<long, long, std::hash<long>, std::equal_to<>, static_heap_allocator<std::pair<long const, long>, Size>> u{
            0, std::hash<long>{}, std::equal_to<>{}, static_heap_allocator<std::pair<long const, long>, Size>{*w.h[0]}};
        std::vector<Text, static_heap_allocator<Text, Size>> v{static_heap_allocator<Text, Size>{*w.h[0]}};
        std::map<long, std::string>           rm;
        std::unordered_map<long, long>        ru;
        std::vector<std::string>              rv;
        static_heap_allocator<char, Size> const chars{*w.h[0]};
        for (unsigned d = 0; d < depth; d++) {
            int const o = mc::choose(9);
            mc::step();
            mc::note("operation %d", o);
            long const  x = d % 3;
            std::string text(d % 2 ? 30 : 3, static_cast<char>('a' + d));
            try {
                switch (o) {
                case 0: {
                    Text t(text.begin(), text.end(), chars);
                    m.emplace(x, std::move(t));
                    rm.emplace(x, text);
                    break;
                }
                case 1: m.erase(x); rm.erase(x); break;
                case 2: u.emplace(x, d); ru.emplace(x, d); break;
                case 3: u.erase(x); ru.erase(x); break;
                case 4: {
                    Text t(text.begin(), text.end(), chars);
                    v.push_back(std::move(t));
                    rv.push_back(text);
                    break;
                }
                case 5:
                    if (!rv.empty()) {
                        v.erase(v.begin());
                        rv.erase(rv.begin());
                    }
                    break;
                case 6: u.rehash(0); break;
                case 7:
                    if (!rm.empty() && !rv.empty()) {
                        std::swap(m.begin()->second, v.front());
                        std::swap(rm.begin()->second, rv.front());
                    }
                    break;
                default: m.clear(); rm.clear(); break;
                }
            } catch (std::bad_alloc const&) {
                mc::note("  std::bad_alloc");
            }
            MC_CHECK(m.size() == rm.size() && u.size() == ru.size() && v.size() == rv.size(), "sizes %zu %zu %zu, not %zu %zu %zu", m.size(), u.size(),
                     v.size(), rm.size(), ru.size(), rv.size());
            auto text_is = [&](Text const& t, std::string const& r) {
                MC_CHECK(std::string(t.begin(), t.end()) == r, "a text is %s, not %s", t.c_str(), r.c_str());
                if (t.size() > 15)
                    MC_CHECK(w.inside(0, t.data()), "a text is not in the heap of its allocator");
            };
            auto i = rm.begin();
            for (auto const& e : m) {
                MC_CHECK(e.first == i->first && w.inside(0, &e), "an element of the map is wrong");
                text_is(e.second, i++->second);
            }
            for (auto const& e : u)
                MC_CHECK(ru.count(e.first) && ru.at(e.first) == e.second && w.inside(0, &e), "an element of the unordered map is wrong");
            for (std::size_t k = 0; k < v.size(); k++)
                text_is(v[k], rv[k]);
            w.intact();
            mc::state(w.hash());
        }
        mc::outcome(w.hash());
    }
    for (auto* h : w.h) {
        h->deallocate(h->allocate(8));
        MC_CHECK(h->free_heap_size() == w.total, "all containers are gone, but %zu of %zu bytes are free", h->free_heap_size(), w.total);
    }
    w.intact();
}

struct Triple {
    long a[3];
    explicit Triple(long x = 0) : a{x, x + 1, x + 2} {}
};
struct Page {
    unsigned char a[1500];
    explicit Page(int x = 0) { std::memset(a, x, sizeof a); }
};

// The allocator itself: what it hands out, for every count around the limits, and who is equal to whom.
template <class T, std::size_t Size>
void
direct()
{
    Heaps<Size>                    w;
    static_heap_allocator<T, Size> a{*w.h[0]}, b{*w.h[1]};
    static_heap_allocator<char, Size> other{a};
    static_heap_allocator<T, Size> same_heap{*w.h[0]};
    MC_CHECK(a == same_heap && !(a != same_heap), "two allocators of one heap differ");
    MC_CHECK(a == other && !(a != other), "a rebound allocator of the same heap differs");
    MC_CHECK(!(a == b) && a != b, "allocators of different heaps are equal");
    std::vector<std::size_t> counts;
    for (std::size_t i = 0; i <= Size / sizeof(T) + 3; i++)
        counts.push_back(i);
    for (int bit = 8; bit < 64; bit++)
        for (long d : {-2L, -1L, 0L, 1L, 2L})
            counts.push_back((1UL << bit) + static_cast<std::size_t>(d));
    for (std::size_t d = 0; d < 40; d++) {
        counts.push_back(~0UL - d);
        counts.push_back(~0UL / sizeof(T) - d);
        counts.push_back(~0UL / sizeof(T) + d + 1);
    }
    std::size_t const n = counts[static_cast<std::size_t>(mc::choose(static_cast<int>(counts.size())))];
    bool const used = mc::choose(2);
    T* first = used ? a.allocate(1) : nullptr;
    std::size_t const f = w.h[0]->free_heap_size();
    mc::step();
    T* p = nullptr;
    try {
        p = a.allocate(n);
    } catch (std::bad_alloc const&) {
        MC_CHECK(w.h[0]->free_heap_size() == f, "a refused request changes the free size");
        MC_CHECK(n == 0 || n > 64 / sizeof(T), "%zu elements are refused", n);
    }
    if (p) {
        MC_CHECK(n <= Size / sizeof(T), "%zu elements are granted", n);
        MC_CHECK(w.inside(0, p) && (n == 0 || w.inside(0, reinterpret_cast<char*>(p + n) - 1)), "the elements are not in the heap");
        MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "the elements are not aligned");
        for (std::size_t i = 0; i < n; i++)
            p[i] = T(3);
        w.intact();
        static_heap_allocator<T, Size>{a}.deallocate(p, n);
        MC_CHECK(w.h[0]->free_heap_size() == f, "deallocate leaves %zu bytes, it was %zu", w.h[0]->free_heap_size(), f);
    }
    if (first)
        a.deallocate(first, 1);
    MC_CHECK(w.h[0]->free_heap_size() == w.total, "everything was freed, but %zu of %zu bytes are free", w.h[0]->free_heap_size(), w.total);
    mc::state(mc::mix(n, used));
    mc::outcome(mc::mix(p != nullptr, n));
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, std::function<void()> f, char const* text, bool closure = false) {
        Config k;
        k.closure = closure;
        k.name = std::string("H05-") + n;
        k.body = std::move(f);
        k.what = text;
        c.push_back(std::move(k));
    };
    unsigned const more = thorough() ? 1 : 0;
    add("vector-160", [=] { vectors<160>(5 + more); }, "all sequences of 15 operations on three vectors, two in one heap, one in another; memory runs out");
    add("vector-512", [=] { vectors<512>(5 + more); }, "the same with larger heaps");
    add("list-200", [=] { lists<200>(6 + more); }, "all sequences of 10 operations on three lists");
    add("set-300", [=] { maps<300>(5 + more); }, "all sequences of 11 operations on three sets");
    add("string-256", [=] { strings<256>(6 + more); }, "all sequences of 9 operations on three strings");
    add("vector-closed", [=] { vectors<88>(0); }, "sequences of any length of the operations on three vectors", true);
    add("list-closed", [=] { lists<112>(0); }, "sequences of any length of the operations on three lists, elements of two values", true);
    add("set-closed", [=] { maps<160>(0); }, "sequences of any length of the operations on three sets of at most four elements", true);
    add("pointers-150", [=] { pointers<150>(6 + more); }, "all sequences of 10 operations on shared, weak and owning pointers to objects in two heaps; memory runs out");
    add("pointers-400", [=] { pointers<400>(5 + more); }, "the same with larger heaps");
    add("several-300", [=] { several<300>(6 + more); }, "all sequences of 9 operations on a map of texts, a hash table and a vector of texts in one heap; memory runs out");
    add("several-900", [=] { several<900>(5 + more); }, "the same with larger heaps");
    add("direct-char", [] { direct<char, 200>(); }, "requests of the allocator: every count up to the heap size, and around every power of two");
    add("direct-long", [] { direct<long, 200>(); }, "the same for 8-byte elements");
    add("direct-short", [] { direct<short, 333>(); }, "the same for 2-byte elements");
    add("direct-triple", [] { direct<Triple, 400>(); }, "the same for 24-byte elements");
    add("direct-char-5000", [] { direct<char, 5000>(); }, "the same with a heap of 5000 bytes");
    add("direct-page-70000", [] { direct<Page, 70000>(); }, "the same for elements of 1500 bytes, with a heap of 70000 bytes");
    add("direct-long-70000", [] { direct<long, 70000>(); }, "the same for 8-byte elements");
    return c;
}
