// The complete state of the objects under test, as a hash: their own bytes, and those of all memory they
// allocated. What is allocated within a Scope comes from an arena whose addresses depend on nothing but
// what is allocated there now, so that equal states have equal images; the explorer then needs to go on
// from each state only once, without knowing how the state is represented.
//
// For harnesses of one thread; include it in one file only, it replaces the global operator new.
#pragma once
#include "mc.hpp"

#include <cstdlib>
#include <cstring>
#include <new>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif

namespace mc::image {

constexpr std::size_t classes              = 8;
constexpr std::size_t sizes[classes]       = {16, 32, 64, 128, 256, 512, 1024, 4096};
constexpr std::size_t slots                = 128;
constexpr std::size_t redzone              = 32;
constexpr std::size_t per_slot(std::size_t c) { return sizes[c] + redzone; }
constexpr std::size_t start(std::size_t c) { return c ? start(c - 1) + slots * per_slot(c - 1) : redzone; }

alignas(64) inline unsigned char memory[start(classes)];
inline std::size_t used[classes][slots];    // size + 1, 0: free
inline std::size_t top[classes];            // slots from here on are free
inline bool        on = false;
inline bool        poisoned = false;
inline long        live = 0;
inline bool        faults = false;          // whether allocations may fail
inline bool        failed = false;          // whether one did

// What is allocated in here belongs to the objects under test.
struct Scope {
    bool was;
    explicit Scope(bool b = true) : was{on} { on = b; }
    ~Scope() { on = was; }
    Scope(Scope const&) = delete;
};
// Callbacks into the harness.
struct Pause : Scope {
    Pause() : Scope(false) {}
};

// At the start of an execution.
inline void
reset()
{
    on = faults = failed = false;
    if (!poisoned)
        ASAN_POISON_MEMORY_REGION(memory, sizeof memory);
    poisoned = true;
    for (std::size_t c = 0; c < classes; c++)
        for (std::size_t i = 0; i < top[c]; i++)
            if (used[c][i]) {
                ASAN_POISON_MEMORY_REGION(memory + start(c) + i * per_slot(c), sizes[c]);
                used[c][i] = 0;
            }
    std::memset(top, 0, sizeof top);
    live = 0;
}
inline bool
mine(void const* p)
{
    return p >= memory && p < memory + sizeof memory;
}
inline void*
take(std::size_t n)
{
    for (std::size_t c = 0; c < classes; c++)
        if (n <= sizes[c])
            for (std::size_t i = 0; i < slots; i++)
                if (!used[c][i]) {
                    unsigned char* p = memory + start(c) + i * per_slot(c);
                    ASAN_UNPOISON_MEMORY_REGION(p, n);
                    std::memset(p, 0xA5, n);    // whoever reads it before it writes it gets nonsense
                    used[c][i] = n + 1;
                    if (i >= top[c])
                        top[c] = i + 1;
                    live++;
                    return p;
                }
    return nullptr;
}
inline void
give(void* p)
{
    std::size_t c = classes - 1;
    while (static_cast<unsigned char*>(p) < memory + start(c))
        c--;
    std::size_t const o = static_cast<std::size_t>(static_cast<unsigned char*>(p) - memory) - start(c), i = o / per_slot(c);
    if (o % per_slot(c) || !used[c][i])
        mc::fail("memory is released that is not allocated (any more)");
    ASAN_POISON_MEMORY_REGION(p, sizes[c]);
    used[c][i] = 0;
    while (top[c] && !used[c][top[c] - 1])
        top[c]--;
    live--;
}
// Everything in the arena.
inline std::uint64_t
hash(std::uint64_t h = 1)
{
    for (std::size_t c = 0; c < classes; c++)
        for (std::size_t i = 0; i < top[c]; i++)
            h = used[c][i] ? hash_bytes(memory + start(c) + i * per_slot(c), used[c][i] - 1, h) : mix(h, 7);
    return h;
}

// The objects in place, and everything in the arena, whatever its addresses are: blocks are numbered in the order in
// which they are found, following the pointers from the objects on, and a pointer into a block counts as the block's
// number. (Blocks that no aligned word points to come last, in the order of their addresses.) Two states that differ
// in nothing but where their blocks lie have the same hash; the code under test must not depend on that, then.
struct Root {
    unsigned char const* p;
    std::size_t          n;
    bool const*          there;
};
inline Root          roots[512];
inline std::size_t   n_roots = 0;
inline std::uint64_t canonical_epoch = 0;
inline std::uint64_t
canonical(std::uint64_t h = 1)
{
    struct Number {
        std::uint64_t epoch, n;
    };
    static Number number[classes][slots];
    struct Found {
        std::size_t c, i;
    };
    static Found      found[classes * slots];
    std::size_t       n_found = 0, done = 0;
    std::uint64_t const epoch = ++canonical_epoch;
    auto const        base  = reinterpret_cast<std::uintptr_t>(memory);
    auto const        words = [&](unsigned char const* p, std::size_t n) {
        std::size_t k = 0;
        for (; k + 8 <= n; k += 8) {
            std::uint64_t v;
            std::memcpy(&v, p + k, 8);
            if (v - base - redzone < sizeof memory - redzone) {
                std::size_t c = classes - 1;
                while (v - base < start(c))
                    c--;
                std::size_t const o = v - base - start(c), i = o / per_slot(c);
                if (used[c][i]) {
                    if (number[c][i].epoch != epoch) {
                        number[c][i]     = {epoch, n_found};
                        found[n_found++] = {c, i};
                    }
                    h = mix(mix(h, 0xB10C + number[c][i].n), o % per_slot(c));
                    continue;
                }
            }
            h = mix(h, v);
        }
        for (; k < n; k++)
            h = mix(h, p[k]);
    };
    auto const follow = [&] {
        for (; done < n_found; done++) {
            auto const [c, i] = found[done];
            h                 = mix(h, used[c][i]);
            words(memory + start(c) + i * per_slot(c), used[c][i] - 1);
        }
    };
    for (std::size_t r = 0; r < n_roots; r++) {
        h = mix(h, *roots[r].there);
        if (*roots[r].there)
            words(roots[r].p, roots[r].n);
    }
    follow();
    for (std::size_t c = 0; c < classes; c++)
        for (std::size_t i = 0; i < top[c]; i++)
            if (used[c][i] && number[c][i].epoch != epoch) {
                number[c][i]     = {epoch, n_found};
                found[n_found++] = {c, i};
                h                = mix(h, 0xF00D);
                follow();
            }
    return h;
}

// An object under test, in place, at the same address in every execution.
template <class T>
struct Place {
    struct Room {
        alignas(T) unsigned char raw[sizeof(T)];
        alignas(8) unsigned char rest[64];
    };
    inline static Room room[sizeof(T) <= 256 ? 320 : 16];
    unsigned char*     raw;
    bool               there{false};

    template <class... A>
    T&
    make(A&&... a)
    {
        std::memset(raw, 0xA5, sizeof(T));
        Scope s;
        T*    p = new (static_cast<void*>(raw)) T(static_cast<A&&>(a)...);
        there   = true;
        return *p;
    }
    T&
    operator*() const
    {
        return *std::launder(reinterpret_cast<T*>(raw));
    }
    T*
    operator->() const
    {
        return &**this;
    }
    explicit operator bool() const { return there; }
    void
    reset()
    {
        if (there) {
            there = false;
            Scope s;
            (**this).~T();
        }
    }
    std::uint64_t
    hash(std::uint64_t h = 1) const
    {
        return there ? hash_bytes(raw, sizeof(T), h) : mix(h, 3);
    }
    explicit Place(std::size_t i = 0) : raw{room[i].raw}
    {
        ASAN_POISON_MEMORY_REGION(room[i].rest, sizeof room[i].rest);
        if (n_roots < sizeof roots / sizeof *roots)
            roots[n_roots++] = {raw, sizeof(T), &there};
    }
    Place(Place const&) = delete;
    ~Place()
    {
        reset();
        for (std::size_t r = 0; r < n_roots; r++)
            if (roots[r].there == &there) {
                for (n_roots--; r < n_roots; r++)
                    roots[r] = roots[r + 1];
            }
    }
};

}    // namespace mc::image

void*
operator new(std::size_t n)
{
    if (mc::image::on && mc::image::faults && mc::choose(2)) {
        mc::image::failed = true;
        throw std::bad_alloc();
    }
    if (mc::image::on)
        if (void* p = mc::image::take(n))
            return p;
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void
operator delete(void* p) noexcept
{
    if (mc::image::mine(p))
        mc::image::give(p);
    else
        std::free(p);
}
void
operator delete(void* p, std::size_t) noexcept
{
    operator delete(p);
}
