// static_heap (H01 .. H04): all operation sequences up to a depth, against what a user can observe.
#include "mc.hpp"

#include <algorithm>
#include <cstring>
#include <new>
#include <xitren/allocators/static_heap.hpp>

using xitren::allocators::static_heap;

namespace {

enum : unsigned { H01 = 1, H02 = 2, H03 = 4, H04 = 8 };
using u8 = std::uint8_t;

struct Block {
    u8*         p;
    std::size_t n;          // requested
    std::size_t charge;     // what it took from the free size
    u8          tag;
};

template <std::size_t Size>
struct World {
    using heap = static_heap<Size>;
    struct Mem {
        alignas(64) u8 before[64];
        alignas(heap) u8 raw[sizeof(heap)];
        u8 after[64];
    };
    static inline Mem mem;

    unsigned           what;
    heap*              h{};
    std::vector<Block> live;
    std::size_t        total{};         // free size of the fresh heap
    std::size_t        header{};        // bytes in front of a block
    u8*                base{};          // the first byte that can belong to a block
    std::size_t        low{};           // the least the free size has been since the last reset
    std::size_t        allocs{}, frees{};
    static inline long fails;           // calls of the on_fail callback; at the same address in every execution
    u8                 next_tag{1};
    bool               keep{false};     // whether blocks that were released are remembered
    std::vector<Block> stale;           // those whose memory has not been handed out since
    std::vector<bool>  counts;          // the words of the heap object that only count operations

    explicit World(unsigned w) : what{w}
    {
        memset(static_cast<void*>(&mem), 0xA5, sizeof mem);
        h = new (mem.raw) heap();
        fails = 0;
        h->on_fail([p = &fails] { ++*p; });
        total = h->free_heap_size();
        low   = total;
        if (what & H02) {
            MC_CHECK(total > 0 && total <= Size, "a fresh heap of %zu bytes has %zu free", Size, total);
            MC_CHECK(h->minimum_ever_free_heap_size() == total, "a fresh heap reports a minimum below its free size");
        }
        // what a block costs, learnt from the fresh heap
        void* p = h->allocate(8);
        allocs  = 1;
        if (!p)
            mc::fail("a fresh heap of %zu bytes refuses 8 bytes", Size);
        header = total - h->free_heap_size() - 8;
        base   = static_cast<u8*>(p) - header;
        h->deallocate(p);
        frees = 1;
        // what goes on changing when the same block is allocated and released again
        u8 now[sizeof(heap)];
        counts.assign((sizeof(heap) + 7) / 8, false);
        for (int i = 0; i < 3; i++) {
            memcpy(now, mem.raw, sizeof now);
            h->deallocate(h->allocate(8));
            for (std::size_t k = 0; i && k < sizeof now; k++)
                if (now[k] != mem.raw[k])
                    counts[k / 8] = true;
        }
        allocs += 3;
        frees += 3;
        h->reset_minimum_ever_free_heap_size();
        if (what & H02) {
            MC_CHECK(header < 64, "a block of 8 bytes costs %zu", header + 8);
            MC_CHECK(h->free_heap_size() == total, "allocate and deallocate left %zu free bytes of %zu", h->free_heap_size(), total);
        }
    }
    ~World() { h->~heap(); }

    static std::size_t
    need(std::size_t n, std::size_t header)
    {
        if (n > ~static_cast<std::size_t>(0) - header - 7)
            return ~static_cast<std::size_t>(0);    // more than any gap
        return (n + header + 7) & ~static_cast<std::size_t>(7);
    }

    // The largest contiguous part of the heap that no live block occupies, and what else is known of the gaps.
    struct Gaps {
        std::size_t largest{}, smallest{~0UL}, count{};
    };
    template <class Gap>
    void
    each_gap(Gap gap) const
    {
        std::vector<std::pair<std::size_t, std::size_t>> occ;
        for (auto const& b : live) {
            std::size_t const at = static_cast<std::size_t>(b.p - header - base);
            auto              it = occ.begin();
            while (it != occ.end() && it->first < at)
                ++it;
            occ.insert(it, {at, at + b.charge});
        }
        std::size_t at = 0;
        for (auto const& o : occ) {
            if (o.first > at)
                gap(at, o.first);
            at = o.second;
        }
        if (total > at)
            gap(at, total);
    }
    Gaps
    gaps() const
    {
        Gaps g;
        each_gap([&](std::size_t from, std::size_t to) {
            g.count++;
            g.largest  = std::max(g.largest, to - from);
            g.smallest = std::min(g.smallest, to - from);
        });
        return g;
    }

    void
    contents(char const* when)
    {
        if (!(what & H01))
            return;
        for (auto const& b : live)
            for (std::size_t i = 0; i < b.n; i++)
                MC_CHECK(b.p[i] == static_cast<u8>(b.tag + i * 7), "byte %zu of a live block of %zu bytes has changed after %s", i, b.n, when);
        for (auto x : mem.before)
            MC_CHECK(x == 0xA5, "memory in front of the heap was written by %s", when);
        for (auto x : mem.after)
            MC_CHECK(x == 0xA5, "memory behind the heap was written by %s", when);
    }

    void
    account(char const* when)
    {
        std::size_t f = h->free_heap_size();
        if (f < low)
            low = f;
        if (what & H02) {
            std::size_t used = 0;
            for (auto const& b : live)
                used += b.charge;
            MC_CHECK(f == total - used, "after %s %zu bytes are free, but the live blocks were charged %zu of %zu", when, f, used, total);
            MC_CHECK(h->minimum_ever_free_heap_size() == low, "after %s the minimum free size is %zu, it was %zu", when,
                     h->minimum_ever_free_heap_size(), low);
            if (live.empty())
                MC_CHECK(f == total, "everything was freed, but %zu of %zu bytes are free", f, total);
        }
        if (what & (H02 | H03)) {
            typename heap::heap_stats_t s{};
            h->v_port_get_heap_stats(&s);
            if (what & H02) {
                MC_CHECK(s.x_available_heap_space_in_bytes == f, "after %s the statistics say %zu bytes are free, free_heap_size() %zu",
                         when, s.x_available_heap_space_in_bytes, f);
                MC_CHECK(s.x_minimum_ever_free_bytes_remaining == low, "after %s the minimum in the statistics is wrong", when);
                MC_CHECK(s.x_number_of_successful_allocations == allocs && s.x_number_of_successful_frees == frees,
                         "after %s the statistics say %zu allocations and %zu frees, it was %zu and %zu", when,
                         s.x_number_of_successful_allocations, s.x_number_of_successful_frees, allocs, frees);
            }
            if (what & H03) {
                Gaps const g = gaps();
                MC_CHECK(s.x_size_of_largest_free_block_in_bytes == g.largest,
                         "after %s the largest free block is %zu bytes, there is a gap of %zu", when,
                         s.x_size_of_largest_free_block_in_bytes, g.largest);
                MC_CHECK(s.x_number_of_free_blocks == g.count, "after %s there are %zu free blocks for %zu gaps", when,
                         s.x_number_of_free_blocks, g.count);
                if (g.count)
                    MC_CHECK(s.x_size_of_smallest_free_block_in_bytes == g.smallest,
                             "after %s the smallest free block is %zu bytes, the smallest gap %zu", when,
                             s.x_size_of_smallest_free_block_in_bytes, g.smallest);
            }
        }
    }

    void
    alloc(std::size_t n, bool zeroed = false, std::size_t count = 1)
    {
        mc::step();
        mc::note("%s(%zu)", zeroed ? "callocate" : "allocate", zeroed ? count : n);
        std::size_t const before = h->free_heap_size();
        Gaps const        g      = (what & H03) ? gaps() : Gaps{};
        long const        f0     = fails;
        void*             q      = zeroed ? h->callocate(count, n) : h->allocate(n);
        if (zeroed)
            n *= count;
        u8* p = static_cast<u8*>(q);
        if (!p) {
            if (what & H04) {
                MC_CHECK(fails == f0 + 1, "a refused request of %zu bytes calls the failure callback %ld times", n, fails - f0);
                MC_CHECK(h->free_heap_size() == before, "a refused request changes the free size");
            }
            if (what & H03)
                MC_CHECK(n == 0 || g.largest < need(n, header), "%zu bytes are refused, although a gap of %zu bytes is free", n, g.largest);
            return;
        }
        allocs++;
        std::size_t const charge = before - h->free_heap_size();
        if (what & H04) {
            MC_CHECK(fails == f0, "a request that succeeds calls the failure callback");
            MC_CHECK(n != 0, "a request of 0 bytes is given a block");
        }
        if (what & (H01 | H04)) {
            if (zeroed)
                for (std::size_t i = 0; i < n; i++)
                    MC_CHECK(p[i] == 0, "byte %zu of %zu zeroed bytes is %d", i, n, p[i]);
        }
        if (what & H03)
            MC_CHECK(g.largest >= need(n, header), "%zu bytes are granted, although the largest gap is %zu", n, g.largest);
        if (what & H01) {
            MC_CHECK((reinterpret_cast<std::uintptr_t>(p) & 7) == 0, "the block %p is not aligned to 8", static_cast<void*>(p));
            MC_CHECK(p >= mem.raw && p + n <= mem.raw + sizeof mem.raw, "a block of %zu bytes reaches out of the heap object", n);
            for (auto const& b : live)
                MC_CHECK(p + n <= b.p || b.p + b.n <= p, "a new block of %zu bytes overlaps a live one of %zu", n, b.n);
        }
        if (what & H02)
            MC_CHECK(charge >= n && charge < n + 64, "a block of %zu bytes is charged %zu", n, charge);
        Block b{p, n, charge, next_tag};
        // not only the requested bytes: nothing else of the heap may be in the way of a live block
        contents("a request");
        next_tag = static_cast<u8>(next_tag * 5 + 3);
        b.tag    = static_cast<u8>((p - base) * 3 + 11);
        for (std::size_t i = 0; i < n; i++)
            p[i] = static_cast<u8>(b.tag + i * 7);
        live.push_back(b);
        std::erase_if(stale, [&](Block const& o) { return o.p - header < p - header + charge && p - header < o.p - header + o.charge; });
    }

    void
    free_one(std::size_t i, bool twice, bool fill = true)
    {
        mc::step();
        Block const b = live[i];
        mc::note("deallocate(#%zu of %zu bytes)%s", i, b.n, twice ? " twice" : "");
        live.erase(live.begin() + static_cast<long>(i));
        if (keep)
            stale.push_back(b);
        // Left as it is, or of one kind: fewer states.
        memset(b.p, fill ? 0xEE : 0, b.n);
        long const        f0     = fails;
        std::size_t const before = h->free_heap_size();
        h->deallocate(b.p);
        frees++;
        if (what & H02)
            MC_CHECK(h->free_heap_size() == before + b.charge, "freeing a block that was charged %zu gives back %zu", b.charge,
                     h->free_heap_size() - before);
        if (twice) {
            std::size_t const f = h->free_heap_size();
            h->deallocate(b.p);
            if (what & H04)
                MC_CHECK(h->free_heap_size() == f, "freeing a block twice changes the free size from %zu to %zu", f, h->free_heap_size());
        }
        if (what & H04)
            MC_CHECK(fails == f0, "deallocate calls the failure callback");
    }

    // A block that was released some time ago is released again.
    void
    again(std::size_t i)
    {
        mc::step();
        mc::note("deallocate(a block of %zu bytes) again", stale[i].n);
        std::size_t const f  = h->free_heap_size();
        long const        f0 = fails;
        h->deallocate(stale[i].p);
        MC_CHECK(h->free_heap_size() == f, "releasing a block again, later, changes the free size from %zu to %zu", f, h->free_heap_size());
        MC_CHECK(fails == f0, "deallocate calls the failure callback");
    }

    void
    finish()
    {
        contents("the last operation");
        // everything goes back, in the order of the choices that are left: first to last is enough here,
        // every other order is a sequence of its own
        while (!live.empty())
            free_one(live.size() / 2, false);
        account("freeing everything");
        if (what & H03) {
            void* p = h->allocate(total - header);
            MC_CHECK(p, "everything was freed, but the whole heap of %zu bytes cannot be allocated again", total - header);
            h->deallocate(p);
        }
    }

    std::uint64_t
    hash(unsigned)
    {
        // The bytes of the heap object are its whole state (the callback is the same in every execution).
        return mc::hash_bytes(mem.raw, sizeof mem.raw, live_hash());
    }
    // The same without what only counts operations: finitely many states, however many operations there are. Not
    // `exact`: nor what earlier blocks have left in the free memory, beyond the first bytes of a gap.
    std::uint64_t
    closed_hash(bool exact) const
    {
        u8 now[sizeof(heap)];
        memcpy(now, mem.raw, sizeof now);
        for (std::size_t k = 0; k < sizeof now; k++)
            if (counts[k / 8])
                now[k] = 0;
        if (!exact) {
            each_gap([&](std::size_t from, std::size_t to) {
                auto const at = static_cast<std::size_t>(base - mem.raw);
                if (to - from > header)
                    memset(now + at + from + header, 0, to - from - header);
            });
            for (auto const& b : live)
                memset(now + (b.p - mem.raw) + b.n, 0, b.charge - header - b.n);
        }
        return mc::hash_bytes(now, sizeof now, mc::mix(live_hash(), what & H02 ? low : 0));
    }
    std::uint64_t
    live_hash() const
    {
        std::uint64_t x = 99;
        std::vector<std::uint64_t> v;
        for (auto const& b : live)
            v.push_back(static_cast<std::uint64_t>(b.p - base) << 20 | b.n);
        std::sort(v.begin(), v.end());
        for (auto y : v)
            x = mc::mix(x, y);
        if (keep) {
            v.clear();
            for (auto const& b : stale)
                v.push_back(static_cast<std::uint64_t>(b.p - base));
            std::sort(v.begin(), v.end());
            for (auto y : v)
                x = mc::mix(x, y + 1);
        }
        return x;
    }
};

// One operation: a request of one of the sizes, freeing any live block, or something special.
template <class W>
void
operation(W& w, std::vector<std::size_t> const& sizes, bool extras, bool fill)
{
    unsigned const what = w.what;
    int const n_alloc = static_cast<int>(sizes.size());
    int const n_free  = static_cast<int>(w.live.size());
    int const n_extra = extras ? 5 : 1;    // zeroing only, or all
    int const c       = mc::choose(n_alloc + n_free + n_extra);
    if (c < n_alloc) {
        w.alloc(sizes[static_cast<std::size_t>(c)]);
    } else if (c < n_alloc + n_free) {
        w.free_one(static_cast<std::size_t>(c - n_alloc), what & H04, fill);
    } else {
        switch (c - n_alloc - n_free) {
        case 0: w.alloc(12, true, 3); break;
        case 1: {
            long const f = w.fails;
            w.h->deallocate(nullptr);
            if (what & H04)
                MC_CHECK(w.fails == f, "freeing a null pointer calls the failure callback");
            break;
        }
        case 2: w.alloc(~static_cast<std::size_t>(0)); break;
        case 3: {
            std::size_t const f = w.h->free_heap_size();
            void*             p = w.h->callocate(~static_cast<std::size_t>(0) / 2, 4);
            if (what & H04) {
                MC_CHECK(!p, "zeroed memory of 2^65 bytes is granted");
                MC_CHECK(w.h->free_heap_size() == f, "a refused request changes the free size");
            }
            break;
        }
        default:
            mc::step();
            w.h->reset_minimum_ever_free_heap_size();
            w.low = w.h->free_heap_size();
            break;
        }
    }
    w.contents("an operation");
    w.account("an operation");
}

// All sequences of any length of requests, releases and further releases of what is released.
template <std::size_t Size>
void
stale(unsigned what, std::vector<std::size_t> const& sizes)
{
    World<Size> w{what};
    w.keep = true;
    for (;;) {
        int const n = static_cast<int>(sizes.size()), m = static_cast<int>(w.live.size());
        int const c = mc::choose(n + m + static_cast<int>(w.stale.size()));
        if (c < n)
            w.alloc(sizes[static_cast<std::size_t>(c)]);
        else if (c < n + m)
            w.free_one(static_cast<std::size_t>(c - n), false, false);
        else
            w.again(static_cast<std::size_t>(c - n - m));
        w.contents("an operation");
        w.account("an operation");
        w.h->reset_minimum_ever_free_heap_size();
        w.low = w.h->free_heap_size();
        if (mc::visit(w.closed_hash(true), 0))
            break;
    }
    w.keep = false;
    w.finish();
}

// A large heap: filled with blocks of one or two sizes, many or few of them, thinned, filled again, emptied.
template <std::size_t Size>
void
large(unsigned what, std::vector<std::size_t> const& sizes)
{
    World<Size>       w{what};
    auto const        k = sizes.size();
    std::size_t const a = sizes[static_cast<std::size_t>(mc::choose(static_cast<int>(k)))];
    std::size_t const b = mc::choose(2) ? a : sizes[static_cast<std::size_t>(mc::choose(static_cast<int>(k)))];
    auto const        check = [&] {
        w.contents("many operations");
        w.account("many operations");
    };
    auto const fill = [&] {
        for (std::size_t n = 0; n < 2; w.live.size() % 16 ? void() : check()) {
            std::size_t const was = w.live.size();
            w.alloc(was % 2 ? b : a, was % 7 == 6);
            n = w.live.size() == was ? n + 1 : 0;
            if (w.live.size() == was && n < 2 && a != b)
                w.alloc(was % 2 ? a : b);
        }
        check();
    };
    fill();
    int const how = mc::choose(6);
    switch (how) {
    case 0: while (!w.live.empty()) w.free_one(0, what & H04); break;
    case 1: while (!w.live.empty()) w.free_one(w.live.size() - 1, what & H04); break;
    case 2: case 3:
        for (std::size_t i = static_cast<std::size_t>(how - 2); i < w.live.size(); i++)
            w.free_one(i, what & H04);
        break;
    case 4:
        for (std::size_t n = w.live.size() / 2; n--;)
            w.free_one(w.live.size() / 4, what & H04);
        break;
    default:
        for (std::size_t n = w.live.size(); n > 1; n--)
            w.free_one((n * 7 + 3) % w.live.size(), what & H04);
        break;
    }
    check();
    mc::state(w.live_hash());
    w.alloc(a + b + 16);
    check();
    fill();
    w.finish();
}

// A heap that has been in use for long: one of a few cycles many times over, then a few operations of any kind.
template <std::size_t Size>
void
worn(unsigned what, std::vector<std::size_t> const& sizes, unsigned depth)
{
    World<Size> w{what};
    int const   cycle = mc::choose(6);
    long const  times = std::vector<long>{253, 65530, 140000}[static_cast<std::size_t>(mc::choose(3))];
    if (cycle & 1) {
        w.alloc(sizes[0]);
        w.alloc(sizes[0]);
        w.free_one(0, false);
    }
    auto& h = *w.h;
    for (long i = 0; i < times; i++) {
        switch (cycle / 2) {
        case 0: {
            void* p = h.allocate(sizes[0]);
            MC_CHECK(p, "a heap that has been in use for %ld cycles refuses what it granted before", i);
            h.deallocate(p);
            w.allocs++;
            w.frees++;
            break;
        }
        case 1: {
            void* p = h.callocate(2, 8);
            void* q = h.allocate(16);
            MC_CHECK(p && q, "a heap that has been in use for %ld cycles refuses what it granted before", i);
            h.deallocate(p);
            h.deallocate(q);
            w.allocs += 2;
            w.frees += 2;
            break;
        }
        default:
            MC_CHECK(!h.allocate(Size * 2), "a request of twice the size of the heap is granted");
            h.deallocate(nullptr);
            break;
        }
        if (i % 1024 == 0)
            mc::step();
    }
    if (cycle / 2 == 2 && (what & H04))
        MC_CHECK(w.fails == times, "%ld refused requests call the failure callback %ld times", times, w.fails);
    h.reset_minimum_ever_free_heap_size();
    w.low = h.free_heap_size();
    w.contents("many operations");
    w.account("many operations");
    for (unsigned d = 0; d < depth; d++) {
        operation(w, sizes, what & (H02 | H04), true);
        mc::state(w.live_hash());
    }
    mc::outcome(w.live_hash());
    w.finish();
}

// All sequences of `depth` operations.
template <std::size_t Size>
void
sequences(unsigned what, unsigned depth, std::vector<std::size_t> const& sizes, bool extras)
{
    World<Size> w{what};
    for (unsigned d = 0; d < depth; d++) {
        operation(w, sizes, extras, true);
        if (d + 1 < depth && mc::visit(w.hash(d), depth - d - 1))
            return;
    }
    mc::outcome(w.live_hash());
    w.finish();
}

// All sequences of any length.
template <std::size_t Size>
void
closed(unsigned what, std::vector<std::size_t> const& sizes, bool extras, bool exact)
{
    World<Size> w{what};
    for (;;) {
        operation(w, sizes, extras, exact);
        if (!(what & H02)) {    // the low-water mark is not the subject
            w.h->reset_minimum_ever_free_heap_size();
            w.low = w.h->free_heap_size();
        }
        if (mc::visit(w.closed_hash(exact), 0))
            break;
    }
    mc::outcome(w.live_hash());
    w.finish();
}

// Every size from 0 to beyond the heap, in every pair (the second one after the first, the first freed
// before or after it, or not), then a third from a few, then all freed in both orders.
template <std::size_t Size>
void
all_sizes(unsigned what)
{
    World<Size> w{what};
    auto const  a    = static_cast<std::size_t>(mc::choose(static_cast<int>(Size + 24)));
    auto const  b    = static_cast<std::size_t>(mc::choose(static_cast<int>(Size + 24)));
    int const   mode = mc::choose(4);
    auto        ok   = [&] {
        w.contents("an operation");
        w.account("an operation");
    };
    w.alloc(a);
    ok();
    if (mode == 0 && !w.live.empty()) {
        w.free_one(0, false);
        ok();
    }
    w.alloc(b);
    ok();
    if (mode == 1 && !w.live.empty()) {
        w.free_one(0, false);
        ok();
        w.alloc(a / 2 + 1);
        ok();
    }
    if (mode == 2) {
        w.alloc(8);
        ok();
        if (w.live.size() > 1) {
            w.free_one(1, false);
            ok();
            w.alloc(b);
            ok();
        }
    }
    if (mode == 3) {
        while (!w.live.empty())
            w.free_one(w.live.size() - 1, false);
        ok();
    }
    mc::state(mc::mix(mc::mix(a, b), w.live_hash()));
    mc::outcome(w.live_hash());
    w.finish();
}

// Sizes around every power of two and around the end of the number range, for requests and for zeroed
// requests (both factors), on a heap with and without live blocks.
template <std::size_t Size>
void
huge_sizes(unsigned what)
{
    std::vector<std::size_t> s;
    for (int bit = 3; bit < 64; bit++)
        for (long d : {-17L, -16L, -9L, -8L, -7L, -1L, 0L, 1L, 8L})
            s.push_back((1UL << bit) + static_cast<std::size_t>(d));
    for (std::size_t d = 0; d < 72; d++)
        s.push_back(~0UL - d);
    s.push_back(0);
    World<Size> w{what};
    int const   prefix = mc::choose(3);
    for (int i = 0; i < prefix; i++)
        w.alloc(24);
    std::size_t const n = s[static_cast<std::size_t>(mc::choose(static_cast<int>(s.size())))];
    int const how = mc::choose(7);
    if (how == 0) {
        w.alloc(n);
    } else {
        std::size_t const m = std::vector<std::size_t>{0, 1, 2, 3, 8, 1UL << 32}[static_cast<std::size_t>(how - 1)];
        int const swap = mc::choose(2);
        std::size_t const x = swap ? m : n, y = swap ? n : m;
        bool const overflow = y && x > ~0UL / y;
        if (overflow) {
            std::size_t const f  = w.h->free_heap_size();
            void*             p  = w.h->callocate(x, y);
            mc::step();
            if (what & H04) {
                MC_CHECK(!p, "zeroed memory for %zu times %zu bytes is granted", x, y);
                MC_CHECK(w.h->free_heap_size() == f, "a refused request changes the free size");
            }
        } else {
            w.alloc(y, true, x);
        }
    }
    w.contents("an operation");
    w.account("an operation");
    w.alloc(16);
    w.contents("an operation");
    w.account("an operation");
    mc::state(mc::mix(w.live_hash(), n));
    w.finish();
}

// The failure callback is replaced, removed, and frees memory itself.
template <std::size_t Size>
void
callbacks()
{
    World<Size> w{H01 | H02 | H04};
    long        other = 0;
    for (int d = 0; d < 6; d++) {
        switch (mc::choose(6)) {
        case 0: w.alloc(Size / 3); break;
        case 1: w.alloc(8); break;
        case 2:
            if (!w.live.empty())
                w.free_one(0, true);
            break;
        case 3: {    // another callback
            w.h->on_fail([&] { other++; });
            long const o = other, f = w.fails;
            void* p = w.h->allocate(Size * 2);
            MC_CHECK(!p && other == o + 1 && w.fails == f, "the callback that was set last is not the one that is called");
            w.h->on_fail([&w] { w.fails++; });
            break;
        }
        case 4: {    // none
            w.h->on_fail(nullptr);
            long const f = w.fails;
            void*      p = w.h->allocate(Size * 2);
            MC_CHECK(!p && w.fails == f, "a callback that was removed is called");
            w.h->on_fail([&w] { w.fails++; });
            break;
        }
        default: {    // it makes room
            bool done = false;
            w.h->on_fail([&] {
                w.fails++;
                if (!w.live.empty() && !done) {
                    done          = true;
                    Block const b = w.live.front();
                    w.live.erase(w.live.begin());
                    w.h->deallocate(b.p);
                    w.frees++;
                }
            });
            long const f = w.fails;
            void*      p = w.h->allocate(Size * 2);
            MC_CHECK(!p && w.fails == f + 1, "the failure callback was called %ld times", w.fails - f);
            w.h->on_fail([&w] { w.fails++; });
            break;
        }
        }
        mc::state(w.live_hash());
        w.contents("an operation");
        w.account("an operation");
    }
    mc::outcome(w.live_hash());
    w.finish();
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](std::string n, std::function<void()> f, char const* what = "", bool closure = false) {
        Config k;
        k.closure = closure;
        k.name = std::move(n);
        k.body = std::move(f);
        k.what = what;
        c.push_back(std::move(k));
    };
    static char const* const id[] = {"H01", "H02", "H03", "H04"};
    for (unsigned i = 0; i < 4; i++) {
        unsigned const    w = 1u << i;
        std::string const p = std::string(id[i]) + "-";
        bool const        x = i == 1 || i == 3;
        add(p + "seq-160", [=] { sequences<160>(w, thorough() ? 8 : 6, {1, 8, 17, 32, 40, 64}, x); }, "160 bytes: all sequences of allocating (6 sizes), zeroed ones, releasing any block, and for H02 and H04 impossible, null and double releases");
        add(p + "seq-256", [=] { sequences<256>(w, thorough() ? 8 : 6, {8, 16, 24, 48, 100}, x); }, "256 bytes, 5 sizes: the same");
        add(p + "seq-121", [=] { sequences<121>(w, thorough() ? 9 : 7, {1, 16, 40}, x); }, "121 bytes, 3 sizes: the same, longer");
        add(p + "seq-512-few", [=] { sequences<512>(w, thorough() ? 10 : 8, {24, 88}, false); }, "512 bytes, 2 sizes: all sequences of allocating and releasing, longer still");
        add(p + "closed-exact-121", [=] { closed<121>(w, {8, 24}, x, true); }, "121 bytes, 2 sizes: sequences of any length, every byte of the heap counts", true);
        add(p + "closed-exact-144", [=] { closed<144>(w, {8, 24, 40}, x, true); }, "144 bytes, 3 sizes: sequences of any length, every byte of the heap counts", true);
        add(p + "closed-224", [=] { closed<224>(w, {8, 17, 40, 56, 88}, x, false); }, "224 bytes, 5 sizes: sequences of any length", true);
        if (i != 1 || thorough())
            add(p + "closed-320", [=] { closed<320>(w, {24, 72}, x, false); }, "320 bytes, 2 sizes: sequences of any length", true);
        if (thorough())
            add(p + "closed-512", [=] { closed<512>(w, {88, 136}, x, false); }, "512 bytes, 2 sizes: sequences of any length", true);
        add(p + "sizes-96", [=] { all_sizes<96>(w); }, "96 bytes: every two sizes from 0 to beyond the heap, in four patterns of allocating and releasing");
        add(p + "sizes-200", [=] { all_sizes<200>(w); }, "200 bytes: every two sizes from 0 to beyond the heap, in four patterns of allocating and releasing");
        if (thorough())
            add(p + "sizes-520", [=] { all_sizes<520>(w); }, "520 bytes: every two sizes from 0 to beyond the heap, in four patterns of allocating and releasing");
    }
    for (unsigned i = 0; i < 4; i++) {
        unsigned const    w = 1u << i;
        std::string const p = std::string(id[i]) + "-";
        add(p + "large-5000", [=] { large<5000>(w, {8, 24, 100, 250, 2000, 4096}); }, "5000 bytes: filled with blocks of one or two of six sizes, thinned in six ways, filled again, emptied");
        add(p + "worn-200", [=] { worn<200>(w, {24, 56}, thorough() ? 3 : 2); }, "200 bytes: one of six cycles of requests and releases 253, 65530 or 140000 times over, then two operations of any kind");
        add(p + "large-70000", [=] { large<70000>(w, {200, 255, 1000, 4096, 32760, 65536}); }, "70000 bytes: the same");
        add(p + "large-300000", [=] { large<300000>(w, {2000, 33000, 65536, 70000, 131072, 250000}); }, "300000 bytes: the same");
    }
    add("H04-again-160", [] { stale<160>(H04, {8, 24, 40}); }, "160 bytes, 3 sizes: sequences of any length of requests, releases, and releases of blocks that were released any time before", true);
    add("H04-again-200", [] { stale<200>(H04, {24, 56}); }, "200 bytes, 2 sizes: the same", true);
    add("H02-again-160", [] { stale<160>(H02 | H04, {8, 24, 40}); }, "160 bytes, 3 sizes: sequences of any length of requests, releases, and releases of blocks that were released any time before", true);
    add("H04-huge-256", [] { huge_sizes<256>(H04 | H02); }, "sizes around every power of two and the end of the number range, zeroed ones with five factors");
    add("H04-huge-4096", [] { huge_sizes<4096>(H04 | H02); }, "sizes around every power of two and the end of the number range, zeroed ones with five factors");
    add("H03-huge-256", [] { huge_sizes<256>(H03); }, "sizes around every power of two and the end of the number range, zeroed ones with five factors");
    add("H01-huge-256", [] { huge_sizes<256>(H01); }, "sizes around every power of two and the end of the number range, zeroed ones with five factors");
    add("H04-callbacks", [] { callbacks<200>(); }, "the failure callback is replaced, removed, releases memory");
    return c;
}
