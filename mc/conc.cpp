// Controlled concurrency: the threads of the code under test are fibers of one process, switched
// only where this file decides, and every decision is a choice of the exploration engine.
//
// The harness is compiled with clang -fsanitize=thread, but linked with this file in place of the
// sanitizer's run time. So every atomic operation and every plain memory access of the instrumented
// code, however it is written, is seen here; the pthread, futex, sleep and clock functions are
// interposed. Scheduling points: every atomic operation, mutex, condition, futex, thread and sleep
// operation. Plain accesses are not scheduling points: they are checked for data races with vector
// clocks built from the program's own synchronization only, and a race is a violation.
#ifdef __clang__
// The variables of the engine are kept apart: conc.cpp resets all others before every execution.
#pragma clang section bss = "mc_bss" data = "mc_data"
#endif
#include "mc.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
extern char __data_start, _edata, __bss_start, _end;
extern std::uint8_t __start_mc_data, __stop_mc_data, __start_mc_bss, __stop_mc_bss;
}

namespace {

using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr int         max_threads = 12;
constexpr std::size_t stack_size  = 1u << 18;
constexpr std::size_t arena_size  = 1u << 26;
constexpr u64         hurry_horizon = 20000000;
constexpr u64         horizon     = 60000;      // scheduling points in one execution

struct VC {
    u32 c[max_threads];
    void
    join(VC const& o)
    {
        for (int i = 0; i < max_threads; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum St : u8 { unused, ready, b_mutex, b_join, b_futex, b_cond, b_all, b_chan, sleeping, finished };
char const* const st_name[] = {"unused", "ready", "mutex", "join", "futex", "condition", "wait_all", "await", "sleeping", "finished"};

struct Spin {
    void* pc;
    void* addr;
    u64   val;
    int   n;
};

struct Thread {
    int   id;
    St    st;
    bool  timed;        // a blocked wait with a deadline
    bool  timed_out;
    bool  yielded;      // spinning: not scheduled until somebody writes or time passes
    u64   yield_epoch;
    bool  detached, joined;
    void* obj;
    int   obj2;
    u64   wake;
    void* sp;
    VC    vc;
    VC    fence_acq, fence_rel;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    void* eh[2];
    int   err;
    u64   hist;
    u32   nops;
    Spin  spins[64];
    int   nspin;
    u64   spin_epoch;
    u64   slept_ops;
    int   ndtors;
    struct {
        void (*f)(void*);
        void* p;
    } dtors[16];
};

struct Sync {    // an atomic location, a mutex, a condition ...
    void* addr;
    u32   gen;
    u64   writer;      // id of the last operation that wrote it
    VC    rel;         // what acquiring it brings
    bool  has_rel;
    int   owner;       // mutex: holder + 1
    int   depth;
    int   readers;     // rwlock
};

struct Acc {
    u8  mask;
    u8  tid;
    u8  flags;    // 1 write, 2 atomic
    u32 clk;
    void* pc;
};
struct Cell {
    u64 key;
    u32 gen;
    u8  n;
    u8  freed;
    Acc a[20];
};

std::size_t n_sync = 1u << 12, n_cell = 1u << 16;    // see room()
int         sync_shift = 52, cell_shift = 48;

Thread  T[max_threads];
int     nthreads;
int     cur;
bool    active;       // inside an execution
int     in_rt;        // inside this run time: allocations go to the normal heap
void*   main_sp;
u32     gen;
u64     vtime;
u64     epoch;        // counts writes to synchronization objects
u64     points;
int     livelock;
bool    delays = true;
Sync*   S;
Cell*   C;
u8*     arena;
std::size_t arena_pos;
u8*     stacks;
mc::conc::Event* ev;
std::size_t nev;
std::function<void()> const* body_fn;
constexpr int max_chan = 16;
long        chan[max_chan];

struct Tr {
    u8    tid;
    char  what[23];
    void* addr;
    void* pc;
    u64   val;
};
Tr*         tr;
std::size_t ntr;
constexpr std::size_t max_tr = 1u << 16;

void
trace(char const* what, void const* addr, u64 val, void* pc)
{
    if (!mc::recording() || ntr >= max_tr)
        return;
    Tr& t = tr[ntr++];
    t.tid = static_cast<u8>(cur);
    snprintf(t.what, sizeof t.what, "%s", what);
    t.addr = const_cast<void*>(addr);
    t.val  = val;
    t.pc   = pc;
}

Sync&
sync_of(void const* addr)
{
    std::size_t i = (reinterpret_cast<u64>(addr) * 0x9e3779b97f4a7c15ULL) >> sync_shift;
    for (std::size_t k = 0; k < n_sync; k++, i = (i + 1) & (n_sync - 1)) {
        Sync& s = S[i];
        if (s.gen != gen) {
            memset(static_cast<void*>(&s), 0, sizeof s);
            s.gen  = gen;
            s.addr = const_cast<void*>(addr);
            return s;
        }
        if (s.addr == addr)
            return s;
    }
    mc::fail("too many synchronization objects in one execution");
}

Cell&
cell_of(u64 key)
{
    std::size_t i = (key * 0x9e3779b97f4a7c15ULL) >> cell_shift;
    for (std::size_t k = 0; k < n_cell; k++, i = (i + 1) & (n_cell - 1)) {
        Cell& c = C[i];
        if (c.gen != gen) {
            c.gen   = gen;
            c.key   = key;
            c.n     = 0;
            c.freed = 0;
            return c;
        }
        if (c.key == key)
            return c;
    }
    mc::fail("too much memory touched in one execution");
}

void
forget_cell(u64 key)
{
    std::size_t i = (key * 0x9e3779b97f4a7c15ULL) >> cell_shift;
    for (std::size_t k = 0; k < n_cell && C[i].gen == gen; k++, i = (i + 1) & (n_cell - 1))
        if (C[i].key == key) {
            C[i].n     = 0;
            C[i].freed = 0;
            return;
        }
}

void
access_cell(u64 key, u8 mask, bool w, bool at, void* pc)
{
    Cell&       c = cell_of(key);
    Thread&     t = T[cur];
    if (c.freed & mask)
        mc::fail("use after free: thread %d %s %p (pc=%p)", cur, w ? "writes" : "reads", reinterpret_cast<void*>(key << 3), pc);
    u8 const fl = static_cast<u8>((w ? 1 : 0) | (at ? 2 : 0));
    int      o  = 0;
    for (int i = 0; i < c.n; i++) {
        Acc& a = c.a[i];
        if (a.mask & mask) {
            bool const conflict = a.tid != cur && (w || (a.flags & 1)) && !(at && (a.flags & 2));
            bool const hb       = a.clk <= t.vc.c[a.tid];
            if (conflict && !hb)
                mc::fail("data race on %p: thread %d %s%s (pc=%p), thread %d %s%s (pc=%p)",
                         reinterpret_cast<void*>(key << 3), a.tid, (a.flags & 1) ? "writes" : "reads",
                         (a.flags & 2) ? " atomically" : "", a.pc, cur, w ? "writes" : "reads", at ? " atomically" : "", pc);
            if (!(a.mask & ~mask)) {
                // subsumed: an earlier access that is ordered before this one and conflicts with no more than it
                if (hb && (w || !(a.flags & 1)) && (!at || (a.flags & 2)))
                    continue;
            }
        }
        c.a[o++] = a;
    }
    if (o == 20) {
        memmove(&c.a[0], &c.a[1], sizeof(Acc) * 19);
        o = 19;
    }
    c.a[o++] = Acc{mask, static_cast<u8>(cur), fl, t.vc.c[cur], pc};
    c.n      = static_cast<u8>(o);
}

// ---- thread-local variables of the program: swapped with the fibers ----

constexpr std::size_t max_tls = 2048;
u8*         tls;               // where those of the running fiber are
std::size_t tls_size, tls_init_size;
u8 const*   tls_init;
u8          tls_saved[max_threads][max_tls];
struct {
    u8 *from, *to;
} tls_of[16];                  // those of the program and of every library
int n_tls;

int
tls_find(dl_phdr_info* i, std::size_t, void* main)
{
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto const& p = i->dlpi_phdr[k];
        if (p.p_type == PT_TLS && i->dlpi_tls_data && n_tls < 16) {
            tls_of[n_tls].from = static_cast<u8*>(i->dlpi_tls_data);
            tls_of[n_tls].to   = tls_of[n_tls].from + p.p_memsz;
            n_tls++;
        }
        if (p.p_type == PT_TLS && *static_cast<bool*>(main)) {
            std::size_t const align = p.p_align ? p.p_align : 1;
            tls_size      = p.p_memsz;
            tls_init      = reinterpret_cast<u8 const*>(i->dlpi_addr + p.p_vaddr);
            tls_init_size = p.p_filesz;
            tls           = static_cast<u8*>(__builtin_thread_pointer()) - (p.p_memsz + align - 1) / align * align;
            if (tls_size > max_tls) {
                fprintf(stderr, "too many thread-local variables\n");
                _exit(3);
            }
        }
    }
    *static_cast<bool*>(main) = false;    // the program itself comes first
    return 0;
}
void
tls_fresh(u8* p)
{
    memcpy(p, tls_init, tls_init_size);
    memset(p + tls_init_size, 0, tls_size - tls_init_size);
}

void
mem_access(void const* p, std::size_t n, bool w, bool at, void* pc)
{
    if (!active || in_rt)
        return;
    for (int i = 0; i < n_tls; i++)
        if (p >= tls_of[i].from && p < tls_of[i].to)
            return;
    u64 a = reinterpret_cast<u64>(p);
    while (n) {
        u64 const key = a >> 3;
        unsigned  off = a & 7;
        unsigned  len = 8 - off < n ? 8 - off : static_cast<unsigned>(n);
        u8 const  m   = static_cast<u8>(((1u << len) - 1) << off);
        access_cell(key, m, w, at, pc);
        a += len;
        n -= len;
    }
}

// The variables of the program, as they are before the first execution: every one begins with these.
struct Chunk {
    u8*         at;
    u8*         saved;
    std::size_t n;
};
Chunk chunks[64];
int   n_chunks = 0;
u8    mc_bss_used[1];    // that there is such a section

void
globals_save()
{
    struct Range {
        u8 *from, *to;
    };
    Range const all[2] = {{reinterpret_cast<u8*>(&__data_start), reinterpret_cast<u8*>(&_edata)}, {reinterpret_cast<u8*>(&__bss_start), reinterpret_cast<u8*>(&_end)}};
    Range const own[2] = {{&__start_mc_data, &__stop_mc_data}, {&__start_mc_bss, &__stop_mc_bss}};
    for (auto const& r : all) {
        Range part[4] = {r};
        int   n       = 1;
        for (auto const& o : own)
            for (int i = 0, e = n; i < e; i++)
                if (o.from < part[i].to && o.to > part[i].from) {
                    part[n++]  = {o.to, part[i].to};
                    part[i].to = o.from;
                }
        for (int i = 0; i < n; i++)
            if (part[i].from < part[i].to) {
                Chunk& c = chunks[n_chunks++];
                c.at     = part[i].from;
                c.n      = static_cast<std::size_t>(part[i].to - part[i].from);
                c.saved  = static_cast<u8*>(malloc(c.n));
                memcpy(c.saved, c.at, c.n);
            }
    }
}
void
globals_restore()
{
    for (int i = 0; i < n_chunks; i++)
        memcpy(chunks[i].at, chunks[i].saved, chunks[i].n);
}

// ---- fibers ----

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

[[noreturn]] void fiber_main();

void
fiber_init(Thread& t)
{
    u8*    top = stacks + stack_size * static_cast<std::size_t>(t.id + 1) - 64;
    void** sp  = reinterpret_cast<void**>(reinterpret_cast<u64>(top) & ~15ULL);
    *--sp      = nullptr;                                   // return address of fiber_main
    *--sp      = reinterpret_cast<void*>(&fiber_main);      // popped by ret
    for (int i = 0; i < 6; i++)
        *--sp = nullptr;
    t.sp = sp;
    if (tls_size)
        tls_fresh(t.id == cur ? tls : tls_saved[t.id]);
}

void
switch_to(int next)
{
    if (next == cur)
        return;
    Thread& a = T[cur];
    Thread& b = T[next];
    void**  g = reinterpret_cast<void**>(__cxxabiv1::__cxa_get_globals());
    a.eh[0]   = g[0];
    a.eh[1]   = g[1];
    a.err     = errno;
    g[0]      = b.eh[0];
    g[1]      = b.eh[1];
    errno     = b.err;
    if (tls_size) {
        memcpy(tls_saved[cur], tls, tls_size);
        memcpy(tls, tls_saved[next], tls_size);
    }
    cur       = next;
    mc_switch(&a.sp, b.sp);
}

u64
state_hash()
{
    u64 h = mc::mix(vtime, static_cast<u64>(cur));
    for (int i = 0; i < nthreads; i++) {
        Thread const& t = T[i];
        h               = mc::mix(h, t.hist);
        h               = mc::mix(h, static_cast<u64>(t.st) | (t.yielded ? 256u : 0u));
        if (t.st == sleeping || t.timed)
            h = mc::mix(h, t.wake);
    }
    return h;
}

bool
runnable(Thread const& t)
{
    return t.st == ready && !(t.yielded && t.yield_epoch == epoch);
}

unsigned used_deviations;
bool     hurried;    // the normal schedule, no choices
u64      last_state;

void
all_done()
{
    // back to the engine; this fiber is never resumed
    void* dummy;
    mc_switch(&dummy, main_sp);
}

// Chooses who runs next. The current thread may be blocked, or finished.
void
reschedule()
{
    for (;;) {
        int  cand[max_threads];
        u64  costs = 0;
        int  n     = 0;
        bool run_any = false;
        if (++points > (hurried ? hurry_horizon : horizon)) {
            mc::fail("no end of the execution within %lu scheduling points", hurried ? hurry_horizon : horizon);
        }
        Thread& me_ = T[cur];
        if (me_.st == ready && me_.yielded && me_.yield_epoch != epoch)
            me_.yielded = false;
        bool const cur_run = runnable(me_);
        if (cur_run)
            cand[n++] = cur;
        for (int k = 1; k < nthreads; k++) {
            int i = (cur + k) % nthreads;
            if (runnable(T[i])) {
                if (cur_run)
                    costs |= 1ULL << n;
                cand[n++] = i;
            }
        }
        run_any = n > 0;
        // sleepers, in the order of their waking time
        int  sl[max_threads];
        int  ns = 0;
        for (int i = 0; i < nthreads; i++) {
            Thread const& t = T[i];
            if (t.st == sleeping || (t.timed && (t.st == b_futex || t.st == b_cond || t.st == b_mutex))) {
                int j = ns++;
                while (j > 0 && T[sl[j - 1]].wake > t.wake) {
                    sl[j] = sl[j - 1];
                    j--;
                }
                sl[j] = i;
            }
        }
        if (!run_any && ns == 0) {
            bool yielded = false, unfinished = false;
            for (int i = 0; i < nthreads; i++) {
                if (T[i].st != finished)
                    unfinished = true;
                if (T[i].st == ready)
                    yielded = true;
            }
            if (!unfinished) {
                all_done();
            }
            if (yielded) {
                if (++livelock > 300)
                    mc::fail("livelock: every thread that is not blocked spins, and none of them makes progress");
                epoch++;
                continue;
            }
            char  buf[512];
            int   o = 0;
            for (int i = 0; i < nthreads; i++)
                if (T[i].st != finished)
                    o += snprintf(buf + o, sizeof buf - static_cast<std::size_t>(o), " thread %d waits (%s)", i, st_name[T[i].st]);
            mc::fail("deadlock:%s", buf);
        }
        if (!run_any || delays) {
            for (int k = 0; k < ns; k++) {
                if (run_any || k > 0)
                    costs |= 1ULL << n;
                if (k > 0 && !delays && T[sl[k]].wake != T[sl[0]].wake)
                    break;
                cand[n++] = sl[k];
            }
        }
        int pick = 0;
        if (n > 1 && !hurried) {
            u64 const h = state_hash();
            // Nothing has happened since the last decision: it was to go on with this thread.
            if (h == last_state && cur_run) {
                pick = 0;
            } else {
                last_state = h;
                mc::visit(h, 60u - (used_deviations > 60 ? 60 : used_deviations));
                pick = mc::choose_cost(n, costs);
                used_deviations += (costs >> pick) & 1;
            }
        }
        int const next = cand[pick];
        Thread&   t    = T[next];
        if (t.st != ready) {
            if (t.wake > vtime) {
                vtime = t.wake;
            }
            epoch++;
            t.timed_out = true;
            t.timed     = false;
            t.st        = ready;
        }
        if (t.yielded) {
            t.yielded = false;
            t.nspin   = 0;
        }
        switch_to(next);
        return;
    }
}

void
new_write()
{
    epoch++;
    livelock = 0;
    T[cur].nspin = 0;
}

// A scheduling point before a visible operation of the current thread.
void
point()
{
    int live = 0;
    for (int i = 0; i < nthreads; i++)
        if (T[i].st != finished)
            live++;
    if (live > 1)
        reschedule();
    mc::step();
}

void
history(char const kind, void const* addr, u64 rf)
{
    Thread& t = T[cur];
    t.hist    = mc::mix(mc::mix(mc::mix(t.hist, static_cast<u64>(kind)), reinterpret_cast<u64>(addr)), rf);
}
u64
new_id()
{
    Thread& t = T[cur];
    return (static_cast<u64>(cur + 1) << 32) | ++t.nops;
}

void
tick()
{
    T[cur].vc.c[cur]++;
}

// The current thread read val at addr and nothing changed: is it spinning?
void
spin_check(void* pc, void const* addr, u64 val)
{
    Thread& t = T[cur];
    if (t.spin_epoch != epoch) {
        t.spin_epoch = epoch;
        t.nspin      = 0;
    }
    for (int i = 0; i < t.nspin; i++) {
        Spin& s = t.spins[i];
        if (s.pc == pc && s.addr == addr && s.val == val) {
            if (++s.n >= 3) {
                t.yielded     = true;
                t.yield_epoch = epoch;
                t.nspin       = 0;
            }
            return;
        }
    }
    if (t.nspin < 64)
        t.spins[t.nspin++] = Spin{pc, const_cast<void*>(addr), val, 1};
}

void
block(St st, void* obj)
{
    Thread& t   = T[cur];
    t.st        = st;
    t.obj       = obj;
    t.timed_out = false;
    reschedule();
}

void
fiber_main()
{
    Thread& t = T[cur];
    in_rt     = 0;
    if (t.id == 0)
        (*body_fn)();
    else
        t.ret = t.fn(t.arg);
    while (t.ndtors) {
        auto const d = t.dtors[--t.ndtors];
        d.f(d.p);
    }
    in_rt = 1;
    point();
    Sync& s = sync_of(&t);
    s.rel.join(t.vc);
    history('X', &t, 0);
    s.writer = new_id();
    trace("thread ends", nullptr, 0, nullptr);
    T[cur].st = finished;
    new_write();
    int live = 0;
    for (int i = 0; i < nthreads; i++) {
        if (T[i].st == b_join && T[i].obj == &t)
            T[i].st = ready;
        if (T[i].st != finished)
            live++;
    }
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == b_all && live == 1)
            T[i].st = ready;
    if (live == 0)
        all_done();
    reschedule();
    __builtin_trap();
}

void
run_body(std::function<void()> const& body)
{
    if (!S) {
        S      = static_cast<Sync*>(calloc(n_sync, sizeof(Sync)));
        C      = static_cast<Cell*>(mmap(nullptr, n_cell * sizeof(Cell), PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        ev     = static_cast<mc::conc::Event*>(calloc(4096, sizeof(mc::conc::Event)));
        tr     = static_cast<Tr*>(calloc(max_tr, sizeof(Tr)));
        arena  = static_cast<u8*>(mmap(reinterpret_cast<void*>(0x600000000000ULL), arena_size, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
        stacks = static_cast<u8*>(mmap(reinterpret_cast<void*>(0x610000000000ULL), stack_size * max_threads,
                                       PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                                       -1, 0));
        bool main = true;
        dl_iterate_phdr(&tls_find, &main);
        try {    // what the first exception of a process prepares is not part of an execution
            throw 0;
        } catch (int) {
        }
        if (arena == MAP_FAILED || stacks == MAP_FAILED || C == MAP_FAILED) {
            fprintf(stderr, "mmap failed\n");
            _exit(3);
        }
    }
    if (n_chunks)
        globals_restore();
    else
        globals_save();
    gen++;
    vtime = 0;
    epoch = 1;
    points = 0;
    livelock = 0;
    arena_pos = 0;
    nev = 0;
    ntr = 0;
    delays = true;
    hurried = false;
    memset(chan, 0, sizeof chan);
    used_deviations = 0;
    last_state = 0;
    nthreads = 1;
    cur      = 0;
    memset(static_cast<void*>(&T[0]), 0, sizeof(Thread));
    T[0].st      = ready;
    T[0].vc.c[0] = 1;
    body_fn      = &body;
    fiber_init(T[0]);
    void** g       = reinterpret_cast<void**>(__cxxabiv1::__cxa_get_globals());
    void*  save[2] = {g[0], g[1]};
    g[0] = g[1] = nullptr;
    active = true;
    mc_switch(&main_sp, T[0].sp);
    active = false;
    in_rt  = 0;
    g[0]   = save[0];
    g[1]   = save[1];
    if (mc::recording() && ntr) {
        // a short form of the schedule, for the samples
        char        buf[180];
        int         o = 0;
        int         last = -1;
        for (std::size_t i = 0; i < ntr; i++) {
            Tr const& t = tr[i];
            if (o > 130 || t.tid != last) {
                if (o)
                    mc::note("%s", buf);
                o = snprintf(buf, sizeof buf, "t%d:", t.tid);
            }
            o += snprintf(buf + o, sizeof buf - static_cast<std::size_t>(o), " %s", t.what);
            last = t.tid;
        }
        if (o)
            mc::note("%s", buf);
    }
}

void
dump()
{
    for (std::size_t i = 0; i < ntr; i++) {
        Tr const& t = tr[i];
        printf("t%d %-22s addr=%p val=%lu pc=%p\n", t.tid, t.what, t.addr, t.val, t.pc);
    }
}

// The body itself chose something: what comes after depends on it.
void
chosen(int v)
{
    if (active) {
        T[cur].hist = mc::mix(T[cur].hist, 0xC4005E00u + static_cast<u64>(v));
        T[cur].nspin = 0;
    }
}

struct Init {
    Init()
    {
        mc::detail::on_choice  = &chosen;
        mc::detail::run_body   = &run_body;
        mc::detail::dump_trace = &dump;
    }
} init;

struct Rt {    // inside the run time
    Rt() { in_rt++; }
    ~Rt() { in_rt--; }
};
// Switching fibers inside an Rt scope is fine: every fiber that is not running is inside one, too,
// and in_rt is 1 for all of them. (New fibers set it to 0 themselves.)

bool
mo_acq(int mo)
{
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
}
bool
mo_rel(int mo)
{
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

void
sync_read(Sync& s, int mo)
{
    Thread& t = T[cur];
    if (!s.has_rel)
        return;
    if (mo_acq(mo))
        t.vc.join(s.rel);
    else
        t.fence_acq.join(s.rel);
}
void
sync_write(Sync& s, int mo, bool rmw)
{
    Thread& t = T[cur];
    if (!rmw) {
        // a plain store ends the release sequence
        memset(static_cast<void*>(&s.rel), 0, sizeof s.rel);
        s.has_rel = false;
    }
    if (mo_rel(mo)) {
        s.rel.join(t.vc);
        s.has_rel = true;
    } else {
        s.rel.join(t.fence_rel);
        s.has_rel = true;
    }
    tick();
}

template <class V>
V
a_load(V const volatile* p, int mo, void* pc)
{
    if (!active || in_rt)
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    Rt      rt;
    void*   addr = const_cast<void*>(static_cast<void const volatile*>(p));
    point();
    in_rt = 0;
    mem_access(addr, sizeof(V), false, true, pc);
    in_rt = 1;
    Sync& s = sync_of(addr);
    sync_read(s, mo);
    V const v = *p;
    history('L', addr, s.writer);
    trace("load", addr, static_cast<u64>(v), pc);
    spin_check(pc, addr, static_cast<u64>(v));
    if (T[cur].yielded)
        reschedule();
    return v;
}
template <class V>
void
a_store(V volatile* p, V v, int mo, void* pc)
{
    if (!active || in_rt) {
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
        return;
    }
    Rt    rt;
    void* addr = const_cast<void*>(static_cast<void volatile*>(p));
    point();
    in_rt = 0;
    mem_access(addr, sizeof(V), true, true, pc);
    in_rt = 1;
    Sync& s = sync_of(addr);
    history('S', addr, s.writer);
    sync_write(s, mo, false);
    s.writer = new_id();
    *p       = v;
    trace("store", addr, static_cast<u64>(v), pc);
    new_write();
}
template <class V, class F>
V
a_rmw(V volatile* p, F f, int mo, char const* what, void* pc)
{
    if (!active || in_rt) {
        V const o = *p;
        *p        = f(o);
        return o;
    }
    Rt    rt;
    void* addr = const_cast<void*>(static_cast<void volatile*>(p));
    point();
    in_rt = 0;
    mem_access(addr, sizeof(V), true, true, pc);
    in_rt = 1;
    Sync&   s = sync_of(addr);
    V const o = *p;
    V const n = f(o);
    history('R', addr, s.writer);
    sync_read(s, mo);
    sync_write(s, mo, true);
    s.writer = new_id();
    *p       = n;
    trace(what, addr, static_cast<u64>(n), pc);
    if (n != o) {
        new_write();
    } else {
        spin_check(pc, addr, static_cast<u64>(o));
        if (T[cur].yielded)
            reschedule();
    }
    return o;
}
template <class V>
bool
a_cas(V volatile* p, V* expected, V desired, int mo, int fmo, void* pc)
{
    if (!active || in_rt) {
        if (*p == *expected) {
            *p = desired;
            return true;
        }
        *expected = *p;
        return false;
    }
    Rt    rt;
    void* addr = const_cast<void*>(static_cast<void volatile*>(p));
    point();
    in_rt = 0;
    bool const ok = *p == *expected;
    mem_access(addr, sizeof(V), ok, true, pc);
    in_rt = 1;
    Sync& s = sync_of(addr);
    history('C', addr, s.writer);
    if (ok) {
        sync_read(s, mo);
        sync_write(s, mo, true);
        s.writer = new_id();
        *p       = desired;
        trace("cas", addr, static_cast<u64>(desired), pc);
        new_write();
        return true;
    }
    sync_read(s, fmo);
    V const v = *p;
    trace("cas failed", addr, static_cast<u64>(v), pc);
    *expected = v;
    spin_check(pc, addr, static_cast<u64>(v));
    if (T[cur].yielded)
        reschedule();
    return false;
}

}    // namespace

#define PC __builtin_return_address(0)

extern "C" {
void
__tsan_init()
{}
void
__tsan_func_entry(void*)
{}
void
__tsan_func_exit()
{}
void
__tsan_ignore_thread_begin()
{}
void
__tsan_ignore_thread_end()
{}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* a) { mem_access(a, n, false, false, PC); }                                               \
    void __tsan_write##n(void* a) { mem_access(a, n, true, false, PC); }                                               \
    void __tsan_read_write##n(void* a) { mem_access(a, n, true, false, PC); }                                          \
    void __tsan_unaligned_read##n(void* a) { mem_access(a, n, false, false, PC); }                                     \
    void __tsan_unaligned_write##n(void* a) { mem_access(a, n, true, false, PC); }                                     \
    void __tsan_unaligned_read_write##n(void* a) { mem_access(a, n, true, false, PC); }                                \
    void __tsan_volatile_read##n(void* a) { mem_access(a, n, false, false, PC); }                                      \
    void __tsan_volatile_write##n(void* a) { mem_access(a, n, true, false, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void
__tsan_read_range(void* a, unsigned long n)
{
    mem_access(a, n, false, false, PC);
}
void
__tsan_write_range(void* a, unsigned long n)
{
    mem_access(a, n, true, false, PC);
}
void
__tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        mem_access(p, 8, true, false, PC);
}
void
__tsan_vptr_read(void** p)
{
    mem_access(p, 8, false, false, PC);
}
void*
__tsan_memcpy(void* d, void const* s, unsigned long n)
{
    mem_access(s, n, false, false, PC);
    mem_access(d, n, true, false, PC);
    return memcpy(d, s, n);
}
void*
__tsan_memmove(void* d, void const* s, unsigned long n)
{
    mem_access(s, n, false, false, PC);
    mem_access(d, n, true, false, PC);
    return memmove(d, s, n);
}
void*
__tsan_memset(void* d, int c, unsigned long n)
{
    mem_access(d, n, true, false, PC);
    return memset(d, c, n);
}

#define AT(bits, V)                                                                                                    \
    V __tsan_atomic##bits##_load(V const volatile* p, int mo) { return a_load<V>(p, mo, PC); }                         \
    void __tsan_atomic##bits##_store(V volatile* p, V v, int mo) { a_store<V>(p, v, mo, PC); }                         \
    V __tsan_atomic##bits##_exchange(V volatile* p, V v, int mo)                                                       \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V) { return v; }, mo, "exchange", PC);                                                  \
    }                                                                                                                  \
    V __tsan_atomic##bits##_fetch_add(V volatile* p, V v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V o) { return static_cast<V>(o + v); }, mo, "fetch_add", PC);                           \
    }                                                                                                                  \
    V __tsan_atomic##bits##_fetch_sub(V volatile* p, V v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V o) { return static_cast<V>(o - v); }, mo, "fetch_sub", PC);                           \
    }                                                                                                                  \
    V __tsan_atomic##bits##_fetch_and(V volatile* p, V v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V o) { return static_cast<V>(o & v); }, mo, "fetch_and", PC);                           \
    }                                                                                                                  \
    V __tsan_atomic##bits##_fetch_or(V volatile* p, V v, int mo)                                                       \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V o) { return static_cast<V>(o | v); }, mo, "fetch_or", PC);                            \
    }                                                                                                                  \
    V __tsan_atomic##bits##_fetch_xor(V volatile* p, V v, int mo)                                                      \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V o) { return static_cast<V>(o ^ v); }, mo, "fetch_xor", PC);                           \
    }                                                                                                                  \
    V __tsan_atomic##bits##_fetch_nand(V volatile* p, V v, int mo)                                                     \
    {                                                                                                                  \
        return a_rmw<V>(p, [v](V o) { return static_cast<V>(~(o & v)); }, mo, "fetch_nand", PC);                       \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(V volatile* p, V* e, V d, int mo, int fmo)                       \
    {                                                                                                                  \
        return a_cas<V>(p, e, d, mo, fmo, PC);                                                                         \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(V volatile* p, V* e, V d, int mo, int fmo)                         \
    {                                                                                                                  \
        return a_cas<V>(p, e, d, mo, fmo, PC);                                                                         \
    }                                                                                                                  \
    V __tsan_atomic##bits##_compare_exchange_val(V volatile* p, V e, V d, int mo, int fmo)                             \
    {                                                                                                                  \
        a_cas<V>(p, &e, d, mo, fmo, PC);                                                                               \
        return e;                                                                                                      \
    }
AT(8, u8)
AT(16, u16)
AT(32, u32)
AT(64, u64)
void
__tsan_atomic_thread_fence(int mo)
{
    if (!active || in_rt)
        return;
    Rt      rt;
    point();
    Thread& t = T[cur];
    if (mo_acq(mo))
        t.vc.join(t.fence_acq);
    if (mo_rel(mo)) {
        t.fence_rel.join(t.vc);
        tick();
    }
    history('F', nullptr, static_cast<u64>(mo));
}
void
__tsan_atomic_signal_fence(int)
{}

// ---- threads ----

static void*
real(char const* name)
{
    return dlsym(RTLD_NEXT, name);
}

int
pthread_create(pthread_t* out, pthread_attr_t const* attr, void* (*fn)(void*), void* arg)
{
    if (!active) {
        auto f = reinterpret_cast<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>(real("pthread_create"));
        return f(out, attr, fn, arg);
    }
    Rt rt;
    point();
    if (nthreads >= max_threads)
        mc::fail("more than %d threads", max_threads);
    int     id = nthreads++;
    Thread& t  = T[id];
    memset(static_cast<void*>(&t), 0, sizeof t);
    t.id  = id;
    t.fn  = fn;
    t.arg = arg;
    t.st  = ready;
    t.vc  = T[cur].vc;
    t.vc.c[id] = 1;
    t.hist     = mc::mix(T[cur].hist, 0x7777);
    fiber_init(t);
    history('T', &t, 0);
    tick();
    *out = static_cast<pthread_t>(id + 1);
    trace("create thread", nullptr, static_cast<u64>(id), PC);
    new_write();
    reschedule();
    return 0;
}
int
pthread_join(pthread_t th, void** ret)
{
    if (!active) {
        auto f = reinterpret_cast<int (*)(pthread_t, void**)>(real("pthread_join"));
        return f(th, ret);
    }
    Rt  rt;
    int id = static_cast<int>(th) - 1;
    if (id < 0 || id >= nthreads)
        mc::fail("join of an unknown thread");
    point();
    Thread& t = T[id];
    if (t.joined || t.detached)
        mc::fail("join of a thread that was joined or detached before");
    trace("join", nullptr, static_cast<u64>(id), PC);
    while (t.st != finished)
        block(b_join, &t);
    t.joined = true;
    T[cur].vc.join(sync_of(&t).rel);
    history('J', &t, sync_of(&t).writer);
    if (ret)
        *ret = t.ret;
    return 0;
}
int
pthread_detach(pthread_t th)
{
    if (!active) {
        auto f = reinterpret_cast<int (*)(pthread_t)>(real("pthread_detach"));
        return f(th);
    }
    Rt  rt;
    int id = static_cast<int>(th) - 1;
    if (id < 0 || id >= nthreads)
        mc::fail("detach of an unknown thread");
    point();
    T[id].detached = true;
    history('D', &T[id], 0);
    trace("detach", nullptr, static_cast<u64>(id), PC);
    return 0;
}
pthread_t
pthread_self()
{
    if (!active) {
        static auto f = reinterpret_cast<pthread_t (*)()>(real("pthread_self"));
        return f();
    }
    return static_cast<pthread_t>(cur + 1);
}

// ---- mutexes ----

static int
mutex_lock(void* m, bool recursive, bool try_only, u64 deadline, bool timed, void* pc)
{
    Rt rt;
    point();
    Sync& s = sync_of(m);
    while (s.owner) {
        if (recursive && s.owner == cur + 1) {
            s.depth++;
            history('M', m, s.writer);
            return 0;
        }
        if (try_only) {
            history('m', m, s.writer);
            spin_check(pc, m, 1);
            if (T[cur].yielded)
                reschedule();
            return EBUSY;
        }
        trace("lock (blocks)", m, 0, pc);
        T[cur].timed = timed;
        T[cur].wake  = deadline;
        block(b_mutex, m);
        T[cur].timed = false;
        if (T[cur].timed_out && s.owner) {
            history('m', m, s.writer);
            return ETIMEDOUT;
        }
    }
    s.owner = cur + 1;
    s.depth = 1;
    history('M', m, s.writer);
    s.writer = new_id();
    T[cur].vc.join(s.rel);
    trace("lock", m, 0, pc);
    new_write();
    return 0;
}
static int
mutex_unlock(void* m, void* pc, bool pt)
{
    Rt rt;
    if (pt)
        point();
    Sync& s = sync_of(m);
    if (s.owner != cur + 1)
        mc::fail("thread %d unlocks a mutex it does not hold (pc=%p)", cur, pc);
    if (--s.depth > 0)
        return 0;
    s.owner = 0;
    s.rel.join(T[cur].vc);
    s.has_rel = true;
    tick();
    history('U', m, s.writer);
    s.writer = new_id();
    trace("unlock", m, 0, pc);
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == b_mutex && T[i].obj == m)
            T[i].st = ready;
    new_write();
    return 0;
}
static u64
abs_ns(timespec const* ts)
{
    // the virtual clocks start at 10^18 ns
    u64 v = static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec);
    return v > 1000000000000000000ULL ? v - 1000000000000000000ULL : 0;
}
int
pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active || in_rt) {
        static auto f = reinterpret_cast<int (*)(pthread_mutex_t*)>(real("pthread_mutex_lock"));
        return f(m);
    }
    return mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, 0, false, PC);
}
int
pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!active || in_rt) {
        static auto f = reinterpret_cast<int (*)(pthread_mutex_t*)>(real("pthread_mutex_trylock"));
        return f(m);
    }
    return mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, true, 0, false, PC);
}
int
pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts)
{
    return mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, abs_ns(ts), true, PC);
}
int
pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, timespec const* ts)
{
    return mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, abs_ns(ts), true, PC);
}
int
pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!active || in_rt) {
        static auto f = reinterpret_cast<int (*)(pthread_mutex_t*)>(real("pthread_mutex_unlock"));
        return f(m);
    }
    return mutex_unlock(m, PC, true);
}

int
pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    Rt rt;
    point();
    Sync& s = sync_of(l);
    while (s.owner || s.readers)
        block(b_mutex, l);
    s.owner = cur + 1;
    T[cur].vc.join(s.rel);
    history('M', l, s.writer);
    s.writer = new_id();
    new_write();
    return 0;
}
int
pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    Rt rt;
    point();
    Sync& s = sync_of(l);
    while (s.owner)
        block(b_mutex, l);
    s.readers++;
    T[cur].vc.join(s.rel);
    history('r', l, s.writer);
    s.writer = new_id();
    new_write();
    return 0;
}
static int
rwlock_try(pthread_rwlock_t* l, bool write, void* pc)
{
    Rt rt;
    point();
    Sync& s = sync_of(l);
    if (s.owner || (write && s.readers)) {
        history('m', l, s.writer);
        spin_check(pc, l, 1);
        if (T[cur].yielded)
            reschedule();
        return EBUSY;
    }
    if (write)
        s.owner = cur + 1;
    else
        s.readers++;
    T[cur].vc.join(s.rel);
    history(write ? 'M' : 'r', l, s.writer);
    s.writer = new_id();
    new_write();
    return 0;
}
int
pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    return rwlock_try(l, true, PC);
}
int
pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    return rwlock_try(l, false, PC);
}
int
pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    Rt rt;
    point();
    Sync& s = sync_of(l);
    if (s.owner == cur + 1)
        s.owner = 0;
    else if (s.readers > 0)
        s.readers--;
    else
        mc::fail("unlock of a rwlock that is not held");
    s.rel.join(T[cur].vc);
    s.has_rel = true;
    tick();
    history('u', l, s.writer);
    s.writer = new_id();
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == b_mutex && T[i].obj == l)
            T[i].st = ready;
    new_write();
    return 0;
}

// ---- initialisation once: local statics, call_once, destructors of thread-local variables ----

static bool
once_enter(void* g, bool done)
{
    Rt    rt;
    Sync& s = sync_of(g);
    if (!done && s.owner == cur + 1)
        mc::fail("an initialisation enters itself");
    while (!done && s.owner) {
        block(b_mutex, g);
        done = *static_cast<u8*>(g) != 0;
    }
    T[cur].vc.join(s.rel);
    history('1', g, s.writer);
    if (!done)
        s.owner = cur + 1;
    return !done;
}
static void
once_leave(void* g)
{
    Rt    rt;
    Sync& s = sync_of(g);
    s.owner = 0;
    s.rel.join(T[cur].vc);
    s.has_rel = true;
    tick();
    history('2', g, s.writer);
    s.writer = new_id();
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == b_mutex && T[i].obj == g)
            T[i].st = ready;
    new_write();
}
int
__cxa_guard_acquire(__cxxabiv1::__guard* gp)
{
    u8* g = reinterpret_cast<u8*>(gp);
    if (!active || in_rt)
        return *g ? 0 : 1;
    return once_enter(g, *g != 0);
}
void
__cxa_guard_release(__cxxabiv1::__guard* gp) noexcept
{
    u8* g = reinterpret_cast<u8*>(gp);
    *g = 1;
    if (active && !in_rt)
        once_leave(g);
}
void
__cxa_guard_abort(__cxxabiv1::__guard* gp) noexcept
{
    u8* g = reinterpret_cast<u8*>(gp);
    if (active && !in_rt)
        once_leave(g);
}
int
pthread_once(pthread_once_t* o, void (*f)())
{
    u8* g = reinterpret_cast<u8*>(o);
    if (!active || in_rt) {
        static auto r = reinterpret_cast<int (*)(pthread_once_t*, void (*)())>(real("pthread_once"));
        return r(o, f);
    }
    if (once_enter(g, *g != 0)) {
        try {
            f();
        } catch (...) {
            once_leave(g);
            throw;
        }
        *g = 2;    // as glibc does
        once_leave(g);
    }
    return 0;
}
int
__cxa_atexit(void (*f)(void*), void* p, void* dso)
{
    if (active)
        return 0;
    static auto r = reinterpret_cast<int (*)(void (*)(void*), void*, void*)>(real("__cxa_atexit"));
    return r(f, p, dso);
}
int
__cxa_thread_atexit(void (*f)(void*), void* p, void* dso)
{
    if (active) {
        Thread& t = T[cur];
        if (t.ndtors == 16)
            mc::fail("too many thread-local objects");
        t.dtors[t.ndtors].f = f;
        t.dtors[t.ndtors].p = p;
        t.ndtors++;
        return 0;
    }
    static auto r = reinterpret_cast<int (*)(void (*)(void*), void*, void*)>(real("__cxa_thread_atexit"));
    return r(f, p, dso);
}

// ---- conditions ----

static int
cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 deadline, void* pc)
{
    {
        Rt rt;
        point();
        trace("cond wait", c, 0, pc);
        history('W', c, sync_of(c).writer);
    }
    mutex_unlock(m, pc, false);
    bool out;
    {
        Rt rt;
        T[cur].timed = timed;
        T[cur].wake  = deadline;
        block(b_cond, c);
        out          = T[cur].timed_out;
        T[cur].timed = false;
    }
    mutex_lock(m, false, false, 0, false, pc);
    return out ? ETIMEDOUT : 0;
}
int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!active || in_rt)
        return 0;
    return cond_wait(c, m, false, 0, PC);
}
int
pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts)
{
    return cond_wait(c, m, true, abs_ns(ts), PC);
}
int
pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* ts)
{
    return cond_wait(c, m, true, abs_ns(ts), PC);
}
static int
cond_wake(pthread_cond_t* c, bool all, void* pc)
{
    if (!active || in_rt)
        return 0;
    Rt rt;
    point();
    Sync& s = sync_of(c);
    history('N', c, s.writer);
    s.writer = new_id();
    trace(all ? "cond broadcast" : "cond signal", c, 0, pc);
    int w[max_threads], n = 0;
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == b_cond && T[i].obj == c)
            w[n++] = i;
    if (n) {
        if (all) {
            for (int i = 0; i < n; i++) {
                T[w[i]].st    = ready;
                T[w[i]].timed = false;
            }
        } else {
            int k         = mc::choose(n);
            T[w[k]].st    = ready;
            T[w[k]].timed = false;
            history('n', nullptr, static_cast<u64>(k));
        }
    }
    new_write();
    return 0;
}
int
pthread_cond_signal(pthread_cond_t* c)
{
    return cond_wake(c, false, PC);
}
int
pthread_cond_broadcast(pthread_cond_t* c)
{
    return cond_wake(c, true, PC);
}
int
pthread_cond_destroy(pthread_cond_t*)
{
    return 0;
}

// ---- futexes (std::atomic wait and notify), and other system calls ----

long
syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (auto& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (!active || nr != SYS_futex) {
        static auto f = reinterpret_cast<long (*)(long, ...)>(real("syscall"));
        return f(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    Rt        rt;
    auto*     addr = reinterpret_cast<u32*>(a[0]);
    int const op   = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    point();
    Sync& s = sync_of(addr);
    history('f', addr, s.writer);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        trace("futex wait", addr, *addr, PC);
        if (*addr != static_cast<u32>(a[2])) {
            errno = EAGAIN;
            return -1;
        }
        auto const* ts = reinterpret_cast<timespec const*>(a[3]);
        T[cur].timed   = ts != nullptr;
        if (ts)
            T[cur].wake = op == FUTEX_WAIT
                              ? vtime + static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec)
                              : abs_ns(ts);
        block(b_futex, addr);
        T[cur].timed = false;
        if (T[cur].timed_out) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        long n = 0;
        trace("futex wake", addr, static_cast<u64>(a[2]), PC);
        int w[max_threads], k = 0;
        for (int i = 0; i < nthreads; i++)
            if (T[i].st == b_futex && T[i].obj == addr)
                w[k++] = i;
        while (k && n < static_cast<int>(a[2])) {
            int c = mc::choose(k);
            T[w[c]].st    = ready;
            T[w[c]].timed = false;
            w[c]          = w[--k];
            n++;
            history('g', nullptr, static_cast<u64>(c));
        }
        new_write();
        return n;
    }
    mc::fail("a futex operation that is not modelled: %d", op);
}

// ---- time ----

static void
sleep_ns(u64 ns, void* pc)
{
    Rt rt;
    point();
    history('z', nullptr, ns);
    trace("sleep", nullptr, ns, pc);
    if (ns == 0) {
        T[cur].yielded     = true;
        T[cur].yield_epoch = epoch;
        reschedule();
        return;
    }
    T[cur].wake = vtime + ns;
    T[cur].nspin = 0;
    block(sleeping, nullptr);
    history('w', nullptr, vtime);
}
int
nanosleep(timespec const* ts, timespec* rem)
{
    if (!active) {
        auto f = reinterpret_cast<int (*)(timespec const*, timespec*)>(real("nanosleep"));
        return f(ts, rem);
    }
    sleep_ns(static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec), PC);
    return 0;
}
int
clock_nanosleep(clockid_t id, int flags, timespec const* ts, timespec* rem)
{
    if (!active) {
        auto f = reinterpret_cast<int (*)(clockid_t, int, timespec const*, timespec*)>(real("clock_nanosleep"));
        return f(id, flags, ts, rem);
    }
    u64 ns = static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec);
    if (flags & TIMER_ABSTIME) {
        u64 w = abs_ns(ts);
        ns    = w > vtime ? w - vtime : 0;
    }
    sleep_ns(ns, PC);
    return 0;
}
int
usleep(useconds_t us)
{
    if (!active) {
        auto f = reinterpret_cast<int (*)(useconds_t)>(real("usleep"));
        return f(us);
    }
    sleep_ns(static_cast<u64>(us) * 1000, PC);
    return 0;
}
int
sched_yield()
{
    if (!active || in_rt) {
        auto f = reinterpret_cast<int (*)()>(real("sched_yield"));
        return f();
    }
    sleep_ns(0, PC);
    return 0;
}
int
clock_gettime(clockid_t id, timespec* ts)
{
    if (!active || in_rt) {
        static auto f = reinterpret_cast<int (*)(clockid_t, timespec*)>(real("clock_gettime"));
        return f(id, ts);
    }
    u64 const v = 1000000000000000000ULL + vtime;
    ts->tv_sec  = static_cast<time_t>(v / 1000000000ULL);
    ts->tv_nsec = static_cast<long>(v % 1000000000ULL);
    {
        Rt rt;
        history('t', nullptr, vtime);
    }
    return 0;
}
int
gettimeofday(timeval* __restrict tv, void* __restrict)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
}    // extern "C"

// ---- memory: an arena that starts afresh in every execution, so that addresses do not depend on
// the executions before, and nothing is reused within one, so that use after free is seen ----

// (Except while hurried: a long way would need too much memory.)
constexpr std::size_t n_old = 512;
static struct Old { std::size_t n; u8* p; } old_blocks[n_old];

static void*
arena_alloc(std::size_t n, std::size_t align)
{
    if (align < 16)
        align = 16;
    if (hurried && align == 16 && n)
        for (auto& o : old_blocks)
            if (o.n == n) {
                o.n = 0;
                memset(o.p, 0xCD, n);
                return o.p;
            }
    std::size_t p = (arena_pos + 16 + align - 1) & ~(align - 1);
    if (p + n > arena_size)
        mc::fail("the execution needs too much memory");
    arena_pos = (p + n + 15) & ~static_cast<std::size_t>(15);
    u8* q     = arena + p;
    *reinterpret_cast<u64*>(q - 8) = n;
    memset(q, 0xCD, n);
    return q;
}
static void*
do_new(std::size_t n, std::size_t align)
{
    if (active && !in_rt)
        return arena_alloc(n, align);
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
static void
do_delete(void* p, void* pc)
{
    if (!p)
        return;
    if (p >= arena && p < arena + arena_size && arena) {
        if (!active)
            return;
        u64 const n   = *reinterpret_cast<u64*>(static_cast<u8*>(p) - 8);
        int const old = in_rt;
        in_rt         = 0;
        mem_access(p, n ? n : 1, true, false, pc);
        in_rt = old;
        u64 a = reinterpret_cast<u64>(p), e = a + (n ? n : 1);
        if (hurried && n)
            for (auto& o : old_blocks)
                if (!o.n) {
                    o = {n, static_cast<u8*>(p)};
                    for (; a < e; a = (a | 7) + 1)
                        forget_cell(a >> 3);
                    return;
                }
        for (; a < e; a = (a | 7) + 1)
            cell_of(a >> 3).freed = 0xff;
        return;
    }
    free(p);
}
void*
operator new(std::size_t n)
{
    return do_new(n, 0);
}
void*
operator new[](std::size_t n)
{
    return do_new(n, 0);
}
void*
operator new(std::size_t n, std::align_val_t a)
{
    return do_new(n, static_cast<std::size_t>(a));
}
void*
operator new[](std::size_t n, std::align_val_t a)
{
    return do_new(n, static_cast<std::size_t>(a));
}
void*
operator new(std::size_t n, std::nothrow_t const&) noexcept
{
    return do_new(n, 0);
}
void*
operator new[](std::size_t n, std::nothrow_t const&) noexcept
{
    return do_new(n, 0);
}
#define DEL(...)                                                                                                       \
    void operator delete(void* p __VA_OPT__(, ) __VA_ARGS__) noexcept { do_delete(p, PC); }                            \
    void operator delete[](void* p __VA_OPT__(, ) __VA_ARGS__) noexcept { do_delete(p, PC); }
DEL()
DEL(std::size_t)
DEL(std::align_val_t)
DEL(std::size_t, std::align_val_t)
DEL(std::nothrow_t const&)

// Memory of the normal heap that is freed while the body runs (exception objects): whoever gets it
// next has nothing to do with its accesses so far.
extern "C" void __libc_free(void*);
extern "C" void
free(void* p)
{
    if (p && active) {
        std::size_t const n = malloc_usable_size(p);
        if (n <= 65536) {
            for (u64 a = reinterpret_cast<u64>(p) >> 3, e = (reinterpret_cast<u64>(p) + n + 7) >> 3; a < e; a++)
                forget_cell(a);
        }
    }
    __libc_free(p);
}

namespace mc::conc {
void
event(int kind, long a, long b)
{
    if (hurried)
        return;
    Rt rt;
    point();
    static char log_location;
    Sync&       s = sync_of(&log_location);
    history('e', &log_location, s.writer);
    history('e', nullptr, static_cast<u64>(kind) ^ (static_cast<u64>(a) << 8) ^ (static_cast<u64>(b) << 32));
    s.writer = new_id();
    T[cur].nspin = 0;
    if (nev >= 4096)
        mc::fail("too many events in one execution: the code under test does not come to an end");
    ev[nev++] = Event{cur, kind, a, b, vtime};
    if (mc::recording()) {
        char b2[23];
        snprintf(b2, sizeof b2, "event(%d,%ld,%ld)", kind, a, b);
        trace(b2, nullptr, 0, nullptr);
    }
}
std::size_t
events()
{
    return nev;
}
Event const&
event_at(std::size_t i)
{
    return ev[i];
}
std::uint64_t
now()
{
    return vtime;
}
void
spend(std::uint64_t ns)
{
    if (ns)
        sleep_ns(ns, PC);
}
int
self()
{
    return cur;
}
void
signal(int ch)
{
    Rt rt;
    point();
    chan[ch]++;
    Sync& s = sync_of(&chan[ch]);
    history('c', &chan[ch], s.writer);
    s.writer = new_id();
    s.rel.join(T[cur].vc);
    s.has_rel = true;
    tick();
    for (int i = 0; i < nthreads; i++)
        if (T[i].st == b_chan && T[i].obj == &chan[ch])
            T[i].st = ready;
    trace("signal", nullptr, static_cast<u64>(ch), PC);
    new_write();
}
void
await(int ch, long n)
{
    Rt rt;
    point();
    while (chan[ch] < n)
        block(b_chan, &chan[ch]);
    Sync& s = sync_of(&chan[ch]);
    history('a', &chan[ch], s.writer);
    T[cur].vc.join(s.rel);
    T[cur].nspin = 0;
    trace("await", nullptr, static_cast<u64>(ch), PC);
}
long
signals(int ch)
{
    return chan[ch];
}
void
wait_all()
{
    Rt rt;
    point();
    for (;;) {
        int live = 0;
        for (int i = 0; i < nthreads; i++)
            if (T[i].st != finished)
                live++;
        if (live == 1)
            break;
        block(b_all, nullptr);
    }
    // deliberately no happens-before edge: the harness only reads the event log after this
}
int
alive()
{
    int live = 0;
    for (int i = 0; i < nthreads; i++)
        if (T[i].st != finished)
            live++;
    return live;
}
void
set_delays(bool on)
{
    delays = on;
}
void
room()
{
    if (n_sync > 1u << 12)
        return;
    in_rt++;
    auto const old_s = n_sync, old_c = n_cell;
    auto* const s = S;
    auto* const c = C;
    n_sync = 1u << 19, sync_shift = 64 - 19;
    n_cell = 1u << 21, cell_shift = 64 - 21;
    auto const map = [](std::size_t n) {
        void* const p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            fprintf(stderr, "mmap failed\n");
            _exit(3);
        }
        return p;
    };
    S = static_cast<Sync*>(map(n_sync * sizeof(Sync)));
    C = static_cast<Cell*>(map(n_cell * sizeof(Cell)));
    for (std::size_t i = 0; i < old_s; i++)
        if (s[i].gen == gen)
            sync_of(s[i].addr) = s[i];
    for (std::size_t i = 0; i < old_c; i++)
        if (c[i].gen == gen)
            cell_of(c[i].key) = c[i];
    free(s);
    munmap(c, old_c * sizeof(Cell));
    in_rt--;
}
void
hurry(bool on)
{
    hurried = on;
    points = 0;
    memset(old_blocks, 0, sizeof old_blocks);
}
}    // namespace mc::conc
