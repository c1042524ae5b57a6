// The exploration engine: depth-first search over choice sequences, bounded by deviations, spread
// over worker processes that share a table of visited states and a table of claimed subtrees.
#ifdef __clang__
// The variables of the engine are kept apart: conc.cpp resets all others before every execution.
#pragma clang section bss = "mc_bss" data = "mc_data"
#endif
#include "mc.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>

namespace mc {
namespace detail {
void (*run_body)(std::function<void()> const&) = nullptr;
void (*dump_trace)(void)                       = nullptr;
void (*on_choice)(int)                         = nullptr;
}    // namespace detail

namespace {

constexpr unsigned max_points  = 1u << 16;
constexpr unsigned max_workers = 64;
constexpr unsigned note_bytes  = 1u << 16;

enum Status : int { running = 0, done = 1, violated = 2, internal = 3, stopped = 4 };

struct Slot {
    std::atomic<int>           status;
    std::atomic<std::uint64_t> execs;         // executions owned by this worker
    std::atomic<std::uint64_t> all_execs;     // every run of the body (liveness of the worker)
    std::atomic<std::uint64_t> steps;
    std::atomic<std::uint64_t> states;
    std::atomic<std::uint64_t> outcomes;
    std::atomic<std::uint64_t> pruned;
    std::atomic<std::uint64_t> findings;
    std::atomic<std::uint64_t> maxlen;
    std::atomic<std::uint64_t> cut;           // alternatives left out because of the bound
    std::atomic<std::uint64_t> unstable;      // states that look different when they are reached again
    std::atomic<std::uint32_t> pathlen;
    std::uint32_t              visits;        // calls of visit() in this execution
    bool                       stopped_here;  // the last one ended it
    std::uint16_t              path[max_points];
    char                       msg[8192];
    char                       sig[512];
    char                       notes[note_bytes];
    unsigned                   notes_len;
    int                        notes_truncated;
    // sample executions
    char     sample[3][4096];
    unsigned nsamples;
};

struct Shared {
    std::atomic<int>           stop;
    std::atomic<std::uint64_t> table_used;
    std::atomic<int>           table_full;
    std::atomic<std::uint64_t> claims;
    // closure mode: the states whose successors have not been explored yet, as the choices that lead there
    std::atomic<std::uint64_t> head, tail, room_used;
    std::atomic<int>           busy;
    Slot                       slots[max_workers];
};

struct Pt {
    std::uint16_t n, chosen;
    std::uint32_t cost_before;
    std::uint32_t nz_before;
    std::uint64_t costs;
    std::uint64_t hash_before;
};

Shared*                     sh;
Slot*                       me;
std::atomic<std::uint64_t>* table;
std::uint64_t               table_size;
std::atomic<std::uint64_t>* claim_table;
std::uint64_t               claim_size = 1u << 22;

// An entry of the queue of closure mode, in `room`: number of choices, number of visits, hash, the choices.
struct Todo {
    std::uint32_t n, visits;
    std::uint64_t hash;
    std::uint16_t choices[];
};
std::atomic<std::uint64_t>*  queue;     // offset into room + 1
unsigned char*               room;
constexpr std::uint64_t      room_size = 6ULL << 30;
bool                         closure;
unsigned                     from_points, from_visits;    // what the current entry says
std::uint64_t                from_hash;
unsigned                     stop_at;   // of a replay in closure mode

Pt*      pts;
unsigned npts, pos;
bool     prune_mode;
bool     owned;        // this execution counts for this worker
int      bound;
unsigned split = 2;    // subtrees are claimed at their split-th deviation from the default choices
bool     is_thorough;
bool     is_replay;
bool     no_prune;
bool     rec;
std::vector<std::string> known;

double
now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

// True if the key was not there.
bool
insert(std::atomic<std::uint64_t>* t, std::uint64_t size, std::uint64_t key, std::atomic<std::uint64_t>& used)
{
    if (key == 0)
        key = 1;
    std::uint64_t i = (key * 0x9e3779b97f4a7c15ULL) & (size - 1);
    for (;;) {
        std::uint64_t v = t[i].load(std::memory_order_relaxed);
        if (v == key)
            return false;
        if (v == 0) {
            if (t[i].compare_exchange_strong(v, key, std::memory_order_relaxed)) {
                used.fetch_add(1, std::memory_order_relaxed);
                return true;
            }
            if (v == key)
                return false;
        }
        i = (i + 1) & (size - 1);
    }
}
bool
present(std::atomic<std::uint64_t>* t, std::uint64_t size, std::uint64_t key)
{
    if (key == 0)
        key = 1;
    std::uint64_t i = (key * 0x9e3779b97f4a7c15ULL) & (size - 1);
    for (;;) {
        std::uint64_t v = t[i].load(std::memory_order_relaxed);
        if (v == key)
            return true;
        if (v == 0)
            return false;
        i = (i + 1) & (size - 1);
    }
}
bool
claim(std::uint64_t key)
{
    if (sh->claims.load(std::memory_order_relaxed) > claim_size / 2) {
        snprintf(me->msg, sizeof me->msg, "claim table full");
        me->status = internal;
        _exit(3);
    }
    return insert(claim_table, claim_size, key, sh->claims);
}
bool
table_ok()
{
    if (sh->table_used.load(std::memory_order_relaxed) > table_size / 4 * 3) {
        sh->table_full = 1;
        return false;
    }
    return true;
}

[[noreturn]] void
die_internal(char const* what)
{
    snprintf(me->msg, sizeof me->msg, "%s", what);
    me->status = internal;
    _exit(3);
}

void
run_once(Config const& c)
{
    pos            = 0;
    prune_mode     = false;
    me->pathlen    = 0;
    me->visits       = 0;
    me->stopped_here = false;
    me->notes_len  = 0;
    me->notes[0]   = 0;
    me->notes_truncated = 0;
    me->all_execs.fetch_add(1, std::memory_order_relaxed);
    try {
        if (detail::run_body)
            detail::run_body(c.body);
        else
            c.body();
    } catch (std::exception const& e) {
        fail("an exception leaves the harness: %s (%s)", e.what(), typeid(e).name());
    } catch (...) {
        fail("an exception leaves the harness");
    }
    if (!prune_mode && pos < npts && !is_replay)
        die_internal("replaying a prefix diverged: the execution ended early");
}

void
worker(Config const& c)
{
    npts         = 0;
    bool   first = true;
    std::uint64_t next_sample = 1;
    for (;;) {
        unsigned nz = 0;
        std::uint64_t h = 7;
        if (npts) {
            Pt const& l = pts[npts - 1];
            nz          = l.nz_before + (l.chosen ? 1 : 0);
            h           = mix(l.hash_before, l.chosen);
        }
        owned = true;
        if (nz < split)
            owned = claim(mix(h, 0x5151 + npts)) ;
        rec = owned && me->nsamples < 3 && (first || me->execs >= next_sample);
        run_once(c);
        if (owned) {
            me->execs.fetch_add(1, std::memory_order_relaxed);
            if (rec && me->notes_len) {
                snprintf(me->sample[me->nsamples++], sizeof me->sample[0], "%.4000s", me->notes);
                next_sample = (me->execs + 5) * 11;
            }
        }
        first = false;
        if (npts > me->maxlen)
            me->maxlen = npts;
        if (sh->stop.load(std::memory_order_relaxed)) {
            me->status = stopped;
            return;
        }
        // backtrack
        bool found = false;
        while (npts) {
            Pt&      p = pts[npts - 1];
            unsigned a = p.chosen + 1u;
            for (; a < p.n; a++) {
                std::uint32_t cost = p.cost_before + ((p.costs >> (a < 63 ? a : 63)) & 1);
                if (cost > static_cast<std::uint32_t>(bound)) {
                    me->cut.fetch_add(1, std::memory_order_relaxed);
                    continue;
                }
                if (p.nz_before + 1 == split && !claim(mix(mix(p.hash_before, a), 0x77)))
                    continue;
                break;
            }
            if (a < p.n) {
                p.chosen = static_cast<std::uint16_t>(a);
                found    = true;
                break;
            }
            npts--;
        }
        if (!found)
            break;
    }
    me->status = done;
}

// All sequences of steps of any length: a queue of states, each with the choices that lead to it; from each the
// executions up to the next visit() are run once.
void
closing_worker(Config const& c)
{
    owned = true;
    std::uint64_t next_sample = 1;
    for (;;) {
        sh->busy.fetch_add(1);
        std::uint64_t h = sh->head.load();
        bool          got = false;
        while (h < sh->tail.load())
            if (sh->head.compare_exchange_weak(h, h + 1)) {
                got = true;
                break;
            }
        if (!got) {
            sh->busy.fetch_sub(1);
            if (sh->busy.load() == 0 && sh->head.load() >= sh->tail.load())
                break;
            me->all_execs.fetch_add(1, std::memory_order_relaxed);
            usleep(100);
            if (sh->stop.load(std::memory_order_relaxed)) {
                me->status = stopped;
                return;
            }
            continue;
        }
        std::uint64_t o;
        while (!(o = queue[h].load(std::memory_order_acquire)))
            usleep(10);
        auto const* t = reinterpret_cast<Todo const*>(room + o - 1);
        from_points   = t->n;
        from_visits   = t->visits;
        from_hash     = t->hash;
        npts          = t->n;
        for (unsigned i = 0; i < npts; i++) {
            pts[i]        = Pt{};
            pts[i].chosen = t->choices[i];
        }
        for (;;) {
            rec = me->nsamples < 3 && me->execs >= next_sample;
            run_once(c);
            me->execs.fetch_add(1, std::memory_order_relaxed);
            if (rec && me->notes_len) {
                snprintf(me->sample[me->nsamples++], sizeof me->sample[0], "%.4000s", me->notes);
                next_sample = (me->execs + 5) * 11;
            }
            if (npts > me->maxlen)
                me->maxlen = npts;
            if (sh->stop.load(std::memory_order_relaxed)) {
                me->status = stopped;
                return;
            }
            while (npts > from_points && pts[npts - 1].chosen + 1u >= pts[npts - 1].n)
                npts--;
            if (npts == from_points)
                break;
            pts[npts - 1].chosen++;
        }
        sh->busy.fetch_sub(1);
    }
    me->status = done;
}

void
push(std::uint64_t hash)
{
    std::uint64_t const n = (sizeof(Todo) + pos * 2 + 7) & ~7ULL;
    std::uint64_t const o = sh->room_used.fetch_add(n);
    std::uint64_t const i = sh->tail.load();
    if (o + n > room_size || i + 1 >= table_size) {
        sh->table_full = 1;
        sh->stop       = 1;
        return;
    }
    auto* t   = reinterpret_cast<Todo*>(room + o);
    t->n      = pos;
    t->visits = me->visits;
    t->hash   = hash;
    for (unsigned k = 0; k < pos; k++)
        t->choices[k] = pts[k].chosen;
    queue[sh->tail.fetch_add(1)].store(o + 1, std::memory_order_release);
}

std::string
json_escape(char const* s)
{
    std::string o;
    for (; *s; s++) {
        unsigned char ch = static_cast<unsigned char>(*s);
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += *s;
        } else if (ch == '\n') {
            o += "\\n";
        } else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += *s;
        }
    }
    return o;
}

void*
shared_map(std::size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return p;
}

int
replay(std::vector<Config> const& cs, char const* file)
{
    FILE* f = fopen(file, "r");
    if (!f) {
        perror(file);
        return 3;
    }
    char line[256] = "", name[256] = "";
    std::vector<int> path;
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "config %255s", name) == 1) {
            continue;
        }
        if (sscanf(line, "stop %u", &stop_at) == 1) {
            continue;
        }
        if (!strncmp(line, "choices", 7)) {
            int v;
            while (fscanf(f, "%d", &v) == 1)
                path.push_back(v);
        }
    }
    fclose(f);
    for (auto const& c : cs) {
        if (c.name == name) {
            is_replay = true;
            rec       = true;
            owned     = true;
            bound     = 1 << 20;
            npts      = static_cast<unsigned>(path.size());
            for (unsigned i = 0; i < npts; i++) {
                pts[i]        = Pt{};
                pts[i].chosen = static_cast<std::uint16_t>(path[i]);
            }
            closure   = c.closure;
            me = &sh->slots[0];
            setvbuf(stdout, nullptr, _IONBF, 0);
            run_once(c);
            printf("REPLAY-OK: the execution does not violate the property\n");
            return 0;
        }
    }
    fprintf(stderr, "no configuration %s\n", name);
    return 3;
}

}    // namespace

bool
thorough()
{
    return is_thorough;
}

int
choose_cost(int n, std::uint64_t costs)
{
    if (n <= 1)
        return 0;
    if (prune_mode)
        return 0;
    if (pos >= max_points)
        die_internal("execution has too many choices");
    if (pos < npts) {
        Pt& p = pts[pos];
        if (is_replay || (closure && pos < from_points)) {
            p.n = static_cast<std::uint16_t>(n);
        } else if (p.n != n || p.costs != costs) {
            die_internal("replaying a prefix diverged: nondeterminism that is not under control");
        }
        if (p.chosen >= n)
            die_internal("replay: choice out of range");
    } else if (is_replay) {
        npts = pos + 1;
        pts[pos] = Pt{};
        pts[pos].n = static_cast<std::uint16_t>(n);
    } else {
        Pt& p        = pts[npts++];
        p.n          = static_cast<std::uint16_t>(n);
        p.chosen     = 0;
        p.costs      = costs;
        if (pos) {
            Pt const& l   = pts[pos - 1];
            p.cost_before = l.cost_before + ((l.costs >> (l.chosen < 63 ? l.chosen : 63)) & 1);
            p.nz_before   = l.nz_before + (l.chosen ? 1 : 0);
            p.hash_before = mix(l.hash_before, l.chosen);
        } else {
            p.cost_before = 0;
            p.nz_before   = 0;
            p.hash_before = 7;
        }
    }
    me->path[pos] = pts[pos].chosen;
    me->pathlen.store(pos + 1, std::memory_order_relaxed);
    return pts[pos++].chosen;
}
int
choose(int n)
{
    int const v = choose_cost(n, 0);
    if (detail::on_choice)
        detail::on_choice(v);
    return v;
}
int
choose_dev(int n)
{
    int const v = choose_cost(n, ~1ULL);
    if (detail::on_choice)
        detail::on_choice(v);
    return v;
}

void
fail(char const* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    if (is_replay) {
        if (detail::dump_trace)
            detail::dump_trace();
        printf("REPLAY-VIOLATION: %s\n", me->msg);
        fflush(stdout);
        _exit(1);
    }
    me->status = violated;
    _exit(1);
}

void
finding(char const* signature, char const* fmt, ...)
{
    char    buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (auto const& k : known) {
        if (k == signature) {
            me->findings.fetch_add(1, std::memory_order_relaxed);
            snprintf(me->sig, sizeof me->sig, "%s", signature);
            return;
        }
    }
    fail("[%s] %s", signature, buf);
}

void
step(std::uint64_t n)
{
    if (owned && !closure)
        me->steps.fetch_add(n, std::memory_order_relaxed);
}

bool
recording()
{
    return rec;
}

void
note(char const* fmt, ...)
{
    if (!rec)
        return;
    va_list ap;
    va_start(ap, fmt);
    if (is_replay) {
        vprintf(fmt, ap);
        putchar('\n');
    } else if (me->notes_len + 200 < note_bytes) {
        int n = vsnprintf(me->notes + me->notes_len, 190, fmt, ap);
        if (n > 189)
            n = 189;
        me->notes_len += static_cast<unsigned>(n);
        me->notes[me->notes_len++] = '\n';
        me->notes[me->notes_len]   = 0;
    }
    va_end(ap);
}

static bool
may_prune()
{
    if (is_replay || prune_mode || no_prune)
        return false;
    if (pos == 0)
        return false;
    Pt const& l = pts[pos - 1];
    return l.nz_before + (l.chosen ? 1u : 0u) >= split;
}

void
state(std::uint64_t hash)
{
    if (is_replay || !owned || prune_mode || !table_ok())
        return;
    if (insert(table, table_size, mix(hash, 0xABCD), sh->table_used))
        me->states.fetch_add(1, std::memory_order_relaxed);
}

void
outcome(std::uint64_t hash)
{
    if (is_replay || !owned || !table_ok())
        return;
    if (insert(table, table_size, mix(hash, 0x07C0), sh->table_used))
        me->outcomes.fetch_add(1, std::memory_order_relaxed);
}

bool
visit(std::uint64_t hash, unsigned remaining)
{
    if (prune_mode)
        return true;
    me->visits++;
    if (closure) {
        if (is_replay) {
            prune_mode = me->visits >= stop_at;
        } else {
            if (me->visits < from_visits)
                return false;
            if (from_visits && me->visits == from_visits) {
                if (hash != from_hash)
                    me->unstable.fetch_add(1, std::memory_order_relaxed);
                return false;
            }
            me->steps.fetch_add(1, std::memory_order_relaxed);
            if (!table_ok()) {
                sh->stop = 1;
            } else if (insert(table, table_size, mix(hash, 0xABCD), sh->table_used)) {
                me->states.fetch_add(1, std::memory_order_relaxed);
                push(hash);
            } else {
                me->pruned.fetch_add(1, std::memory_order_relaxed);
            }
            prune_mode = true;
        }
        me->stopped_here = prune_mode;
        return prune_mode;
    }
    if (is_replay || prune_mode)
        return prune_mode;
    // While a recorded prefix is replayed, its states have been visited, by this very path.
    if (pos < npts)
        return false;
    bool const can = may_prune();
    if (can) {
        for (unsigned r = remaining; r <= remaining + 16 && r < 64; r++) {
            if (present(table, table_size, mix(hash, 0x1000 + r))) {
                me->pruned.fetch_add(1, std::memory_order_relaxed);
                prune_mode = true;
                return true;
            }
        }
    }
    state(hash);
    if (table_ok())
        insert(table, table_size, mix(hash, 0x1000 + remaining), sh->table_used);
    return false;
}

}    // namespace mc

using namespace mc;

static int
sh_main(int argc, char** argv)
{
    char const* out        = "/dev/stdout";
    char const* replay_in  = nullptr;
    char const* replay_out = "/tmp/mc.replay";
    char const* only       = nullptr;
    std::vector<std::string> prefixes;
    char const* logdir     = "/tmp";
    int         workers    = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
    double      deadline   = 1e9;
    double      hang_s     = 30;
    int         table_bits = 24;
    int         bound_override = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto        v = [&]() -> char const* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out")
            out = v();
        else if (a == "--replay")
            replay_in = v();
        else if (a == "--replay-out")
            replay_out = v();
        else if (a == "--config")
            only = v();
        else if (a == "--prefix")
            prefixes.emplace_back(v());
        else if (a == "--workers")
            workers = atoi(v());
        else if (a == "--deadline")
            deadline = atof(v());
        else if (a == "--hang")
            hang_s = atof(v());
        else if (a == "--table-bits")
            table_bits = atoi(v());
        else if (a == "--bound")
            bound_override = atoi(v());
        else if (a == "--log")
            logdir = v();
        else if (a == "--no-prune")
            no_prune = true;
        else if (a == "--tier")
            is_thorough = !strcmp(v(), "thorough");
        else if (a == "--known")
            known.emplace_back(v());
        else {
            fprintf(stderr, "unknown argument %s\n", argv[i]);
            return 3;
        }
    }
    if (workers < 1)
        workers = 1;
    if (workers > static_cast<int>(max_workers))
        workers = max_workers;
    if (detail::run_body)
        split = 1;
    sh  = static_cast<Shared*>(shared_map(sizeof(Shared)));
    pts = static_cast<Pt*>(calloc(max_points, sizeof(Pt)));
    me  = &sh->slots[0];
    auto const cs = configs();
    if (replay_in)
        return replay(cs, replay_in);

    table_size = 1ULL << table_bits;
    double const t0 = now_s();
    FILE* f = fopen(out, "w");
    if (!f) {
        perror(out);
        return 3;
    }
    fprintf(f, "{\"configs\": [");
    bool first = true;
    int  rc    = 0;
    std::string viol;
    bool all_done = true;
    auto const wanted = [&](Config const& c) {
        if ((only && c.name != only) || (c.thorough_only && !is_thorough))
            return false;
        for (auto const& p : prefixes)
            if (c.name.compare(0, p.size(), p) == 0)
                return true;
        return prefixes.empty();
    };
    auto to_do = std::count_if(cs.begin(), cs.end(), wanted);
    for (auto const& c : cs) {
        if (!wanted(c))
            continue;
        if (now_s() - t0 > deadline) {
            all_done = false;
            fprintf(f, "%s{\"name\": \"%s\", \"complete\": false, \"skipped\": true, \"executions\": 0}", first ? "" : ", ", c.name.c_str());
            first = false;
            continue;
        }
        bound = bound_override >= 0 ? bound_override : is_thorough ? c.bound_thorough : c.bound_quick;
        memset(static_cast<void*>(sh), 0, offsetof(Shared, slots));
        for (int w = 0; w < workers; w++) {
            Slot* s = &sh->slots[w];
            s->status = 0; s->execs = 0; s->all_execs = 0; s->steps = 0; s->states = 0; s->outcomes = 0;
            s->pruned = 0; s->findings = 0; s->maxlen = 0; s->pathlen = 0; s->cut = 0; s->msg[0] = 0; s->sig[0] = 0;
            s->notes_len = 0; s->nsamples = 0; s->unstable = 0; s->visits = 0; s->stopped_here = false;
        }
        closure = c.closure;
        if (closure) {
            queue = static_cast<std::atomic<std::uint64_t>*>(shared_map(table_size * 8));
            room  = static_cast<unsigned char*>(shared_map(room_size));
            auto* t      = reinterpret_cast<Todo*>(room);    // the beginning: no choices, no visits
            *t           = {};
            sh->room_used = sizeof(Todo);
            queue[0]     = 1;
            sh->tail     = 1;
        }
        table       = static_cast<std::atomic<std::uint64_t>*>(shared_map(table_size * 8));
        claim_table = static_cast<std::atomic<std::uint64_t>*>(shared_map(claim_size * 8));
        double const c0 = now_s();
        // One that turns out to be too large does not keep the others from being explored.
        double const left_s = t0 + deadline - c0, until = c0 + std::max(left_s * 0.35, 2 * left_s / static_cast<double>(to_do));
        to_do--;
        std::vector<pid_t>         pid(static_cast<std::size_t>(workers), -1);
        std::vector<std::uint64_t> last(static_cast<std::size_t>(workers), ~0ULL);
        std::vector<double>        since(static_cast<std::size_t>(workers), c0);
        fflush(f);
        for (int w = 0; w < workers; w++) {
            pid_t p = fork();
            if (p < 0) {
                perror("fork");
                return 3;
            }
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                me = &sh->slots[w];
                char lf[512];
                snprintf(lf, sizeof lf, "%s/worker.%d.log", logdir, w);
                int fd = open(lf, O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (fd >= 0) {
                    dup2(fd, 2);
                    dup2(fd, 1);
                }
                if (closure)
                    closing_worker(c);
                else
                    worker(c);
                _exit(0);
            }
            pid[static_cast<std::size_t>(w)] = p;
        }
        int  left = workers, bad = -1;
        char why[9000] = "";
        while (left > 0) {
            int   st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                for (int w = 0; w < workers; w++) {
                    auto const wi = static_cast<std::size_t>(w);
                    if (pid[wi] != p)
                        continue;
                    pid[wi] = -1;
                    left--;
                    Slot* s = &sh->slots[w];
                    if (bad >= 0)
                        continue;
                    if (s->status == violated) {
                        bad = w;
                        snprintf(why, sizeof why, "%s", s->msg);
                    } else if (s->status == internal) {
                        bad = w;
                        rc  = 3;
                        snprintf(why, sizeof why, "internal: %s", s->msg);
                    } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                        bad = w;
                        char lf[512], head[2000] = "";
                        snprintf(lf, sizeof lf, "%s/worker.%d.log", logdir, w);
                        if (FILE* l = fopen(lf, "r")) {
                            char ln[400];
                            while (fgets(ln, sizeof ln, l)) {
                                if (strstr(ln, "ERROR: ") || strstr(ln, "runtime error") || strstr(ln, "Assert")
                                    || strstr(ln, "terminate") || strstr(ln, "what()")) {
                                    ln[strcspn(ln, "\n")] = 0;
                                    strncat(head, ln, sizeof head - strlen(head) - 4);
                                    strcat(head, " | ");
                                    if (strlen(head) > 1200)
                                        break;
                                }
                            }
                            fclose(l);
                        }
                        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                            rc = 3;
                            snprintf(why, sizeof why, "internal: a worker was killed (out of memory?)");
                        } else {
                            snprintf(why, sizeof why, "the code under test crashed (%s %d): %s",
                                     WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
                                     head);
                        }
                    }
                    if (bad >= 0)
                        for (auto q : pid)
                            if (q > 0)
                                kill(q, SIGKILL);
                }
                continue;
            }
            usleep(5000);
            double const t = now_s();
            if (t - t0 > deadline || t > until)
                sh->stop = 1;
            for (int w = 0; w < workers && bad < 0; w++) {
                auto const wi = static_cast<std::size_t>(w);
                if (pid[wi] < 0)
                    continue;
                std::uint64_t const e = sh->slots[w].all_execs.load();
                if (e != last[wi]) {
                    last[wi]  = e;
                    since[wi] = t;
                } else if (t - since[wi] > hang_s) {
                    bad = w;
                    snprintf(why, sizeof why, "one execution has not ended after %.0f s: the code under test hangs",
                             hang_s);
                    for (auto q : pid)
                        if (q > 0)
                            kill(q, SIGKILL);
                }
            }
        }
        std::uint64_t execs = 0, steps = 0, states = 0, outs = 0, pruned = 0, finds = 0, maxlen = 0, cut = 0, unstable = 0;
        bool          complete = bad < 0 && !sh->stop;
        std::string   samples, sigs;
        int           ns = 0;
        for (int w = 0; w < workers; w++) {
            Slot* s = &sh->slots[w];
            execs += s->execs;
            steps += s->steps;
            states += s->states;
            outs += s->outcomes;
            pruned += s->pruned;
            finds += s->findings;
            cut += s->cut;
            unstable += s->unstable;
            if (s->maxlen > maxlen)
                maxlen = s->maxlen;
            for (unsigned k = 0; k < s->nsamples && ns < 3; k++, ns++) {
                samples += (ns ? ", \"" : "\"") + json_escape(s->sample[k]) + "\"";
            }
            if (s->sig[0])
                sigs = s->sig;
        }
        fprintf(f,
                "%s{\"name\": \"%s\", \"what\": \"%s\", \"closure\": %s, \"unstable\": %lu, \"bound\": %d, \"executions\": %lu, \"transitions\": %lu, \"states\": %lu, "
                "\"outcomes\": %lu, \"pruned\": %lu, \"findings\": %lu, \"finding_sig\": \"%s\", \"max_choices\": %lu, \"cut_by_bound\": %lu, "
                "\"complete\": %s, \"table_full\": %s, \"wall_s\": %.2f, \"samples\": [%s]}",
                first ? "" : ", ", c.name.c_str(), json_escape(c.what.c_str()).c_str(), closure ? "true" : "false", unstable, bound, execs, steps, states, outs, pruned, finds,
                json_escape(sigs.c_str()).c_str(), maxlen, cut, complete ? "true" : "false", sh->table_full ? "true" : "false",
                now_s() - c0, samples.c_str());
        first = false;
        if (!complete)
            all_done = false;
        munmap(static_cast<void*>(table), table_size * 8);
        munmap(static_cast<void*>(claim_table), claim_size * 8);
        if (closure) {
            munmap(static_cast<void*>(queue), table_size * 8);
            munmap(room, room_size);
        }
        if (bad >= 0) {
            Slot* s = &sh->slots[bad];
            viol    = why;
            if (rc == 0)
                rc = 1;
            if (FILE* r = fopen(replay_out, "w")) {
                fprintf(r, "config %s\nmessage ", c.name.c_str());
                for (char const* q = why; *q; q++)
                    fputc(*q == '\n' ? ' ' : *q, r);
                fprintf(r, "\nstop %u\nchoices\n", s->stopped_here ? s->visits : s->visits + 1);
                unsigned n = s->pathlen;
                for (unsigned i = 0; i < n; i++)
                    fprintf(r, "%u%c", s->path[i], (i + 1) % 40 ? ' ' : '\n');
                fprintf(r, "\n");
                fclose(r);
            }
            break;
        }
    }
    fprintf(f, "], \"complete\": %s, \"violation\": \"%s\", \"internal\": %s, \"wall_s\": %.2f}\n",
            all_done ? "true" : "false", json_escape(viol.c_str()).c_str(), rc == 3 ? "true" : "false", now_s() - t0);
    fclose(f);
    return rc;
}

int
main(int argc, char** argv)
{
    return sh_main(argc, argv);
}
