// Bounded exhaustive explorer: public interface used by the harnesses.
//
// A harness is a set of configurations. The body of a configuration is run again and again; each
// run is one execution, and every source of nondeterminism in it goes through choose(). The engine
// (explore.cpp) walks the whole tree of choices, within the configuration's deviation bound.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Config {
    std::string           name;
    std::function<void()> body;
    int                   bound_quick{1 << 20};       // deviations (preemptions, delays, ...) per execution
    int                   bound_thorough{1 << 20};
    bool                  thorough_only{false};
    std::string           what{};                     // what is enumerated, for the evidence
    bool                  closure{false};             // every reachable state, however many steps away (see visit)
};

// Provided by the harness.
std::vector<Config> configs();

bool thorough();

// A choice among n alternatives, all of them free.
int choose(int n);
// Alternative 0 is the normal answer of the environment, every other one costs one deviation.
int choose_dev(int n);
// The general form: bit a of costs is the price of alternative a (alternative 0 must be free).
int choose_cost(int n, std::uint64_t costs);

// The property is violated in this execution.
[[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
// As fail(), unless the known-findings file lists this signature: then it is counted, and the
// execution goes on.
void finding(char const* signature, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

// One transition of the system under test was taken (for the statistics).
void step(std::uint64_t n = 1);
// One line of the trace; kept for sample executions and in replays only.
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
bool recording();
// A state was reached, with `remaining` more steps (<= 62) to go. True when it was reached before
// with at least as many steps to go, so that everything after it is (or will be) explored from there.
bool visit(std::uint64_t hash, unsigned remaining);
// With Config::closure, the body is an endless loop of steps, with visit() after each; the hash must then
// determine the state completely. The number of remaining steps means nothing.
// Counts the state without pruning.
void state(std::uint64_t hash);
// An observed outcome of an execution: the number of different ones goes into the evidence.
void outcome(std::uint64_t hash);

inline std::uint64_t
mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 32;
    h *= 0xd6e8feb86659fd93ULL;
    h ^= h >> 32;
    return h;
}
inline std::uint64_t
hash_bytes(void const* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL)
{
    auto const* b = static_cast<unsigned char const*>(p);
    for (std::size_t i = 0; i < n; i++) {
        h = (h ^ b[i]) * 1099511628211ULL;
    }
    return mix(h, n);
}

#define MC_CHECK(cond, ...)                                                                                            \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            ::mc::fail(__VA_ARGS__);                                                                                   \
        }                                                                                                              \
    } while (0)

namespace detail {
// Set by the controlled scheduler (conc.cpp), if it is linked in: runs the body under it.
extern void (*run_body)(std::function<void()> const&);
extern void (*dump_trace)(void);
extern void (*on_choice)(int);
}    // namespace detail

// ---- controlled concurrency (conc.cpp) ----
namespace conc {
// Appends to the log of events of this execution. Events of all threads are totally ordered, but do
// not synchronize anything.
void        event(int kind, long a = 0, long b = 0);
std::size_t events();
struct Event {
    int  thread;
    int  kind;
    long a, b;
    std::uint64_t time;
};
Event const& event_at(std::size_t i);
// The virtual clock, in nanoseconds since the start of the execution.
std::uint64_t now();
// The calling thread needs some (virtual) time.
void spend(std::uint64_t ns);
int  self();
// Blocks until every other thread has ended.
void wait_all();
// Number of threads that have not ended, this one included.
int alive();
// A counter of the harness, 0 <= ch < 16. signal() adds one and releases, await() blocks until it is at
// least n and acquires: the way a user who knows that something has happened learns it.
void signal(int ch);
void await(int ch, long n);
long signals(int ch);
// Whether sleeping threads may be woken while others can run (the others are delayed then).
void set_delays(bool on);
// A long way to where the exploration begins: the schedule without deviations is taken, without choices, and
// there are no events.
void hurry(bool on);
void room();              // for executions that touch very much memory: at the start of the body
}    // namespace conc

}    // namespace mc
