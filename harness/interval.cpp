// interval_event (T01 .. T03) under every schedule, in virtual time.
#include "mc.hpp"

#include <memory>
#include <vector>
#include <xitren/func/interval_event.hpp>

using xitren::func::interval_event;
namespace C = mc::conc;

namespace {

// The property a configuration decides.
enum Mask : unsigned { T01 = 1, T02 = 2, T03 = 4 };
unsigned what;
#define T_CHECK(mask, ...)                                                                                             \
    do {                                                                                                               \
        if (what & (mask))                                                                                             \
            MC_CHECK(__VA_ARGS__);                                                                                          \
    } while (0)

enum { call_begin = 1, call_end, stop_begin, stop_end, destroy_end, set_period, set_done, created };
constexpr std::uint64_t ms = 1000000;

// After stop() or the destructor has returned no call is under way, and none comes later; none comes
// twice at the same time.
void
check_stopped()
{
    std::size_t stopped = 0;
    long        open    = 0;
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        switch (e.kind) {
        case call_begin:
            open++;
            T_CHECK(T01, open == 1, "the function is called while it is still running");
            T_CHECK(T01, !stopped, "the function is called after stop() or the destructor has returned");
            h = mc::mix(h, e.time);
            break;
        case call_end:
            open--;
            T_CHECK(T01, !stopped, "the function was still running when stop() or the destructor returned");
            break;
        case stop_end:
        case destroy_end:
            stopped = 1;
            h = mc::mix(h, e.time * 2 + 1);
            break;
        default: break;
        }
    }
    mc::outcome(h);
}

// The same where nothing but the beginning of a call is recorded.
void
check_stopped_late()
{
    bool stopped = false;
    for (std::size_t i = 0; i < C::events(); i++) {
        stopped = stopped || C::event_at(i).kind == stop_end;
        T_CHECK(T01, !stopped || C::event_at(i).kind != call_begin, "the function is called after stop() has returned");
    }
}

// A schedule the calls must follow: each call is due one period after the one before was due, the first one at the
// start; the period is the one in force at the call before, or one set since. No two calls come at the same check.
// `prompt`: nothing delays the thread, so every call also comes soon after it is due, or soon after the one
// before, if that took too long.
void
check_rate(long period, long check, bool prompt, std::uint64_t start, std::uint64_t end)
{
    // In force at the call before, or since.
    struct Range {
        std::uint64_t lo, hi;
        void
        also(long v)
        {
            lo = std::min(lo, static_cast<std::uint64_t>(v) * ms);
            hi = std::max(hi, static_cast<std::uint64_t>(v) * ms);
        }
        static Range of(long v) { return {static_cast<std::uint64_t>(v) * ms, static_cast<std::uint64_t>(v) * ms}; }
    };
    auto          periods = Range::of(0), checks = Range::of(check);
    std::uint64_t lo = start + 10 * ms, hi = lo, last = 0, over = 0, set = 0;
    long          period_before = period, check_before = check, calls = 0;
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == set_done) {
            if (set != e.time) {
                period_before = period;
                check_before  = check;
            }
            set = e.time;
            period = e.a;
            check  = e.b;
            if (calls)
                periods.also(period);
            checks.also(check);
        }
        if (e.kind == call_end)
            over = e.time;
        if (e.kind != call_begin)
            continue;
        lo += periods.lo;
        hi += periods.hi;
        T_CHECK(T02 | T03, e.time >= lo, "call %ld comes at %lu ms, it is not due before %lu ms", calls, e.time / ms, lo / ms);
        if (prompt)
            T_CHECK(T02 | T03, e.time <= std::max(hi, over) + 2 * checks.hi, "call %ld comes at %lu ms only, it was due at %lu ms and checked every %lu ms",
                     calls, e.time / ms, std::max(hi, over) / ms, checks.hi / ms);
        if (calls)
            T_CHECK(T03, e.time >= last + checks.lo, "calls %ld and %ld come at %lu and %lu ms, with %lu ms between two checks", calls - 1,
                    calls, last / ms, e.time / ms, checks.lo / ms);
        last    = e.time;
        periods = Range::of(period);
        checks  = Range::of(check);
        if (set == e.time) {
            periods.also(period_before);
            checks.also(check_before);
        }
        calls++;
    }
    if (prompt)
        T_CHECK(T02 | T03, std::max(hi + periods.hi, over) + 2 * checks.hi >= end, "call %ld was due at %lu ms and had not come at %lu ms", calls,
                (hi + periods.hi) / ms, end / ms);
}

// How long the calls take; the last number holds for all later ones.
using Works = std::vector<long>;

struct handler {
    std::vector<long>* data;
    Works              works;
    std::function<void(long)> also{};
    void
    operator()()
    {
        C::event(call_begin);
        MC_CHECK(data->size() == 2 && (*data)[0] == 7, "the function object is damaged");
        long const n = (*data)[1]++;
        if (also)
            also(n);
        C::spend(static_cast<std::uint64_t>(works[std::min(static_cast<std::size_t>(n), works.size() - 1)]) * ms);
        C::event(call_end);
    }
};

void
read_back(interval_event const& e, long period, long check, char const* when)
{
    T_CHECK(T03, e.period().count() == period, "period() is not what %s", when);
    T_CHECK(T03, e.period_between_checks().count() == check, "period_between_checks() is not what %s", when);
}

// Construct, let `run` ms pass, stop (or not), destroy.
void
life(long period, long check, std::uint64_t run, int how, Works work)
{
    std::vector<long>  v{7, 0};
    auto const         start = C::now();
    {
        auto e = std::make_unique<interval_event>(handler{&v, work}, std::chrono::milliseconds(period),
                                                  std::chrono::milliseconds(check));
        C::event(created);
        read_back(*e, period, check, "the constructor was given");
        C::spend(run * ms);
        if (how == 1 || how == 2) {
            C::event(stop_begin);
            e->stop();
            C::event(stop_end);
            C::spend(static_cast<std::uint64_t>(period + check) * ms);
        }
        if (how == 2)
            e->stop();
        read_back(*e, period, check, "the constructor was given, later");
        e.reset();
        C::event(destroy_end);
    }
    // what the function uses is gone now
    v = {};
    C::wait_all();
    check_stopped();
    check_rate(period, check, false, start, 0);
}

// No delays: the calls come in time, and the timer does not drift.
void
prompt(long period, long check, std::uint64_t run, Works work)
{
    C::set_delays(false);
    std::vector<long> v{7, 0};
    auto const        start = C::now();
    auto              e     = std::make_unique<interval_event>(handler{&v, work}, std::chrono::milliseconds(period),
                                              std::chrono::milliseconds(check));
    C::spend(run * ms);
    auto const end = C::now();
    e->stop();
    C::event(stop_end);
    e.reset();
    C::wait_all();
    check_stopped();
    check_rate(period, check, true, start, end);
}

// The defaults: 100 ms and 20 ms.
void
defaults()
{
    C::set_delays(false);
    std::vector<long> v{7, 0};
    auto const        start = C::now();
    {
        interval_event e{handler{&v, {0}}};
        C::spend(350 * ms);
        read_back(e, 100, 20, "the default is");
    }
    C::event(destroy_end);
    auto const end = C::now();
    C::wait_all();
    check_stopped();
    check_rate(100, 20, true, start, end - 40 * ms);
}

// The periods are changed while the event is running.
void
change(long p0, long p1, long c0, long c1, std::uint64_t when, std::uint64_t run, bool other_thread)
{
    std::vector<long> v{7, 0};
    auto const        start = C::now();
    auto              e     = std::make_unique<interval_event>(handler{&v, {0}}, std::chrono::milliseconds(p0),
                                              std::chrono::milliseconds(c0));
    auto setter = [&] {
        C::spend(when * ms);
        C::event(set_period);
        e->period(std::chrono::milliseconds(p1));
        C::event(set_done, p1, c0);
        e->period_between_checks(std::chrono::milliseconds(c1));
        read_back(*e, p1, c1, "was set");
    };
    if (other_thread) {
        std::thread t{setter};
        C::spend(run * ms);
        auto const p = e->period().count();
        T_CHECK(T03, p == p0 || p == p1, "period() is neither the old nor the new one");
        t.join();
    } else {
        setter();
        C::spend(run * ms);
    }
    e->stop();
    C::event(stop_end);
    e.reset();
    C::wait_all();
    check_stopped();
    // Lower bound on the times: a call that races with the setter may use either period.
    std::uint64_t due = start + 10 * ms;
    bool          setting = false;
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& ev = C::event_at(i);
        if (ev.kind == set_period)
            setting = true;
        if (ev.kind == call_begin) {
            T_CHECK(T02 | T03, ev.time >= due, "a call comes at %lu ms, it is not due before %lu ms", ev.time / ms, due / ms);
            // once the setter has begun, the thread may have read the old or the new one
            due += static_cast<std::uint64_t>(!setting ? p0 : std::min(p0, p1)) * ms;
        }
    }
}

// Without delays, new periods are in force from the first call or check on that comes after they were set.
struct Set {
    std::uint64_t after;    // ms since the one before
    long          period, check;
};
void
change_prompt(long period, long check, std::vector<Set> sets, std::uint64_t run, Works work = {0})
{
    C::set_delays(false);
    std::vector<long> v{7, 0};
    auto const        start = C::now();
    auto              e     = std::make_unique<interval_event>(handler{&v, work}, std::chrono::milliseconds(period),
                                              std::chrono::milliseconds(check));
    long p = period, c = check;
    for (auto const& s : sets) {
        C::spend(s.after * ms);
        read_back(*e, p, c, "was set last");
        if (s.period != p)
            e->period(std::chrono::milliseconds(p = s.period));
        if (s.check != c)
            e->period_between_checks(std::chrono::milliseconds(c = s.check));
        C::event(set_done, p, c);
        read_back(*e, p, c, "was set");
    }
    C::spend(run * ms);
    auto const end = C::now();
    read_back(*e, p, c, "was set last");
    e->stop();
    C::event(stop_end);
    read_back(*e, p, c, "was set last");
    e.reset();
    C::wait_all();
    check_stopped();
    check_rate(period, check, true, start, end);
}

// The function itself sets the periods, at its call number `at`. Also reads them.
void
change_inside(long p0, long c0, long at, long p1, long c1, std::uint64_t run, bool delays)
{
    C::set_delays(delays);
    std::vector<long>               v{7, 0};
    auto const                      start = C::now();
    std::unique_ptr<interval_event> e;
    auto inside = [&](long n) {
        if (n == 0)
            C::await(0, 1);    // not before `e` is what it shall be
        read_back(*e, n <= at ? p0 : p1, n <= at ? c0 : c1, "the function has set");
        if (n == at) {
            e->period(std::chrono::milliseconds(p1));
            e->period_between_checks(std::chrono::milliseconds(c1));
            C::event(set_done, p1, c1);
        }
    };
    e = std::make_unique<interval_event>(handler{&v, {0}, inside}, std::chrono::milliseconds(p0), std::chrono::milliseconds(c0));
    C::signal(0);
    C::spend(run * ms);
    auto const end = C::now();
    e->stop();
    C::event(stop_end);
    e.reset();
    C::wait_all();
    check_stopped();
    check_rate(p0, c0, !delays, start, end);
}

// Two events that have nothing to do with each other; the first is stopped, the second made later, before or after that.
void
two(bool delays, int order, std::uint64_t run)
{
    C::set_delays(delays);
    constexpr int              called = 20, stopped = 30;    // and the number of the event
    constexpr long             period[]{20, 30};
    std::uint64_t              start[2]{}, stop[2]{~0ul, ~0ul};
    std::unique_ptr<interval_event> e[2];
    auto make = [&](int k) {
        start[k] = C::now();
        e[k]     = std::make_unique<interval_event>([k] { C::event(called + k); }, std::chrono::milliseconds(period[k]), 10ms);
    };
    auto end = [&](int k, bool first) {
        if (first)
            e[k]->stop();
        else
            e[k].reset();
        C::event(stopped + k);
        stop[k] = C::now();
    };
    make(0);
    C::spend(5 * ms);
    if (order)
        make(1);
    C::spend(run * ms);
    end(0, order == 1);
    if (!order)
        make(1);
    C::spend(run * ms);
    if (order == 1)
        read_back(*e[0], period[0], 10, "was constructed");
    read_back(*e[1], period[1], 10, "was constructed");
    end(1, false);
    e[0].reset();
    C::wait_all();
    bool          over[2]{};
    std::uint64_t n[2]{}, h = 0;
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& x = C::event_at(i);
        for (int k = 0; k < 2; k++) {
            if (x.kind == stopped + k)
                over[k] = true;
            if (x.kind == called + k) {
                T_CHECK(T01, !over[k], "event %d is called after it was stopped", k);
                T_CHECK(T02, x.time >= start[k] + (10 + n[k] * static_cast<std::uint64_t>(period[k])) * ms, "call %lu of event %d is early", n[k], k);
                n[k]++;
                h = mc::mix(h, x.time + static_cast<std::uint64_t>(k));
            }
        }
    }
    for (int k = 0; k < 2; k++)
        if (!delays)    // checks come at every 10 ms, and a little after
            T_CHECK(T02, 10 + n[k] * static_cast<std::uint64_t>(period[k]) + 30 >= (stop[k] - start[k]) / ms, "event %d is called %lu times only", k, n[k]);
    mc::outcome(h);
}

// The same after `before` calls, the schedule of which is the ordinary one.
void
worn(long period, long check, long before, bool delays)
{
    C::set_delays(false);
    C::hurry(true);
    auto const start = C::now();
    long       n     = 0;
    auto       e     = std::make_unique<interval_event>([&n] { C::event(call_begin, n++); }, std::chrono::milliseconds(period),
                                              std::chrono::milliseconds(check));
    C::spend(static_cast<std::uint64_t>(before * period) * ms);
    C::hurry(false);
    C::set_delays(delays);
    C::spend(static_cast<std::uint64_t>(4 * period) * ms);
    read_back(*e, period, check, "was constructed");
    e->stop();
    auto const end = C::now();
    C::event(stop_end);
    e.reset();
    C::wait_all();
    check_stopped_late();
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < C::events(); i++) {
        auto const& x = C::event_at(i);
        if (x.kind != call_begin)
            continue;
        auto const due = start + static_cast<std::uint64_t>(10 + x.a * period) * ms;
        T_CHECK(T02, x.time >= due, "call %ld comes at %lu ms, it is not due before %lu ms", x.a, x.time / ms, due / ms);
        if (!delays)
            T_CHECK(T02, x.time <= due + static_cast<std::uint64_t>(2 * check) * ms, "call %ld comes at %lu ms only, it was due at %lu ms", x.a, x.time / ms, due / ms);
        h = mc::mix(h, x.time);
    }
    if (!delays)
        T_CHECK(T02, static_cast<std::uint64_t>(10 + n * period + 2 * check) * ms + start >= end, "there were %ld calls only in %lu ms", n, (end - start) / ms);
    mc::outcome(h);
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](unsigned mask, char const* n, int q, int t, std::function<void()> f, char const* text = "") {
        for (unsigned i = 0; i < 3; i++)
            if (mask >> i & 1) {
                Config k;
                k.name           = std::string("T0") + static_cast<char>('1' + i) + "-" + n;
                k.body           = [f, i] {
                    what = 1u << i;
                    f();
                };
                k.bound_quick    = q;
                k.bound_thorough = t;
                k.what           = text;
                c.push_back(std::move(k));
            }
    };
    add(T01, "stop-at-once", 8, 12, [] { life(100, 20, 0, 1, {0}); }, "stop() right after construction");
    add(T01, "destroy-at-once", 8, 12, [] { life(100, 20, 0, 0, {0}); }, "destruction right after construction");
    add(T01, "stop-while-running", 7, 11, [] { life(40, 10, 30, 1, {0}); }, "stop() between two calls");
    add(T01, "destroy-while-running", 7, 11, [] { life(40, 10, 30, 0, {0}); }, "destruction between two calls");
    add(T01, "stop-twice", 7, 11, [] { life(20, 10, 20, 2, {0}); }, "stop() twice, then destruction");
    add(T01, "slow-function-stop", 7, 11, [] { life(30, 10, 35, 1, {25}); }, "stop() while the function runs");
    add(T01, "slow-function-destroy", 7, 11, [] { life(30, 10, 25, 0, {40}); }, "destruction while the function runs, which takes longer than the period");
    add(T01, "slow-function-twice", 6, 10, [] { life(20, 10, 60, 2, {7}); }, "several calls, stop() twice");
    add(T01, "no-wait-between-checks", 6, 10, [] { life(15, 0, 12, 1, {0}); }, "a period between checks of 0");
    add(T01, "other-thread-runs", 5, 9, [] { change(30, 60, 10, 15, 25, 40, true); }, "the periods are changed by another thread meanwhile");
    add(T01, "two", 3, 5, [] { two(true, 1, 30); }, "two events, one of them is stopped");
    add(T01, "two-in-turn", 3, 5, [] { two(true, 0, 30); }, "an event that is made after another was destroyed");
    add(T01, "worn", 2, 4, [] { worn(20, 10, 65532, true); }, "the last four of 65536 periods");
    add(T02 | T03, "worn", 4, 6, [] { worn(5, 5, 65532, false); }, "65536 periods, no delays");
    add(T02, "worn-300", 8, 12, [] { worn(3, 1, 253, false); }, "257 periods, no delays");
    add(T02 | T03, "two", 8, 12, [] { two(false, 1, 200); }, "two events, one of them is stopped, no delays");
    add(T02, "two-destroyed", 8, 12, [] { two(false, 2, 200); }, "two events, one of them is destroyed, no delays");
    add(T02, "two-in-turn", 8, 12, [] { two(false, 0, 200); }, "an event that is made after another was destroyed, no delays");
    add(T02, "rate-100-20", 8, 12, [] { prompt(100, 20, 430, {0}); }, "period 100 ms, checks every 20 ms, no delays");
    add(T02, "rate-50-50", 8, 12, [] { prompt(50, 50, 430, {0}); }, "period 50 ms, checks every 50 ms, no delays");
    add(T02, "rate-30-7", 8, 12, [] { prompt(30, 7, 300, {0}); }, "period 30 ms, checks every 7 ms (not a divisor), no delays");
    add(T02, "rate-30-7-work", 8, 12, [] { prompt(30, 7, 300, {11}); }, "the same with a function that takes 11 ms");
    add(T02, "rate-1000-250", 8, 12, [] { prompt(1000, 250, 3900, {30}); }, "period 1 s");
    add(T02, "rate-slow-once", 8, 12, [] { prompt(30, 10, 400, {0, 95, 0}); }, "one call takes three periods, the ones missed are made up for");
    add(T02, "rate-slow-twice", 8, 12, [] { prompt(50, 20, 900, {120, 0, 0, 260, 5}); }, "two calls take several periods");
    add(T02, "rate-seldom", 8, 12, [] { prompt(20, 50, 400, {0}); }, "checks are further apart than the period: every check makes a call");
    add(T02, "rate-long", 1, 1, [] { prompt(7, 5, 14000, {0}); }, "2000 periods");
    add(T02, "rate-long-work", 1, 1, [] { prompt(9, 4, 10000, {3}); }, "1100 periods, with a function that takes time");
    add(T02, "rate-long-period", 4, 8, [] { prompt(4000000000, 1000000000, 13000000000ul, {0}); }, "a period of 46 days");
    add(T02, "rate-defaults", 8, 12, [] { defaults(); }, "default periods");
    add(T02, "rate-delayed", 5, 9, [] { life(30, 10, 110, 1, {0}); }, "every placement of scheduling delays");
    add(T02, "rate-delayed-work", 5, 9, [] { life(30, 10, 90, 0, {12}); }, "every placement of scheduling delays, slow function");
    add(T02, "rate-changed-shorter", 8, 12, [] { change_prompt(100, 10, {{140, 30, 10}}, 300); }, "the period becomes shorter");
    add(T02, "rate-changed-longer", 8, 12, [] { change_prompt(30, 10, {{85, 100, 10}}, 400); }, "the period becomes longer");
    add(T03, "set-longer", 5, 9, [] { change(30, 60, 10, 15, 25, 60, true); }, "another thread makes both periods longer");
    add(T03, "set-shorter", 5, 9, [] { change(60, 20, 20, 10, 25, 60, true); }, "another thread makes both periods shorter");
    add(T03, "set-same-thread", 6, 10, [] { change(60, 20, 20, 10, 0, 60, false); }, "the owner sets both");
    add(T03, "set-at-once", 5, 9, [] { change(30, 90, 10, 20, 0, 40, true); }, "set by another thread right after construction");
    add(T03, "set-in-force-shorter", 4, 8, [] { change_prompt(100, 10, {{140, 30, 10}}, 300); }, "a shorter period is in force from then on");
    add(T03, "set-in-force-longer", 4, 8, [] { change_prompt(30, 10, {{85, 100, 10}}, 400); }, "a longer period is in force from then on");
    add(T03, "set-checks-longer", 4, 8, [] { change_prompt(30, 10, {{85, 30, 100}}, 700); }, "checks that are further apart than the period");
    add(T03, "set-checks-shorter", 4, 8, [] { change_prompt(20, 100, {{330, 20, 5}}, 200); }, "from then on the calls that were missed are made up for");
    add(T03, "set-checks-zero", 4, 8, [] { change_prompt(20, 10, {{35, 20, 0}}, 20, {1}); }, "no time between checks");
    add(T03, "set-several", 4, 8, [] { change_prompt(40, 10, {{55, 80, 10}, {3, 20, 10}, {60, 20, 35}, {5, 90, 20}, {200, 25, 5}}, 200); }, "set several times, also twice between two checks");
    add(T03, "set-huge", 4, 8, [] { change_prompt(30, 10, {{45, 4294967296 + 30, 10}}, 1000); }, "a period of more than 32 bits");
    add(T03, "set-huge-checks", 4, 8, [] { change_prompt(30, 10, {{45, 30, 4294967296 + 10}}, 1000); }, "a checking interval of more than 32 bits");
    add(T03, "constructed-checks-longer", 4, 8, [] { change_prompt(20, 70, {}, 600); }, "the checking interval of the constructor, longer than the period");
    add(T03, "constructed-huge", 4, 8, [] { life(4294967296 + 20, 10, 50, 1, {0}); }, "a period of more than 32 bits");
    add(T03, "inside", 5, 9, [] { change_inside(20, 10, 1, 45, 15, 200, true); }, "the function sets both periods");
    add(T03, "inside-prompt", 5, 9, [] { change_inside(60, 30, 0, 20, 5, 300, false); }, "the function sets both periods, no delays");
    add(T03, "constructed", 5, 9, [] { life(40, 10, 60, 1, {0}); }, "the periods of the constructor are in force from the start");
    add(T03, "defaults", 4, 8, [] { defaults(); }, "default periods");
    return c;
}
