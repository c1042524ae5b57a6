// The dynamic observable shared by threads (O05).

#include "mc.hpp"
#include "lin.hpp"

#include <algorithm>
#include <memory>
#include <string>
#include <thread>
#include <xitren/comm/observer.hpp>

namespace X = xitren::comm;
namespace C = mc::conc;

namespace {

enum { op_begin = 1, op_end, told, gone };
enum { k_add0, k_add1, k_remove0, k_remove1, k_notify, k_clear, k_nested, k_leave, k_join };
// What is sent: 100 + the operation's number, 200 + it if the first to get it shall notify again from
// within, and 300 + it is that; 400 + it if that one shall leave, 500 + it if it shall subscribe the other one.

using subject = X::observable_dynamic<long>;

struct watcher : X::observer<long> {
    long     id{};
    subject* s{};
    watcher* other{};
    void
    data(void const*, long const& n) override
    {
        C::event(told, id, n);
        if (n == again) {
            again = 0;
            if (n < 300)
                s->notify_observers(n + 100);
            else if (n < 500)
                s->remove_observer(*this);
            else
                try {
                    s->add_observer(*other);
                } catch (subject::exception const&) {    // is there
                }
        }
    }
    static inline thread_local long again{0};
    void
    disconnect(void const*) override
    {
        C::event(gone, id);
    }
};

void
body(int threads, int per, int initial, std::vector<int> const& alphabet, bool destroy)
{
    watcher w[2];
    auto    s = std::make_unique<subject>();
    w[0].id = 0;
    w[1].id = 1;
    w[0].s = w[1].s = s.get();
    w[0].other = &w[1];
    w[1].other = &w[0];
    for (int i = 0; i < initial; i++)
        s->add_observer(w[i]);
    std::size_t const first = C::events();
    struct Rec {
        int  kind;
        int  thread;
        long answer;
        // who was told and disconnected, in this order; + 2 within a notification
        std::vector<int> told{}, gone{};
    };
    std::vector<Rec> recs(static_cast<std::size_t>(threads * per));
    for (auto& r : recs)
        r.kind = alphabet[static_cast<std::size_t>(mc::choose(static_cast<int>(alphabet.size())))];
    auto work = [&](int t) {
        for (int i = 0; i < per; i++) {
            int const id = t * per + i;
            auto&     r  = recs[static_cast<std::size_t>(id)];
            C::event(op_begin, id);
            long a = 0;
            try {
                switch (r.kind) {
                case k_add0: s->add_observer(w[0]); break;
                case k_add1: s->add_observer(w[1]); break;
                case k_remove0: s->remove_observer(w[0]); break;
                case k_remove1: s->remove_observer(w[1]); break;
                case k_notify: s->notify_observers(100 + id); break;
                case k_nested:
                    watcher::again = 200 + id;
                    s->notify_observers(200 + id);
                    watcher::again = 0;
                    break;
                case k_leave:
                case k_join:
                    watcher::again = (r.kind == k_leave ? 400 : 500) + id;
                    s->notify_observers((r.kind == k_leave ? 400 : 500) + id);
                    watcher::again = 0;
                    break;
                default: s->clear_observers(); break;
                }
            } catch (subject::exception const& e) {
                a = static_cast<long>(e.error);
            }
            C::event(op_end, id, a);
        }
    };
    {
        std::vector<std::thread> th;
        for (int t = 1; t < threads; t++)
            th.emplace_back(work, t);
        work(0);
        for (auto& t : th)
            t.join();
    }
    std::vector<lin::Span> spans(recs.size());
    for (std::size_t i = first; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind == op_begin) {
            spans[static_cast<std::size_t>(e.a)].begin = i;
            spans[static_cast<std::size_t>(e.a)].end   = ~0UL;
            recs[static_cast<std::size_t>(e.a)].thread = e.thread;
        }
        if (e.kind == op_end) {
            spans[static_cast<std::size_t>(e.a)].end   = i;
            recs[static_cast<std::size_t>(e.a)].answer = e.b;
        }
    }
    for (std::size_t i = first; i < C::events(); i++) {
        auto const& e = C::event_at(i);
        if (e.kind != told && e.kind != gone)
            continue;
        bool found = false;
        for (std::size_t j = 0; j < recs.size(); j++)
            if (recs[j].thread == e.thread && spans[j].begin < i && i < spans[j].end) {
                found = true;
                long const n = static_cast<long>(j);
                if (e.kind == told) {
                    MC_CHECK(recs[j].kind == k_notify ? e.b == 100 + n : recs[j].kind == k_leave ? e.b == 400 + n : recs[j].kind == k_join ? e.b == 500 + n : recs[j].kind == k_nested && (e.b == 200 + n || e.b == 300 + n),
                             "an observer is told %ld outside of that notification", e.b);
                    recs[j].told.push_back(static_cast<int>(e.a) + (e.b >= 300 && e.b < 400 ? 2 : 0));
                } else {
                    MC_CHECK(recs[j].kind == k_clear, "an observer is disconnected although nobody clears the list");
                    recs[j].gone.push_back(static_cast<int>(e.a));
                }
            }
        MC_CHECK(found, "an observer is called outside of any operation");
        // an observer whose removal has ended is not called any more, unless it is being added again
        for (std::size_t r = 0; r < recs.size(); r++) {
            bool const mine = recs[r].kind == (e.a ? k_remove1 : k_remove0) && recs[r].answer == 0;
            if (!(mine || recs[r].kind == k_clear) || spans[r].end > i)
                continue;
            bool back = false;
            for (std::size_t j = 0; j < recs.size(); j++)
                back = back || ((recs[j].kind == k_join || recs[j].kind == (e.a ? k_add1 : k_add0)) && spans[j].end > spans[r].begin && spans[j].begin < i);
            MC_CHECK(back, "observer %ld is called after its removal has ended", e.a);
        }
    }
    // who is registered in the end: the destructor (or a last notification) tells
    std::size_t const last = C::events();
    if (destroy)
        s.reset();
    else
        s->notify_observers(999);
    std::vector<int> left;
    for (std::size_t i = last; i < C::events(); i++)
        left.push_back(static_cast<int>(C::event_at(i).a));
    struct M {
        std::vector<int> in;    // in the order of registration
        std::size_t      left;
    };
    std::vector<int> start;
    for (int i = 0; i < initial; i++)
        start.push_back(i);
    std::uint64_t h  = 0;
    bool const    ok = lin::linearizable(spans, M{start, recs.size()}, [&](M& m, std::size_t i) {
        auto const& r = recs[i];
        int const   x = r.kind == k_add1 || r.kind == k_remove1 ? 1 : 0;
        bool const  in   = std::find(m.in.begin(), m.in.end(), x) != m.in.end();
        bool        good = true;
        switch (r.kind) {
        case k_add0:
        case k_add1:
            good = r.answer == (in ? static_cast<long>(X::observer_errors::already_contains) : 0);
            if (!in)
                m.in.push_back(x);
            break;
        case k_remove0:
        case k_remove1:
            good = r.answer == (in ? 0 : static_cast<long>(X::observer_errors::not_found));
            std::erase(m.in, x);
            break;
        case k_notify: good = r.told == m.in; break;
        case k_leave:
            good = r.told == m.in;
            if (!m.in.empty())
                m.in.erase(m.in.begin());
            break;
        case k_join:
            good = r.told == m.in;
            if (m.in.size() == 1)
                m.in.push_back(1 - m.in[0]);
            break;
        case k_nested: {
            std::vector<int> want;
            for (int k : m.in) {
                want.push_back(k);
                if (k == m.in.front())
                    for (int l : m.in)
                        want.push_back(l + 2);
            }
            good = r.told == want;
            break;
        }
        default:
            good = r.gone == m.in;
            m.in.clear();
            break;
        }
        return good && (--m.left || left == m.in);
    });
    if (!ok) {
        static char const* const name[] = {"add(0)", "add(1)", "remove(0)", "remove(1)", "notify", "clear", "notify twice", "notify and leave", "notify and subscribe"};
        auto list = [](std::vector<int> const& v) {
            std::string t;
            for (int k : v)
                t += std::to_string(k);
            return t;
        };
        std::string text;
        for (auto const& r : recs)
            text += " t" + std::to_string(r.thread) + ":" + name[r.kind] + "->" + std::to_string(r.answer) + "(told " + list(r.told) + ", gone " + list(r.gone) + ")";
        mc::fail("no order of these operations explains what was seen:%s; left %s", text.c_str(), list(left).c_str());
    }
    for (auto const& r : recs) {
        h = mc::mix(h, static_cast<std::uint64_t>(r.answer));
        for (int k : r.told)
            h = mc::mix(h, static_cast<std::uint64_t>(k) + 1);
        for (int k : r.gone)
            h = mc::mix(h, static_cast<std::uint64_t>(k) + 10);
    }
    for (int k : left)
        h = mc::mix(h, static_cast<std::uint64_t>(k) + 20);
    mc::outcome(h);
}

std::vector<int> const all  = {k_add0, k_add1, k_remove0, k_remove1, k_notify, k_clear, k_nested};
std::vector<int> const some = {k_add0, k_remove0, k_notify, k_clear};
std::vector<int> const within = {k_add1, k_remove0, k_notify, k_clear, k_leave, k_join};

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, int q, int t, std::function<void()> f, char const* text) {
        Config k;
        k.name           = n;
        k.body           = std::move(f);
        k.bound_quick    = q;
        k.bound_thorough = t;
        k.what           = text;
        c.push_back(std::move(k));
    };
    add("O05-2x1-from0", 12, 20, [] { body(2, 1, 0, all, true); }, "2 threads, 1 operation each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 0 subscribed before");
    add("O05-2x1-from1", 12, 20, [] { body(2, 1, 1, all, false); }, "2 threads, 1 operation each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 1 subscribed before");
    add("O05-2x1-from2", 12, 20, [] { body(2, 1, 2, all, true); }, "2 threads, 1 operation each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 2 subscribed before");
    add("O05-2x2-from0", 4, 6, [] { body(2, 2, 0, all, false); }, "2 threads, 2 operations each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 0 subscribed before");
    add("O05-2x2-from2", 4, 6, [] { body(2, 2, 2, all, true); }, "2 threads, 2 operations each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 2 subscribed before");
    add("O05-3x1-from1", 4, 6, [] { body(3, 1, 1, all, true); }, "3 threads, 1 operation each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 1 subscribed before");
    add("O05-3x1-from2", 3, 6, [] { body(3, 1, 2, all, true); }, "3 threads, 1 operation each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 2 subscribed before");
    add("O05-2x3-from1", 2, 5, [] { body(2, 3, 1, some, false); }, "2 threads, 3 operations each: every choice of subscribing, leaving, notifying (also from within a notification), clearing; 1 subscribed before");
    char const* const from_within = "subscribing, leaving, notifying, clearing, and notifying where the first to be told leaves or subscribes the other one";
    add("O05-within-2x1-from1", 12, 20, [] { body(2, 1, 1, within, true); }, from_within);
    add("O05-within-2x1-from2", 12, 20, [] { body(2, 1, 2, within, false); }, from_within);
    add("O05-within-2x2-from2", 4, 6, [] { body(2, 2, 2, within, true); }, from_within);
    add("O05-within-3x1-from2", 3, 5, [] { body(3, 1, 2, within, true); }, from_within);
    return c;
}
