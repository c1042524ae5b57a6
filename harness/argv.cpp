// Command line options (G01, G02): all command lines over an alphabet, against a parser of its own.
#include "image.hpp"
#include "mc.hpp"

#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <xitren/func/argv_parser.hpp>

using xitren::func::argv_parser;

// For `scrub`: variables on the real stack.
extern "C" char const*
__asan_default_options()
{
    return "detect_stack_use_after_return=0";
}

namespace {

struct Options {
    std::string name{"unnamed"};
    std::string path{};
    int         count{-7};
    int         level{3};
    double      ratio{0.5};
    bool        verbose{false};
    bool        on{true};
    bool        dry{false};

    bool operator==(Options const&) const = default;
};

std::uint64_t
hash(Options const& o)
{
    std::uint64_t h = mc::hash_bytes(o.name.data(), o.name.size());
    h               = mc::hash_bytes(o.path.data(), o.path.size(), h);
    h               = mc::mix(h, static_cast<std::uint64_t>(o.count));
    h               = mc::mix(h, static_cast<std::uint64_t>(o.level));
    h               = mc::hash_bytes(&o.ratio, sizeof o.ratio, h);
    return mc::mix(h, static_cast<std::uint64_t>(o.verbose * 4 + o.on * 2 + o.dry));
}

std::string
show(Options const& o)
{
    return "name=" + o.name + " path=" + o.path + " count=" + std::to_string(o.count) + " level=" + std::to_string(o.level)
           + " ratio=" + std::to_string(o.ratio) + " verbose=" + std::to_string(o.verbose) + " on=" + std::to_string(o.on)
           + " dry=" + std::to_string(o.dry);
}

// What earlier calls have left on the stack ends up in padding; it shall not tell states apart.
[[gnu::noinline]] void
scrub()
{
    unsigned char room[16384];
    std::memset(room, 0, sizeof room);
    asm volatile("" : : "r"(room) : "memory");
}

[[gnu::noinline]] auto
make()
{
    // One name is the beginning of another one, and they are not in alphabetical order.
    mc::image::Scope const s;
    return argv_parser<Options>::instance({{"--verbose", &Options::verbose},
                                           {"--name", &Options::name},
                                           {"-c", &Options::count},
                                           {"--ratio", &Options::ratio},
                                           {"--names", &Options::path},
                                           {"-cc", &Options::level},
                                           {"-d", &Options::dry},
                                           {"on", &Options::on}});
}
auto
parser()
{
    scrub();
    return make();
}

// A command line that is built group by group: an option with its value, a flag, or something unknown.
struct Line {
    std::vector<std::string> words{"program"};
    Options                  want{};

    static constexpr char const* texts[]   = {"x", "", "two words", " lead", "--nam", "-42", "a=b;\t\"q\"", "--names=x", "\xc3\xa9\xff\n%s",
                                              "a text that is longer than what fits into a string object, and longer than the sixty-four bytes of a line"};
    static constexpr char const* ints[]    = {"0", "5", "-13", "+8", "2147483647", "-2147483648", "010"};
    static constexpr char const* doubles[] = {"0", "2.5", "-1e3", ".25", "1000000", "0.1", "1e-300", "-123456789.125"};
    static constexpr char const* unknown[] = {"stray", "-", "--", "7", "--nam", "--verbose=1", "-dd", ""};

    template <std::size_t N>
    static char const*
    pick(char const* const (&a)[N])
    {
        return a[mc::choose(static_cast<int>(N))];
    }
    // Not `all`: one value per option, which depends on its place only.
    void
    group(bool all)
    {
        auto value = [&](auto const& a) { return all ? pick(a) : a[words.size() % std::size(a)]; };
        switch (mc::choose(9)) {
        case 0: words.push_back("--verbose"); want.verbose = true; break;
        case 1: words.push_back("-d"); want.dry = true; break;
        case 2: words.push_back("on"); want.on = true; break;
        case 3: words.push_back("--name"); words.push_back(want.name = value(texts)); break;
        case 4: words.push_back("--names"); words.push_back(want.path = value(texts)); break;
        case 5: {
            char const* t = value(ints);
            words.push_back("-c");
            words.push_back(t);
            want.count = static_cast<int>(std::strtol(t, nullptr, 10));
            break;
        }
        case 6: {
            char const* t = value(ints);
            words.push_back("-cc");
            words.push_back(t);
            want.level = static_cast<int>(std::strtol(t, nullptr, 10));
            break;
        }
        case 7: {
            char const* t = value(doubles);
            words.push_back("--ratio");
            words.push_back(t);
            want.ratio = std::strtod(t, nullptr);
            break;
        }
        default: words.push_back(value(unknown));
        }
    }
    // An option whose value is missing is ignored.
    void
    tail()
    {
        static constexpr char const* last[] = {"--name", "--names", "-c", "-cc", "--ratio"};
        words.push_back(pick(last));
    }
};

// Runs the parser on words whose memory is gone afterwards (results must not refer to it).
Options
run(argv_parser<Options>& p, std::vector<std::string> const& words)
{
    std::vector<std::unique_ptr<char[]>> copies;
    std::vector<char const*>             argv;
    for (auto const& w : words) {
        copies.push_back(std::make_unique<char[]>(w.size() + 1));
        std::memcpy(copies.back().get(), w.c_str(), w.size() + 1);
        argv.push_back(copies.back().get());
    }
    if (mc::recording())
        for (auto const& w : words)
            mc::note("[%s]", w.c_str());
    mc::step();
    argv.push_back(nullptr);
    mc::image::Scope const s;
    return p.parse(static_cast<int>(words.size()), argv.data());
}

void
compare(Options const& got, Options const& want, char const* when)
{
    if (!(got == want))
        mc::fail("%s: the result is {%s}, not {%s}", when, show(got).c_str(), show(want).c_str());
}

// G01: up to n groups, all values.
void
lines(int n, bool all)
{
    Line      l;
    int const k = mc::choose(n + 1);
    for (int i = 0; i < k; i++)
        l.group(all);
    auto          p   = parser();
    Options const got = run(*p, l.words);
    compare(got, l.want, "one command line");
    compare(*p, l.want, "the state of the parser");
    mc::state(hash(l.want));
    mc::outcome(hash(got));
}

// G02: incomplete command lines, one parser used several times, several parsers.
void
incomplete(int n)
{
    Line      l;
    int const k = mc::choose(n + 1);
    for (int i = 0; i < k; i++)
        l.group(false);
    l.tail();
    auto          p   = parser();
    Options const got = run(*p, l.words);
    compare(got, l.want, "a value is missing");
    mc::state(hash(l.want));
    mc::outcome(hash(got));
}

// A short command line out of a few: the empty one, the program only, up to `groups` groups, with a tail or not.
void
few(Line& l, int groups)
{
    int const k = mc::choose(groups + 3);
    if (k == 0) {
        l.words.clear();
        return;
    }
    if (k == groups + 2) {
        l.tail();
        return;
    }
    auto text = [](char const* a, char const* b) { return mc::choose(2) ? b : a; };
    for (int n = 1; n < k; n++)
        switch (mc::choose(5)) {
        case 0: l.words.push_back("--verbose"); l.want.verbose = true; break;
        case 1: l.words.push_back("--name"); l.words.push_back(l.want.name = text("x", "--nam")); break;
        case 2: l.words.push_back("--names"); l.words.push_back(l.want.path = text("", "a text longer than a string object is")); break;
        case 3: {
            char const* t = text("5", "-13");
            l.words.push_back("-c");
            l.words.push_back(t);
            l.want.count = std::atoi(t);
            break;
        }
        default: l.words.push_back("stray");
        }
}

// Two parsers, used in turn. Closed: any number of times. Not closed: `depth` times, also made anew in between, every
// sequence on its own, whatever a parser may remember outside itself.
void
reuse(int groups, int depth)
{
    mc::image::reset();
    using Parser = std::unique_ptr<argv_parser<Options>>;
    Parser  p[2];
    Options want[2];
    auto    destroy = [](Parser& x) {
        mc::image::Scope const s;
        x.reset();
    };
    for (auto& x : p)
        x = parser();
    std::uint64_t answers = 0;
    for (int d = 0; depth == 0 || d < depth; d++) {
        int const i = mc::choose(2);
        if (depth && mc::choose(2)) {
            mc::note("parser %d is made anew", i);
            mc::step();
            destroy(p[i]);
            p[i]    = parser();
            want[i] = {};
        } else {
            Line l;
            l.want = want[i];
            few(l, groups);
            mc::note("parser %d:", i);
            Options const got = run(*p[i], l.words);
            // What earlier calls have set stays, what this call sets is new.
            compare(got, l.want, "a parser that is used again");
            want[i] = l.want;
            answers = mc::mix(answers, hash(got));
        }
        compare(*p[0], want[0], "two parsers, the first");
        compare(*p[1], want[1], "two parsers, the second");
        std::uint64_t const model = mc::mix(hash(want[0]), hash(want[1]));
        if (depth == 0) {
            if (mc::visit(mc::image::hash(model), 0))
                break;
        } else {
            mc::state(mc::mix(model, static_cast<std::uint64_t>(d)));
        }
    }
    mc::outcome(answers);
    for (auto& x : p)
        destroy(x);
}

// What a call has returned stays what it is when the parser is used again or is gone.
void
results(int n)
{
    Line      l;
    int const k = mc::choose(n + 1);
    for (int i = 0; i < k; i++)
        l.group(false);
    auto          p   = parser();
    Options const got = run(*p, l.words);
    Options const want = l.want;
    Line          m;
    m.want = l.want;
    m.group(false);
    if (mc::choose(2)) {
        compare(run(*p, m.words), m.want, "a parser that is used again");
        compare(*p, m.want, "a parser that is used again");
    } else {
        p.reset();
        auto q = parser();
        m.want = {};
        Line o;
        compare(run(*q, o.words), o.want, "another parser");
    }
    compare(got, want, "a result, later");
    mc::state(hash(want));
    mc::outcome(hash(got));
}

// Without options, without words, with the same name twice.
void
corners()
{
    int const k = mc::choose(6);
    mc::step();
    if (k == 0) {
        auto p = argv_parser<Options>::instance({});
        compare(run(*p, {"program", "--name", "x", "-d"}), Options{}, "a parser without options");
    } else if (k == 1) {
        auto p = parser();
        compare(run(*p, {}), Options{}, "an empty command line");
    } else if (k == 2) {
        auto p = parser();
        compare(run(*p, {"program"}), Options{}, "only the name of the program");
    } else if (k == 3) {
        // many words that mean nothing
        auto                     p = parser();
        std::vector<std::string> words{"program"};
        for (int i = 0; i < 3000; i++)
            words.push_back("word" + std::to_string(i));
        words.push_back("-c");
        words.push_back("12");
        Options w;
        w.count = 12;
        compare(run(*p, words), w, "a long command line");
    } else if (k == 4) {
        // one option many times
        auto                     p = parser();
        std::vector<std::string> words{"program"};
        for (int i = 0; i < 3000; i++) {
            words.push_back("-c");
            words.push_back(std::to_string(i));
        }
        Options w;
        w.count = 2999;
        compare(run(*p, words), w, "an option given many times");
    } else {
        auto    p = argv_parser<Options>::instance({{"-n", &Options::name}, {"--name", &Options::name}});
        Options w;
        w.name = "b";
        compare(run(*p, {"program", "-n", "a", "--name", "b"}), w, "two names of one option");
        compare(run(*p, {"program", "--name", "a", "-n", "b"}), w, "two names of one option");
    }
    mc::state(static_cast<std::uint64_t>(k) + 1);
    mc::outcome(static_cast<std::uint64_t>(k));
}

// Long values, long names, and names that differ only at one place.
void
lengths()
{
    static constexpr std::size_t sizes[] = {1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
    std::size_t const n = sizes[mc::choose(static_cast<int>(std::size(sizes)))];
    std::string       text(n, 'v');
    for (std::size_t i = 0; i < n; i++)
        text[i] = static_cast<char>('a' + i % 23);
    int const how = mc::choose(4);
    Options   w;
    mc::step();
    if (how == 0) {    // the value
        auto p = parser();
        w.name = text;
        compare(run(*p, {"program", "--name", text, "-d"}), (w.dry = true, w), "a long value");
    } else if (how == 1) {    // an unknown word
        auto p = parser();
        w.name = "x";
        compare(run(*p, {"program", text, "--name", "x", text}), w, "a long word that is not an option");
    } else if (how == 2) {    // a number
        auto              p = parser();
        std::string const zeros(n, '0');
        w.count = 12;
        w.ratio = 2.5;
        compare(run(*p, {"program", "-c", zeros + "12", "--ratio", zeros + "2.5"}), w, "a long number");
    } else {    // the name
        std::string last = text, first = text, shorter = text.substr(0, n - 1), longer = text + "a";
        last.back()   = '!';
        first.front() = '!';
        auto p = argv_parser<Options>::instance({{text, &Options::name}, {longer, &Options::path}, {n > 1 ? last : "-l", &Options::count}});
        w.name = "x";
        w.path = "y";
        w.count = 7;
        compare(run(*p, {"program", first, "1", text, "x", shorter, longer, "y", n > 1 ? last : "-l", "7"}), w, "an option with a long name");
    }
    mc::state(n * 4 + static_cast<std::size_t>(how));
    mc::outcome(n * 4 + static_cast<std::size_t>(how));
}

// Command lines of many words: options at any of these places, one value each.
void
places()
{
    static constexpr std::size_t at[] = {1, 2, 126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536, 69990};
    constexpr int  n = std::size(at);
    std::vector<std::string> words(70000, "-");
    Options                  w;
    std::size_t const        a = at[mc::choose(n)], b = at[mc::choose(n)];
    if (b < a + 2)
        return;
    words[0] = "program";
    words[a] = "--names";
    words[a + 1] = w.path = "first";
    words[b]     = "-cc";
    words[b + 1] = "41";
    w.level      = 41;
    if (mc::choose(2))
        words.resize(b + 2);    // the last ones
    else
        words.push_back("--name");    // without a value
    auto p = parser();
    compare(run(*p, words), w, "a very long command line");
    mc::state(a * 100000 + b);
    mc::outcome(a * 100000 + b);
}

// A parser that is used many times.
void
worn()
{
    int const  how   = mc::choose(4);
    long const times = mc::choose(2) ? 65534 : 255;
    auto       p     = parser();
    Options    w;
    for (long i = 0; i < times; i++) {
        std::vector<char const*> v{"program"};
        std::string const        t = std::to_string(i);
        if (how == 0)
            v = {};
        if (how == 2) {
            v.insert(v.end(), {"-c", t.c_str()});
            w.count = static_cast<int>(i);
        }
        if (how == 3) {
            v.insert(v.end(), {"--name", t.c_str(), "--ratio"});
            w.name = t;
        }
        auto const got = p->parse(static_cast<int>(v.size()), v.data());
        if (how || i % 64 == 0)
            compare(got, w, "a parser that is used many times");
        if (i % 1024 == 0)
            mc::step();
    }
    Line l;
    l.want = w;
    few(l, 2);
    compare(run(*p, l.words), l.want, "a parser that has been used many times");
    w = l.want;
    mc::state(hash(w));
    mc::outcome(hash(w));
}

}    // namespace

std::vector<mc::Config>
mc::configs()
{
    std::vector<Config> c;
    auto add = [&](char const* n, std::function<void()> f, char const* text, bool closure = false) {
        Config k;
        k.name = n;
        k.what = text;
        k.closure = closure;
        k.body = std::move(f);
        c.push_back(std::move(k));
    };
    int const more = thorough() ? 1 : 0;
    add("G01-values", [=] { lines(3 + more, true); }, "all command lines of up to three groups (option and value, flag, unknown word), every value of the alphabet");
    add("G01-long", [=] { lines(5 + more, false); }, "all command lines of up to five groups");
    add("G02-incomplete", [=] { incomplete(4 + more); }, "all command lines of up to four groups that end with an option without value");
    add("G02-reuse", [=] { reuse(2, 0); }, "two parsers, any number of command lines of at most two groups, incomplete and empty ones", true);
    add("G02-sequences", [=] { reuse(1, 3 + more); }, "two parsers, every sequence of three command lines of at most one group, incomplete and empty ones, and new parsers");
    add("G02-results", [=] { results(3 + more); }, "what a call returned, after another call or without the parser");
    add("G02-corners", [] { corners(); }, "no options, no words, very many words, several names of one option");
    add("G01-lengths", [] { lengths(); }, "names, values, numbers and unknown words of 28 lengths up to 70000");
    add("G01-places", [] { places(); }, "two options at every two of 15 places of a command line of up to 70001 words");
    add("G02-worn", [] { worn(); }, "one of four command lines 255 or 65534 times over, then any command line of at most two groups");
    return c;
}
