// C07: verdicts of validators and when they are applied.
#include "sharg_env.hpp"
#include "ref.hpp"

#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>

namespace
{
using ref::i128;
using sharg::operator|;

template <typename fn_t>
std::string verdict_of(fn_t && fn) // "ok", "rejected" or a description of something else
{
    auto r = mc::call(fn);
    if (r.exited)
        return "exit";
    if (r.err == mc::Err::none)
        return "ok";
    if (r.err == mc::Err::validation_error)
        return r.what.empty() ? "rejected without message" : "rejected";
    return std::string{mc::err_name(r.err)} + ": " + r.what;
}
void expect(mc::Ctx & c, bool ok, std::string const & got, std::string const & what)
{
    c.outcome(got);
    if (got != (ok ? "ok" : "rejected"))
        c.fail(what + ": expected " + (ok ? "ok" : "rejected") + ", got " + got);
}

// ---- arithmetic_range_validator ---------------------------------------------------------------------------------------
template <typename T>
std::vector<T> domain()
{
    using L = std::numeric_limits<T>;
    std::vector<T> v;
    if constexpr (std::floating_point<T>)
        v = {-2.5,
             -1,
             -0.5,
             -0.0,
             0,
             L::denorm_min(),
             L::epsilon(),
             0.5,
             std::nextafter(T{1}, T{0}),
             1,
             std::nextafter(T{1}, T{2}),
             1.5,
             2,
             3,
             T(16777216.0),
             T(16777217.0),
             T(9007199254740992.0),
             T(9223372036854775808.0),
             T(18446744073709551616.0),
             L::max(),
             L::lowest(),
             L::infinity(),
             -L::infinity(),
             L::quiet_NaN()};
    else
    {
        for (i128 x : {i128(0), i128(1), i128(2), i128(3), i128(-1), i128(-2), i128(-3), i128(L::min()), i128(L::min()) + 1, i128(L::max()),
                       i128(L::max()) - 1, i128(127), i128(128), i128(255), i128(256), i128(257), i128(65536), i128(65537), (i128(1) << 32),
                       (i128(1) << 32) + 1, (i128(1) << 32) + 2, i128(0xffffffffu), i128(INT_MIN), i128(INT_MAX), i128(16777216), i128(16777217),
                       i128(1) << 53, (i128(1) << 53) + 1})
            if (x >= i128(L::min()) && x <= i128(L::max()))
                v.push_back(static_cast<T>(x));
        std::ranges::sort(v);
        v.erase(std::ranges::unique(v).begin(), v.end());
    }
    return v;
}
template <typename A, typename B>
bool less_equal(A a, B b) // exact
{
    if constexpr (std::integral<A> && std::integral<B>)
        return i128(a) <= i128(b);
    else
        return static_cast<long double>(a) <= static_cast<long double>(b); // exact for every type used
}
template <typename T>
std::string num(T v)
{
    if constexpr (std::integral<T>)
        return ref::i128str(v);
    else
    {
        char b[64];
        snprintf(b, sizeof b, "%.21Lg", static_cast<long double>(v));
        return b;
    }
}
template <typename T, typename V>
void range_section(std::string name)
{
    mc::add_section("C07/range " + name,
                    [](mc::Ctx & c)
                    {
                        static std::vector<T> const dt = domain<T>();
                        static std::vector<V> const dv = domain<V>();
                        T const lo = c.pick(dt), hi = c.pick(dt);
                        V const v = c.pick(dv);
                        int const how = c.choose(4); // scalar, vector, list behind a valid element, copy of the validator
                        if (!c.run())
                            return;
                        c.describe([&]() { return "[" + num(lo) + "," + num(hi) + "] " + num(v) + " how " + std::to_string(how); });
                        c.step();
                        c.state(mc::hash_str(num(lo) + "," + num(hi) + "," + num(v)));
                        bool ok = less_equal(lo, v) && less_equal(v, hi);
                        sharg::arithmetic_range_validator<T> a{lo, hi};
                        std::string got;
                        if (how == 0)
                            got = verdict_of([&]() { a(v); });
                        else if (how == 1)
                            got = verdict_of([&]() { a(std::vector<V>{v}); });
                        else if (how == 2)
                        {
                            std::list<V> l;
                            for (V x : dv)
                                if (less_equal(lo, x) && less_equal(x, hi))
                                {
                                    l.push_back(x);
                                    break;
                                }
                            l.push_back(v);
                            got = verdict_of([&]() { a(l); });
                        }
                        else
                        {
                            sharg::arithmetic_range_validator<T> b{T{}, T{}};
                            {
                                auto tmp = a;
                                b = tmp;
                                a = sharg::arithmetic_range_validator<T>{hi, lo};
                            }
                            got = verdict_of([&]() { b(v); });
                        }
                        expect(c, ok, got, num(v) + " in [" + num(lo) + "," + num(hi) + "]");
                    });
}

//!\brief Lists of one type, values of another one.
template <typename T, typename V>
void mixed_list(std::string name)
{
    mc::add_section("C07/value list " + name,
                    [](mc::Ctx & c)
                    {
                        static std::vector<T> const dt = domain<T>();
                        static std::vector<V> const dv = domain<V>();
                        T const first = c.pick(dt), second = c.pick(dt);
                        V const v = c.pick(dv);
                        int const how = c.choose(2);
                        if (!c.run())
                            return;
                        c.describe([&]() { return "{" + num(first) + "," + num(second) + "} " + num(v) + " how " + std::to_string(how); });
                        c.step();
                        c.state(mc::hash_str(num(first) + ";" + num(second) + ";" + num(v)));
                        auto equal = [](auto a, auto b) { return less_equal(a, b) && less_equal(b, a); };
                        sharg::value_list_validator<T> const a{std::vector<T>{first, second}};
                        auto const got = verdict_of(
                            [&]()
                            {
                                if (how == 0)
                                    a(v);
                                else
                                    a(std::vector<V>{v, v});
                            });
                        // Integers and floating point numbers are compared in their common type, which may not have the integer.
                        auto open = [&](auto a, auto b)
                        { return std::integral<T> != std::integral<V> && (a != a || b != b || static_cast<std::common_type_t<T, V>>(a) == static_cast<std::common_type_t<T, V>>(b)) && !equal(a, b); };
                        if (!equal(first, v) && !equal(second, v) && (open(first, v) || open(second, v)))
                            return;
                        expect(c, equal(first, v) || equal(second, v), got, num(v) + " in {" + num(first) + "," + num(second) + "}");
                    });
}

// ---- regular expressions and the same languages written by hand -----------------------------------------------------
struct Language
{
    std::string pattern;
    std::function<bool(std::string const &)> contains;
};
std::vector<Language> const & languages()
{
    auto all = [](std::string const & s, std::string const & set) { return s.find_first_not_of(set) == s.npos; };
    static std::vector<Language> const v{
        {"a*b",
         [](std::string const & s)
         {
             size_t i = s.find_first_not_of('a');
             return i != s.npos && s[i] == 'b' && i + 1 == s.size();
         }},
        {"", [](std::string const & s) { return s.empty(); }},
        {".*", [](std::string const & s) { return s.find('\n') == s.npos; }},
        {".", [](std::string const & s) { return s.size() == 1 && s != "\n"; }},
        {"(ab|c)+",
         [](std::string const & s)
         {
             size_t i = 0;
             while (i < s.size())
                 if (s[i] == 'c')
                     ++i;
                 else if (s.compare(i, 2, "ab") == 0)
                     i += 2;
                 else
                     return false;
             return !s.empty();
         }},
        {"a|ab", [](std::string const & s) { return s == "a" || s == "ab"; }},
        {"[a-b]?1{1,2}",
         [](std::string const & s)
         {
             size_t i = !s.empty() && (s[0] == 'a' || s[0] == 'b');
             return s.substr(i) == "1" || s.substr(i) == "11";
         }},
        {"[^ab]*", [](std::string const & s) { return s.find_first_of("ab") == s.npos; }},
        {"\\d+", [all](std::string const & s) { return !s.empty() && all(s, "0123456789"); }},
        {"\\.", [](std::string const & s) { return s == "."; }},
        {"^a.c$", [](std::string const & s) { return s.size() == 3 && s[0] == 'a' && s[2] == 'c' && s[1] != '\n'; }},
        {"b|", [](std::string const & s) { return s.empty() || s == "b"; }},
        {"[a-zA-Z]+\\.[a-z]+",
         [](std::string const & s)
         {
             size_t d = s.find('.');
             return d != s.npos && d > 0 && d + 1 < s.size() && std::ranges::all_of(s.substr(0, d), [](char x) { return std::isalpha(x); })
                 && std::ranges::all_of(s.substr(d + 1), [](char x) { return std::islower(x); });
         }},
    };
    return v;
}

// ---- chains -----------------------------------------------------------------------------------------------------------
std::vector<int> calls; // which leaves were called
struct Leaf
{
    using option_value_type = int;
    unsigned accepted{0}; // set of values
    int id{0};
    void operator()(int const & v) const
    {
        calls.push_back(id);
        if (!((accepted >> v) & 1))
            throw sharg::validation_error{"leaf " + std::to_string(id)};
    }
    template <std::ranges::forward_range range_t>
    void operator()(range_t const & r) const
    {
        calls.push_back(id);
        for (int v : r)
            if (!((accepted >> v) & 1))
                throw sharg::validation_error{"leaf " + std::to_string(id)};
    }
    std::string get_help_page_message() const { return "leaf" + std::to_string(id); }
};
template <typename validator_t>
void check_chain(mc::Ctx & c, validator_t const & v, std::vector<unsigned> const & accepted, int value, bool list, std::string const & shape)
{
    c.describe([&]()
               {
                   std::string s = shape;
                   for (auto a : accepted)
                       s += " " + std::to_string(a);
                   return s + " value " + std::to_string(value);
               });
    c.step(accepted.size());
    bool ok = true;
    size_t first_bad = accepted.size();
    uint64_t h = mc::hash_str(shape);
    for (size_t i = 0; i < accepted.size(); ++i)
    {
        h = mc::mix(h, accepted[i]);
        if (!((accepted[i] >> value) & 1))
        {
            ok = false;
            first_bad = std::min(first_bad, i);
        }
    }
    c.state(mc::mix(h, value));
    calls.clear();
    auto got = list ? verdict_of([&]() { v(std::vector<int>{value}); }) : verdict_of([&]() { v(value); });
    expect(c, ok, got, shape);
    // in order, each at most once, all of them if the value is accepted
    for (size_t i = 0; i < calls.size(); ++i)
        if (calls[i] != int(i))
            c.fail(shape + ": the validators were not called in order and once");
    if (calls.size() < std::min(first_bad + 1, accepted.size()))
        c.fail(shape + ": a validator was not called");
    std::string help;
    for (size_t i = 0; i < accepted.size(); ++i)
        help += (i ? " leaf" : "leaf") + std::to_string(i);
    if (v.get_help_page_message() != help)
        c.fail(shape + ": help message '" + v.get_help_page_message() + "'");
}

// ---- when validators are applied --------------------------------------------------------------------------------------
struct Recorder // accepts everything but "bad"; records the values it has seen
{
    using option_value_type = std::string;
    inline static std::vector<std::string> seen;
    inline static int mode = 0; // what to throw
    static void reject()
    {
        switch (mode)
        {
        case 0: throw sharg::validation_error{"no"};
        case 1: throw std::runtime_error{"no"};
        case 2: throw std::out_of_range{"no"};
        case 3: throw sharg::user_input_error{"no"};
        case 4: throw std::filesystem::filesystem_error{"no", std::error_code{}};
        default: throw sharg::unknown_option{"no"};
        }
    }
    void operator()(std::string const & s) const
    {
        seen.push_back(mc::q(s));
        if (s == "bad")
            reject();
    }
    void operator()(int const & i) const
    {
        seen.push_back(std::to_string(i));
        if (i == 13)
            reject();
    }
    template <typename T>
    void operator()(std::vector<T> const & v) const
    {
        std::string s = "[";
        bool bad = false;
        for (auto & e : v)
        {
            if constexpr (std::same_as<T, int>)
            {
                s += std::to_string(e) + " ";
                bad = bad || e == 13;
            }
            else
            {
                s += mc::q(e) + " ";
                bad = bad || e == "bad";
            }
        }
        seen.push_back(s + "]");
        if (bad)
            reject();
    }
    std::string get_help_page_message() const { return "recorder"; }
};
} // namespace

void mc::mc_setup()
{
    using sharg::operator|;
    mc::default_environment();
    bool const T = mc::thorough;

    range_section<int8_t, int8_t>("int8");
    range_section<uint8_t, uint8_t>("uint8");
    range_section<int, int>("int");
    range_section<unsigned, unsigned>("unsigned");
    range_section<int64_t, int64_t>("int64");
    range_section<uint64_t, uint64_t>("uint64");
    range_section<double, double>("double");
    range_section<float, float>("float");
    range_section<long double, long double>("long double");
    // the limits are often written as int literals
    range_section<int, uint8_t>("int on uint8");
    range_section<int, int8_t>("int on int8");
    range_section<int, uint16_t>("int on uint16");
    range_section<int, unsigned>("int on unsigned");
    range_section<int, int64_t>("int on int64");
    range_section<int, uint64_t>("int on uint64");
    range_section<int, double>("int on double");
    range_section<int, float>("int on float");
    range_section<double, int>("double on int");
    range_section<uint8_t, int>("uint8 on int");
    range_section<unsigned, int>("unsigned on int");
    range_section<double, int64_t>("double on int64");
    range_section<double, uint64_t>("double on uint64");
    range_section<int64_t, double>("int64 on double");
    range_section<uint64_t, double>("uint64 on double");
    range_section<float, int>("float on int");
    range_section<float, double>("float on double");
    range_section<double, float>("double on float");
    range_section<uint64_t, int64_t>("uint64 on int64");
    range_section<int64_t, uint64_t>("int64 on uint64");
    mixed_list<double, int64_t>("double on int64");
    mixed_list<float, int>("float on int");
    mixed_list<uint64_t, double>("uint64 on double");
    mixed_list<int64_t, uint64_t>("int64 on uint64");
    mixed_list<uint8_t, int>("uint8 on int");
    mixed_list<float, double>("float on double");

    mc::add_section("C07/range lists",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<int> const dom{0, 1, 2, -1, 3};
                        size_t const n = c.choose(T ? 8 : 6);
                        std::vector<int> v;
                        for (size_t k = 0; k < n; ++k)
                            v.push_back(c.pick(dom));
                        int const how = c.choose(4);
                        if (!c.run())
                            return;
                        std::string txt;
                        bool ok = true;
                        for (int x : v)
                            txt += std::to_string(x) + " ", ok = ok && x >= 0 && x <= 2;
                        c.describe([&]() { return "[0,2] on list " + txt; });
                        c.step(n);
                        c.state(mc::hash_str(txt));
                        sharg::arithmetic_range_validator a{0, 2};
                        sharg::value_list_validator b{2, 0, 1};
                        std::string got;
                        switch (how)
                        {
                        case 0: got = verdict_of([&]() { a(v); }); break;
                        case 1: got = verdict_of([&]() { a(std::list<long>{v.begin(), v.end()}); }); break;
                        case 2: got = verdict_of([&]() { b(v); }); break;
                        default: got = verdict_of([&]() { (a | b)(std::deque<int>{v.begin(), v.end()}); });
                        }
                        expect(c, ok, got, txt);
                    });

    mc::add_section("C07/value list int",
                    [=](mc::Ctx & c)
                    {
                        size_t const n = c.choose(T ? 6 : 5);
                        std::vector<int> l;
                        for (size_t k = 0; k < n; ++k)
                            l.push_back(int(c.choose(4)) - 1);
                        int const v = int(c.choose(6)) - 2;
                        int const how = c.choose(5);
                        if (!c.run())
                            return;
                        std::string txt;
                        for (int x : l)
                            txt += std::to_string(x) + " ";
                        c.describe([&]() { return std::to_string(v) + " in list " + txt; });
                        c.step(n);
                        c.state(mc::hash_str(txt + "|" + std::to_string(v)));
                        bool const ok = std::ranges::find(l, v) != l.end();
                        std::string got;
                        if (how == 0)
                            got = verdict_of([&]() { sharg::value_list_validator<int>{l}(v); });
                        else if (how == 1)
                            got = verdict_of([&]() { sharg::value_list_validator{l | std::views::transform([](int x) { return x; })}(v); });
                        else if (how == 2)
                            got = verdict_of([&]() { sharg::value_list_validator{l}(v + 0.0); });
                        else if (how == 3)
                            got = verdict_of(
                                [&]()
                                {
                                    sharg::value_list_validator a{l};
                                    auto b = a;
                                    a = sharg::value_list_validator<int>{v};
                                    b(std::vector<int>{v});
                                });
                        else // never equal to an integer
                        {
                            got = verdict_of([&]() { sharg::value_list_validator{l}(v + 0.5); });
                            return expect(c, false, got, txt);
                        }
                        expect(c, ok, got, std::to_string(v) + " in " + txt);
                    });
    mc::add_section("C07/value list string",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<std::string> const words{"a", "ab", "b", "A", "", "a ", "abc", "ba"};
                        unsigned const set = c.choose(1u << 6);
                        std::string const v = c.pick(words);
                        int const how = c.choose(4);
                        if (!c.run())
                            return;
                        std::vector<std::string> l;
                        for (int k = 0; k < 6; ++k)
                            if (set & (1u << k))
                                l.push_back(words[k]);
                        c.describe([&]() { return mc::q(v) + " in " + mc::qv(l); });
                        c.step();
                        c.state(mc::hash_str(mc::qv(l), mc::hash_str(v)));
                        bool const ok = std::ranges::find(l, v) != l.end();
                        std::string got;
                        sharg::value_list_validator val{l};
                        if (how == 0)
                            got = verdict_of([&]() { val(v); });
                        else if (how == 1)
                            got = verdict_of([&]() { val(std::vector<std::string>{v, v}); });
                        else if (how == 2)
                        {
                            auto rev = l;
                            std::ranges::reverse(rev);
                            auto p = sharg::value_list_validator<std::string>{rev} | val;
                            got = verdict_of([&]() { p(v); });
                        }
                        else
                        {
                            sharg::value_list_validator fixed{"a", "b", "ab"};
                            got = verdict_of([&]() { fixed(v); });
                            return expect(c, v == "a" || v == "b" || v == "ab", got, v);
                        }
                        expect(c, ok, got, mc::q(v) + " in " + mc::qv(l));
                    });

    mc::add_section("C07/regex",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<std::string> const letters{"a", "b", "c", "1", ".", "\n", "A", " "};
                        auto const & l = c.pick(languages());
                        size_t const n = c.choose(T ? 7 : 6);
                        std::string s;
                        for (size_t k = 0; k < n; ++k)
                            s += c.pick(letters);
                        if (!c.run())
                            return;
                        c.describe([&]() { return mc::q(s) + " matches " + mc::q(l.pattern); });
                        c.step();
                        c.state(mc::hash_str(s, mc::hash_str(l.pattern)));
                        sharg::regex_validator v{l.pattern};
                        expect(c, l.contains(s), verdict_of([&]() { v(s); }), mc::q(s) + " matches " + mc::q(l.pattern));
                    });
    mc::add_section("C07/regex lists",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<std::string> const words{"b", "ab", "", "a", "aab", "abb", "B"};
                        size_t const n = c.choose(5);
                        std::vector<std::string> w;
                        for (size_t k = 0; k < n; ++k)
                            w.push_back(c.pick(words));
                        int const how = c.choose(3);
                        if (!c.run())
                            return;
                        c.describe([&]() { return mc::qv(w); });
                        c.step(n);
                        c.state(mc::hash_str(mc::qv(w)));
                        sharg::regex_validator v{"a*b"};
                        bool const ok = std::ranges::all_of(w, languages()[0].contains);
                        std::string got;
                        if (how == 0)
                            got = verdict_of([&]() { v(w); });
                        else if (how == 1)
                            got = verdict_of([&]() { v(std::list<std::string>{w.begin(), w.end()}); });
                        else
                            got = verdict_of([&]() { v(w | std::views::transform([](std::string const & s) { return s; })); });
                        expect(c, ok, got, mc::qv(w));
                    });

    mc::add_section("C07/chains of two",
                    [](mc::Ctx & c)
                    {
                        std::vector<unsigned> a{unsigned(c.choose(16)), unsigned(c.choose(16))};
                        int const v = c.choose(4);
                        bool const list = c.flip();
                        if (!c.run())
                            return;
                        check_chain(c, Leaf{a[0], 0} | Leaf{a[1], 1}, a, v, list, "a|b");
                    });
    mc::add_section("C07/chains of three",
                    [](mc::Ctx & c)
                    {
                        std::vector<unsigned> a;
                        for (int k = 0; k < 3; ++k)
                            a.push_back(c.choose(16));
                        int const v = c.choose(4);
                        bool const list = c.flip();
                        bool const right = c.flip();
                        if (!c.run())
                            return;
                        Leaf x{a[0], 0}, y{a[1], 1}, z{a[2], 2};
                        if (right)
                            check_chain(c, x | (y | z), a, v, list, "a|(b|c)");
                        else
                            check_chain(c, (x | y) | z, a, v, list, "(a|b)|c");
                    });
    mc::add_section("C07/chains of four",
                    [](mc::Ctx & c)
                    {
                        std::vector<unsigned> a;
                        for (int k = 0; k < 4; ++k)
                            a.push_back(c.pick(std::vector<unsigned>{15, 14, 13, 7, 5, 0}));
                        int const v = c.choose(4);
                        int const shape = c.choose(5);
                        if (!c.run())
                            return;
                        Leaf w{a[0], 0}, x{a[1], 1}, y{a[2], 2}, z{a[3], 3};
                        switch (shape)
                        {
                        case 0: check_chain(c, ((w | x) | y) | z, a, v, false, "((a|b)|c)|d"); break;
                        case 1: check_chain(c, (w | (x | y)) | z, a, v, false, "(a|(b|c))|d"); break;
                        case 2: check_chain(c, (w | x) | (y | z), a, v, true, "(a|b)|(c|d)"); break;
                        case 3: check_chain(c, w | ((x | y) | z), a, v, false, "a|((b|c)|d)"); break;
                        default: check_chain(c, w | (x | (y | z)), a, v, true, "a|(b|(c|d))");
                        }
                    });
    mc::add_section("C07/chains of library validators",
                    [](mc::Ctx & c)
                    {
                        int const lo = int(c.choose(4)) - 1, hi = int(c.choose(4));
                        unsigned const set = c.choose(16), leaf = c.choose(16);
                        int const v = c.choose(4);
                        int const shape = c.choose(4);
                        if (!c.run())
                            return;
                        c.describe([&]() { return "range [" + std::to_string(lo) + "," + std::to_string(hi) + "], list " + std::to_string(set); });
                        c.step(3);
                        c.state(mc::mix(lo * 10 + hi, set * 1000 + leaf * 16 + v));
                        std::vector<int> l;
                        for (int k = 0; k < 4; ++k)
                            if (set & (1u << k))
                                l.push_back(k);
                        sharg::arithmetic_range_validator r{lo, hi};
                        sharg::value_list_validator<int> w{l};
                        Leaf f{leaf, 0};
                        bool const in_r = v >= lo && v <= hi, in_l = (set >> v) & 1, in_f = (leaf >> v) & 1;
                        std::string got;
                        switch (shape)
                        {
                        case 0: got = verdict_of([&]() { (r | w | f)(v); }); break;
                        case 1: got = verdict_of([&]() { (f | (w | r))(v); }); break;
                        case 2: got = verdict_of([&]() { (w | f | r)(std::vector<int>{v, v}); }); break;
                        default: got = verdict_of([&]() { ((r | f) | w)(v); });
                        }
                        expect(c, in_r && in_l && in_f, got, "chain");
                    });

    mc::add_section("C07/chains of eight",
                    [](mc::Ctx & c)
                    {
                        unsigned const bad = c.choose(256);
                        int const shape = c.choose(3);
                        bool const list = c.flip();
                        if (!c.run())
                            return;
                        std::vector<unsigned> a;
                        for (int k = 0; k < 8; ++k)
                            a.push_back(bad >> k & 1 ? 0 : 1);
                        auto l = [&](int k) { return Leaf{a[k], k}; };
                        switch (shape)
                        {
                        case 0: check_chain(c, l(0) | l(1) | l(2) | l(3) | l(4) | l(5) | l(6) | l(7), a, 0, list, "left"); break;
                        case 1: check_chain(c, l(0) | (l(1) | (l(2) | (l(3) | (l(4) | (l(5) | (l(6) | l(7))))))), a, 0, list, "right"); break;
                        default: check_chain(c, ((l(0) | l(1)) | (l(2) | l(3))) | ((l(4) | l(5)) | (l(6) | l(7))), a, 0, list, "balanced");
                        }
                    });
    // Many values, one of which is bad.
    mc::add_section("C07/many values",
                    [=](mc::Ctx & c)
                    {
                        size_t const n = 1 + c.choose(T ? 70 : 40);
                        size_t const at = c.choose(n + 1); // n: none
                        int const which = c.choose(6);
                        bool const parsed = c.flip();
                        if (!c.run())
                            return;
                        auto text = [&]() { return std::to_string(n) + " values, number " + std::to_string(at) + " is bad, validator " + std::to_string(which); };
                        c.describe(text);
                        c.step(n);
                        c.state(mc::mix(mc::mix(n, at), which * 2 + parsed));
                        std::string got;
                        auto judge = [&](auto values, auto bad, auto const & validator)
                        {
                            if (at < n)
                                values[at] = bad;
                            if (!parsed)
                                return verdict_of([&]() { validator(values); });
                            std::vector<std::string> args{"app"};
                            for (auto const & v : values)
                                args.push_back(sharg::detail::to_string("--oo=", v));
                            sharg::parser p{"app", args, sharg::update_notifications::off};
                            decltype(values) target{};
                            auto r = verdict_of(
                                [&]()
                                {
                                    p.add_option(target, sharg::config{.long_id = "oo", .validator = validator});
                                    p.parse();
                                });
                            if (target != values)
                                c.fail("the values are not the given ones: " + text());
                            return r;
                        };
                        std::vector<int> numbers(n);
                        std::vector<std::string> words(n);
                        for (size_t k = 0; k < n; ++k)
                            numbers[k] = int(k), words[k] = "w" + std::to_string(k);
                        switch (which)
                        {
                        case 0: got = judge(numbers, -1, sharg::arithmetic_range_validator{0, int(n) - 1}); break;
                        case 1: got = judge(numbers, int(n), sharg::arithmetic_range_validator{0, int(n) - 1}); break;
                        case 2: got = judge(numbers, int(n), sharg::value_list_validator{numbers}); break;
                        case 3: got = judge(words, std::string{"w"}, sharg::value_list_validator{words}); break;
                        case 4: got = judge(words, std::string{"x1"}, sharg::regex_validator{"w[0-9]+"}); break;
                        default:
                            got = judge(std::deque<double>(numbers.begin(), numbers.end()),
                                        -0.5,
                                        sharg::value_list_validator{numbers} | sharg::arithmetic_range_validator{0.0, double(n)});
                        }
                        expect(c, at == n, got, text());
                    });
    mc::add_section("C07/every byte",
                    [=](mc::Ctx & c)
                    {
                        char const b = static_cast<char>(c.choose(256));
                        size_t const which = c.choose(4), place = c.choose(3);
                        if (!c.run())
                            return;
                        std::string s = place == 0 ? std::string{b} : place == 1 ? std::string{b, 'x'} : std::string{'x', b};
                        c.describe([&]() { return "byte " + std::to_string(static_cast<unsigned char>(b)) + " validator " + std::to_string(which); });
                        c.step();
                        c.state(mc::mix(static_cast<unsigned char>(b), which * 3 + place));
                        unsigned char const u = static_cast<unsigned char>(b);
                        bool const line_end = b == '\n' || b == '\r';
                        bool const digit = u >= '0' && u <= '9', letter = (u | 32) >= 'a' && (u | 32) <= 'z';
                        bool ok{};
                        std::string got;
                        switch (which)
                        {
                        case 0: ok = !line_end; got = verdict_of([&]() { sharg::regex_validator{".+"}(s); }); break;
                        case 1: ok = letter || digit || b == '_'; got = verdict_of([&]() { sharg::regex_validator{"[a-zA-Z0-9_]*"}(s); }); break;
                        case 2: ok = b != 'x' && place == 0; got = verdict_of([&]() { sharg::regex_validator{"[^x]"}(s); }); break;
                        default: // the list holds every other byte
                        {
                            std::vector<std::string> all;
                            for (int k = 0; k < 256; ++k)
                                if (static_cast<char>(k) != b)
                                {
                                    char const o = static_cast<char>(k);
                                    all.push_back(place == 0 ? std::string{o} : place == 1 ? std::string{o, 'x'} : std::string{'x', o});
                                }
                            ok = false;
                            got = verdict_of([&]() { sharg::value_list_validator{all}(s); });
                        }
                        }
                        expect(c, ok, got, mc::q(s) + " validator " + std::to_string(which));
                    });
    // Long values. In a process of its own because std::regex recurses once per character.
    mc::add_section("C07/long values",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<std::string> const patterns{".*", "a+", "(a|b)*", "[a-z]*b?"};
                        auto const & pattern = c.pick(patterns);
                        size_t const n = c.pick(std::vector<size_t>{1, 10, 100, 999, 130'000}); // an argument has less than 128 KiB
                        bool const matches = c.flip() || pattern == ".*";
                        if (!c.run())
                            return;
                        std::string const s = std::string(n, 'a') + (matches ? "" : "!");
                        auto text = [&]() { return std::to_string(s.size()) + " characters, pattern " + pattern; };
                        c.describe(text);
                        c.step();
                        c.state(mc::hash_str(text()));
                        std::cout.flush();
                        pid_t const child = fork();
                        if (child == 0)
                        {
                            struct rlimit no_core{0, 0};
                            setrlimit(RLIMIT_CORE, &no_core);
                            for (int sig : {SIGSEGV, SIGBUS, SIGABRT})
                                signal(sig, SIG_DFL);
                            auto got = verdict_of([&]() { sharg::regex_validator{pattern}(s); });
                            _exit(got == "ok" ? 10 : got == "rejected" ? 11 : 12);
                        }
                        int status{};
                        while (waitpid(child, &status, 0) < 0 && errno == EINTR)
                        {}
                        bool const crashed = !WIFEXITED(status) || (WEXITSTATUS(status) != 10 && WEXITSTATUS(status) != 11);
                        c.outcome(crashed ? "crash" : WEXITSTATUS(status) == 10 ? "ok" : "rejected");
                        if (crashed)
                            c.fail("regex_validator crashes on a value of " + text(), n > 100'000 ? "regex-long-value" : "");
                        else if (WEXITSTATUS(status) != (matches ? 10 : 11))
                            c.fail("wrong verdict on a value of " + text());
                    });

    // Applied exactly once to the final value, exactly if the option is given.
    mc::add_section("C07/applied",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<std::string> const tokens{"-s", "bad", "-sok", "--str=bad", "-i13", "--int=4", "-ix", "-l", "--ll=13", "-l5",
                                                                     "-wa", "-wbad", "x", "--", "-f", "--help"};
                        int const mode = c.choose(6);
                        int const kind = c.choose(3); // positionals: none, string, list
                        size_t const n = c.choose((T && mode == 0 ? 5 : 4));
                        std::vector<std::string> args;
                        for (size_t k = 0; k < n; ++k)
                            args.push_back(c.pick(tokens));
                        if (!c.run())
                            return;
                        c.describe([&]() { return mc::qv(args) + " mode " + std::to_string(mode) + " positionals " + std::to_string(kind); });
                        c.step(n);
                        c.state(mc::hash_str(mc::qv(args), kind));
                        // What the options get. Options are validated independently of each other.
                        struct Opt
                        {
                            char s;
                            std::string l;
                            bool list, number;
                            std::vector<std::string> vals{};
                        };
                        std::vector<Opt> opts{{'s', "str", false, false}, {'i', "int", false, true}, {'l', "ll", true, true}, {'w', "words", true, false}};
                        std::vector<std::string> posv;
                        bool ended = false, special = false, error = false;
                        size_t n_flags = 0;
                        for (size_t k = 0; k < args.size(); ++k)
                        {
                            auto & a = args[k];
                            if (ended || a[0] != '-')
                            {
                                posv.push_back(a);
                                continue;
                            }
                            if (a == "--")
                            {
                                ended = true;
                                continue;
                            }
                            if (a == "--help")
                            {
                                special = true;
                                continue;
                            }
                            if (a == "-f")
                            {
                                ++n_flags;
                                continue;
                            }
                            for (auto & o : opts)
                            {
                                if (a == std::string{'-', o.s})
                                {
                                    if (k + 1 < args.size())
                                        o.vals.push_back(args[++k]);
                                    else
                                        error = true;
                                    break;
                                }
                                if (a[1] == o.s)
                                {
                                    o.vals.push_back(a.substr(2));
                                    break;
                                }
                                if (a.starts_with("--" + o.l + "="))
                                {
                                    o.vals.push_back(a.substr(o.l.size() + 3));
                                    break;
                                }
                            }
                        }
                        bool const f_twice = n_flags > 1;
                        std::vector<std::string> expected; // the calls in a line without other errors
                        bool rejected = false;
                        auto text = [](Opt const & o)
                        {
                            std::string s;
                            for (auto & v : o.vals)
                                s += (o.number ? v : mc::q(v)) + (o.list ? " " : "");
                            return o.list ? "[" + s + "]" : s;
                        };
                        auto bad = [](Opt const & o)
                        {
                            return std::ranges::any_of(o.vals, [&](std::string const & v) { return v == (o.number ? "13" : "bad"); });
                        };
                        for (auto & o : opts)
                        {
                            if (o.vals.empty())
                                continue;
                            if (!o.list && o.vals.size() > 1)
                                error = true;
                            if (o.number && !std::ranges::all_of(o.vals, [](std::string const & v) { return v == "13" || v == "4" || v == "5"; }))
                                error = true;
                            expected.push_back(text(o));
                            rejected = rejected || bad(o);
                        }
                        if (kind == 0 && !posv.empty())
                            error = true;
                        if (kind != 0)
                        {
                            if (posv.empty() || (kind == 1 && posv.size() > 1))
                                error = true;
                            Opt p{'\0', "", kind == 2, false, posv};
                            expected.push_back(text(p));
                            rejected = rejected || bad(p);
                        }
                        error = error || f_twice;

                        std::string s{"bad"}, ps{"bad"};
                        int i{13};
                        std::vector<int> l{13};
                        std::vector<std::string> w{"bad"}, pl{"bad"};
                        bool f{};
                        Recorder::seen.clear();
                        Recorder::mode = mode;
                        std::vector<std::string> full{"app"};
                        full.insert(full.end(), args.begin(), args.end());
                        sharg::parser p{"app", full, sharg::update_notifications::off};
                        Recorder const rec{};
                        auto r = mc::call(
                            [&]()
                            {
                                p.add_option(s, sharg::config{.short_id = 's', .long_id = "str", .validator = rec});
                                p.add_option(i, sharg::config{.short_id = 'i', .long_id = "int", .validator = rec});
                                p.add_option(l, sharg::config{.short_id = 'l', .long_id = "ll", .validator = rec});
                                p.add_option(w, sharg::config{.short_id = 'w', .long_id = "words", .validator = rec});
                                p.add_flag(f, sharg::config{.short_id = 'f'});
                                if (kind == 1)
                                    p.add_positional_option(ps, sharg::config{.validator = rec});
                                if (kind == 2)
                                    p.add_positional_option(pl, sharg::config{.validator = rec});
                                p.parse();
                            });
                        auto seen = Recorder::seen;
                        auto list = [](std::vector<std::string> v)
                        {
                            std::ranges::sort(v);
                            std::string r;
                            for (auto & x : v)
                                r += x + "; ";
                            return r;
                        };
                        auto fail = [&](std::string const & m) { c.fail(m + "\n  arguments: " + mc::qv(args)); };
                        if (args.empty() || special)
                        {
                            c.outcome("page");
                            if (!r.exited)
                                fail("expected a page");
                            if (!seen.empty())
                                fail("a validator was called although a page is shown: " + list(seen));
                            return;
                        }
                        // whatever happens: a validator sees nothing but the final values, once
                        auto rest = expected;
                        for (auto & x : seen)
                        {
                            auto it = std::ranges::find(rest, x);
                            if (it == rest.end() && error) // too many values for one that takes a single value
                            {
                                auto single = [&](Opt const & o)
                                { return !o.list && o.vals.size() > 1 && std::ranges::any_of(o.vals, [&](auto & v) { return x == (o.number ? v : mc::q(v)); }); };
                                if (std::ranges::any_of(opts, single) || (kind == 1 && single(Opt{'\0', "", false, false, posv})))
                                    continue;
                            }
                            if (it == rest.end())
                                return fail("unexpected call of a validator with " + x);
                            rest.erase(it);
                        }
                        if (r.exited)
                            return fail("unexpected exit");
                        if (error)
                        {
                            c.outcome("other error");
                            if (r.err == mc::Err::none || r.err == mc::Err::foreign)
                                fail("expected an error, got " + std::string{mc::err_name(r.err)});
                            return;
                        }
                        if (rejected)
                        {
                            c.outcome("rejected");
                            if (r.err != mc::Err::validation_error)
                                fail("expected validation_error, got " + std::string{mc::err_name(r.err)} + ": " + r.what);
                            return;
                        }
                        c.outcome("accepted");
                        if (r.err != mc::Err::none)
                            fail("unexpected " + std::string{mc::err_name(r.err)} + ": " + r.what);
                        else if (!rest.empty())
                            fail("validators were called with " + list(seen) + " instead of " + list(expected));
                    });

    // The library's validators on every kind of option.
    mc::add_section("C07/in the parser",
                    [=](mc::Ctx & c)
                    {
                        int const kind = c.choose(4);  // option, list option, positional, positional list
                        int const which = c.choose(6); // which validator
                        static std::vector<std::string> const values{"0", "1", "2", "3", "-1", "1.5", "2.0", "257"};
                        size_t const n = c.choose(4);
                        std::vector<std::string> vals;
                        for (size_t k = 0; k < n; ++k)
                            vals.push_back(c.pick(values));
                        if (!c.run())
                            return;
                        std::vector<std::string> args{"app"};
                        if (kind >= 2)
                            args.push_back("--");
                        for (auto & v : vals)
                        {
                            if (kind < 2)
                                args.push_back("-o");
                            args.push_back(v);
                        }
                        if (kind < 2)
                            args.push_back("-f");
                        c.describe([&]() { return mc::qv(args) + " validator " + std::to_string(which); });
                        c.step(n);
                        c.state(mc::hash_str(mc::qv(args), which));
                        auto number = [](std::string const & v) { return std::stod(v); };
                        // type: 0 double, 1 int, 2 uint8, 3 string
                        int const type = which == 0 ? 0 : which <= 2 ? 1 : which == 3 ? 2 : which == 4 ? 3 : 0;
                        auto parses = [&](std::string const & v)
                        {
                            if (type == 1)
                                return v.find('.') == v.npos;
                            if (type == 2)
                                return v.find('.') == v.npos && v != "-1" && v != "257";
                            return true;
                        };
                        auto good = [&](std::string const & v)
                        {
                            switch (which)
                            {
                            case 0: return number(v) >= 1 && number(v) <= 2;          // int limits on double
                            case 1: return number(v) >= 0 && number(v) <= 2;          // int
                            case 2: return number(v) == 0 || number(v) == 3;          // list of int
                            case 3: return number(v) >= 1 && number(v) <= 300;        // int limits on uint8
                            case 4: return v == "1" || v == "3" || v == "2.0";        // regex
                            default: return number(v) == 1.5 || number(v) == 2;       // list of double
                            }
                        };
                        unsigned allowed = 0;
                        bool const list = kind & 1;
                        if (!list && kind == 0 && n > 1)
                            allowed |= 1u << int(mc::Err::option_declared_multiple_times);
                        if (kind >= 2 && n == 0)
                            allowed |= 1u << int(mc::Err::too_few_arguments);
                        if (kind == 2 && n > 1)
                            allowed |= 1u << int(mc::Err::too_many_arguments);
                        bool unparsed = false;
                        for (auto & v : vals)
                            if (!parses(v))
                                allowed |= 1u << int(mc::Err::user_input_error), unparsed = true;
                        if (!unparsed || !list)
                            for (auto & v : vals)
                                if (parses(v) && !good(v))
                                    allowed |= 1u << int(mc::Err::validation_error);
                        sharg::parser p{"app", args, sharg::update_notifications::off};
                        bool f{};
                        auto drive = [&](auto value, auto validator)
                        {
                            std::vector<decltype(value)> values{value};
                            return mc::call(
                                [&]()
                                {
                                    p.add_flag(f, sharg::config{.short_id = 'f'});
                                    switch (kind)
                                    {
                                    case 0: p.add_option(value, sharg::config{.short_id = 'o', .validator = validator}); break;
                                    case 1: p.add_option(values, sharg::config{.short_id = 'o', .validator = validator}); break;
                                    case 2: p.add_positional_option(value, sharg::config{.validator = validator}); break;
                                    default: p.add_positional_option(values, sharg::config{.validator = validator});
                                    }
                                    p.parse();
                                });
                        };
                        mc::Result r;
                        switch (which)
                        {
                        case 0: r = drive(double{77}, sharg::arithmetic_range_validator{1, 2}); break;
                        case 1: r = drive(int{77}, sharg::arithmetic_range_validator{0, 2}); break;
                        case 2: r = drive(int{77}, sharg::value_list_validator{0, 3}); break;
                        case 3: r = drive(uint8_t{0}, sharg::arithmetic_range_validator{1, 300}); break;
                        case 4: r = drive(std::string{"x"}, sharg::regex_validator{"[13]|2\\.0"}); break;
                        default: r = drive(double{77}, sharg::value_list_validator{1.5, 2.0});
                        }
                        c.outcome(mc::err_name(r.err));
                        if (r.exited)
                            return c.fail("unexpected exit");
                        if (allowed ? !(allowed & (1u << int(r.err))) : r.err != mc::Err::none)
                            c.fail("unexpected outcome " + std::string{mc::err_name(r.err)} + ": " + r.what + "\n  arguments: " + mc::qv(args)
                                   + " validator " + std::to_string(which));
                    });
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
