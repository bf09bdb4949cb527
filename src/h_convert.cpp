// C06: conversion of texts to values.
#include "sharg_env.hpp"
#include "ref.hpp"

namespace
{
// ---- types with an own stream operator ------------------------------------------------------------------------------
struct Point
{
    int x{}, y{};
    bool operator==(Point const &) const = default;
    friend std::istream & operator>>(std::istream & is, Point & p)
    {
        char c{};
        is >> p.x >> c >> p.y;
        if (c != ',')
            is.setstate(std::ios::failbit);
        return is;
    }
    friend std::ostream & operator<<(std::ostream & os, Point const & p) { return os << p.x << ',' << p.y; }
};
struct Word
{
    std::string w{};
    bool operator==(Word const &) const = default;
    friend std::istream & operator>>(std::istream & is, Word & p) { return is >> p.w; }
    friend std::ostream & operator<<(std::ostream & os, Word const & p) { return os << p.w; }
};

// ---- reference: 0 error, 1 value, 2 not specified (an error or the value) -------------------------------------------
template <std::integral T>
int reference(std::string const & s, T & v)
{
    ref::i128 x{};
    if (ref::integer(s, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), x) != 2)
        return 0;
    v = static_cast<T>(x);
    return 1;
}
int reference(std::string const & s, bool & v)
{
    v = s == "1" || s == "true";
    return v || s == "0" || s == "false";
}
int reference(std::string const & s, std::string & v)
{
    v = s;
    return 1;
}
int reference(std::string const & s, std::filesystem::path & v)
{
    v = s;
    return 1;
}
template <std::floating_point T>
int reference(std::string const & s, T & v)
{
    std::string_view t = s;
    bool nonzero = false;
    auto digits = [&](bool mantissa)
    {
        size_t n = 0;
        while (n < t.size() && t[n] >= '0' && t[n] <= '9')
        {
            nonzero = nonzero || (mantissa && t[n] != '0');
            ++n;
        }
        t.remove_prefix(n);
        return n;
    };
    if (t.starts_with('-'))
        t.remove_prefix(1);
    if (t.starts_with('i') || t.starts_with('n') || t.starts_with('I') || t.starts_with('N'))
    {
        for (std::string_view w : {"inf", "nan", "infinity"})
            if (t.size() == w.size() && std::ranges::equal(t, w, [](char a, char b) { return std::tolower(a) == b; }))
            {
                v = w == "nan" ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
                if (s[0] == '-')
                    v = -v;
                return 2;
            }
        if (t.size() > 4 && std::ranges::equal(t.substr(0, 4), std::string_view{"nan("}, [](char a, char b) { return std::tolower(a) == b; }) && t.back() == ')'
            && std::ranges::all_of(t.substr(4, t.size() - 5), [](char c) { return c == '_' || std::isalnum(static_cast<unsigned char>(c)); }))
        {
            v = std::numeric_limits<T>::quiet_NaN(); // with a payload
            if (s[0] == '-')
                v = -v;
            return 2;
        }
        return 0;
    }
    size_t n = digits(true);
    if (t.starts_with('.'))
    {
        t.remove_prefix(1);
        n += digits(true);
    }
    if (n == 0)
        return 0;
    if (t.starts_with('e') || t.starts_with('E'))
    {
        t.remove_prefix(1);
        if (t.starts_with('-') || t.starts_with('+'))
            t.remove_prefix(1);
        if (digits(false) == 0)
            return 0;
    }
    if (!t.empty())
        return 0;
    if constexpr (std::same_as<T, float>)
        v = std::strtof(s.c_str(), nullptr);
    else if constexpr (std::same_as<T, double>)
        v = std::strtod(s.c_str(), nullptr);
    else
        v = std::strtold(s.c_str(), nullptr);
    if (std::isinf(v)) // too large
        return 0;
    if (v == 0 && nonzero) // too small
        return 0;
    if (v != 0 && std::fabs(v) < std::numeric_limits<T>::min()) // denormal: may be reported as out of range
        return 2;
    return 1;
}
int reference(std::string const & s, Point & p)
{
    size_t i = 0;
    auto ws = [&]()
    {
        while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')))
            ++i;
    };
    auto number = [&](int & r) -> bool
    {
        ws();
        bool neg = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            neg = s[i++] == '-';
        size_t const b = i;
        int x = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9')
            x = x * 10 + (s[i++] - '0');
        r = neg ? -x : x;
        return i > b;
    };
    if (!number(p.x))
        return 0;
    ws();
    if (i >= s.size() || s[i++] != ',')
        return 0;
    return number(p.y) && i == s.size();
}
int reference(std::string const & s, Word & w)
{
    size_t const b = s.find_first_not_of(" \t\n\v\f\r");
    if (b == s.npos)
        return 0;
    w.w = s.substr(b);
    return w.w.find_first_of(" \t\n\v\f\r") == s.npos;
}

template <typename T>
bool same(T const & a, T const & b)
{
    if constexpr (std::floating_point<T>)
        return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
    else
        return a == b;
}
template <typename T>
std::string show(T const & v)
{
    std::ostringstream s;
    if constexpr (std::floating_point<T>)
        s << std::hexfloat;
    if constexpr (std::integral<T>)
        s << +v;
    else
        s << v;
    return s.str();
}

constexpr int n_notations = 8;
std::vector<std::string> arguments(std::string const & t, int notation)
{
    switch (notation)
    {
    case 0: return {"-o", t};
    case 1: return {"-o" + t};
    case 2: return {"-o=" + t};
    case 3: return {"--opt", t};
    case 4: return {"--opt=" + t};
    case 5: return {"--", t};
    case 6: return {"-o", t, "--opt=" + t};
    default: return {"--", t, t};
    }
}

bool unusual_locale = false; // the application has set one with other decimal points, groups of digits and names of truth values

template <typename T>
void check(mc::Ctx & c, std::string const & text, int notation, std::optional<T> exact = {})
{
    auto args = arguments(text, notation);
    c.describe([&]() { return mc::qv(args); });
    c.step();
    c.state(mc::hash_str(text));
    std::string value_text = text;
    bool missing = (notation == 2 || notation == 4 || notation == 6 || notation == 1) && text.empty();
    if (notation == 1 && text.starts_with('='))
    {
        value_text = text.substr(1);
        missing = value_text.empty();
    }
    T expected{};
    int const verdict = missing ? 0 : reference(value_text, expected);
    if (exact && !missing && (verdict != 1 || !same(*exact, expected)))
        std::cerr << "harness error: the reference converts " << text << " to " << show(expected) << '\n', _exit(70);

    args.insert(args.begin(), "app");
    sharg::parser p{"app", args, sharg::update_notifications::off};
    T value{};
    bool list = notation >= 6;
    std::vector<T> values{};
    values.resize(1);
    mc::Result r;
    sharg::config const cfg{.short_id = 'o', .long_id = "opt"};
    r = mc::call(
        [&]()
        {
            mc::GlobalLocale const locale{unusual_locale};
            if (notation < 5)
                p.add_option(value, cfg);
            else if (notation == 5)
                p.add_positional_option(value, sharg::config{});
            else if (notation == 6)
                p.add_option(values, cfg);
            else
                p.add_positional_option(values, sharg::config{});
            p.parse();
        });
    auto fail = [&](std::string const & m) { c.fail(m + "\n  arguments: " + mc::qv(args)); };
    if (r.exited)
        return fail("unexpected exit");
    if (r.err != mc::Err::none)
    {
        c.outcome(mc::err_name(r.err));
        if (verdict == 1)
            return fail("expected value " + show(expected) + ", got " + mc::err_name(r.err) + ": " + r.what);
        if (missing ? (r.err != mc::Err::too_few_arguments && !(text.empty() && r.err == mc::Err::user_input_error))
                    : r.err != mc::Err::user_input_error)
            return fail("unexpected error class " + std::string{mc::err_name(r.err)} + ": " + r.what);
        return;
    }
    c.outcome("value");
    if (!list)
        values.assign(1, value);
    if (verdict == 0)
        return fail("accepted as " + (values.empty() ? std::string{"empty list"} : show<T>(values[0])) + ", expected an error");
    if (values.size() != (list ? 2u : 1u))
        return fail("list of " + std::to_string(values.size()) + " elements");
    for (T const v : values)
        if (!same(v, expected))
            return fail("expected " + show(expected) + ", got " + show(v));
}

template <typename T>
void texts(std::string name, std::vector<std::string> letters, size_t len)
{
    mc::add_section("C06/" + name,
                    [=](mc::Ctx & c)
                    {
                        size_t const n = c.choose(len + 1);
                        std::string t;
                        for (size_t k = 0; k < n; ++k)
                            t += c.pick(letters);
                        int const notation = c.choose(n_notations);
                        if (c.run())
                            check<T>(c, t, notation);
                    });
}
template <typename T>
void in_locale(std::string name, std::vector<std::string> letters, size_t len)
{
    mc::add_section("C06/locale " + name,
                    [=](mc::Ctx & c)
                    {
                        size_t const n = c.choose(len + 1);
                        std::string t;
                        for (size_t k = 0; k < n; ++k)
                            t += c.pick(letters);
                        int const notation = c.choose(n_notations);
                        if (!c.run())
                            return;
                        unusual_locale = true;
                        check<T>(c, t, notation);
                        unusual_locale = false;
                    });
}
template <typename T>
void list_of(std::string name, std::vector<std::string> list)
{
    mc::add_section("C06/" + name,
                    [=](mc::Ctx & c)
                    {
                        auto const & t = c.pick(list);
                        int const notation = c.choose(n_notations);
                        if (c.run())
                            check<T>(c, t, notation);
                    });
}
//!\brief Every byte inserted or substituted anywhere in, put around, or doubled at the end of the given texts; and every two
//!       bytes out of those that could be taken for blanks, signs or quotes in front of and behind them.
template <typename T>
void bytes(std::string name, std::vector<std::string> list)
{
    mc::add_section("C06/bytes " + name,
                    [=](mc::Ctx & c)
                    {
                        std::string t = c.pick(list);
                        static std::string const special{" \t\n\v\f\r\0+-'\"`,;_.%$#lLuUfFkKMGeEpx0(){}\xa0\xc2\xef\xbb\xbf\x1a\x1b\x7f", 49};
                        size_t const kind = c.choose(5);
                        switch (kind)
                        {
                        case 0:
                        {
                            size_t const at = c.choose(t.size() + 1);
                            t.insert(at, 1, char(c.choose(256)));
                            break;
                        }
                        case 1:
                            if (t.empty())
                                return;
                            t[c.choose(t.size())] = char(c.choose(256));
                            break;
                        case 2:
                        {
                            char const b = char(c.choose(256));
                            t = b + t + b;
                            break;
                        }
                        case 3:
                        {
                            char const b = char(c.choose(256));
                            t += b;
                            t += b;
                            break;
                        }
                        case 4:
                        {
                            char const a = special[c.choose(special.size())], b = special[c.choose(special.size())];
                            switch (c.choose(3))
                            {
                            case 0: t = std::string{a, b} + t; break;
                            case 1: t = t + a + b; break;
                            case 2: t = a + t + b; break;
                            }
                            break;
                        }
                        }
                        if (t == std::string(1, '\0')) // not part of any command line
                            return;
                        int const notation = kind < 4 ? c.choose(n_notations) : std::vector<int>{0, 4, 5, 6}[c.choose(4)];
                        if (c.run())
                            check<T>(c, t, notation);
                    });
}
//!\brief Numbers with very many digits.
template <typename T>
void digits(std::string name, std::vector<size_t> lengths)
{
    mc::add_section("C06/many digits " + name,
                    [=](mc::Ctx & c)
                    {
                        static std::vector<std::pair<std::string, std::string>> const frames{
                            {"", ""}, {"", "0"}, {"", "1"}, {"1", ""}, {"1", "1"}, {"-", "1"}, {"-", "0"}, {"-1", ""}, {"12", ""}, {"", "x"}, {"", "."},
                            {"0.", "1"}, {".", "1"}, {"1.", "1"}, {"1.", ""}, {"1", ".5"}, {"1e", "1"}, {"1e-", "1"}, {"1e+", ""}, {"1e-", "2000"},
                            {"", "e1"}, {"0.", "e400"}, {"1", "e-300"}, {"9", "e-20"}, {"0.", "1e350"}, {"", "1e"}, {"", " "}};
                        static std::string const fill{"0193"};
                        size_t const n = c.pick(lengths);
                        auto const & f = c.pick(frames);
                        std::string const t = f.first + std::string(n, fill[c.choose(fill.size())]) + f.second;
                        int const notation = c.choose(n_notations);
                        if (c.run())
                            check<T>(c, t, notation);
                    });
}
//!\brief Numbers around everything that is special, for type T.
template <typename T>
void numbers(std::string name, int radius)
{
    std::set<ref::i128> v;
    using ref::i128;
    auto around = [&](i128 m, int r)
    {
        for (int k = -r; k <= r; ++k)
            v.insert(m + k);
    };
    around(0, radius);
    for (i128 m : {i128(std::numeric_limits<int8_t>::min()), i128(std::numeric_limits<int8_t>::max()), i128(std::numeric_limits<uint8_t>::max()),
                   i128(std::numeric_limits<int16_t>::min()), i128(std::numeric_limits<int16_t>::max()), i128(std::numeric_limits<uint16_t>::max()),
                   i128(std::numeric_limits<int32_t>::min()), i128(std::numeric_limits<int32_t>::max()), i128(std::numeric_limits<uint32_t>::max()),
                   i128(std::numeric_limits<int64_t>::min()), i128(std::numeric_limits<int64_t>::max()), i128(std::numeric_limits<uint64_t>::max())})
        around(m, 300);
    for (int b = 0; b < 100; ++b) // including everything that wraps around to a small value
        around(i128(1) << b, 12), around(-(i128(1) << b), 12);
    i128 p = 1;
    for (int b = 0; b < 30; ++b, p *= 10)
        around(p, 2), around(-p, 2), around(3 * p, 1);
    std::vector<i128> all{v.begin(), v.end()};
    mc::add_section("C06/" + name,
                    [=](mc::Ctx & c)
                    {
                        auto const x = c.pick(all);
                        int const zeros = c.choose(2);
                        int const notation = c.choose(n_notations);
                        if (!c.run())
                            return;
                        auto t = ref::i128str(x);
                        if (zeros)
                            t.insert(x < 0 ? 1 : 0, "000");
                        std::optional<T> exact;
                        if (x >= i128(std::numeric_limits<T>::min()) && x <= i128(std::numeric_limits<T>::max())
                            && !(x < 0 && std::is_unsigned_v<T>))
                            exact = static_cast<T>(x);
                        check<T>(c, t, notation, exact);
                    });
}
//!\brief Values that are exactly representable, written in several ways; and texts at the limits.
std::vector<std::string> float_texts()
{
    std::vector<std::string> v{"1e400", "-1e400", "1e-400", "1e39", "-1e39", "1e38", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308",
                               "1.7976931348623159e308", "2.2250738585072014e-308", "1.17549435e-38", "4.9e-324", "1e-45", "1e-46", "1e-39", "0.1",
                               "0.3", "1e23", "9007199254740993", "9007199254740992", "16777217", "123456789012345678901234567890",
                               "0.1000000000000000055511151231257827021181583404541015625", "5e-1", "+1", "1.", ".5", "-.5", ".", "-", "e5", "1e", "1e+",
                               "1e5.5", "1 ", " 1", "1,5", "1'000", "0x10", "0x1p3", "1f", "1d", "1L", "inf", "-inf", "nan", "-nan", "infinity", "INF",
                               "NaN", "infi", "1e4932", "1e4933", "1e-5000", "1e999999999999", "0e999999999999", "1e-999999999999", "0x", "1_000",
                               "00.50", "-0", "-0.0", "0e0", "1E5", "1e+5", "1e-5", "1e05", "--1", "1-", "1e5e5", "1..2", "\xc2\xb2", "12\xff"};
    for (int num = -33; num <= 33; ++num)
        for (int den : {1, 2, 4, 8, 16})
        {
            char b[64];
            snprintf(b, sizeof b, "%.10g", double(num) / den);
            v.push_back(b);
            snprintf(b, sizeof b, "%.4f", double(num) / den);
            v.push_back(b);
            snprintf(b, sizeof b, "%.4e", double(num) / den);
            v.push_back(b);
        }
    for (int e = -60; e <= 60; ++e)
        v.push_back("7e" + std::to_string(e));
    return v;
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    std::vector<std::string> const num{"0", "1", "2", "9", "-", "+", " ", "x", ".", "e"};
    texts<int8_t>("text int8", num, T ? 5 : 4);
    texts<uint8_t>("text uint8", num, T ? 5 : 4);
    texts<int32_t>("text int32", num, T ? 5 : 4);
    texts<uint64_t>("text uint64", num, T ? 5 : 4);
    std::vector<std::string> const odd{"0", "7", "-", "a", "\t", "\n", "=", ",", "'", "\xff", "F", "l"};
    texts<int64_t>("odd int64", odd, T ? 4 : 3);
    texts<uint16_t>("odd uint16", odd, T ? 4 : 3);
    texts<double>("odd double", odd, T ? 4 : 3);
    numbers<int8_t>("int8", 1000);
    numbers<uint8_t>("uint8", 1000);
    numbers<int16_t>("int16", T ? 70000 : 2000);
    numbers<uint16_t>("uint16", T ? 70000 : 2000);
    numbers<int32_t>("int32", 1000);
    numbers<uint32_t>("uint32", 1000);
    numbers<int64_t>("int64", 1000);
    numbers<uint64_t>("uint64", 1000);
    numbers<long long>("long long", 300);
    std::vector<std::string> const some_numbers{"", "0", "7", "-3", "12", "100"};
    bytes<int8_t>("int8", some_numbers);
    bytes<uint8_t>("uint8", some_numbers);
    if (T)
    {
        bytes<int16_t>("int16", some_numbers);
        bytes<uint32_t>("uint32", some_numbers);
    }
    bytes<uint16_t>("uint16", some_numbers);
    bytes<int32_t>("int32", some_numbers);
    bytes<int64_t>("int64", some_numbers);
    bytes<uint64_t>("uint64", some_numbers);
    bytes<bool>("bool", {"", "0", "1", "true", "false"});
    std::vector<std::string> const punctuation{"1", "000", "5", ".", ",", "-", "e"};
    in_locale<int32_t>("int32", punctuation, T ? 5 : 4);
    in_locale<uint64_t>("uint64", punctuation, T ? 5 : 4);
    in_locale<int8_t>("int8", punctuation, T ? 5 : 4);
    in_locale<double>("double", punctuation, T ? 6 : 5);
    in_locale<float>("float", punctuation, T ? 5 : 4);
    in_locale<bool>("bool", {"0", "1", "true", "false", "ja", "nein", ","}, T ? 4 : 3);
    in_locale<std::string>("string", punctuation, T ? 4 : 3);
    std::vector<std::string> const some_reals{"", "1", "-2.5", "1e3", ".5", "inf", "nan"};
    bytes<double>("double", some_reals);
    bytes<float>("float", some_reals);
    bytes<long double>("long double", some_reals);
    bytes<std::string>("string", {"", "x", "some"});
    bytes<std::filesystem::path>("path", {"", "x", "a/b"});
    bytes<Point>("point", {"", "1,2", "-1 , 30"});
    bytes<Word>("word", {"", "x", "ab"});
    std::vector<size_t> lengths(T ? 130 : 45);
    std::iota(lengths.begin(), lengths.end(), 0);
    lengths.insert(lengths.end(), {255, 256, 257, 307, 308, 309, 310, 323, 324, 325, 326, 1000, 1023, 1024, 1025});
    digits<int8_t>("int8", lengths);
    digits<uint16_t>("uint16", lengths);
    digits<int32_t>("int32", lengths);
    digits<int64_t>("int64", lengths);
    digits<uint64_t>("uint64", lengths);
    digits<double>("double", lengths);
    digits<float>("float", lengths);
    digits<bool>("bool", lengths);
    std::vector<std::string> const fl{"0", "1", "5", ".", "-", "e", "+", "E"};
    texts<double>("text double", fl, T ? 6 : 5);
    texts<float>("text float", fl, T ? 5 : 4);
    list_of<double>("double", float_texts());
    list_of<float>("float", float_texts());
    list_of<long double>("long double", float_texts());
    texts<bool>("text bool", {"0", "1", "t", "r", "u", "e", "f", "a", "l", "s", "T", " "}, T ? 5 : 4);
    {
        std::vector<std::string> v;
        for (std::string w : {"true", "false", "TRUE", "False", "yes", "no", "on", "off", "01", "10", "00", "11", "-1", "2"})
        {
            v.push_back(w);
            for (size_t i = 0; i <= w.size(); ++i)
                for (std::string l : {"", "0", "1", "t", "f", "e", " ", "\n", "-", "="})
                {
                    v.push_back(w.substr(0, i) + l + w.substr(i));
                    if (i < w.size())
                        v.push_back(w.substr(0, i) + l + w.substr(i + 1));
                }
        }
        list_of<bool>("bool", v);
    }
    std::vector<std::string> const str{"a", " ", "-", "=", "\"", "\\", "\n", "/", ",", "\xc3\xa4", "%"};
    texts<std::string>("text string", str, T ? 5 : 4);
    texts<std::filesystem::path>("text path", str, T ? 5 : 4);
    list_of<std::string>("string",
                         {std::string(5000, 'x'), "a  b", " lead", "trail ", "\ttab\t", "new\nline", "'q'", "\"q\"", "--opt", "-o", "--", "-", "==", "=a=b", "\xff\xfe",
                          "\x01\x02", "a\\nb", "$HOME", "`ls`", "%s%n", "<b>", "\xf0\x9f\x98\x80"});
    list_of<std::filesystem::path>("path", {"/a/b", "a b/c d", "\"quoted\"", "\"a b", "./x", "../", "a//b", "trailing/", "~", "\xff", "with\\backslash", " ", "a\nb"});
    texts<Point>("text point", {"1", "2", ",", " ", "-", "x"}, T ? 7 : 5);
    texts<Word>("text word", {"a", "b", " ", "\t", "-"}, T ? 6 : 5);
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
