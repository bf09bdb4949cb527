// C20: named enumerations.
#include "sharg_env.hpp"

// A type that cannot be changed: customised with sharg::custom::parsing, with several names per enumerator.
namespace other
{
enum level
{
    low,
    mid = 7,
    high = -3,
    nameless = 100
};
}
namespace sharg::custom
{
template <>
struct parsing<other::level>
{
    static inline std::unordered_map<std::string_view, other::level> const enumeration_names{
        {"low", other::low}, {"lo", other::low}, {"mid", other::mid}, {"0", other::low}, {"high", other::high}, {"hi", other::high}};
};
} // namespace sharg::custom

namespace mine
{
enum class colour
{
    red,
    green,
    blue,
    nameless
};
// Names that are prefixes and case variants of each other.
auto enumeration_names(colour)
{
    return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"re", colour::green}, {"RED", colour::blue}, {"reder", colour::red}};
}
// Names that are parts of a larger text and therefore not terminated.
enum class part : uint8_t
{
    one = 49, // '1' as a character
    two = 50,
    three = 200
};
char const buffer[] = "onetwothree";
auto enumeration_names(part)
{
    std::string_view const b{buffer};
    return std::unordered_map<std::string_view, part>{{b.substr(0, 3), part::one}, {b.substr(3, 3), part::two}, {b.substr(6), part::three}};
}
// No names.
enum class nothing
{
    a
};
auto enumeration_names(nothing) { return std::unordered_map<std::string_view, nothing>{}; }
// Names with special characters.
enum class odd : char
{
    a = 'a',
    b = 'b',
    c = 'c',
    d = 'd',
    e = 'e'
};
auto enumeration_names(odd)
{
    return std::unordered_map<std::string_view, odd>{{"a b", odd::a}, {"=", odd::b}, {"x-", odd::c}, {" ", odd::d}, {"\xc3\xa4", odd::e}};
}
// Many names, and values that only differ in high bits.
enum class crowd : int64_t
{
};
inline std::vector<std::pair<std::string, crowd>> const & crowd_names()
{
    static std::vector<std::pair<std::string, crowd>> const names = []()
    {
        std::vector<std::pair<std::string, crowd>> v;
        for (int k = 0; k < 120; ++k)
        {
            crowd const e = crowd((k / 5 - 3) + (k % 5 ? int64_t{1} << (k % 5 * 8) : 0));
            v.push_back({"n" + std::to_string(k), e});
            if (k % 4 == 0)
                v.push_back({"alias-" + std::to_string(k) + std::string(k, 'x'), e});
            if (k == 60)
                v.push_back({std::string(1000, 'y'), e}), v.push_back({std::string(999, 'y') + "z", crowd(k)});
        }
        std::ranges::sort(v, [](auto & a, auto & b) { return std::pair{a.second, a.first} < std::pair{b.second, b.first}; });
        return v;
    }();
    return names;
}
auto enumeration_names(crowd)
{
    std::unordered_map<std::string_view, crowd> m;
    for (auto & [n, v] : crowd_names())
        m.emplace(n, v);
    return m;
}
// Not an enumeration, and without order; not trivial.
struct shape
{
    std::string name{"square"};
    shape() = default;
    shape(char const * n) : name{n} {}
    friend bool operator==(shape const & x, shape const & y) { return x.name == y.name; }
};
template <typename T> // T can be a reference
    requires std::same_as<std::remove_cvref_t<T>, shape>
auto enumeration_names(std::type_identity<T>)
{
    return std::unordered_map<std::string_view, shape>{{"sq", shape{"square"}}, {"ci", shape{"circle"}}, {"quad", shape{"square"}}};
}
} // namespace mine

namespace
{
//!\brief What the harness knows about a type: names in the order of the error message and enumerators.
template <typename T>
struct Info;
template <>
struct Info<other::level>
{
    using L = other::level;
    static constexpr char const * title = "custom::parsing, aliases";
    static std::vector<std::pair<std::string, L>> names() { return {{"hi", L::high}, {"high", L::high}, {"0", L::low}, {"lo", L::low}, {"low", L::low}, {"mid", L::mid}}; }
    static std::vector<L> values() { return {L::high, L::low, L::mid}; }
    static std::vector<L> unnamed() { return {L::nameless}; }
    static std::string alphabet() { return "lowhimd07H"; }
};
template <>
struct Info<mine::colour>
{
    using C = mine::colour;
    static constexpr char const * title = "prefixes";
    static std::vector<std::pair<std::string, C>> names() { return {{"red", C::red}, {"reder", C::red}, {"re", C::green}, {"RED", C::blue}}; }
    static std::vector<C> values() { return {C::red, C::green, C::blue}; }
    static std::vector<C> unnamed() { return {C::nameless, C(77)}; }
    static std::string alphabet() { return "redRED "; }
};
template <>
struct Info<mine::part>
{
    using C = mine::part;
    static constexpr char const * title = "names without terminator";
    static std::vector<std::pair<std::string, C>> names() { return {{"one", C::one}, {"two", C::two}, {"three", C::three}}; }
    static std::vector<C> values() { return {C::one, C::two, C::three}; }
    static std::vector<C> unnamed() { return {C(0), C(51)}; }
    static std::string alphabet() { return "onetwhr1"; }
};
template <>
struct Info<mine::nothing>
{
    using C = mine::nothing;
    static constexpr char const * title = "no names";
    static std::vector<std::pair<std::string, C>> names() { return {}; }
    static std::vector<C> values() { return {}; }
    static std::vector<C> unnamed() { return {C::a}; }
    static std::string alphabet() { return "a0"; }
};
template <>
struct Info<mine::odd>
{
    using C = mine::odd;
    static constexpr char const * title = "special characters";
    static std::vector<std::pair<std::string, C>> names() { return {{"a b", C::a}, {"=", C::b}, {"x-", C::c}, {" ", C::d}, {"\xc3\xa4", C::e}}; }
    static std::vector<C> values() { return {C::a, C::b, C::c, C::d, C::e}; }
    static std::vector<C> unnamed() { return {C('f')}; }
    static std::string alphabet() { return std::string{"ab =x-"} + "\xc3\xa4"; }
};
template <>
struct Info<mine::crowd>
{
    using C = mine::crowd;
    static constexpr char const * title = "many names";
    static std::vector<std::pair<std::string, C>> const & names() { return mine::crowd_names(); }
    static std::vector<C> values()
    {
        std::vector<C> v;
        for (auto & [n, e] : names())
            if (v.empty() || v.back() != e)
                v.push_back(e);
        return v;
    }
    static std::vector<C> unnamed() { return {C(1000000), C(-4), C(int64_t{1} << 40), C(int64_t{1} << 62)}; }
    static std::string alphabet() { return "n0135"; }
};
template <>
struct Info<mine::shape>
{
    using C = mine::shape;
    static constexpr char const * title = "class type";
    static std::vector<std::pair<std::string, C>> names() { return {{"ci", "circle"}, {"quad", "square"}, {"sq", "square"}}; }
    static std::vector<C> values() { return {"circle", "square"}; }
    static std::vector<C> unnamed() { return {"triangle"}; }
    static std::string alphabet() { return "sqciuad"; }
};

template <typename T>
std::optional<T> lookup(std::string const & text)
{
    for (auto & [n, v] : Info<T>::names())
        if (n == text)
            return v;
    return {};
}
template <typename T>
std::string all_names()
{
    std::string r = "[";
    for (auto & [n, v] : Info<T>::names())
        r += (r.size() > 1 ? ", " : "") + n;
    return r + "]";
}
template <typename T>
std::string printed(T const & v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
std::string collapsed(std::string const & s)
{
    std::string r;
    for (char c : s)
        if (std::isspace(static_cast<unsigned char>(c)))
        {
            if (!r.empty() && r.back() != ' ')
                r += ' ';
        }
        else
            r += c;
    return r;
}
bool unique_message(std::string const & what, std::string const & text, std::string const & names)
{
    return what.find(text) != std::string::npos && what.find(names) != std::string::npos;
}

enum Notation
{
    short_space,
    short_glued,
    long_space,
    long_equals,
    positional,
    n_notations
};
std::vector<std::string> spelled(Notation n, std::string const & text)
{
    switch (n)
    {
    case short_space: return {"-c", text};
    case short_glued: return {"-c" + text};
    case long_space: return {"--col", text};
    case long_equals: return {"--col=" + text};
    default: return {"--", text};
    }
}

template <typename T>
void one_text(mc::Ctx & c, std::string const & text, Notation n)
{
    std::vector<std::string> args = spelled(n, text);
    if (!c.run())
        return;
    c.describe([&]() { return std::string{Info<T>::title} + ": " + mc::qv(args); });
    c.step(1);
    c.state(mc::hash_str(std::string{Info<T>::title} + ":" + text));
    args.insert(args.begin(), "app");
    T value = Info<T>::unnamed()[0]; // different from everything that can be given
    T const before = value;
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"App", args, sharg::update_notifications::off};
            if (n == positional)
                p.add_positional_option(value, sharg::config{});
            else
                p.add_option(value, sharg::config{.short_id = 'c', .long_id = "col"});
            p.parse();
        });
    bool const missing = text.empty() && (n == short_glued || n == long_equals);
    auto const want = lookup<T>(text);
    auto fail = [&](std::string const & m) { c.fail(m + ": " + std::string{Info<T>::title} + " " + mc::qv(args) + " gave " + mc::err_name(r.err) + " " + mc::q(r.what)); };
    if (missing)
    {
        c.outcome("no value");
        if (r.err != mc::Err::too_few_arguments)
            fail("a missing value is not reported");
        if (!(value == before))
            fail("value changed");
        return;
    }
    std::string t = text;
    if (n == short_glued && !t.empty() && t[0] == '=')
        return void(c.outcome("glued equals sign")); // notation -c=value, see C03
    if (want)
    {
        c.outcome("name");
        if (r.err != mc::Err::none || r.exited)
            return fail("a declared name is not accepted");
        if (!(value == *want))
            fail("wrong enumerator " + printed(value));
    }
    else
    {
        c.outcome("no name");
        if (r.err != mc::Err::user_input_error)
            return fail("a text that is no name is not rejected with user_input_error");
        if (!(value == before))
            fail("value changed");
        if (text.find(char{}) == text.npos && !unique_message(r.what, text, all_names<T>()))
            fail("the message does not list the names " + mc::q(all_names<T>()));
    }
}
template <typename T>
void texts(mc::Ctx & c, size_t max)
{
    std::string const alphabet = Info<T>::alphabet();
    Notation const n = Notation(c.choose(n_notations));
    std::string text;
    size_t const len = c.choose(max + 1);
    for (size_t k = 0; k < len; ++k)
        text += alphabet[c.choose(alphabet.size())];
    one_text<T>(c, text, n);
}
//!\brief All texts that are one or two edits away from a name, or combine two names.
template <typename T>
void neighbours(mc::Ctx & c, size_t edits)
{
    auto const names = Info<T>::names();
    if (names.empty())
        return void(c.choose(1));
    Notation const n = Notation(c.choose(n_notations));
    std::string text = names[c.choose(names.size())].first;
    std::string const alphabet = Info<T>::alphabet() + ", []";
    for (size_t e = 0; e < edits; ++e)
        switch (c.choose(6))
        {
        case 0: break;
        case 1:
            if (!text.empty())
                text.erase(c.choose(text.size()), 1);
            break;
        case 2:
        {
            size_t const at = c.choose(text.size() + 1);
            text.insert(at, 1, alphabet[c.choose(alphabet.size())]);
            break;
        }
        case 3:
            if (!text.empty())
            {
                size_t const at = c.choose(text.size());
                text[at] = alphabet[c.choose(alphabet.size())];
            }
            break;
        case 4: text += names[c.choose(names.size())].first; break;
        case 5:
            if (size_t const k = c.choose(text.size() + 1); k < text.size())
                text[k] ^= 0x20; // other case
            break;
        }
    if (text.find('\0') != std::string::npos)
        text = "0";
    one_text<T>(c, text, n);
}

//!\brief Every byte inserted or substituted anywhere in a name (also at both ends), and numbers instead of names.
template <typename T>
void bytes(mc::Ctx & c)
{
    auto const names = Info<T>::names();
    if (names.empty())
        return void(c.choose(1));
    Notation const n = Notation(c.choose(n_notations));
    size_t const kind = c.choose(4);
    std::string text;
    if (kind == 3)
        text = std::to_string(int(c.choose(320)) - 60);
    else
    {
        text = names[c.choose(names.size())].first;
        char const b = char(c.choose(256));
        if (kind == 0)
            text.insert(c.choose(text.size() + 1), 1, b);
        else if (kind == 1)
            text[c.choose(text.size())] = b;
        else
            text = b + text + b;
    }
    if (text == std::string(1, '\0')) // NUL cannot be part of a command line; a single one is not supported
        return;
    one_text<T>(c, text, n);
}

//!\brief Lists: every sequence of texts.
template <typename T>
void lists(mc::Ctx & c, size_t max)
{
    std::vector<std::string> menu{"nope"};
    for (auto & [n, v] : Info<T>::names())
        menu.push_back(n);
    bool const pos = c.flip();
    bool const defaults = c.flip();
    size_t const len = (pos ? 1 : 0) + c.choose(max + (pos ? 0 : 1));
    std::vector<std::string> given, args{"app"};
    for (size_t k = 0; k < len; ++k)
    {
        given.push_back(c.pick(menu));
        if (pos)
        {
            if (k == 0)
                args.push_back("--");
            args.push_back(given.back());
        }
        else
            for (auto & a : spelled(Notation(k % 4 == 1 ? 2 : k % 4), given.back()))
                args.push_back(a);
    }
    if (!c.run())
        return;
    c.describe([&]() { return std::string{Info<T>::title} + ": " + mc::qv(args); });
    c.step(len);
    c.state(mc::hash_str(std::string{Info<T>::title} + mc::qv(given)));
    std::vector<T> value, want;
    if (defaults)
        value = {Info<T>::unnamed()[0], Info<T>::unnamed()[0]};
    if (given.empty())
        want = value;
    bool ok = true, flag = false;
    if (!pos)
        args.push_back("-f"); // without any argument, a page is shown
    for (auto & t : given)
        if (auto v = lookup<T>(t))
            want.push_back(*v);
        else
            ok = false;
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"App", args, sharg::update_notifications::off};
            if (pos)
                p.add_positional_option(value, sharg::config{});
            else
            {
                p.add_option(value, sharg::config{.short_id = 'c', .long_id = "col"});
                p.add_flag(flag, sharg::config{.short_id = 'f'});
            }
            p.parse();
        });
    c.outcome(ok ? "names" : "no names");
    auto fail = [&](std::string const & m) { c.fail(m + ": " + std::string{Info<T>::title} + " " + mc::qv(args) + " gave " + mc::err_name(r.err) + " " + mc::q(r.what)); };
    if (ok && (r.err != mc::Err::none || r.exited))
        fail("names are not accepted");
    else if (ok && !(value == want))
        fail("wrong values " + sharg::detail::to_string(value) + " instead of " + sharg::detail::to_string(want));
    else if (!ok && r.err != mc::Err::user_input_error)
        fail("a text that is no name is accepted");
    else if (!ok && !unique_message(r.what, "nope", all_names<T>()))
        fail("the message does not list the names");
}

//!\brief value_list_validator with every sequence of enumerators, built in several ways.
template <typename T>
void validated(mc::Ctx & c, size_t max)
{
    auto const names = Info<T>::names();
    auto const values = Info<T>::values();
    size_t const kind = c.choose(4); // range, list of arguments, all values of the names, default constructed
    std::vector<T> allowed;
    std::optional<sharg::value_list_validator<T>> v;
    size_t const len = c.choose(kind < 2 ? max + 1 : 1);
    for (size_t k = 0; k < len; ++k)
        allowed.push_back(c.pick(values));
    size_t const use = c.choose(3); // option, positional, list
    std::vector<std::string> given;
    size_t const n_given = use == 2 ? 2 : 1;
    for (size_t k = 0; k < n_given; ++k)
        given.push_back(c.pick(names).first);
    bool const help = c.flip();
    if (!c.run())
        return;
    auto text = [&]() { return std::string{Info<T>::title} + ": validator kind " + std::to_string(kind) + " of " + sharg::detail::to_string(allowed) + " use " + std::to_string(use) + " " + mc::qv(given) + (help ? " --help" : ""); };
    c.describe(text);
    c.step(len + n_given);
    c.state(mc::hash_str(text()));
    if (kind == 0)
        v.emplace(allowed);
    else if (kind == 1)
        switch (len)
        {
        case 0: v.emplace(std::vector<T>{}); break;
        case 1: v.emplace(T{allowed[0]}); break;
        case 2: v.emplace(T{allowed[0]}, T{allowed[1]}); break;
        case 3: v.emplace(T{allowed[0]}, T{allowed[1]}, T{allowed[2]}); break;
        default: v.emplace(std::list<T>(allowed.begin(), allowed.end())); break;
        }
    else if (kind == 2)
    {
        v.emplace(sharg::enumeration_names<T> | std::views::values);
        for (auto & [n, x] : names)
            allowed.push_back(x);
    }
    else
        v.emplace();
    bool ok = true;
    for (auto & g : given)
        ok = ok && std::ranges::find(allowed, *lookup<T>(g)) != allowed.end();
    std::vector<std::string> args{"app"};
    if (help)
        args.push_back("--help");
    for (auto & g : given)
        for (auto & a : use == 1 ? std::vector<std::string>{"--", g} : spelled(long_equals, g))
            args.push_back(a);
    T value = *lookup<T>(names.back().first);
    std::vector<T> list_value{*lookup<T>(names.front().first), *lookup<T>(names.back().first)};
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"App", args, sharg::update_notifications::off};
            switch (use)
            {
            case 0: p.add_option(value, sharg::config{.short_id = 'c', .long_id = "col", .validator = *v}); break;
            case 1: p.add_positional_option(value, sharg::config{.validator = *v}); break;
            case 2: p.add_option(list_value, sharg::config{.short_id = 'c', .long_id = "col", .validator = *v}); break;
            }
            p.parse();
        });
    auto fail = [&](std::string const & m) { c.fail(m + ": " + text() + " gave " + mc::err_name(r.err) + " " + mc::q(r.what + r.out)); };
    if (help)
    {
        c.outcome("help");
        std::string const page = collapsed(r.out);
        // The values are shown by name; any name of the enumerator will do.
        auto name_at = [&](std::string_view & rest, T const & v)
        {
            std::string const n = printed(v);
            if (!lookup<T>(n) || !(*lookup<T>(n) == v) || !rest.starts_with(n))
                return false;
            rest.remove_prefix(n.size());
            return true;
        };
        auto shown = [&](std::string const & intro, std::vector<T> const & vs, bool any_order)
        {
            // Order of the values of an unordered map is not specified
            size_t const at = page.find(intro + "[");
            if (at == std::string::npos)
                return fail("the help page does not show " + mc::q(intro));
            std::string_view rest{page};
            rest.remove_prefix(at + intro.size() + 1);
            std::vector<T> left = vs;
            for (size_t k = 0; k < vs.size(); ++k)
            {
                if (k && rest.starts_with(", "))
                    rest.remove_prefix(2);
                else if (k && rest.starts_with(","))
                    rest.remove_prefix(1);
                else if (k)
                    return fail("the help page does not show the names");
                bool found = false;
                for (size_t m = 0; m < left.size() && !found; ++m)
                {
                    if (m && !any_order)
                        break;
                    std::string_view copy = rest;
                    if (name_at(copy, left[m]) && (copy.starts_with(",") || copy.starts_with("]")))
                    {
                        rest = copy;
                        left.erase(left.begin() + m);
                        found = true;
                    }
                }
                if (!found)
                    return fail("the help page does not show the names of the values");
            }
            if (!rest.starts_with("]"))
                fail("the help page shows more values");
        };
        if (!r.exited || r.code != 0)
            return fail("no help page");
        bool special = std::ranges::any_of(names, [](auto & n) { return n.first.find(' ') != std::string::npos; });
        if (special)
            return;
        shown("Value must be one of ", allowed, kind == 2);
        if (use == 2)
            shown("Default: ", list_value, false);
        if (use == 0)
        {
            size_t const at = page.find("Default: ");
            std::string_view rest{page};
            rest.remove_prefix(at == std::string::npos ? rest.size() : at + 9);
            if (!name_at(rest, value) || !rest.starts_with("."))
                fail("the help page does not show the default value by name");
        }
    }
    else if (ok)
    {
        c.outcome("accepted");
        if (r.err != mc::Err::none || r.exited)
            return fail("a listed value is not accepted");
        if (use == 2 ? !(list_value.size() == 2 && list_value[0] == *lookup<T>(given[0]) && list_value[1] == *lookup<T>(given[1]))
                     : !(value == *lookup<T>(given[0])))
            fail("wrong value");
    }
    else
    {
        c.outcome("rejected");
        if (r.err != mc::Err::validation_error)
            return fail("a value that is not listed is accepted");
        bool culprit = false;
        for (auto & g : given)
            if (auto const v = *lookup<T>(g); std::ranges::find(allowed, v) == allowed.end())
                culprit = culprit || r.what.find("Value " + printed(v) + " ") != std::string::npos;
        if (!culprit)
            fail("the message does not name the value");
        for (auto & a : allowed)
            if (r.what.find(printed(a)) == std::string::npos)
                fail("the message does not name the listed values");
    }
}

template <typename T>
void printing(mc::Ctx & c)
{
    auto values = Info<T>::values();
    size_t const n_named = values.size();
    for (auto & u : Info<T>::unnamed())
        values.push_back(u);
    size_t const k = c.choose(values.size());
    size_t const how = c.choose(4); // const, non const, temporary, list
    if (!c.run())
        return;
    c.describe([&]() { return std::string{Info<T>::title} + ": value " + std::to_string(k); });
    c.step(1);
    c.state(mc::hash_str(std::string{Info<T>::title} + std::to_string(k)));
    T v = values[k];
    std::ostringstream o;
    switch (how)
    {
    case 0: o << std::as_const(v); break;
    case 1: o << v; break;
    case 2: o << T{v}; break;
    case 3: o << sharg::detail::to_string(std::vector<T>{v}); break;
    }
    std::string s = o.str();
    if (how == 3)
    {
        if (s.size() < 2 || s.front() != '[' || s.back() != ']')
            return c.fail("list printed as " + mc::q(s));
        s = s.substr(1, s.size() - 2);
    }
    c.outcome(k < n_named ? "named" : "nameless");
    if (k < n_named)
    {
        auto const back = lookup<T>(s);
        if (!back || !(*back == v))
            c.fail(std::string{Info<T>::title} + ": value " + std::to_string(k) + " is printed as " + mc::q(s));
        T parsed = Info<T>::unnamed()[0];
        auto r = mc::call(
            [&]()
            {
                std::vector<std::string> const args{"app", "--col=" + s};
                sharg::parser p{"App", args, sharg::update_notifications::off};
                p.add_option(parsed, sharg::config{.long_id = "col"});
                p.parse();
            });
        if (r.err != mc::Err::none || !(parsed == v))
            c.fail(std::string{Info<T>::title} + ": the printed name " + mc::q(s) + " does not parse back");
    }
    else if (lookup<T>(s) || s.empty())
        c.fail(std::string{Info<T>::title} + ": a value without name is printed as " + mc::q(s));
}

template <typename T>
void add_sections(size_t len, size_t edits, size_t list_len, size_t valid_len)
{
    std::string const t = Info<T>::title;
    mc::add_section("C20/texts/" + t, [=](mc::Ctx & c) { texts<T>(c, len); });
    mc::add_section("C20/printing/" + t, printing<T>);
    mc::add_section("C20/lists/" + t, [=](mc::Ctx & c) { lists<T>(c, list_len); });
    if (Info<T>::names().size() > 20)
        mc::add_section("C20/ends of names/" + t,
                        [](mc::Ctx & c)
                        {
                            auto const & names = Info<T>::names();
                            Notation const n = Notation(c.choose(n_notations));
                            std::string text = names[c.choose(names.size())].first;
                            switch (c.choose(8))
                            {
                            case 0: text.pop_back(); break;
                            case 1: text.erase(0, 1); break;
                            case 2: text += "0"; break;
                            case 3: text.insert(0, "n"); break;
                            case 4: text.back() = text.back() == '9' ? '0' : text.back() + 1; break;
                            case 5: text[0] ^= 0x20; break;
                            case 6: text.erase(text.size() / 2, 1); break;
                            case 7: text += "," + names[0].first; break;
                            }
                            one_text<T>(c, text, n);
                        });
    else if (!Info<T>::names().empty())
    {
        mc::add_section("C20/bytes/" + t, bytes<T>);
        mc::add_section("C20/neighbours/" + t, [=](mc::Ctx & c) { neighbours<T>(c, edits); });
        mc::add_section("C20/validators/" + t, [=](mc::Ctx & c) { validated<T>(c, valid_len); });
    }
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    size_t const more = mc::thorough ? 1 : 0;
    add_sections<mine::colour>(6 + more, 2 + more, 4 + more, 4);
    add_sections<other::level>(5 + more, 2 + more, 4, 4);
    add_sections<mine::part>(5 + more, 2 + more, 4 + more, 4);
    add_sections<mine::odd>(5 + more, 2 + more, 4 + more, 4);
    add_sections<mine::shape>(5 + more, 2 + more, 4 + more, 4);
    add_sections<mine::crowd>(3 + more, 1, 1 + more, 0);
    add_sections<mine::nothing>(4, 1, 3, 3);
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
