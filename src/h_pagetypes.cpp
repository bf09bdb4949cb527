// C14: the entries of the pages for every type of value.
#include "pages.hpp"

namespace page_types
{
enum class fruit
{
    apple,
    pear,
    unnamed
};
auto enumeration_names(fruit) { return std::unordered_map<std::string_view, fruit>{{"apple", fruit::apple}, {"pear", fruit::pear}}; }
struct point
{
    int x{}, y{};
    friend std::istream & operator>>(std::istream & is, point & p) { return is >> p.x >> p.y; }
    friend std::ostream & operator<<(std::ostream & os, point const & p) { return os << p.x << '/' << p.y; }
};
template <typename T>
struct silent // a validator without a message
{
    using option_value_type = T;
    void operator()(T const &) const {}
    std::string get_help_page_message() const { return ""; }
};
template <typename T>
struct talking
{
    using option_value_type = T;
    void operator()(T const &) const {}
    std::string get_help_page_message() const { return "Any \\fBnumber\\fP but 3"; }
};
} // namespace page_types

namespace
{
using namespace pages;

// Every type of value with several default values, as option and positional option.
template <typename T>
constexpr bool is_list = false;
template <typename T>
constexpr bool is_list<std::vector<T>> = true;
template <typename T>
constexpr bool is_list<std::deque<T>> = true;
template <typename T>
constexpr bool is_list<std::list<T>> = true;
template <typename T>
void typed(std::string type, std::vector<std::pair<T, std::string>> defaults)
{
    mc::add_section(
        "C14/types/" + type,
        [=](mc::Ctx & c)
        {
            size_t const kind = c.choose(5);      // optional, required, with default message, positional, hidden
            size_t const validator = c.choose(3); // none, without and with message
            size_t const which = c.choose(defaults.size());
            bool const advanced = kind != 3 && c.flip();
            bool const described = c.flip();
            size_t const around = c.choose(3); // nothing, something before, something behind
            Format const f = Format(c.choose(4));
            if (!c.run())
                return;
            T value = defaults[which].first;
            auto text = [&]()
            {
                return std::string{format_names[f]} + " " + type + " default " + defaults[which].second + " kind " + std::to_string(kind) + " validator "
                     + std::to_string(validator) + " around " + std::to_string(around) + (advanced ? " advanced" : "") + (described ? "" : " without description");
            };
            c.describe(text);
            c.step();
            c.state(mc::hash_str(text()));
            Declaration d;
            d.meta.app_name = "App";
            d.meta.version = "1.0.0";
            std::vector<std::string> args{"app"};
            for (auto & a : request(f))
                args.push_back(a);
            sharg::parser p{"App", args, sharg::update_notifications::off};
            p.info = d.meta;
            int other{9}, last{};
            auto add_other = [&]()
            {
                if (kind == 3)
                {
                    if (around == 2)
                        return; // nothing may follow a positional list
                    p.add_positional_option(last, sharg::config{.description = "Last."});
                    d.entries.push_back({D, "", "Last.", false, false, true, "(\\fIsigned 32 bit integer\\fP)"});
                    return;
                }
                p.add_option(other, sharg::config{.long_id = "other", .description = "Other."});
                d.entries.push_back({D, bold("--other") + " (\\fIsigned 32 bit integer\\fP)", "Other. Default: 9"});
            };
            if (around == 1)
                add_other();
            std::string const description = described ? "Some text." : "";
            std::string const type_text = is_list<T> ? "(\\fIList\\fP of \\fI" + type.substr(0, type.find(',')) + "\\fP)" : "(\\fI" + type + "\\fP)";
            std::string want = description;
            if (kind == 0 || kind == 4 || (kind == 3 && is_list<T>))
                want += " Default: " + defaults[which].second;
            if (kind == 2)
                want += std::same_as<T, std::string> || std::same_as<T, std::filesystem::path> ? " Default: \"the usual\"" : " Default: the usual";
            if (validator == 2)
                want += ". Any \\fBnumber\\fP but 3";
            auto add = [&](auto config)
            {
                if (kind == 3)
                    p.add_positional_option(value, config);
                else
                {
                    config.short_id = 't';
                    config.long_id = "the-option";
                    config.required = kind == 1;
                    config.default_message = kind == 2 ? "the usual" : "";
                    config.advanced = advanced;
                    config.hidden = kind == 4;
                    p.add_option(value, config);
                }
            };
            auto with = [&](auto element)
            {
                using V = decltype(element);
                if (validator == 0)
                    add(sharg::config{.description = description});
                else if (validator == 1)
                    add(sharg::config{.description = description, .validator = page_types::silent<V>{}});
                else
                    add(sharg::config{.description = description, .validator = page_types::talking<V>{}});
            };
            with(T{});
            if (kind == 3)
                d.entries.push_back({D, "", want, false, false, true, type_text});
            else
                d.entries.push_back({D, bold("-t") + ", " + bold("--the-option") + " " + type_text, want, advanced, kind == 4});
            if (around == 2)
                add_other();
            auto const problems = check_page(p, d, f, false);
            c.outcome(format_names[f]);
            if (!problems.empty())
                c.fail(problems + "\n  declaration: " + text());
        });
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    typed<int8_t>("signed 8 bit integer", {{0, "0"}, {-128, "-128"}, {65, "65"}, {10, "10"}});
    typed<uint8_t>("unsigned 8 bit integer", {{0, "0"}, {255, "255"}, {65, "65"}});
    typed<int16_t>("signed 16 bit integer", {{0, "0"}, {-32768, "-32768"}, {65, "65"}});
    typed<uint16_t>("unsigned 16 bit integer", {{0, "0"}, {65535, "65535"}});
    typed<int32_t>("signed 32 bit integer", {{0, "0"}, {-2147483647 - 1, "-2147483648"}, {1000000, "1000000"}});
    typed<uint32_t>("unsigned 32 bit integer", {{0, "0"}, {4294967295u, "4294967295"}});
    typed<int64_t>("signed 64 bit integer", {{0, "0"}, {std::numeric_limits<int64_t>::min(), "-9223372036854775808"}});
    typed<uint64_t>("unsigned 64 bit integer", {{0, "0"}, {18446744073709551615u, "18446744073709551615"}});
    typed<double>("double", {{0, "0"}, {-0.5, "-0.5"}, {100000, "100000"}, {1e-9, "1e-09"}, {1e20, "1e+20"}, {INFINITY, "inf"}});
    typed<float>("float", {{0, "0"}, {2.25f, "2.25"}});
    typed<bool>("bool", {{false, "0"}, {true, "1"}});
    typed<std::string>("std::string", {{"", "\"\""}, {"x", "\"x\""}, {"a b", "\"a b\""}, {"with \"", "\"with \\\"\""}});
    typed<std::filesystem::path>("std::filesystem::path", {{"", "\"\""}, {"a/b c", "\"a/b c\""}});
    typed<page_types::fruit>("page_types::fruit", {{page_types::fruit::apple, "apple"}, {page_types::fruit::pear, "pear"}, {page_types::fruit::unnamed, "<UNKNOWN_VALUE>"}});
    typed<page_types::point>("page_types::point", {{{}, "0/0"}, {{1, -2}, "1/-2"}});
    typed<std::vector<int>>("signed 32 bit integer, vector", {{{}, "[]"}, {{0}, "[0]"}, {{1, 2, -3}, "[1, 2, -3]"}});
    typed<std::vector<uint8_t>>("unsigned 8 bit integer, vector", {{{}, "[]"}, {{65}, "[65]"}, {{0, 255}, "[0, 255]"}});
    typed<std::vector<bool>>("bool, vector", {{{}, "[]"}, {{true}, "[1]"}, {{false, true}, "[0, 1]"}});
    typed<std::vector<double>>("double, vector", {{{}, "[]"}, {{1.5, 2}, "[1.5, 2]"}});
    typed<std::vector<std::string>>("std::string, vector", {{{}, "[]"}, {{""}, "[\"\"]"}, {{"a", "b c"}, "[\"a\", \"b c\"]"}});
    typed<std::vector<std::filesystem::path>>("std::filesystem::path, vector", {{{}, "[]"}, {{"/a", "b"}, "[\"/a\", \"b\"]"}});
    typed<std::vector<page_types::fruit>>("page_types::fruit, vector", {{{}, "[]"}, {{page_types::fruit::pear, page_types::fruit::apple}, "[pear, apple]"}});
    typed<std::deque<int>>("signed 32 bit integer, deque", {{{}, "[]"}, {{7, 8}, "[7, 8]"}});
    typed<std::list<std::string>>("std::string, list", {{{}, "[]"}, {{"x", "y"}, "[\"x\", \"y\"]"}});
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
