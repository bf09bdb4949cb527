// Small uses of the library for the properties about the independence of parsers.
#pragma once
#include "sharg_env.hpp"

namespace
{
enum class colour
{
    red,
    green
};
auto enumeration_names(colour) { return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"green", colour::green}}; }

// Small uses of the library that differ in one parameter only: whatever is remembered from one use must not reach the next one.
template <typename value_t, typename validator_t>
std::string use(std::vector<std::string> args, value_t value, validator_t validator, char short_id = 'v', std::string long_id = "value", std::string name = "app",
                std::string description = "description")
{
    args.insert(args.begin(), "./" + name);
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{name, args, sharg::update_notifications::off};
            p.info.version = "1.0";
            p.add_option(value, sharg::config{.short_id = short_id, .long_id = long_id, .description = description, .validator = std::move(validator)});
            p.parse();
            for (std::string id : {"value", "other", "valu_", long_id.c_str()})
                std::cout << mc::err_name(mc::call([&]() { std::cout << p.is_option_set(id); }).err);
            std::cout << p.is_option_set(short_id);
        });
    std::ostringstream o;
    o << (r.exited ? "exit " : mc::err_name(r.err)) << " " << r.what << " " << r.out << r.errout << " = " << sharg::detail::to_string(value);
    return o.str();
}
// A parser with everything: flags, positional options, sections, advanced and hidden ones; the variants differ in how many of them.
std::string full_use(std::vector<std::string> args, unsigned variant)
{
    args.insert(args.begin(), "./app");
    int a{1}, b{2}, adv{3};
    bool f{}, g{};
    std::vector<std::string> rest{};
    std::string name;
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"app", args, sharg::update_notifications::off};
            p.info.author = "Somebody";
            p.info.synopsis = {"./app [-f] NUMBER"};
            p.info.description = {"About it.", "More \\fIabout\\fP it."};
            if (variant & 1)
                p.info.examples = {"./app 1", "./app 2"};
            p.add_positional_option(a, sharg::config{.description = "First."});
            if (variant & 2)
                p.add_positional_option(b, sharg::config{.description = "Second.", .validator = sharg::arithmetic_range_validator{0, 9}});
            if (variant & 1)
                p.add_positional_option(rest, sharg::config{.description = "Rest."});
            p.add_section("Section", variant & 2);
            p.add_flag(f, sharg::config{.short_id = 'f', .long_id = "flag", .description = "A flag."});
            p.add_subsection("Subsection");
            p.add_flag(g, sharg::config{.short_id = 'g', .long_id = "", .description = "Another flag.", .hidden = bool(variant & 1)});
            p.add_line("A line.", variant & 2);
            p.add_list_item("Key", "Item.");
            p.add_option(adv, sharg::config{.short_id = 'a', .long_id = "adv", .description = "Advanced.", .advanced = true, .required = bool(variant & 1)});
            p.parse();
            for (std::string id : {"f", "g", "flag", "adv"})
                std::cout << p.is_option_set(id);
        });
    std::ostringstream o;
    o << (r.exited ? "exit " : mc::err_name(r.err)) << " " << r.what << " " << r.out << r.errout << " = " << a << b << adv << f << g << sharg::detail::to_string(rest);
    return o.str();
}
enum class fruit
{
    apple,
    berry
};
auto enumeration_names(fruit) { return std::unordered_map<std::string_view, fruit>{{"apple", fruit::apple}, {"berry", fruit::berry}}; }

struct Use
{
    std::string name;
    std::function<std::string()> fn;
};
std::vector<Use> const & uses()
{
    static std::vector<Use> const all = []()
    {
        std::vector<Use> u;
        using sharg::detail::default_validator;
        auto add = [&](std::string name, std::function<std::string()> fn) { u.push_back({name, fn}); };
        // validators of the same type with parameters of the same size
        for (std::string pattern : {"[a-m]+", "[n-z]+", "[a-z]+", "[0-9]+", "a", ".*"})
            for (std::string value : {"abc", "xyz"})
                add("regex " + pattern + " " + value, [=]() { return use({"-v", value}, std::string{}, sharg::regex_validator{pattern}); });
        for (int from : {1, 2, 5})
            for (std::string value : {"1", "6"})
                add("range " + std::to_string(from) + " " + value,
                    [=]() { return use({"-v", value}, 3, sharg::arithmetic_range_validator{from, from + 3}); });
        for (std::string last : {"cc", "dd"})
            for (std::string value : {"cc", "dd"})
                add("list " + last + " " + value,
                    [=]() { return use({"--value", value}, std::string{}, sharg::value_list_validator{std::vector<std::string>{"aa", last}}); });
        for (std::string ext : {"txt", "csv", "gz"})
            for (std::string file : {"in.txt", "in.csv", "none.txt"})
                add("input file " + ext + " " + file,
                    [=]()
                    {
                        std::string const dir = mc::scratch_dir + "/uses";
                        std::filesystem::create_directories(dir);
                        for (auto f : {"/in.txt", "/in.csv"})
                            if (!std::filesystem::exists(dir + f))
                                std::ofstream{dir + f} << "x";
                        return use({"--value=" + dir + "/" + file}, std::filesystem::path{}, sharg::input_file_validator{std::vector<std::string>{ext}});
                    });
        // values of different types with the same text, and different texts for the same type
        for (std::string value : {"1", "7", "300", "1.5", "x", "1x"})
        {
            add("int " + value, [=]() { return use({"-v", value}, 0, default_validator{}); });
            add("u8 " + value, [=]() { return use({"-v", value}, uint8_t{}, default_validator{}); });
            add("double " + value, [=]() { return use({"-v", value}, 0.0, default_validator{}); });
            add("list of int " + value, [=]() { return use({"-v", value, "--value", value}, std::vector<int>{4}, default_validator{}); });
        }
        for (std::string value : {"red", "apple", "rad"})
        {
            add("colour " + value, [=]() { return use({"-v", value}, colour{}, default_validator{}); });
            add("fruit " + value, [=]() { return use({"-v", value}, fruit{}, default_validator{}); });
        }
        // other identifiers
        for (char short_id : {'v', 'w'})
            for (std::string long_id : {"value", "other", "valu_"})
                for (std::vector<std::string> args : std::vector<std::vector<std::string>>{{"-v", "1"}, {"--value=2"}, {"--other", "3"}, {"--valu_=4"}})
                    if (long_id != "valu_" || short_id == 'v')
                        add(std::string{"identifiers "} + short_id + long_id + " " + args[0],
                            [=]() { return use(args, std::string{}, default_validator{}, short_id, long_id); });
        // pages of different parsers
        for (std::string page : {"--help", "--export-help=html", "--export-help=man", "--version", "--copyright"})
            for (std::string name : {"app", "bpp"})
                for (std::string text : {"\\fBsome", "\\fPword", "text with <b> & \\"})
                    if (page != "--version" || text[0] == 't')
                        add("page " + page + " " + name + " " + text,
                            [=]() { return use({page}, 1, sharg::arithmetic_range_validator{1, int(text.size())}, 'v', "value", name, text); });
        for (std::string page : {"-h", "-hh", "--export-help=html", "--export-help=man"})
            for (unsigned variant = 0; variant < 4; ++variant)
                add("full " + page + " " + std::to_string(variant), [=]() { return full_use({page}, variant); });
        for (std::vector<std::string> args : std::vector<std::vector<std::string>>{{"1"}, {"1", "2"}, {"x", "2"}, {"1", "x"}, {"3", "-fg", "4", "5", "-a", "2"},
                                                                                   {"--flag", "7", "8", "9", "--adv=1"}, {"-ff", "1"}, {"1", "-fa"}, {"1", "22", "--adv", "4"}})
            for (unsigned variant = 1; variant < 4; ++variant)
                add("full " + args[0] + " " + args.back() + " " + std::to_string(variant), [=]() { return full_use(args, variant); });
        for (unsigned width : {0u, 50u, 100u})
            add("page at width " + std::to_string(width),
                [=]()
                {
                    mc::term_width = width;
                    mc::tty_out = width == 50;
                    auto r = use({"-h"}, 1, default_validator{}, 'v', "value", "app", "a rather long description of the option that does not fit on a line at any width that is used here");
                    mc::term_width = 0;
                    mc::tty_out = false;
                    return r;
                });
        // subcommands
        for (std::vector<std::string> names : std::vector<std::vector<std::string>>{{"build", "query"}, {"merge", "query"}, {"query", "zzzzz"}})
            for (std::string arg : {"build", "query", "merge", "-h"})
                add("subcommands " + names[0] + " " + arg,
                    [=]()
                    {
                        auto r = mc::call(
                            [&]()
                            {
                                sharg::parser p{"app", std::vector<std::string>{"./app", arg, "-v", "4"}, sharg::update_notifications::off, names};
                                p.parse();
                                auto & s = p.get_sub_parser();
                                int v{};
                                s.add_option(v, sharg::config{.short_id = 'v', .validator = sharg::arithmetic_range_validator{1, names[0] == "merge" ? 3 : 5}});
                                s.parse();
                                std::cout << s.info.app_name << v;
                            });
                        return std::string{mc::err_name(r.err)} + r.what + r.out;
                    });
        return u;
    }();
    return all;
}
} // namespace
