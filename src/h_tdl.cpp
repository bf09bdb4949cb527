// C23: what the parser hands to the tool description library for --export-help ctd and cwl.
//
// Built with a stand-in for the library (src/tdl_stub) that prints what it is given, and (SHARG_HAS_TDL=0) without the library.
#include "sharg_env.hpp"

namespace tdl_types
{
enum class fruit
{
    apple,
    pear
};
auto enumeration_names(fruit) { return std::unordered_map<std::string_view, fruit>{{"apple", fruit::apple}, {"pear", fruit::pear}}; }
} // namespace tdl_types

namespace
{
struct Expected
{
    std::string name, value, description; // value: type and default in the notation of the stand-in
    std::set<std::string> tags;
    std::string identifier; // as used on the command line; empty for positional options and flags
    bool hidden{false}, positional{false};
};
struct Store
{
    int i{5};
    uint8_t u{65};
    int64_t big{-9000000000};
    double d{1.5};
    float f{-0.25f};
    bool b{true}, flag{false};
    std::string s{"st r"};
    std::filesystem::path p{"some/a path"};
    tdl_types::fruit e{tdl_types::fruit::pear};
    std::vector<int> vi{3, 4};
    std::vector<std::string> vs{};
};
size_t const n_recipes = 30;
int positional_kind(size_t r) { return r == 20 || r == 22 || r == 23 ? 1 : r == 21 || r == 24 ? 2 : 0; }

Expected declare(size_t r, size_t k, sharg::parser & p, Store & v)
{
    char const s = char('a' + k);
    std::string const l = "option-" + std::to_string(k), text = "Text " + std::to_string(r) + "<\"" + std::to_string(k);
    Expected e;
    e.name = l;
    e.identifier = "--" + l;
    e.description = text;
    std::string const input = "The input file must exist and read permissions must be granted.";
    switch (r)
    {
    case 0:
        p.add_option(v.i, sharg::config{.short_id = s, .long_id = l, .description = text});
        e.value = "int 5";
        e.description += " Default: 5";
        break;
    case 1:
        p.add_option(v.u, sharg::config{.long_id = l, .description = text, .advanced = true});
        e.value = "int 65";
        e.description += " Default: 65";
        e.tags = {"advanced"};
        break;
    case 2:
        p.add_option(v.big, sharg::config{.long_id = l, .description = text, .default_message = "a lot"});
        e.value = "int -9000000000";
        e.description += " Default: a lot";
        break;
    case 3:
        p.add_option(v.d, sharg::config{.long_id = l, .description = text, .validator = sharg::arithmetic_range_validator{1.0, 2.0}});
        e.value = "double 1.500000";
        e.description += " Default: 1.5. Value must be in range [1.000000,2.000000].";
        break;
    case 4:
        p.add_option(v.f, sharg::config{.long_id = l, .description = text, .required = true});
        e.value = "double -0.250000";
        e.tags = {"required"};
        break;
    case 5:
        p.add_option(v.b, sharg::config{.short_id = s, .long_id = l, .description = text});
        e.value = "bool true";
        e.description += " Default: 1";
        break;
    case 6:
        p.add_option(v.s, sharg::config{.long_id = l, .description = text, .validator = sharg::value_list_validator{"st r", "x"}});
        e.value = "string <st r>";
        e.description += " Default: \"st r\". Value must be one of [st r, x].";
        break;
    case 7:
        p.add_option(v.s, sharg::config{.long_id = l, .description = text, .advanced = true, .required = true});
        e.value = "string <st r>";
        e.tags = {"advanced", "required"};
        break;
    case 8:
        p.add_option(v.s, sharg::config{.long_id = l, .description = text, .hidden = true});
        e.hidden = true;
        break;
    case 9:
        p.add_option(v.p, sharg::config{.long_id = l, .description = text});
        e.value = "string <some/a path>";
        e.description += " Default: \"some/a path\"";
        break;
    case 10:
        p.add_option(v.p, sharg::config{.long_id = l, .description = text, .required = true, .validator = sharg::input_file_validator{}});
        e.value = "string <some/a path>";
        e.description += ". " + input;
        e.tags = {"file", "required"};
        break;
    case 11:
        p.add_option(v.p, sharg::config{.long_id = l, .description = text, .validator = sharg::output_file_validator{}});
        e.value = "string <some/a path>";
        e.description += " Default: \"some/a path\". The output file must not exist already and write permissions must be granted.";
        e.tags = {"file", "output"};
        break;
    case 12:
        p.add_option(v.p, sharg::config{.long_id = l, .description = text, .validator = sharg::input_directory_validator{}});
        e.value = "string <some/a path>";
        e.description += " Default: \"some/a path\". An existing, readable path for the input directory.";
        e.tags = {"directory"};
        break;
    case 13:
        p.add_option(v.p, sharg::config{.long_id = l, .description = text, .advanced = true, .validator = sharg::output_directory_validator{}});
        e.value = "string <some/a path>";
        e.description += " Default: \"some/a path\". A valid path for the output directory.";
        e.tags = {"directory", "output", "advanced"};
        break;
    case 14:
        p.add_option(v.p, sharg::config{.long_id = l, .description = text, .hidden = true, .validator = sharg::input_file_validator{}});
        e.hidden = true;
        break;
    case 15:
        p.add_option(v.e, sharg::config{.long_id = l, .description = text});
        e.value = "string <pear>";
        e.description += " Default: pear";
        break;
    case 16:
    case 17:
        p.add_flag(v.flag, sharg::config{.short_id = r == 16 ? s : '\0', .long_id = l, .description = text});
        e.value = "bool false";
        e.identifier = "";
        break;
    case 18:
        p.add_flag(v.flag, sharg::config{.long_id = l, .description = text, .advanced = true});
        e.value = "bool false";
        e.tags = {"advanced"};
        e.identifier = "";
        break;
    case 19:
        p.add_flag(v.flag, sharg::config{.long_id = l, .description = text, .hidden = true});
        e.hidden = true;
        break;
    case 20:
        p.add_positional_option(v.i, sharg::config{.description = text});
        e.positional = true;
        e.value = "string <>";
        e.tags = {"required"};
        break;
    case 21:
        p.add_positional_option(v.vi, sharg::config{.description = text});
        e.positional = true;
        e.value = "list of string []";
        e.description += " Default: [3, 4]";
        break;
    case 22:
        p.add_positional_option(v.p, sharg::config{.description = text, .validator = sharg::input_file_validator{}});
        e.positional = true;
        e.value = "string <>";
        e.description += ". " + input;
        e.tags = {"required"};
        break;
    case 23:
        p.add_positional_option(v.e, sharg::config{.description = text});
        e.positional = true;
        e.value = "string <>";
        e.tags = {"required"};
        break;
    case 24:
        p.add_positional_option(v.vs, sharg::config{.description = text});
        e.positional = true;
        e.value = "list of string []";
        e.description += " Default: []";
        break;
    case 25: // only a short identifier
        p.add_option(v.i, sharg::config{.short_id = s, .description = text});
        e.name = std::string{s};
        e.identifier = std::string{'-', s};
        e.value = "int 5";
        e.description += " Default: 5";
        break;
    case 26:
        p.add_option(v.p, sharg::config{.short_id = s, .description = text});
        e.name = std::string{s};
        e.identifier = std::string{'-', s};
        e.value = "string <some/a path>";
        e.description += " Default: \"some/a path\"";
        break;
    case 27:
        p.add_flag(v.flag, sharg::config{.short_id = s, .description = text});
        e.name = std::string{s};
        e.value = "bool false";
        e.identifier = "";
        break;
    case 28: // things that are not part of the description
        p.add_section("Section");
        p.add_subsection("Subsection");
        e.hidden = true;
        break;
    case 29:
        p.add_line("A line", true);
        p.add_list_item("key", "item");
        e.hidden = true;
        break;
    }
    return e;
}

std::string expected_page(std::string const & format, sharg::parser_meta_data const & m, std::vector<std::string> const & command, std::vector<Expected> const & all)
{
    std::string description;
    for (auto & l : m.description)
        description += l + "\n";
    std::string r = format + "\nversion <" + m.version + "> name <" + m.app_name + "> url <" + m.url + "> executable <" + command[0] + "> description <"
                  + description + ">\n";
    std::string indent;
    for (size_t k = 1; k < command.size(); ++k)
    {
        r += indent + "param <" + command[k] + "> node tags basecommand description <>\n";
        indent += "  ";
    }
    auto print = [&](Expected const & e, std::string const & name)
    {
        r += indent + "param <" + name + "> " + e.value + " tags";
        for (auto & t : e.tags)
            r += " " + t;
        r += " description <" + e.description + ">\n";
    };
    size_t n = 0;
    for (auto & e : all)
        if (e.positional)
            print(e, "positional_" + std::to_string(n++));
    for (auto & e : all)
        if (!e.positional && !e.hidden)
            print(e, e.name);
    for (auto & e : all)
        if (!e.hidden && !e.positional && !e.identifier.empty())
            r += "map <" + e.identifier + "> <" + e.name + ">\n";
    return r;
}
std::string difference(std::string const & want, std::string const & got)
{
    std::istringstream w{want}, g{got};
    std::string a, b;
    for (int line = 0;; ++line)
    {
        bool const x = bool(std::getline(w, a)), y = bool(std::getline(g, b));
        if (!x && !y)
            return "";
        if (x != y || a != b)
            return "expected " + (x ? mc::q(a) : "the end") + " got " + (y ? mc::q(b) : "the end");
    }
}
std::string strip(std::string s)
{
    while (s.ends_with('\n'))
        s.pop_back();
    return s + "\n";
}

void declarations(mc::Ctx & c, size_t max)
{
    size_t const n = c.choose(max + 1);
    std::vector<size_t> seq;
    bool list = false, ok = true;
    for (size_t k = 0; k < n; ++k)
    {
        seq.push_back(c.choose(n_recipes));
        ok = ok && !(list && positional_kind(seq.back()));
        list = list || positional_kind(seq.back()) == 2;
    }
    bool const cwl = c.flip();
    size_t const depth = n < 3 ? c.choose(4) : 0; // of subcommands
    if (!ok || !c.run())
        return;
    auto text = [&]()
    {
        std::string t = cwl ? "cwl" : "ctd";
        for (size_t r : seq)
            t += " " + std::to_string(r);
        return t + " depth " + std::to_string(depth);
    };
    c.describe(text);
    c.step(n + 1);
    c.state(mc::hash_str(text()));
    c.outcome(cwl ? "cwl" : "ctd");
    static std::vector<std::string> const names{"build", "sub", "x-y"};
    std::vector<std::string> args{"./app"}, command{"./app"};
    for (size_t k = 0; k < depth; ++k)
        args.push_back(names[k]), command.push_back(names[k]);
    args.insert(args.end(), {"--export-help", cwl ? "cwl" : "ctd"});
    std::vector<Expected> all;
    std::vector<Store> v(n);
    auto const before = v;
    sharg::parser_meta_data meta;
    auto r = mc::call(
        [&]()
        {
            sharg::parser top{"app", args, sharg::update_notifications::off};
            sharg::parser * p = &top;
            for (size_t k = 0; k < depth; ++k)
            {
                p->add_subcommands({names[k], "other"});
                p->parse();
                p = &p->get_sub_parser();
            }
            p->info.version = "1.2.3";
            p->info.url = "https://url";
            p->info.description = {"First", "second & last"};
            p->info.author = "Nobody";
            p->info.short_description = "short";
            for (size_t k = 0; k < n; ++k)
                all.push_back(declare(seq[k], k, *p, v[k]));
            meta = p->info;
            p->parse();
        });
    if (!r.exited || r.code != 0)
        return c.fail(std::string{"no page but "} + mc::err_name(r.err) + " " + r.what + "\n  " + text());
    if (!r.errout.empty())
        return c.fail("text on standard error\n  " + text());
    if (auto const d = difference(strip(expected_page(cwl ? "CWL" : "CTD", meta, command, all)), strip(r.out)); !d.empty())
        c.fail(d + "\n  declarations: " + text());
    for (size_t k = 0; k < n; ++k)
        if (v[k].i != before[k].i || v[k].s != before[k].s || v[k].p != before[k].p || v[k].flag != before[k].flag || v[k].vi != before[k].vi)
            c.fail("a variable is changed\n  " + text());
}

void metadata(mc::Ctx & c)
{
    unsigned const set = c.choose(1 << 8);
    bool const cwl = c.flip();
    if (!c.run())
        return;
    c.describe([&]() { return std::to_string(set); });
    c.step();
    c.state(set * 2 + cwl);
    c.outcome("metadata");
    auto has = [&](int b) { return (set >> b) & 1; };
    sharg::parser p{"The-App_1", std::vector<std::string>{has(7) ? "/usr/bin/x y" : "app", "--export-help", cwl ? "cwl" : "ctd"}, sharg::update_notifications::off};
    if (has(0))
        p.info.version = "2.0.1";
    if (has(1))
        p.info.url = "https://u/r?l=1&x";
    if (has(2))
        p.info.description = {"One.", "\\fBTwo\\fP.", ""};
    if (has(3))
        p.info.author = "A", p.info.email = "E", p.info.citation = "C";
    if (has(4))
        p.info.short_description = "short", p.info.date = "today";
    if (has(5))
        p.info.synopsis = {"syn"}, p.info.examples = {"ex"};
    if (has(6))
        p.info.short_copyright = "sc", p.info.long_copyright = "lc", p.info.man_page_title = "t";
    sharg::parser_meta_data m = p.info;
    auto r = mc::call([&]() { p.parse(); });
    if (!r.exited || r.code != 0)
        return c.fail(std::string{"no page but "} + mc::err_name(r.err) + " " + r.what);
    if (auto const d = difference(strip(expected_page(cwl ? "CWL" : "CTD", m, {has(7) ? "/usr/bin/x y" : "app"}, {})), strip(r.out)); !d.empty())
        c.fail(d + "\n  metadata: " + std::to_string(set));
}

// The request within other arguments; the last of several requests counts.
void requests(mc::Ctx & c, size_t max)
{
    static std::vector<std::string> const tokens{"--export-help", "ctd", "cwl", "html", "pdf", "--export-help=ctd", "--export-help=cwl", "--export-help=man", "--export-help=CTD",
                                                 "--export-help=ctd ", "--export-help=", "-s", "-f", "--help", "--version", "--"};
    size_t const n = c.choose(max) + 1;
    std::vector<std::string> args;
    for (size_t k = 0; k < n; ++k)
        args.push_back(c.pick(tokens));
    if (!c.run())
        return;
    auto text = [&]() { return mc::qv(args); };
    c.describe(text);
    c.step(n);
    // reference
    std::string want = "parse";
    bool unavailable = false; // an earlier request for a format that needs the library
    for (size_t k = 0; k < n; ++k)
    {
        auto const & a = args[k];
        if (a == "--")
            break;
        if (a == "-s")
        {
            ++k;
            continue;
        }
        if (a == "--help" || a == "--version")
            want = a.substr(2);
        else if (a.starts_with("--export-help"))
        {
            std::string f;
            if (a.find('=') != a.npos)
                f = a.substr(a.find('=') + 1);
            else if (k + 1 == n)
            {
                want = "too_few_arguments";
                break;
            }
            else
                f = args[++k];
            if (f == "html" || f == "man" || (SHARG_HAS_TDL && (f == "ctd" || f == "cwl")))
                want = f;
            else if (f == "ctd" || f == "cwl")
                want = "validation_error", unavailable = true;
            else
            {
                want = "validation_error";
                break;
            }
        }
    }
    c.state(mc::hash_str(want + text()));
    std::string s{"def"};
    bool f{};
    std::vector<std::string> rest{"r"};
    std::vector<std::string> full{"app"};
    full.insert(full.end(), args.begin(), args.end());
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"app", full, sharg::update_notifications::off};
            p.add_option(s, sharg::config{.short_id = 's', .long_id = "str"});
            p.add_flag(f, sharg::config{.short_id = 'f'});
            p.add_positional_option(rest, sharg::config{});
            p.parse();
        });
    std::string got = "parse";
    if (r.exited)
        got = r.out.starts_with("CTD\n")                          ? "ctd"
            : r.out.starts_with("CWL\n")                          ? "cwl"
            : r.out.starts_with("<!DOCTYPE")                      ? "html"
            : r.out.starts_with(".TH")                            ? "man"
            : r.out.find("POSITIONAL ARGUMENTS") != std::string::npos ? "help"
                                                                  : "version";
    else if (r.err == mc::Err::validation_error && r.what.find("--export-help") != std::string::npos)
    {
        got = "validation_error";
        for (std::string w : {"html", "man", "ctd", "cwl"})
            if ((r.what.find(w) == std::string::npos) == (SHARG_HAS_TDL || w.size() > 3 || w == "man"))
                c.fail("the message does not list the available formats: " + r.what);
    }
    else if (r.err == mc::Err::too_few_arguments && r.what.find("--export-help") != std::string::npos)
        got = "too_few_arguments";
    c.outcome(got);
    if (got != want && !(unavailable && got == "validation_error"))
        c.fail("expected " + want + " got " + got + " " + mc::err_name(r.err) + " " + r.what + ": " + text());
    if (got != "parse" && (s != "def" || f || rest != std::vector<std::string>{"r"}))
        c.fail("a variable is changed: " + text());
    if (r.exited && (r.code != 0 || !r.errout.empty()))
        c.fail("exit code or text on standard error: " + text());
}

// List options. Known to be described as a boolean.
void lists(mc::Ctx & c)
{
    size_t const which = c.choose(5);
    bool const filled = c.flip(), cwl = c.flip();
    if (!c.run())
        return;
    static char const * const names[]{"int", "double", "string", "path", "bool"};
    c.describe([&]() { return std::string{"list of "} + names[which]; });
    c.step();
    c.state(which * 4 + filled * 2 + cwl);
    c.outcome("list");
    std::vector<int> vi;
    std::vector<double> vd;
    std::vector<std::string> vs;
    std::vector<std::filesystem::path> vp;
    std::vector<bool> vb;
    if (filled)
        vi = {3, 4}, vd = {1.5, 2}, vs = {"a", "b c"}, vp = {"a", "b c"}, vb = {true, false};
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"app", std::vector<std::string>{"app", "--export-help", cwl ? "cwl" : "ctd"}, sharg::update_notifications::off};
            sharg::config cfg{.long_id = "list"};
            switch (which)
            {
            case 0: p.add_option(vi, cfg); break;
            case 1: p.add_option(vd, cfg); break;
            case 2: p.add_option(vs, cfg); break;
            case 3: p.add_option(vp, cfg); break;
            case 4: p.add_option(vb, cfg); break;
            }
            p.parse();
        });
    size_t const at = r.out.find("param <list> ");
    if (at == std::string::npos)
        return c.fail("the option is missing");
    std::string const got = r.out.substr(at + 13, r.out.find('\n', at) - at - 13);
    if (got.starts_with("bool "))
        return c.fail("a list option is described as a boolean: list of " + std::string{names[which]}, "list-option-is-boolean");
    if (!got.starts_with("list of "))
        c.fail("a list option is described as " + got);
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    mc::add_section("C23/requests", [=](mc::Ctx & c) { requests(c, T ? 5 : 4); });
#if SHARG_HAS_TDL
    mc::add_section("C23/declarations", [=](mc::Ctx & c) { declarations(c, T ? 4 : 3); });
    mc::add_section("C23/metadata", metadata);
    mc::add_section("C23/lists", lists);
#endif
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
