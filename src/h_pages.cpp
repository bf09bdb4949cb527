// C14, C15: what the help and exported pages contain, and how any text is rendered.
#include "pages.hpp"

namespace
{
using namespace pages;

// A recipe for one declaration: applies it to a parser and tells what the page has to show.
struct Store // variables of one declaration
{
    int i{5};
    std::string s{"st r"};
    std::vector<std::string> vs{"a", "b c"};
    std::vector<int> vi{};
    std::vector<uint8_t> vu{1, 66};
    bool f{false}, b{true};
    double d{1.5};
    uint8_t u{66};
    int8_t i8{-3};
    std::filesystem::path p{"some/path"};
    std::vector<int> vp{3, 4};
    uint64_t u64{18446744073709551615u};
};
char short_of(size_t k) { return static_cast<char>('a' + k); }
std::string long_of(size_t k) { return "option-" + std::to_string(k); }
size_t const n_recipes = 34;
//!\brief Returns whether the declaration is positional (1), a positional list (2) or none (0).
int positional_kind(size_t r) { return r == 21 || r == 23 ? 1 : r == 22 || r == 24 ? 2 : 0; }

Declared declare(size_t r, size_t k, sharg::parser * p, Store & v)
{
    std::string const mark = std::to_string(k) + "x" + std::to_string(r);
    std::string const text = "Text" + mark + " of \\fBentry\\fP" + mark;
    std::string const both = bold(std::string{'-', short_of(k)}) + ", " + bold("--" + long_of(k));
    std::string const only_long = bold("--" + long_of(k));
    std::string const only_short = bold(std::string{'-', short_of(k)});
    char const s = short_of(k);
    std::string const l = long_of(k);
    std::string const i32 = " (\\fIsigned 32 bit integer\\fP)";
    Declared d;
    auto opt = [&](auto & value, auto cfg)
    {
        if (p)
            p->add_option(value, cfg);
    };
    auto pos = [&](auto & value, auto cfg)
    {
        if (p)
            p->add_positional_option(value, cfg);
    };
    switch (r)
    {
    case 0:
        d = {D, both + i32, text + " Default: 5"};
        opt(v.i, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 1:
        d = {D, only_long + i32, text + " Default: 5", true};
        opt(v.i, sharg::config{.long_id = l, .description = text, .advanced = true});
        break;
    case 2:
        d = {D, both + i32, text + " Default: 5", false, true};
        opt(v.i, sharg::config{.short_id = s, .long_id = l, .description = text, .hidden = true});
        break;
    case 3:
        d = {D, both, text, true, true};
        opt(v.s, sharg::config{.short_id = s, .long_id = l, .description = text, .advanced = true, .hidden = true});
        break;
    case 4:
        d = {D, only_short + " (\\fIstd::string\\fP)", text + " Default: \"my message\""};
        opt(v.s, sharg::config{.short_id = s, .description = text, .default_message = "my message"});
        break;
    case 5:
        d = {D, both + " (\\fIstd::string\\fP)", text + " Default: \"st r\""};
        opt(v.s, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 6:
        d = {D, both + i32, text};
        opt(v.i, sharg::config{.short_id = s, .long_id = l, .description = text, .required = true});
        break;
    case 7:
        d = {D, only_short + i32, text + " Default: 5. Value must be in range [2,7]."};
        opt(v.i, sharg::config{.short_id = s, .description = text, .validator = sharg::arithmetic_range_validator{2, 7}});
        break;
    case 8:
        d = {D, both + " (\\fIList\\fP of \\fIstd::string\\fP)", text + " Default: [\"a\", \"b c\"]"};
        opt(v.vs, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 9:
        d = {D, both + " (\\fIList\\fP of \\fIsigned 32 bit integer\\fP)", text + " Default: []"};
        opt(v.vi, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 10:
        d = {D, both, text};
        if (p)
            p->add_flag(v.f, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 11:
        d = {D, only_long, text, true};
        if (p)
            p->add_flag(v.f, sharg::config{.long_id = l, .description = text, .advanced = true});
        break;
    case 12:
        d = {D, only_short, text, false, true};
        if (p)
            p->add_flag(v.f, sharg::config{.short_id = s, .description = text, .hidden = true});
        break;
    case 13:
    case 14:
        d = {S, "", "Section " + mark, r == 14};
        if (p)
            p->add_section("Section " + mark, r == 14);
        break;
    case 15:
    case 16:
        d = {SS, "", "Subsection " + mark, r == 16};
        if (p)
            p->add_subsection("Subsection " + mark, r == 16);
        break;
    case 17:
    case 18:
    case 19:
        d = {L, "", text, r == 19};
        if (p)
            p->add_line(text, r == 18, r == 19);
        break;
    case 20:
    case 25:
        d = {D, "Key " + mark, text, r == 25};
        if (p)
            p->add_list_item("Key " + mark, text, r == 25);
        break;
    case 21:
        d = {D, "", text, false, false, true, "(\\fIsigned 32 bit integer\\fP)"};
        pos(v.i, sharg::config{.description = text});
        break;
    case 22:
        d = {D, "", text + " Default: [3, 4]", false, false, true, "(\\fIList\\fP of \\fIsigned 32 bit integer\\fP)"};
        pos(v.vp, sharg::config{.description = text});
        break;
    case 23:
        d = {D, "", text + ". Value must match the pattern 'a+'.", false, false, true, "(\\fIstd::string\\fP)"};
        pos(v.s, sharg::config{.description = text, .validator = sharg::regex_validator{"a+"}});
        break;
    case 24:
        d = {D, "", text + " Default: [\"a\", \"b c\"]. The input file must exist and read permissions must be granted.", false, false, true,
             "(\\fIList\\fP of \\fIstd::string\\fP)"};
        pos(v.vs, sharg::config{.description = text, .validator = sharg::input_file_validator{}});
        break;
    case 26:
        d = {D, both + " (\\fIbool\\fP)", text + " Default: 1"};
        opt(v.b, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 27:
        d = {D, both + " (\\fIdouble\\fP)", text + " Default: 1.5. Value must be one of [1, 1.5]."};
        opt(v.d, sharg::config{.short_id = s, .long_id = l, .description = text, .validator = sharg::value_list_validator{1.0, 1.5}});
        break;
    case 28:
        d = {D, both + " (\\fIunsigned 8 bit integer\\fP)", text + " Default: 66. Value must be one of [66, 7]."};
        opt(v.u, sharg::config{.short_id = s, .long_id = l, .description = text, .validator = sharg::value_list_validator{uint8_t{66}, uint8_t{7}}});
        break;
    case 29:
        d = {D, both + " (\\fIstd::filesystem::path\\fP)", text + " Default: \"some/path\". A valid path for the output directory."};
        opt(v.p, sharg::config{.short_id = s, .long_id = l, .description = text, .validator = sharg::output_directory_validator{}});
        break;
    case 30:
        d = {D, both + " (\\fIList\\fP of \\fIunsigned 8 bit integer\\fP)", text + " Default: [1, 66]"};
        opt(v.vu, sharg::config{.short_id = s, .long_id = l, .description = text});
        break;
    case 31:
        d = {D, both + " (\\fIsigned 8 bit integer\\fP)", text + " Default: minus three. Value must be in range [-5,5]. Value must be one of [-3, 3]."};
        opt(v.i8,
            sharg::config{.short_id = s,
                          .long_id = l,
                          .description = text,
                          .default_message = "minus three",
                          .validator = sharg::arithmetic_range_validator{int8_t{-5}, int8_t{5}} | sharg::value_list_validator{int8_t{-3}, int8_t{3}}});
        break;
    case 32:
        d = {D, both + " (\\fIunsigned 64 bit integer\\fP)", " Default: 18446744073709551615"};
        opt(v.u64, sharg::config{.short_id = s, .long_id = l});
        break;
    case 33: // output_file_validator with extensions, required and advanced
        d = {D, both + " (\\fIstd::filesystem::path\\fP)",
             text + ". The output file must not exist already and write permissions must be granted. Valid file extensions are: [fa, gz].", true};
        opt(v.p,
            sharg::config{.short_id = s, .long_id = l, .description = text, .advanced = true, .required = true, .validator = sharg::output_file_validator{"fa", "gz"}});
        break;
    }
    return d;
}

struct Case
{
    std::unique_ptr<sharg::parser> p;
    Declaration d;
};
void declarations(mc::Ctx & c, std::vector<size_t> const & recipes, size_t max, bool all_lengths)
{
    size_t const n = all_lengths ? c.choose(max) + 1 : max;
    std::vector<size_t> seq;
    for (size_t k = 0; k < n; ++k)
        seq.push_back(c.pick(recipes));
    Format const f = Format(c.choose(4));
    bool const updates = c.flip();
    bool list = false;
    for (size_t r : seq)
    {
        if (list && positional_kind(r))
            return; // not allowed
        list = list || positional_kind(r) == 2;
    }
    if (!c.run())
        return;
    auto text = [&]()
    {
        std::string t = format_names[f];
        for (size_t r : seq)
            t += " " + std::to_string(r);
        return t;
    };
    c.describe(text);
    c.step(n);
    c.state(mc::hash_str(text()));
    Declaration d;
    d.meta.app_name = "App_1";
    d.meta.version = "1.2.3";
    d.updates = updates;
    std::vector<std::string> args{"app"};
    for (auto & a : request(f))
        args.push_back(a);
    sharg::parser p{"App_1", args, updates ? sharg::update_notifications::on : sharg::update_notifications::off};
    p.info = d.meta;
    std::vector<Store> v(n);
    for (size_t k = 0; k < n; ++k)
        d.entries.push_back(declare(seq[k], k, &p, v[k]));
    auto const problems = check_page(p, d, f, false);
    c.outcome(format_names[f]);
    if (!problems.empty())
        c.fail(problems + "\n  declarations: " + text());
}

void metadata(mc::Ctx & c)
{
    unsigned const set = c.choose(1 << 14);
    Format const f = Format(c.choose(n_formats));
    if (!c.run())
        return;
    auto has = [&](int b) { return (set >> b) & 1; };
    c.describe([&]() { return std::string{format_names[f]} + " metadata " + std::to_string(set); });
    c.step(14);
    c.state(mc::mix(set, f));
    Declaration d;
    auto & m = d.meta;
    m.app_name = "TheApp";
    if (has(0))
        m.short_description = "does-it short";
    if (has(1))
        m.author = "Ann Author";
    if (has(2))
        m.email = "mail@host";
    if (has(3))
        m.date = "2024-02-03";
    if (has(4))
        m.url = "https://url";
    if (has(5))
        m.short_copyright = "ShortC 2024";
    if (has(6))
        m.long_copyright = "LongC text of copyright";
    if (has(7))
        m.citation = "Cite this";
    if (has(8))
        m.man_page_title = "Man Title", m.man_page_section = 7;
    if (has(9))
        m.description = {"First paragraph.", "Second paragraph."};
    if (has(10))
        m.synopsis = {"TheApp [OPTIONS] one", "TheApp two"};
    if (has(11))
        m.examples = {"Example one", "Example two"};
    if (has(12))
        d.subcommands = {"build", "search"};
    if (has(13))
        m.version = "3.2.1";
    std::vector<std::string> args{"app"};
    for (auto & a : request(f))
        args.push_back(a);
    int i{1};
    // subcommands are sorted
    sharg::parser p{"TheApp", args, sharg::update_notifications::off,
                    has(12) ? std::vector<std::string>{"search", "build", "search"} : std::vector<std::string>{}};
    p.info = m;
    p.add_option(i, sharg::config{.short_id = 'i', .description = "An option."});
    d.entries = {{D, bold("-i") + " (\\fIsigned 32 bit integer\\fP)", "An option. Default: 1"}};
    auto const problems = check_page(p, d, f, false);
    c.outcome(format_names[f]);
    if (!problems.empty())
        c.fail(problems + "\n  metadata: " + std::to_string(set) + " as " + format_names[f]);
}

// Equal, similar and empty lines, sections and entries: nothing is merged or left out.
void repeated(mc::Ctx & c, size_t max)
{
    static std::vector<std::string> const lines{"same line", "Same line", "same", "", "other"};
    size_t const where = c.choose(7);
    size_t const n = c.choose(max + 1);
    std::vector<std::string> texts;
    for (size_t k = 0; k < n; ++k)
        texts.push_back(c.pick(lines));
    bool const with_option = c.flip();
    Format const f = Format(c.choose(n_formats));
    if (!c.run())
        return;
    auto text = [&]() { return std::string{format_names[f]} + " place " + std::to_string(where) + " option " + std::to_string(with_option) + mc::qv(texts); };
    c.describe(text);
    c.step(n);
    c.state(mc::hash_str(text()));
    Declaration d;
    d.meta.app_name = "App";
    d.meta.version = "1.0.0";
    if (where == 0)
        d.meta.synopsis = texts;
    if (where == 1)
        d.meta.description = texts;
    if (where == 2)
        d.meta.examples = texts;
    std::vector<std::string> args{"app"};
    for (auto & a : request(f))
        args.push_back(a);
    sharg::parser p{"App", args, sharg::update_notifications::off};
    p.info = d.meta;
    int j{};
    std::vector<int> v(n);
    if (with_option)
    {
        p.add_option(j, sharg::config{.short_id = 'j', .description = "same line"});
        d.entries.push_back({D, bold("-j") + " (\\fIsigned 32 bit integer\\fP)", "same line Default: 0"});
    }
    for (size_t k = 0; k < n; ++k)
    {
        auto const & t = texts[k];
        if (where == 3)
            p.add_section(t), d.entries.push_back({S, "", t});
        if (where == 4)
            p.add_line(t, k % 2), d.entries.push_back({L, "", t});
        if (where == 5)
            p.add_list_item("key", t), d.entries.push_back({D, "key", t});
        if (where == 6)
        {
            p.add_positional_option(v[k], sharg::config{.description = t});
            d.entries.push_back({D, "", t, false, false, true, "(\\fIsigned 32 bit integer\\fP)"});
        }
    }
    auto const problems = check_page(p, d, f, true);
    c.outcome(format_names[f]);
    if (!problems.empty())
        c.fail(problems + "\n  declarations: " + text());
}

// Many entries of one kind, one of them advanced or hidden.
void many(mc::Ctx & c)
{
    size_t const kind = c.choose(11);
    size_t const n = c.pick(std::vector<size_t>{1, 9, 10, 11, 16, 17, 25, 26, 40, 101, 300});
    size_t const at = c.pick(std::vector<size_t>{0, n / 2, n - 1});
    size_t const special = c.choose(3); // none, advanced, hidden
    Format const f = Format(c.choose(n_formats));
    if (!c.run())
        return;
    auto text = [&]() { return std::string{format_names[f]} + " " + std::to_string(n) + " of kind " + std::to_string(kind) + " special " + std::to_string(special) + " at " + std::to_string(at); };
    c.describe(text);
    c.step(n);
    c.state(mc::hash_str(text()));
    Declaration d;
    d.meta.app_name = "App";
    d.meta.version = "1.0.0";
    std::vector<std::string> subs;
    auto word = [](size_t k) { return "text" + std::to_string(1000 + k); };
    for (size_t k = 0; k < n; ++k)
    {
        if (kind == 0)
            d.meta.synopsis.push_back(word(k));
        if (kind == 1)
            d.meta.description.push_back(word(k));
        if (kind == 2)
            d.meta.examples.push_back(word(k));
        if (kind == 3)
            subs.push_back(word(n - 1 - k)), d.subcommands.push_back(word(k));
    }
    std::vector<std::string> args{"app"};
    for (auto & a : request(f))
        args.push_back(a);
    sharg::parser p{"App", args, sharg::update_notifications::off, subs};
    p.info = d.meta;
    std::vector<int> v(n);
    std::vector<std::string> strings(n);
    auto flags = std::make_unique<bool[]>(n);
    for (size_t k = 0; k < n; ++k)
    {
        bool const a = special == 1 && k == at, h = special == 2 && k == at;
        auto const w = word(k);
        switch (kind)
        {
        case 4:
            p.add_option(v[k], sharg::config{.long_id = w, .description = w + "d", .advanced = a, .hidden = h});
            d.entries.push_back({D, bold("--" + w) + " (\\fIsigned 32 bit integer\\fP)", w + "d Default: 0", a, h});
            break;
        case 5:
            p.add_flag(flags[k], sharg::config{.long_id = w, .description = w + "d", .advanced = a, .hidden = h});
            d.entries.push_back({D, bold("--" + w), w + "d", a, h});
            break;
        case 6:
            p.add_section(w, a);
            d.entries.push_back({S, "", w, a});
            break;
        case 7:
            p.add_subsection(w, a);
            d.entries.push_back({SS, "", w, a});
            break;
        case 8:
            p.add_line(w, k % 3 == 0, a);
            d.entries.push_back({L, "", w, a});
            break;
        case 9:
            p.add_list_item(w, w + "d", a);
            d.entries.push_back({D, w, w + "d", a});
            break;
        case 10:
            p.add_positional_option(strings[k], sharg::config{.description = w});
            d.entries.push_back({D, "", w, false, false, true, "(\\fIstd::string\\fP)"});
            break;
        default: break;
        }
    }
    auto const problems = check_page(p, d, f, false);
    c.outcome(format_names[f]);
    if (!problems.empty())
        c.fail(problems + "\n  declarations: " + text());
}

// The page of a sub-parser.
void sub_pages(mc::Ctx & c)
{
    Format const f = Format(c.choose(n_formats));
    Format const top = Format(c.choose(2));
    bool const own_meta = c.flip(), top_option = c.flip();
    std::string const sub = c.flip() ? "build" : "search-it";
    if (!c.run())
        return;
    c.describe([&]() { return sub + " " + format_names[f]; });
    c.step(2);
    c.state(mc::hash_str(sub, f * 4 + own_meta * 2 + top_option));
    std::vector<std::string> args{"app"};
    if (top_option)
        args.insert(args.end(), {"-i", "7"});
    args.push_back(sub);
    for (auto & a : request(f))
        args.push_back(a);
    int i{1}, j{2};
    sharg::parser p{"App", args, sharg::update_notifications::off, {"build", "search-it"}};
    p.info.version = "1.0.0";
    p.info.short_description = "Top level text";
    p.info.description = {"Not for the subcommand"};
    p.add_option(i, sharg::config{.short_id = 'i', .description = "Top."});
    p.add_section("Top section");
    auto r = mc::call([&]() { p.parse(); });
    if (r.exited || r.err != mc::Err::none)
        return c.fail("the top-level parser ends with " + r.what);
    if (i != (top_option ? 7 : 1))
        c.fail("option of the top-level parser is " + std::to_string(i));
    auto & s = p.get_sub_parser();
    Declaration d;
    d.meta.app_name = "App-" + sub;
    if (s.info.app_name != d.meta.app_name)
        return c.fail("the name of the sub-parser is " + s.info.app_name);
    if (own_meta)
    {
        d.meta.version = "2.0.0";
        d.meta.short_description = "Sub text";
        d.meta.author = "Sub Author";
        d.meta.synopsis = {"app sub [options]"};
        s.info = d.meta;
    }
    s.add_option(j, sharg::config{.short_id = 'j', .description = "Sub."});
    d.entries = {{D, bold("-j") + " (\\fIsigned 32 bit integer\\fP)", "Sub. Default: 2"}};
    (void)top;
    auto const problems = check_page(s, d, f, false);
    c.outcome(format_names[f]);
    if (!problems.empty())
        c.fail(problems + "\n  subcommand " + sub + " as " + format_names[f]);
}

// ---- C15 ------------------------------------------------------------------------------------------------------------------
enum Slot
{
    s_description_of_option,
    s_description_of_flag,
    s_description_of_positional,
    s_section,
    s_subsection,
    s_line,
    s_paragraph,
    s_key,
    s_item,
    s_default_string,
    s_default_list,
    s_default_message,
    s_validator,
    s_value_list,
    s_synopsis,
    s_description,
    s_example,
    s_short_description,
    s_author,
    s_email,
    s_url,
    s_date,
    s_version,
    s_short_copyright,
    s_long_copyright,
    s_citation,
    s_man_page_title,
    n_slots
};
char const * const slot_names[] = {"description of an option",
                                   "description of a flag",
                                   "description of a positional option",
                                   "section",
                                   "subsection",
                                   "line",
                                   "paragraph",
                                   "key of a list item",
                                   "list item",
                                   "default value",
                                   "default list",
                                   "default message",
                                   "message of a validator",
                                   "value list",
                                   "synopsis",
                                   "description",
                                   "example",
                                   "short description",
                                   "author",
                                   "email",
                                   "url",
                                   "date",
                                   "version",
                                   "short copyright",
                                   "long copyright",
                                   "citation",
                                   "man page title"};
std::string quoted(std::string const & s)
{
    std::ostringstream o;
    o << std::quoted(s);
    return o.str();
}

//!\brief A parser with the text in one place, and the page it has to print.
std::string render(std::string const & text, Slot slot, Format f, bool with_neighbours)
{
    Declaration d;
    auto & m = d.meta;
    m.app_name = "App";
    m.version = "1.0.0";
    std::vector<std::string> args{"app"};
    for (auto & a : request(f))
        args.push_back(a);
    sharg::parser p{"App", args, sharg::update_notifications::off};
    int i{1}, j{2}, pi{3};
    std::string str{text};
    std::vector<std::string> list{text, "second", text};
    bool flag{};
    if (with_neighbours && slot != s_synopsis)
        m.synopsis = {"App [options]"};
    switch (slot)
    {
    case s_synopsis: m.synopsis = {text, "second", text}; break;
    case s_description: m.description = {text, text, "third"}; break;
    case s_example: m.examples = {text, "second"}; break;
    case s_short_description: m.short_description = text; break;
    case s_author: m.author = text; break;
    case s_email: m.email = text; break;
    case s_url: m.url = text; break;
    case s_date: m.date = text; break;
    case s_version: m.version = text; break;
    case s_short_copyright: m.short_copyright = text; break;
    case s_long_copyright: m.long_copyright = text; break;
    case s_citation: m.citation = text; break;
    case s_man_page_title: m.man_page_title = text; break;
    default: break;
    }
    p.info = m;
    std::string const i32 = " (\\fIsigned 32 bit integer\\fP)";
    auto entry = [&](Kind k, std::string const & t, std::string const & s) { d.entries.push_back({k, t, s}); };
    if (with_neighbours)
    {
        p.add_option(j, sharg::config{.short_id = 'j', .description = "Before."});
        entry(D, bold("-j") + i32, "Before. Default: 2");
    }
    switch (slot)
    {
    case s_description_of_option:
        p.add_option(i, sharg::config{.short_id = 'i', .description = text});
        entry(D, bold("-i") + i32, text + " Default: 1");
        break;
    case s_description_of_flag:
        p.add_flag(flag, sharg::config{.short_id = 'i', .description = text});
        entry(D, bold("-i"), text);
        break;
    case s_description_of_positional:
        p.add_positional_option(pi, sharg::config{.description = text});
        d.entries.push_back({D, "", text, false, false, true, "(\\fIsigned 32 bit integer\\fP)"});
        break;
    case s_section:
        p.add_section(text);
        entry(S, "", text);
        break;
    case s_subsection:
        p.add_subsection(text);
        entry(SS, "", text);
        break;
    case s_line:
    case s_paragraph:
        p.add_line(text, slot == s_paragraph);
        p.add_line(text, slot == s_paragraph);
        entry(L, "", text);
        entry(L, "", text);
        break;
    case s_key:
        p.add_list_item(text, "value");
        entry(D, text, "value");
        break;
    case s_item:
        p.add_list_item("key", text);
        entry(D, "key", text);
        break;
    case s_default_string:
        p.add_option(str, sharg::config{.short_id = 'i', .description = "Descr"});
        entry(D, bold("-i") + " (\\fIstd::string\\fP)", "Descr Default: " + quoted(text));
        break;
    case s_default_list:
        p.add_option(list, sharg::config{.short_id = 'i', .description = "Descr"});
        entry(D, bold("-i") + " (\\fIList\\fP of \\fIstd::string\\fP)", "Descr Default: [" + quoted(text) + ", \"second\", " + quoted(text) + "]");
        break;
    case s_default_message:
        p.add_option(i, sharg::config{.short_id = 'i', .description = "Descr", .default_message = text});
        entry(D, bold("-i") + i32, "Descr Default: " + (text.empty() ? "1" : text));
        break;
    case s_validator:
        p.add_option(str, sharg::config{.short_id = 'i', .default_message = "x", .validator = sharg::regex_validator{text}});
        entry(D, bold("-i") + " (\\fIstd::string\\fP)", " Default: \"x\". Value must match the pattern '" + text + "'.");
        break;
    case s_value_list:
        p.add_option(str, sharg::config{.short_id = 'i', .default_message = "x", .validator = sharg::value_list_validator{list}});
        entry(D, bold("-i") + " (\\fIstd::string\\fP)", " Default: \"x\". Value must be one of [" + text + ", second, " + text + "].");
        break;
    default: break;
    }
    if (with_neighbours)
    {
        p.add_line("Behind.", false);
        entry(L, "", "Behind.");
    }
    mc::Result r = mc::call([&]() { p.parse(); });
    if (!r.exited || r.code != 0)
        return std::string{" no page but "} + mc::err_name(r.err) + ": " + r.what;
    std::string problems = compare(d, f, r.out, mc::tty_out, true);
    if (f == help || f == advanced || f == short_help)
    {
        // Titles and terms are not wrapped.
        if (text.size() < 30 || (slot != s_section && slot != s_subsection && slot != s_key))
            problems += check_wrapping(r.out, mc::term_width);
    }
    return problems;
}
bool shown(Slot s, Format f)
{
    bool const page = f == help || f == advanced || f == html || f == man;
    switch (s)
    {
    case s_man_page_title: return f == man;
    case s_short_description: return true;
    case s_date:
    case s_version:
    case s_url: return page || f == version;
    case s_short_copyright: return page || f == copyright;
    case s_long_copyright: return page || f == copyright;
    case s_synopsis: return page || f == short_help;
    default: return page;
    }
}
std::vector<std::string> const tokens{"a", " ", "\\", "f", "B", "P", "\\fB", "\\fI", "\\fP", "\\-", "&", "<", ">", "\"", ".", "'", "\n", "-", "n"};
std::vector<std::string> const core{"w", " ", "\\", "f", "B", "\\fB", "\\fP", "<", "&", ".", "'", "\n"};

void texts(mc::Ctx & c, std::vector<std::string> const & alphabet, size_t max, std::vector<Slot> const & slots, std::vector<Format> const & formats,
           bool neighbours, bool tty_too)
{
    size_t const n = c.choose(max + 1);
    std::string text;
    for (size_t k = 0; k < n; ++k)
        text += c.pick(alphabet);
    Slot const slot = c.pick(slots);
    Format const f = c.pick(formats);
    bool const tty = tty_too && f != html && f != man && c.flip();
    if (!shown(slot, f))
        return;
    if (!c.run())
        return;
    c.describe([&]() { return mc::q(text) + " as " + slot_names[slot] + " in " + format_names[f] + (tty ? " (terminal)" : ""); });
    c.step(n);
    c.state(mc::hash_str(text, slot));
    mc::tty_out = tty;
    mc::term_width = 0;
    auto const problems = render(text, slot, f, neighbours);
    mc::tty_out = false;
    c.outcome(std::string{format_names[f]} + " " + slot_names[slot]);
    if (!problems.empty())
        c.fail(problems + "\n  text " + mc::q(text) + " as " + slot_names[slot] + " in " + format_names[f] + (tty ? " (terminal)" : ""));
}

// Words around the right margin, for every terminal width.
void wrapping(mc::Ctx & c, size_t max)
{
    static std::vector<unsigned> const widths{0, 1, 39, 40, 41, 60, 79, 80, 81, 100, 119, 120, 121, 200};
    static std::vector<std::string> const words{"a", "bb", "\\\\x", "\\x\\y\\z", "\\fBbold\\fP", "\\-\\-", "long-word-of-18-char", "\\fx\\f", "<&>",
                                                "word_that_is_longer_than_the_terminal_in_every_case_word_that_is_longer_than_the_terminal_in_every_case_and_wider_than_120"};
    unsigned const w = c.pick(widths);
    Slot const slot = c.pick(std::vector<Slot>{s_line, s_description_of_flag, s_synopsis, s_short_description});
    size_t const fill = c.choose(13); // length of the first word
    size_t const repeat = c.choose(2);
    size_t const n = c.choose(max + 1);
    std::string text;
    std::string t;
    for (size_t k = 0; k < n; ++k)
        t += " " + c.pick(words);
    bool const tty = c.flip();
    if (!c.run())
        return;
    unsigned const width = w ? std::clamp(w, 40u, 120u) : 80;
    // up to the margin
    size_t len = 0;
    while (len + 7 < width - 22)
    {
        text += "filler ";
        len += 7;
    }
    text += std::string(fill, 'x') + t;
    if (repeat)
        text += " " + text;
    c.describe([&]() { return mc::q(text) + " as " + slot_names[slot] + " at width " + std::to_string(w); });
    c.step(n);
    c.state(mc::mix(mc::hash_str(text), w));
    mc::tty_out = tty;
    mc::term_width = w;
    auto const problems = render(text, slot, slot == s_synopsis && n == 1 ? short_help : help, true);
    mc::tty_out = false;
    mc::term_width = 0;
    c.outcome(std::to_string(w) + " " + slot_names[slot]);
    if (!problems.empty())
        c.fail(problems + "\n  text " + mc::q(text) + " as " + slot_names[slot] + " at width " + std::to_string(w) + (tty ? " (terminal)" : ""));
}
// Texts of many words: lengths of words and the place of one special word.
void long_texts(mc::Ctx & c, size_t max)
{
    static std::vector<std::string> const words{"\\fBbold\\fP", "\\fItwo", "\\-\\-", "<&>", "\\", "\n", "  ", ".", "'x", "a-b", "\"q\"",
                                                std::string(150, 'y')};
    static std::vector<unsigned> const widths{0, 40, 57, 120};
    Slot const slot = Slot(c.choose(n_slots));
    Format const f = c.pick(std::vector<Format>{help, html, man, version, copyright, short_help});
    size_t const n = c.pick(std::vector<size_t>{20, 33, max, 1500});
    size_t const pattern = c.choose(4);
    size_t const at = c.choose(13);
    if (n == 1500 && (pattern != 1 || at % 4))
        return;
    std::string const special = c.pick(words);
    unsigned const w = c.pick(widths);
    if (!shown(slot, f) || (w && (f == html || f == man)) || (n == 1500 && w > 57))
        return;
    if (at == 0 && special.size() > 100) // shares a line with the term
        return;
    if (!c.run())
        return;
    std::string text;
    for (size_t k = 0; k < n; ++k)
    {
        size_t const len = pattern == 0 ? 1 : pattern == 1 ? 1 + k % 11 : pattern == 2 ? 9 : 1 + (k * 7) % 23;
        text += (k ? " " : "");
        text += k == at * n / 13 ? special : std::string(len, static_cast<char>('a' + k % 26));
    }
    c.describe([&]() { return mc::q(text) + " as " + slot_names[slot] + " in " + format_names[f] + " at width " + std::to_string(w); });
    c.step(n);
    c.state(mc::mix(mc::hash_str(text), w));
    mc::term_width = w;
    mc::tty_out = w != 0;
    auto const problems = render(text, slot, f, true);
    mc::tty_out = false;
    mc::term_width = 0;
    c.outcome(std::string{format_names[f]} + " " + slot_names[slot]);
    if (!problems.empty())
        c.fail(problems + "\n  text " + mc::q(text) + " as " + slot_names[slot] + " in " + format_names[f] + " at width " + std::to_string(w));
}
// Every character, alone, repeated and between others, and texts that look like the markup of one of the formats.
std::vector<std::string> const & snippets()
{
    static std::vector<std::string> const all = []()
    {
        std::vector<std::string> r{"&lt;",      "&amp;",   "&#38;",    "&nbsp;", "<b>bold</b>", "</p>",        "<br>",    "<br/>",   "<!-- x -->", "<a href=\"x\">",
                                   "a<b && c>d", "a@b.c",   "http://a.b/c?d=e&f=g#h", ".TH x",  ".br",         "'br",         "x .br y", "x\n.br", "x\n'y",     "x\n\n.SH y",
                                   "..",        "...",     "`x`",      "$HOME",  "%s %d %n",    "*b* _u_ [x]", "--long",  "-x",      "- item",     "x--y",
                                   "x - y",     "\"x\"",   "'x'",      "x\"",    "{}",          "{0}",         "1. x",    "C:\\x",   "\\\\",       "\\\\x",
                                   "x\\",       "\\-\\-",  "\\-x",     "x\\-y",  "\\fBx\\fP y", "x\\fIy\\fPz", "\\fBx\\fIy\\fPz\\fP", "\xc3\xa4", "\xe2\x82\xac x", "\xf0\x9f\x98\x80"};
        for (int b = 32; b < 256; ++b)
            if (b != 127)
            {
                std::string const x(1, char(b));
                for (std::string t : {x, x + x, "x" + x, x + "y", "x" + x + "y", "x " + x + " y", "x" + x + " y", "x " + x + "y"})
                    r.push_back(t);
            }
        return r;
    }();
    return all;
}

} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    std::vector<size_t> all(n_recipes);
    std::iota(all.begin(), all.end(), 0);
    mc::add_section("C14/declarations", [=](mc::Ctx & c) { declarations(c, all, 3, true); });
    std::vector<size_t> const few{0, 1, 2, 6, 11, 13, 14, 15, 17, 18, 19, 20, 21, 25};
    mc::add_section("C14/longer pages", [=](mc::Ctx & c) { declarations(c, few, T ? 5 : 4, false); });
    if (T)
        mc::add_section("C14/four declarations", [=](mc::Ctx & c) { declarations(c, all, 4, false); });
    mc::add_section("C14/metadata", metadata);
    mc::add_section("C14/pages of sub-parsers", sub_pages);
    mc::add_section("C14/repeated entries", [=](mc::Ctx & c) { repeated(c, T ? 6 : 4); });
    mc::add_section("C14/many entries", many);

    std::vector<Slot> slots(n_slots);
    for (int k = 0; k < n_slots; ++k)
        slots[k] = Slot(k);
    std::vector<Format> const formats{help, html, man, version, copyright, short_help};
    mc::add_section("C15/texts in every place", [=](mc::Ctx & c) { texts(c, tokens, T ? 3 : 2, slots, formats, true, true); });
    mc::add_section("C15/characters and snippets", [=](mc::Ctx & c) { texts(c, snippets(), 1, slots, formats, true, true); });
    mc::add_section("C15/longer texts", [=](mc::Ctx & c)
                    { texts(c, core, T ? 5 : 4, {s_line, s_item, s_section}, {help, html, man}, false, true); });
    mc::add_section("C15/wrapping", [=](mc::Ctx & c) { wrapping(c, T ? 3 : 2); });
    mc::add_section("C15/long texts", [=](mc::Ctx & c) { long_texts(c, T ? 300 : 70); });
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
