// C21: the messages of exceptions name the culprit.
#include "sharg_env.hpp"

namespace msg
{
enum class colour
{
    red,
    green,
    blue
};
auto enumeration_names(colour) { return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"green", colour::green}, {"blue", colour::blue}}; }
} // namespace msg

namespace
{
using mc::Err;

bool is_word_char(char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '-' || c == '_'; }
//!\brief w is part of the text and is not only a part of a longer word.
bool has_word(std::string const & text, std::string const & w)
{
    if (w.empty())
        return true;
    if (w.find('.') != std::string::npos && w.find_first_not_of("-.0123456789") == std::string::npos) // a number: any number of digits
    {
        double const want = std::stod(w);
        for (size_t at = 0; at < text.size(); ++at)
            if ((std::isdigit(static_cast<unsigned char>(text[at])) || text[at] == '-') && (at == 0 || !is_word_char(text[at - 1])))
            {
                char * end{};
                double const x = strtod(text.c_str() + at, &end);
                if (end != text.c_str() + at && x == want)
                    return true;
            }
        return false;
    }
    for (size_t at = text.find(w); at != std::string::npos; at = text.find(w, at + 1))
    {
        bool const left = at == 0 || !is_word_char(text[at - 1]) || !is_word_char(w.front());
        size_t const end = at + w.size();
        bool const right = end == text.size() || !is_word_char(text[end]) || !is_word_char(w.back());
        if (left && right)
            return true;
    }
    return false;
}

//!\brief One error that the line contains: the kinds of exception and the words the message must have.
struct Fact
{
    Err err{};
    std::vector<std::string> words{};
    std::vector<std::string> one_of{}; // and one of these, if there are any
    std::string ids{};                 // the option concerned: what it may be called, separated by blanks
    int positional{-1};                // the positional option that is concerned
};

enum Names // of the culprit
{
    both,
    short_only,
    long_only
};
//!\brief The options. Index is also the position in the declarations.
struct Opt
{
    char s;
    std::string l;
    std::string good; // a valid value; empty for flags
    bool list{false};
};
std::vector<Opt> const options{{'i', "int", "41"},        {'d', "dbl", "2.25"},  {'u', "u8", "17"},    {'s', "str", "abc"},
                               {'c', "col", "green"},     {'b', "bool", "true"}, {'l', "list", "53", true}, {'v', "val", "22"},
                               {'w', "words", "one"},     {'f', "flag", ""},     {'g', "good", ""},    {'m', "many", "blue", true},
                               {'q', "i64", "123456789"}, {'a', "flt", "0.75"},  {'x', "chr", "107"}};
enum
{
    O_i,
    O_d,
    O_u,
    O_s,
    O_c,
    O_b,
    O_l,
    O_v,
    O_w,
    O_f,
    O_g,
    O_m,
    O_q,
    O_a,
    O_x
};

struct Vars
{
    int i{};
    double d{};
    uint8_t u{};
    std::string s{};
    msg::colour c{};
    bool b{};
    std::vector<int> l{};
    int v{};
    std::string w{};
    bool f{}, g{};
    std::vector<msg::colour> m{};
    int64_t q{};
    float a{};
    char x{};
    // positional options
    double p0{};
    int p1{};
    std::vector<int> rest{};
};
struct Setup
{
    size_t culprit{0};
    Names names{both};
    bool required{false};
    bool positionals{false}, rest{false};
};
void declare(sharg::parser & p, Vars & v, Setup const & s)
{
    auto id = [&](size_t k, auto cfg)
    {
        if (k != s.culprit || s.names != long_only)
            cfg.short_id = options[k].s;
        if (k != s.culprit || s.names != short_only)
            cfg.long_id = options[k].l;
        if (k == s.culprit && s.required)
            cfg.required = true;
        return cfg;
    };
    using sharg::config;
    p.add_option(v.i, id(O_i, config{.validator = sharg::arithmetic_range_validator{-11, 99}}));
    p.add_option(v.d, id(O_d, config{.validator = sharg::arithmetic_range_validator{-1.5, 8.5}}));
    p.add_option(v.u, id(O_u, config{}));
    p.add_option(v.s, id(O_s, config{.validator = sharg::regex_validator{"[a-m]+"}}));
    p.add_option(v.c, id(O_c, config{}));
    p.add_option(v.b, id(O_b, config{}));
    p.add_option(v.l, id(O_l, config{.validator = sharg::arithmetic_range_validator{51, 59}}));
    p.add_option(v.v, id(O_v, config{.validator = sharg::value_list_validator{22, 33}}));
    p.add_option(v.w, id(O_w, config{.validator = sharg::value_list_validator{"one", "two"}}));
    p.add_flag(v.f, id(O_f, config{}));
    p.add_flag(v.g, id(O_g, config{}));
    p.add_option(v.m, id(O_m, config{.validator = sharg::value_list_validator{std::vector{msg::colour::blue, msg::colour::red}}}));
    p.add_option(v.q, id(O_q, config{}));
    p.add_option(v.a, id(O_a, config{}));
    p.add_option(v.x, id(O_x, config{}));
    if (s.positionals)
    {
        p.add_positional_option(v.p0, config{.validator = sharg::arithmetic_range_validator{60.0, 69.0}});
        p.add_positional_option(v.p1, config{.validator = sharg::value_list_validator{71, 72}});
    }
    if (s.rest)
        p.add_positional_option(v.rest, config{.validator = sharg::arithmetic_range_validator{80, 89}});
}
std::string spelled_ids(size_t k, Setup const & s)
{
    std::string r;
    if (k != s.culprit || s.names != long_only)
        r += std::string{"-"} + options[k].s;
    if (k != s.culprit || s.names != short_only)
        r += (r.empty() ? "--" : " --") + options[k].l;
    return r;
}
std::vector<std::string> split(std::string const & s)
{
    std::istringstream in{s};
    return {std::istream_iterator<std::string>{in}, {}};
}

//!\brief An erroneous value of an option and what the message has to say about it.
struct Bad
{
    size_t opt;
    std::string text;
    Err err;
    std::vector<std::string> words; // besides text and id
};
std::string const i32 = "signed 32 bit integer";
std::vector<Bad> bad_values()
{
    std::vector<Bad> r;
    auto const in = Err::user_input_error;
    auto const va = Err::validation_error;
    for (std::string t : {"word", "4x", "0x1f", "4.5", "+4"})
    {
        r.push_back({O_i, t, in, {i32}});
        r.push_back({O_l, t, in, {i32}});
        r.push_back({O_u, t, in, {"unsigned 8 bit integer"}});
        r.push_back({O_q, t, in, {"signed 64 bit integer"}});
        r.push_back({O_b, t, in, {"bool"}});
        if (t != "4.5")
        {
            r.push_back({O_d, t, in, {"double"}});
            r.push_back({O_a, t, in, {"float"}});
        }
        if (t.size() > 1)
            r.push_back({O_x, t, in, {"char"}});
        r.push_back({O_c, t, in, {"red", "green", "blue"}});
        r.push_back({O_m, t, in, {"red", "green", "blue"}});
    }
    for (std::string t : {"2147483648", "99999999999999999999"})
    {
        r.push_back({O_i, t, in, {"-2147483648", "2147483647"}});
        r.push_back({O_l, t, in, {"-2147483648", "2147483647"}});
    }
    r.push_back({O_q, "9223372036854775808", in, {"-9223372036854775808", "9223372036854775807"}});
    r.push_back({O_u, "256", in, {"0", "255"}});
    r.push_back({O_d, "1e999", in, {"[-17976931348", "17976931348"}});
    r.push_back({O_d, "-1e999", in, {"[-17976931348", "17976931348"}});
    r.push_back({O_a, "1e99", in, {"[-340282346638", "340282346638"}});
    // valid for the type, but not for the validator
    r.push_back({O_i, "100", va, {"-11", "99"}});
    r.push_back({O_i, "-12", va, {"-11", "99"}});
    r.push_back({O_d, "8.75", va, {"-1.5", "8.5"}});
    r.push_back({O_l, "60", va, {"51", "59"}});
    r.push_back({O_v, "23", va, {"22", "33"}});
    r.push_back({O_w, "three", va, {"one", "two"}});
    r.push_back({O_w, "", va, {"one", "two"}});
    r.push_back({O_s, "xyz", va, {"[a-m]+"}});
    r.push_back({O_m, "green", va, {"blue", "red"}});
    return r;
}
enum Notation
{
    short_space,
    short_glued,
    short_equals,
    long_space,
    long_equals,
    n_notations
};
bool possible(Notation n, Names names)
{
    bool const is_short = n <= short_equals;
    return is_short ? names != long_only : names != short_only;
}
std::vector<std::string> spell(Opt const & o, Notation n, std::string const & text)
{
    std::string const s{std::string{"-"} + o.s}, l{"--" + o.l};
    switch (n)
    {
    case short_space: return {s, text};
    case short_glued: return {s + text};
    case short_equals: return {s + "=" + text};
    case long_space: return {l, text};
    default: return {l + "=" + text};
    }
}
void append(std::vector<std::string> & to, std::vector<std::string> const & what) { to.insert(to.end(), what.begin(), what.end()); }

//!\brief Valid arguments: option k with its valid value.
std::vector<std::string> valid(size_t k, size_t notation)
{
    Opt const & o = options[k];
    if (o.good.empty())
        return {notation % 2 ? "--" + o.l : std::string{"-"} + o.s};
    return spell(o, Notation(notation % n_notations), o.good);
}

struct Line
{
    std::vector<std::string> args{};
    std::vector<std::pair<size_t, std::string>> others{}; // options that are given correctly
    std::vector<Fact> facts{};
};
void check(mc::Ctx & c, Setup const & s, Line const & line, bool sub)
{
    std::vector<std::string> args{"app"};
    if (sub)
        append(args, {"-k", "44", "command"});
    append(args, line.args);
    auto text = [&]() { return mc::qv(args); };
    c.describe(text);
    c.step(args.size());
    c.state(mc::hash_str(text()));
    Vars v;
    int top = 0;
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"App", args, sharg::update_notifications::off, sub ? std::vector<std::string>{"command"} : std::vector<std::string>{}};
            if (sub)
            {
                p.add_option(top, sharg::config{.short_id = 'k', .long_id = "top"});
                p.parse();
                auto & q = p.get_sub_parser();
                declare(q, v, s);
                q.parse();
            }
            else
            {
                declare(p, v, s);
                p.parse();
            }
        });
    auto fail = [&](std::string const & m) { c.fail(m + ": " + text() + " gave " + mc::err_name(r.err) + " " + mc::q(r.what)); };
    c.outcome(mc::err_name(r.err));
    if (line.facts.empty())
    {
        if (r.err != Err::none || r.exited)
            fail("a valid line is rejected");
        return;
    }
    if (r.err == Err::none || r.exited)
        return fail("an invalid line is accepted");
    std::string why;
    for (auto & f : line.facts)
    {
        if (f.err != r.err)
        {
            why += std::string{" no "} + mc::err_name(f.err);
            continue;
        }
        std::string missing;
        for (auto & w : f.words)
            if (w.starts_with("[-") || w.find("346638") != std::string::npos || w.find("931348") != std::string::npos ? r.what.find(w) == std::string::npos
                                                                                                                    : !has_word(r.what, w))
                missing += " " + mc::q(w);
        if (!f.one_of.empty() && std::ranges::none_of(f.one_of, [&](auto & w) { return has_word(r.what, w); }))
            missing += " " + mc::q(f.one_of[0]);
        // Nothing of other options.
        auto const own = split(f.ids);
        for (size_t k = 0; k < options.size(); ++k)
            for (auto & id : split(spelled_ids(k, s)))
                if (std::ranges::find(own, id) == own.end() && has_word(r.what, id))
                    missing += " (names " + id + " instead)";
        if (missing.empty())
            return;
        why += " without" + missing;
    }
    fail("the message does not name the culprit:" + why);
}

//!\brief Chooses up to max valid options that are not the culprit, and appends them.
void fill(mc::Ctx & c, Line & line, std::vector<size_t> const & not_these, size_t max, size_t salt)
{
    static std::vector<size_t> const menu{O_f, O_l, O_i, O_s, O_d, O_m};
    size_t const n = c.choose(max + 1);
    for (size_t k = 0; k < n; ++k)
    {
        size_t const o = c.pick(menu);
        if (std::ranges::find(not_these, o) != not_these.end() || std::ranges::any_of(line.others, [&](auto & x) { return x.first == o; }))
            continue;
        line.others.push_back({o, options[o].good});
        append(line.args, valid(o, salt + k));
    }
}

void bad_value(mc::Ctx & c, size_t before, size_t after)
{
    static auto const bads = bad_values();
    Bad const & b = c.pick(bads);
    Setup s;
    s.culprit = b.opt;
    s.names = Names(c.choose(3));
    Notation const n = Notation(c.choose(n_notations));
    s.positionals = c.flip();
    bool const sub = c.flip();
    Line line;
    fill(c, line, {b.opt}, before, n);
    bool const possible_case = possible(n, s.names) && !(b.text.empty() && n != short_space && n != long_space);
    // a list has a valid element before
    bool const again = options[b.opt].list && c.flip();
    if (again && possible_case)
        append(line.args, spell(options[b.opt], n, options[b.opt].good));
    append(line.args, spell(options[b.opt], n, b.text));
    fill(c, line, {b.opt}, after, n + 1);
    if (s.positionals)
        append(line.args, {"61", "71"});
    if (!c.run() || !possible_case)
        return;
    Fact f{b.err, b.words, {}, spelled_ids(b.opt, s), -1};
    f.words.push_back(b.text);
    // The value could not be parsed: the option as spelled. Validation: as declared.
    if (b.err == Err::user_input_error)
    {
        if (b.opt != O_c && b.opt != O_m) // the message of enumerations has no option
            f.words.push_back(n <= short_equals ? std::string{"-"} + options[b.opt].s : "--" + options[b.opt].l);
    }
    else
        append(f.words, split(spelled_ids(b.opt, s)));
    line.facts.push_back(f);
    check(c, s, line, sub);
}

//!\brief Missing values, options given twice, missing required options.
void structure(mc::Ctx & c, size_t before, size_t after)
{
    Setup s;
    size_t const kind = c.choose(3);
    s.culprit = c.choose(options.size());
    s.names = Names(c.choose(3));
    bool const sub = c.flip();
    Opt const & o = options[s.culprit];
    bool const is_flag = o.good.empty();
    Line line;
    Fact f;
    f.ids = spelled_ids(s.culprit, s);
    std::string const as_short = std::string{"-"} + o.s, as_long = "--" + o.l;
    bool ok = !is_flag;
    switch (kind)
    {
    case 0: // no value
    {
        size_t const how = c.choose(4); // -i | -i= | --int | --int=
        bool const is_short = how < 2;
        ok = ok && possible(is_short ? short_space : long_space, s.names);
        fill(c, line, {s.culprit}, before, how);
        line.args.push_back((is_short ? as_short : as_long) + (how % 2 ? "=" : ""));
        if (how % 2)
            fill(c, line, {s.culprit}, after, how);
        f.err = Err::too_few_arguments;
        f.words = {is_short ? as_short : as_long};
        break;
    }
    case 1: // twice
    {
        Notation const n1 = Notation(c.choose(n_notations)), n2 = Notation(c.choose(n_notations));
        ok = ok && possible(n1, s.names) && possible(n2, s.names) && !o.list;
        append(line.args, spell(o, n1, o.good));
        fill(c, line, {s.culprit}, before, n1);
        append(line.args, spell(o, n2, o.good));
        fill(c, line, {s.culprit}, after, n2);
        f.err = Err::option_declared_multiple_times;
        f.one_of = {as_short, as_long};
        if (n1 <= short_equals && n2 <= short_equals)
            f.one_of = {as_short};
        if (n1 > short_equals && n2 > short_equals)
            f.one_of = {as_long};
        break;
    }
    case 2: // required
        s.required = true;
        line.args.push_back(s.culprit == O_f ? "-g" : "-f"); // there must be something
        line.others.push_back({O_f, ""});
        fill(c, line, {s.culprit}, before + after, 0);
        f.err = Err::required_option_missing;
        f.words = split(f.ids);
        break;
    }
    if (!c.run() || !ok)
        return;
    line.facts.push_back(f);
    check(c, s, line, sub);
}

void unknown(mc::Ctx & c, size_t before, size_t after)
{
    struct U
    {
        std::vector<std::string> args;
        std::vector<std::string> words;
    };
    static std::vector<U> const us{{{"-z"}, {"-z"}},
                                   {{"-z", "word"}, {"-z"}},
                                   {{"--zzz"}, {"--zzz"}},
                                   {{"--zzz=4"}, {"--zzz"}},
                                   {{"--in"}, {"--in"}},
                                   {{"--integer"}, {"--integer"}},
                                   {{"--int-x=4"}, {"--int-x"}},
                                   {{"---int"}, {"---int"}},
                                   {{"-zy"}, {"-z", "-y"}},
                                   {{"-zyx"}, {"-z", "-y", "-x"}},
                                   {{"-z5"}, {"-z", "-5"}},
                                   {{"-fz"}, {"-z"}},
                                   {{"-zf"}, {"-z"}},
                                   {{"-fgz"}, {"-z"}},
                                   {{"-zgyf"}, {"-z", "-y"}},
                                   {{"-gzy0f"}, {"-z", "-y", "-0"}},
                                   {{"-Z"}, {"-Z"}},
                                   {{"-F", "-f"}, {"-F"}}};
    U const & u = c.pick(us);
    Setup s;
    s.culprit = size_t(-1);
    s.positionals = c.flip();
    bool const sub = c.flip();
    Line line;
    fill(c, line, {O_f}, before, 0);
    append(line.args, u.args);
    fill(c, line, {O_f}, after, 1);
    if (s.positionals)
        append(line.args, {"61", "71"});
    if (!c.run())
        return;
    // The identifiers that are forbidden are those which are declared; -x is a member of an unknown group here.
    std::string ids;
    for (auto & w : u.words)
        ids += w + " ";
    line.facts.push_back(Fact{Err::unknown_option, u.words, {}, ids, -1});
    check(c, s, line, sub);
}

void positional(mc::Ctx & c, size_t before, size_t n_rest)
{
    Setup s;
    s.culprit = size_t(-1);
    s.positionals = c.flip();
    s.rest = c.flip();
    bool const sub = c.flip();
    static std::vector<std::string> const firsts{"61", "55", "w1", "1e999"}, seconds{"71", "73", "w2", "2147483649"}, rests{"81", "91", "w3", "2147483650"};
    std::vector<std::string> given;
    Line line;
    fill(c, line, {}, before, 0);
    bool const dashes = c.flip();
    size_t const scalar = s.positionals ? 2 : 0;
    size_t const n_scalar = scalar ? c.choose(3) : 0;
    for (size_t k = 0; k < n_scalar; ++k)
        given.push_back(c.pick(k == 0 ? firsts : seconds));
    size_t const n_list = n_scalar == scalar ? c.choose(n_rest + 1) : 0;
    for (size_t k = 0; k < n_list; ++k)
        given.push_back(c.pick(rests));
    if (dashes)
        line.args.push_back("--");
    append(line.args, given);
    if (!c.run() || line.args.empty())
        return;
    auto number = [](size_t n) { return std::vector<std::string>{"positional option " + std::to_string(n), "positional option" + std::to_string(n)}; };
    // The positional options are processed in order: the first error counts.
    size_t const needed = scalar + s.rest;
    for (size_t k = 0; k < needed && line.facts.empty(); ++k)
    {
        bool const is_list = k == scalar;
        if (k >= given.size())
        {
            line.facts.push_back(Fact{Err::too_few_arguments, {std::to_string(needed)}, {}, "", -1});
            break;
        }
        auto value = [&](std::string const & t, size_t nr)
        {
            Fact f{Err::user_input_error, {t}, number(nr), "", -1};
            if (t[0] == 'w')
                f.words.push_back(k == 0 && !is_list ? "double" : i32);
            else if (t == "1e999")
                f.words.push_back("[-17976931348");
            else if (t.starts_with("21474"))
                append(f.words, {"-2147483648", "2147483647"});
            else
                return false;
            line.facts.push_back(f);
            return true;
        };
        if (!is_list)
        {
            if (value(given[k], k + 1))
                break;
            if (given[k] == "55")
                line.facts.push_back(Fact{Err::validation_error, {"55", "60", "69"}, number(k + 1), "", -1});
            if (given[k] == "73")
                line.facts.push_back(Fact{Err::validation_error, {"73", "71", "72"}, number(k + 1), "", -1});
        }
        else
        {
            for (size_t m = k; m < given.size(); ++m)
                if (value(given[m], m + 1))
                    break;
            if (line.facts.empty() && std::find(given.begin() + k, given.end(), "91") != given.end())
            {
                // The declared positional option, or the argument of the list that is wrong.
                auto names = number(k + 1);
                for (size_t m = k; m < given.size(); ++m)
                    if (given[m] == "91")
                        append(names, number(m + 1));
                line.facts.push_back(Fact{Err::validation_error, {"91", "80", "89"}, names, "", -1});
            }
        }
    }
    if (line.facts.empty() && given.size() > needed && !s.rest)
        line.facts.push_back(Fact{Err::too_many_arguments, {}, {}, "", -1});
    check(c, s, line, sub);
}

//!\brief Two errors on one line: the message is about one of them, completely.
void pairs(mc::Ctx & c)
{
    static auto const bads = bad_values();
    struct E
    {
        std::vector<std::string> args;
        Fact f;
        size_t opt;
    };
    static std::vector<E> const errors = []()
    {
        std::vector<E> r;
        Setup const s{.culprit = size_t(-1)};
        size_t n = 0;
        for (auto & b : bads)
        {
            if (b.text == "+4" || b.text == "0x1f" || b.text.empty())
                continue;
            Notation const nt = Notation(n++ % n_notations);
            Fact f{b.err, b.words, {}, spelled_ids(b.opt, s), -1};
            f.words.push_back(b.text);
            if (b.err == Err::validation_error)
                append(f.words, split(spelled_ids(b.opt, s)));
            else if (b.opt != O_c && b.opt != O_m)
                f.words.push_back(nt <= short_equals ? std::string{"-"} + options[b.opt].s : "--" + options[b.opt].l);
            r.push_back({spell(options[b.opt], nt, b.text), f, b.opt});
        }
        r.push_back({{"-z"}, Fact{Err::unknown_option, {"-z"}, {}, "", -1}, size_t(-1)});
        r.push_back({{"--zzz"}, Fact{Err::unknown_option, {"--zzz"}, {}, "", -1}, size_t(-1)});
        r.push_back({{"-zy"}, Fact{Err::unknown_option, {"-z", "-y"}, {}, "", -1}, size_t(-1)});
        r.push_back({{"--int="}, Fact{Err::too_few_arguments, {"--int"}, {}, "-i --int", -1}, O_i});
        r.push_back({{"-d="}, Fact{Err::too_few_arguments, {"-d"}, {}, "-d --dbl", -1}, O_d});
        r.push_back({{"-q3", "--i64", "4"}, Fact{Err::option_declared_multiple_times, {}, {"-q", "--i64"}, "-q --i64", -1}, O_q});
        return r;
    }();
    E const & a = c.pick(errors);
    E const & b = c.pick(errors);
    bool const between = c.flip();
    bool const sub = c.flip();
    if (!c.run() || a.opt == b.opt)
        return;
    Line line;
    append(line.args, a.args);
    if (between)
        line.args.push_back("-f");
    append(line.args, b.args);
    line.facts = {a.f, b.f};
    Setup s;
    s.culprit = size_t(-1);
    check(c, s, line, sub);
}

//!\brief Special requests and subcommands.
void special(mc::Ctx & c)
{
    struct S
    {
        std::vector<std::string> args;
        Err err;
        std::vector<std::string> words;
    };
    static std::vector<S> const menu{{{"--export-help"}, Err::too_few_arguments, {"--export-help"}},
                                     {{"--export-help", "pdf"}, Err::validation_error, {"--export-help", "html", "man"}},
                                     {{"--export-help=pdf"}, Err::validation_error, {"--export-help", "html", "man"}},
                                     {{"--version-check"}, Err::too_few_arguments, {"--version-check"}},
                                     {{"--version-check", "maybe"}, Err::validation_error, {"--version-check", "true", "false", "1", "0"}},
                                     {{"buidl"}, Err::user_input_error, {"build", "search-all", "x_1"}},
                                     {{"Build"}, Err::user_input_error, {"build", "search-all", "x_1"}},
                                     {{"search"}, Err::user_input_error, {"build", "search-all", "x_1"}},
                                     {{"4", "build"}, Err::user_input_error, {"build", "search-all", "x_1"}}};
    S const & s = c.pick(menu);
    static std::vector<std::vector<std::string>> const fronts{{}, {"-f"}, {"-i", "3"}, {"--int", "build"}, {"-i4", "-f"}};
    auto const & front = c.pick(fronts);
    bool const subs = c.flip();
    size_t const n_sub = subs ? 3 : 0;
    if (!c.run() || (s.args[0][0] != '-' && !subs))
        return;
    std::vector<std::string> args{"app"};
    append(args, front);
    append(args, s.args);
    c.describe([&]() { return mc::qv(args); });
    c.step(args.size());
    c.state(mc::hash_str(mc::qv(args)));
    bool f = false;
    std::string i;
    auto r = mc::call(
        [&]()
        {
            sharg::parser p{"App", args, sharg::update_notifications::on,
                            subs ? std::vector<std::string>{"x_1", "build", "search-all"} : std::vector<std::string>{}};
            p.add_flag(f, sharg::config{.short_id = 'f', .long_id = "flag"});
            p.add_option(i, sharg::config{.short_id = 'i', .long_id = "int"});
            p.parse();
        });
    c.outcome(mc::err_name(r.err));
    bool ok = r.err == s.err;
    for (auto & w : s.words)
        ok = ok && has_word(r.what, w);
    for (char const * w : {"-f", "--flag", "-i", "--int"})
        ok = ok && !has_word(r.what, w);
    if (!ok)
        c.fail("the message does not name the culprit: " + mc::qv(args) + " gave " + mc::err_name(r.err) + " " + mc::q(r.what));
}
//!\brief Any valid identifier appears as it was declared.
void identifiers(mc::Ctx & c)
{
    static std::string const first{"max_A0"}, next{"m-_.x0=/"};
    size_t const kind = c.choose(7);
    bool const has_short = c.flip();
    char const s = has_short ? std::string{"mM_@0"}[c.choose(5)] : '\0';
    std::string l;
    size_t const len = c.choose(mc::thorough ? 6 : 5);
    for (size_t k = 0; k < len; ++k)
        l += k ? next[c.choose(next.size() - 2)] : first[c.choose(first.size())]; // without = and /
    if (!c.run() || l.size() == 1 || l.find('.') != std::string::npos || (!has_short && l.empty()))
        return;
    std::string const by = has_short && (l.empty() || kind % 2) ? std::string{"-"} + s : "--" + l;
    std::vector<std::string> args{"app"};
    Fact f;
    std::vector<std::string> all;
    if (has_short)
        all.push_back(std::string{"-"} + s);
    if (!l.empty())
        all.push_back("--" + l);
    bool list = false, required = false;
    switch (kind)
    {
    case 0:
        required = true;
        args.push_back("word");
        f = {Err::required_option_missing, all};
        break;
    case 1:
        append(args, {by, "7x"});
        f = {Err::user_input_error, {by, "7x", i32}};
        break;
    case 2:
        append(args, {by, "77"});
        f = {Err::validation_error, all};
        f.words.push_back("77");
        break;
    case 3:
        list = true;
        append(args, {by, "7", by, "78"});
        f = {Err::validation_error, all};
        f.words.push_back("78");
        break;
    case 4:
        append(args, {"word", by});
        f = {Err::too_few_arguments, {by}};
        break;
    case 5:
        append(args, {by, "7", by, "8"});
        f = {Err::option_declared_multiple_times, {by}};
        break;
    case 6:
        append(args, {by + "=7", "word", by + "=x", "word"});
        list = true;
        f = {Err::user_input_error, {by, "x", i32}};
        break;
    }
    auto text = [&]() { return "option " + (has_short ? std::string{s} : "") + " " + l + ": " + mc::qv(args); };
    c.describe(text);
    c.step(args.size());
    c.state(mc::hash_str(text()));
    auto r = mc::call(
        [&]()
        {
            int value{};
            std::vector<int> values{};
            std::vector<std::string> words{};
            bool flag{};
            sharg::parser p{"App", args, sharg::update_notifications::off};
            p.add_flag(flag, sharg::config{.short_id = 'q', .long_id = "quiet"});
            if (list)
                p.add_option(values, sharg::config{.short_id = s, .long_id = l, .validator = sharg::arithmetic_range_validator{5, 9}});
            else
                p.add_option(value, sharg::config{.short_id = s, .long_id = l, .required = required, .validator = sharg::arithmetic_range_validator{5, 9}});
            p.add_positional_option(words, sharg::config{});
            p.parse();
        });
    c.outcome(mc::err_name(r.err));
    std::string missing;
    if (r.exited || r.err != f.err)
        missing = std::string{" no "} + mc::err_name(f.err);
    for (auto & w : f.words)
        if (!has_word(r.what, w))
            missing += " " + mc::q(w);
    if (!missing.empty())
        c.fail("the message does not name the culprit:" + missing + ": " + text() + " gave " + mc::err_name(r.err) + " " + mc::q(r.what));
}

size_t count_word(std::string const & text, std::string const & w)
{
    size_t n = 0;
    for (size_t at = text.find(w); at != std::string::npos; at = text.find(w, at + 1))
        n += (at == 0 || !is_word_char(text[at - 1])) && (at + w.size() == text.size() || !is_word_char(text[at + w.size()]));
    return n;
}
//!\brief Every group of short flags, some of which are declared: the message names those that are left, all of them and no other.
void groups(mc::Ctx & c)
{
    static std::string const letters{"fgxy1@"};
    size_t const n = 1 + c.choose(mc::thorough ? 6 : 5);
    std::string group;
    for (size_t k = 0; k < n; ++k)
        group += letters[c.choose(letters.size())];
    int const where = c.choose(3); // alone, behind an option with a value, in front of a positional argument
    if (!c.run())
        return;
    std::vector<std::string> args{"app"};
    if (where == 1)
        append(args, {"-o", "x1"});
    args.push_back("-" + group);
    if (where == 2)
        args.push_back("y");
    auto text = [&]() { return mc::qv(args); };
    c.describe(text);
    c.step(n);
    c.state(mc::hash_str(text()));
    std::string left = group;
    for (char flag : {'f', 'g'})
        if (auto at = left.find(flag); at != left.npos)
            left.erase(at, 1);
    auto r = mc::call(
        [&]()
        {
            bool f{}, g{};
            std::string o;
            std::vector<std::string> rest;
            sharg::parser p{"App", args, sharg::update_notifications::off};
            p.add_flag(f, sharg::config{.short_id = 'f', .long_id = "flag"});
            p.add_flag(g, sharg::config{.short_id = 'g', .long_id = "good"});
            p.add_option(o, sharg::config{.short_id = 'o', .long_id = "option"});
            if (where == 2)
                p.add_positional_option(rest, sharg::config{});
            p.parse();
        });
    c.outcome(mc::err_name(r.err));
    std::string wrong;
    if (r.exited || r.err != (left.empty() ? Err::none : Err::unknown_option))
        wrong = " wrong class";
    else if (!left.empty())
        for (char letter : letters)
        {
            size_t const want = std::ranges::count(left, letter), got = count_word(r.what, std::string{'-', letter});
            if (want > got || (want == 0 && got > 0))
                wrong += std::string{" -"} + letter;
        }
    if (!wrong.empty())
        c.fail("the message does not name the unknown flags:" + wrong + ": " + text() + " gave " + mc::err_name(r.err) + " " + mc::q(r.what));
}
//!\brief Long lists: which of many values, positional arguments, allowed values or subcommands is concerned.
void many(mc::Ctx & c)
{
    size_t const kind = c.choose(7);
    size_t const n = 1 + c.choose(mc::thorough ? 60 : 30);
    size_t const at = c.choose(n);
    size_t const bad = c.choose(3); // a word, too large for the type, too large for the validator
    if (!c.run())
        return;
    std::string const wrong = bad == 0 ? "w77x" : bad == 1 ? "99999999999" : "5000";
    std::vector<std::string> args{"app"}, words{wrong}, one_of{};
    Err err = bad == 2 ? Err::validation_error : Err::user_input_error;
    if (bad == 0)
        words.push_back(i32);
    else if (bad == 1)
        append(words, {"-2147483648", "2147483647"});
    else
        append(words, {"100", "400"});
    auto good = [&](size_t k) { return std::to_string(100 + k); };
    for (size_t k = 0; k < n; ++k)
    {
        auto v = k == at ? wrong : good(k);
        if (kind == 0 || kind == 3) // a positional list; many positional options
            args.push_back(v);
        else if (kind == 1) // a list option
            append(args, k % 2 ? std::vector<std::string>{"--list", v} : std::vector<std::string>{"-l" + v});
        else if (kind == 2) // many options
            args.push_back("--name" + std::to_string(k) + "=" + v);
    }
    auto position = [](size_t k) { return std::vector<std::string>{"positional option " + std::to_string(k), "positional option" + std::to_string(k)}; };
    if (kind == 0)
    {
        one_of = position(at + 1);
        if (bad == 2)
            append(one_of, position(1)); // the list is meant
    }
    else if (kind == 1)
        append(words, bad == 2 ? std::vector<std::string>{"-l", "--list"} : std::vector<std::string>{at % 2 ? "--list" : "-l"});
    else if (kind == 2)
        words.push_back("--name" + std::to_string(at));
    else if (kind == 3)
        one_of = position(at + 1);
    else if (kind == 4) // many allowed values
    {
        append(args, {"--value", "5000"});
        words = {"5000", "--value"};
        for (size_t k = 0; k < n; ++k)
            words.push_back(good(k));
        err = Err::validation_error;
    }
    else if (kind == 5) // many subcommands
    {
        append(args, {"subcommand"});
        words.clear();
        for (size_t k = 0; k < n; ++k)
            words.push_back("sub" + good(k));
        err = Err::user_input_error;
    }
    else // too few positional arguments
    {
        for (size_t k = 0; k < at; ++k)
            args.push_back(good(k));
        if (at == 0)
            args.push_back("--");
        words = {std::to_string(n)};
        err = Err::too_few_arguments;
    }
    auto text = [&]() { return "kind " + std::to_string(kind) + " " + std::to_string(n) + ": " + mc::qv(args); };
    c.describe(text);
    c.step(n);
    c.state(mc::hash_str(text()));
    auto r = mc::call(
        [&]()
        {
            std::vector<std::string> subs;
            std::vector<int> list, rest, allowed, single(n);
            int value{};
            for (size_t k = 0; k < n; ++k)
                allowed.push_back(100 + int(k)), subs.push_back("sub" + good(n - 1 - k));
            if (kind != 5)
                subs.clear();
            sharg::arithmetic_range_validator const range{100, 400};
            sharg::parser p{"App", args, sharg::update_notifications::off, subs};
            if (kind == 0)
                p.add_positional_option(rest, sharg::config{.validator = range});
            if (kind == 1)
                p.add_option(list, sharg::config{.short_id = 'l', .long_id = "list", .validator = range});
            if (kind == 4)
                p.add_option(value, sharg::config{.long_id = "value", .validator = sharg::value_list_validator{allowed}});
            for (size_t k = 0; k < n; ++k)
            {
                if (kind == 2)
                    p.add_option(single[k], sharg::config{.long_id = "name" + std::to_string(k), .validator = range});
                if (kind == 3 || kind == 6)
                    p.add_positional_option(single[k], sharg::config{.validator = range});
            }
            p.parse();
        });
    c.outcome(mc::err_name(r.err));
    std::string missing;
    if (r.exited || r.err != err)
        missing = std::string{" no "} + mc::err_name(err);
    for (auto & w : words)
        if (!has_word(r.what, w) && (w.size() < 8 || r.what.find(w) == r.what.npos))
            missing += " " + mc::q(w);
    if (!one_of.empty() && std::ranges::none_of(one_of, [&](auto & w) { return has_word(r.what, w); }))
        missing += " " + one_of[0];
    if (kind == 2) // no other option
        for (size_t k = 0; k < n; ++k)
            if (k != at && has_word(r.what, "--name" + std::to_string(k)))
                missing += " (names option " + std::to_string(k) + ")";
    if (kind < 4) // no other value
        for (size_t k = 0; k < n; ++k)
            if (k != at && good(k) != "100" && has_word(r.what, good(k)))
                missing += " (names value " + std::to_string(k) + ")";
    if (!missing.empty())
        c.fail("the message does not name the culprit:" + missing + ": " + text() + " gave " + mc::err_name(r.err) + " " + mc::q(r.what));
}
//!\brief Long values, identifiers and patterns.
void long_ones(mc::Ctx & c)
{
    size_t const kind = c.choose(13);
    static std::vector<size_t> const sizes{12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 2000, 4000};
    size_t const n = c.pick(sizes);
    size_t const notation = c.choose(3);
    if (!c.run())
        return;
    std::string wrong(n, 'w'), name = kind > 6 && kind < 10 ? std::string(n, 'k') : "name";
    wrong += "z";
    std::vector<std::string> args{"app"}, words;
    Err err = Err::user_input_error;
    std::string const own = notation == 2 ? "-n" : "--" + name;
    auto give = [&](std::string const & v)
    {
        if (notation == 0)
            append(args, {own, v});
        else
            args.push_back(own + (notation == 1 ? "=" : "") + v);
    };
    switch (kind)
    {
    case 0: give(wrong), words = {own, wrong, i32}; break;
    case 1: wrong = "1" + std::string(n, '0') + "7"; give(wrong), words = {own, wrong, "-2147483648", "2147483647"}; break;
    case 2: give(wrong), words = {"--name", wrong, "one", "two"}, err = Err::validation_error; break;
    case 3: give(wrong), words = {"--name", wrong, "[ab]"}, err = Err::validation_error; break;
    case 4: args.push_back("--" + wrong), words = {"--" + wrong}, err = Err::unknown_option; break;
    case 5: args.push_back(wrong), words = {"sub1", "sub2"}; break;
    case 6: args.push_back(wrong), words = {wrong, i32}; break;
    case 7: args.push_back("-x"), words = {"--" + name}, err = Err::required_option_missing; break;
    case 8: give("5"), append(args, {"--" + name, "6"}), words = {"--" + name}, err = Err::option_declared_multiple_times; break;
    case 9: args.push_back(notation == 1 ? own + "=" : own), words = {own}, err = Err::too_few_arguments; break;
    case 10: give("aw"), words = {"--name", "aw"}, err = Err::validation_error; break;
    case 11:
        for (size_t k = 60; k < wrong.size(); k += 60)
            wrong[k] = '/';
        give("/nonexistent/" + wrong), words = {"--name", "/nonexistent/" + wrong}, err = Err::validation_error;
        break;
    case 12: give("5"), words = {"--name", "5"}, err = Err::validation_error; break;
    }
    auto text = [&]() { return "kind " + std::to_string(kind) + ", length " + std::to_string(n) + ", notation " + std::to_string(notation); };
    c.describe(text);
    c.step();
    c.state(mc::hash_str(text()));
    auto r = mc::call(
        [&]()
        {
            std::string str;
            std::filesystem::path path;
            int value{}, other{}, flags{};
            bool flag{};
            sharg::parser p{"App", args, sharg::update_notifications::off, kind == 5 ? std::vector<std::string>{"sub1", "sub2"} : std::vector<std::string>{}};
            std::vector<int> allowed;
            for (size_t k = 0; k < std::min<size_t>(n, 300); ++k)
                allowed.push_back(1000 + int(k));
            if (kind == 2)
                p.add_option(str, sharg::config{.short_id = 'n', .long_id = name, .validator = sharg::value_list_validator{"one", "two"}});
            else if (kind == 3 || kind == 10)
                p.add_option(str, sharg::config{.short_id = 'n', .long_id = name, .validator = sharg::regex_validator{kind == 3 ? "[ab]*" : std::string(std::min<size_t>(n, 300), 'b')}});
            else if (kind == 11)
                p.add_option(path, sharg::config{.short_id = 'n', .long_id = name, .validator = sharg::input_file_validator{}});
            else if (kind == 12)
                p.add_option(value, sharg::config{.short_id = 'n', .long_id = name, .validator = sharg::value_list_validator{allowed}});
            else
                p.add_option(value, sharg::config{.short_id = 'n', .long_id = name, .required = kind == 7});
            p.add_option(other, sharg::config{.short_id = 'o', .long_id = "other"});
            if (kind == 7)
                p.add_flag(flag, sharg::config{.short_id = 'x'});
            if (kind == 6)
                p.add_positional_option(flags, sharg::config{});
            p.parse();
        });
    if (kind == 12)
        for (size_t k = 0; k < std::min<size_t>(n, 300); ++k)
            words.push_back(std::to_string(1000 + k));
    if (kind == 10)
        words.push_back(std::string(std::min<size_t>(n, 300), 'b'));
    c.outcome(mc::err_name(r.err));
    std::string missing;
    if (r.exited || r.err != err)
        missing = std::string{" no "} + mc::err_name(err);
    for (auto & w : words)
        if (r.what.find(w) == r.what.npos)
            missing += " " + mc::q(w);
    if (r.what.find("other") != r.what.npos)
        missing += " (names another option)";
    if (!missing.empty())
        c.fail(("the message does not name the culprit:" + missing).substr(0, 300) + ": " + text() + " gave " + mc::err_name(r.err) + " " + mc::q(r.what).substr(0, 600));
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    mc::add_section("C21/bad values", [=](mc::Ctx & c) { bad_value(c, T ? 3 : 2, T ? 2 : 1); });
    mc::add_section("C21/identifiers", identifiers);
    mc::add_section("C21/structure", [=](mc::Ctx & c) { structure(c, T ? 3 : 2, T ? 2 : 1); });
    mc::add_section("C21/unknown", [=](mc::Ctx & c) { unknown(c, T ? 3 : 2, T ? 3 : 2); });
    mc::add_section("C21/positional", [=](mc::Ctx & c) { positional(c, T ? 2 : 1, T ? 5 : 4); });
    mc::add_section("C21/two errors", pairs);
    mc::add_section("C21/special", special);
    mc::add_section("C21/groups", groups);
    mc::add_section("C21/many", many);
    mc::add_section("C21/long", long_ones);
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
