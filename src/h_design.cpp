// C12: which set-up calls are accepted, in every order, and which identifiers and names.
#include "sharg_env.hpp"

namespace
{
using mc::Err;

std::set<std::string> const reserved{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright", "version-check"};

bool valid_char(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '@' || c == '_'; }
bool valid_short(char c) { return valid_char(c); }
bool valid_long(std::string const & s)
{
    return s.size() > 1 && s[0] != '-' && std::ranges::all_of(s, [](char c) { return valid_char(c) || c == '-'; });
}
bool valid_name(std::string const & s)
{
    return !s.empty() && std::ranges::all_of(s, [](unsigned char c) { return (valid_char(c) && c != '@') || c == '-'; });
}

enum What
{
    opt,
    opt_list,
    flg,
    pos,
    pos_list,
    subcommands,
    section,
    subsection,
    line,
    list_item,
    do_parse,
    ask,
    sub_parser
};
struct Call
{
    What what;
    char s{'\0'};
    std::string l{};
    bool required{false}, advanced{false}, hidden{false}, bad_default{false};
    std::string message{};
    std::string text() const
    {
        static char const * const n[] = {"add_option",
                                         "add_option(list)",
                                         "add_flag",
                                         "add_positional_option",
                                         "add_positional_option(list)",
                                         "add_subcommands",
                                         "add_section",
                                         "add_subsection",
                                         "add_line",
                                         "add_list_item",
                                         "parse",
                                         "is_option_set",
                                         "get_sub_parser"};
        std::string r = n[what];
        r += " ";
        if (s)
            r += std::string{"'"} + s + "'";
        if (!l.empty())
            r += "\"" + l + "\"";
        if (required)
            r += " required";
        if (advanced)
            r += " advanced";
        if (hidden)
            r += " hidden";
        if (bad_default)
            r += " default-true";
        if (!message.empty())
            r += " message";
        return r;
    }
};
std::vector<Call> const menu{
    {opt, 'a', "alpha"},
    {opt, 'a', ""},
    {opt, 'b', "alpha"},
    {opt, 'b', "", true},
    {opt, 'b', "beta", true, false, false, false, "msg"},  // required with a message
    {opt, 'c', "beta", false, true, true, false, "msg"},
    {opt, '\0', "beta"},
    {opt, 'c', "h!"},
    {opt, '\0', "a"},
    {opt, '\0', ""},
    {opt, 'd', "version-check"},
    {opt, 'h', "beta"},
    {opt_list, 'd', "alph"},
    {flg, 'a', "beta"},
    {flg, 'c', "alpha"},
    {flg, 'd', "", false, false, false, true},             // default true
    {flg, 'd', "beta", false, false, false, false, "msg"}, // default message
    {flg, 'd', "alph", true},
    {flg, '\0', ""},
    {flg, '-', "beta"},
    {pos},
    {pos_list},
    {pos, '\0', "", true},
    {pos, 'a', ""},
    {pos, '\0', "gamma"},
    {pos, '\0', "", false, true},
    {pos_list, '\0', "", false, false, true},
    {pos_list, '\0', "", false, false, false, false, "msg"},
    {subcommands, '\0', "sub"},
    {subcommands, '\0', ""}, // an empty list
    {section},
    {subsection},
    {line},
    {list_item},
    {do_parse},
    {ask, 'a'},
    {ask, 'b'},
    {ask, '\0', "alpha"},
    {ask, '\0', "alph"},
    {ask, '\0', "a"},
    {ask, '\0', "beta"},
    {sub_parser},
};

struct Model
{
    std::set<std::string> used{reserved};
    std::vector<Call const *> options{}, positionals{}; // accepted
    std::vector<size_t> option_slot{}, positional_slot{};
    bool has_list{false}, has_sub{false}, parsed{false};
    size_t options_at_parse{0};

    bool ids_ok(Call const & c) const
    {
        if (!c.s && c.l.empty())
            return false;
        if (c.s && (!valid_short(c.s) || used.contains(std::string(1, c.s))))
            return false;
        return c.l.empty() || (valid_long(c.l) && !used.contains(c.l));
    }
    //!\brief Is the call accepted?
    bool step(Call const & c, size_t slot)
    {
        switch (c.what)
        {
        case opt:
        case opt_list:
        case flg:
            if (parsed || !ids_ok(c))
                return false;
            if (c.what == flg && (c.bad_default || !c.message.empty()))
                return false;
            if (c.what != flg && c.required && !c.message.empty())
                return false;
            if (c.s)
                used.insert(std::string(1, c.s));
            if (!c.l.empty())
                used.insert(c.l);
            options.push_back(&c);
            option_slot.push_back(slot);
            return true;
        case pos:
        case pos_list:
            if (parsed || c.s || !c.l.empty() || c.advanced || c.hidden || !c.message.empty() || has_list || has_sub)
                return false;
            has_list = c.what == pos_list;
            positionals.push_back(&c);
            positional_slot.push_back(slot);
            return true;
        case subcommands:
            if (parsed || (!positionals.empty() && !c.l.empty()))
                return false;
            has_sub = has_sub || !c.l.empty();
            return true;
        case section:
        case subsection:
        case line:
        case list_item: return !parsed;
        case do_parse:
            if (parsed)
                return false;
            parsed = true;
            return true;
        case ask:
            if (!parsed || (!c.s && c.l.size() == 1))
                return false;
            for (auto * o : options)
                if (o->what != flg && ((c.s && o->s == c.s) || (!c.s && o->l == c.l)))
                    return true;
            return false;
        case sub_parser: return parsed && has_sub;
        }
        return false;
    }
    std::vector<std::string> line_for(bool long_ids) const
    {
        std::vector<std::string> v{"app"};
        for (size_t k = 0; k < options.size(); ++k)
        {
            auto & o = *options[k];
            v.push_back((long_ids && !o.l.empty()) || !o.s ? "--" + o.l : std::string{'-', o.s});
            if (o.what != flg)
                v.push_back(std::to_string(100 + option_slot[k]));
        }
        for (size_t k = 0; k < positionals.size(); ++k)
            v.push_back(std::to_string(100 + positional_slot[k]));
        if (has_sub)
        {
            v.push_back("sub");
            v.push_back("x");
        }
        if (v.size() == 1)
            v.push_back("--");
        return v;
    }
};

struct Slot
{
    int i{7};
    std::vector<int> v{7};
    bool f{false};
};

void sequences(mc::Ctx & c, std::vector<size_t> const & indices, size_t max_depth)
{
    size_t const n = c.choose(max_depth) + 1;
    std::vector<size_t> seq;
    for (size_t k = 0; k < n; ++k)
        seq.push_back(c.pick(indices));
    bool const long_ids = c.flip();
    if (!c.run())
        return;
    auto text = [&]()
    {
        std::string r;
        for (size_t i : seq)
            r += (r.empty() ? "" : "; ") + menu[i].text();
        return r;
    };
    c.describe(text);
    // The command line fits what has been accepted when parse() is called.
    Model m;
    for (size_t k = 0; k < n && !m.parsed; ++k)
        if (menu[seq[k]].what != do_parse)
            m.step(menu[seq[k]], k);
        else
            break;
    auto const args = m.line_for(long_ids);
    m = Model{};

    sharg::parser p{"app", args, sharg::update_notifications::off};
    p.info.version = "1.0.0";
    std::vector<Slot> slots(n);
    for (size_t k = 0; k < n; ++k)
        slots[k].f = menu[seq[k]].bad_default;
    auto drive = [&](Call const & o, Slot & t)
    {
        sharg::config cfg{.short_id = o.s,
                          .long_id = o.l,
                          .description = "text",
                          .default_message = o.message,
                          .advanced = o.advanced,
                          .hidden = o.hidden,
                          .required = o.required};
        switch (o.what)
        {
        case opt: p.add_option(t.i, cfg); break;
        case opt_list: p.add_option(t.v, cfg); break;
        case flg:
            p.add_flag(t.f, cfg);
            break;
        case pos: p.add_positional_option(t.i, cfg); break;
        case pos_list: p.add_positional_option(t.v, cfg); break;
        case subcommands: p.add_subcommands(o.l.empty() ? std::vector<std::string>{} : std::vector<std::string>{o.l, "another"}); break;
        case section: p.add_section("title"); break;
        case subsection: p.add_subsection("title"); break;
        case line: p.add_line("text"); break;
        case list_item: p.add_list_item("key", "text"); break;
        case do_parse: p.parse(); break;
        case ask:
            if (bool r = o.s ? p.is_option_set(o.s) : p.is_option_set(o.l); true)
            {
                bool expected = false;
                for (auto * x : m.options)
                    if (x->what != flg)
                        expected = expected || (o.s ? x->s == o.s && (!long_ids || x->l.empty()) : x->l == o.l && (long_ids || !x->s));
                if (r != expected)
                    c.fail("is_option_set answers " + std::to_string(r) + "\n  in: " + text());
            }
            break;
        case sub_parser: p.get_sub_parser(); break;
        }
    };
    auto check_values = [&]()
    {
        for (size_t k = 0; k < n; ++k)
        {
            bool accepted = std::ranges::count(m.option_slot, k) || std::ranges::count(m.positional_slot, k);
            Call const & o = menu[seq[k]];
            int const value = 100 + int(k);
            Slot e;
            if (o.what == flg)
                e.f = o.bad_default || accepted;
            else if (accepted && (o.what == opt || o.what == pos))
                e.i = value;
            else if (accepted)
                e.v = {value};
            if (e.i != slots[k].i || e.v != slots[k].v || e.f != slots[k].f)
                c.fail("wrong value of the variable of call " + std::to_string(k + 1) + "\n  in: " + text());
        }
    };
    auto one = [&](Call const & o, size_t k)
    {
        bool const ok = m.step(o, k);
        Slot dummy;
        dummy.f = o.bad_default;
        auto r = mc::call([&]() { drive(o, k < n ? slots[k] : dummy); });
        uint64_t h = mc::mix(mc::mix(m.has_list, m.has_sub), m.parsed);
        for (auto & u : m.used)
            h = mc::hash_str(u, h);
        for (auto * x : m.options)
            h = mc::mix(h, x->what);
        c.state(mc::mix(h, m.positionals.size()));
        c.step();
        c.outcome(o.text().substr(0, o.text().find(' ')) + ": " + mc::err_name(r.err));
        Err const e = ok ? Err::none : Err::design_error;
        if (r.exited || r.err != e || (!ok && r.what.empty()))
            c.fail(o.text() + ": expected " + mc::err_name(e) + ", got " + (r.exited ? "exit" : mc::err_name(r.err)) + " " + r.what
                   + "\n  in: " + text() + "\n  arguments: " + mc::qv(args));
        if (o.what == do_parse && ok && r.err == Err::none)
            check_values();
    };
    for (size_t k = 0; k < n; ++k)
        one(menu[seq[k]], k);
    static Call const parse_call{do_parse};
    if (!m.parsed) // whatever was rejected, the accepted calls work
        one(parse_call, n);
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    std::vector<size_t> all(menu.size());
    std::iota(all.begin(), all.end(), 0);
    mc::add_section("C12/calls", [=](mc::Ctx & c) { sequences(c, all, 3); });
    // Fewer calls, longer sequences.
    std::vector<size_t> const few{0, 2, 4, 6, 7, 12, 14, 15, 20, 21, 25, 28, 34, 35, 41};
    mc::add_section("C12/long sequences", [=](mc::Ctx & c) { sequences(c, few, T ? 6 : 5); });
    if (T)
        mc::add_section("C12/calls, four", [=](mc::Ctx & c) { sequences(c, all, 4); });

    mc::add_section("C12/short identifiers",
                    [](mc::Ctx & c)
                    {
                        char const s = static_cast<char>(c.choose(256));
                        int const kind = c.choose(3);
                        bool const with_long = c.flip();
                        if (!c.run())
                            return;
                        c.describe([&]() { return "short identifier " + mc::q(std::string(1, s)); });
                        c.step();
                        c.state(mc::mix(static_cast<unsigned char>(s), kind * 2 + with_long));
                        bool ok = s == '\0' ? with_long : valid_short(s) && s != 'h';
                        sharg::parser p{"app", std::vector<std::string>{"app", "x"}, sharg::update_notifications::off};
                        int i{};
                        std::vector<int> l{};
                        bool f{};
                        auto r = mc::call(
                            [&]()
                            {
                                sharg::config cfg{.short_id = s, .long_id = with_long ? "long" : ""};
                                if (kind == 0)
                                    p.add_option(i, cfg);
                                else if (kind == 1)
                                    p.add_option(l, cfg);
                                else
                                    p.add_flag(f, cfg);
                            });
                        c.outcome(mc::err_name(r.err));
                        if (r.err != (ok ? Err::none : Err::design_error))
                            c.fail("short identifier " + mc::q(std::string(1, s)) + ": " + mc::err_name(r.err) + " " + r.what);
                    });

    // Every byte at every position of an otherwise valid name.
    mc::add_section("C12/every byte",
                    [](mc::Ctx & c)
                    {
                        static std::vector<std::string> const bases{"ab", "a-b", "long-identifier_2", "Z9", std::string(33, 'q'), std::string(129, 'R'), std::string(1000, '7')};
                        std::string l = c.pick(bases);
                        size_t const at = l.size() < 20 ? c.choose(l.size() + 1) : c.pick(std::vector<size_t>{0, 1, l.size() / 2, l.size() - 1, l.size()});
                        char const b = static_cast<char>(c.choose(256));
                        bool const replace = c.flip();
                        int const kind = c.choose(5); // option, flag, app name, first, last subcommand
                        if (at == l.size())
                            l += b;
                        else if (replace)
                            l[at] = b;
                        else
                            l.insert(at, 1, b);
                        if (!c.run())
                            return;
                        c.describe([&]() { return "name " + mc::q(l) + " as " + std::to_string(kind); });
                        c.step();
                        c.state(mc::hash_str(l, kind));
                        bool const ok = kind < 2 ? valid_long(l) : valid_name(l);
                        std::vector<std::string> subs;
                        if (kind == 3)
                            subs = {l, "other"};
                        if (kind == 4)
                            subs = {"other", l};
                        int i{};
                        bool f{};
                        sharg::parser p{kind == 2 ? l : "app", std::vector<std::string>{"app", kind > 2 ? "other" : "-i3"}, sharg::update_notifications::off, subs};
                        auto r = mc::call(
                            [&]()
                            {
                                p.add_option(i, sharg::config{.short_id = 'i'});
                                if (kind == 0)
                                    p.add_option(i, sharg::config{.long_id = l});
                                if (kind == 1)
                                    p.add_flag(f, sharg::config{.long_id = l});
                            });
                        if (kind >= 2 && r.err == Err::none)
                            r = mc::call([&]() { p.parse(); });
                        c.outcome(mc::err_name(r.err));
                        if (r.err != (ok ? Err::none : Err::design_error))
                            c.fail("name " + mc::q(l) + " as " + std::to_string(kind) + ": " + mc::err_name(r.err) + " " + r.what);
                    });
    // Many declarations, and a second declaration of one of the identifiers, with any other identifier, in between or at the end.
    mc::add_section("C12/many declarations",
                    [=](mc::Ctx & c)
                    {
                        size_t const n = 1 + c.choose(T ? 50 : 22);
                        size_t const j = c.choose(n);       // the declaration that is repeated
                        size_t const at = c.choose(n + 1);  // before which it is repeated
                        int const how = c.choose(5);        // short, long, short and a new long, new short and long, nothing repeated
                        int const kind = c.choose(3);
                        if (!c.run())
                            return;
                        static std::string const shorts = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXY12345678";
                        auto text = [&]()
                        {
                            return std::to_string(n) + " declarations, the identifier of number " + std::to_string(j) + " repeated before " + std::to_string(at)
                                 + ", how " + std::to_string(how) + ", kind " + std::to_string(kind);
                        };
                        c.describe(text);
                        c.state(mc::mix(mc::mix(n, j), mc::mix(at, how * 3 + kind)));
                        auto short_of = [&](size_t d) { return shorts[d]; };
                        auto long_of = [&](size_t d) { return "name" + std::to_string(d); };
                        std::vector<int> v(n + 1, 7);
                        std::vector<std::vector<int>> lists(n + 1);
                        std::deque<bool> flags(n + 1, false);
                        std::vector<std::string> args{"app"};
                        bool const has_again = how != 4;
                        for (size_t d = 0; d < n; ++d)
                        {
                            args.push_back("--" + long_of(d));
                            if (d % 3 != 1)
                                args.push_back(std::to_string(d));
                        }
                        sharg::parser p{"app", args, sharg::update_notifications::off};
                        auto add = [&](size_t k, char s, std::string const & l, size_t slot)
                        {
                            c.step();
                            return mc::call(
                                [&]()
                                {
                                    if (k == 0)
                                        p.add_option(v[slot], sharg::config{.short_id = s, .long_id = l, .advanced = slot % 2 == 1, .hidden = slot % 5 == 3});
                                    else if (k == 1)
                                        p.add_flag(flags[slot], sharg::config{.short_id = s, .long_id = l, .advanced = slot % 2 == 1, .hidden = slot % 5 == 3});
                                    else
                                        p.add_option(lists[slot], sharg::config{.short_id = s, .long_id = l, .advanced = slot % 2 == 1, .hidden = slot % 5 == 3});
                                });
                        };
                        for (size_t d = 0; d <= n; ++d)
                        {
                            if (d == at && has_again)
                            {
                                auto r = add(kind,
                                             how == 0 || how == 2 ? short_of(j) : how == 3 ? 'Z' : '\0',
                                             how == 1 || how == 3 ? long_of(j) : how == 2 ? "another" : "",
                                             n);
                                // a repetition that comes first takes the identifier
                                bool const ok = at <= j;
                                if (r.err != (ok ? Err::none : Err::design_error))
                                    return c.fail(std::string{"the repetition: "} + mc::err_name(r.err) + " " + r.what + "\n  in: " + text());
                                c.outcome(ok ? "first" : "repetition");
                            }
                            if (d == n)
                                break;
                            auto r = add(d % 3, short_of(d), long_of(d), d);
                            bool const ok = !(has_again && d == j && at <= j);
                            if (r.err != (ok ? Err::none : Err::design_error))
                                return c.fail("declaration " + std::to_string(d) + ": " + mc::err_name(r.err) + " " + r.what + "\n  in: " + text());
                        }
                        if (has_again && at <= j)
                            return; // the command line does not fit
                        auto r = mc::call([&]() { p.parse(); });
                        if (r.err != Err::none)
                            return c.fail(r.what + "\n  in: " + text());
                        for (size_t d = 0; d < n; ++d)
                            if (d % 3 == 0 ? v[d] != int(d) : d % 3 == 1 ? !flags[d] : lists[d] != std::vector<int>{int(d)})
                                c.fail("wrong value of declaration " + std::to_string(d) + "\n  in: " + text());
                        if (v[n] != 7 || flags[n] || !lists[n].empty())
                            c.fail("the rejected declaration changed its variable\n  in: " + text());
                    });

    static std::string const chars{std::string{"aZ9@_-= .:/\\\"'`$;&|<>\n\t\0\x7f\xc3\xa4"} + '\0'};
    mc::add_section("C12/long identifiers",
                    [=](mc::Ctx & c)
                    {
                        size_t const n = c.choose(T ? 5 : 4);
                        std::string l;
                        for (size_t k = 0; k < n; ++k)
                            l += chars[c.choose(chars.size())];
                        int const kind = c.choose(2);
                        if (!c.run())
                            return;
                        c.describe([&]() { return "long identifier " + mc::q(l); });
                        c.step();
                        c.state(mc::hash_str(l, kind));
                        bool const ok = valid_long(l);
                        sharg::parser p{"app", std::vector<std::string>{"app", "--" + l}, sharg::update_notifications::off};
                        int i{};
                        bool f{};
                        auto r = mc::call(
                            [&]()
                            {
                                if (kind == 0)
                                    p.add_option(i, sharg::config{.long_id = l});
                                else
                                    p.add_flag(f, sharg::config{.long_id = l});
                            });
                        c.outcome(mc::err_name(r.err));
                        if (r.err != (ok ? Err::none : Err::design_error))
                            return c.fail("long identifier " + mc::q(l) + ": " + mc::err_name(r.err) + " " + r.what);
                        if (!ok || kind == 0)
                            return;
                        r = mc::call([&]() { p.parse(); });
                        if (r.err != Err::none || !f)
                            c.fail("flag " + mc::q(l) + " is not usable: " + r.what);
                    });

    mc::add_section("C12/many subcommands",
                    [=](mc::Ctx & c)
                    {
                        static std::vector<size_t> const counts{1, 2, 5, 16, 17, 40, 300};
                        size_t const n = c.pick(counts);
                        size_t const at = n <= 40 ? c.choose(n) : 43 * c.choose(n / 43 + 1);
                        std::string const name = c.pick(std::vector<std::string>{"good", "-good", "good-", "12", "", " ", "a b", "b@d", "ba.d", "b\xc3\xa4" "d", "bad\n", "b=d"});
                        bool const later = c.flip();
                        int const first = c.choose(3); // the first name, the last name, an option
                        if (!c.run())
                            return;
                        c.describe([&]() { return std::to_string(n) + " subcommands, number " + std::to_string(at) + ": " + mc::q(name); });
                        c.step(n);
                        c.state(mc::hash_str(name, mc::mix(n, at)));
                        std::vector<std::string> names;
                        for (size_t k = 0; k < n; ++k)
                            names.push_back(k == at ? name : "sub" + std::to_string(k));
                        bool const ok = valid_name(name);
                        std::string const used = first == 2 ? "-i3" : first ? names.back() : names.front();
                        sharg::parser p{"app", std::vector<std::string>{"app", used}, sharg::update_notifications::off, later ? std::vector<std::string>{} : names};
                        int i{};
                        auto r = mc::call(
                            [&]()
                            {
                                if (later)
                                    p.add_subcommands(names);
                                p.add_option(i, sharg::config{.short_id = 'i'});
                            });
                        if (r.err != Err::none)
                            c.fail("unexpected " + r.what);
                        r = mc::call([&]() { p.parse(); });
                        c.outcome(mc::err_name(r.err));
                        bool const other = first == 2 || used.starts_with('-'); // no subcommand is named
                        if (!ok)
                        {
                            if (r.err != Err::design_error)
                                c.fail(std::string{"expected design_error, got "} + mc::err_name(r.err));
                            return;
                        }
                        if (other)
                        {
                            if (r.err == Err::design_error)
                                c.fail("design_error: " + r.what);
                            return;
                        }
                        std::string got;
                        if (r.err == Err::none)
                            r = mc::call([&]() { got = p.get_sub_parser().info.app_name; });
                        if (r.err != Err::none || got != "app-" + used)
                            c.fail(std::string{"expected sub parser app-"} + used + ", got " + mc::err_name(r.err) + " " + r.what + got);
                    });
    mc::add_section("C12/application and subcommand names",
                    [=](mc::Ctx & c)
                    {
                        size_t const n = c.choose(T ? 5 : 4);
                        std::string l;
                        for (size_t k = 0; k < n; ++k)
                            l += chars[c.choose(chars.size())];
                        int const kind = c.choose(5); // app name, only/first/last subcommand, added subcommand
                        bool const help = c.flip();
                        if (!c.run())
                            return;
                        c.describe([&]() { return "name " + mc::q(l) + " as " + std::to_string(kind); });
                        c.step();
                        c.state(mc::hash_str(l, kind));
                        bool const ok = valid_name(l);
                        std::vector<std::string> subs;
                        if (kind == 1)
                            subs = {l};
                        if (kind == 2)
                            subs = {"good", l};
                        if (kind == 3)
                            subs = {l, "zzz"};
                        int i{};
                        sharg::parser p{kind == 0 ? l : "app",
                                        std::vector<std::string>{"app", help ? "--help" : kind == 0 ? "-i3" : kind == 1 ? l : kind == 4 ? "gut" : subs[kind == 3]},
                                        sharg::update_notifications::off,
                                        subs};
                        auto r = mc::call(
                            [&]()
                            {
                                p.add_option(i, sharg::config{.short_id = 'i'});
                                if (kind == 4)
                                    p.add_subcommands({"gut", l});
                            });
                        if (r.err != Err::none)
                            c.fail("unexpected " + r.what);
                        r = mc::call([&]() { p.parse(); });
                        c.outcome(r.exited ? "exit" : mc::err_name(r.err));
                        // a name that looks like an option cannot be used on the command line
                        bool const unusable = l.starts_with('-') && kind >= 1;
                        if (!ok ? r.err != Err::design_error : help ? !r.exited : (r.err != Err::none && !unusable))
                            c.fail("name " + mc::q(l) + " as " + std::to_string(kind) + ": " + (r.exited ? "exit" : mc::err_name(r.err)) + " " + r.what);
                        if (!ok && !r.out.empty())
                            c.fail("name " + mc::q(l) + ": output in spite of the error");
                    });
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
