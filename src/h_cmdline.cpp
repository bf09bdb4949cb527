// C01-C05, C10, C11, C13: command line parsing against the reference model.
#include "cmdline.hpp"
using namespace cl;

namespace
{
std::deque<Config> configs;

//!\brief All argument lists of at most `len` tokens.
void lines(std::string name, Config const & cfg, std::vector<std::string> tokens, size_t len, bool argv = false)
{
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        size_t const n = c.choose(len + 1);
                        bool const use_argv = argv && c.flip();
                        std::vector<std::string> args;
                        for (size_t k = 0; k < n; ++k)
                            args.push_back(c.pick(tokens));
                        if (!c.run())
                            return;
                        c.describe([&]() { return describe(cfg, {}, args); });
                        if (auto m = check_case(c, cfg, args, {}, use_argv); !m.empty())
                            c.fail(m);
                    });
}
//!\brief All orders of the options and flags, and all argument lists.
void orders(std::string name, Config const & cfg, std::vector<std::string> tokens, size_t len)
{
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        std::vector<size_t> movable, fixed, order;
                        for (size_t d = 0; d < cfg.decls.size(); ++d)
                            (cfg.decls[d].kind == Kind::pos ? fixed : movable).push_back(d);
                        bool const pos_first = !fixed.empty() && c.flip();
                        while (!movable.empty())
                        {
                            size_t k = c.choose(movable.size());
                            order.push_back(movable[k]);
                            movable.erase(movable.begin() + k);
                        }
                        order.insert(pos_first ? order.begin() : order.end(), fixed.begin(), fixed.end());
                        size_t const n = c.choose(len + 1);
                        std::vector<std::string> args;
                        for (size_t k = 0; k < n; ++k)
                            args.push_back(c.pick(tokens));
                        if (!c.run())
                            return;
                        c.describe([&]() { return describe(cfg, order, args); });
                        if (auto m = check_case(c, cfg, args, order); !m.empty())
                            c.fail(m);
                    });
}
Config const & config(std::string name,
                      std::vector<Decl> d,
                      std::vector<std::pair<std::string, Config const *>> subs = {})
{
    configs.push_back({std::move(name), std::move(d), std::move(subs)});
    return configs.back();
}
Decl opt(char s, std::string l, Ty t, bool req = false, int def = 0, Val v = Val::none)
{
    return {Kind::opt, s, l, t, req, def, v};
}
Decl flag(char s, std::string l) { return {Kind::flag, s, l, Ty::boolean, false, 0, Val::none}; }
Decl advanced(Decl d) { return d.advanced = true, d; }
Decl pos(Ty t, int def = 0, Val v = Val::none) { return {Kind::pos, '\0', "", t, false, def, v}; }

//!\brief Two options or flags whose identifiers differ in one character, for every character; in both orders.
void related(std::string name, size_t len)
{
    static std::string const valid = []()
    {
        std::string v = "_-@";
        for (char ch = '0'; ch <= 'z'; ++ch)
            if (std::isalnum(ch))
                v += ch;
        return v;
    }();
    struct Case
    {
        Config cfg;
        std::vector<std::string> tokens;
    };
    static std::map<std::array<size_t, 3>, Case> cases; // every worker has its own
    mc::add_section(name,
                    [=](mc::Ctx & c)
                    {
                        size_t const relation = c.choose(4);
                        size_t const which = c.choose(valid.size());
                        size_t const kinds = c.choose(4);
                        char const ch = valid[which];
                        auto [it, is_new] = cases.try_emplace({relation, which, kinds});
                        Case & x = it->second;
                        if (is_new)
                        {
                            std::string const first = "len", second = relation == 0                ? first + ch
                                                                    : relation == 1              ? first + ch + "max"
                                                                    : relation == 2 && ch != '-' ? ch + first
                                                                                                 : std::string{"l"} + ch + "n";
                            char const short_1 = ch == 'a' ? 'b' : 'a', short_2 = ch == '-' || ch == 'h' ? '\0' : ch;
                            std::string const other = second == "len" ? "len_" : second;
                            x.cfg = {"related identifiers",
                                     {kinds & 1 ? flag(short_1, first) : opt(short_1, first, Ty::str, false, 1),
                                      kinds & 2 ? flag(short_2, other) : opt(short_2, other, Ty::str, false, 1), pos(Ty::l_str)},
                                     {}};
                            std::string const s1{'-', short_1}, s2{'-', ch == 'h' ? 'H' : ch}; // -h prints a page
                            x.tokens = {s1, s2, "--" + first, "--" + other, "--" + first + "=x", "--" + other + "=y", s1 + ch, s2 + short_1,
                                        s1 + "=" + s2, s2 + "=--" + first, "z"};
                        }
                        bool const swapped = c.flip();
                        size_t const n = c.choose(len + 1);
                        std::vector<std::string> args;
                        for (size_t k = 0; k < n; ++k)
                            args.push_back(c.pick(x.tokens));
                        if (!c.run())
                            return;
                        std::vector<size_t> const order = swapped ? std::vector<size_t>{1, 0, 2} : std::vector<size_t>{0, 1, 2};
                        c.describe([&]() { return describe(x.cfg, order, args); });
                        if (auto m = check_case(c, x.cfg, args, order); !m.empty())
                            c.fail(m);
                    });
}

//!\brief Long argument lists: up to `max` arguments, taken in turn from `fill` ('#' is replaced by the number of the argument),
//!       and at most two of `tokens` anywhere.
void inserted(std::string name,
              Config const & cfg,
              std::vector<std::string> fill,
              std::vector<std::string> tokens,
              size_t max,
              bool reverse = false)
{
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        size_t const n = c.choose(max + 1);
                        size_t const k = c.choose(3);
                        std::vector<std::string> args;
                        for (size_t j = 0; j < n; ++j)
                        {
                            args.push_back(fill[j % fill.size()]);
                            if (auto at = args.back().find('#'); at != std::string::npos)
                                args.back().replace(at, 1, std::to_string(j));
                        }
                        size_t at = n;
                        for (size_t j = 0; j < k; ++j)
                        {
                            at = c.choose(at + 1);
                            args.insert(args.begin() + at, c.pick(tokens));
                        }
                        std::vector<size_t> order;
                        if (reverse && c.flip())
                            for (size_t d = cfg.decls.size(); d--;)
                                order.push_back(d);
                        if (!c.run())
                            return;
                        c.describe([&]() { return describe(cfg, order, args); });
                        if (auto m = check_case(c, cfg, args, order); !m.empty())
                            c.fail(m);
                    });
}
//!\brief Everything that only concerns the pages (hidden, advanced, default_message, the description, sections between the
//!       declarations) in all combinations: the command line means the same.
void presentation(std::string name, std::vector<Decl> decls, std::vector<std::string> tokens, size_t len)
{
    static std::map<std::string, std::map<std::vector<size_t>, Config>> cases; // every worker has its own
    mc::add_section(name,
                    [=](mc::Ctx & c)
                    {
                        std::vector<size_t> variant;
                        for (auto & d : decls)
                            variant.push_back(c.choose(d.kind == Kind::pos ? 2 : d.kind == Kind::opt && !d.req ? 5 : 4));
                        size_t const n = c.choose(len + 1);
                        std::vector<std::string> args;
                        for (size_t k = 0; k < n; ++k)
                            args.push_back(c.pick(tokens));
                        if (!c.run())
                            return;
                        auto [it, is_new] = cases[name].try_emplace(variant);
                        Config & cfg = it->second;
                        if (is_new)
                        {
                            cfg.name = name + " " + mc::qv([&]() { std::vector<std::string> v; for (size_t x : variant) v.push_back(std::to_string(x)); return v; }());
                            cfg.decls = decls;
                            size_t sum = 0;
                            for (size_t d = 0; d < decls.size(); ++d)
                            {
                                auto & D = cfg.decls[d];
                                size_t const v = variant[d];
                                sum = sum * 5 + v;
                                if (D.kind == Kind::pos)
                                    D.text = v ? "\\fB--help\\fP -s\n\nx: " : D.text;
                                else
                                {
                                    D.hidden = v == 1 || v == 3;
                                    D.advanced = v == 2 || v == 3;
                                    if (v)
                                        D.text = v == 1 ? "" : v == 2 ? "-i=3 [--]" : std::string(90, 'w') + "\n\\";
                                    if (v == 4)
                                        D.default_message = "no --flag 7";
                                }
                            }
                            cfg.sections = sum * 2654435761u >> 7 & ((1u << decls.size()) - 1);
                        }
                        c.describe([&]() { return describe(cfg, {}, args); });
                        if (auto m = check_case(c, cfg, args); !m.empty())
                            c.fail(m);
                    });
}
//!\brief Many options and flags, of which one, two or all are given; several orders of declaration.
void many(std::string name, size_t n, size_t step)
{
    static std::string const shorts = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@";
    std::vector<Decl> decls;
    for (size_t d = 0; d < n; ++d)
    {
        std::string const l = d % 5 == 4 && d < shorts.size() ? "" : "id" + std::to_string(d);
        char const s = (d % 7 == 6 && !l.empty()) || d >= shorts.size() ? '\0' : shorts[d];
        if (d % 3 == 1)
            decls.push_back(flag(s, l));
        else
            decls.push_back(opt(s, l, d % 3 ? Ty::l_str : Ty::str, false, 1));
    }
    Config const & cfg = config(name, decls);
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        auto write = [&](size_t d, size_t style, std::vector<std::string> & args)
                        {
                            Decl const & D = cfg.decls[d];
                            bool const use_long = !D.s || (!D.l.empty() && style % 2);
                            std::string const id = use_long ? "--" + D.l : std::string{'-', D.s};
                            std::string const value = "v" + std::to_string(d);
                            if (D.kind == Kind::flag)
                                args.push_back(id);
                            else if (style / 2)
                                args.insert(args.end(), {id, value});
                            else
                                args.push_back(id + "=" + value);
                        };
                        size_t const rotation = c.choose(4);
                        size_t const style = c.choose(4);
                        bool const all = c.flip();
                        size_t const i = step * c.choose((n + step - 1) / step);
                        size_t const j = n > 100 ? std::min(n - 1, 31 * c.choose(n / 31 + 1)) : c.choose(n);
                        if (!c.run())
                            return;
                        std::vector<size_t> order(n);
                        for (size_t d = 0; d < n; ++d)
                            order[d] = rotation == 3 ? n - 1 - d : (d + rotation * n / 3) % n;
                        std::vector<std::string> args;
                        if (all)
                            for (size_t d = 0; d < n; ++d) // from i on; without j
                            {
                                size_t const e = (d * 5 + i) % n; // n is not divisible by 5
                                if (e != j)
                                    write(e, (style + d) % 4, args);
                            }
                        else
                        {
                            write(i, style, args);
                            write(j, (style / 2 + style * 2) % 4, args);
                        }
                        c.describe([&]() { return describe(cfg, order, args); });
                        if (auto m = check_case(c, cfg, args, order); !m.empty())
                            c.fail(m);
                    });
}

//!\brief The sizes at which something may change: around powers of two.
std::vector<size_t> sizes(size_t max)
{
    std::vector<size_t> v;
    for (size_t p = 4; p <= max; p *= 2)
        for (size_t x : {p - 1, p, p + 1})
            if (v.empty() || x > v.back())
                v.push_back(x);
    return v;
}
//!\brief Very many arguments, each `fill[j % size]`, and one other token in front, in the middle, or behind.
void very_many(std::string name, Config const & cfg, std::vector<std::vector<std::string>> fills, std::vector<std::string> tokens, size_t max)
{
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        static std::vector<size_t> const ns = sizes(max);
                        auto const & fill = c.pick(fills);
                        size_t const n = c.pick(ns);
                        size_t const token = c.choose(tokens.size() + 1);
                        size_t const where = token ? c.choose(4) : 0;
                        if (n > max || !c.run())
                            return;
                        std::vector<std::string> args;
                        for (size_t j = 0; j < n; ++j)
                        {
                            args.push_back(fill[j % fill.size()]);
                            if (auto at = args.back().find('#'); at != std::string::npos)
                                args.back().replace(at, 1, std::to_string(j % 251));
                        }
                        if (token)
                            args.insert(args.begin() + std::vector<size_t>{0, n / 2, n - 1, n}[where], tokens[token - 1]);
                        c.describe([&]() { return std::to_string(n) + " arguments " + mc::qv(fill) + " with " + (token ? tokens[token - 1] : "nothing") + " at " + std::to_string(where); });
                        if (auto m = check_case(c, cfg, args); !m.empty())
                            c.fail(m);
                    });
}
//!\brief Long values and long identifiers, among them two that differ only in their last or first character.
void long_ones(std::string name, size_t max)
{
    mc::add_section(name,
                    [=](mc::Ctx & c)
                    {
                        static std::vector<size_t> const ns = sizes(size_t{1} << 20);
                        bool const long_id = c.flip();
                        size_t const n = c.pick(ns);
                        if (n > (long_id ? std::min<size_t>(max, 8192) : max))
                            return;
                        std::string const text = long_id ? std::string(n, 'x') : c.pick(std::vector<std::string>{"x", "-", "=", " x", "a\n"});
                        std::string value;
                        while (value.size() < n)
                            value += text;
                        value.resize(n);
                        size_t const notation = c.choose(8);
                        bool const swapped = c.flip();
                        size_t const shape = c.choose(long_id ? 4 : 2);
                        if (!c.run())
                            return;
                        static std::map<std::pair<size_t, size_t>, Config> cache;
                        std::string l1 = "name", l2 = "nama", l3 = "n-me";
                        if (long_id)
                        {
                            l1 = l2 = std::string(n - 1, 'k');
                            l1 += 'a', l2 += 'b';
                            l3 = shape & 1 ? "b" + std::string(n - 1, 'k') : std::string(n + 1, 'k');
                        }
                        auto [it, is_new] = cache.try_emplace({long_id ? n : 0, long_id ? shape & 1 : 0});
                        if (is_new)
                            it->second = {"long ones", {opt('i', l1, Ty::str, false, 1), opt('s', l2, Ty::l_str, false, 1), flag('f', l3), pos(Ty::l_str, 1)}, {}};
                        std::string const v = long_id ? "v" : value;
                        std::string const id = shape & 2 ? l2 : l1;
                        std::vector<std::string> args{"p"};
                        switch (notation)
                        {
                        case 0: args = {"--" + id, v, "p"}; break;
                        case 1: args = {"p", "--" + id + "=" + v}; break;
                        case 2: args = {"-i" + v, "p"}; break;
                        case 3: args = {"-fs", v, "--" + l3}; break;
                        case 4: args = {"-s=" + v, "--" + id + v}; break;
                        case 5: args = {"--", v, "--" + id}; break;
                        case 6: args = {"--" + l3, v, "--" + l2 + "=" + v, "--" + l1, v}; break;
                        case 7: args = {"-s", v, "--" + l2 + "x"}; break;
                        }
                        std::vector<size_t> const order = swapped ? std::vector<size_t>{3, 2, 1, 0} : std::vector<size_t>{};
                        c.describe([&]() { return "length " + std::to_string(n) + (long_id ? " of identifiers" : " of values ") + text.substr(0, 4) + ", notation " + std::to_string(notation); });
                        if (auto m = check_case(c, it->second, args, order); !m.empty())
                            c.fail(m.substr(0, 300) + (m.size() > 300 ? " ..." : ""));
                    });
}

//!\brief Every notation of every option with every short value made of the characters and identifiers of the configuration,
//!       and every group of up to three characters; with another argument in front or behind; all rotations of the declarations.
void attached(std::string name, Config const & cfg, std::vector<std::string> others, bool rotate = false)
{
    std::vector<std::string> chars, ids, values{""}, tokens;
    for (auto & d : cfg.decls)
    {
        if (d.s)
            chars.push_back({d.s}), ids.push_back({'-', d.s});
        if (!d.l.empty())
            ids.push_back("--" + d.l);
    }
    std::vector<std::string> more = chars;
    for (std::string c : {"-", "=", " ", "h", "7"})
        more.push_back(c);
    for (auto & a : more)
    {
        values.push_back(a);
        for (auto & b : more)
            values.push_back(a + b);
    }
    for (auto & i : ids)
        for (std::string tail : {"", "=", "=x", "x"})
            values.push_back(i + tail);
    for (auto & d : cfg.decls)
        if (d.kind == Kind::opt)
            for (auto & v : values)
            {
                if (d.s)
                {
                    tokens.push_back(std::string{'-', d.s} + v);
                    tokens.push_back(std::string{'-', d.s, '='} + v);
                }
                if (!d.l.empty())
                {
                    tokens.push_back("--" + d.l + "=" + v);
                    tokens.push_back("--" + d.l + v);
                }
            }
    for (auto & a : more)
        for (auto & b : more)
            for (auto & c : more)
                tokens.push_back("-" + a + b + c);
    std::ranges::sort(tokens);
    tokens.erase(std::unique(tokens.begin(), tokens.end()), tokens.end());
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        std::vector<std::string> args{c.pick(tokens)};
                        if (int const where = c.choose(3); where > 0)
                            args.insert(where == 1 ? args.begin() : args.end(), c.pick(others));
                        size_t const rotation = rotate ? c.choose(cfg.decls.size()) : 0;
                        if (!c.run())
                            return;
                        std::vector<size_t> order;
                        for (size_t d = 0; rotation && d < cfg.decls.size(); ++d)
                            order.push_back((d + rotation) % cfg.decls.size());
                        c.describe([&]() { return describe(cfg, order, args); });
                        if (auto m = check_case(c, cfg, args, order); !m.empty())
                            c.fail(m);
                    });
}

//!\brief Every line at one edit from the given lines (every byte inserted or substituted anywhere, every byte removed, every
//!       argument split, joined with the next one, removed or doubled), and the same byte inserted at every two places.
void edits(std::string name, Config const & cfg, std::vector<std::vector<std::string>> bases)
{
    mc::add_section(name,
                    [=, &cfg](mc::Ctx & c)
                    {
                        std::vector<std::string> args = c.pick(bases);
                        size_t const kind = c.choose(9);
                        size_t const a = c.choose(args.size());
                        std::string & t = args[a];
                        auto byte = [&]() { return char(c.choose(256)); };
                        switch (kind)
                        {
                        case 0:
                        {
                            size_t const at = c.choose(t.size() + 1);
                            t.insert(t.begin() + at, byte());
                            break;
                        }
                        case 1:
                            if (t.empty())
                                return;
                            t[c.choose(t.size())] = byte();
                            break;
                        case 2:
                            if (t.empty())
                                return;
                            t.erase(c.choose(t.size()), 1);
                            break;
                        case 3:
                        {
                            if (t.size() < 2)
                                return;
                            size_t const at = 1 + c.choose(t.size() - 1);
                            std::string const rest = t.substr(at);
                            t.resize(at);
                            args.insert(args.begin() + a + 1, rest);
                            break;
                        }
                        case 4:
                            if (a + 1 == args.size())
                                return;
                            t += args[a + 1];
                            args.erase(args.begin() + a + 1);
                            break;
                        case 5: args.erase(args.begin() + a); break;
                        case 6:
                        {
                            std::string const copy = t;
                            args.insert(args.begin() + c.choose(args.size() + 1), copy);
                            break;
                        }
                        case 7:
                        {
                            size_t const at = c.choose(t.size() + 1);
                            size_t const to = at + 1 + c.choose(t.size() + 1 - at);
                            size_t const x = c.choose(260);
                            t.insert(t.begin() + at, x < 256 ? char(x) : "([{<"[x - 256]);
                            t.insert(t.begin() + to, x < 256 ? char(x) : ")]}>"[x - 256]);
                            break;
                        }
                        case 8:
                            t.insert(c.choose(t.size() + 1),
                                     c.pick(std::vector<std::string>{"$HOME", "${HOME}", "%41", "\\n", "\\x41", "\\\\", "&lt;", "~/", "@/dev/null", "==", "=-",
                                                                     "-=", "--", "''", "\"\"", "../", "./", "no-", "0x", ",x", "\r\n", "\xc3\xa4", "\xe2\x80\x93"}));
                            break;
                        }
                        // NUL cannot be part of a command line; in arguments given as a vector, a single NUL and NUL in a group of
                        // flags are left out.
                        for (auto & s : args)
                            if (s == std::string(1, '\0') || (s.starts_with('-') && !s.starts_with("--") && s.find('\0') != s.npos))
                                return;
                        if (!c.run())
                            return;
                        c.describe([&]() { return describe(cfg, {}, args); });
                        if (auto m = check_case(c, cfg, args, {}); !m.empty())
                            c.fail(m);
                    });
}

} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;

    // ---- C01
    {
        auto & a = config("basic",
                          {opt('i', "int", Ty::i32, false, 1),
                           opt('s', "str", Ty::str, false, 1),
                           flag('f', "flag"),
                           flag('g', "gap"),
                           pos(Ty::l_str, 1)});
        lines("C01/basic", a,
              {"7", "-i", "--int", "-i7", "--int=7", "-i=7", "-s", "--str", "-sfoo", "--str=foo", "-s=-f", "-f", "--flag",
               "-fg", "-g", "foo", "--", "-", "", "-h"},
              T ? 5 : 4);
        // values that look like something else
        lines("C01/confusing", a,
              {"-s", "--str", "-i", "-s-f", "-s-s", "--str=--str", "--str==", "-s==", "-s=", "-fs", "-gf", "-f-gap", "--",
               "--int", "-1", "-i-1", "-", "--gap", "--help", "--str=--"},
              T ? 5 : 4);
        lines("C01/argv", a, {"-i", "7", "-s", "--str=foo", "-fg", "", "--", "-", "--gap", "--int=-7"}, T ? 5 : 4, true);
        auto & b = config("two positionals",
                          {opt('i', "int", Ty::i32), opt('b', "", Ty::boolean), opt('\0', "path", Ty::path), flag('f', ""),
                           flag('\0', "ff"), pos(Ty::i32), pos(Ty::str, 1)});
        lines("C01/positionals", b,
              {"-i", "3", "-b", "1", "--path", "--path=a b", "-f", "--ff", "-ff", "x y", "-b0", "-b=true", "--", "-", ""},
              T ? 6 : 5);
        auto & d = config("many short ids",
                          {flag('a', "aa"), flag('b', "bb"), flag('c', "cc"), opt('d', "dd", Ty::str), opt('_', "d_d", Ty::str),
                           opt('@', "d@d", Ty::str), flag('1', "11"), pos(Ty::l_str)});
        lines("C01/groups", d,
              {"-abc", "-cba", "-ab", "-c", "-1", "-a1", "-1c", "-da", "-ad", "-_a", "-@=b", "-d", "--d_d=-a", "--d@d", "--aa",
               "-a-bb", "-a-", "p"},
              T ? 5 : 4);
        auto & t = config("all types",
                          {opt('a', "", Ty::u8), opt('c', "", Ty::color), opt('d', "", Ty::dbl), opt('b', "", Ty::boolean),
                           opt('p', "", Ty::path), pos(Ty::str), pos(Ty::l_dbl)});
        lines("C01/types", t,
              {"-a", "255", "-c", "green", "-cred", "-d", "1e3", "-d-0.5", "-b", "0", "-bfalse", "-p", "-p/a b", "-p=", "",
               "-a-0", "1.25"},
              T ? 5 : 4);
        auto & l = config("long lines", {opt('i', "int", Ty::i32), flag('f', "flag"), pos(Ty::l_str)});
        lines("C01/long", l, {"-i", "5", "-f", "--"}, T ? 10 : 8);
        inserted("C01/many arguments", a, {"v#"}, {"-i", "-i7", "--str", "--str=a", "-f", "-fg", "--gap", "--", "-1", ""}, T ? 60 : 16);
        many("C01/many options", T ? 63 : 27, T ? 1 : 4);
        many("C01/very many options", 263, T ? 3 : 40);
        edits("C01/edits", a,
              {{"-i", "7", "-sfoo", "x", "-fg"}, {"--str=foo", "--gap", "--int", "-7", "y", "--flag"}, {"-gi8", "--", "-f"}, {"-s=a b", "--int=3"}, {"--str", "", "-f"}});
        edits("C01/edits of positionals", b, {{"-i3", "5", "--ff", "word"}, {"--path=a", "-b0", "1", "-f", "x"}, {"-b=true", "-1", "y"}});
        edits("C01/edits of types", t, {{"-a7", "-cred", "-d1.5", "x"}, {"-b=1", "-p/x", "y", "2.5"}});
        attached("C01/attached values", a, {"-i", "--int", "-s", "-f", "foo", "--", "-g", "--str=a", ""});
        presentation("C01/presentation", {opt('i', "int", Ty::i32, false, 1), opt('s', "str", Ty::str), flag('f', "flag"), pos(Ty::l_str, 1)},
                     {"-i", "7", "--int=8", "-i3", "-s", "--str=x", "-f", "--flag", "-fi5", "p", "--", "-h"}, T ? 4 : 2);
        long_ones("C01/long values and identifiers", T ? 1 << 20 : 1 << 17);
        very_many("C01/very many arguments", a, {{"v#"}, {"-f"}, {"--gap", "w#"}}, {"-i", "-i7", "--str=a", "-fg", "--", "-x", "x"}, T ? 65536 : 4096);
    }
    // ---- C02
    {
        related("C02/related identifiers", T ? 3 : 2);
        auto & a = config("prefixes",
                          {opt('a', "ab", Ty::str), opt('b', "abc", Ty::str), opt('c', "ab-c", Ty::str), flag('d', "abcd"),
                           flag('e', "a-b"), pos(Ty::l_str)});
        orders("C02/prefixes", a,
               {"-a", "--ab", "--ab=x", "--abc", "--abc=--ab", "--ab-c", "--ab-c=y", "--abcd", "-d", "-de", "-ed", "-b-a",
                "-c", "--a-b", "-e-abcd", "z", "--"},
               T ? 4 : 3);
        auto & b = config("flags", {flag('a', "bb"), flag('b', "cc"), flag('c', "aa"), flag('d', "a-b"), opt('x', "xx", Ty::i32)});
        orders("C02/flags", b,
               {"-a", "-b", "-abc", "-dcba", "--aa", "--bb", "--cc", "-a-bb", "-b-cc", "-d-a-b", "--a-b", "-x", "3", "-ax", "-xa"},
               T ? 4 : 3);
        auto & c = config("values",
                          {opt('a', "aa", Ty::l_str), opt('b', "bb", Ty::str), opt('c', "cc", Ty::i32), flag('f', "ff")});
        orders("C02/values", c,
               {"-a", "-b", "-c", "-f", "--aa", "--bb", "--cc=1", "-a-b", "-b-a", "--aa=-c", "--bb=--ff", "-c1", "-c-1", "--ff"},
               T ? 5 : 4);
        auto & r = config("required",
                          {opt('a', "aa", Ty::i32, true), opt('b', "bb", Ty::i32, false, 1, Val::range), opt('c', "cc", Ty::l_i32),
                           flag('f', "ff"), pos(Ty::str)});
        orders("C02/required", r, {"-a", "1", "--bb", "9", "-c", "--cc=2", "-f", "--aa=x", "-b=7", "--", "-x"}, T ? 5 : 4);
        inserted("C02/many arguments", c, {"-a=v#", "--aa", "w#"}, {"-b", "--bb=x", "-c1", "--cc", "2", "-f", "--ff", "-a"}, T ? 45 : 18, true);
        edits("C02/edits", a, {{"-a", "x", "--abc=y", "-de"}, {"--ab-c", "z", "--a-b"}, {"--ab=--abc", "--abcd"}, {"-b-a", "-c=d"}});
        many("C02/many options", T ? 61 : 34, T ? 1 : 6);
        many("C02/very many options", 299, T ? 3 : 50);
        attached("C02/attached values", c, {"-a", "--bb", "-c", "-f", "3", "--aa=x", "--"}, true);
        presentation("C02/presentation", {opt('a', "ab", Ty::str), flag('c', "abc"), opt('b', "ab-", Ty::str), pos(Ty::l_str)},
                     {"-a", "--ab", "--ab=x", "-c", "--abc", "-ca", "-b", "--ab-=y", "z"}, T ? 4 : 2);
        very_many("C02/very many arguments", c, {{"-a=v#"}, {"--aa", "w#"}, {"-f"}, {"-a", "-b"}}, {"-b", "--bb=x", "-c1", "-f", "-a"}, T ? 65536 : 4096);
    }
    // ---- C03
    {
        auto & a = config("end of options",
                          {opt('s', "str", Ty::str, false, 1), opt('l', "list", Ty::l_str), flag('f', "flag"), flag('g', "gg"),
                           pos(Ty::l_str)});
        lines("C03/everything", a,
              {"--", "-s", "--str", "--str=a", "-sa", "-l", "--list=b", "-lb", "-f", "--flag", "-fg", "-gf", "--help", "-h", "-hh",
               "--version", "--copyright", "--export-help", "--version-check", "", "-", "x", "-x", "---"},
              T ? 5 : 4);
        auto & b = config("end of options, two positionals",
                          {opt('s', "str", Ty::str, true), flag('f', "flag"), pos(Ty::str), pos(Ty::str)});
        lines("C03/two", b, {"--", "-s", "--str=a", "-f", "--flag", "--help", "x", "-s=--", "--export-help=man"}, T ? 6 : 5);
        auto & n = config("end of options, no positionals", {opt('s', "str", Ty::str), flag('f', "flag")});
        lines("C03/none", n, {"--", "-s", "-f", "--help", "--version", "-s--", "--str", "", "x"}, T ? 6 : 5);
        auto & i = config("end of options, numbers", {opt('i', "int", Ty::i32), pos(Ty::l_i32, 1)});
        lines("C03/numbers", i, {"--", "-i", "-1", "2", "--int=-3", "-i-4", "-5"}, T ? 6 : 5);
        // the marker behind many arguments
        lines("C03/far", n, {"--", "-s", "-f", "--str=x"}, T ? 9 : 7);
        edits("C03/edits", a, {{"-f", "--", "-s", "a", "--list=b"}, {"--str=--", "--", "--", "-g"}, {"-s", "--", "--", "--help"}, {"-lx", "y", "--", ""}});
        attached("C03/attached values", a, {"--", "-s", "--list", "-f"});
        inserted("C03/many arguments", a, {"-f", "--list=v#", "p#"}, {"--", "-s", "-l", "--str=a", "--help", "-g", "--version-check"}, T ? 45 : 18);
        inserted("C03/many behind the marker", a, {"--", "-f", "-s#", "--help", "-x"}, {"-s", "-l", "--flag", "--", "-hh"}, T ? 60 : 16);
        presentation("C03/presentation", {opt('s', "str", Ty::str, false, 1), flag('f', "flag"), opt('l', "ll", Ty::l_str), pos(Ty::l_str)},
                     {"--", "-s", "--str", "-f", "-l", "--ll=a", "--help", "x"}, T ? 4 : 2);
        very_many("C03/very many arguments", a, {{"x#"}, {"-f"}, {"-l", "--"}, {"--"}}, {"--", "-s", "--flag", "--help", "-x"}, T ? 65536 : 4096);
    }
    // ---- C04
    {
        auto & a = config("one required option, two positionals",
                          {opt('i', "int", Ty::i32, true, 0, Val::range), opt('w', "word", Ty::str, false, 0, Val::words),
                           flag('f', "flag"), pos(Ty::i32), pos(Ty::str, 0, Val::words)});
        lines("C04/mistakes", a,
              {"-i", "5", "-i=9", "--int=4", "-ix", "--int=", "--int", "-w", "one", "-wone", "--word=three", "-f", "-ff", "--flag",
               "--flag=1", "-x", "--xx", "-fx", "--", "-i99999999999"},
              T ? 5 : 4);
        auto & n = config("nothing declared", {});
        lines("C04/nothing", n, {"x", "", "-", "--", "-x", "--xx", "-xy", "-x=1", "--help", "--version-check", "0"}, T ? 6 : 4);
        auto & p = config("three positionals", {pos(Ty::i32), pos(Ty::color), pos(Ty::str)});
        lines("C04/positionals", p, {"1", "red", "x", "", "-", "-1", "--", "--xx", "9999999999", "1x"}, T ? 6 : 5);
        auto & f = config("flags only", {flag('a', ""), flag('b', "bb"), flag('\0', "cc")});
        lines("C04/flags", f, {"-a", "-b", "-ab", "-ba", "--bb", "--cc", "-c", "-abc", "--a", "--b", "--bb=1", "-a=", "--", "x", "-a-"},
              T ? 5 : 4);
        auto & o = config("options only",
                          {opt('a', "aa", Ty::u8), opt('b', "", Ty::boolean), opt('\0', "cc", Ty::color), opt('d', "dd", Ty::l_u8)});
        lines("C04/options", o,
              {"-a", "--aa=256", "-a255", "--aa", "-b", "true", "-b2", "--cc", "--cc=red", "--cc=Red", "-d", "-d300", "--dd=3", "7", "--a",
               "--ccc=red", "--c"},
              T ? 5 : 4);
        auto & l = config("list of numbers", {opt('i', "int", Ty::l_i32, true, 1, Val::range), pos(Ty::l_i32, 1, Val::range)});
        lines("C04/lists", l, {"-i", "3", "8", "-i=9", "--int=2", "--int", "-3", "--", "x", "-i-3"}, T ? 6 : 5);
        edits("C04/edits", a, {{"-i", "5", "3", "-wone", "two", "-f"}, {"--int=4", "--word", "one", "--flag", "-5", "one"}});
        edits("C04/edits of groups", f, {{"-ab", "--cc"}, {"--bb", "-a"}});
        edits("C04/edits of options", o, {{"-a", "7", "-btrue", "--cc=red"}, {"--aa=9", "-d3", "--dd", "4"}});
        edits("C04/edits of positionals", p, {{"1", "red", "x"}, {"--", "1", "red", "-x"}});
        inserted("C04/many arguments", l, {"-i=3", "4", "--int", "5"}, {"-x", "--int=", "8", "y", "-i9", "--", "-3", "-i"}, T ? 60 : 16);
        inserted("C04/many left-overs", p, {"1", "red", "x"}, {"-x", "--", "--xx", "-1"}, T ? 60 : 16);
        inserted("C04/many repetitions", f, {"--cc"}, {"-a", "-b", "-ab", "--bb", "-x"}, T ? 60 : 16);
        presentation("C04/presentation", {opt('i', "int", Ty::i32, true, 0, Val::range), opt('w', "word", Ty::str, false, 0, Val::words), flag('f', ""), pos(Ty::i32)},
                     {"-i", "5", "-i=9", "--int=4", "-w", "one", "-wfour", "-f", "-ff", "-x", "--", "-i9999999999"}, T ? 4 : 2);
        presentation("C04/presentation of required options", {opt('a', "aa", Ty::str, true), opt('b', "", Ty::l_str, true), opt('\0', "cc", Ty::u8, true), flag('f', "ff")},
                     {"-a", "--aa=x", "-b", "-by", "--cc=2", "--cc", "-f", "z"}, T ? 4 : 3);
        very_many("C04/very many arguments", l, {{"-i=3", "4"}, {"5"}, {"--int", "2"}}, {"-x", "--int=", "8", "-i9", "--", "-i"}, T ? 65536 : 4096);
        very_many("C04/very many left-overs", p, {{"1", "red", "x"}, {""}}, {"-x", "--", "--xx"}, T ? 65536 : 4096);
        very_many("C04/very many repetitions", f, {{"--cc"}, {"-a", "-b"}}, {"-a", "--bb", "-x"}, T ? 65536 : 4096);
    }
    // ---- C05
    {
        auto & a = config("lists",
                          {opt('i', "int", Ty::l_i32, false, 1), opt('s', "str", Ty::l_str, false, 1), opt('x', "xx", Ty::str, false, 1),
                           flag('f', "ff"), pos(Ty::l_str, 1)});
        lines("C05/mixed", a,
              {"-i", "--int", "-i1", "-i=2", "--int=3", "4", "-s", "--str", "-sa", "-s=b", "--str=c", "-x", "--xx=d", "-f", "-i4", "--"},
              T ? 5 : 4);
        auto & b = config("lists of all kinds",
                          {opt('a', "aa", Ty::l_u8, false, 1), opt('b', "bb", Ty::l_bool, false, 1), opt('c', "cc", Ty::l_color, false, 1),
                           opt('d', "dd", Ty::l_dbl, false, 1), opt('e', "ee", Ty::d_i32, false, 1), opt('g', "gg", Ty::n_str, false, 1),
                           opt('p', "pp", Ty::l_path, false, 1)});
        lines("C05/kinds", b,
              {"-a1", "--aa=2", "-a=3", "-b1", "--bb=false", "-cred", "--cc=blue", "-d1", "--dd=.5", "-e1", "--ee=2", "-e=3", "-gx", "--gg=y",
               "-p/a", "--pp=b c"},
              T ? 5 : 4);
        auto & d = config("long list", {opt('i', "int", Ty::l_i32, false, 1), flag('f', "")});
        lines("C05/long", d, {"-i1", "--int=2", "-i", "3", "-f"}, T ? 9 : 7);
        auto & p = config("positional list", {opt('i', "int", Ty::i32, false, 1), pos(Ty::str, 1), pos(Ty::d_i32, 1)});
        lines("C05/positional", p, {"1", "2", "-3", "-i", "-i4", "--", "--int=5"}, T ? 7 : 6);
        edits("C05/edits", a, {{"-i1", "--int=2", "4", "-s", "a"}, {"-sx", "--str", "", "-i", "-3"}, {"--xx=d", "-f", "p", "q"}});
        edits("C05/edits of kinds", b, {{"-a1", "--bb=false", "-cred"}, {"-d1", "--dd=.5", "-e1"}, {"-gx", "-p/a", "--pp=b"}});
        inserted("C05/many values", a, {"-i#", "--str=v#", "-i", "#", "-s", "w#", "p#"}, {"-i", "--str=", "-x", "--xx=d", "-f", "x", "--"}, T ? 60 : 16);
        inserted("C05/many positional values", p, {"#"}, {"-i", "-i4", "--", "x", "-3"}, T ? 80 : 24);
        auto & s = config("single values keep their defaults",
                          {opt('i', "ii", Ty::i32, false, 1), opt('u', "", Ty::u8, false, 1), opt('b', "bb", Ty::boolean, false, 1),
                           opt('d', "", Ty::dbl, false, 1), opt('c', "", Ty::color, false, 1), opt('p', "pp", Ty::path, false, 1),
                           opt('s', "ss", Ty::str, false, 1), flag('f', "")});
        lines("C05/single", s,
              {"-i", "0", "--ii=1", "-u0", "-b0", "--bb", "-d0", "-cred", "--pp=", "-p", "", "-s", "--ss=x", "-f"},
              T ? 5 : 4);
        presentation("C05/presentation", {opt('i', "int", Ty::l_i32, false, 1), opt('s', "str", Ty::l_str, false, 1), opt('b', "bb", Ty::boolean, false, 1), pos(Ty::l_str, 1)},
                     {"-i", "1", "--int=2", "-i3", "-s", "--str=x", "--bb=0", "-b", "p"}, T ? 4 : 2);
        very_many("C05/very many values", a, {{"-i#", "--str=v#", "p#"}, {"--int", "#"}, {"-s", "w#"}, {"p#"}}, {"-i", "--str=", "--xx=d", "-f", "x", "--"}, T ? 65536 : 4096);
        very_many("C05/very many values of all kinds", b, {{"-a#", "-b1", "--bb=0", "-cred", "--cc=blue", "-d1.5", "-e#", "-gx", "-p/a"}, {"-b0"}, {"-e", "#"}, {"--pp=b"}},
                  {"-a256", "-a3", "-b", "x", "-cx"}, T ? 65536 : 4096);
    }
    // ---- C10
    {
        auto & sub = config("sub", {opt('o', "oo", Ty::str, false, 1), advanced(flag('g', "gg")), pos(Ty::str)});
        auto & a = config("special requests",
                          {opt('s', "str", Ty::str, false, 1), opt('i', "int", Ty::i32, false, 1, Val::range), opt('l', "ll", Ty::l_i32, false, 1),
                           flag('f', "flag"), advanced(opt('a', "adv", Ty::str)), pos(Ty::i32, 1)});
        std::vector<std::string> const specials{"-h", "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help",
                                                "--export-help=html", "--export-help=man", "--version-check"};
        auto with = [&](std::vector<std::string> v)
        {
            v.insert(v.begin(), specials.begin(), specials.end());
            return v;
        };
        lines("C10/requests", a,
              with({"html", "0", "true", "-s", "-i", "-f", "--", "--xx", "-i9", "-l=2", "--export-help=", "--export-help=pdf"}), T ? 4 : 3);
        lines("C10/requests deeper", a, {"--help", "-hh", "--version", "--export-help", "man", "-s", "-i1", "--", "--version-check", "1", "2"},
              T ? 5 : 4);
        lines("C10/lookalikes", a,
              {"-h=", "-hhh", "-hf", "-fh", "--hel", "--helpp", "--help=1", "--version=1", "--versio", "-v", "--copyrigh", "--export-hel=man",
               "--export-helpman", "--export", "--advanced-hel", "--version-check=1", "-H", "--export-help=man ", "--export-help=HTML", "--", "7",
               "-f", "--help"},
              T ? 4 : 3);
        auto & b = config("special requests with required values", {opt('s', "str", Ty::str, true), pos(Ty::i32)});
        lines("C10/required", b, with({"html", "x", "-s", "--", "-"}), T ? 5 : 4);
        auto & n = config("special requests, nothing declared", {});
        lines("C10/nothing", n, with({"html", "man", "0", "x", "--"}), T ? 5 : 4);
        edits("C10/edits", a,
              {{"-h"}, {"--help", "-s", "x"}, {"-f", "-hh"}, {"--advanced-help", "7"}, {"--version", "--", "-h"}, {"--copyright", "-i", "3"},
               {"--export-help", "html"}, {"--export-help=man"}, {"--version-check", "0", "7"}, {"--version-check=true"}, {"-s", "--help"}});
        inserted("C10/many arguments", a, {"-s", "x", "-l#", "-f", "7"}, with({"html", "0", "--", "--xx", "-i9"}), T ? 40 : 14);
        auto & t = config("special requests with subcommands", {opt('s', "str", Ty::str), advanced(flag('f', ""))}, {{"sub", &sub}, {"html", &sub}});
        lines("C10/subcommands", t, with({"html", "sub", "-s", "-f", "x", "-oo"}), T ? 5 : 4);
        // The pages are different from each other and recognisable.
        mc::add_section("C10/pages",
                        [=, &a, &n, &t](mc::Ctx & c)
                        {
                            Config const & cfg = *c.pick(std::vector<Config const *>{&a, &n, &t});
                            if (!c.run())
                                return;
                            c.describe([&]() { return "pages of config " + cfg.name; });
                            std::vector<std::string> names{"short", "--help", "--advanced-help", "--version", "--copyright", "--export-help=html",
                                                           "--export-help=man"};
                            std::map<std::string, std::string> pages;
                            for (auto & s : names)
                            {
                                pages[s] = page_of(cfg, "app", s);
                                c.state(mc::hash_str(pages[s]));
                                c.step();
                                c.outcome("page " + s);
                            }
                            auto expect = [&](std::string page, std::string text)
                            {
                                auto lower = [](std::string s)
                                {
                                    for (char & ch : s)
                                        ch = std::tolower(static_cast<unsigned char>(ch));
                                    return s;
                                };
                                if (lower(pages[page]).find(lower(text)) == std::string::npos)
                                    c.fail("page " + page + " lacks '" + text + "': " + pages[page].substr(0, 500));
                            };
                            for (auto & s : names)
                                expect(s, "app");
                            expect("--help", "OPTIONS");
                            expect("--help", "VERSION");
                            expect("--advanced-help", "--export-help");
                            expect("--version", "sharg version:");
                            expect("--copyright", "copyright information");
                            expect("--copyright", "redistribution and use in source and binary forms");
                            expect("--export-help=html", "<!doctype html");
                            expect("--export-help=html", "</html>");
                            expect("--export-help=man", ".TH APP 1");
                            for (auto [page, other] : {std::pair{"--help", "--advanced-help"}, std::pair{"short", "--help"}})
                                if (!cfg.decls.empty() && pages[page] == pages[other])
                                    c.fail(std::string{"the page "} + page + " is the page " + other);
                            if (pages["--help"].find("--str") == std::string::npos && !cfg.decls.empty())
                                c.fail("the help page does not list --str");
                            if (pages["short"].find("OPTIONS") != std::string::npos)
                                c.fail("the short help is not short");
                            for (auto & s : {"short", "--version", "--copyright", "--help", "--advanced-help"})
                                if (pages[s].find("<html") != std::string::npos || pages[s].find(".TH ") != std::string::npos)
                                    c.fail(std::string{"page "} + s + " is no plain text");
                        });
        presentation("C10/presentation", {opt('s', "str", Ty::str, false, 1), opt('i', "int", Ty::i32, true), flag('f', "flag"), pos(Ty::i32, 1)},
                     {"-h", "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help", "--export-help=html", "--export-help=man",
                      "--version-check", "html", "-s", "-f", "-i3", "7", "--"}, T ? 3 : 2);
        very_many("C10/very many arguments", a, {{"-l#", "7"}, {"-f"}, {"-s", "-h"}}, {"-h", "--help", "-hh", "--version", "--export-help=man", "--", "-x"}, T ? 16384 : 2048);
    }
    // ---- C11
    {
        auto & leaf = config("leaf", {opt('q', "qq", Ty::str), pos(Ty::l_str)});
        auto & s1 = config("s1", {opt('o', "oo", Ty::str, false, 1), advanced(flag('f', "ff")), pos(Ty::l_str)});
        auto & s2 = config("s2", {opt('o', "oo", Ty::i32), flag('g', "")});
        auto & top = config("top",
                            {opt('o', "oo", Ty::str, false, 1), advanced(opt('l', "ll", Ty::l_str)), flag('f', "ff")},
                            {{"sub", &s1}, {"subs", &s2}, {"a-b", &s1}});
        lines("C11/split", top,
              {"sub", "subs", "a-b", "-o", "--oo", "--oo=sub", "-osub", "-l", "-f", "--ff", "su", "subx", "x", "", "-", "--help", "-hh", "--version",
               "-x", "--export-help=man"},
              T ? 5 : 4);
        lines("C11/sub arguments", top, {"sub", "subs", "-o", "5", "-f", "-g", "--", "--help", "-ox", "--ff", "-l=sub", "sub-x"}, T ? 6 : 5);
        auto & nested = config("nested", {opt('m', "mm", Ty::str)}, {{"leaf", &leaf}, {"top", &s2}});
        auto & outer = config("outer", {opt('n', "nn", Ty::str)}, {{"top", &nested}, {"leaf", &leaf}});
        lines("C11/nested", outer, {"top", "leaf", "-n", "-m", "-q", "--nn=leaf", "x", "--help", "-g", "--mm=top", "-o=1", "--"}, T ? 6 : 5);
        auto & bare = config("bare", {}, {{"sub", &s1}, {"x", &s2}});
        // every text that is close to the name of a subcommand
        auto & names = config("similar names", {opt('o', "oo", Ty::str), flag('f', "ff")},
                              {{"build", &s1}, {"build-index", &s2}, {"Index_2", &s1}, {"search", &s2}});
        std::vector<std::string> close;
        for (std::string name : {"build", "build-index", "Index_2", "search"})
        {
            close.push_back(name);
            for (size_t k = 1; k <= name.size(); ++k)
            {
                close.push_back(name.substr(0, k));
                close.push_back(name.substr(k - 1));
                close.push_back(name.substr(0, k - 1) + name.substr(k));
                close.push_back(name.substr(0, k) + "x" + name.substr(k));
                std::string other = name;
                other[k - 1] = std::isupper(other[k - 1]) ? std::tolower(other[k - 1]) : std::toupper(other[k - 1]);
                close.push_back(other);
            }
            std::string upper = name, lower = name;
            std::transform(name.begin(), name.end(), upper.begin(), [](char c) { return std::toupper(c); });
            std::transform(name.begin(), name.end(), lower.begin(), [](char c) { return std::tolower(c); });
            for (std::string other : {upper, lower, name + " ", " " + name, name + "=", "-" + name, "--" + name, "./" + name, name + "," + name, name + "-"})
                close.push_back(other);
        }
        std::sort(close.begin(), close.end());
        close.erase(std::unique(close.begin(), close.end()), close.end());
        lines("C11/similar names", names, close, 2);
        lines("C11/bare", bare, {"sub", "x", "SUB", "-o", "o", "-f", "--version-check", "0", "--copyright", "-x", "-sub", "--sub"}, T ? 5 : 4);
        edits("C11/edits", top, {{"sub", "-f", "x"}, {"-o", "sub", "subs"}, {"--oo=x", "a-b"}, {"sub", "--"}, {"-f", "sub", "--", "x"}, {"-lx", "sub", "sub"}});
        inserted("C11/many arguments", top, {"-l", "v#", "--ll=w#"}, {"sub", "subs", "a-b", "-o", "-f", "--oo=sub", "x", "--help", "-x"}, T ? 45 : 18);
        inserted("C11/many sub arguments", top, {"sub", "-o", "x", "-f", "p#", "q#"}, {"subs", "a-b", "-f", "--oo=sub", "--", "--help", "-x", "sub"}, T ? 45 : 18);
        // many subcommands, in several orders of declaration
        for (size_t const count : {1, 2, 11, 17, 33, 260})
            for (bool const sorted : {false, true})
            {
                std::vector<std::pair<std::string, Config const *>> subs;
                for (size_t k = 0; k < count; ++k)
                {
                    size_t const id = sorted ? 10 + k : 10 + (k * 7 + 3) % count; // no count is divisible by 7
                    subs.push_back({"sub" + std::to_string(id), id % 2 ? &s1 : &s2});
                }
                auto & m = config("many subcommands", {opt('o', "oo", Ty::str), flag('f', "ff")}, subs);
                std::vector<std::string> tokens{"-f", "-o", "--oo=sub10", "x", "--help", "sub", "sub1", "sub100"};
                for (size_t k = 0; k < count; k += count > 99 && k % 64 != 63 && k % 64 != 0 ? 7 : 1)
                    tokens.push_back(subs[k].first);
                lines("C11/many subcommands " + std::to_string(count) + (sorted ? " sorted" : ""), m, tokens, count > 99 ? 2 : T ? 4 : count > 20 ? 2 : 3);
            }
        very_many("C11/very many arguments", top, {{"-l", "v#"}, {"-f"}}, {"sub", "subs", "-o", "--oo=sub", "x", "--help", "-x"}, T ? 65536 : 4096);
    }
    // ---- C13
    {
        auto & a = config("identifiers",
                          {opt('l', "loo", Ty::str), opt('f', "foobar", Ty::l_str), opt('n', "", Ty::i32), opt('\0', "lo", Ty::str), flag('b', "bar"),
                           pos(Ty::l_str)});
        lines("C13/identifiers", a,
              {"-l", "--loo", "-lx", "-l=x", "--loo=x", "-f", "--foobar", "--foobar=--loo", "-f-l", "-n1", "-n", "--lo", "--lo=--loo", "-b", "--bar",
               "--", "x", "--n", ""},
              T ? 5 : 4);
        lines("C13/marker", a, {"--", "-l", "--loo", "-f=--", "--foobar", "-l=1", "--lo=2", "x", "-n2"}, T ? 6 : 5);
        attached("C13/attached values", a, {"-l", "--loo", "--lo=x", "-b", "--bar", "x", "--", "-f", "-n1"});
        edits("C13/edits", a, {{"-l", "x", "--foobar=y"}, {"--loo=1", "-n2", "z"}, {"--lo", "a", "-fb"}, {"-b", "--", "-l"}, {"-l=--loo", "--bar"}});
        inserted("C13/many arguments", a, {"x#", "-b", "--foobar", "y#"}, {"-l", "--loo", "--lo=2", "-l=1", "--", "-n2", "-n", "-f"}, T ? 45 : 18);
        presentation("C13/presentation", {opt('l', "loo", Ty::str), opt('f', "foobar", Ty::l_str), opt('n', "", Ty::i32), flag('b', "bar"), pos(Ty::l_str)},
                     {"-l", "--loo=x", "-f", "--foobar=y", "-n1", "-b", "--", "z"}, T ? 4 : 2);
        very_many("C13/very many arguments", a, {{"x#"}, {"-b"}, {"--foobar=y#"}}, {"-l", "-lx", "--loo=1", "--lo=2", "-n2", "--", "-f"}, T ? 65536 : 4096);
        // every identifier, asked before and after parse(), of options and other things
        mc::add_section(
            "C13/queries",
            [](mc::Ctx & c)
            {
                static std::vector<std::vector<std::string>> const argss{
                    {"-l", "1"}, {"--loo=2"}, {"-b"}, {"--bar", "x"}, {"--", "-l", "--loo"}, {"x"}, {"-l", "--loo"}, {"-l1", "--loo"}, {"-z"}};
                auto const & args = c.pick(argss);
                bool const before = c.flip();
                static std::vector<std::string> const ids{"l", "loo", "b", "bar", "h", "help", "version", "lo", "looo", "x", "", "-l", "--loo",
                                                          "loo=2", "no-such", "no_short", "-", "export-help", "hh"};
                size_t const which = c.choose(ids.size());
                int const how = c.choose(3); // char, std::string, char const *
                if (how == 0 && ids[which].size() > 1)
                    return;
                if (!c.run())
                    return;
                std::string const & id = ids[which];
                c.describe([&]() { return mc::qv(args) + " is_option_set(" + mc::q(id) + ")" + (before ? " before parse" : ""); });
                c.step(args.size() + 1);
                c.state(mc::mix(mc::hash_str(mc::qv(args)), before));
                std::string l, ns;
                bool b{false};
                std::vector<std::string> rest;
                std::vector<std::string> full{"app"};
                full.insert(full.end(), args.begin(), args.end());
                sharg::parser p{"app", full, sharg::update_notifications::off};
                p.add_option(l, sharg::config{.short_id = 'l', .long_id = "loo"});
                p.add_option(ns, sharg::config{.long_id = "no_short"});
                p.add_flag(b, sharg::config{.short_id = 'b', .long_id = "bar"});
                p.add_positional_option(rest, sharg::config{});
                if (!before)
                    mc::call([&]() { p.parse(); });
                bool answer = false;
                auto r = mc::call(
                    [&]()
                    {
                        if (how == 0)
                            answer = p.is_option_set(id.empty() ? '\0' : id[0]);
                        else if (how == 1)
                            answer = p.is_option_set(id);
                        else
                            answer = p.is_option_set(id.c_str());
                    });
                bool const ok = !before && ((how == 0 && id == "l") || (how != 0 && (id == "loo" || id == "no_short")));
                c.outcome(ok ? "answer" : "design_error");
                if (!ok)
                {
                    if (r.err != mc::Err::design_error)
                        c.fail("expected a design_error, got " + std::string{mc::err_name(r.err)});
                    return;
                }
                if (r.err != mc::Err::none)
                    return c.fail("unexpected " + std::string{mc::err_name(r.err)} + ": " + r.what);
                bool expected = false;
                if (id == "l" && (args[0] == "-l" || args[0] == "-l1"))
                    expected = true;
                if (id == "loo" && (args[0].starts_with("--loo") || (args[0] == "-l1" && args.size() > 1)))
                    expected = true;
                if (answer != expected)
                    c.fail("expected " + std::to_string(expected) + ", got " + std::to_string(answer));
            });
    }
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
