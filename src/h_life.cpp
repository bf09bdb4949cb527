// C19, C22: moving a parser changes nothing, and parsers do not influence each other.
//
// The oracle is the implementation itself: the same calls on a parser that is not moved and is alone in its process state.
#include "uses.hpp"

namespace
{
struct Values
{
    int i{1};
    std::string s{"def"};
    std::vector<int> list{1, 2};
    bool f{false}, g{false};
    colour c{colour::red};
    double pos{0.5};
    std::vector<std::string> rest{};
    int sub_i{4};
    bool sub_f{false};
    std::string show() const
    {
        std::string r = std::to_string(i) + " " + s + " [";
        for (int x : list)
            r += std::to_string(x) + " ";
        r += "] " + std::to_string(f) + std::to_string(g) + " " + std::to_string(int(c)) + " " + std::to_string(pos) + " [";
        for (auto & x : rest)
            r += mc::q(x) + " ";
        return r + "] " + std::to_string(sub_i) + std::to_string(sub_f);
    }
};
//!\brief A validator with state of its own.
struct Counting
{
    using option_value_type = int;
    std::shared_ptr<int> calls{std::make_shared<int>(0)};
    int limit{6};
    void operator()(int const v) const
    {
        if (v > limit)
            throw sharg::validation_error{"more than " + std::to_string(limit)};
    }
    std::string get_help_page_message() const { return "At most " + std::to_string(limit) + "."; }
};
static_assert(sharg::validator<Counting>);

// One application: a parser and everything that is done with it.
struct Life
{
    std::unique_ptr<sharg::parser> p{};
    std::unique_ptr<sharg::parser> taken_sub{}; // if the sub-parser was moved out
    std::vector<std::unique_ptr<sharg::parser>> old{};
    Values v{};
    std::string log{};
    bool ended{false};

    template <typename fn_t>
    void guarded(fn_t && fn)
    {
        auto r = mc::call(fn);
        if (r.err != mc::Err::none || r.exited)
            (((log += r.exited ? "exit" : mc::err_name(r.err)) += ":") += r.what) += ";";
        log += r.out;
        log += r.errout;
    }
};
size_t const n_declarations = 12;
char const * const declaration_names[] = {"option -i", "option --str", "list -l", "flag -f", "flag --good", "enum -c", "positional", "positional list",
                                          "section", "line", "required validated option -r", "subcommands"};
void declare(Life & l, size_t k)
{
    auto & p = *l.p;
    auto & v = l.v;
    l.guarded(
        [&]()
        {
            switch (k)
            {
            case 0: p.add_option(v.i, sharg::config{.short_id = 'i', .long_id = "int", .description = "An int", .validator = Counting{}}); break;
            case 1:
            {
                std::string text = "temporary description";
                p.add_option(v.s, sharg::config{.long_id = "str", .description = text, .advanced = true, .validator = sharg::regex_validator{"[a-z]*"}});
                break;
            }
            case 2: p.add_option(v.list, sharg::config{.short_id = 'l', .long_id = "list", .validator = sharg::arithmetic_range_validator{0, 9}}); break;
            case 3: p.add_flag(v.f, sharg::config{.short_id = 'f', .long_id = "flag"}); break;
            case 4: p.add_flag(v.g, sharg::config{.long_id = "good", .hidden = true}); break;
            case 5: p.add_option(v.c, sharg::config{.short_id = 'c'}); break;
            case 6: p.add_positional_option(v.pos, sharg::config{.description = "Pos"}); break;
            case 7: p.add_positional_option(v.rest, sharg::config{.description = "Rest"}); break;
            case 8: p.add_section("Sect"); break;
            case 9: p.add_line("Some line"); break;
            case 10: p.add_option(v.i, sharg::config{.short_id = 'r', .long_id = "req", .required = true, .validator = sharg::value_list_validator{1, 5}}); break;
            case 11: p.add_subcommands({"sub", "other"}); break;
            }
        });
}
void create(Life & l, std::vector<std::string> const & args, char const * name = "App")
{
    std::vector<std::string> a{"app"};
    a.insert(a.end(), args.begin(), args.end());
    l.guarded(
        [&]()
        {
            l.p = std::make_unique<sharg::parser>(name, a, sharg::update_notifications::off);
            l.p->info.version = "1.0.0";
            l.p->info.short_description = "short";
            l.p->info.author = "Someone";
            l.p->info.email = "x@y.z";
            l.p->info.date = "Yesterday";
            l.p->info.url = "http://x.y";
            l.p->info.short_copyright = "Mine";
            l.p->info.long_copyright = "All mine";
            l.p->info.citation = "A book";
            l.p->info.man_page_title = "Title";
            l.p->info.man_page_section = 7;
            l.p->info.description = {"first", "second"};
            l.p->info.synopsis = {"some synopsis"};
            l.p->info.examples = {"an example", "another"};
        });
}
std::string shown(sharg::parser_meta_data const & m)
{
    std::string s;
    for (auto & x : {m.app_name, m.version, m.short_description, m.author, m.email, m.date, m.url, m.short_copyright, m.long_copyright, m.citation, m.man_page_title})
        s += x + "|";
    s += std::to_string(m.man_page_section);
    for (auto & v : {m.description, m.synopsis, m.examples})
        s += mc::qv(v);
    return s + ";";
}
void parse(Life & l)
{
    auto const before = l.log.size();
    l.guarded([&]() { l.p->parse(); });
    l.ended = l.log.size() != before;
    l.log += "parsed " + l.v.show() + ";";
}
void query(Life & l)
{
    for (char c : std::string{"iflr"})
        l.guarded([&]() { l.log += l.p->is_option_set(c) ? '1' : '0'; });
    for (char const * s : {"int", "str", "list", "good", "help"})
        l.guarded([&]() { l.log += l.p->is_option_set(s) ? '1' : '0'; });
    l.log += shown(l.p->info);
}
bool has_sub(Life & l) // asks without leaving traces
{
    bool r = true;
    auto x = mc::call([&]() { l.p->get_sub_parser(); });
    return x.err == mc::Err::none;
}
void declare_sub(Life & l)
{
    l.guarded(
        [&]()
        {
            sharg::parser & s = l.taken_sub ? *l.taken_sub : l.p->get_sub_parser();
            l.log += shown(s.info);
            if (s.info.app_name == "App-other")
                s.add_subcommands({"leaf", "leaf2"});
            s.add_option(l.v.sub_i, sharg::config{.short_id = 'x', .long_id = "xx", .description = "of sub"});
            s.add_flag(l.v.sub_f, sharg::config{.short_id = 'y'});
        });
}
void parse_sub(Life & l)
{
    l.guarded(
        [&]()
        {
            sharg::parser & s = l.taken_sub ? *l.taken_sub : l.p->get_sub_parser();
            s.parse();
            l.log += s.is_option_set('x') ? 'X' : 'x';
            if (s.info.app_name != "App-other")
                return;
            sharg::parser & leaf = s.get_sub_parser();
            l.log += shown(leaf.info);
            int z{3};
            leaf.add_option(z, sharg::config{.short_id = 'z'});
            leaf.parse();
            l.log += std::to_string(z);
        });
    l.log += "sub " + l.v.show() + ";";
}

enum Move
{
    construct,            // the old one is destroyed
    construct_keep,       // the old one lives on
    assign_fresh,         // to a parser without declarations
    assign_declared,      // to a parser with declarations
    assign_parsed,        // to a parser that has parsed another command line
    swapped,              // std::swap twice
    n_moves
};
char const * const move_names[] = {"construct", "construct, keep", "assign", "assign to declared", "assign to parsed", "swap"};
std::unique_ptr<sharg::parser> moved(std::unique_ptr<sharg::parser> p, Move m, std::vector<std::unique_ptr<sharg::parser>> & old)
{
    static int dummy;
    static bool dummy_flag;
    std::vector<std::string> const args{"other", "-i", "3", "word"};
    auto other = [&]()
    {
        auto q = std::make_unique<sharg::parser>("Other", args, sharg::update_notifications::off, std::vector<std::string>{});
        q->info.author = "Other author";
        return q;
    };
    switch (m)
    {
    case construct: return std::make_unique<sharg::parser>(std::move(*p));
    case construct_keep:
    {
        auto r = std::make_unique<sharg::parser>(std::move(*p));
        old.push_back(std::move(p));
        return r;
    }
    case assign_fresh:
    {
        auto r = other();
        *r = std::move(*p);
        return r;
    }
    case assign_declared:
    {
        auto r = other();
        r->add_option(dummy, sharg::config{.short_id = 'i', .long_id = "str", .required = true});
        r->add_flag(dummy_flag, sharg::config{.short_id = 'f'});
        r->add_section("Other section");
        *r = std::move(*p);
        return r;
    }
    case assign_parsed:
    {
        auto r = other();
        std::vector<std::string> rest;
        r->add_option(dummy, sharg::config{.short_id = 'i', .long_id = "int"});
        r->add_positional_option(rest, sharg::config{});
        r->parse();
        *r = std::move(*p);
        return r;
    }
    default:
    {
        auto r = other();
        std::swap(*r, *p);
        sharg::parser third{std::move(*r)};
        *r = std::move(third);
        return r;
    }
    }
}

std::vector<std::vector<std::string>> const lines{{},
                                                  {"-i", "5", "--str=abc", "-f"},
                                                  {"-i", "7"},
                                                  {"--list", "3", "-l4", "-c", "green", "--good"},
                                                  {"-c", "blue"},
                                                  {"-r", "5", "1.5", "a", "b"},
                                                  {"1.5", "--", "-i", "x"},
                                                  {"--help"},
                                                  {"--advanced-help"},
                                                  {"--export-help=html"},
                                                  {"-f", "sub", "-x", "6"},
                                                  {"-i", "2", "other", "-h"},
                                                  {"sub", "-y", "--nope"},
                                                  {"-f", "other", "-x", "6", "leaf", "-z5"},
                                                  {"other", "leaf2", "--version"},
                                                  {"--export-help", "man"},
                                                  {"--version"},
                                                  {"--copyright"},
                                                  {"--unknown"},
                                                  {"-i"}};

// A program: declarations, parse, queries, sub-parser; with moves in between.
struct Plan
{
    std::vector<size_t> declarations;
    std::vector<std::string> args;
    std::vector<std::pair<size_t, Move>> moves; // before step ...
    bool move_sub{false};
};
std::string execute(Plan const & plan)
{
    Life l;
    size_t step = 0;
    auto maybe_move = [&]()
    {
        for (auto & [at, kind] : plan.moves)
            if (at == step && l.p)
                l.p = moved(std::move(l.p), kind, l.old);
        ++step;
    };
    create(l, plan.args);
    for (size_t d : plan.declarations)
    {
        maybe_move();
        declare(l, d);
    }
    maybe_move();
    parse(l);
    maybe_move();
    query(l);
    if (has_sub(l))
    {
        if (plan.move_sub)
            l.taken_sub = std::make_unique<sharg::parser>(std::move(l.p->get_sub_parser()));
        declare_sub(l);
        maybe_move();
        parse_sub(l);
    }
    maybe_move();
    query(l);
    l.guarded([&]() { l.p->parse(); }); // must be called only once
    l.p.reset();
    l.log += "end " + l.v.show();
    return l.log;
}
std::string show(Plan const & p)
{
    std::string r;
    for (size_t d : p.declarations)
        (r += declaration_names[d]) += ", ";
    r += mc::qv(p.args);
    for (auto & [at, kind] : p.moves)
        r += std::string{" move ("} + move_names[kind] + ") before step " + std::to_string(at);
    if (p.move_sub)
        r += " move the sub-parser";
    return r;
}
std::string const & reference(Plan p)
{
    static std::map<std::pair<std::vector<size_t>, std::vector<std::string>>, std::string> cache;
    p.moves.clear();
    p.move_sub = false;
    auto [it, is_new] = cache.try_emplace({p.declarations, p.args});
    if (is_new)
    {
        if (cache.size() > 50000)
        {
            cache.clear();
            return reference(p);
        }
        it->second = execute(p);
    }
    return it->second;
}
std::string first_difference(std::string const & a, std::string const & b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    i = i > 40 ? i - 40 : 0;
    return mc::q(b.substr(i, 160)) + " instead of " + mc::q(a.substr(i, 160));
}
void moves(mc::Ctx & c, size_t max_declarations, size_t n_moves_)
{
    Plan p;
    size_t const n = c.choose(max_declarations + 1);
    for (size_t k = 0; k < n; ++k)
        p.declarations.push_back(c.choose(n_declarations));
    size_t const line = c.choose(lines.size());
    p.args = lines[line];
#ifdef __SANITIZE_ADDRESS__ // slow; every pair of declarations with a third of the lines
    if (!mc::thorough && n > 1 && line % 3 != (p.declarations[0] + p.declarations[1]) % 3)
        return;
#endif
    size_t from = 0;
    for (size_t k = 0; k < n_moves_; ++k)
    {
        size_t const at = from + c.choose(n + 4 - from);
        from = at;
        p.moves.push_back({at, Move(c.choose(n_moves))});
    }
    p.move_sub = c.flip();
    // The point before the sub-parser is parsed only exists with a sub-parser; the cases coincide otherwise.
    if (!c.run())
        return;
    c.describe([&]() { return show(p); });
    c.step(n + 3);
    std::string const & want = reference(p);
    std::string const got = execute(p);
    c.state(mc::hash_str(want));
    c.outcome(want.substr(0, want.find(':')).size() < 40 ? want.substr(0, want.find(':')) : "values");
    if (got != want)
        c.fail("a moved parser behaves differently: " + first_difference(want, got) + "\n  " + show(p));
}

//!\brief Many declarations; one or two moves.
void many_moves(mc::Ctx & c)
{
    size_t const n = c.pick(std::vector<size_t>{9, 16, 17, 33, 60});
    size_t const m = c.choose(n_moves);
    size_t const at = n <= 17 ? c.choose(n + 3) : c.pick(std::vector<size_t>{0, 1, n / 2, n - 1, n, n + 1, n + 2});
    bool const again = c.flip(); // a second move, in front of parse()
    size_t const what = c.choose(5);
    if (!c.run())
        return;
    auto text = [&]() { return std::to_string(n) + " declarations, " + move_names[m] + " before " + std::to_string(at) + (again ? " and before parse()" : "") + ", line " + std::to_string(what); };
    c.describe(text);
    c.step(n + 3);
    c.state(mc::hash_str(text()));
    auto work = [&](bool with_moves)
    {
        std::vector<std::string> args{"app"};
        if (what == 1)
            args.push_back("--help");
        if (what == 2)
            args.push_back("--export-help=man");
        for (size_t k = 0; k < n; ++k)
            if (k % 4 == 0 || k % 4 == 2)
                args.push_back("--name" + std::to_string(k) + "=" + std::to_string(k));
            else if (k % 4 == 1)
                args.push_back("--name" + std::to_string(k));
        if (what == 3)
            args.push_back("--name");
        if (what == 4)
            args.push_back("--name0=1");
        std::vector<std::unique_ptr<sharg::parser>> old;
        auto p = std::make_unique<sharg::parser>("App", args, sharg::update_notifications::off);
        std::vector<int> v(n, 7);
        std::vector<std::vector<std::string>> lists(n);
        auto flags = std::make_unique<bool[]>(n);
        std::string log;
        auto r = mc::call(
            [&]()
            {
                for (size_t k = 0; k < n; ++k)
                {
                    if (with_moves && k == at)
                        p = moved(std::move(p), Move(m), old);
                    std::string const name = "name" + std::to_string(k);
                    switch (k % 4)
                    {
                    case 0: p->add_option(v[k], sharg::config{.long_id = name, .advanced = k % 8 == 0, .validator = sharg::arithmetic_range_validator{0, 100}}); break;
                    case 1: p->add_flag(flags[k], sharg::config{.long_id = name, .hidden = k % 8 == 1}); break;
                    case 2: p->add_option(lists[k], sharg::config{.long_id = name}); break;
                    case 3: k % 8 == 3 ? p->add_section("Section " + name) : p->add_list_item(name, "item"); break;
                    }
                }
                if (with_moves && (again || at == n))
                    p = moved(std::move(p), again ? Move((m + 1) % n_moves) : Move(m), old);
                p->parse();
            });
        log += r.exited ? "exit" : std::string{mc::err_name(r.err)};
        log += r.what + r.out + r.errout;
        if (with_moves && at > n)
            p = moved(std::move(p), Move(m), old);
        for (size_t k = 0; k < n; ++k)
        {
            log += std::to_string(v[k]) + (flags[k] ? "f" : "") + mc::qv(lists[k]);
            if (k % 4 == 0 || k % 4 == 2)
                r = mc::call([&]() { log += p->is_option_set("name" + std::to_string(k)) ? "+" : "-"; });
        }
        return log + shown(p->info);
    };
    std::string const want = work(false), got = work(true);
    c.outcome(want.substr(0, 4));
    if (got != want)
        c.fail("a moved parser behaves differently: " + first_difference(want, got) + "\n  " + text());
}

// ---- C22 --------------------------------------------------------------------------------------------------------------------
struct Scenario
{
    std::vector<size_t> declarations;
    std::vector<std::string> args;
};
std::vector<Scenario> const scenarios{{{0, 3}, {"-i", "5", "-f"}},
                                      {{0, 3}, {"-i", "7"}},
                                      {{2, 6}, {"-l3", "--list=4", "1.5"}},
                                      {{7, 1}, {"a", "--str", "xyz", "b"}},
                                      {{1, 5}, {"-c", "green", "--str", "1"}},
                                      {{5, 5}, {"-c", "blue"}},
                                      {{10, 0}, {}},
                                      {{10, 8}, {"--help"}},
                                      {{9, 4}, {"--export-help", "man"}},
                                      {{11, 3}, {"-f", "sub", "-x", "6", "-y"}},
                                      {{11, 0}, {"other", "-h"}},
                                      {{11, 3}, {"-f", "subb"}},
                                      {{3, 4}, {"-f", "--unknown"}},
                                      {{6, 7}, {"--", "2.5", "-f", "-x"}},
                                      {{8, 9}, {"--version"}}};
size_t const n_steps = 7; // create, two declarations, parse, query, declare sub, parse sub
void do_step(Life & l, Scenario const & s, size_t k)
{
    switch (k)
    {
    case 0: create(l, s.args); break;
    case 1:
    case 2: declare(l, s.declarations[k - 1]); break;
    case 3: parse(l); break;
    case 4: query(l); break;
    case 5:
        if (has_sub(l))
            declare_sub(l);
        break;
    case 6:
        if (has_sub(l))
            parse_sub(l);
        l.p.reset();
        l.log += "end " + l.v.show();
        break;
    }
}
std::string alone(Scenario const & s)
{
    Life l;
    for (size_t k = 0; k < n_steps; ++k)
        do_step(l, s, k);
    return l.log;
}
std::vector<std::string> results() // of a process that has done nothing else, each computed in a process of its own
{
    static std::vector<std::string> r;
    if (!r.empty())
        return r;
    for (auto & s : scenarios)
    {
        int fd[2];
        if (pipe(fd))
            _exit(70);
        pid_t const pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            std::string const l = alone(s);
            if (write(fd[1], l.data(), l.size()) != ssize_t(l.size()))
                _exit(70);
            _exit(0);
        }
        close(fd[1]);
        std::string l;
        char b[4096];
        for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;)
            l.append(b, n);
        close(fd[0]);
        int st;
        waitpid(pid, &st, 0);
        r.push_back(l);
    }
    return r;
}

void interleavings(mc::Ctx & c, size_t n_parsers, std::vector<size_t> const & menu)
{
    std::vector<size_t> which;
    for (size_t k = 0; k < n_parsers; ++k)
        which.push_back(c.pick(menu));
    std::vector<size_t> left(n_parsers, n_steps);
    std::vector<size_t> schedule;
    while (schedule.size() < n_parsers * n_steps)
    {
        std::vector<size_t> able;
        for (size_t k = 0; k < n_parsers; ++k)
            if (left[k])
                able.push_back(k);
        size_t const k = able.size() == 1 ? able[0] : c.pick(able);
        --left[k];
        schedule.push_back(k);
    }
    if (!c.run())
        return;
    auto text = [&]()
    {
        std::string t;
        for (size_t w : which)
            t += "{" + mc::qv(scenarios[w].args) + "} ";
        for (size_t k : schedule)
            t += std::to_string(k);
        return t;
    };
    c.describe(text);
    c.step(schedule.size());
    auto const want = results();
    std::vector<Life> l(n_parsers);
    std::vector<size_t> at(n_parsers, 0);
    for (size_t k : schedule)
    {
        do_step(l[k], scenarios[which[k]], at[k]++);
        std::string state;
        for (size_t x = 0; x < n_parsers; ++x)
            state += std::to_string(which[x]) + "." + std::to_string(at[x]) + " ";
        c.state(mc::hash_str(state));
    }
    c.outcome("schedule");
    for (size_t k = 0; k < n_parsers; ++k)
        if (l[k].log != want[which[k]])
            c.fail("parser " + std::to_string(k) + " behaves differently: " + first_difference(want[which[k]], l[k].log) + "\n  " + text());
}
void pasts(mc::Ctx & c, size_t n)
{
    std::vector<size_t> which;
    for (size_t k = 0; k < n; ++k)
        which.push_back(c.choose(scenarios.size()));
    if (!c.run())
        return;
    auto text = [&]()
    {
        std::string t;
        for (size_t w : which)
            t += "{" + mc::qv(scenarios[w].args) + "} ";
        return t;
    };
    c.describe(text);
    c.step(n);
    auto const want = results();
    for (size_t k = 0; k < n; ++k)
    {
        std::string const got = alone(scenarios[which[k]]);
        c.state(mc::hash_str(got));
        if (got != want[which[k]])
        {
            c.fail("use " + std::to_string(k) + " behaves differently: " + first_difference(want[which[k]], got) + "\n  " + text());
            break;
        }
    }
    c.outcome("history");
}

std::vector<std::string> fresh_results{};
std::string const & fresh(size_t k) { return fresh_results[k]; }
void compute_fresh_results() // each in a process of its own; called before anything else is done
{
    for (size_t k = 0; k < uses().size(); ++k)
    {
        std::string & result = fresh_results.emplace_back();
        int fd[2];
        if (pipe(fd))
            _exit(70);
        pid_t const pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            std::string const l = uses()[k].fn();
            if (write(fd[1], l.data(), l.size()) != ssize_t(l.size()))
                _exit(70);
            _exit(0);
        }
        close(fd[1]);
        char b[4096];
        for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;)
            result.append(b, n);
        close(fd[0]);
        int st;
        waitpid(pid, &st, 0);
    }
}
void sequences(mc::Ctx & c, size_t n, std::vector<size_t> const & menu)
{
    std::vector<size_t> which;
    for (size_t k = 0; k < n; ++k)
        which.push_back(c.pick(menu));
    if (!c.run())
        return;
    auto text = [&]()
    {
        std::string t;
        for (size_t w : which)
            t += "{" + uses()[w].name + "} ";
        return t;
    };
    c.describe(text);
    c.step(n);
    for (size_t k = 0; k < n; ++k)
    {
        std::string const got = uses()[which[k]].fn();
        c.state(mc::mix(mc::hash_str(got), k ? which[k - 1] : -1));
        if (got != fresh(which[k]))
        {
            c.fail("use " + std::to_string(k) + " behaves differently: " + first_difference(fresh(which[k]), got) + "\n  " + text());
            break;
        }
    }
    c.outcome("sequence");
}

// Configurations and validators that are used for several parsers, and changed in between.
void copies(mc::Ctx & c)
{
    size_t const order = c.choose(2);    // the original or the copy is used first
    size_t const kind = c.choose(8);
    size_t const a1 = c.choose(4), a2 = c.choose(4);
    size_t const change = c.choose(3);   // nothing, the original after it was copied, the copy
    size_t const late = c.choose(2);     // change after it was given to the parsers
    if (!c.run())
        return;
    static std::vector<std::vector<std::string>> const args{{"app", "-i", "5"}, {"app", "-i", "7"}, {"app"}, {"app", "--help"}};
    auto text = [&]() { return "kind " + std::to_string(kind) + " " + mc::qv(args[a1]) + " / " + mc::qv(args[a2]) + " order " + std::to_string(order) + " change " + std::to_string(change) + std::to_string(late); };
    c.describe(text);
    c.step(2);
    c.state(mc::hash_str(text()));
    auto change_it = [&](auto & cfg)
    {
        cfg.description = "changed";
        (kind == 7 ? cfg.hidden : cfg.required) = true; // kind 7 has a default message
    };
    auto work = [&](auto config, auto value, bool both, bool first_only) -> std::pair<std::string, std::string>
    {
        auto one = [](sharg::parser & p, auto & v)
        {
            auto r = mc::call([&]() { p.parse(); });
            std::ostringstream o;
            o << mc::err_name(r.err) << r.what << r.out << " " << sharg::detail::to_string(v);
            return o.str();
        };
        auto copy = config;
        if (change == 1 && !late)
            change_it(config);
        if (change == 2 && !late)
            change_it(copy);
        std::string s1, s2;
        auto v1 = value, v2 = value;
        if (both)
        {
            sharg::parser p1{"App", args[a1], sharg::update_notifications::off}, p2{"App", args[a2], sharg::update_notifications::off};
            p1.add_option(v1, config);
            p2.add_option(v2, copy);
            if (change == 1 && late)
                change_it(config);
            if (change == 2 && late)
                change_it(copy);
            if (order)
                s2 = one(p2, v2), s1 = one(p1, v1);
            else
                s1 = one(p1, v1), s2 = one(p2, v2);
        }
        else if (first_only)
        {
            sharg::parser p1{"App", args[a1], sharg::update_notifications::off};
            p1.add_option(v1, config);
            s1 = one(p1, v1);
        }
        else
        {
            sharg::parser p2{"App", args[a2], sharg::update_notifications::off};
            p2.add_option(v2, copy);
            s2 = one(p2, v2);
        }
        return {s1, s2};
    };
    auto all = [&](auto config, auto value)
    {
        auto const both = work(config, value, true, false);
        auto const first = work(config, value, false, true);
        auto const second = work(config, value, false, false);
        if (both.first != first.first)
            c.fail("the first parser is influenced: " + first_difference(first.first, both.first) + "\n  " + text());
        if (both.second != second.second)
            c.fail("the second parser is influenced: " + first_difference(second.second, both.second) + "\n  " + text());
    };
    switch (kind)
    {
    case 0: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::arithmetic_range_validator{1, 6}}, 1); break;
    case 1: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::value_list_validator{5, 6}}, 1); break;
    case 2: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::regex_validator{"[5x]"}}, std::string{"x"}); break;
    case 3: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::arithmetic_range_validator{1, 6} | sharg::value_list_validator{5, 7}}, 1); break;
    case 4: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::input_file_validator{std::vector<std::string>{"txt"}}}, std::string{"x"}); break;
    case 5: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::arithmetic_range_validator{1, 6}}, std::vector<int>{1}); break;
    case 6: all(sharg::config{.short_id = 'i', .description = "d", .validator = Counting{}}, 1); break;
    case 7: all(sharg::config{.short_id = 'i', .description = "d", .default_message = "m"}, 1); break;
    }
    c.outcome("copies");
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    mc::add_section("C19/one move", [=](mc::Ctx & c) { moves(c, T ? 3 : 2, 1); });
    mc::add_section("C19/two moves", [=](mc::Ctx & c) { moves(c, T ? 2 : 1, 2); });
    mc::add_section("C19/many declarations", many_moves);
    if (T)
        mc::add_section("C19/three moves", [=](mc::Ctx & c) { moves(c, 1, 3); });
    std::vector<size_t> all(scenarios.size());
    std::iota(all.begin(), all.end(), 0);
    mc::add_section("C22/interleavings of two parsers", [=](mc::Ctx & c) { interleavings(c, 2, T ? all : std::vector<size_t>{0, 2, 4, 6, 7, 9, 11, 13}); });
    if (T)
        mc::add_section("C22/interleavings of three parsers", [=](mc::Ctx & c)
                        { interleavings(c, 3, {9}); });
    mc::add_section("C22/earlier parsers", [=](mc::Ctx & c) { pasts(c, T ? 4 : 3); });
    compute_fresh_results();
    results();
    std::vector<size_t> every(uses().size());
    std::iota(every.begin(), every.end(), 0);
    mc::add_section("C22/sequences of two uses", [=](mc::Ctx & c) { sequences(c, 2, every); });
    std::vector<size_t> some;
    for (size_t k = 0; k < every.size(); k += T ? 2 : 5)
        some.push_back(k);
    mc::add_section("C22/sequences of three uses", [=](mc::Ctx & c) { sequences(c, 3, some); });
    mc::add_section("C22/copies of configurations", copies);
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
