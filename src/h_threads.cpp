// C22: parsers in different threads.
//
// Built with ThreadSanitizer. Two threads use the library; they share nothing but what the library shares behind their
// backs. If the accesses of the two threads never conflict without synchronisation (which ThreadSanitizer decides from
// the happens-before relation, not from the timing), all schedules of the two threads are equivalent to the one that is
// executed; hence one schedule per order of the two uses stands for all of them. The order is enforced with a relaxed
// atomic variable, which does not add an edge to the happens-before relation.
#include "uses.hpp"

namespace
{
std::atomic<int> turn{0};

std::pair<std::string, std::string> both(std::function<std::string()> const & f1, std::function<std::string()> const & f2, bool second_first)
{
    std::string r1, r2;
    turn.store(0, std::memory_order_relaxed);
    auto wait_for = [](int t)
    {
        while (turn.load(std::memory_order_relaxed) != t)
            sched_yield();
    };
    {
        std::jthread t1{[&]()
                        {
                            wait_for(second_first);
                            r1 = f1();
                            turn.store(second_first + 1, std::memory_order_relaxed);
                        }};
        std::jthread t2{[&]()
                        {
                            wait_for(!second_first);
                            r2 = f2();
                            turn.store(!second_first + 1, std::memory_order_relaxed);
                        }};
    }
    return {r1, r2};
}

std::vector<Use> const & menu()
{
    static std::vector<Use> const m = []()
    {
        std::vector<Use> r;
        for (auto & u : uses())
            if (!u.name.starts_with("page at width")) // sets variables of the harness
                r.push_back(u);
        // more of the interface
        auto add = [&](std::string name, std::function<std::string()> fn) { r.push_back({name, fn}); };
        auto show = [](mc::Result const & res) { return std::string{mc::err_name(res.err)} + res.what + res.out + res.errout; };
        for (std::vector<std::string> args : std::vector<std::vector<std::string>>{{"-fg", "a", "b"}, {"-f", "--", "-g", "x"}, {"--unknown"}, {"-fx"}, {}, {"-hh"}, {"a", "--flag=x"}})
            add("flags " + mc::qv(args),
                [=]()
                {
                    bool f{}, g{};
                    std::string first{};
                    std::vector<std::string> list{};
                    auto res = mc::call(
                        [&]()
                        {
                            std::vector<std::string> a{"./app"};
                            a.insert(a.end(), args.begin(), args.end());
                            sharg::parser p{"app", a, sharg::update_notifications::off};
                            p.info.short_description = "short";
                            p.info.description.push_back("some text");
                            p.info.examples.push_back("example");
                            p.add_section("Section");
                            p.add_flag(f, sharg::config{.short_id = 'f', .long_id = "flag", .description = "a flag"});
                            p.add_subsection("Sub");
                            p.add_flag(g, sharg::config{.short_id = 'g', .description = "advanced", .advanced = true});
                            p.add_list_item("key", "item");
                            p.add_line("line", true);
                            p.add_positional_option(first, sharg::config{.description = "first"});
                            p.add_positional_option(list, sharg::config{.description = "list"});
                            p.parse();
                            std::cout << p.is_option_set("flag");
                        });
                    return show(res) + std::to_string(f) + std::to_string(g) + first + mc::qv(list);
                });
        for (std::string last : {"x", "--name=y", "-i3"})
            add("moved parser " + last,
                [=]()
                {
                    int i{};
                    std::string s{};
                    auto res = mc::call(
                        [&]()
                        {
                            sharg::parser p{"app", std::vector<std::string>{"./app", last}, sharg::update_notifications::off};
                            p.add_option(i, sharg::config{.short_id = 'i'});
                            sharg::parser q{std::move(p)};
                            q.add_option(s, sharg::config{.long_id = "name"});
                            q.parse();
                        });
                    return show(res) + std::to_string(i) + s;
                });
        for (std::string which : {"out.txt", "no/out.txt", "in.txt"})
            for (int kind : {0, 1, 2, 3})
                add("file validators " + which + std::to_string(kind),
                    [=]()
                    {
                        // a directory of the process: the exploring processes must not see each other's files
                        std::string const dir = mc::scratch_dir + "/uses" + std::to_string(getpid());
                        std::filesystem::create_directories(dir);
                        std::filesystem::path const path = dir + "/" + std::to_string(kind) + which;
                        auto res = mc::call(
                            [&]()
                            {
                                if (kind == 0)
                                    sharg::output_file_validator{sharg::output_file_open_options::open_or_create, {"txt"}}(path);
                                if (kind == 1)
                                    sharg::output_file_validator{}(path);
                                if (kind == 2)
                                    sharg::output_directory_validator{}(path);
                                if (kind == 3)
                                    sharg::input_directory_validator{}(path);
                            });
                        std::string text = show(res);
                        for (size_t at; (at = text.find(dir)) != text.npos;)
                            text.replace(at, dir.size(), "DIR");
                        return text;
                    });
        add("chain",
            [=]()
            {
                std::ostringstream o;
                auto v = sharg::arithmetic_range_validator{1, 9} | sharg::value_list_validator{2, 4, 12} | sharg::arithmetic_range_validator{3, 5};
                for (int x : {1, 2, 4, 12})
                    o << mc::err_name(mc::call([&]() { v(x); }).err);
                return o.str() + v.get_help_page_message();
            });
        add("design errors",
            [=]()
            {
                std::string r;
                for (std::string id : {"", "a", "ab", "ab", "-x", "hel"})
                    r += show(mc::call(
                        [&]()
                        {
                            int i{};
                            sharg::parser p{"app", std::vector<std::string>{"./app", "--ab", "1"}, sharg::update_notifications::off};
                            p.add_option(i, sharg::config{.long_id = id});
                            p.add_option(i, sharg::config{.long_id = "ab"});
                            p.parse();
                        }));
                return r;
            });
        return r;
    }();
    return m;
}
std::vector<std::string> alone{};

void threads(mc::Ctx & c, size_t stride)
{
    std::vector<Use> const & m = menu();
    size_t const a = c.choose(m.size());
    size_t const b = a + c.choose(m.size() - a);
    bool const second_first = c.flip();
    if (a != b && (a * 7 + b) % stride) // every use with itself, and a part of the pairs in the quick tier
        return;
    if (!c.run())
        return;
    auto text = [&]() { return "{" + m[a].name + "} {" + m[b].name + "}" + (second_first ? ", the second one first" : ""); };
    c.describe(text);
    c.step(2);
    auto [r1, r2] = both(m[a].fn, m[b].fn, second_first);
    c.state(mc::hash_str(text()));
    c.outcome("both");
    if (r1 != alone[a])
        c.fail("the use in the first thread gives another result\n  " + text() + "\n  alone: " + alone[a] + "\n  here:  " + r1);
    if (r2 != alone[b])
        c.fail("the use in the second thread gives another result\n  " + text() + "\n  alone: " + alone[b] + "\n  here:  " + r2);
}

// Copies of one configuration and validator in two threads.
template <typename value_t, typename config_t>
std::function<std::string()> with_copy(value_t value, config_t config, std::string arg)
{
    return [=]()
    {
        value_t v = value;
        auto res = mc::call(
            [&]()
            {
                sharg::parser p{"app", std::vector<std::string>{"./app", arg}, sharg::update_notifications::off};
                p.add_option(v, config);
                p.parse();
            });
        return std::string{mc::err_name(res.err)} + res.what + res.out + sharg::detail::to_string(v);
    };
}
void copies(mc::Ctx & c)
{
    size_t const kind = c.choose(9);
    static std::vector<std::string> const args{"-i5", "-i7", "-h", "--export-help=html", "--export-help=man", "-x"};
    std::string const a1 = c.pick(args), a2 = c.pick(args);
    bool const second_first = c.flip();
    if (!c.run())
        return;
    auto text = [&]() { return "kind " + std::to_string(kind) + " " + a1 + " " + a2 + (second_first ? ", the second one first" : ""); };
    c.describe(text);
    c.step(2);
    c.state(mc::hash_str(text()));
    c.outcome("copies");
    auto all = [&](auto config, auto value)
    {
        auto const f1 = with_copy(value, config, a1), f2 = with_copy(value, config, a2);
        auto const w1 = f1(), w2 = f2();
        auto [r1, r2] = both(f1, f2, second_first);
        if (r1 != w1)
            c.fail("the first thread gives another result\n  " + text() + "\n  alone: " + w1 + "\n  here:  " + r1);
        if (r2 != w2)
            c.fail("the second thread gives another result\n  " + text() + "\n  alone: " + w2 + "\n  here:  " + r2);
    };
    switch (kind)
    {
    case 0: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::arithmetic_range_validator{1, 6}}, 1); break;
    case 1: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::value_list_validator{5, 6}}, 1); break;
    case 2: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::regex_validator{"[5x]"}}, std::string{"x"}); break;
    case 3: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::arithmetic_range_validator{1, 6} | sharg::value_list_validator{5, 7}}, 1); break;
    case 4: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::input_file_validator{std::vector<std::string>{"txt"}}}, std::filesystem::path{"x"}); break;
    case 5: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::arithmetic_range_validator{1, 6}}, std::vector<int>{1}); break;
    case 6: all(sharg::config{.short_id = 'i', .description = "d", .required = true}, std::string{"m"}); break;
    case 7: all(sharg::config{.short_id = 'i', .description = "d", .default_message = "m"}, 1); break;
    case 8: all(sharg::config{.short_id = 'i', .description = "d", .validator = sharg::value_list_validator{std::vector<colour>{colour::red}}}, colour{}); break;
    }
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    // The character tables of the standard library are filled on first use, without synchronisation (of equal values).
    auto const & ctype = std::use_facet<std::ctype<char>>(std::locale{});
    for (int k = 0; k < 256; ++k)
    {
        ctype.narrow(char(k), '?');
        ctype.widen(char(k));
    }
    for (size_t k = 0; k < menu().size(); ++k) // each in a process of its own
    {
        std::string & result = alone.emplace_back();
        int fd[2];
        if (pipe(fd))
            _exit(70);
        pid_t const pid = fork();
        if (pid == 0)
        {
            static mc::ThreadBuf out{0}, err{1};
            std::cout.rdbuf(&out);
            std::cerr.rdbuf(&err);
            mc::threaded = true;
            close(fd[0]);
            std::string const l = menu()[k].fn();
            if (write(fd[1], l.data(), l.size()) != ssize_t(l.size()))
                _exit(70);
            _exit(0);
        }
        close(fd[1]);
        char b[4096];
        for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;)
            result.append(b, n);
        close(fd[0]);
        int st;
        waitpid(pid, &st, 0);
    }
    auto threaded = [](auto body)
    {
        return [=](mc::Ctx & c)
        {
            static mc::ThreadBuf out{0}, err{1};
            auto * oo = std::cout.rdbuf(&out);
            auto * oe = std::cerr.rdbuf(&err);
            mc::threaded = true;
            body(c);
            mc::threaded = false;
            std::cout.rdbuf(oo);
            std::cerr.rdbuf(oe);
        };
    };
    size_t const stride = mc::thorough ? 1 : 2;
    mc::add_section("C22/threads", threaded([=](mc::Ctx & c) { threads(c, stride); }));
    mc::add_section("C22/copies in threads", threaded(copies));
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
