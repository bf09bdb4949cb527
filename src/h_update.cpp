// C16, C17, C18: when an update check is performed, what it asks for and reports, and that it never disturbs the application.
//
// system(), the real time clock, pthread_create() and the terminal are replaced; HOME and TMPDIR lie in a directory of the
// process, which runs as an unprivileged user.
#include "sharg_env.hpp"

#include <clocale>
#include <csignal>
#include <dirent.h>
#include <dlfcn.h>
#include <grp.h>
#include <sys/time.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#    define SANITIZER 1
#else
#    define SANITIZER 0
#endif

namespace world
{
int64_t now = 0; // 0: the real time
std::mutex m;
std::condition_variable cv;
std::vector<std::string> requests, probes; // commands
bool wget = true, curl = true;
int status = 0;               // of the request
bool gate_open = true;        // the request blocks while this is false
int running = 0, finished = 0; // requests
bool no_threads = false;
} // namespace world

extern "C" int system(char const * c)
{
    std::unique_lock lock{world::m};
    std::string const s = c ? c : "";
    if (s.find("https://") == s.npos) // is the program available?
    {
        world::probes.push_back(s);
        bool const w = s.find("wget") != s.npos, k = s.find("curl") != s.npos;
        return (w && world::wget) || (k && world::curl) ? 0 : 127 << 8;
    }
    world::requests.push_back(s);
    ++world::running;
    world::cv.notify_all();
    world::cv.wait(lock, []() { return world::gate_open; });
    --world::running;
    ++world::finished;
    int const status = world::status;
    world::cv.notify_all();
    return status;
}
#if !SANITIZER
extern "C" int clock_gettime(clockid_t id, timespec * t) noexcept
{
    using fn = int (*)(clockid_t, timespec *);
    static fn const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "clock_gettime"));
    int const r = real(id, t);
    if (world::now && id == CLOCK_REALTIME && !r)
        *t = {world::now, 0};
    return r;
}
extern "C" time_t time(time_t * p) noexcept
{
    timespec t{};
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}
extern "C" int gettimeofday(timeval * p, void *) noexcept
{
    timespec t{};
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = {t.tv_sec, t.tv_nsec / 1000};
    return 0;
}
extern "C" int pthread_create(pthread_t * th, pthread_attr_t const * a, void * (*f)(void *), void * arg) noexcept
{
    using fn = int (*)(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *);
    static fn const real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_create"));
    if (world::no_threads)
        return EAGAIN;
    return real(th, a, f, arg);
}
#endif

namespace
{
namespace fs = std::filesystem;
#ifdef NDEBUG
bool const release = true;
std::string const stamp_suffix = "_usr.timestamp";
#else
bool const release = false;
std::string const stamp_suffix = "_dev.timestamp";
#endif

std::string base; // of this process
[[noreturn]] void harness_error(std::string const & what)
{
    std::cerr << "harness error: " << what << ": " << strerror(errno) << '\n';
    _exit(70);
}
void enter() // once per process
{
    static pid_t entered = 0;
    if (entered == getpid())
        return;
    entered = getpid();
    base = mc::scratch_dir + "/update" + std::to_string(getpid());
    if (mkdir(base.c_str(), 0755))
        harness_error("mkdir");
    if (geteuid() == 0)
        if (chown(base.c_str(), 65534, 65534) || setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))
            harness_error("cannot become an unprivileged user");
    umask(022);
    base = fs::canonical(base).string();
    setenv("PATH", "/nonexistent", 1);
}

// ---- files -----------------------------------------------------------------------------------------------------------------
void clear(std::string const & dir) // makes everything writable and removes it
{
    DIR * d = opendir(dir.c_str());
    if (!d)
    {
        if (chmod(dir.c_str(), 0755))
            return;
        d = opendir(dir.c_str());
        if (!d)
            return;
    }
    chmod(dir.c_str(), 0755);
    while (dirent * e = readdir(d))
    {
        std::string const n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string const p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st))
            harness_error("lstat " + p);
        if (S_ISDIR(st.st_mode))
        {
            clear(p);
            if (rmdir(p.c_str()))
                harness_error("rmdir " + p);
        }
        else if (unlink(p.c_str()))
            harness_error("unlink " + p);
    }
    closedir(d);
}
std::string read_file(std::string const & p)
{
    std::ifstream in{p};
    return std::string{std::istreambuf_iterator<char>(in), {}};
}
void write_file(std::string const & p, std::string const & s, mode_t mode = 0644)
{
    std::ofstream{p} << s;
    if (chmod(p.c_str(), mode))
        harness_error("chmod " + p);
}
void make_dir(std::string const & p, mode_t mode = 0755)
{
    if (mkdir(p.c_str(), 0755) || chmod(p.c_str(), mode))
        harness_error("mkdir " + p);
}
//!\brief Entries below dir: type and mode, with content or target. Unreadable things are opened for the moment.
void snapshot(std::string const & dir, std::string const & rel, std::map<std::string, std::string> & m)
{
    struct stat dst;
    if (lstat(dir.c_str(), &dst))
        return;
    bool const locked = (dst.st_mode & 0500) != 0500;
    if (locked)
        chmod(dir.c_str(), dst.st_mode | 0500);
    std::vector<std::string> names;
    if (DIR * d = opendir(dir.c_str()))
    {
        while (dirent * e = readdir(d))
            names.push_back(e->d_name);
        closedir(d);
    }
    for (auto & n : names)
    {
        if (n == "." || n == "..")
            continue;
        std::string const p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st))
            continue;
        char b[32];
        snprintf(b, sizeof b, "%o ", st.st_mode);
        std::string s = b;
        if (S_ISREG(st.st_mode))
        {
            if (!(st.st_mode & 0400))
                chmod(p.c_str(), st.st_mode | 0400);
            s += read_file(p);
            if (!(st.st_mode & 0400))
                chmod(p.c_str(), st.st_mode & 07777);
        }
        if (S_ISLNK(st.st_mode))
            s += fs::read_symlink(p).string();
        m[r] = s;
        if (S_ISDIR(st.st_mode))
            snapshot(p, r, m);
    }
    if (locked)
        chmod(dir.c_str(), dst.st_mode & 07777);
}
std::map<std::string, std::string> snapshot()
{
    std::map<std::string, std::string> m;
    snapshot(base, "", m);
    return m;
}

// ---- one run of an application -------------------------------------------------------------------------------------------------
int64_t const T0 = 1'700'000'000;
int64_t const day = 86400;

struct Run
{
    bool developer{true};
    int env{0}; // of SHARG_NO_VERSION_CHECK: unset, empty, 1
    std::vector<std::string> args{};
    std::string app{"App"}, version{"1.0.0"}, url{};
    bool tty_in{false}, tty_err{false};
    std::string input{};
    bool subcommands{false};
    bool locale{false}; // an unusual global locale is set
};
struct Seen
{
    mc::Result r;
    int i{1};
    bool f{false};
    int sub{1};
    std::string sub_name{};
    size_t requests{0};
    bool asked{false};
    size_t input_left{0};
    double parse_seconds{0}, destructor_seconds{0};
    std::string process_change{};
    std::string values() const { return std::to_string(i) + " " + std::to_string(f) + " " + std::to_string(sub) + " " + sub_name; }
};
double seconds()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// What the application shares with the library within the process.
std::map<std::string, std::string> process_state()
{
    std::map<std::string, std::string> r;
    auto stream = [&](char const * name, std::ios & s)
    {
        r[name] = std::to_string(s.rdstate()) + " " + std::to_string(s.flags()) + " " + std::to_string(s.exceptions()) + " " + std::to_string(s.width()) + " "
                + std::to_string(s.precision()) + " " + s.fill() + (s.tie() ? " tied" : "") + " " + std::to_string(std::size_t(s.rdbuf()));
    };
    stream("std::cin", std::cin);
    stream("std::cout", std::cout);
    stream("std::cerr", std::cerr);
    mode_t const mask = umask(0);
    umask(mask);
    r["umask"] = std::to_string(mask);
    char buffer[4096];
    r["working directory"] = getcwd(buffer, sizeof buffer) ? buffer : "none";
    for (char ** e = environ; *e; ++e)
        (r["environment"] += *e) += '\n';
    for (int sig : {SIGINT, SIGTERM, SIGCHLD, SIGPIPE, SIGALRM, SIGHUP, SIGQUIT})
    {
        struct sigaction a;
        sigaction(sig, nullptr, &a);
        r["signal handlers"] += std::to_string(std::size_t(a.sa_handler)) + " ";
    }
    sigset_t set;
    pthread_sigmask(SIG_SETMASK, nullptr, &set);
    for (int sig = 1; sig < 32; ++sig)
        r["signal mask"] += char('0' + sigismember(&set, sig));
    r["locale"] = std::locale{}.name() + setlocale(LC_ALL, nullptr);
    return r;
}

template <typename between_t>
Seen run(Run const & c, between_t && between_parse_and_destructor)
{
    Seen s;
    {
        std::lock_guard lock{world::m};
        world::requests.clear();
        world::probes.clear();
    }
    if (c.env)
        setenv("SHARG_NO_VERSION_CHECK", c.env == 1 ? "" : "1", 1);
    else
        unsetenv("SHARG_NO_VERSION_CHECK");
    mc::tty_in = c.tty_in;
    mc::tty_err = c.tty_err;
    std::istringstream in{c.input};
    auto * old_in = std::cin.rdbuf(in.rdbuf());
    std::cin.clear();
    std::vector<std::string> args{"app"};
    args.insert(args.end(), c.args.begin(), c.args.end());
    mc::GlobalLocale const locale{c.locale};
    auto const process_before = process_state();
    s.r = mc::call(
        [&]()
        {
            double t0 = seconds();
            struct Timer
            {
                double & t0;
                double & to;
                ~Timer() { to = seconds() - t0; }
            };
            Timer whole{t0, s.destructor_seconds}; // until the parser is destroyed
            sharg::parser p{c.app, args, c.developer ? sharg::update_notifications::on : sharg::update_notifications::off,
                            c.subcommands ? std::vector<std::string>{"build", "search"} : std::vector<std::string>{}};
            p.info.version = c.version;
            p.info.url = c.url;
            p.add_option(s.i, sharg::config{.short_id = 'i', .long_id = "int"});
            p.add_flag(s.f, sharg::config{.short_id = 'f', .long_id = "flag"});
            struct Between
            {
                between_t & fn;
                double & t0;
                double & parse;
                sharg::parser & p;
                ~Between()
                {
                    parse = seconds() - t0;
                    fn(p);
                    t0 = seconds();
                }
            } between{between_parse_and_destructor, t0, s.parse_seconds, p};
            p.parse();
            if (c.subcommands)
            {
                auto & sub = p.get_sub_parser();
                s.sub_name = sub.info.app_name;
                sub.add_option(s.sub, sharg::config{.short_id = 's'});
                sub.parse();
            }
        });
    s.asked = s.r.errout.find("[a, n, y, s]") != std::string::npos;
    auto const process_after = process_state();
    for (auto & [k, v] : process_before)
        if (v != process_after.at(k) && !(s.asked && k == "std::cin")) // the answer is read from there
            s.process_change += " " + k + " is not as before;";
    std::cin.rdbuf(old_in);
    std::cin.clear();
    mc::tty_in = mc::tty_err = false;
    s.input_left = in.str().size() - (in.tellg() < 0 ? in.str().size() : size_t(in.tellg()));
    std::lock_guard lock{world::m};
    s.requests = world::requests.size();
    return s;
}
Seen run(Run const & c)
{
    return run(c, [](sharg::parser &) {});
}

// ---- C16: the decision ---------------------------------------------------------------------------------------------------------
struct Record // of earlier decisions
{
    bool exists{false};
    bool complete{false}; // "<time>\n<decision>"
    int64_t time{0};
    std::string decision{};
    std::string text() const { return exists ? std::to_string(time) + "\n" + decision : ""; }
};
struct Verdict
{
    bool request{false}, asked{false};
    bool written{false};
    std::string decision{};
};
//!\brief What has to happen in a run.
Verdict decide(Run const & c, std::optional<bool> on_command_line, Record const & r, int64_t now)
{
    Verdict v;
    if (!c.developer || c.env)
        return v;
    if (on_command_line)
    {
        v.request = *on_command_line;
        return v;
    }
    if (r.exists)
    {
        if (now - r.time < day)
            return v;
        if (r.decision == "NEVER")
            return v;
        if (r.decision == "ALWAYS")
        {
            v.request = v.written = true;
            v.decision = "ALWAYS";
            return v;
        }
    }
    v.written = true;
    v.decision = "ASK";
    if (c.tty_in && c.tty_err)
    {
        v.asked = true;
        char const a = c.input.empty() || c.input[0] == '\n' ? 's' : c.input[0];
        v.request = a == 'y' || a == 'a';
        if (a == 'a')
            v.decision = "ALWAYS";
        if (a == 'n')
            v.decision = "NEVER";
    }
    return v;
}
bool would_ask(Run const & c, std::optional<bool> cl, Record const & r, int64_t now) { return decide(c, cl, r, now).asked; }

std::string seqan_dir() { return base + "/home/.config/seqan"; }
std::string stamp(std::string const & app) { return seqan_dir() + "/" + app + stamp_suffix; }
void fresh_home()
{
    enter();
    clear(base);
    make_dir(base + "/home");
    make_dir(base + "/home/.config");
    make_dir(seqan_dir());
    make_dir(base + "/tmp");
    setenv("HOME", (base + "/home").c_str(), 1);
    setenv("TMPDIR", (base + "/tmp").c_str(), 1);
}

struct Line // of arguments
{
    std::vector<std::string> args;
    bool subcommands{false};
    bool error{false}; // it may be noticed before the check is performed
};
std::vector<Line> const lines{{{}}, {{"-i", "5"}}, {{"-h"}}, {{"--version"}}, {{"build", "-s", "3"}, true}, {{"build", "--help"}, true}, {{"-f", "search"}, true},
                              {{"-i", "x"}, false, true}, {{"--unknown"}, false, true}, {{"buld"}, true, true}};
struct Choice
{
    char const * text;
    std::optional<bool> value;
};
std::vector<Choice> const choices{{"", {}}, {"1", true}, {"true", true}, {"0", false}, {"false", false}};
std::vector<std::string> const answers{"a\n", "n\n", "y\n", "s\n", "\n", "", "always\n", "nope\n", "x\n", "A\n", "y", " y\n"};

std::string compare(Run const & c, Verdict const & v, Seen const & s, std::map<std::string, std::string> const & old_files, int64_t now, bool error)
{
    std::string problems;
    if (error && !s.requests && !s.asked) // the error was noticed first?
        if (problems = compare(c, {}, s, old_files, now, false); problems.empty())
            return "";
    problems.clear();
    if (s.requests != v.request)
        problems += " " + std::to_string(s.requests) + " requests instead of " + std::to_string(v.request) + ";";
    if (s.asked != v.asked)
        problems += s.asked ? " the user is asked;" : " the user is not asked;";
    if (s.asked == v.asked)
    {
        size_t const line = std::min(c.input.find('\n'), c.input.size());
        size_t const used = v.asked ? std::min(line + 1, c.input.size()) : 0;
        if (c.input.size() - s.input_left != used)
            problems += " " + std::to_string(c.input.size() - s.input_left) + " characters are read from standard input;";
    }
    auto files = snapshot();
    std::string const key = "home/.config/seqan/" + c.app + stamp_suffix;
    std::erase_if(files, [](auto const & e) { return e.second.starts_with('4'); });
    auto want = old_files;
    std::erase_if(want, [](auto const & e) { return e.second.starts_with('4'); });
    if (v.written)
    {
        std::string const mode = want.contains(key) ? want[key].substr(0, want[key].find(' ') + 1) : "100644 ";
        want[key] = mode + std::to_string(now) + "\n" + v.decision;
    }
    if (files != want)
    {
        for (auto & [k, e] : want)
            if (!files.contains(k))
                problems += " the record " + k + " is missing;";
            else if (files[k] != e)
                problems += " the file " + k + " is " + mc::q(files[k]) + " instead of " + mc::q(e) + ";";
        for (auto & [k, e] : files)
            if (!want.contains(k))
                problems += " there is a file " + k + " with " + mc::q(e) + ";";
    }
    return problems;
}
std::string describe(Run const & c, Record const & r, int64_t now)
{
    return mc::qv(c.args) + (c.developer ? "" : " off") + " env=" + std::to_string(c.env) + " tty=" + std::to_string(c.tty_in) + std::to_string(c.tty_err) + " input "
         + mc::q(c.input) + " record " + (r.exists ? r.decision + " of " + std::to_string(r.time - now) : "none");
}

void add_choice(Run & r, Choice const & ch, Line const & l, bool first)
{
    r.args = l.args;
    if (*ch.text)
        r.args.insert(first || l.subcommands ? r.args.begin() : r.args.end(), {"--version-check", ch.text});
    r.subcommands = l.subcommands;
}

void single_run(mc::Ctx & c)
{
    static std::vector<int64_t> const ages{0, 1, day - 1, day, day + 1, 30 * day, T0 - 5, -5, -day, -30 * day};
    Record rec;
    size_t const k = c.choose(1 + 3 * ages.size());
    int64_t const now = T0;
    if (k)
    {
        rec.exists = true;
        rec.decision = std::vector<std::string>{"ASK", "ALWAYS", "NEVER"}[(k - 1) % 3];
        rec.time = now - ages[(k - 1) / 3];
    }
    Run r;
    r.developer = !c.flip();
    r.env = c.choose(3);
    Choice const & ch = c.pick(choices);
    Line const & l = c.pick(lines);
    bool const first = *ch.text && c.flip();
    add_choice(r, ch, l, first);
    if (!first && *ch.text && l.error)
        return;
    r.tty_in = c.flip();
    r.tty_err = c.flip();
    r.input = would_ask(r, ch.value, rec, now) ? c.pick(answers) : "n\nmore input\n";
    if (!c.run())
        return;
    c.describe([&]() { return describe(r, rec, now); });
    c.step();
    c.state(mc::hash_str(rec.text()));
    fresh_home();
    world::now = now;
    if (rec.exists)
        write_file(stamp(r.app), rec.text());
    auto const before = snapshot();
    Verdict const v = decide(r, ch.value, rec, now);
    Seen const s = run(r);
    world::now = 0;
    c.outcome(std::string{v.request ? "request " : "no request "} + (v.asked ? "asked " : "") + v.decision);
    if (auto p = compare(r, v, s, before, now, l.error); !p.empty())
        c.fail(p + "\n  " + describe(r, rec, now));
}

// Histories: the model state is carried along; every transition is executed on the implementation.
void histories(mc::Ctx & c, size_t n, size_t apps, bool small, bool locales = false)
{
    static std::vector<int64_t> const all_waits{0, 1, day - 1, day, day + 1}, few_waits{0, day - 1, day};
    struct Step
    {
        Run r;
        std::optional<bool> cl;
        int64_t now;
        Verdict v;
    };
    std::vector<Step> steps;
    std::vector<Record> rec(apps);
    int64_t now = T0;
    static std::vector<std::string> const names{"App", "App2", "Ap"};
    static std::vector<Choice> const few_choices{choices[0], choices[1], choices[3]};
    for (size_t k = 0; k < n; ++k)
    {
        Step s;
        size_t const a = c.choose(apps);
        s.r.app = names[a];
        now += c.pick(small ? few_waits : all_waits);
        s.now = now;
        Choice const & ch = c.pick(few_choices);
        s.cl = ch.value;
        add_choice(s.r, ch, lines[1], false);
        s.r.tty_in = s.r.tty_err = c.flip();
        s.r.locale = locales && c.flip();
        if (would_ask(s.r, s.cl, rec[a], now))
            s.r.input = answers[c.choose(5)];
        s.v = decide(s.r, s.cl, rec[a], now);
        if (s.v.written)
        {
            rec[a] = {true, true, now, s.v.decision};
        }
        steps.push_back(s);
    }
    if (!c.run())
        return;
    auto text = [&]()
    {
        std::string t;
        for (auto & s : steps)
            t += "\n    " + s.r.app + " +" + std::to_string(s.now - T0) + " s: " + mc::qv(s.r.args) + (s.r.tty_in ? " answer " + mc::q(s.r.input) : " no terminal") + (s.r.locale ? " other locale" : "");
        return t;
    };
    c.describe(text);
    c.step(n);
    fresh_home();
    std::vector<Record> cur(apps);
    for (auto & s : steps)
    {
        size_t const a = std::find(names.begin(), names.end(), s.r.app) - names.begin();
        world::now = s.now;
        auto const before = snapshot();
        Seen const got = run(s.r);
        std::string state;
        for (auto & r : cur)
            state += r.exists ? r.decision + std::to_string(std::min<int64_t>(s.now - r.time, day + 1)) : "none";
        c.state(mc::hash_str(state));
        auto p = compare(s.r, s.v, got, before, s.now, false);
        if (s.v.written)
            cur[a] = {true, true, s.now, s.v.decision};
        if (!p.empty())
        {
            c.fail(p + "\n  at +" + std::to_string(s.now - T0) + " of" + text());
            break;
        }
    }
    world::now = 0;
    c.outcome("history");
}

// The records of two applications are independent, however similar their names.
void two_names(mc::Ctx & c, size_t max)
{
    static std::vector<std::string> const names = [max]()
    {
        std::vector<std::string> v, last{""};
        for (size_t k = 0; k < max; ++k)
        {
            std::vector<std::string> next;
            for (auto & l : last)
                for (char x : {'a', 'A', '_', '-', '0'})
                    next.push_back(l + x);
            v.insert(v.end(), next.begin(), next.end());
            last = next;
        }
        for (auto x : {"my_app", "my_tool", "my-app", "my-tool", "myapp", "myApp", "app_usr", "app", "usr", "app_dev", "app-build", "app_build", "app_1", "app_12",
                       "a_long_name_of_an_application_that_differs_only_at_its_end_1", "a_long_name_of_an_application_that_differs_only_at_its_end_2"})
            v.push_back(x);
        for (size_t n : {100, 200, 238}) // the length of a file name is limited
            v.push_back(std::string(n, 'x') + "1"), v.push_back(std::string(n, 'x') + "2");
        return v;
    }();
    Run r[3];
    size_t const first = c.choose(names.size()), second = c.choose(names.size());
    if (first == second)
        return;
    r[0].app = r[2].app = names[first];
    r[1].app = names[second];
    size_t const answer = c.choose(4); // a n y s
    Record rec[3]{};
    Verdict v[3];
    for (size_t k = 0; k < 3; ++k)
    {
        r[k].args = {"-i", "5"};
        r[k].tty_in = r[k].tty_err = true;
        r[k].input = answers[k == 1 ? (answer + 1) % 4 : answer];
        v[k] = decide(r[k], {}, k == 2 ? rec[0] : Record{}, T0);
        rec[k] = {true, true, T0, v[k].decision};
    }
    if (!c.run())
        return;
    auto text = [&]() { return r[0].app + " then " + r[1].app + " then " + r[0].app + " answers " + mc::q(r[0].input) + " and " + mc::q(r[1].input); };
    c.describe(text);
    c.step(3);
    c.state(mc::hash_str(text()));
    fresh_home();
    world::now = T0;
    for (size_t k = 0; k < 3; ++k)
    {
        auto const before = snapshot();
        Seen const got = run(r[k]);
        auto p = compare(r[k], v[k], got, before, T0, false);
        if (!p.empty())
        {
            c.fail(p + "\n  in run " + std::to_string(k) + " of " + text());
            break;
        }
    }
    world::now = 0;
    c.outcome("two names");
}

// Any content of the record. A broken record counts as none, but a readable part of it may be respected.
void broken_records(mc::Ctx & c, size_t max)
{
    static std::string const recent = std::to_string(T0 - 10), old = std::to_string(T0 - 2 * day);
    static std::vector<std::string> const tokens{"\n", "ASK", "ALWAYS", "NEVER", recent, old, "x", " ", "-", "\r", std::string(1, '\0'), "1e400", "."};
    size_t const special = c.choose(6); // 0: a regular file, then other kinds of files
    std::string text;
    if (!special)
    {
        size_t const n = c.choose(max + 1);
        for (size_t k = 0; k < n; ++k)
            text += c.pick(tokens);
    }
    Run r;
    r.args = {"-i", "5"};
    size_t const a = c.choose(6);
    if (a < 4)
    {
        r.tty_in = r.tty_err = true;
        r.input = answers[a];
    }
    std::optional<bool> cl;
    if (a == 5)
    {
        cl = true;
        r.args.insert(r.args.end(), {"--version-check", "1"});
    }
    if (!c.run())
        return;
    std::string const what = special ? "kind " + std::to_string(special) : mc::q(text);
    c.describe([&]() { return what + " " + std::to_string(a); });
    c.step();
    c.state(mc::hash_str(what));
    fresh_home();
    std::string const p = stamp(r.app);
    bool writable = true;
    switch (special)
    {
    case 0: write_file(p, text); break;
    case 1: write_file(p, std::to_string(T0 - 10) + "\nALWAYS", 0000), writable = false; break;
    case 2: write_file(p, std::to_string(T0 - 10) + "\nALWAYS", 0200); break;
    case 3: make_dir(p), writable = false; break;
    case 4:
        if (symlink("nowhere/else", p.c_str()))
            harness_error("symlink");
        writable = false;
        break;
    case 5: write_file(p, std::to_string(T0 - 2 * day) + "\nNEVER", 0444), writable = false; break;
    }
    world::now = T0;
    auto const before = snapshot();
    Seen const s = run(r);
    world::now = 0;
    c.outcome(special ? "other file" : "content");
    // The allowed verdicts.
    std::vector<Verdict> allowed;
    Record none;
    auto add = [&](Verdict v)
    {
        if (!writable)
            v.written = false;
        allowed.push_back(v);
    };
    std::istringstream is{text};
    std::string line1, line2;
    std::getline(is, line1);
    bool const two = static_cast<bool>(std::getline(is, line2));
    bool const well_formed = special == 5
                          || (!special && two && !line1.empty() && line1.size() < 12 && std::ranges::all_of(line1, [](char ch) { return ch >= '0' && ch <= '9'; })
                              && (line2 == "ASK" || line2 == "ALWAYS" || line2 == "NEVER") && is.eof());
    if (special == 5)
        add(decide(r, cl, {true, true, T0 - 2 * day, "NEVER"}, T0));
    else if (well_formed)
        add(decide(r, cl, {true, true, std::stoll(line1), line2}, T0));
    else
    {
        add(decide(r, cl, none, T0));
        if (!cl)
        {
            if (text.find("NEVER") != text.npos || text.find(recent) != text.npos || std::strtod(line1.c_str(), nullptr) > double(T0 - day))
                add({});
            if (text.find("ALWAYS") != text.npos)
            {
                add({true, false, false, ""});
                add({true, false, true, "ALWAYS"});
            }
        }
    }
    std::string problems;
    for (auto & v : allowed)
    {
        problems = compare(r, v, s, before, T0, false);
        if (problems.empty())
            return;
    }
    c.fail(problems + "\n  record " + what + (r.tty_in ? " answer " + mc::q(r.input) : ""));
}

// ---- C17: request and notices ------------------------------------------------------------------------------------------------------
struct Notices
{
    bool app{false}, sharg{false}, unregistered{false}, registered{false};
    bool operator==(Notices const &) const = default;
    std::string show() const
    {
        return std::string{app ? " new application version" : ""} + (sharg ? " new sharg version" : "") + (unregistered ? " unregistered" : "")
             + (registered ? " newer than registered" : "");
    }
};
Notices read_notices(std::string const & err)
{
    auto has = [&](char const * s) { return err.find(s) != std::string::npos; };
    return {has("A new version of this application"), has("A new Sharg version"), has("register your app"), has("newer than the one registered")};
}
struct Version
{
    std::array<int64_t, 3> n{};
    bool valid{false}, huge{false};
};
Version parse_version(std::string const & s, bool prefix)
{
    Version v;
    size_t i = 0;
    for (int k = 0; k < 3; ++k)
    {
        if (k && (i == s.size() || s[i++] != '.'))
            return {};
        size_t const b = i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])))
        {
            v.n[k] = std::min<int64_t>(v.n[k] * 10 + (s[i] - '0'), 1ll << 40);
            ++i;
        }
        if (i == b)
            return {};
        v.huge = v.huge || v.n[k] > INT_MAX;
    }
    v.valid = prefix || i == s.size();
    return v;
}
std::string show_own(std::string const & s) { return mc::q(s); }

void check_notices(mc::Ctx & c, std::string const & record, std::string const & own, std::string const & url)
{
    c.describe([&]() { return mc::q(record) + " own version " + mc::q(own); });
    c.step();
    c.state(mc::hash_str(record, mc::hash_str(own)));
    fresh_home();
    write_file(seqan_dir() + "/App.version", record);
    Run r;
    r.args = {"--version-check", "1", "-i", "5"};
    r.version = own;
    r.url = url;
    Seen const s = run(r);
    std::istringstream is{record};
    std::string l1, l2;
    std::getline(is, l1);
    std::getline(is, l2);
    Version const srv_app = parse_version(l1, false), srv_sharg = parse_version(l2, false);
    Version mine = parse_version(own, true);
    if (!mine.valid)
        mine = {{0, 0, 0}, true};
    Version const sharg{{SHARG_VERSION_MAJOR, SHARG_VERSION_MINOR, SHARG_VERSION_PATCH}, true};
    Notices want;
    bool const zero_app = !srv_app.valid || srv_app.n == Version{}.n, zero_sharg = !srv_sharg.valid || srv_sharg.n == Version{}.n;
    if (release)
        want.app = !zero_app && srv_app.n > mine.n;
    else
    {
        want.unregistered = l1 == "UNREGISTERED_APP";
        want.sharg = !zero_sharg && srv_sharg.n > sharg.n;
        want.registered = !zero_app && mine.n > srv_app.n;
    }
    Notices got = read_notices(s.r.errout);
    c.outcome(want.show());
    if (srv_app.huge || mine.huge)
        got.app = want.app, got.registered = want.registered;
    if (srv_sharg.huge)
        got.sharg = want.sharg;
    std::string problems;
    if (got != want)
        problems += " notices:" + got.show() + " instead of" + want.show() + ";";
    if (want == Notices{} && !(srv_app.huge || mine.huge || srv_sharg.huge) && !s.r.errout.empty())
        problems += " text on standard error: " + mc::q(s.r.errout) + ";";
    if (want.app && !url.empty() && s.r.errout.find("Visit " + url + " for") == std::string::npos)
        problems += " the address of the application is not named;";
    if (s.r.err != mc::Err::none || s.i != 5 || !s.r.out.empty())
        problems += " parse() is disturbed: " + s.r.what;
    if (s.requests != 1)
        problems += " " + std::to_string(s.requests) + " requests;";
    if (!problems.empty())
        c.fail(problems + "\n  record " + mc::q(record) + " own version " + mc::q(own));
}
void versions(mc::Ctx & c, std::vector<int> const & numbers)
{
    std::string srv, own;
    for (int k = 0; k < 3; ++k)
        srv += (k ? "." : "") + std::to_string(c.pick(numbers));
    for (int k = 0; k < 3; ++k)
        own += (k ? "." : "") + std::to_string(c.pick(numbers));
    bool const url = c.flip();
    if (!c.run())
        return;
    check_notices(c, srv + "\n0.0.0\n", own, url ? "https://my.url/x" : "");
}
//!\brief Versions that differ in one number, of any number of digits.
void large_versions(mc::Ctx & c)
{
    static std::vector<std::string> const numbers{"0", "7", "9", "10", "19", "99", "100", "101", "255", "256", "999", "1000", "20231231", "32767", "32768", "65536", "99999", "100000",
                                                  "2147483646", "2147483647"};
    size_t const where = c.choose(3);
    std::string const & a = c.pick(numbers);
    std::string const & b = c.pick(numbers);
    bool const contrary = where < 2 && c.flip(); // the numbers behind say the contrary
    bool const sharg = c.flip();
    if (!c.run())
        return;
    std::string srv, own;
    for (size_t k = 0; k < 3; ++k)
    {
        srv += (k ? "." : "") + (k == where ? a : k > where && contrary ? std::string{"3"} : std::string{"5"});
        own += (k ? "." : "") + (k == where ? b : k > where && contrary ? std::string{"4000"} : std::string{"5"});
    }
    check_notices(c, sharg ? "5.5.5\n" + srv + "\n" : srv + "\n0.0.0\n", sharg ? "5.5.5" : own, "");
}
void records(mc::Ctx & c)
{
    static auto const near = []()
    {
        std::vector<std::string> v{"UNREGISTERED_APP", "", "0.0.0", "1.0.0", "2.0.0", "1.0", "1.0.0.0", "1.0.0 ", " 2.0.0", "2.0.0-rc.1", "v2.0.0", "2.0.x", "2..0",
                                   "-2.0.0", "2.0.0\r", "999999999999.0.0", "02.0.0", "UNREGISTERED_APP ", "UNREGISTERED", "UNREGISTERED_SEQAN", "2", "2.", ".", "<html>", "\xff\xfe",
                                   "2.0.2147483647", "10.0.0", "1.0.1", "1.1.0", "0.9.9"};
        for (int a = -1; a <= 1; ++a)
            for (int b = -1; b <= 1; ++b)
                for (int d = -1; d <= 1; ++d)
                    if (SHARG_VERSION_MAJOR + a >= 0 && SHARG_VERSION_MINOR + b >= 0 && SHARG_VERSION_PATCH + d >= 0)
                        v.push_back(std::to_string(SHARG_VERSION_MAJOR + a) + "." + std::to_string(SHARG_VERSION_MINOR + b) + "." + std::to_string(SHARG_VERSION_PATCH + d));
        return v;
    }();
    std::string const & l1 = c.pick(near);
    std::string const & l2 = c.pick(near);
    size_t const layout = c.choose(7);
    static std::vector<std::string> const own_versions{"1.0.0", "", "1.0.0-rc.2", "0.0.0", "abc", "1.0", "2.0.0", "1.0.0 with text", "999999999999.0.0", " 1.0.0", "01.0.0", "1.0.0.7"};
    std::string const & own = c.pick(own_versions);
    if (!c.run())
        return;
    std::string record;
    switch (layout)
    {
    case 0: record = l1 + "\n" + l2 + "\n"; break;
    case 1: record = l1 + "\n" + l2; break;
    case 2: record = l1; break;
    case 3: record = l1 + "\n"; break;
    case 4: record = l1 + "\n" + l2 + "\nmore\n"; break;
    case 5: record = l1 + "\n\n" + l2 + "\n"; break;
    case 6: record = "\n" + l1 + "\n" + l2 + "\n"; break;
    }
    // A truncated record repeats nothing: only what is there counts.
    check_notices(c, record, own, "");
}
void texts_as_record(mc::Ctx & c, size_t max)
{
    static std::vector<std::string> const tokens{"9", ".", "\n", "1", "UNREGISTERED_APP", " ", "\r", std::string(1, '\0'), "x", "-"};
    size_t const n = c.choose(max + 1);
    std::string s;
    for (size_t k = 0; k < n; ++k)
        s += c.pick(tokens);
    if (!c.run())
        return;
    check_notices(c, s, "1.0.0", "");
}

// A command line of the shell: words, and what else it would do.
struct Shell
{
    std::vector<std::string> words;
    std::string problems;
};
Shell parse_shell(std::string const & s)
{
    Shell r;
    std::string w;
    bool in_word = false;
    auto flush = [&]()
    {
        if (in_word)
            r.words.push_back(w);
        w.clear();
        in_word = false;
    };
    for (size_t i = 0; i < s.size(); ++i)
    {
        char const ch = s[i];
        if (ch == '\'')
        {
            size_t const e = s.find('\'', i + 1);
            if (e == s.npos)
            {
                r.problems += " unterminated quote;";
                break;
            }
            w += s.substr(i + 1, e - i - 1);
            i = e;
            in_word = true;
        }
        else if (ch == '"')
        {
            in_word = true;
            for (++i; i < s.size() && s[i] != '"'; ++i)
            {
                if (s[i] == '\\' && i + 1 < s.size() && std::string_view{"$`\"\\\n"}.find(s[i + 1]) != std::string_view::npos)
                    ++i;
                else if (s[i] == '$' || s[i] == '`')
                    r.problems += " expansion within double quotes;";
                w += s[i];
            }
            if (i >= s.size())
                r.problems += " unterminated quote;";
        }
        else if (ch == '\\')
        {
            in_word = true;
            if (++i < s.size())
                w += s[i];
        }
        else if (ch == ' ' || ch == '\t')
            flush();
        else if (ch == '>' || ch == '2' || ch == '&')
        {
            static std::vector<std::string> const redirections{"> /dev/null", ">/dev/null", "2>&1", "2> /dev/null", "2>/dev/null", "&> /dev/null"};
            bool found = false;
            if (!in_word)
                for (auto & x : redirections)
                    if (s.compare(i, x.size(), x) == 0 && (i + x.size() == s.size() || s[i + x.size()] == ' '))
                    {
                        i += x.size() - 1;
                        found = true;
                        break;
                    }
            if (found)
                continue;
            if (ch == '2')
            {
                w += ch;
                in_word = true;
            }
            else
                r.problems += std::string{" unquoted '"} + ch + "';";
        }
        else if (std::string_view{"$`;|<()*?[]~#!{}\n"}.find(ch) != std::string_view::npos)
            r.problems += " unquoted " + mc::q(std::string(1, ch)) + ";";
        else
        {
            w += ch;
            in_word = true;
        }
    }
    flush();
    return r;
}
void check_request(mc::Ctx & c, std::string const & name, std::string const & own, std::string const & home, bool wget, bool curl)
{
    auto text = [&]()
    { return "application " + mc::q(name) + " version " + mc::q(own) + " home " + mc::q(home) + (wget ? " wget" : "") + (curl ? " curl" : ""); };
    c.describe(text);
    c.step();
    c.state(mc::hash_str(name + '\1' + own + '\1' + home, wget * 2 + curl));
    fresh_home();
    std::string const dir = base + "/home/" + home;
    fs::create_directories(dir);
    setenv("HOME", dir.c_str(), 1);
    world::wget = wget;
    world::curl = curl;
    Run r;
    r.app = name;
    r.version = own;
    r.args = {"-i", "5", "--version-check", "1"};
    Seen const s = run(r);
    world::wget = world::curl = true;
    std::vector<std::string> requests, probes;
    {
        std::lock_guard lock{world::m};
        requests = world::requests;
        probes = world::probes;
    }
    std::string problems;
    bool const good_name = !name.empty() && std::ranges::all_of(name, [](unsigned char ch) { return ch < 128 && (isalnum(ch) || ch == '_' || ch == '-'); });
    c.outcome(good_name ? requests.empty() ? "no request" : "request" : "bad name");
    for (auto & p : probes)
    {
        Shell const sh = parse_shell(p);
        if (!sh.problems.empty())
            problems += " " + mc::q(p) + ":" + sh.problems;
        if (!good_name || p.find(name) != p.npos && name.size() > 6)
            problems += " command " + mc::q(p) + ";";
    }
    if (!good_name)
    {
        if (s.r.err != mc::Err::design_error)
            problems += std::string{" "} + mc::err_name(s.r.err) + " instead of design_error;";
        if (!requests.empty())
            problems += " a request for a bad name;";
    }
    else
    {
        if (s.r.err != mc::Err::none || s.i != 5)
            problems += " parse() is disturbed: " + s.r.what + ";";
        if (requests.size() != (wget || curl))
            problems += " " + std::to_string(requests.size()) + " requests;";
    }
    Version const v = parse_version(own, true);
    std::string version = "0.0.0";
    if (v.valid)
    {
        size_t i = 0, dots = 0;
        while (i < own.size() && (isdigit(static_cast<unsigned char>(own[i])) || (own[i] == '.' && dots++ < 2)))
            ++i;
        version = own.substr(0, i);
    }
    for (auto & q : requests)
    {
        Shell const sh = parse_shell(q);
        auto & w = sh.words;
        problems += sh.problems;
        std::string const url = "https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_" + name + "_" + version;
        std::string const file = dir + "/.config/seqan/" + name + ".version";
        if (std::ranges::count(w, url) != 1)
            problems += " the address is not " + url + ";";
        for (auto & x : w)
            if (x != url && x.find("://") != x.npos)
                problems += " another address " + x + ";";
        auto it = std::ranges::find(w, file);
        if (it == w.end() || it == w.begin() || (*std::prev(it) != "-O" && *std::prev(it) != "-o"))
            problems += " the answer is not stored as " + mc::q(file) + ";";
        auto const runs = [&](char const * p)
        { return std::ranges::any_of(w, [&](std::string const & x) { return x == p || x.ends_with(std::string{"/"} + p); }); };
        if (runs("wget") ? !wget : !runs("curl") || !curl)
            problems += " the program is not available;";
        if (w.size() < 3 || (w[0] == "/usr/bin/env" && w[1] != "-i"))
            problems += " the environment is passed on;";
        if (!problems.empty())
            problems += " command " + mc::q(q) + ";";
    }
    if (!problems.empty())
        c.fail(problems + "\n  " + text());
}
void request_names(mc::Ctx & c, size_t max)
{
    static std::string const chars = "aZ0_-.;'\"$ /\\`\n&|>é\t(*#";
    size_t const n = c.choose(max + 1);
    std::string name;
    for (size_t k = 0; k < n; ++k)
        name += chars[c.choose(chars.size())];
    if (!c.run())
        return;
    check_request(c, name, "1.2.3", "h", true, true);
}
void request_versions(mc::Ctx & c, size_t max)
{
    static std::vector<std::string> const tokens{"1", ".", "23", "0", "-rc.1", ";", "'", "\n", "$(x)", " ", "a", "\"", "&", "/", "`", ">"};
    size_t const n = c.choose(max + 1);
    bool const prefix = c.flip();
    std::string v = prefix ? "3.4.5" : "";
    for (size_t k = 0; k < n; ++k)
        v += c.pick(tokens);
    if (!c.run())
        return;
    check_request(c, "App", v, "h", true, false);
}
void request_homes(mc::Ctx & c, size_t max)
{
    static std::string const chars = "a '\"\\$`;&|\n>~*(#-\x80";
    size_t const n = c.choose(max + 1);
    std::string home;
    for (size_t k = 0; k < n; ++k)
        home += chars[c.choose(chars.size())];
    size_t const av = c.choose(4);
    if (!c.run())
        return;
    check_request(c, "App", "1.2.3", "h" + home, av & 1, av & 2);
}

// ---- C18: faults -----------------------------------------------------------------------------------------------------------------
void set_tmp(size_t k)
{
    std::string const tmp = base + "/tmp";
    switch (k)
    {
    case 0: make_dir(tmp); break;
    case 1: break; // missing
    case 2: make_dir(tmp, 0555); break;
    case 3: write_file(tmp, "a file"); break;
    case 4: make_dir(tmp), write_file(tmp + "/dummy.txt", "of the user"), write_file(tmp + "/App.version", "9.9.9\n9.9.9\n"); break;
    }
    setenv("TMPDIR", tmp.c_str(), 1);
}
size_t const n_tmp = 5;
char const * const tmp_names[] = {"fine", "missing", "read only", "a file", "with files"};
std::vector<std::string> const home_names{"fine",
                                          "unset",
                                          "empty",
                                          "missing",
                                          "without .config",
                                          "read only",
                                          "a file",
                                          "no access",
                                          ".config is a file",
                                          ".config is read only",
                                          ".config is a dangling link",
                                          "seqan is a file",
                                          "seqan is read only",
                                          "seqan has no access",
                                          "seqan is a dangling link",
                                          "seqan is a link to a directory",
                                          "dummy.txt of the user",
                                          "dummy.txt is a directory",
                                          "dummy.txt is a dangling link",
                                          "relative",
                                          "seqan is write only",
                                          "without .config, umask 777",
                                          "without .config, umask 400",
                                          "without .config, umask 200",
                                          "without .config, umask 100",
                                          "without seqan, umask 777",
                                          "without seqan, umask 400",
                                          "fine, umask 777"};
void set_home(size_t k)
{
    std::string const h = base + "/home", c = h + "/.config", s = c + "/seqan";
    setenv("HOME", h.c_str(), 1);
    auto all = [&]()
    {
        make_dir(h);
        make_dir(c);
        make_dir(s);
    };
    auto link = [&](char const * to, std::string const & at)
    {
        if (symlink(to, at.c_str()))
            harness_error("symlink");
    };
    switch (k)
    {
    case 0: all(); break;
    case 1: unsetenv("HOME"); break;
    case 2: setenv("HOME", "", 1); break;
    case 3: break;
    case 4: make_dir(h); break;
    case 5: make_dir(h, 0555); break;
    case 6: write_file(h, "a file"); break;
    case 7: make_dir(h, 0000); break;
    case 8: make_dir(h), write_file(c, "a file"); break;
    case 9: make_dir(h), make_dir(c, 0555); break;
    case 10: make_dir(h), link("nowhere", c); break;
    case 11: make_dir(h), make_dir(c), write_file(s, "a file"); break;
    case 12: all(), chmod(s.c_str(), 0555); break;
    case 13: all(), chmod(s.c_str(), 0000); break;
    case 14: make_dir(h), make_dir(c), link("nowhere", s); break;
    case 15: make_dir(h), make_dir(c), make_dir(h + "/other"), link("../other", s); break;
    case 16: all(), write_file(s + "/dummy.txt", "of the user"), write_file(s + "/dummy.tmp.txt", "also"); break;
    case 17: all(), make_dir(s + "/dummy.txt"); break;
    case 18: all(), link("../../victim", s + "/dummy.txt"); break;
    case 19:
        all();
        setenv("HOME", "home", 1);
        break;
    case 20: all(), chmod(s.c_str(), 0300); break;
    case 21:
    case 22:
    case 23:
    case 24: make_dir(h); break;
    case 25:
    case 26: make_dir(h), make_dir(c); break;
    case 27: all(); break;
    }
}
mode_t mask_of(size_t home) // for what the application creates
{
    static std::map<size_t, mode_t> const masks{{21, 0777}, {22, 0400}, {23, 0200}, {24, 0100}, {25, 0777}, {26, 0400}, {27, 0777}};
    return masks.contains(home) ? masks.at(home) : 022;
}
size_t const n_files = 9; // of the application
void set_files(size_t k, std::string const & dir)
{
    struct stat st;
    if (!k || stat(dir.c_str(), &st) || (st.st_mode & 0300) != 0300)
        return;
    std::string const old = std::to_string(T0 - 2 * day) + "\nALWAYS";
    switch (k)
    {
    case 1: write_file(dir + "/App" + stamp_suffix, old); break;
    case 2: write_file(dir + "/App" + stamp_suffix, old, 0000); break;
    case 3: make_dir(dir + "/App" + stamp_suffix); break;
    case 4: write_file(dir + "/App.version", "9.9.9\n9.9.9\n"); break;
    case 5: write_file(dir + "/App.version", std::string(200000, '9') + "\n\xff\n" + std::string(5000, 'x')); break;
    case 6: make_dir(dir + "/App.version"); break;
    case 7: write_file(dir + "/App.version", "9.9.9\n9.9.9\n", 0000); break;
    case 8: write_file(dir + "/App" + stamp_suffix, "broken\x01 record"); break;
    }
}
struct Call
{
    std::vector<std::string> args;
    bool subcommands{false};
};
std::vector<Call> const calls{{{"-i", "5", "-f"}},
                              {{}},
                              {{"--help"}},
                              {{"--version"}},
                              {{"-i", "x"}},
                              {{"--nope", "-f"}},
                              {{"build", "-s", "3"}, true},
                              {{"-i", "7", "search", "--help"}, true},
                              {{"build", "-s"}, true},
                              {{"--export-help", "man"}}};

bool own_file(std::string const & k) // may be created or changed
{
    static std::set<std::string> const own{"home/.config", "home/.config/seqan", "home/.config/seqan/App" + stamp_suffix, "home/.config/seqan/App.version",
                                           "home/other/App" + stamp_suffix, "tmp/App" + stamp_suffix, "tmp/App.version"};
    return own.contains(k);
}
std::string changes(std::map<std::string, std::string> const & before, std::map<std::string, std::string> const & after)
{
    std::string p;
    for (auto & [k, v] : before)
        if (!after.contains(k))
            p += " " + k + " was removed;";
        else if (after.at(k) != v && !(k.ends_with(stamp_suffix) || k.ends_with("App.version")))
            p += " " + k + " was changed to " + mc::q(after.at(k)) + ";";
    for (auto & [k, v] : after)
        if (!before.contains(k) && !own_file(k))
            p += " " + k + " was created;";
    return p;
}
std::string difference(Seen const & ref, Seen const & s)
{
    std::string p = s.process_change;
    if (s.r.exited != ref.r.exited || s.r.code != ref.r.code || s.r.err != ref.r.err || s.r.what != ref.r.what)
        p += std::string{" ends with "} + mc::err_name(s.r.err) + " " + std::to_string(s.r.exited) + " " + s.r.what + " instead of " + mc::err_name(ref.r.err) + " "
           + ref.r.what + ";";
    if (s.r.out != ref.r.out)
        p += " other output;";
    if (s.values() != ref.values())
        p += " values " + s.values() + " instead of " + ref.values() + ";";
    return p;
}

void faults(mc::Ctx & c, bool pairs)
{
    size_t const home = c.choose(home_names.size());
    size_t const tmp = c.choose(n_tmp);
    size_t const files = c.choose(n_files);
    size_t const program = c.choose(4); // both, curl, none, none can be started at all
    size_t const request = c.choose(3);
    bool const no_threads = !SANITIZER && c.flip();
    size_t const call = c.choose(calls.size());
    size_t const cl = c.choose(3); // --version-check
    if ((files != 0) + (program != 0) + (request != 0) + no_threads > (pairs ? 4 : 2))
        return;
    if (!c.run())
        return;
    auto text = [&]()
    {
        return "home " + home_names[home] + ", tmp " + tmp_names[tmp] + ", files " + std::to_string(files) + ", program " + std::to_string(program) + ", request "
             + std::to_string(request) + (no_threads ? ", no threads" : "") + ": " + mc::qv(calls[call].args) + " check " + std::to_string(cl);
    };
    c.describe(text);
    c.step(2);
    c.state(mc::hash_str(home_names[home] + tmp_names[tmp], files));
    enter();
    clear(base);
    set_home(home);
    set_tmp(tmp);
    set_files(files, base + "/home/.config/seqan");
    if (chdir(base.c_str()))
        harness_error("chdir");
    Run r;
    r.args = calls[call].args;
    r.subcommands = calls[call].subcommands;
    if (cl)
        r.args.insert(r.args.begin(), {"--version-check", cl == 1 ? "0" : "1"});
    r.input = "a\nb\n";
    world::now = T0;
    auto const before = snapshot();
    Run off = r;
    off.env = 2;
    Seen const ref = run(off);
    world::wget = program == 0;
    world::curl = program < 2;
    world::status = request == 0 ? 0 : request == 1 ? 4 << 8 : -1;
    world::no_threads = no_threads;
    umask(mask_of(home));
    Seen const s = run(r);
    umask(022);
    world::no_threads = false;
    world::status = 0;
    world::wget = world::curl = true;
    world::now = 0;
    auto const after = snapshot();
    c.outcome(s.requests ? "request" : "no request");
    std::string p = difference(ref, s) + changes(before, after);
    if (s.input_left != r.input.size())
        p += " reads standard input;";
    if (s.destructor_seconds > 8 || s.parse_seconds > 8)
        p += " takes " + std::to_string(s.parse_seconds + s.destructor_seconds) + " s;";
    if (!p.empty())
        c.fail(p + "\n  " + text());
}

// When the request ends relative to parse() and the destructor.
void schedules(mc::Ctx & c)
{
    enum
    {
        at_once,
        after_parse,
        in_destructor,
        after_destructor,
        n_phases
    };
    size_t const phase = c.choose(n_phases);
    size_t const call = c.choose(calls.size());
    size_t const moved = c.choose(3); // not, move constructed, move assigned after parse()
    size_t const result = c.choose(2);
    // The slow cases only with some of the command lines.
    if (phase == after_destructor && (call == 1 || call == 3 || call == 5 || call > 6))
        return;
    if (phase == after_destructor && result)
        return;
    if (!c.run())
        return;
    auto text = [&]() { return "phase " + std::to_string(phase) + " moved " + std::to_string(moved) + " " + mc::qv(calls[call].args); };
    c.describe(text);
    c.step(4);
    c.state(mc::hash_str(text()));
    fresh_home();
    Run r;
    r.args = calls[call].args;
    r.subcommands = calls[call].subcommands;
    r.args.insert(r.args.begin(), {"--version-check", "1"});
    Run off = r;
    off.env = 2;
    Seen const ref = run(off);
    {
        std::lock_guard lock{world::m};
        world::gate_open = phase == at_once;
        world::status = result ? 256 : 0;
        world::finished = 0;
    }
    auto open = []()
    {
        std::lock_guard lock{world::m};
        world::gate_open = true;
        world::cv.notify_all();
    };
    auto started = []()
    {
        std::unique_lock lock{world::m};
        world::cv.wait_for(lock, std::chrono::seconds(20), []() { return world::running || world::finished; });
        return world::running || world::finished;
    };
    auto done = []()
    {
        std::unique_lock lock{world::m};
        world::cv.wait_for(lock, std::chrono::seconds(20), []() { return world::finished; });
    };
    std::thread helper;
    bool was_started = true;
    std::optional<sharg::parser> other;
    Seen const s = run(r,
                       [&](sharg::parser & p)
                       {
                           was_started = started();
                           if (phase == after_parse)
                           {
                               open();
                               done();
                           }
                           if (phase == in_destructor)
                               helper = std::thread{[&]()
                                                    {
                                                        std::this_thread::sleep_for(std::chrono::milliseconds(30));
                                                        open();
                                                    }};
                           if (phase == after_destructor) // the test ends even if the destructor waits for ever
                               helper = std::thread{[&]()
                                                    {
                                                        std::unique_lock lock{world::m};
                                                        world::cv.wait_for(lock, std::chrono::seconds(12), []() { return world::gate_open; });
                                                        world::gate_open = true;
                                                        world::cv.notify_all();
                                                    }};
                           if (moved == 1)
                               sharg::parser const q{std::move(p)};
                           else if (moved == 2)
                           {
                               sharg::parser q{"Other", std::vector<std::string>{"x"}, sharg::update_notifications::off};
                               q = std::move(p);
                           }
                       });
    double const waited = s.destructor_seconds;
    open();
    if (helper.joinable())
        helper.join();
    if (was_started)
        done();
    std::this_thread::sleep_for(std::chrono::milliseconds(phase == after_destructor ? 20 : 0));
    {
        std::lock_guard lock{world::m};
        world::gate_open = true;
        world::status = 0;
    }
    std::string p = difference(ref, s);
    c.outcome("phase " + std::to_string(phase));
    if (!was_started)
        p += " the request was not started;";
    if (s.parse_seconds > 10)
        p += " parse() waits for the request;";
    if (waited > 8)
        p += " the destructor waits " + std::to_string(waited) + " s;";
    if (!p.empty())
        c.fail(p + "\n  " + text());
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    bool const T = mc::thorough;
    mc::add_section("C16/single run from every record", single_run);
    mc::add_section("C16/two names", [=](mc::Ctx & c) { two_names(c, T ? 3 : 2); });
    mc::add_section("C16/broken records", [=](mc::Ctx & c) { broken_records(c, T ? 4 : 3); });
    mc::add_section("C16/histories of one application", [=](mc::Ctx & c) { histories(c, T ? 4 : 3, 1, false); });
    mc::add_section("C16/histories with locales", [=](mc::Ctx & c) { histories(c, T ? 3 : 2, 1, false, true); });
    mc::add_section("C16/histories of several applications", [=](mc::Ctx & c) { histories(c, T ? 4 : 3, T ? 2 : 2, true); });

    mc::add_section("C17/versions", [=](mc::Ctx & c) { versions(c, T ? std::vector<int>{0, 1, 2, 9, 10, 11} : std::vector<int>{0, 1, 2, 10}); });
    mc::add_section("C17/large versions", large_versions);
    mc::add_section("C17/records", records);
    mc::add_section("C17/any text as record", [=](mc::Ctx & c) { texts_as_record(c, T ? 6 : 5); });
    mc::add_section("C17/application names", [=](mc::Ctx & c) { request_names(c, T ? 3 : 2); });
    mc::add_section("C17/own versions", [=](mc::Ctx & c) { request_versions(c, T ? 4 : 3); });
    mc::add_section("C17/home directories", [=](mc::Ctx & c) { request_homes(c, T ? 3 : 2); });

    mc::add_section("C18/faults", [=](mc::Ctx & c) { faults(c, T); });
    mc::add_section("C18/schedules", schedules);
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
