// C08, C09: verdicts of the file validators for every state of a small directory tree, and what they leave behind.
//
// Every process drops to an unprivileged user before it touches a file; all paths lie in its own scratch directory.
#include "sharg_env.hpp"
#include <dirent.h>
#include <grp.h>

namespace
{
std::string base; // of this process

[[noreturn]] void harness_error(std::string const & what)
{
    std::cerr << "harness error: " << what << ": " << strerror(errno) << '\n';
    _exit(70);
}
void enter() // once per process
{
    static pid_t entered = 0;
    if (entered == getpid())
        return;
    entered = getpid();
    base = mc::scratch_dir + "/files" + std::to_string(getpid());
    if (mkdir(base.c_str(), 0755))
        harness_error("mkdir");
    if (geteuid() == 0)
    {
        if (chown(base.c_str(), 65534, 65534) || setgroups(0, nullptr) || setresgid(65534, 65534, 65534)
            || setresuid(65534, 65534, 65534))
            harness_error("cannot become an unprivileged user");
    }
    umask(022);
    base = std::filesystem::canonical(base).string();
}

// ---- states of the tree ------------------------------------------------------------------------------------------------
enum Kind
{
    missing,
    file,
    dir,
    fifo,
    sock,
    device,
    loop
};
struct Entry
{
    Kind kind{missing};
    int mode{7};          // of the owner
    std::string content{}; // of a file; for directories: which entries
    bool link{false};     // a symbolic link to such an entry in another directory
    int link_parent{7};   // the mode of that directory
    std::string name() const
    {
        static char const * const n[] = {"missing", "file", "dir", "fifo", "socket", "device", "loop"};
        std::string r = link ? "link in " + std::to_string(link_parent) + " to " : "";
        r += n[kind];
        if (kind == file || kind == dir)
            r += " " + std::to_string(mode) + " [" + content + "]";
        return r;
    }
};
std::vector<Entry> all_entries()
{
    std::vector<Entry> v{{missing}};
    for (int m : {0, 4, 2, 6, 7})
        for (std::string t : {"data", ""})
            v.push_back({file, m, t});
    for (int m : {7, 6, 5, 4, 3, 2, 1, 0})
        for (std::string t : {"", "dummy", "dummydir", "dummylink", "dummies", "other"})
            v.push_back({dir, m, t});
    for (int m : {0, 4, 2, 6})
        v.push_back({file, m, "data", true});
    v.push_back({file, 6, "data", true, 5});
    v.push_back({file, 6, "data", true, 6});
    for (int m : {7, 5, 3, 0})
        v.push_back({dir, m, "dummy", true});
    v.push_back({dir, 7, "", true, 0});
    v.push_back({missing, 0, "", true, 7});
    v.push_back({missing, 0, "", true, 5});
    v.push_back({missing, 0, "", true, 0});
    v.push_back({fifo});
    v.push_back({sock});
    v.push_back({fifo, 7, "", true});
    v.push_back({device, 6, "", true});
    v.push_back({loop});
    return v;
}
std::vector<Entry> some_entries()
{
    return {{missing},
            {file, 6, "data"},
            {file, 4, "data"},
            {file, 2, ""},
            {dir, 7, "dummy"},
            {dir, 5, ""},
            {file, 6, "data", true},
            {missing, 0, "", true, 7}};
}

void write_file(std::string const & p, std::string const & content)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0666);
    if (fd < 0 || write(fd, content.data(), content.size()) != ssize_t(content.size()))
        harness_error("write " + p);
    close(fd);
}
void must(int r, std::string const & what)
{
    if (r)
        harness_error(what);
}
void make_plain(std::string const & p, Entry const & e)
{
    switch (e.kind)
    {
    case missing: break;
    case file:
        write_file(p, e.content);
        must(chmod(p.c_str(), e.mode << 6), "chmod");
        break;
    case dir:
        must(mkdir(p.c_str(), 0700), "mkdir");
        if (e.content == "dummy" || e.content == "dummies")
            write_file(p + "/dummy.txt", "precious");
        if (e.content == "dummies")
        {
            write_file(p + "/dummy.tmp.txt", "precious");
            write_file(p + "/dummy1.txt", "precious");
            must(symlink("nowhere", (p + "/dummy.tmp.tmp.txt").c_str()), "symlink");
        }
        if (e.content == "dummydir")
            must(mkdir((p + "/dummy.txt").c_str(), 0755), "mkdir");
        if (e.content == "dummylink")
            must(symlink("target", (p + "/dummy.txt").c_str()), "symlink");
        if (e.content == "other")
        {
            write_file(p + "/other", "x");
            must(mkdir((p + "/sub").c_str(), 0755), "mkdir");
        }
        must(chmod(p.c_str(), e.mode << 6), "chmod");
        break;
    case fifo: must(mkfifo(p.c_str(), 0600), "mkfifo"); break;
    case sock: must(mknod(p.c_str(), S_IFSOCK | 0600, 0), "mknod"); break;
    default: break;
    }
}
// dirs_to_close gets the modes that have to be set last
void make_entry(std::string const & p, std::string const & link_dir, Entry const & e)
{
    if (e.kind == loop)
        return must(symlink(p.substr(p.rfind('/') + 1).c_str(), p.c_str()), "symlink");
    if (e.kind == device)
        return must(symlink("/dev/null", p.c_str()), "symlink");
    if (!e.link)
        return make_plain(p, e);
    must(mkdir(link_dir.c_str(), 0700), "mkdir");
    make_plain(link_dir + "/target", e);
    must(symlink((link_dir + "/target").c_str(), p.c_str()), "symlink");
    must(chmod(link_dir.c_str(), e.link_parent << 6), "chmod");
}
void remove_tree(std::string const & p, bool self)
{
    struct stat st;
    if (lstat(p.c_str(), &st))
        return;
    if (S_ISDIR(st.st_mode))
    {
        chmod(p.c_str(), 0700);
        std::vector<std::string> names;
        if (DIR * d = opendir(p.c_str()))
        {
            while (auto * x = readdir(d))
                if (std::string n = x->d_name; n != "." && n != "..")
                    names.push_back(n);
            closedir(d);
        }
        for (auto & n : names)
            remove_tree(p + "/" + n, true);
        if (self && rmdir(p.c_str()))
            harness_error("rmdir");
    }
    else if (unlink(p.c_str()))
        harness_error("unlink");
}
using Snapshot = std::map<std::string, std::string>;
void snapshot(std::string const & p, std::string const & rel, Snapshot & s)
{
    struct stat st;
    if (lstat(p.c_str(), &st))
        return;
    std::string text = std::to_string(st.st_mode) + ":";
    if (S_ISREG(st.st_mode))
    {
        if (!(st.st_mode & 0400))
            chmod(p.c_str(), 0600);
        std::ifstream in{p};
        std::string c{std::istreambuf_iterator<char>{in}, {}};
        text += c + ":" + std::to_string(st.st_ino);
        if (!(st.st_mode & 0400))
            chmod(p.c_str(), st.st_mode & 0777);
    }
    else if (S_ISLNK(st.st_mode))
    {
        char b[4096];
        ssize_t n = readlink(p.c_str(), b, sizeof b);
        text += std::string(b, n > 0 ? n : 0);
    }
    s[rel] = text;
    if (S_ISDIR(st.st_mode))
    {
        if ((st.st_mode & 0500) != 0500)
            chmod(p.c_str(), 0700);
        std::vector<std::string> names;
        if (DIR * d = opendir(p.c_str()))
        {
            while (auto * x = readdir(d))
                if (std::string n = x->d_name; n != "." && n != "..")
                    names.push_back(n);
            closedir(d);
        }
        for (auto & n : names)
            snapshot(p + "/" + n, rel + "/" + n, s);
        if ((st.st_mode & 0500) != 0500)
            chmod(p.c_str(), st.st_mode & 0777);
    }
}
Snapshot snapshot()
{
    Snapshot s;
    snapshot(base, "", s);
    return s;
}
std::string difference(Snapshot const & a, Snapshot const & b)
{
    std::string r;
    for (auto & [k, v] : a)
        if (!b.contains(k))
            r += " removed:" + k;
        else if (b.at(k) != v)
            r += " changed:" + k + " from " + mc::q(v) + " to " + mc::q(b.at(k));
    for (auto & [k, v] : b)
        if (!a.contains(k))
            r += " created:" + k;
    return r;
}

// ---- the model ------------------------------------------------------------------------------------------------------------
enum Parent
{
    p_missing = -1,
    p_file = -2
};
enum Validator
{
    in_file,
    out_new,
    out_any,
    in_dir,
    out_dir,
    n_validators
};
char const * const validator_names[] = {"input_file", "output_file(create_new)", "output_file(open_or_create)", "input_directory",
                                        "output_directory"};

struct View // what the user sees at a path
{
    Kind kind{missing};
    int mode{0};
    bool unreachable{false}; // not even known whether it exists
    bool can_create_file{false}, can_create_dir{false};
};
View view(int parent, Entry const & e, bool trailing_slash)
{
    View v;
    bool const p_dir = parent >= 0;
    if (!p_dir || !(parent & 1))
    {
        v.unreachable = true;
        return v;
    }
    bool const p_writable = (parent & 2);
    if (e.kind == loop)
    {
        v.unreachable = true;
        return v;
    }
    if (e.link && !(e.link_parent & 1))
    {
        v.unreachable = true;
        return v;
    }
    v.kind = e.kind;
    v.mode = e.mode;
    if (e.kind == missing)
    {
        v.can_create_file = !trailing_slash && (e.link ? (e.link_parent & 2) != 0 : p_writable);
        v.can_create_dir = !e.link && p_writable;
    }
    else if (trailing_slash && e.kind != dir)
    {
        v.kind = missing;
        v.unreachable = true;
    }
    return v;
}
bool verdict(Validator w, View const & v, bool ext_ok)
{
    if (v.unreachable)
        return false;
    switch (w)
    {
    case in_file: return v.kind == file && (v.mode & 4) && ext_ok;
    case out_new: return v.kind == missing && v.can_create_file && ext_ok;
    case out_any:
        return ext_ok && ((v.kind == missing && v.can_create_file) || (v.kind == file && (v.mode & 2)) || v.kind == device);
    case in_dir: return v.kind == dir && (v.mode & 4);
    case out_dir: return (v.kind == missing && v.can_create_dir) || (v.kind == dir && (v.mode & 3) == 3);
    default: return false;
    }
}
bool unspecified(Validator w, View const & v) // opening a pipe waits for the other side
{
    return w == out_any && v.kind == fifo && !v.unreachable;
}

std::string run_validator(Validator w, std::filesystem::path const & p, std::vector<std::string> const & ext, int how)
{
    using sharg::operator|;
    auto go = [&](auto const & v)
    {
        mc::Result r = mc::call(
            [&]()
            {
                if (how == 0)
                    v(p);
                else if (how == 1)
                    v(std::vector<std::filesystem::path>{p});
                else if (how == 2)
                    (sharg::regex_validator{"[^]*"} | v)(p.string());
                else // as option of a parser
                {
                    std::filesystem::path value{"unset"};
                    sharg::parser parser{"app", {"app", "-p", p.string()}, sharg::update_notifications::off};
                    parser.add_option(value, sharg::config{.short_id = 'p', .validator = v});
                    parser.parse();
                    if (value != p)
                        throw std::runtime_error{"the value is " + value.string()};
                }
            });
        if (r.exited)
            return std::string{"exit"};
        if (r.err == mc::Err::none)
            return std::string{"accepted"};
        if (r.err == mc::Err::validation_error)
            return std::string{r.what.empty() ? "rejected without message" : "rejected"};
        return std::string{mc::err_name(r.err)} + ": " + r.what;
    };
    using O = sharg::output_file_open_options;
    switch (w)
    {
    case in_file: return go(sharg::input_file_validator{ext});
    case out_new: return ext.empty() ? go(sharg::output_file_validator{}) : go(sharg::output_file_validator{ext});
    case out_any: return go(sharg::output_file_validator{O::open_or_create, ext});
    case in_dir: return go(sharg::input_directory_validator{});
    default: return go(sharg::output_directory_validator{});
    }
}

std::string const known_key = "open_or_create-removes-existing";
//!\brief Compares the tree; an accepted, existing file that is overwritten is the listed finding.
void compare(mc::Ctx & c, Snapshot before, Snapshot const & after, std::string const & overwritten, std::string const & what)
{
    if (before == after)
        return;
    std::string const d = difference(before, after);
    if (!overwritten.empty() && before.contains(overwritten))
    {
        Snapshot a = after;
        before.erase(overwritten);
        a.erase(overwritten);
        if (before == a)
            return c.fail("an existing file is removed or emptied by " + what + ":" + d, known_key);
    }
    c.fail("the file system is changed by " + what + ":" + d);
}

struct Style
{
    char const * name;
    int parent_mode; // required mode of the parent, or -9
};
//!\brief How the path is written. base: the tree; the entry is base/p/NAME.
std::filesystem::path spelled(int style, std::string const & name)
{
    switch (style)
    {
    case 0: return base + "/p/" + name;
    case 1: return "p/" + name;
    case 2: return "./p/../p/./" + name;
    case 3: return "l/" + name; // l -> p
    case 4: return base + "/p/" + name + "/";
    default: return name; // the current directory is base/p
    }
}
std::vector<int> const parents{7, 5, 3, 6, 4, 1, 0, p_missing, p_file};

void build(int parent, Entry const & e, std::string const & name, bool cwd_in_parent)
{
    remove_tree(base, false);
    must(chdir(base.c_str()), "chdir");
    std::string const p = base + "/p";
    must(symlink("p", (base + "/l").c_str()), "symlink");
    if (parent == p_missing)
        return;
    if (parent == p_file)
        return write_file(p, "parent");
    must(mkdir(p.c_str(), 0700), "mkdir");
    make_entry(p + "/" + name, base + "/t", e);
    if (cwd_in_parent)
        must(chdir(p.c_str()), "chdir");
    must(chmod(p.c_str(), parent << 6), "chmod");
}
void leave()
{
    if (chdir("/"))
    {}
}

void one_path(mc::Ctx & c, bool snapshots)
{
    static auto const entries = all_entries();
    int const parent = c.pick(parents);
    bool const has_entry = parent >= 0;
    Entry const & e = has_entry ? c.pick(entries) : entries[0];
    int const style = c.choose(has_entry ? 6 : 5);
    Validator const w = Validator(c.choose(n_validators));
    int const ext = w <= out_any ? c.choose(3) : 0; // any, allowed, not allowed
    int const how = c.choose(4);
    // what a new file or directory lacks matters where one is created
    static std::vector<int> const masks{022, 0777, 0700, 0600, 0500, 0400, 0300, 0200, 0100, 0};
    bool const creates = e.kind == missing && (w == out_new || w == out_any || w == out_dir);
    int const mask = creates ? c.pick(masks) : 022;
    if (!c.run())
        return;
    enter();
    std::string const name = "data.txt";
    View v = view(parent, e, style == 4);
    v.can_create_dir = v.can_create_dir && !(mask & 0300); // it would not be writable
    auto text = [&]()
    {
        return std::string{validator_names[w]} + " on " + spelled(style, name).string() + (has_entry ? " = " + e.name() : "") + " in parent "
             + std::to_string(parent) + " ext " + std::to_string(ext) + " how " + std::to_string(how)
             + (creates ? " umask " + std::to_string(mask >> 6) + std::to_string(mask >> 3 & 7) + std::to_string(mask & 7) : "");
    };
    c.describe(text);
    c.step();
    c.state(mc::mix(mc::mix(mc::hash_str(e.name()), parent + 2), style == 4));
    if (unspecified(w, v))
        return c.outcome("unspecified");
    build(parent, e, name, style == 5);
    Snapshot before;
    if (snapshots)
        before = snapshot();
    static std::vector<std::string> const lists[] = {{}, {"fa", "txt"}, {"fa"}};
    umask(mask);
    auto got = run_validator(w, spelled(style, name), lists[ext], how);
    umask(022);
    bool const ok = verdict(w, v, ext < 2);
    c.outcome(got.substr(0, 40));
    if (snapshots)
    {
        std::string over = w == out_any && ok && v.kind == file ? (e.link ? "/t/target" : "/p/" + name) : "";
        compare(c, before, snapshot(), over, text());
    }
    else if (got != (ok ? "accepted" : "rejected"))
        c.fail(text() + ": expected " + (ok ? "accepted" : "rejected") + ", got " + got);
    leave();
}

void many_paths(mc::Ctx & c, bool snapshots)
{
    static auto const entries = some_entries();
    int const parent = c.pick(std::vector<int>{7, 5});
    Entry const & e1 = c.pick(entries);
    Entry const & e2 = c.pick(entries);
    bool const as_list = c.flip();
    size_t const n = as_list ? 2 : c.choose(mc::thorough ? 3 : 2) + 2;
    std::vector<std::pair<Validator, int>> ops;
    Validator w = Validator(c.choose(n_validators));
    for (size_t k = 0; k < n; ++k)
    {
        if (k && !as_list)
            w = Validator(c.choose(n_validators));
        ops.emplace_back(w, c.choose(2));
    }
    if (!c.run())
        return;
    enter();
    std::string t = as_list ? "list:" : "sequence:";
    for (auto [v, i] : ops)
        t += std::string{" "} + validator_names[v] + " " + std::to_string(i);
    t += " on " + e1.name() + " and " + e2.name() + " in parent " + std::to_string(parent);
    c.describe([&]() { return t; });
    c.step(n);
    c.state(mc::hash_str(t.substr(t.find(" on ")), parent));
    // two entries
    remove_tree(base, false);
    must(chdir(base.c_str()), "chdir");
    must(mkdir((base + "/p").c_str(), 0700), "mkdir");
    std::string const names[2] = {"a.txt", "b.fa"};
    Entry const * const es[2] = {&e1, &e2};
    for (int i = 0; i < 2; ++i)
        make_entry(base + "/p/" + names[i], base + "/t" + std::to_string(i), *es[i]);
    must(chmod((base + "/p").c_str(), parent << 6), "chmod");
    Snapshot before;
    if (snapshots)
        before = snapshot();
    auto target = [&](int i) { return es[i]->link ? "/t" + std::to_string(i) + "/target" : "/p/" + names[i]; };
    bool gone[2] = {false, false}; // by the listed finding
    auto expected = [&](Validator v, int i) { return verdict(v, view(parent, *es[i], false), true); };
    auto step = [&](std::string const & got, bool ok, std::string const & over)
    {
        c.outcome(got.substr(0, 40));
        if (!snapshots && got != (ok ? "accepted" : "rejected"))
            c.fail(t + ": expected " + (ok ? "accepted" : "rejected") + ", got " + got);
        if (snapshots)
            compare(c, before, snapshot(), over, t);
    };
    if (as_list)
    {
        // no extensions; every validator takes lists
        bool ok = true;
        std::vector<std::filesystem::path> paths;
        for (auto [v, i] : ops)
        {
            ok = ok && expected(v, i);
            paths.push_back(base + "/p/" + names[i]);
        }
        // by the finding, an overwritten file can be gone
        Snapshot b = before;
        auto r = mc::call(
            [&]()
            {
                using O = sharg::output_file_open_options;
                switch (ops[0].first)
                {
                case in_file: sharg::input_file_validator{}(paths); break;
                case out_new: sharg::output_file_validator{O::create_new}(paths); break;
                case out_any: sharg::output_file_validator{O::open_or_create}(paths); break;
                case in_dir: sharg::input_directory_validator{}(paths); break;
                default: sharg::output_directory_validator{}(paths);
                }
            });
        std::string got = r.exited ? "exit" : r.err == mc::Err::none ? "accepted" : r.err == mc::Err::validation_error ? "rejected" : r.what;
        c.outcome(got.substr(0, 40));
        if (!snapshots)
        {
            if (got != (ok ? "accepted" : "rejected"))
                c.fail(t + ": expected " + (ok ? "accepted" : "rejected") + ", got " + got);
        }
        else
        {
            Snapshot after = snapshot();
            if (after != before)
            {
                bool any = false;
                for (auto [v, i] : ops)
                    if (v == out_any && es[i]->kind == file && expected(v, i))
                    {
                        any = before.erase(target(i)) || any;
                        after.erase(target(i));
                    }
                c.fail("the file system is changed by " + t + ":" + difference(b, snapshot()), any && before == after ? known_key : "");
            }
        }
        return leave();
    }
    for (auto [v, i] : ops)
    {
        if (gone[i]) // the state is not the one of the model any more
            continue;
        auto got = run_validator(v, base + "/p/" + names[i], {}, 0);
        bool const ok = expected(v, i);
        bool const over = v == out_any && ok && es[i]->kind == file;
        step(got, ok, over ? target(i) : "");
        if (over)
        {
            struct stat st;
            bool const changed = stat((base + target(i)).c_str(), &st) != 0 || size_t(st.st_size) != es[i]->content.size();
            gone[i] = changed || parent == 5;
            if (changed && snapshots)
                before = snapshot();
        }
    }
    leave();
}

std::string lower(std::string s)
{
    for (char & x : s)
        x = x >= 'A' && x <= 'Z' ? char(x - 'A' + 'a') : x;
    return s;
}
void judge_extension(mc::Ctx & c, bool snapshots, std::string const & name, std::vector<std::string> const & list, Validator const w)
{
    if (!c.run())
        return;
    enter();
    auto text = [&]()
    {
        std::string l;
        for (auto & e : list)
            l += e + ",";
        return std::string{validator_names[w]} + " on name " + name + " allowed " + l;
    };
    c.describe(text);
    c.step();
    c.state(mc::hash_str(text()));
    bool const is_dir = name == "." || name == "..";
    bool ok = list.empty();
    std::string const n = name[0] == '.' ? name.substr(1) : name; // a leading dot only hides the file
    for (auto & e : list)
        ok = ok || lower(n).ends_with((e[0] == '.' ? "" : ".") + lower(e));
    bool const possible = name.size() <= 255;
    ok = ok && !is_dir && possible;
    remove_tree(base, false);
    must(chdir(base.c_str()), "chdir");
    if (w == in_file && !is_dir && possible)
        write_file(base + "/" + name, "");
    auto const before = snapshots ? snapshot() : Snapshot{};
    auto got = run_validator(w, name, list, 0);
    c.outcome(got.substr(0, 40));
    if (snapshots)
        compare(c, before, snapshot(), "", text());
    else if (got != (ok ? "accepted" : "rejected"))
        c.fail(text() + ": expected " + (ok ? "accepted" : "rejected") + ", got " + got);
    leave();
}
void extensions(mc::Ctx & c, bool snapshots)
{
    static std::string const alphabet{".faFz"};
    static std::vector<std::vector<std::string>> const lists{{"fa"},
                                                             {".fa"},
                                                             {"FA"},
                                                             {"f.a"},
                                                             {"a", "fa.z"},
                                                             {".fa.z"},
                                                             {"z", "f", "fA"},
                                                             {"fa.f", "faa"},
                                                             {}};
    size_t const len = 1 + c.choose(mc::thorough ? 6 : 5);
    std::string name;
    for (size_t k = 0; k < len; ++k)
        name += alphabet[c.choose(alphabet.size())];
    auto const & list = c.pick(lists);
    Validator const w = Validator(c.choose(3));
    judge_extension(c, snapshots, name, list, w);
}
//!\brief Every byte in the extension of the name against every byte in the allowed extension.
void extension_bytes(mc::Ctx & c)
{
    bool const first = c.flip();
    char const a = char(1 + c.choose(255)), b = char(1 + c.choose(255));
    if (a == '/' || b == '/')
        return;
    auto text = [&](char x) { return first ? std::string{x, 'q'} : std::string{'q', x}; };
    judge_extension(c, false, "x." + text(a), {"q", text(b)}, out_new);
}
//!\brief Long names, long extensions, many dots, many allowed extensions.
void long_names(mc::Ctx & c, bool snapshots)
{
    size_t const n = c.pick(std::vector<size_t>{6, 15, 16, 17, 40, 100, 128, 200, 254, 255, 256, 300});
    size_t const shape = c.choose(6);
    size_t const allowed = c.choose(6);
    size_t const count = c.pick(std::vector<size_t>{1, 2, 17, 120});
    Validator const w = Validator(c.choose(3));
    std::string name, ext(n - 3, 'e');
    switch (shape)
    {
    case 0: name = std::string(n - 3, 'x') + ".fa"; break;
    case 1:
        while (name.size() + 3 < n)
            name += name.size() % 2 ? '.' : 'y';
        name += ".fa";
        break;
    case 2: name = "ab." + ext; break;
    case 3: name = "." + std::string(n - 4, 'x') + ".fa"; break;
    case 4: name = std::string(n - 3, 'x') + ".fb"; break;
    case 5: name = "ab." + ext.substr(1) + "f"; break;
    }
    std::vector<std::string> list;
    for (size_t k = 1; k < count; ++k)
        list.push_back("no" + std::to_string(k));
    list.insert(list.begin() + (allowed % 2 ? 0 : list.size()), allowed < 2 ? "fa" : allowed < 4 ? ext : shape == 1 ? name.substr(name.size() / 2) : "fa." + ext);
    judge_extension(c, snapshots, name, list, w);
}
} // namespace

void mc::mc_setup()
{
    mc::default_environment();
    must(chmod(mc::scratch_dir.c_str(), 0755), "chmod");
    mc::add_section("C08/one path", [](mc::Ctx & c) { one_path(c, false); });
    mc::add_section("C08/extensions", [](mc::Ctx & c) { extensions(c, false); });
    mc::add_section("C08/bytes of extensions", extension_bytes);
    mc::add_section("C08/long names", [](mc::Ctx & c) { long_names(c, false); });
    mc::add_section("C08/lists and sequences", [](mc::Ctx & c) { many_paths(c, false); });
    mc::add_section("C09/one path", [](mc::Ctx & c) { one_path(c, true); });
    mc::add_section("C09/extensions", [](mc::Ctx & c) { extensions(c, true); });
    mc::add_section("C09/long names", [](mc::Ctx & c) { long_names(c, true); });
    mc::add_section("C09/lists and sequences", [](mc::Ctx & c) { many_paths(c, true); });
}

int main(int argc, char ** argv) { return mc::main_impl(argc, argv); }
