// Bounded exhaustive exploration of the decision tree of a harness.
//
// A harness body is a deterministic function of the choices it takes with Ctx::choose(). The explorer enumerates every
// leaf of the decision tree with an odometer (no sampling), distributes the executions over forked shards, notices
// crashes and hangs of a shard and replays every failing choice sequence in a fresh process before reporting it.
#pragma once
#include <bits/stdc++.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{

inline bool thorough = false;
inline unsigned n_shards = 8;
inline std::string scratch_dir; // private to this run, removed by the driver
inline std::set<std::string> known_findings{};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 33);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ULL;
    return mix(h, s.size());
}

constexpr size_t max_choices = 512;

struct Shm
{
    std::atomic<uint64_t> heartbeat;
    std::atomic<uint32_t> len;
    std::atomic<uint32_t> running;
    uint32_t choices[max_choices];
};

struct Failure
{
    std::string key; // non-empty: possibly a listed finding
    std::string msg;
};

struct Ctx
{
    std::vector<uint32_t> path, width;
    size_t pos{0};
    size_t last_changed{0};
    bool replaying{false};
    bool owned{true};
    bool ran{false};
    uint64_t setup_counter{0};
    unsigned shard{0}, shards{1};
    Shm * shm{nullptr};

    // results
    uint64_t executions{0}, steps{0}, leaves{0};
    std::unordered_set<uint64_t> states{};
    std::map<std::string, uint64_t> outcomes{};
    std::vector<std::string> samples{};
    std::string description{};
    std::vector<Failure> failures{}; // of the current execution
    bool truncated{false};

    size_t choose(size_t n)
    {
        if (n == 0)
        {
            std::cerr << "harness error: choose(0)\n";
            _exit(70);
        }
        if (pos == path.size())
        {
            path.push_back(0);
            width.push_back(n);
        }
        else if (width.size() <= pos)
            width.push_back(n);
        else if (width[pos] != n) // divergence while replaying a prefix
        {
            std::cerr << "harness error: divergence at choice " << pos << " (" << width[pos] << " vs " << n << ")\n";
            _exit(70);
        }
        if (path[pos] >= n)
        {
            std::cerr << "harness error: choice out of range\n";
            _exit(70);
        }
        uint32_t const r = path[pos++];
        if (ran && shm)
            publish();
        return r;
    }
    template <typename T>
    T const & pick(std::vector<T> const & v)
    {
        return v[choose(v.size())];
    }
    bool flip() { return choose(2) == 1; }

    void publish()
    {
        size_t const n = std::min(pos, max_choices);
        std::copy_n(path.begin(), n, shm->choices);
        shm->len.store(n, std::memory_order_release);
    }
    //!\brief All set-up choices were made: does this shard execute the case?
    bool run()
    {
        if (!replaying && shards > 1)
        {
            if (last_changed < pos || !ran_before)
            {
                owned = (mix(0x1234, setup_counter) % shards) == shard;
                ++setup_counter;
                ran_before = true;
            }
            if (!owned)
                return false;
        }
        ran = true;
        ++executions;
        if (shm)
        {
            publish();
            shm->running.store(1, std::memory_order_release);
            shm->heartbeat.fetch_add(1, std::memory_order_relaxed);
        }
        return true;
    }
    bool ran_before{false};

    void state(uint64_t h) { states.insert(h); }
    void step(uint64_t n = 1) { steps += n; }
    void outcome(std::string const & o) { ++outcomes[o]; }
    //!\brief Call right after run(): a readable form of the case, for samples and failure reports.
    template <typename fn_t>
    void describe(fn_t && f)
    {
        if (verbose)
        {
            description = f();
            std::string const line = "case: " + description + "\n";
            if (write(2, line.data(), line.size()) < 0)
            {}
        }
        else if (samples.size() < 3 && executions == next_sample)
        {
            samples.push_back(f());
            next_sample = next_sample * 20 + 1;
        }
    }
    bool verbose{false};
    uint64_t next_sample{1};
    void fail(std::string msg, std::string key = {}) { failures.push_back({std::move(key), std::move(msg)}); }

    bool advance()
    {
        while (!path.empty() && path.back() + 1 >= width.back())
        {
            path.pop_back();
            width.pop_back();
        }
        if (path.empty())
            return false;
        last_changed = path.size() - 1;
        ++path.back();
        return true;
    }
};

using Body = std::function<void(Ctx &)>;
struct Section
{
    std::string name;
    Body body;
};
inline std::vector<Section> sections{};
inline void add_section(std::string name, Body b) { sections.push_back({std::move(name), std::move(b)}); }

struct Report
{
    std::string section, msg, key, description;
    std::vector<uint32_t> path;
    int shard{-1};         // the shard that saw the failure
    bool needs_history{false}; // only fails after the preceding executions of the shard in the same process
};

inline std::string json_escape(std::string_view s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += c;
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r;
}
inline std::string path_str(std::vector<uint32_t> const & p)
{
    std::string s;
    for (auto c : p)
        s += (s.empty() ? "" : " ") + std::to_string(c);
    return s;
}

// ---- execution of one fixed path ------------------------------------------------------------------------------------
inline void run_fixed(Section const & s, std::vector<uint32_t> const & p, Ctx & c)
{
    c.replaying = c.verbose = true;
    c.path = p;
    try
    {
        s.body(c);
    }
    catch (std::exception const & e)
    {
        c.fail(std::string{"unexpected exception of type "} + typeid(e).name() + ": " + e.what());
    }
    catch (...)
    {
        c.fail("unexpected exception of unknown type");
    }
}

inline std::string wait_status_str(int st)
{
    if (WIFSIGNALED(st))
        return std::string{"the process was ended by signal "} + std::to_string(WTERMSIG(st)) + " ("
             + strsignal(WTERMSIG(st)) + ")";
    return "the process exited unexpectedly with code " + std::to_string(WEXITSTATUS(st));
}

//!\brief Executes all cases of a shard in order, up to and including the one given by `p`.
inline void run_history(Section const & s, std::vector<uint32_t> const & p, unsigned shard, Ctx & c)
{
    c.shard = shard;
    c.shards = n_shards;
    do
    {
        c.pos = 0;
        c.ran = false;
        c.failures.clear();
        c.description.clear();
        bool const is_it = c.path == p;
        c.verbose = is_it;
        try
        {
            s.body(c);
        }
        catch (std::exception const & e)
        {
            c.fail(std::string{"unexpected exception of type "} + typeid(e).name() + ": " + e.what());
        }
        catch (...)
        {
            c.fail("unexpected exception of unknown type");
        }
        if (is_it || (c.path == p && c.ran))
            return;
    }
    while (c.advance());
    c.failures.clear();
}

//!\brief Replays a path in a fresh process. Returns all failure messages ("" key) or an empty vector.
inline std::vector<Report>
replay_isolated(Section const & s, std::vector<uint32_t> const & p, unsigned limit_s, int history_shard = -1)
{
    int fds[2];
    if (pipe(fds))
        _exit(70);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fds[0]);
        setpgid(0, 0);
        int err = open((scratch_dir + "/replay.err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (err >= 0)
            dup2(err, 2);
        Ctx c;
        if (history_shard < 0)
            run_fixed(s, p, c);
        else
            run_history(s, p, history_shard, c);
        std::string out;
        for (auto & f : c.failures)
            out += f.key + '\x01' + f.msg + '\x02';
        out += '\x03' + c.description;
        size_t off = 0;
        while (off < out.size())
        {
            ssize_t w = write(fds[1], out.data() + off, out.size() - off);
            if (w <= 0)
                break;
            off += w;
        }
        _exit(0);
    }
    close(fds[1]);
    std::string in;
    auto t0 = std::chrono::steady_clock::now();
    bool killed = false;
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    for (;;)
    {
        char buf[65536];
        ssize_t r = read(fds[0], buf, sizeof buf);
        if (r > 0)
            in.append(buf, r);
        else if (r == 0)
            break;
        else
        {
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(limit_s))
            {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                killed = true;
                break;
            }
            usleep(2000);
        }
    }
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    kill(-pid, SIGKILL);
    std::vector<Report> res;
    if (killed)
    {
        res.push_back({s.name, "no answer within " + std::to_string(limit_s) + " s (hang)", "", "", p});
        return res;
    }
    auto sep = in.find('\x03');
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || sep == std::string::npos)
    {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 70)
        {
            std::cerr << "harness error while replaying\n";
            _exit(70);
        }
        std::string err;
        {
            std::ifstream f(scratch_dir + "/replay.err");
            std::getline(f, err, '\0');
            if (err.size() > 1500)
                err.resize(1500);
        }
        res.push_back({s.name, wait_status_str(st) + ": " + err, "", "", p});
        return res;
    }
    std::string desc = in.substr(sep + 1);
    std::string_view body{in.data(), sep};
    while (!body.empty())
    {
        auto e = body.find('\x02');
        std::string_view one = body.substr(0, e);
        auto k = one.find('\x01');
        res.push_back({s.name, std::string{one.substr(k + 1)}, std::string{one.substr(0, k)}, desc, p});
        body.remove_prefix(e + 1);
    }
    return res;
}

struct Totals
{
    uint64_t executions{0}, steps{0}, leaves{0};
    std::unordered_set<uint64_t> states{};
    std::map<std::string, uint64_t> outcomes{};
    std::vector<std::string> samples{};
};

inline std::vector<Report> explore_section(Section const & s, Totals & tot)
{
    std::vector<Report> candidates;
    struct Child
    {
        pid_t pid;
        Shm * shm;
        uint64_t last_beat{0};
        std::chrono::steady_clock::time_point since{};
        bool done{false};
    };
    std::vector<Child> ch(n_shards);
    std::fflush(nullptr);
    for (unsigned i = 0; i < n_shards; ++i)
    {
        ch[i].shm = static_cast<Shm *>(
            mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        new (ch[i].shm) Shm{};
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            int err = open((scratch_dir + "/shard" + std::to_string(i) + ".err").c_str(),
                           O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (err >= 0)
                dup2(err, 2);
            Ctx c;
            c.shard = i;
            c.shards = n_shards;
            c.shm = ch[i].shm;
            std::ofstream out(scratch_dir + "/shard" + std::to_string(i) + ".out", std::ios::binary);
            unsigned nfail = 0;
            do
            {
                c.pos = 0;
                c.ran = false;
                c.failures.clear();
                c.description.clear();
                try
                {
                    s.body(c);
                }
                catch (std::exception const & e)
                {
                    c.fail(std::string{"unexpected exception of type "} + typeid(e).name() + ": " + e.what());
                }
                catch (...)
                {
                    c.fail("unexpected exception of unknown type");
                }
                c.shm->running.store(0, std::memory_order_release);
                c.shm->heartbeat.fetch_add(1, std::memory_order_relaxed);
                if (c.ran)
                    ++c.leaves;
                if (!c.failures.empty())
                {
                    bool all_known = true;
                    for (auto & f : c.failures)
                        all_known = all_known && !f.key.empty() && known_findings.contains(f.key);
                    static std::set<std::string> known_reported;
                    bool report = !all_known;
                    if (all_known)
                        for (auto & f : c.failures)
                            report = known_reported.insert(f.key).second || report;
                    if (report)
                    {
                        out << "F " << path_str({c.path.begin(), c.path.begin() + c.pos}) << "\nM " << json_escape(c.failures[0].msg) << '\n' << std::flush;
                        if (!all_known && ++nfail >= 3)
                            break;
                    }
                }
            }
            while (c.advance());
            out << "E " << c.executions << ' ' << c.steps << ' ' << c.leaves << '\n';
            for (auto & [k, v] : c.outcomes)
                out << "O " << v << ' ' << json_escape(k) << '\n';
            for (auto & k : c.samples)
                out << "S " << json_escape(k) << '\n';
            out << "H " << c.states.size() << '\n';
            for (auto h : c.states)
                out.write(reinterpret_cast<char const *>(&h), 8);
            out << "\nZ\n" << std::flush;
            out.close();
            _exit(0);
        }
        ch[i].pid = pid;
        ch[i].since = std::chrono::steady_clock::now();
    }
    unsigned const hang_limit = 40;
    for (unsigned left = n_shards; left > 0;)
    {
        usleep(3000);
        for (unsigned i = 0; i < n_shards; ++i)
        {
            Child & k = ch[i];
            if (k.done)
                continue;
            int st = 0;
            pid_t r = waitpid(k.pid, &st, WNOHANG);
            if (r == k.pid)
            {
                k.done = true;
                --left;
                kill(-k.pid, SIGKILL); // left-over processes of the group
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                {
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 70)
                    {
                        std::ifstream f(scratch_dir + "/shard" + std::to_string(i) + ".err");
                        std::cerr << f.rdbuf();
                        std::exit(70);
                    }
                    size_t n = k.shm->len.load();
                    candidates.push_back(
                        {s.name, wait_status_str(st), "", "", {k.shm->choices, k.shm->choices + n}, int(i)});
                }
                continue;
            }
            uint64_t b = k.shm->heartbeat.load();
            auto now = std::chrono::steady_clock::now();
            if (b != k.last_beat)
            {
                k.last_beat = b;
                k.since = now;
            }
            else if (now - k.since > std::chrono::seconds(hang_limit))
            {
                kill(-k.pid, SIGKILL);
                waitpid(k.pid, &st, 0);
                k.done = true;
                --left;
                size_t n = k.shm->len.load();
                candidates.push_back({s.name, "no progress", "", "", {k.shm->choices, k.shm->choices + n}, int(i)});
            }
        }
    }
    for (unsigned i = 0; i < n_shards; ++i)
    {
        std::ifstream in(scratch_dir + "/shard" + std::to_string(i) + ".out", std::ios::binary);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.starts_with("F "))
            {
                std::istringstream is(line.substr(2));
                std::vector<uint32_t> p{std::istream_iterator<uint32_t>(is), {}};
                candidates.push_back({s.name, "", "", "", p, int(i)});
            }
            else if (line.starts_with("M "))
                candidates.back().msg = line.substr(2); // shown if the failure cannot be reproduced
            else if (line.starts_with("E "))
            {
                std::istringstream is(line.substr(2));
                uint64_t a, b, c;
                is >> a >> b >> c;
                tot.executions += a;
                tot.steps += b;
                tot.leaves += c;
            }
            else if (line.starts_with("O "))
            {
                auto sp = line.find(' ', 2);
                tot.outcomes[s.name + ": " + line.substr(sp + 1)] += std::stoull(line.substr(2));
            }
            else if (line.starts_with("S "))
            {
                if (i < 2)
                    tot.samples.push_back(s.name + ": " + line.substr(2));
            }
            else if (line.starts_with("H "))
            {
                size_t n = std::stoull(line.substr(2));
                uint64_t const salt = hash_str(s.name);
                for (size_t j = 0; j < n; ++j)
                {
                    uint64_t h = 0;
                    in.read(reinterpret_cast<char *>(&h), 8);
                    tot.states.insert(mix(salt, h));
                }
            }
        }
        munmap(ch[i].shm, sizeof(Shm));
    }
    return candidates;
}

void mc_setup(); // defined by the harness: registers the sections

inline int main_impl(int argc, char ** argv)
{
    std::string out, replay, only;
    auto const t_start = std::chrono::steady_clock::now();
    double budget = 1e9; // seconds; with violations, no more is explored or confirmed after that
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string{argv[++i]}; };
        if (a == "--thorough")
            thorough = true;
        else if (a == "--shards")
            n_shards = std::stoul(val());
        else if (a == "--scratch")
            scratch_dir = val();
        else if (a == "--out")
            out = val();
        else if (a == "--replay")
            replay = val();
        else if (a == "--only")
            only = val();
        else if (a == "--budget")
            budget = std::stod(val());
        else if (a == "--known")
            known_findings.insert(val());
        else
            return 64;
    }
    if (scratch_dir.empty())
        return 64;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    rlimit const mem{3ull << 30, 3ull << 30}; // runaway allocations become exceptions
    setrlimit(RLIMIT_AS, &mem);
#endif
    rlimit const core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    mc_setup();

    if (!replay.empty()) // "<section>\n<choices>\n..."
    {
        std::ifstream in(replay);
        std::string name, choices;
        std::getline(in, name);
        std::getline(in, choices);
        std::istringstream is(choices);
        std::vector<uint32_t> p{std::istream_iterator<uint32_t>(is), {}};
        int shard = -1;
        std::string word;
        if (in >> word && word == "history")
            in >> shard >> n_shards;
        for (auto & s : sections)
            if (s.name == name)
            {
                auto r = replay_isolated(s, p, 400, shard);
                for (auto & f : r)
                    std::cout << "FAILURE " << f.msg << "\nin: " << f.description << '\n';
                std::cout << (r.empty() ? "no failure\n" : "reproduced\n");
                return r.empty() ? 0 : 1;
            }
        std::cerr << "unknown section\n";
        return 65;
    }

    auto left = [&]() { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count(); };
    Totals tot;
    std::vector<Report> confirmed;
    std::set<std::string> seen_known;
    uint64_t unconfirmed = 0;
    unsigned violations = 0;
    std::string sec_json;
    for (auto & s : sections)
    {
        if (!only.empty() && s.name.find(only) == std::string::npos)
            continue;
        if (violations >= 4 || (violations && left() < 0))
            break;
        auto t0 = std::chrono::steady_clock::now();
        uint64_t e0 = tot.executions;
        auto cand = explore_section(s, tot);
        std::ranges::stable_sort(cand, {}, [](Report const & r) { return r.path.size(); });
        unsigned n = 0;
        bool hung = false;
        for (auto & c : cand)
        {
            if (n >= (hung ? 1u : 4u) || ((n || violations) && left() < 100))
                break;
            auto r = replay_isolated(s, c.path, 50);
            if (r.empty()) // does it need the executions before it?
            {
                r = replay_isolated(s, c.path, unsigned(std::clamp(left(), 60., 400.)), c.shard);
                for (auto & f : r)
                {
                    f.shard = c.shard;
                    f.needs_history = true;
                }
            }
            if (r.empty())
            {
                ++unconfirmed;
                std::cerr << "not reproduced: section " << s.name << " [" << path_str(c.path) << "] " << c.msg << '\n';
                continue;
            }
            for (auto & f : r)
            {
                if (!f.key.empty() && known_findings.contains(f.key))
                {
                    if (!seen_known.insert(f.key).second)
                        continue;
                }
                else
                    ++n;
                hung = hung || f.msg.ends_with("(hang)");
                confirmed.push_back(f);
            }
        }
        violations += n;
        double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        char b[256];
        snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%llu,\"seconds\":%.2f}", sec_json.empty() ? "" : ",",
                 json_escape(s.name).c_str(), (unsigned long long)(tot.executions - e0), sec);
        sec_json += b;
    }
    std::ofstream o(out);
    o << "{\"executions\":" << tot.executions << ",\"steps\":" << tot.steps << ",\"leaves\":" << tot.leaves
      << ",\"states\":" << tot.states.size() << ",\"unconfirmed\":" << unconfirmed << ",\"sections\":[" << sec_json
      << "],\"outcomes\":{";
    bool first = true;
    for (auto & [k, v] : tot.outcomes)
        o << (std::exchange(first, false) ? "" : ",") << '"' << k << "\":" << v;
    o << "},\"samples\":[";
    first = true;
    for (auto & k : tot.samples)
        o << (std::exchange(first, false) ? "" : ",") << '"' << k << '"';
    o << "],\"failures\":[";
    first = true;
    for (auto & f : confirmed)
        o << (std::exchange(first, false) ? "" : ",") << "{\"section\":\"" << json_escape(f.section)
          << "\",\"path\":\"" << path_str(f.path)
          << (f.needs_history ? "\\nhistory " + std::to_string(f.shard) + " " + std::to_string(n_shards) : "") << "\",\"key\":\"" << json_escape(f.key) << "\",\"msg\":\""
          << json_escape(f.msg) << "\",\"description\":\"" << json_escape(f.description) << "\"}";
    o << "]}\n";
    o.close();
    return confirmed.empty() ? 0 : 3;
}

} // namespace mc
