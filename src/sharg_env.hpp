// Includes the library under test in a closed environment: exit, terminal properties, environment variables and the
// files of the version check are controlled by the harness.
#pragma once
#include "mc.hpp"
#include <sys/ioctl.h>
#include <future>
#include <pwd.h>

#include <locale>

namespace mc
{
struct ExitCalled
{
    int code;
};
[[noreturn]] inline void exit_called(int code) { throw ExitCalled{code}; }

inline bool tty_in = false, tty_out = false, tty_err = false;
inline unsigned term_width = 0;
} // namespace mc
namespace std
{
[[noreturn]] inline void mc_exit(int code) { mc::exit_called(code); }
} // namespace std
[[noreturn]] inline void mc_exit(int code) { mc::exit_called(code); }

extern "C" int isatty(int fd)
{
    bool const r = fd == 0 ? mc::tty_in : fd == 1 ? mc::tty_out : fd == 2 ? mc::tty_err : false;
    if (!r)
        errno = ENOTTY;
    return r;
}
extern "C" int ioctl(int, unsigned long request, ...) noexcept
{
    va_list ap;
    va_start(ap, request);
    void * p = va_arg(ap, void *);
    va_end(ap);
    if (request == TIOCGWINSZ && mc::term_width)
    {
        auto * w = static_cast<struct winsize *>(p);
        w->ws_row = 24;
        w->ws_col = static_cast<unsigned short>(mc::term_width);
        return 0;
    }
    errno = ENOTTY;
    return -1;
}

#define exit(code) mc_exit(code)
#include <sharg/all.hpp>
#undef exit

namespace mc
{
enum class Err
{
    none,
    unknown_option,
    too_many_arguments,
    too_few_arguments,
    required_option_missing,
    option_declared_multiple_times,
    user_input_error,
    validation_error,
    design_error,
    other_parser_error,
    foreign // not a sharg::parser_error
};
inline char const * err_name(Err e)
{
    static char const * const n[] = {"none",
                                     "unknown_option",
                                     "too_many_arguments",
                                     "too_few_arguments",
                                     "required_option_missing",
                                     "option_declared_multiple_times",
                                     "user_input_error",
                                     "validation_error",
                                     "design_error",
                                     "other_parser_error",
                                     "not a sharg::parser_error"};
    return n[static_cast<int>(e)];
}

struct Result
{
    bool exited{false};
    int code{0};
    Err err{Err::none};
    std::string what{};
    std::string out{}, errout{}; // std::cout / std::cerr
};

//!\brief Stand-ins for the buffers of std::cout and std::cerr that keep the text of each thread apart.
struct ThreadBuf : std::streambuf
{
    int which;
    explicit ThreadBuf(int w) : which{w}
    {}
    static std::string & text(int w)
    {
        static thread_local std::string t[2];
        return t[w];
    }
    int_type overflow(int_type c) override
    {
        if (c != traits_type::eof())
            text(which).push_back(char(c));
        return 0;
    }
    std::streamsize xsputn(char const * s, std::streamsize n) override
    {
        text(which).append(s, n);
        return n;
    }
};
inline bool threaded = false; // the buffers of the streams are ThreadBufs

//!\brief Calls fn and classifies how it ended. Captures std::cout and std::cerr.
template <typename fn_t>
Result call(fn_t && fn)
{
    Result r;
    std::ostringstream so, se;
    std::streambuf *oo = nullptr, *oe = nullptr;
    if (threaded)
    {
        ThreadBuf::text(0).clear();
        ThreadBuf::text(1).clear();
    }
    else
    {
        oo = std::cout.rdbuf(so.rdbuf());
        oe = std::cerr.rdbuf(se.rdbuf());
    }
    auto set = [&](Err e, std::exception const & ex)
    {
        r.err = e;
        r.what = ex.what();
    };
    try
    {
        fn();
    }
    catch (ExitCalled const & e)
    {
        r.exited = true;
        r.code = e.code;
    }
    catch (sharg::unknown_option const & e) { set(Err::unknown_option, e); }
    catch (sharg::too_many_arguments const & e) { set(Err::too_many_arguments, e); }
    catch (sharg::too_few_arguments const & e) { set(Err::too_few_arguments, e); }
    catch (sharg::required_option_missing const & e) { set(Err::required_option_missing, e); }
    catch (sharg::option_declared_multiple_times const & e) { set(Err::option_declared_multiple_times, e); }
    catch (sharg::user_input_error const & e) { set(Err::user_input_error, e); }
    catch (sharg::validation_error const & e) { set(Err::validation_error, e); }
    catch (sharg::design_error const & e) { set(Err::design_error, e); }
    catch (sharg::parser_error const & e) { set(Err::other_parser_error, e); }
    catch (std::exception const & e)
    {
        set(Err::foreign, e);
        r.what = std::string{typeid(e).name()} + ": " + r.what;
    }
    catch (...)
    {
        r.err = Err::foreign;
        r.what = "unknown exception";
    }
    if (threaded)
    {
        r.out = ThreadBuf::text(0);
        r.errout = ThreadBuf::text(1);
        return r;
    }
    std::cout.rdbuf(oo);
    std::cerr.rdbuf(oe);
    std::cout.clear();
    r.out = so.str();
    r.errout = se.str();
    return r;
}

inline std::string q(std::string_view s)
{
    std::string r = "'";
    for (unsigned char c : s)
        if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
            r += c;
    return r + "'";
}
inline std::string qv(std::vector<std::string> const & v)
{
    std::string r;
    for (auto & s : v)
        r += (r.empty() ? "" : " ") + q(s);
    return r;
}

//!\brief A locale as an application may set it globally: other decimal points, groups of digits, names of truth values.
struct UnusualNumbers : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
struct GlobalLocale
{
    std::locale old;
    explicit GlobalLocale(bool unusual) : old{std::locale::global(unusual ? std::locale{std::locale::classic(), new UnusualNumbers} : std::locale::classic())} {}
    ~GlobalLocale() { std::locale::global(old); }
};

//!\brief A home directory inside the scratch directory, and no update check unless a harness asks for it.
inline void default_environment()
{
    std::string const home = scratch_dir + "/home";
    std::filesystem::create_directories(home);
    setenv("HOME", home.c_str(), 1);
    setenv("TMPDIR", scratch_dir.c_str(), 1);
    setenv("SHARG_NO_VERSION_CHECK", "1", 1);
}
} // namespace mc
