// The reference model of command line parsing, data-driven parser configurations, and the comparison of the
// implementation with the model.
#pragma once
#include "sharg_env.hpp"
#include "ref.hpp"

namespace cl
{
enum class Color
{
    red,
    green,
    blue
};
inline auto enumeration_names(Color)
{
    return std::unordered_map<std::string_view, Color>{{"red", Color::red}, {"green", Color::green}, {"blue", Color::blue}};
}

enum class Ty
{
    i32,
    u8,
    str,
    boolean,
    dbl,
    color,
    path,
    l_i32,
    l_u8,
    l_str,
    l_color,
    l_bool,
    l_dbl,
    l_path,
    d_i32, // std::deque
    n_str  // std::list
};
enum class Kind
{
    opt,
    flag,
    pos
};
enum class Val
{
    none,
    range,   // [-3, 7] on i32
    words,   // "one", "two" or "-f" on str
};
struct Decl
{
    Kind kind{};
    char s{'\0'};
    std::string l{};
    Ty ty{};
    bool req{false};
    int def{0};
    Val val{};
    bool advanced{false}; // only on the advanced help page
    bool hidden{false};   // on no page
    std::string text{"A value."};
    std::string default_message{};
};
struct Config
{
    std::string name;
    std::vector<Decl> decls{};
    std::vector<std::pair<std::string, Config const *>> subs{};
    size_t sections{0}; // where sections, subsections and lines are added between the declarations: a bit mask of positions
};

struct Var
{
    int32_t i32{};
    uint8_t u8{};
    std::string str{};
    bool boolean{};
    double dbl{};
    Color color{};
    std::filesystem::path path{};
    std::vector<int32_t> l_i32{};
    std::vector<uint8_t> l_u8{};
    std::vector<std::string> l_str{};
    std::vector<Color> l_color{};
    std::vector<bool> l_bool{};
    std::vector<double> l_dbl{};
    std::vector<std::filesystem::path> l_path{};
    std::deque<int32_t> d_i32{};
    std::list<std::string> n_str{};
};

inline bool is_list(Ty t) { return t >= Ty::l_i32; }

template <typename fn_t>
decltype(auto) with(Var & v, Ty t, fn_t && fn)
{
    switch (t)
    {
    case Ty::i32: return fn(v.i32);
    case Ty::u8: return fn(v.u8);
    case Ty::str: return fn(v.str);
    case Ty::boolean: return fn(v.boolean);
    case Ty::dbl: return fn(v.dbl);
    case Ty::color: return fn(v.color);
    case Ty::path: return fn(v.path);
    case Ty::l_i32: return fn(v.l_i32);
    case Ty::l_u8: return fn(v.l_u8);
    case Ty::l_str: return fn(v.l_str);
    case Ty::l_color: return fn(v.l_color);
    case Ty::l_bool: return fn(v.l_bool);
    case Ty::l_dbl: return fn(v.l_dbl);
    case Ty::l_path: return fn(v.l_path);
    case Ty::d_i32: return fn(v.d_i32);
    default: return fn(v.n_str);
    }
}

inline std::string canon1(int32_t v) { return std::to_string(v); }
inline std::string canon1(uint8_t v) { return std::to_string(v); }
inline std::string canon1(bool v) { return v ? "true" : "false"; }
inline std::string canon1(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%a", v);
    return b;
}
inline std::string canon1(std::string const & v) { return mc::q(v); }
inline std::string canon1(std::filesystem::path const & v) { return mc::q(v.native()); }
inline std::string canon1(Color v) { return "c" + std::to_string(int(v)); }
template <typename T>
std::string canon(T const & v)
{
    if constexpr (requires { canon1(v); })
        return canon1(v);
    else
    {
        std::string r = "[";
        for (typename T::value_type e : v)
            (r += canon1(e)) += ' ';
        return r + "]";
    }
}

//!\brief Texts of the initial values, chosen by Decl::def.
inline std::vector<std::string> initial_texts(Ty t, int def)
{
    if (def == 0)
        return {};
    switch (t)
    {
    case Ty::i32:
    case Ty::u8: return {"5"};
    case Ty::str: return {"def"};
    case Ty::boolean: return {"true"};
    case Ty::dbl: return {"0.5"};
    case Ty::color: return {"blue"};
    case Ty::path: return {"/d"};
    case Ty::l_i32:
    case Ty::l_u8:
    case Ty::d_i32: return {"8", "9"};
    case Ty::l_str:
    case Ty::n_str: return {"x", "y"};
    case Ty::l_color: return {"green"};
    case Ty::l_bool: return {"false", "true"};
    case Ty::l_dbl: return {"1.5"};
    case Ty::l_path: return {"/d1", "/d2"};
    }
    return {};
}

// ---- reference conversion of one value to its canonical form --------------------------------------------------------
inline Ty element(Ty t)
{
    switch (t)
    {
    case Ty::l_i32:
    case Ty::d_i32: return Ty::i32;
    case Ty::l_u8: return Ty::u8;
    case Ty::l_str:
    case Ty::n_str: return Ty::str;
    case Ty::l_color: return Ty::color;
    case Ty::l_bool: return Ty::boolean;
    case Ty::l_dbl: return Ty::dbl;
    case Ty::l_path: return Ty::path;
    default: return t;
    }
}
inline bool is_plain_double(std::string_view s)
{
    static auto const digits = [](std::string_view & t)
    {
        size_t n = 0;
        while (n < t.size() && t[n] >= '0' && t[n] <= '9')
            ++n;
        t.remove_prefix(n);
        return n;
    };
    if (s.starts_with('-'))
        s.remove_prefix(1);
    if (s == "inf" || s == "nan")
        return true;
    size_t n = digits(s);
    if (s.starts_with('.'))
    {
        s.remove_prefix(1);
        n += digits(s);
    }
    if (n == 0)
        return false;
    if (s.starts_with('e') || s.starts_with('E'))
    {
        s.remove_prefix(1);
        if (s.starts_with('-') || s.starts_with('+'))
            s.remove_prefix(1);
        if (digits(s) == 0)
            return false;
    }
    return s.empty();
}
inline std::optional<std::string> convert1(Ty t, std::string const & s)
{
    ref::i128 v{};
    switch (element(t))
    {
    case Ty::i32:
        if (ref::integer(s, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max(), v) != 2)
            return std::nullopt;
        return ref::i128str(v);
    case Ty::u8:
        if (ref::integer(s, 0, 255, v) != 2)
            return std::nullopt;
        return ref::i128str(v);
    case Ty::boolean:
        if (s == "0" || s == "false")
            return "false";
        if (s == "1" || s == "true")
            return "true";
        return std::nullopt;
    case Ty::dbl:
        if (!is_plain_double(s))
            return std::nullopt;
        return canon1(std::strtod(s.c_str(), nullptr)); // the alphabets contain nothing that over- or underflows
    case Ty::color:
        if (s == "red")
            return "c0";
        if (s == "green")
            return "c1";
        if (s == "blue")
            return "c2";
        return std::nullopt;
    default: return mc::q(s);
    }
}
inline bool valid1(Decl const & d, std::string const & s)
{
    if (d.val == Val::range)
    {
        ref::i128 v{};
        ref::integer(s, INT32_MIN, INT32_MAX, v);
        return v >= -3 && v <= 7;
    }
    if (d.val == Val::words)
        return s == "one" || s == "two" || s == "-f";
    return true;
}
inline std::string canon_texts(Ty t, std::vector<std::string> const & texts)
{
    if (!is_list(t))
    {
        if (texts.empty())
        {
            switch (t)
            {
            case Ty::str:
            case Ty::path: return "''";
            case Ty::boolean: return "false";
            case Ty::color: return "c0";
            case Ty::dbl: return canon1(0.0);
            default: return "0";
            }
        }
        return *convert1(t, texts.back());
    }
    std::string r = "[";
    for (auto & e : texts)
        (r += *convert1(t, e)) += ' ';
    return r + "]";
}
inline void set_initial(Var & v, Decl const & d)
{
    auto texts = initial_texts(d.ty, d.def);
    if (texts.empty())
        return;
    v.i32 = 5, v.u8 = 5, v.str = "def", v.boolean = true, v.dbl = 0.5, v.color = Color::blue, v.path = "/d";
    v.l_i32 = {8, 9}, v.d_i32 = {8, 9}, v.l_u8 = {8, 9}, v.l_str = {"x", "y"}, v.n_str = {"x", "y"},
    v.l_color = {Color::green}, v.l_bool = {false, true}, v.l_dbl = {1.5}, v.l_path = {"/d1", "/d2"};
}

// ---- observations ----------------------------------------------------------------------------------------------------
struct Obs // what the implementation did
{
    mc::Result r{};
    std::vector<std::string> vals{};
    std::string isset{};
    bool has_sub{false};
    std::string subname{};
    std::unique_ptr<Obs> sub{};
};
struct Expect // what the model allows
{
    unsigned errs{0}; // set of allowed error classes; 0: none may be reported
    bool exits{false};
    bool unspecified{false}; // nothing is documented about such a line
    std::string page{};
    std::vector<std::string> vals{};
    std::string isset{};
    bool has_sub{false};
    std::string subname{};
    std::unique_ptr<Expect> sub{};
};
inline unsigned bit(mc::Err e) { return 1u << int(e); }

// ---- the model: one pass from left to right ------------------------------------------------------------------------
struct Model
{
    mc::Ctx * ctx{nullptr}; // counts states and transitions
    uint64_t state_salt{0};

    struct Occ
    {
        bool long_id;
        bool missing;
        std::string value;
    };

    std::unique_ptr<Expect> predict(Config const & cfg, std::string const & app, std::vector<std::string> const & args)
    {
        auto e = std::make_unique<Expect>();
        size_t const n = cfg.decls.size();
        std::vector<std::vector<Occ>> occ(n);
        std::vector<unsigned> flag_count(n, 0);
        std::vector<std::string> positional;
        unsigned scan_errs = 0, errs = 0;
        bool ended = false, any_format_arg = false;
        std::string special;
        size_t const no = size_t(-1);

        auto option_of = [&](std::string const & a, bool & is_long) -> size_t // exact identifier
        {
            for (size_t d = 0; d < n; ++d)
                if (cfg.decls[d].kind == Kind::opt)
                {
                    auto & D = cfg.decls[d];
                    if (D.s && a == std::string{'-', D.s})
                        return is_long = false, d;
                    if (!D.l.empty() && a == "--" + D.l)
                        return is_long = true, d;
                }
            return no;
        };
        auto flag_by_char = [&](char c) -> size_t
        {
            for (size_t d = 0; d < n; ++d)
                if (cfg.decls[d].kind == Kind::flag && cfg.decls[d].s == c && c)
                    return d;
            return no;
        };
        uint64_t acc = mc::hash_str(cfg.name, state_salt);
        auto note = [&]()
        {
            if (!ctx)
                return;
            uint64_t h = mc::mix(acc, ended * 4 + any_format_arg * 2 + (scan_errs != 0));
            for (size_t d = 0; d < n; ++d)
            {
                for (auto & o : occ[d])
                    h = mc::mix(h, mc::hash_str(o.value) + o.long_id * 2 + o.missing);
                h = mc::mix(h, d * 8 + flag_count[d]);
            }
            for (auto & p : positional)
                h = mc::mix(h, mc::hash_str(p));
            h = mc::mix(h, mc::hash_str(special) + errs);
            ctx->state(h);
        };
        note();

        size_t i = 0;
        for (; i < args.size() && !scan_errs; ++i)
        {
            std::string const & a = args[i];
            if (ctx)
                ctx->step();
            if (ended)
            {
                positional.push_back(a);
                note();
                continue;
            }
            bool is_long{};
            if (size_t d = option_of(a, is_long); d != no)
            {
                any_format_arg = true;
                if (i + 1 < args.size())
                    occ[d].push_back({is_long, false, args[++i]});
                else
                    occ[d].push_back({is_long, true, {}});
                note();
                continue;
            }
            if (!cfg.subs.empty())
            {
                Config const * sub = nullptr;
                for (auto & [name, s] : cfg.subs)
                    if (name == a)
                        sub = s;
                if (sub)
                {
                    e->has_sub = true;
                    e->subname = app + "-" + a;
                    e->sub = predict(*sub, e->subname, {args.begin() + i + 1, args.end()});
                    e->unspecified |= e->sub->unspecified;
                    break;
                }
                if (!a.starts_with('-'))
                {
                    scan_errs |= bit(mc::Err::user_input_error);
                    break;
                }
            }
            if (a == "--")
            {
                if (!cfg.subs.empty()) // no positional options are possible
                    e->unspecified = true;
                ended = true;
                any_format_arg = true;
            }
            else if (a == "-h" || a == "--help")
                special = "--help";
            else if (a == "-hh" || a == "--advanced-help")
                special = "--advanced-help";
            else if (a == "--version" || a == "--copyright")
                special = a;
            else if (a == "--export-help" || a.starts_with("--export-help="))
            {
                std::string v;
                if (a == "--export-help")
                {
                    if (i + 1 >= args.size())
                    {
                        scan_errs |= bit(mc::Err::too_few_arguments);
                        break;
                    }
                    v = args[++i];
                }
                else
                    v = a.substr(14);
                if (v == "html" || v == "man")
                    special = "--export-help=" + v;
                else
                    scan_errs |= bit(mc::Err::validation_error);
            }
            else if (a == "--version-check")
            {
                if (i + 1 >= args.size())
                {
                    scan_errs |= bit(mc::Err::too_few_arguments);
                    break;
                }
                std::string v = args[++i];
                if (v != "0" && v != "1" && v != "true" && v != "false")
                    scan_errs |= bit(mc::Err::validation_error);
            }
            else
            {
                any_format_arg = true;
                if (a.size() < 2 || a[0] != '-')
                    positional.push_back(a);
                else if (a[1] == '-')
                {
                    auto eq = a.find('=');
                    bool dummy{};
                    size_t d = eq == a.npos ? no : option_of(a.substr(0, eq), dummy);
                    if (d != no && dummy)
                        occ[d].push_back({true, eq + 1 == a.size(), a.substr(eq + 1)});
                    else
                    {
                        size_t f = no;
                        for (size_t k = 0; k < n; ++k)
                            if (cfg.decls[k].kind == Kind::flag && !cfg.decls[k].l.empty() && "--" + cfg.decls[k].l == a)
                                f = k;
                        if (f == no)
                            errs |= bit(mc::Err::unknown_option);
                        else
                            ++flag_count[f];
                    }
                }
                else
                {
                    bool dummy{};
                    if (size_t d = option_of(a.substr(0, 2), dummy); d != no) // -ovalue, -o=value
                    {
                        if (a[2] == '=')
                            occ[d].push_back({false, a.size() == 3, a.substr(3)});
                        else
                            occ[d].push_back({false, false, a.substr(2)});
                    }
                    else
                        for (char ch : a.substr(1))
                        {
                            size_t f = flag_by_char(ch);
                            if (f == no)
                                errs |= bit(mc::Err::unknown_option);
                            else
                                ++flag_count[f];
                        }
                }
            }
            note();
        }

        // ---- verdict
        for (auto & d : cfg.decls)
            e->vals.push_back(canon_texts(d.ty, initial_texts(d.ty, d.def)));
        if (!special.empty() && !scan_errs)
        {
            e->exits = true;
            e->page = special;
            e->has_sub = false;
            e->sub.reset();
            return e;
        }
        if (!any_format_arg && !e->has_sub && !scan_errs)
        {
            e->exits = true;
            e->page = "short";
            return e;
        }
        for (size_t d = 0; d < n; ++d)
        {
            Decl const & D = cfg.decls[d];
            if (D.kind == Kind::opt)
            {
                std::vector<std::string> texts;
                bool bad = false, s_set = false, l_set = false;
                for (auto & o : occ[d])
                {
                    (o.long_id ? l_set : s_set) = true;
                    if (o.missing)
                        errs |= bit(mc::Err::too_few_arguments), bad = true;
                    else if (!convert1(D.ty, o.value))
                        errs |= bit(mc::Err::user_input_error), bad = true;
                    else
                        texts.push_back(o.value);
                }
                if (D.s)
                    e->isset += s_set ? '1' : '0';
                if (!D.l.empty())
                    e->isset += l_set ? '1' : '0';
                if (!is_list(D.ty) && occ[d].size() > 1)
                    errs |= bit(mc::Err::option_declared_multiple_times), bad = true;
                if (occ[d].empty())
                {
                    if (D.req)
                        errs |= bit(mc::Err::required_option_missing);
                }
                else if (!bad)
                {
                    for (auto & t : texts)
                        if (!valid1(D, t))
                            errs |= bit(mc::Err::validation_error), bad = true;
                    if (!bad)
                        e->vals[d] = canon_texts(D.ty, texts);
                }
            }
            else if (D.kind == Kind::flag)
            {
                if (flag_count[d] > 1) // the documentation does not say which error
                    errs |= bit(mc::Err::unknown_option) | bit(mc::Err::option_declared_multiple_times);
                if (flag_count[d])
                    e->vals[d] = "true";
            }
        }
        size_t p = 0;
        for (size_t d = 0; d < n; ++d)
        {
            Decl const & D = cfg.decls[d];
            if (D.kind != Kind::pos)
                continue;
            if (p >= positional.size())
            {
                errs |= bit(mc::Err::too_few_arguments);
                continue;
            }
            std::vector<std::string> texts;
            do
                texts.push_back(positional[p++]);
            while (is_list(D.ty) && p < positional.size());
            bool bad = false;
            for (auto & t : texts)
                if (!convert1(D.ty, t))
                    errs |= bit(mc::Err::user_input_error), bad = true;
            if (!bad)
                for (auto & t : texts)
                    if (!valid1(D, t))
                        errs |= bit(mc::Err::validation_error), bad = true;
            if (!bad)
                e->vals[d] = canon_texts(D.ty, texts);
        }
        if (p < positional.size())
            errs |= bit(mc::Err::too_many_arguments);
        e->errs = scan_errs | errs;
        return e;
    }
};

// ---- the implementation ----------------------------------------------------------------------------------------------
template <typename T>
void add_one(sharg::parser & p, Decl const & d, T & v)
{
    auto add = [&](auto cfg)
    {
        if (d.kind == Kind::opt)
            p.add_option(v, cfg);
        else if (d.kind == Kind::pos)
            p.add_positional_option(v, cfg);
        else if constexpr (std::same_as<T, bool>)
            p.add_flag(v, cfg);
    };
    auto with_validator = [&](auto v)
    {
        add(sharg::config{.short_id = d.s,
                          .long_id = d.l,
                          .description = d.text,
                          .default_message = d.default_message,
                          .advanced = d.advanced,
                          .hidden = d.hidden,
                          .required = d.req,
                          .validator = v});
    };
    if constexpr (std::same_as<T, int32_t> || std::same_as<T, std::vector<int32_t>>)
        if (d.val == Val::range)
            return with_validator(sharg::arithmetic_range_validator{-3, 7});
    if constexpr (std::same_as<T, std::string> || std::same_as<T, std::vector<std::string>>)
        if (d.val == Val::words)
            return with_validator(sharg::value_list_validator{"one", "two", "-f"});
    add(sharg::config{.short_id = d.s,
                      .long_id = d.l,
                      .description = d.text,
                      .default_message = d.default_message,
                      .advanced = d.advanced,
                      .hidden = d.hidden,
                      .required = d.req});
}
inline void add_decl(sharg::parser & p, Decl const & d, Var & v)
{
    with(v, d.ty, [&](auto & x) { add_one(p, d, x); });
}

inline std::vector<std::string> sub_names(Config const & cfg)
{
    std::vector<std::string> v;
    for (auto & s : cfg.subs)
        v.push_back(s.first);
    return v;
}
//!\brief Adds the declarations in the given order, parses, and reports what can be observed.
inline std::unique_ptr<Obs> drive(sharg::parser & p, Config const & cfg, std::vector<size_t> const & order)
{
    auto o = std::make_unique<Obs>();
    std::vector<Var> vars(cfg.decls.size());
    for (size_t d = 0; d < cfg.decls.size(); ++d)
        set_initial(vars[d], cfg.decls[d]);
    o->r = mc::call(
        [&]()
        {
            for (size_t k = 0; k < cfg.decls.size(); ++k)
            {
                size_t d = order.empty() ? k : order[k];
                if (cfg.sections >> k & 1)
                {
                    p.add_section("Section -i", k % 2);
                    p.add_line("-x --flag 7", false, k % 3 == 0);
                }
                add_decl(p, cfg.decls[d], vars[d]);
                if (cfg.sections >> k & 1)
                {
                    p.add_subsection("--help", k % 2 == 0);
                    p.add_list_item("-s, --str", "foo -- bar", k % 3 == 1);
                }
            }
            p.parse();
        });
    for (size_t d = 0; d < cfg.decls.size(); ++d)
        o->vals.push_back(with(vars[d], cfg.decls[d].ty, [](auto const & x) { return canon(x); }));
    if (o->r.exited || o->r.err != mc::Err::none)
        return o;
    mc::Result r = mc::call(
        [&]()
        {
            for (auto & d : cfg.decls)
                if (d.kind == Kind::opt)
                {
                    if (d.s)
                        o->isset += p.is_option_set(d.s) ? '1' : '0';
                    if (!d.l.empty())
                        o->isset += p.is_option_set(d.l) ? '1' : '0';
                }
        });
    if (r.err != mc::Err::none)
        o->isset = "error: " + r.what;
    sharg::parser * sub = nullptr;
    r = mc::call([&]() { sub = &p.get_sub_parser(); });
    if (sub)
    {
        o->has_sub = true;
        o->subname = sub->info.app_name;
        for (auto & [name, s] : cfg.subs)
            if (o->subname == p.info.app_name + "-" + name)
            {
                if (!s->subs.empty())
                    sub->add_subcommands(sub_names(*s));
                o->sub = drive(*sub, *s, {});
            }
    }
    else if (r.err != mc::Err::design_error)
        o->subname = std::string{"get_sub_parser(): "} + mc::err_name(r.err);
    return o;
}
inline std::unique_ptr<Obs> run_impl(Config const & cfg,
                                     std::string const & app,
                                     std::vector<std::string> const & args,
                                     std::vector<size_t> const & order = {},
                                     bool use_argv = false)
{
    std::unique_ptr<Obs> o;
    if (use_argv)
    {
        std::vector<std::string> store{"./app"};
        store.insert(store.end(), args.begin(), args.end());
        std::vector<char const *> argv;
        for (auto & s : store)
            argv.push_back(s.c_str());
        argv.push_back(nullptr);
        sharg::parser p{app, int(argv.size() - 1), argv.data(), sharg::update_notifications::off, sub_names(cfg)};
        // The parser must not refer to the arguments any more.
        for (auto & s : store)
            std::ranges::fill(s, '#');
        o = drive(p, cfg, order);
    }
    else
    {
        std::vector<std::string> a{"./app"};
        a.insert(a.end(), args.begin(), args.end());
        sharg::parser p{app, a, sharg::update_notifications::off, sub_names(cfg)};
        a.assign(a.size(), "###");
        o = drive(p, cfg, order);
    }
    return o;
}

// ---- pages of special requests: the page that the same parser prints if the request is the only argument -------------
inline std::string page_of(Config const & cfg, std::string const & app, std::string const & special)
{
    static std::map<std::tuple<Config const *, std::string, std::string>, std::string> cache;
    auto key = std::tuple{&cfg, app, special};
    if (auto it = cache.find(key); it != cache.end())
        return it->second;
    std::vector<std::string> args;
    if (special != "short")
        args.push_back(special);
    auto o = run_impl(cfg, app, args);
    std::string page = o->r.exited && o->r.code == 0 ? o->r.out : "(no page: " + o->r.what + ")";
    return cache[key] = page;
}

inline std::string errs_str(unsigned m)
{
    std::string s;
    for (int k = 0; k <= int(mc::Err::foreign); ++k)
        if (m & (1u << k))
            s += (s.empty() ? "" : "|") + std::string{mc::err_name(mc::Err(k))};
    return s;
}
inline std::string vals_str(Config const & cfg, std::vector<std::string> const & v)
{
    std::string s;
    for (size_t d = 0; d < cfg.decls.size() && d < v.size(); ++d)
    {
        auto & D = cfg.decls[d];
        s += (s.empty() ? "" : " ") + (D.s ? std::string(1, D.s) : std::string{}) + (D.l.empty() ? "" : "/" + D.l)
           + (D.kind == Kind::pos ? "pos" : "") + "=" + v[d];
    }
    return s;
}

//!\brief Empty if the observation is allowed by the model.
inline std::string compare(Config const & cfg, std::string const & app, Expect const & e, Obs const & o)
{
    if (o.r.err == mc::Err::foreign)
        return "something that is not a sharg::parser_error was thrown: " + o.r.what;
    if (e.exits)
    {
        if (!o.r.exited)
            return "expected: page " + e.page + " and exit; got: "
                 + (o.r.err == mc::Err::none ? "normal return" : mc::err_name(o.r.err) + (": " + o.r.what));
        if (o.r.code != 0)
            return "exit code " + std::to_string(o.r.code);
        if (o.r.out != page_of(cfg, app, e.page))
            return "the output is not the page for " + e.page + ", but: " + o.r.out.substr(0, 400);
        if (!o.r.errout.empty())
            return "unexpected output on standard error: " + o.r.errout;
        if (o.vals != e.vals)
            return "variables were modified by a special request: " + vals_str(cfg, o.vals);
        return {};
    }
    if (o.r.exited)
        return "unexpected exit(" + std::to_string(o.r.code) + ") with output: " + o.r.out.substr(0, 200) + "; expected: "
             + (e.errs ? errs_str(e.errs) : "values " + vals_str(cfg, e.vals));
    if (!o.r.out.empty() || !o.r.errout.empty())
        return "unexpected output: " + o.r.out.substr(0, 200) + o.r.errout.substr(0, 200);
    if (e.errs)
    {
        if (o.r.err == mc::Err::none)
            return "expected: " + errs_str(e.errs) + "; got: normal return with " + vals_str(cfg, o.vals);
        if (!(e.errs & bit(o.r.err)))
            return "expected: " + errs_str(e.errs) + "; got: " + mc::err_name(o.r.err) + ": " + o.r.what;
        if (o.r.what.empty())
            return "empty error message";
        return {};
    }
    if (o.r.err != mc::Err::none)
        return "expected: " + vals_str(cfg, e.vals) + "; got: " + mc::err_name(o.r.err) + ": " + o.r.what;
    if (o.vals != e.vals)
        return "expected: " + vals_str(cfg, e.vals) + "; got: " + vals_str(cfg, o.vals);
    if (o.isset != e.isset)
        return "is_option_set of all option identifiers: expected " + e.isset + ", got " + o.isset;
    if (o.has_sub != e.has_sub)
        return std::string{"sub parser: expected "} + (e.has_sub ? e.subname : "none") + ", got "
             + (o.has_sub ? o.subname : "none");
    if (o.subname != e.subname)
        return "sub parser: expected '" + e.subname + "', got '" + o.subname + "'";
    if (e.sub)
    {
        if (!o.sub)
            return "no sub parser";
        for (auto & [name, s] : cfg.subs)
            if (e.subname == app + "-" + name)
                if (auto m = compare(*s, e.subname, *e.sub, *o.sub); !m.empty())
                    return "in sub parser " + e.subname + ": " + m;
    }
    return {};
}
inline std::string outcome_name(Expect const & e)
{
    if (e.exits)
        return "page " + e.page;
    if (e.errs)
        return errs_str(e.errs);
    return e.sub ? "sub: " + outcome_name(*e.sub) : "values";
}
inline std::string describe(Config const & cfg, std::vector<size_t> const & order, std::vector<std::string> const & args)
{
    std::string s = "config " + cfg.name + " (";
    for (size_t k = 0; k < cfg.decls.size(); ++k)
    {
        auto & D = cfg.decls[order.empty() ? k : order[k]];
        s += (k ? ", " : "") + std::string{D.kind == Kind::opt ? "option " : D.kind == Kind::flag ? "flag " : "positional "};
        if (D.s)
            s += std::string{"-"} + D.s + " ";
        if (!D.l.empty())
            s += "--" + D.l + " ";
        s += "type " + std::to_string(int(D.ty));
    }
    return s + "), arguments: " + mc::qv(args);
}

//!\brief Runs the implementation on one case and compares it with the model.
inline std::string check_case(mc::Ctx & c,
                              Config const & cfg,
                              std::vector<std::string> const & args,
                              std::vector<size_t> const & order = {},
                              bool use_argv = false)
{
    Model m{&c, 0};
    auto e = m.predict(cfg, "app", args);
    if (e->unspecified)
    {
        c.outcome("unspecified");
        return {};
    }
    c.outcome(outcome_name(*e));
    auto o = run_impl(cfg, "app", args, order, use_argv);
    auto msg = compare(cfg, "app", *e, *o);
    if (!msg.empty())
        msg += "\n  in: " + describe(cfg, order, args);
    return msg;
}
} // namespace cl
