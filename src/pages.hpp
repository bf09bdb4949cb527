// A model of help and exported pages, and parsers that read a printed page back into blocks of text.
#pragma once
#include "sharg_env.hpp"

namespace pages
{
// Visible text is kept as words with style marks: \x01 bold, \x02 italic, \x03 end of style.
enum Kind
{
    H,  // header
    S,  // section
    SS, // subsection
    L,  // line
    T,  // term of a list item
    D   // description of a list item
};
struct Block
{
    Kind kind;
    std::string text; // with markup
    bool operator==(Block const &) const = default;
};
using Page = std::vector<Block>;

//!\brief Resolves the documented markup: \fB, \fI, \fP and \-; everything else is literal.
inline std::string resolve(std::string const & s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\\' || i + 1 == s.size())
        {
            r += s[i];
            continue;
        }
        char const n = s[i + 1];
        if (n == '-')
            r += '-', ++i;
        else if (n == 'f' && i + 2 < s.size() && (s[i + 2] == 'B' || s[i + 2] == 'I' || s[i + 2] == 'P'))
            r += s[i + 2] == 'B' ? '\x01' : s[i + 2] == 'I' ? '\x02' : '\x03', i += 2;
        else if (n == '\\')
            r += "\\\\", ++i;
        else
            r += '\\';
    }
    return r;
}
inline bool is_style(char c) { return c == '\x01' || c == '\x02' || c == '\x03'; }
inline std::string without_style(std::string s)
{
    std::erase_if(s, is_style);
    return s;
}
//!\brief Styles as in HTML: an end without begin does not exist, everything is ended at the end of the text.
inline std::string nested(std::string const & s)
{
    std::string r;
    int depth = 0;
    for (char c : s)
    {
        if (c == '\x03')
        {
            if (!depth)
                continue;
            --depth;
        }
        else if (is_style(c))
            ++depth;
        r += c;
    }
    return r + std::string(depth, '\x03');
}
inline std::string upper(std::string s)
{
    for (char & c : s)
        c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
    return s;
}
inline std::string normal(std::string const & s) // white space collapsed
{
    std::string r;
    bool space = false;
    for (char c : s)
        if (c == ' ' || c == '\n' || c == '\t' || c == '\v' || c == '\f' || c == '\r')
            space = true;
        else
        {
            if (space && !r.empty())
                r += ' ';
            space = false;
            r += c;
        }
    return r;
}
inline size_t width(std::string const & s) { return without_style(resolve(s)).size(); }

// ---- the model ---------------------------------------------------------------------------------------------------------
enum Format
{
    help,
    advanced,
    html,
    man,
    version,
    copyright,
    short_help,
    n_formats
};
inline char const * const format_names[] = {"help", "advanced help", "html", "man", "version", "copyright", "short help"};
inline std::vector<std::string> request(Format f)
{
    switch (f)
    {
    case help: return {"--help"};
    case advanced: return {"--advanced-help"};
    case html: return {"--export-help", "html"};
    case man: return {"--export-help=man"};
    case version: return {"--version"};
    case copyright: return {"--copyright"};
    default: return {};
    }
}
inline std::string bold(std::string const & s) { return "\\fB" + s + "\\fP"; }

struct Declared // one entry
{
    Kind kind{D};
    std::string term{}, text{}; // sections, subsections and lines only use text
    bool is_advanced{false}, is_hidden{false};
    bool positional{false};
    std::string type{}; // positional only
};
struct Declaration
{
    sharg::parser_meta_data meta{};
    std::vector<std::string> subcommands{}; // sorted
    std::vector<Declared> entries{};
    bool updates{false}; // update notifications are on
};

inline std::string synopsis_text(std::string const & s)
{
    size_t const n = std::min(s.find_first_of(" \t"), s.size());
    return "\\fB" + s.substr(0, n) + "\\fP" + s.substr(n);
}
inline void version_blocks(Page & p, sharg::parser_meta_data const & m)
{
    p.push_back({S, "Version"});
    p.push_back({L, bold("Last update: ") + m.date});
    p.push_back({L, bold(m.app_name + " version: ") + m.version});
    p.push_back({L, bold("Sharg version: ") + sharg::sharg_version_cstring});
    if (!m.url.empty())
    {
        p.push_back({S, "Url"});
        p.push_back({L, m.url});
    }
}
inline Page expected(Declaration const & d, Format f)
{
    auto & m = d.meta;
    Page p;
    if (f == version)
    {
        version_blocks(p, m);
        return p;
    }
    if (f == short_help)
    {
        for (auto & s : m.synopsis)
            p.push_back({L, synopsis_text(s)});
        p.push_back({L, "Try -h or --help for more information."});
        return p;
    }
    if (!m.synopsis.empty())
    {
        p.push_back({S, "Synopsis"});
        for (auto & s : m.synopsis)
            p.push_back({L, synopsis_text(s)});
    }
    if (!m.description.empty())
    {
        p.push_back({S, "Description"});
        for (auto & s : m.description)
            p.push_back({L, s});
    }
    if (!d.subcommands.empty())
    {
        p.push_back({S, "Subcommands"});
        p.push_back({L, "This program must be invoked with one of the following subcommands:"});
        for (auto & s : d.subcommands)
            p.push_back({L, "- " + bold(s)});
        p.push_back({L, "See the respective help page for further details (e.g. by calling " + m.app_name + " " + d.subcommands[0] + " -h)."});
        p.push_back({L,
                     "The following options belong to the top-level parser and need to be specified \\fBbefore\\fP the subcommand key word. "
                     "Every argument after the subcommand key word is passed on to the corresponding sub-parser."});
    }
    size_t n = 0;
    for (auto & e : d.entries)
        if (e.positional)
        {
            if (!n++)
                p.push_back({S, "Positional Arguments"});
            p.push_back({T, bold("ARGUMENT-" + std::to_string(n)) + " " + e.type});
            p.push_back({D, e.text});
        }
    p.push_back({S, "Options"});
    for (auto & e : d.entries)
    {
        if (e.positional || e.is_hidden || (e.is_advanced && f == help))
            continue;
        if (e.kind == D)
            p.push_back({T, e.term});
        p.push_back({e.kind, e.text});
    }
    p.push_back({SS, "Common options"});
    auto item = [&](std::string const & t, std::string const & s)
    {
        p.push_back({T, t});
        p.push_back({D, s});
    };
    item(bold("-h") + ", " + bold("--help"), "Prints the help page.");
    item(bold("-hh") + ", " + bold("--advanced-help"), "Prints the help page including advanced options.");
    item(bold("--version"), "Prints the version information.");
    item(bold("--copyright"), "Prints the copyright/license information.");
    item(bold("--export-help") + " (std::string)", "Export the help page information. Value must be one of [html, man].");
    if (d.updates)
        item(bold("--version-check") + " (bool)", "Whether to check for the newest app version. Default: true");
    if (!m.examples.empty())
    {
        p.push_back({S, "Examples"});
        for (auto & s : m.examples)
            p.push_back({L, s});
    }
    version_blocks(p, m);
    if (!(m.short_copyright.empty() && m.long_copyright.empty() && m.citation.empty() && m.author.empty() && m.email.empty()))
    {
        p.push_back({S, "Legal"});
        if (!m.short_copyright.empty())
            p.push_back({L, bold(m.app_name + " Copyright: ") + m.short_copyright});
        if (!m.author.empty())
            p.push_back({L, bold("Author: ") + m.author});
        if (!m.email.empty())
            p.push_back({L, bold("Contact: ") + m.email});
        p.push_back({L, bold("SeqAn Copyright: ") + "2006-2024 Knut Reinert, FU-Berlin; released under the 3-clause BSDL."});
        if (!m.citation.empty())
            p.push_back({L, bold("In your academic works please cite: ") + m.citation});
        if (!m.long_copyright.empty())
            p.push_back({L, "For full copyright and/or warranty information see " + bold("--copyright") + "."});
    }
    return p;
}

//!\brief The blocks as they look in a format: resolved, neighbours of the same kind merged, empty ones dropped.
inline Page view(Page const & raw, Format f, bool tty)
{
    Page r;
    auto add = [&](Kind k, std::string s)
    {
        s = normal(s);
        if (s.empty())
            return;
        if (!r.empty() && r.back().kind == k)
            (r.back().text += " ") += s;
        else
            r.push_back({k, s});
    };
    bool const plain = f != html && f != man;
    for (auto & b : raw)
    {
        std::string s = resolve(b.text);
        Kind k = b.kind;
        if (k == S && f != html)
            s = upper(s);
        if (plain)
        {
            if (k == S || k == SS)
                s = "\x01" + s + "\x03";
            if (k == T)
                k = L; // the same indentation
            if (k == S)
                k = H;
            if (!tty)
                s = without_style(s);
        }
        if (f == html)
            s = nested(s);
        add(k, s);
    }
    return r;
}
inline Page header(Declaration const & d, Format f) // resolved
{
    auto & m = d.meta;
    Page p;
    if (f == html)
        return {{H, nested(resolve(m.app_name))}, {L, nested(resolve(m.short_description))}};
    if (f == man)
        return {{S, "NAME"}, {L, m.app_name + " - " + resolve(m.short_description)}};
    std::string const line = resolve(m.app_name + (m.short_description.empty() ? "" : " - " + m.short_description));
    return {{H, line + " " + std::string(without_style(line).size(), '=')}};
}
inline Page expected_view(Declaration const & d, Format f, bool tty)
{
    Page h = header(d, f);
    Page r;
    for (auto b : h)
    {
        if (f != html && f != man && !tty)
            b.text = without_style(b.text);
        b.text = normal(b.text);
        if (!b.text.empty())
            r.push_back(b);
    }
    for (auto & b : view(expected(d, f), f, tty))
        if (!r.empty() && r.back().kind == b.kind)
            (r.back().text += " ") += b.text;
        else
            r.push_back(b);
    return r;
}

// ---- reading pages ---------------------------------------------------------------------------------------------------------
inline std::string show(Page const & p)
{
    static char const * const n[] = {"H", "S", "SS", "L", "T", "D"};
    std::string r;
    for (auto & b : p)
        (((r += n[b.kind]) += "<") += b.text) += "> ";
    return r;
}
inline void append(Page & p, Kind k, std::string const & s)
{
    std::string t = normal(s);
    if (t.empty())
        return;
    if (!p.empty() && p.back().kind == k)
        (p.back().text += " ") += t;
    else
        p.push_back({k, t});
}
//!\brief Plain text, also with terminal codes. Errors are added to `problems`.
inline Page read_plain(std::string const & out, std::string & problems)
{
    Page p;
    std::istringstream is{out};
    std::string line;
    while (std::getline(is, line))
    {
        std::string s;
        for (size_t i = 0; i < line.size(); ++i)
            if (line[i] == '\033')
            {
                if (line.compare(i, 4, "\033[1m") == 0)
                    s += '\x01';
                else if (line.compare(i, 4, "\033[4m") == 0)
                    s += '\x02';
                else if (line.compare(i, 4, "\033[0m") == 0)
                    s += '\x03';
                else
                    problems += " unknown terminal code;";
                i += 3;
            }
            else
                s += line[i];
        std::string t = without_style(s);
        size_t const indent = t.find_first_not_of(' ');
        if (indent == t.npos)
        {
            if (!normal(s).empty() && !p.empty()) // only style codes
                append(p, p.back().kind, s);
            continue;
        }
        append(p, indent < 2 ? H : indent < 4 ? SS : indent < 10 ? L : D, s);
    }
    return p;
}
//!\brief Lines of plain text must not be longer than the terminal, and not be broken too early.
inline std::string check_wrapping(std::string const & out, unsigned terminal)
{
    unsigned const w = terminal ? std::clamp(terminal, 40u, 120u) : 80;
    std::istringstream is{out};
    std::string line, problems, prev; // the line before, if it belongs to the filler text
    size_t prev_indent = 0;
    while (std::getline(is, line))
    {
        std::string s;
        for (size_t i = 0; i < line.size(); ++i)
            if (line[i] == '\033')
                i += 3;
            else
                s += line[i];
        size_t const indent = s.find_first_not_of(' ');
        if (indent == s.npos || indent < 4)
        {
            prev.clear();
            continue;
        }
        auto const first_end = std::min(s.find(' ', indent), s.size());
        bool const one_word = first_end == s.size();
        if (s.size() > w - 2 && !one_word) // a margin of two columns
            problems += " line of " + std::to_string(s.size()) + " characters: " + mc::q(s) + ";";
        bool const follows = !prev.empty() && prev_indent == indent && s.compare(indent, 7, "Behind.") != 0 && s.compare(indent, 6, "filler") != 0
                          && s.compare(indent, 6, "second") != 0 && s.compare(indent, 3, "Try") != 0;
        if (follows && prev.size() + 1 + (first_end - indent) <= w - 2)
            problems += " the line " + mc::q(prev) + " ends too early;";
        prev = follows || s.compare(indent, 6, "filler") == 0 ? s : "";
        prev_indent = indent;
    }
    return problems;
}

//!\brief A small interpreter for man pages.
inline Page read_man(std::string const & out, std::string & problems, std::vector<std::string> & title)
{
    Page p;
    auto text = [&](std::string const & s) // resolves escapes
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] != '\\')
            {
                r += s[i];
                continue;
            }
            char const n = i + 1 < s.size() ? s[i + 1] : '\0';
            ++i;
            if (n == 'f' && i + 1 < s.size() && std::string_view{"BIPR"}.find(s[i + 1]) != std::string_view::npos)
                r += s[i + 1] == 'B' ? '\x01' : s[i + 1] == 'I' ? '\x02' : '\x03', ++i;
            else if (n == '-')
                r += '-';
            else if (n == 'e' || n == '\\')
                r += '\\';
            else if (s.compare(i, 4, "(rs") == 0)
                r += '\\', i += 2;
            else if (n == '(' && s.compare(i, 3, "(dq") == 0)
                r += '"', i += 2;
            else if (n == '(' && s.compare(i, 3, "(aq") == 0)
                r += '\'', i += 2;
            else if (n == '&')
            {}
            else
            {
                problems += " escape sequence \\" + std::string(1, n ? n : '0') + " of the text is interpreted;";
                r += n;
            }
        }
        return r;
    };
    auto args = [&](std::string s)
    {
        std::vector<std::string> v;
        size_t i = 0;
        while (i < s.size())
        {
            if (s[i] == ' ')
            {
                ++i;
                continue;
            }
            std::string a;
            if (s[i] == '"')
            {
                ++i;
                for (;;)
                {
                    if (i == s.size())
                        break;
                    if (s[i] == '"')
                    {
                        if (i + 1 < s.size() && s[i + 1] == '"')
                        {
                            a += '"';
                            i += 2;
                            continue;
                        }
                        ++i;
                        break;
                    }
                    a += s[i++];
                }
            }
            else
                while (i < s.size() && s[i] != ' ')
                    a += s[i++];
            v.push_back(text(a));
        }
        return v;
    };
    auto joined = [](std::vector<std::string> const & v)
    {
        std::string r;
        for (auto & s : v)
            (r += r.empty() ? "" : " ") += s;
        return r;
    };
    std::istringstream is{out};
    std::string line;
    Kind kind = L;
    bool tag = false;
    bool first = true;
    while (std::getline(is, line))
    {
        if (!line.empty() && (line[0] == '.' || line[0] == '\''))
        {
            auto const space = std::min(line.find(' '), line.size());
            std::string const name = line.substr(0, space);
            std::string const rest = line.substr(space);
            if (name == ".TH" && first)
                title = args(rest);
            else if (name == ".SH" || name == ".SS")
            {
                append(p, name == ".SH" ? S : SS, joined(args(rest)));
                kind = L;
            }
            else if ((name == ".br" || name == ".sp") && normal(rest).empty())
                kind = L;
            else if (name == ".TP" && normal(rest).empty())
                tag = true;
            else
                problems += " the line " + mc::q(line) + " is a request;";
            first = false;
            continue;
        }
        first = false;
        if (tag)
        {
            append(p, T, text(line));
            tag = false;
            kind = D;
        }
        else
            append(p, kind, text(line));
    }
    return p;
}
//!\brief Checks that all elements are balanced and reads the blocks of the body.
inline Page read_html(std::string const & out, std::string & problems, std::string & title)
{
    Page p;
    std::vector<std::string> open;
    std::string cur;
    Kind kind = L;
    bool body = false, in_title = false;
    auto flush = [&]()
    {
        if (body)
            append(p, kind, cur);
        else if (!normal(cur).empty() && !in_title)
            problems += " text outside of the body;";
        cur.clear();
    };
    static std::map<std::string, Kind> const kinds{{"h1", H}, {"h2", S}, {"h3", SS}, {"p", L}, {"div", L}, {"dt", T}, {"dd", D}};
    // what may contain what
    static std::map<std::string, std::set<std::string>> const parents{{"head", {"html"}},
                                                                      {"body", {"html"}},
                                                                      {"title", {"head"}},
                                                                      {"h1", {"body"}},
                                                                      {"div", {"body"}},
                                                                      {"h2", {"body"}},
                                                                      {"h3", {"body"}},
                                                                      {"p", {"body"}},
                                                                      {"dl", {"body"}},
                                                                      {"dt", {"dl"}},
                                                                      {"dd", {"dl"}},
                                                                      {"html", {""}}};
    for (size_t i = 0; i < out.size(); ++i)
    {
        char const ch = out[i];
        if (ch == '<')
        {
            size_t const e = out.find('>', i);
            if (e == out.npos)
            {
                problems += " unterminated tag;";
                break;
            }
            std::string tag = out.substr(i + 1, e - i - 1);
            i = e;
            if (tag.starts_with("!DOCTYPE"))
                continue;
            bool const closing = tag.starts_with('/');
            std::string const name = tag.substr(closing, std::min(tag.find(' '), tag.size()) - closing);
            if (name == "meta")
                continue;
            if (name == "br")
            {
                cur += '\n';
                continue;
            }
            if (name == "strong" || name == "em")
            {
                cur += closing ? '\x03' : name == "em" ? '\x02' : '\x01';
                if (!closing)
                    open.push_back(name);
            }
            else if (!closing)
            {
                flush();
                if (auto it = parents.find(name); it == parents.end())
                    problems += " unknown element " + mc::q(name) + ";";
                else if (!it->second.contains(open.empty() ? "" : open.back()))
                    problems += " element " + name + " inside of " + (open.empty() ? "nothing" : open.back()) + ";";
                open.push_back(name);
                if (name == "body")
                    body = true;
                if (name == "title")
                    in_title = true;
                if (kinds.contains(name))
                    kind = kinds.at(name);
            }
            else if (name == "title")
            {
                title = normal(cur);
                cur.clear();
                in_title = false;
            }
            else
                flush();
            if (closing)
            {
                if (open.empty() || open.back() != name)
                    problems += " unexpected end tag " + mc::q(tag) + ";";
                else
                    open.pop_back();
                if (name == "p" || name == "dl" || name == "div" || name == "h1" || name == "h2" || name == "h3")
                    kind = L;
            }
        }
        else if (ch == '&')
        {
            static std::map<std::string, std::string> const entities{{"&quot;", "\""}, {"&apos;", "'"}, {"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&mdash;", "-"}, {"&#39;", "'"}};
            size_t const e = out.find(';', i);
            auto it = e == out.npos ? entities.end() : entities.find(out.substr(i, e - i + 1));
            if (it == entities.end())
                problems += " unescaped & before " + mc::q(out.substr(i, 8)) + ";";
            else
            {
                cur += it->second;
                i = e;
            }
        }
        else if (ch == '>')
            problems += " unescaped >;";
        else
            cur += ch;
    }
    flush();
    if (!open.empty())
        problems += " element " + open.back() + " is not closed;";
    return p;
}

//!\brief Compares a printed page with the model; with `flat` only the visible text in order. Returns problems.
inline std::string compare(Declaration const & d, Format f, std::string const & out, bool tty, bool flat)
{
    std::string problems;
    Page got;
    auto flatten = [](Page const & p)
    {
        std::string s;
        for (auto & b : p)
            (s += " ") += b.text;
        return Page{{L, normal(s)}};
    };
    if (f == copyright)
    {
        std::string s = tty ? "" : normal(out);
        if (tty)
        {
            for (auto & b : read_plain(out, problems))
                (s += " ") += without_style(b.text);
            s = normal(s);
        }
        std::string const rule = std::string(80, '='), thin = std::string(80, '-');
        auto & m = d.meta;
        std::string e = rule + " Copyright information for " + m.app_name + ": " + thin + " ";
        if (!m.long_copyright.empty())
            e += m.long_copyright;
        else if (!m.short_copyright.empty())
            e += m.app_name + " full copyright information not available. Displaying short copyright information instead: " + m.short_copyright;
        else
            e += m.app_name + " copyright information not available.";
        e += " " + rule + " This program contains SeqAn code licensed under the following terms: " + thin + " Copyright (c)";
        if (!s.starts_with(normal(e)))
            problems += " copyright page: expected " + mc::q(normal(e)) + " got " + mc::q(s.substr(0, e.size() + 50));
        return problems;
    }
    Page want = expected_view(d, f, tty);
    if (f == man)
    {
        std::vector<std::string> title;
        got = read_man(out, problems, title);
        auto & m = d.meta;
        std::string low = m.app_name;
        for (char & c : low)
            c = std::tolower(c);
        std::vector<std::string> const e{upper(m.app_name), std::to_string(m.man_page_section), resolve(normal(m.date)), normal(low + " " + resolve(m.version)),
                                         resolve(normal(m.man_page_title))};
        std::vector<std::string> t;
        for (auto & s : title)
            t.push_back(normal(s));
        if (t != e)
            problems += " title line " + mc::qv(t) + " instead of " + mc::qv(e) + ";";
    }
    else if (f == html)
    {
        std::string title;
        got = read_html(out, problems, title);
        std::string const e = normal(d.meta.app_name + " - " + d.meta.short_description);
        std::string const e2 = normal(d.meta.app_name + " - " + without_style(resolve(d.meta.short_description)));
        if (title != e && title != e2)
            problems += " title " + mc::q(title) + ";";
        if (!out.ends_with("</html>") && !out.ends_with("</html>\n"))
            problems += " no end of the page;";
    }
    else
        got = read_plain(out, problems);
    if (flat)
    {
        want = flatten(want);
        got = flatten(got);
    }
    if (got != want)
    {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i])
            ++i;
        auto part = [&](Page const & p)
        {
            std::string t;
            if (i < p.size())
            {
                size_t j = 0;
                if (i < got.size() && i < want.size())
                    while (j < got[i].text.size() && j < want[i].text.size() && got[i].text[j] == want[i].text[j])
                        ++j;
                j = j > 60 ? j - 60 : 0;
                t = show({{p[i].kind, p[i].text.substr(std::min(j, p[i].text.size()), 160)}});
            }
            return mc::q(t);
        };
        problems += " expected " + part(want) + " got " + part(got);
    }
    return problems;
}
//!\brief Requests a page from a parser and compares it with the declaration.
inline std::string check_page(sharg::parser & p, Declaration const & d, Format f, bool flat)
{
    mc::Result r = mc::call([&]() { p.parse(); });
    if (!r.exited || r.code != 0)
        return std::string{" no page but "} + mc::err_name(r.err) + ": " + r.what;
    if (!r.errout.empty())
        return " text on standard error: " + r.errout;
    return compare(d, f, r.out, mc::tty_out, flat);
}
} // namespace pages
