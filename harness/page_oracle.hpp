// Whole help pages through the real parser, and what they have to be: declarations -> events -> text of each format.
#pragma once
#include <deque>
#include <iomanip>
#include <sys/ioctl.h>
namespace vp
{
inline unsigned short columns{0};
inline int vp_ioctl(int, unsigned long, void * w)
{
    static_cast<winsize *>(w)->ws_col = columns;
    return 0;
}
} // namespace vp
#define ioctl(a, b, c) ::vp::vp_ioctl(a, b, c)
#include "common.hpp"
namespace vp
{
template <typename T>
struct says
{
    using option_value_type = T;
    std::string message;
    void operator()(T const &) const
    {}
    template <typename R>
        requires (!std::same_as<R, T>)
    void operator()(R const &) const
    {}
    std::string get_help_page_message() const
    {
        return message;
    }
};

struct Event
{
    char kind; // H S s I L F
    std::string a{}, b{};
    bool paragraph{};
    bool operator==(Event const &) const = default;
};
using Events = std::vector<Event>;

struct Decl
{
    int kind{}; // 0 option 1 flag 2 positional 3 section 4 subsection 5 line 6 item
    int type{};
    char short_id{};
    std::string long_id{}, description{}, default_message{}, message{};
    bool advanced{}, hidden{}, required{}, paragraph{};
    size_t value{};
};

struct Page
{
    sharg::parser_meta_data meta;
    std::vector<Decl> decls;
    strs commands;
    bool updates{};
};

struct Values
{
    std::deque<int> i;
    std::deque<uint8_t> u8;
    std::deque<double> d;
    std::deque<bool> b;
    std::deque<std::string> s;
    std::deque<std::filesystem::path> p;
    std::deque<std::vector<int>> vi;
    std::deque<std::vector<int8_t>> vi8;
    std::deque<strs> vs;
    std::deque<std::vector<std::filesystem::path>> vp;
};
constexpr int n_types = 10;

inline std::string quote(std::string const & v)
{
    std::string r{"\""};
    for (char c : v)
    {
        if (c == '"' || c == '\\')
            r += '\\';
        r += c;
    }
    return r + '"';
}
inline std::string word(int v)
{
    return std::to_string(v);
}
inline std::string word(double v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
inline std::string word(std::string const & v)
{
    return quote(v);
}
inline std::string word(std::filesystem::path const & v)
{
    return quote(v.string());
}
template <typename T>
inline std::string word(std::vector<T> const & v)
{
    std::string r{"["};
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? ", " : "") + word(v[i]);
    return r + "]";
}

// calls f with a reference to the new value of the type and the name of the type
template <typename F>
inline void with_value(Values & v, Decl const & d, F && f)
{
    size_t k = d.value;
    strs t{"", "abc", "a b", "x\"y", "\\fB<&>", "-"};
    auto txt = [&](size_t j)
    {
        return t[(k + j) % t.size()];
    };
    switch (d.type)
    {
    case 0: f(v.i.emplace_back((int)k - 3), "signed 32 bit integer", false); break;
    case 1: f(v.u8.emplace_back((uint8_t)(k * 37)), "unsigned 8 bit integer", false); break;
    case 2: f(v.d.emplace_back(k * 0.25), "double", false); break;
    case 3: f(v.b.emplace_back(k % 2 == 1), "bool", false); break;
    case 4: f(v.s.emplace_back(txt(0)), "std::string", false); break;
    case 5: f(v.p.emplace_back(txt(0)), "std::filesystem::path", false); break;
    case 6: f(v.vi.emplace_back(k % 4, (int)k), "signed 32 bit integer", true); break;
    case 7: f(v.vi8.emplace_back(k % 3, (int8_t)(60 + k)), "signed 8 bit integer", true); break;
    case 8:
    {
        strs l;
        for (size_t j = 0; j < k % 4; ++j)
            l.push_back(txt(j));
        f(v.vs.emplace_back(l), "std::string", true);
        break;
    }
    default:
    {
        std::vector<std::filesystem::path> l;
        for (size_t j = 0; j < k % 3; ++j)
            l.push_back(txt(j));
        f(v.vp.emplace_back(l), "std::filesystem::path", true);
    }
    }
}

// ------------------------------------------------------------------ the real page
inline std::string real_page(Page const & p, strs const & args, Threw * how = nullptr)
{
    Values v;
    capture c;
    auto t = outcome(
        [&]
        {
            strs all{"./app"};
            all.insert(all.end(), args.begin(), args.end());
            sharg::parser parser{p.meta.app_name, all, p.updates ? sharg::update_notifications::on : sharg::update_notifications::off, p.commands};
            parser.info = p.meta;
            for (auto & d : p.decls)
            {
                if (d.kind == 3)
                    parser.add_section(d.description, d.advanced);
                else if (d.kind == 4)
                    parser.add_subsection(d.description, d.advanced);
                else if (d.kind == 5)
                    parser.add_line(d.description, d.paragraph, d.advanced);
                else if (d.kind == 6)
                    parser.add_list_item(d.long_id, d.description, d.advanced);
                else if (d.kind == 1)
                    parser.add_flag(v.b.emplace_back(false),
                                    sharg::config{.short_id = d.short_id, .long_id = d.long_id, .description = d.description, .advanced = d.advanced, .hidden = d.hidden});
                else
                    with_value(v, d,
                               [&](auto & x, char const *, bool)
                               {
                                   using T = std::remove_reference_t<decltype(x)>;
                                   sharg::config<says<T>> cfg{};
                                   cfg.short_id = d.short_id;
                                   cfg.long_id = d.long_id;
                                   cfg.description = d.description;
                                   cfg.default_message = d.default_message;
                                   cfg.advanced = d.advanced;
                                   cfg.hidden = d.hidden;
                                   cfg.required = d.required;
                                   cfg.validator.message = d.message;
                                   if (d.kind == 0)
                                       parser.add_option(x, cfg);
                                   else
                                       parser.add_positional_option(x, cfg);
                               });
            }
            parser.parse();
        });
    if (how)
        *how = t;
    return c.o.str();
}

// ------------------------------------------------------------------ the events of the page
inline std::string bold(std::string const & s)
{
    return "\\fB" + s + "\\fP";
}
inline std::string ids(Decl const & d)
{
    std::string r;
    if (d.short_id)
        r += bold(std::string{"-"} + d.short_id);
    if (d.short_id && !d.long_id.empty())
        r += ", ";
    if (!d.long_id.empty())
        r += bold("--" + d.long_id);
    return r;
}
inline std::string type_name(char const * n, bool list)
{
    return list ? std::string{"(\\fIList\\fP of \\fI"} + n + "\\fP)" : std::string{"(\\fI"} + n + "\\fP)";
}

inline bool shown(Decl const & d, bool advanced)
{
    return d.kind == 2 || (!d.hidden && (!d.advanced || advanced));
}

inline Event entry(Decl const & d, size_t number)
{
    Values v;
    Event e{'I', "", ""};
    switch (d.kind)
    {
    case 1: return {'I', ids(d), d.description};
    case 3: return {'S', d.description};
    case 4: return {'s', d.description};
    case 5: return {'L', d.description, "", d.paragraph};
    case 6: return {'I', d.long_id, d.description};
    case 0:
        with_value(v, d,
                   [&](auto & x, char const * n, bool list)
                   {
                       e.a = ids(d) + " " + type_name(n, list);
                       e.b = d.description;
                       bool text = d.type == 4 || d.type == 5;
                       if (!d.default_message.empty())
                           e.b += " Default: " + (text ? quote(d.default_message) : d.default_message);
                       else if (!d.required)
                           e.b += " Default: " + word(x);
                   });
        break;
    default:
        with_value(v, d,
                   [&](auto & x, char const * n, bool list)
                   {
                       e.a = bold("ARGUMENT-" + std::to_string(number)) + " " + type_name(n, list);
                       e.b = d.description;
                       if (list)
                           e.b += " Default: " + word(x);
                   });
    }
    if (!d.message.empty())
        e.b += ". " + d.message;
    return e;
}

inline std::string synopsis_line(std::string const & s)
{
    size_t k = 0;
    while (k < s.size() && s[k] != ' ' && s[k] != '\t')
        ++k;
    return "\\fB" + s.substr(0, k) + "\\fP" + s.substr(k);
}

// in_bold of the format
using Bold = std::function<std::string(std::string const &)>;

inline Events version_events(Page const & p, Bold const & in_bold)
{
    auto & m = p.meta;
    Events r{{'S', "Version"}, {'L', in_bold("Last update: ") + m.date}, {'L', in_bold(m.app_name + " version: ") + m.version}, {'L', in_bold("Sharg version: ") + sharg::sharg_version_cstring}};
    if (!m.url.empty())
        r.insert(r.end(), {{'S', "Url"}, {'L', m.url}});
    return r;
}

inline Events page_events(Page const & p, bool advanced, Bold const & in_bold)
{
    auto & m = p.meta;
    Events r{{'H'}};
    auto add = [&](Event e)
    {
        r.push_back(e);
    };
    if (!m.synopsis.empty())
    {
        add({'S', "Synopsis"});
        for (auto & s : m.synopsis)
            add({'L', synopsis_line(s)});
    }
    if (!m.description.empty())
    {
        add({'S', "Description"});
        for (auto & s : m.description)
            add({'L', s, "", true});
    }
    if (!p.commands.empty())
    {
        add({'S', "Subcommands"});
        add({'L', "This program must be invoked with one of the following subcommands:"});
        strs commands = p.commands; // listed in order, each once
        std::sort(commands.begin(), commands.end());
        commands.erase(std::unique(commands.begin(), commands.end()), commands.end());
        for (auto & s : commands)
            add({'L', "- " + bold(s)});
        add({'L', "See the respective help page for further details (e.g. by calling " + m.app_name + " " + commands[0] + " -h).", "", true});
        add({'L', "The following options belong to the top-level parser and need to be specified \\fBbefore\\fP the subcommand key word. Every argument after the subcommand key word is passed on to the corresponding sub-parser.", "", true});
    }
    size_t n = 0;
    for (auto & d : p.decls)
        if (d.kind == 2)
        {
            if (!n++)
                add({'S', "Positional Arguments"});
            add(entry(d, n));
        }
    add({'S', "Options"});
    for (auto & d : p.decls)
        if (d.kind != 2 && shown(d, advanced))
            add(entry(d, 0));
    add({'s', "Common options"});
    add({'I', bold("-h") + ", " + bold("--help"), "Prints the help page."});
    add({'I', bold("-hh") + ", " + bold("--advanced-help"), "Prints the help page including advanced options."});
    add({'I', bold("--version"), "Prints the version information."});
    add({'I', bold("--copyright"), "Prints the copyright/license information."});
    add({'I', bold("--export-help") + " (std::string)", "Export the help page information. Value must be one of [html, man]."});
    if (p.updates)
        add({'I', bold("--version-check") + " (bool)", "Whether to check for the newest app version. Default: true"});
    if (!m.examples.empty())
    {
        add({'S', "Examples"});
        for (auto & s : m.examples)
            add({'L', s, "", true});
    }
    for (auto & e : version_events(p, in_bold))
        add(e);
    if (!m.short_copyright.empty() || !m.long_copyright.empty() || !m.citation.empty() || !m.author.empty() || !m.email.empty())
    {
        add({'S', "Legal"});
        auto one = [&](std::string const & t, std::string const & s)
        {
            if (!s.empty())
                add({'L', in_bold(t) + s});
        };
        one(m.app_name + " Copyright: ", m.short_copyright);
        one("Author: ", m.author);
        one("Contact: ", m.email);
        one("SeqAn Copyright: ", "2006-2024 Knut Reinert, FU-Berlin; released under the 3-clause BSDL.");
        one("In your academic works please cite: ", m.citation);
        if (!m.long_copyright.empty())
            add({'L', "For full copyright and/or warranty information see " + in_bold("--copyright") + "."});
    }
    add({'F'});
    return r;
}

// ------------------------------------------------------------------ the text of the events
inline std::string upper(std::string s)
{
    for (char & c : s)
        c = std::toupper((unsigned char)c);
    return s;
}
inline std::string lower(std::string s)
{
    for (char & c : s)
        c = std::tolower((unsigned char)c);
    return s;
}

inline std::string as_man(Page const & p, Events const & es)
{
    auto & m = p.meta;
    std::string r;
    bool first = true;
    for (auto & e : es)
        switch (e.kind)
        {
        case 'H':
            r += ".TH " + upper(m.app_name) + " " + std::to_string(m.man_page_section) + " \"" + m.date + "\" \"" + lower(m.app_name) + " " + m.version + "\" \"" + m.man_page_title + "\"\n.SH NAME\n"
               + m.app_name + " \\- " + m.short_description + "\n";
            break;
        case 'S': r += ".SH " + upper(e.a) + "\n", first = true; break;
        case 's': r += ".SS " + e.a + "\n", first = true; break;
        case 'L': r += (first ? "" : e.paragraph ? ".sp\n" : ".br\n") + e.a + "\n", first = false; break;
        case 'I': r += ".TP\n" + e.a + "\n" + e.b + "\n", first = false; break;
        }
    return r;
}

inline std::string entity(char c)
{
    switch (c)
    {
    case '<': return "&lt;";
    case '>': return "&gt;";
    case '&': return "&amp;";
    case '"': return "&quot;";
    case '\'': return "&apos;";
    default: return std::string(1, c);
    }
}
inline std::string escaped(std::string const & s)
{
    std::string r;
    for (char c : s)
        r += entity(c);
    return r;
}
inline std::string html_text(std::string const & s)
{
    std::string r;
    strs open;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\\' || i + 1 == s.size())
            r += entity(s[i]);
        else if (s[i + 1] == '-')
            r += "-", ++i;
        else if (s[i + 1] == 'f' && i + 2 < s.size() && s[i + 2] == 'I')
            r += "<em>", open.push_back("</em>"), i += 2;
        else if (s[i + 1] == 'f' && i + 2 < s.size() && s[i + 2] == 'B')
            r += "<strong>", open.push_back("</strong>"), i += 2;
        else if (s[i + 1] == 'f' && i + 2 < s.size() && s[i + 2] == 'P')
        {
            if (!open.empty())
                r += open.back(), open.pop_back();
            i += 2;
        }
        else if (s[i + 1] == 'f' && i + 2 < s.size())
            r += "\\f" + entity(s[i + 2]), i += 2;
        else
            r += "\\" + entity(s[i + 1]), i += 1;
    }
    for (; !open.empty(); open.pop_back())
        r += open.back();
    return r;
}
inline std::string as_html(Page const & p, Events const & es)
{
    auto & m = p.meta;
    std::string r;
    bool dl = false, par = false;
    auto close = [&](bool list, bool para)
    {
        if (dl && list)
            r += "</dl>\n", dl = false;
        if (par && para)
            r += "</p>\n", par = false;
    };
    for (auto & e : es)
        switch (e.kind)
        {
        case 'H':
            r += "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" http://www.w3.org/TR/html4/strict.dtd\">\n<html lang=\"en\">\n<head>\n<meta http-equiv=\"content-type\" content=\"text/html; charset=utf-8\">\n<title>"
               + escaped(m.app_name) + " &mdash; " + escaped(m.short_description) + "</title>\n</head>\n<body>\n<h1>" + html_text(m.app_name) + "</h1>\n<div>" + html_text(m.short_description) + "</div>\n";
            break;
        case 'S': close(true, true), r += "<h2>" + html_text(e.a) + "</h2>\n"; break;
        case 's': close(true, true), r += "<h3>" + html_text(e.a) + "</h3>\n"; break;
        case 'L':
            close(true, false);
            if (!par)
                r += "<p>\n", par = true;
            r += html_text(e.a) + "\n";
            if (e.paragraph)
                close(false, true);
            else
                r += "<br>\n";
            break;
        case 'I':
            close(false, true);
            if (!dl)
                r += "<dl>\n", dl = true;
            r += "<dt>" + html_text(e.a) + "</dt>\n<dd>" + html_text(e.b) + "</dd>\n";
            break;
        case 'F': close(true, true), r += "</body></html>"; break;
        }
    return r;
}

// the printed characters of a text, font changes only on a terminal
inline std::string term_text(std::string const & s, bool tty, size_t * width = nullptr)
{
    std::string r;
    size_t w = 0;
    for (size_t i = 0; i < s.size(); ++i)
    {
        std::string put(1, s[i]);
        size_t skip = 0;
        bool font = false;
        if (s[i] == '\\' && i + 1 < s.size())
        {
            char c = s[i + 1], d = i + 2 < s.size() ? s[i + 2] : 0;
            if (c == '-')
                put = "-", skip = 1;
            else if (c == 'f' && (d == 'I' || d == 'B' || d == 'P'))
                put = tty ? (d == 'I' ? "\033[4m" : d == 'B' ? "\033[1m" : "\033[0m") : "", skip = 2, font = true;
            else if (c == 'f' && d)
                put = std::string{"\\f"} + d, skip = 2;
            else
                put += c, skip = 1;
        }
        r += put;
        w += font ? 0 : put.size();
        i += skip;
    }
    if (width)
        *width = w;
    return r;
}
inline std::string term_block(std::string const & s, size_t tab, size_t screen, bool tty)
{
    std::istringstream in{s};
    std::string r, w;
    size_t pos = tab, n = 0;
    while (in >> w)
    {
        size_t k;
        std::string t = term_text(w, tty, &k);
        if (!n++)
        {
            r += t;
            pos += k;
            if (pos > screen)
                r += "\n" + std::string(tab, ' '), pos = tab;
        }
        else if (pos + 1 + k > screen)
            r += "\n" + std::string(tab, ' ') + t, pos = tab + k;
        else
            r += " " + t, pos += 1 + k;
    }
    return n ? r + "\n" : r;
}
inline std::string as_term(Page const & p, Events const & es, bool tty, size_t cols)
{
    auto & m = p.meta;
    size_t screen = std::min<size_t>(std::max<size_t>(cols ? cols : 80, 40), 120) - 2;
    std::string r;
    bool after = false;
    auto strong = [&](std::string const & s)
    {
        return term_text("\\fB", tty) + s + term_text("\\fP", tty);
    };
    for (auto & e : es)
        switch (e.kind)
        {
        case 'H':
        {
            size_t a, b;
            term_text(m.app_name, tty, &a), term_text(m.short_description, tty, &b);
            r += m.app_name + (m.short_description.empty() ? "" : " - " + m.short_description) + "\n" + std::string(a + (m.short_description.empty() ? 0 : 3) + b, '=') + "\n";
            break;
        }
        case 'S': r += "\n" + strong(upper(e.a)) + "\n", after = false; break;
        case 's': r += "\n  " + strong(e.a) + "\n", after = false; break;
        case 'L': r += (after ? "\n" : "") + std::string(4, ' ') + term_block(e.a, 4, screen, tty), after = e.paragraph; break;
        case 'I':
            r += (after ? "\n" : "") + std::string(4, ' ') + term_text(e.a, tty);
            if (4 + e.a.size() + 2 > 10)
                r += "\n" + std::string(10, ' ');
            else
                r += std::string(10 - 4 - e.a.size(), ' ');
            r += term_block(e.b, 10, screen, tty), after = false;
            break;
        }
    return r;
}
inline Bold term_bold(bool tty)
{
    return [tty](std::string const & s)
    {
        return term_text("\\fB", tty) + s + term_text("\\fP", tty);
    };
}
inline std::string man_bold(std::string const & s)
{
    return "\\fB" + s + "\\fR";
}
inline std::string html_bold(std::string const & s)
{
    return "\\fB" + s + "\\fP";
}

// ------------------------------------------------------------------ generation
inline std::string some_text(size_t most = 12)
{
    static strs const parts{"a", "word", "longer_word_of_text", "\\fB", "\\fI", "\\fP", "\\-", "\\", "\\f", "\\fX", "<b>", "</p>", "&amp;", "\"", "'", ">", "-", "Default:", "x y", "\t", "\n", "\xc3\xa9", "."};
    std::string r;
    for (size_t n = rnd(most); n; --n)
        r += pick(parts) + (rnd(3) ? " " : "");
    return r;
}
inline strs some_texts()
{
    strs r;
    for (size_t n = rnd(3); n; --n)
        r.push_back(some_text());
    return r;
}
inline Page some_page(bool plain, size_t most = 7, bool repeats = true)
{
    Page p;
    auto text = [&]
    {
        return plain ? std::string{} : some_text();
    };
    auto & m = p.meta;
    m.app_name = pick(strs{"app", "App_1", "x", "my-tool"});
    m.version = pick(strs{"", "1.0.0", "2.3.4-rc.1"});
    m.man_page_title = rnd(2) ? text() : "";
    for (auto * s : {&m.short_description, &m.author, &m.email, &m.date, &m.url, &m.short_copyright, &m.long_copyright, &m.citation})
        *s = rnd(2) ? text() : "";
    if (plain && rnd(2))
        m.short_description = "short";
    m.man_page_section = rnd(9);
    if (!plain)
        m.description = some_texts(), m.synopsis = some_texts(), m.examples = some_texts();
    p.updates = rnd(2);
    bool sub = rnd(5) == 0;
    if (sub)
        p.commands = rnd(2) ? strs{"build"} : strs{"build", "add", "my-cmd"};
    size_t n = rnd(most + 1);
    bool list = false;
    for (size_t i = 0; i < n; ++i)
    {
        Decl d;
        d.kind = rnd(3) ? (int)rnd(3) : (int)rnd(7);
        if (d.kind == 2 && (sub || list))
            d.kind = 0;
        d.type = rnd(n_types);
        d.value = rnd(40);
        d.description = "E" + std::to_string(i) + "e" + (plain ? "" : " " + some_text());
        d.advanced = rnd(3) == 0;
        d.paragraph = rnd(2);
        if (d.kind < 2)
        {
            d.hidden = rnd(4) == 0;
            size_t which = rnd(3);
            if (which != 1)
                d.short_id = (char)("abcdefgijklm"[i]);
            if (which != 0)
                d.long_id = "opt" + std::string(rnd(2), '_') + std::to_string(i);
        }
        if (d.kind == 0)
        {
            d.required = rnd(3) == 0;
            if (!d.required && rnd(3) == 0)
                d.default_message = rnd(2) ? "some value" : "a \"b\" \\c";
        }
        if (d.kind == 6)
            d.long_id = pick(strs{"", "k", "key", "a longer key", "\\fBk\\fP", "\\-a"});
        if (d.kind == 0 || d.kind == 2)
            d.message = rnd(3) ? "" : rnd(2) ? "Value must be nice." : text();
        // texts that repeat each other
        if (repeats && (d.kind == 0 || d.kind == 2) && rnd(4) == 0)
            d.message = rnd(2) ? d.description : d.description.substr(rnd(d.description.size()));
        if (repeats && d.kind == 0 && !d.default_message.empty() && rnd(4) == 0)
            d.default_message = d.description;
        if (repeats && d.kind < 3 && rnd(6) == 0)
            d.description += rnd(2) ? " " + ids(d) : d.message;
        if (d.kind == 2)
        {
            d.advanced = d.hidden = false;
            list = d.type >= 6;
        }
        p.decls.push_back(d);
    }
    return p;
}
inline std::string tell(Page const & p)
{
    std::string r = "parser(" + show(p.meta.app_name) + ", subcommands " + show(p.commands) + ", " + (p.updates ? "updates" : "no updates") + ")";
    static char const * kinds[]{"option", "flag", "positional", "section", "subsection", "line", "item"};
    for (auto & d : p.decls)
    {
        r += std::string{" "} + kinds[d.kind] + "(";
        if (d.kind == 0 || d.kind == 2)
            r += "type " + std::to_string(d.type) + " value " + std::to_string(d.value) + " ";
        if (d.short_id)
            r += std::string{"-"} + d.short_id + " ";
        if (!d.long_id.empty())
            r += show(d.long_id) + " ";
        r += show(d.description);
        if (!d.default_message.empty())
            r += " default " + show(d.default_message);
        if (!d.message.empty())
            r += " validator " + show(d.message);
        r += std::string{d.advanced ? " advanced" : ""} + (d.hidden ? " hidden" : "") + (d.required ? " required" : "") + (d.kind == 5 && d.paragraph ? " paragraph" : "") + ")";
    }
    return r;
}
// where two texts differ
inline std::string differ(std::string const & is, std::string const & want)
{
    size_t i = 0;
    while (i < is.size() && i < want.size() && is[i] == want[i])
        ++i;
    size_t b = i < 30 ? 0 : i - 30;
    return "differs at " + std::to_string(i) + ": is ..." + show(is.substr(b, 90)) + " but must be ..." + show(want.substr(b, 90));
}
} // namespace vp
