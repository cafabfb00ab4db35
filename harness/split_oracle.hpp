// Oracle for what happens to the command line before options are parsed, and access to the parser's state.
#pragma once
#include "common.hpp"

namespace sharg::detail
{
struct test_accessor
{
    static int page(parser const & p) { return (int)p.format.index(); }
    static bool advanced(parser const & p)
    {
        auto * f = std::get_if<format_help>(&p.format);
        return f && f->show_advanced_options;
    }
    static std::vector<std::string> const & forwarded(parser const & p) { return p.format_arguments; }
    static std::vector<std::string> const & arguments(parser const & p) { return p.arguments; }
    static std::vector<std::string> const & subcommands(parser const & p) { return p.subcommands; }
    static std::optional<bool> const & decision(parser const & p) { return p.version_check_user_decision; }
    static parser * sub(parser & p) { return p.sub_parser.get(); }
    static bool notifies(parser const & p) { return p.version_check_dev_decision == update_notifications::on; }
};
} // namespace sharg::detail

namespace vp
{
using acc = sharg::detail::test_accessor;
enum Page
{
    PARSE,
    HELP,
    SHORT,
    VERSION,
    HTML,
    MAN,
    TDL,
    COPYRIGHT,
    ADVANCED
};

struct Split
{
    std::string error; // exception type, or empty
    int page{SHORT};
    strs forwarded;
    int decision{-1};
    int sub{-1}; // index of the subcommand
};

// valued: identifiers of the declared options, with dashes
inline Split split(strs const & args, std::set<std::string> const & valued, std::set<std::string> const & subs)
{
    Split r;
    size_t i = 1;
    for (; i < args.size(); ++i)
    {
        std::string const & a = args[i];
        if (valued.count(a))
        {
            r.forwarded.push_back(a);
            if (i + 1 >= args.size())
                break;
            if (args[i + 1] == "--" && subs.empty())
                continue; // the terminator is never a value
            r.forwarded.push_back(args[++i]);
            continue;
        }
        if (a == "--" && subs.empty())
        {
            r.forwarded.insert(r.forwarded.end(), args.begin() + i, args.end());
            break;
        }
        if (subs.count(a))
        {
            r.sub = (int)i;
            break;
        }
        if (!subs.empty() && (a.empty() || a[0] != '-'))
            return {.error = "user_input_error"};
        if (a == "-h" || a == "--help")
            r.page = HELP;
        else if (a == "-hh" || a == "--advanced-help")
            r.page = ADVANCED;
        else if (a == "--version")
            r.page = VERSION;
        else if (a == "--copyright")
            r.page = COPYRIGHT;
        else if (a == "--export-help" || a.rfind("--export-help=", 0) == 0)
        {
            std::string v;
            if (a == "--export-help")
            {
                if (++i >= args.size())
                    return {.error = "too_few_arguments"};
                v = args[i];
            }
            else
                v = a.substr(14);
            if (v == "html")
                r.page = HTML;
            else if (v == "man")
                r.page = MAN;
            else
                return {.error = "validation_error"};
        }
        else if (a == "--version-check")
        {
            if (++i >= args.size())
                return {.error = "too_few_arguments"};
            if (args[i] == "1" || args[i] == "true")
                r.decision = 1;
            else if (args[i] == "0" || args[i] == "false")
                r.decision = 0;
            else
                return {.error = "validation_error"};
        }
        else
            r.forwarded.push_back(a);
    }
    if (r.page == SHORT && (!r.forwarded.empty() || r.sub >= 0))
        r.page = PARSE;
    return r;
}

struct SplitCfg
{
    bool opt{true}, list{false}, flag{true};
    strs subs;
    std::string app{"app"};
};

inline void judge_split(strs args, SplitCfg const & c, bool pages, bool subs)
{
    args.insert(args.begin(), "./app");
    std::string txt{show(args)};
    if (!c.subs.empty())
        txt += " with subcommands " + show(c.subs);
    current(txt);
    capture cap;
    sharg::parser p{c.app, args, sharg::update_notifications::on, c.subs};
    std::string k;
    strs l;
    bool f{};
    std::set<std::string> valued;
    if (c.opt)
        p.add_option(k, sharg::config{.short_id = 'k', .long_id = "key"}), valued.insert({"-k", "--key"});
    if (c.list)
        p.add_option(l, sharg::config{.short_id = 'l', .long_id = "li"}), valued.insert({"-l", "--li"});
    if (c.flag)
        p.add_flag(f, sharg::config{.short_id = 'f', .long_id = "flag"});
    Split const w = split(args, valued, {c.subs.begin(), c.subs.end()});
    Threw t = outcome([&] { p.parse(); });
    ran();
    sample(txt);
    if (!w.error.empty())
    {
        if (t.type != w.error && (pages || w.error == "user_input_error" || t.type == "user_input_error"))
            fail(txt + ": has to be rejected as " + w.error + " but gives '" + t.type + "' " + t.what);
        if (subs && w.error == "user_input_error" && t.type == w.error)
            for (auto & s : c.subs)
                if (t.what.find(s) == std::string::npos)
                    fail(txt + ": the error does not list subcommand " + s + ": " + t.what);
        return;
    }
    bool const stopped = t.type == "user_input_error" || (acc::forwarded(p).empty() && !w.forwarded.empty());
    if (pages)
    {
        int pg = acc::page(p) == HELP && acc::advanced(p) ? (int)ADVANCED : acc::page(p);
        if (stopped || pg != w.page)
            fail(txt + ": page " + std::to_string(pg) + " selected, expected " + std::to_string(w.page) + " '" + t.type + "' " + t.what);
        if (acc::forwarded(p) != w.forwarded)
            fail(txt + ": forwarded " + show(acc::forwarded(p)) + " expected " + show(w.forwarded));
        if ((acc::decision(p) ? (int)*acc::decision(p) : -1) != w.decision)
            fail(txt + ": update check switch differs");
        if (w.page != PARSE && t.type != "exit")
            fail(txt + ": a page is shown but parse() gives '" + t.type + "' " + t.what);
        if (w.page == PARSE && t.type == "exit")
            fail(txt + ": parse() exits although no page was asked for");
        std::string const & out = cap.o.str();
        auto has = [&](char const * x) { return out.find(x) != std::string::npos; };
        bool ok = w.page == HTML ? has("<html") : w.page == MAN ? has(".TH APP") : w.page == PARSE ? out.empty() : w.page == COPYRIGHT ? has("LICENSE") || has("Copyright") || has("opyright") : has("app");
        if (!ok)
            fail(txt + ": page " + std::to_string(w.page) + " prints something else: " + out.substr(0, 200));
    }
    if (subs && !stopped)
    {
        sharg::parser * s = acc::sub(p);
        if ((s != nullptr) != (w.sub >= 0))
            return fail(txt + (s ? ": there is a sub-parser but no subcommand" : ": there is no sub-parser"));
        if (acc::forwarded(p) != w.forwarded)
            fail(txt + ": the top-level parser gets " + show(acc::forwarded(p)) + " expected " + show(w.forwarded));
        if (s)
        {
            strs rest(args.begin() + w.sub, args.end());
            expect(acc::arguments(*s) == rest, txt + ": the sub-parser gets " + show(acc::arguments(*s)));
            expect(s->info.app_name == c.app + "-" + args[w.sub], txt + ": the sub-parser is named " + s->info.app_name);
            expect(!acc::notifies(*s), txt + ": the sub-parser notifies");
            expect(outcome([&] { if (&p.get_sub_parser() != s) throw 1; }).type.empty(), txt + ": get_sub_parser()");
        }
    }
    if (subs && stopped)
        fail(txt + ": rejected with '" + t.type + "' " + t.what);
}
} // namespace vp
