// An independent left-to-right oracle of the documented command line syntax, and the code that runs the real parser on the
// same configuration and arguments.
#pragma once
#include "common.hpp"

namespace vp
{
enum Kind
{
    FLAG,
    SINGLE,
    LIST
};
struct Opt
{
    Kind kind;
    char s;
    std::string l;
    bool required{false};
    bool check{false};  // validator that rejects values containing "bad"
    bool preset{false}; // initial value(s) present
};
struct Pos
{
    bool list{false};
    bool check{false};
    bool preset{false}; // initial value(s) present (they are always replaced)
};
struct Cfg
{
    std::vector<Opt> opts;
    std::vector<Pos> pos;
};

struct Result
{
    std::set<std::string> errors; // empty: success.  Oracle: every admissible error.  Real code: the error
    std::string what;
    std::vector<strs> values;  // per option (flags: one entry "1"/"0")
    std::vector<strs> pvalues; // per positional
    std::vector<int> occurs;   // per option: how often; -1 unknown
    std::vector<int> vcalls, pvcalls;
    std::vector<int> set_s, set_l; // is_option_set: -1 not asked
    bool skip{false};
};

inline std::string show(Cfg const & c)
{
    std::string r;
    for (auto & o : c.opts)
        r += std::string{o.kind == FLAG ? "flag" : o.kind == SINGLE ? "option" : "list"} + "(" + (o.s ? std::string{"-"} + o.s : "")
           + (o.l.empty() ? "" : "/--" + o.l) + (o.required ? ",required" : "") + (o.check ? ",validated" : "")
           + (o.preset ? ",preset" : "") + ") ";
    for (auto & p : c.pos)
        r += std::string{"positional"} + (p.list ? "-list" : "") + (p.preset ? "(preset) " : " ");
    return r;
}
inline std::string show(Result const & r)
{
    if (!r.errors.empty())
    {
        std::string x{"error"};
        for (auto & e : r.errors)
            x += " " + e;
        return x + (r.what.empty() ? "" : " (" + r.what + ")");
    }
    std::string x{"values"};
    for (auto & v : r.values)
        x += " " + show(v);
    x += " positional";
    for (auto & v : r.pvalues)
        x += " " + show(v);
    return x;
}

inline strs initial(Opt const & o, size_t i)
{
    if (o.kind == FLAG)
        return {"0"};
    if (o.kind == SINGLE)
        return {o.preset ? "init" + std::to_string(i) : std::string{}};
    return o.preset ? strs{"init" + std::to_string(i), "second"} : strs{};
}

inline bool is_keyword(std::string const & a)
{
    return a == "-h" || a == "--help" || a == "-hh" || a == "--advanced-help" || a == "--version" || a == "--copyright"
        || a == "--version-check" || a.starts_with("--export-help");
}

inline Result oracle(Cfg const & c, strs const & args)
{
    Result r;
    size_t const n = c.opts.size();
    r.values.resize(n);
    r.occurs.assign(n, 0);
    r.vcalls.assign(n, 0);
    r.set_s.assign(n, -1);
    r.set_l.assign(n, -1);
    std::vector<strs> occ_s(n), occ_l(n);
    std::vector<int> by_s(n, 0), by_l(n, 0);
    strs rest;
    size_t E = 0;
    while (E < args.size() && args[E] != "--")
        ++E;
    auto is_id = [&](std::string const & v) // would v be taken for a declared option?
    {
        for (auto & o : c.opts)
        {
            if (o.kind == FLAG)
                continue;
            if (o.s && v.size() > 1 && v[0] == '-' && v[1] == o.s)
                return true;
            if (!o.l.empty() && (v == "--" + o.l || v.starts_with("--" + o.l + "=")))
                return true;
        }
        return false;
    };
    for (auto & a : args)
        if (a.empty())
            r.skip = true;
    bool took_value = false;
    for (size_t i = 0; i < E; ++i)
    {
        std::string const & a = args[i];
        auto value = [&](bool attached, std::string const & v, strs & into, int & cnt)
        {
            ++cnt;
            if (attached)
            {
                if (v.empty())
                    r.errors.insert("too_few_arguments");
                else
                    into.push_back(v);
            }
            else if (i + 1 < E)
            {
                ++i;
                took_value = true;
                if (is_id(args[i]))
                    r.skip = true;
                into.push_back(args[i]);
            }
            else
                r.errors.insert("too_few_arguments");
        };
        if (a == "-" || a.empty() || a[0] != '-')
        {
            rest.push_back(a);
            continue;
        }
        if (a[1] == '-')
        {
            std::string body = a.substr(2), name = body.substr(0, body.find('='));
            bool done = false;
            for (size_t k = 0; k < n && !done; ++k)
            {
                if (c.opts[k].l.empty())
                    continue;
                if (c.opts[k].kind == FLAG ? body == c.opts[k].l : name == c.opts[k].l)
                {
                    done = true;
                    if (c.opts[k].kind == FLAG)
                    {
                        if (by_s[k] + by_l[k])
                            r.errors.insert("unknown_option");
                        ++by_l[k];
                    }
                    else
                        value(name.size() != body.size(), name.size() != body.size() ? body.substr(name.size() + 1) : "", occ_l[k], by_l[k]);
                }
            }
            if (!done)
            {
                if (is_keyword(a))
                    r.skip = true;
                r.errors.insert("unknown_option");
            }
            continue;
        }
        bool done = false;
        for (size_t k = 0; k < n && !done; ++k)
            if (c.opts[k].s && c.opts[k].kind != FLAG && c.opts[k].s == a[1])
            {
                done = true;
                std::string v = a.substr(2);
                bool attached = !v.empty();
                if (attached && v[0] == '=')
                    v = v.substr(1);
                value(attached, v, occ_s[k], by_s[k]);
            }
        if (done)
            continue;
        if (is_keyword(a))
            r.skip = true;
        for (size_t j = 1; j < a.size(); ++j)
        {
            bool known = false;
            for (size_t k = 0; k < n; ++k)
                if (c.opts[k].kind == FLAG && c.opts[k].s && c.opts[k].s == a[j])
                {
                    known = true;
                    if (by_s[k] + by_l[k])
                        r.errors.insert("unknown_option");
                    ++by_s[k];
                }
            if (!known)
                r.errors.insert("unknown_option");
        }
    }
    for (size_t i = E + 1; i < args.size(); ++i)
        rest.push_back(args[i]);
    if (args.empty())
        r.skip = true; // short help
    for (size_t k = 0; k < n; ++k)
    {
        Opt const & o = c.opts[k];
        r.occurs[k] = by_s[k] + by_l[k];
        r.set_s[k] = o.s ? by_s[k] > 0 : -1;
        r.set_l[k] = !o.l.empty() ? by_l[k] > 0 : -1;
        if (o.kind == FLAG)
        {
            r.values[k] = {r.occurs[k] ? "1" : "0"};
            continue;
        }
        if (o.kind == SINGLE && r.occurs[k] > 1)
            r.errors.insert("option_declared_multiple_times");
        strs got = occ_s[k];
        got.insert(got.end(), occ_l[k].begin(), occ_l[k].end());
        if (r.occurs[k] == 0)
        {
            if (o.required)
                r.errors.insert("required_option_missing");
            r.values[k] = initial(o, k);
        }
        else
        {
            r.values[k] = got;
            r.vcalls[k] = 1;
            if (o.check)
                for (auto & v : got)
                    if (v.find("bad") != std::string::npos)
                        r.errors.insert("validation_error");
        }
    }
    size_t p = 0;
    r.pvalues.resize(c.pos.size());
    r.pvcalls.assign(c.pos.size(), 1);
    for (size_t k = 0; k < c.pos.size(); ++k)
    {
        if (p == rest.size())
            r.errors.insert("too_few_arguments");
        else
            do
                r.pvalues[k].push_back(rest[p++]);
            while (c.pos[k].list && p < rest.size());
        if (c.pos[k].check)
            for (auto & v : r.pvalues[k])
                if (v.find("bad") != std::string::npos)
                    r.errors.insert("validation_error");
    }
    if (p < rest.size())
        r.errors.insert("too_many_arguments");
    return r;
}

struct checking_validator
{
    using option_value_type = std::string;
    int * calls{};
    bool check{};
    void one(std::string const & v) const
    {
        if (check && v.find("bad") != std::string::npos)
            throw std::runtime_error{"rejected by the test validator"};
    }
    void operator()(std::string const & v) const
    {
        ++*calls;
        one(v);
    }
    void operator()(std::vector<std::string> const & vs) const
    {
        ++*calls;
        for (auto & v : vs)
            one(v);
    }
    std::string get_help_page_message() const
    {
        return "";
    }
};

inline Result real(Cfg const & c, strs const & args)
{
    Result r;
    size_t const n = c.opts.size();
    r.vcalls.assign(n, 0);
    r.pvcalls.assign(c.pos.size(), 0);
    std::deque<std::string> singles(n), psingles(c.pos.size());
    std::deque<bool> flags(n);
    std::deque<strs> lists(n), plists(c.pos.size());
    strs argv{"app"};
    argv.insert(argv.end(), args.begin(), args.end());
    capture cap;
    sharg::parser parser{"app", argv, sharg::update_notifications::off};
    parser.info.version = "1.0.0";
    for (size_t k = 0; k < n; ++k)
    {
        Opt const & o = c.opts[k];
        if (o.kind == FLAG)
            parser.add_flag(flags[k], sharg::config{.short_id = o.s, .long_id = o.l});
        else if (o.kind == SINGLE)
        {
            singles[k] = initial(o, k)[0];
            parser.add_option(singles[k],
                              sharg::config{.short_id = o.s, .long_id = o.l, .required = o.required,
                                            .validator = checking_validator{&r.vcalls[k], o.check}});
        }
        else
        {
            lists[k] = initial(o, k);
            parser.add_option(lists[k],
                              sharg::config{.short_id = o.s, .long_id = o.l, .required = o.required,
                                            .validator = checking_validator{&r.vcalls[k], o.check}});
        }
    }
    for (size_t k = 0; k < c.pos.size(); ++k)
    {
        if (c.pos[k].preset)
            plists[k] = {"init", "second"}, psingles[k] = "init";
        if (c.pos[k].list)
            parser.add_positional_option(plists[k], sharg::config{.validator = checking_validator{&r.pvcalls[k], c.pos[k].check}});
        else
            parser.add_positional_option(psingles[k], sharg::config{.validator = checking_validator{&r.pvcalls[k], c.pos[k].check}});
    }
    Threw t = outcome([&] { parser.parse(); });
    if (!t.type.empty())
    {
        r.errors.insert(t.type);
        r.what = t.what;
    }
    for (size_t k = 0; k < n; ++k)
        r.values.push_back(c.opts[k].kind == FLAG ? strs{flags[k] ? "1" : "0"} : c.opts[k].kind == SINGLE ? strs{singles[k]} : lists[k]);
    for (size_t k = 0; k < c.pos.size(); ++k)
        r.pvalues.push_back(c.pos[k].list ? plists[k] : strs{psingles[k]});
    r.set_s.assign(n, -1);
    r.set_l.assign(n, -1);
    if (t.type.empty())
        for (size_t k = 0; k < n; ++k)
        {
            if (c.opts[k].s)
                r.set_s[k] = parser.is_option_set(c.opts[k].s);
            if (!c.opts[k].l.empty())
                r.set_l[k] = parser.is_option_set(c.opts[k].l);
        }
    return r;
}

// what a property is about
struct Judge
{
    std::set<std::string> errors; // error classes of this property
    bool singles{}, lists{}, flags{}, positionals{}, vcalls{}, pvcalls{};
};

inline bool related(std::set<std::string> const & a, std::set<std::string> const & b)
{
    return std::ranges::any_of(a, [&](auto & x) { return b.contains(x); });
}

inline void judge(Judge const & j, Cfg const & c, strs const & args)
{
    Result e = oracle(c, args);
    if (e.skip)
        return;
    std::string const id = show(c) + " <- " + show(args);
    current(id);
    Result r = real(c, args);
    ran(args.size() > 1);
    sample(id + " => " + show(r));
    auto bad = [&](std::string const & why)
    {
        fail(why + ": " + id + " expected " + show(e) + ", got " + show(r));
    };
    if (e.errors.empty() && r.errors.empty())
    {
        for (size_t k = 0; k < c.opts.size(); ++k)
        {
            bool const on = c.opts[k].kind == FLAG ? j.flags : c.opts[k].kind == SINGLE ? j.singles : j.lists;
            if (on && e.values[k] != r.values[k])
                return bad("wrong value");
            if (j.vcalls && c.opts[k].kind != FLAG && e.vcalls[k] != r.vcalls[k])
                return bad("validator calls");
        }
        if (j.positionals && e.pvalues != r.pvalues)
            return bad("wrong positional value");
        if (j.pvcalls && e.pvcalls != r.pvcalls)
            return bad("validator calls of positional options");
    }
    else if (r.errors.empty())
    {
        if (related(e.errors, j.errors))
            bad("not rejected");
    }
    else if (e.errors.empty())
    {
        if (related(r.errors, j.errors))
            bad("rejected");
    }
    else if (!e.errors.contains(*r.errors.begin()))
    {
        if (related(r.errors, j.errors) || related(e.errors, j.errors))
            bad("other error");
    }
}

// all sequences over the alphabet up to length n, then random ones (with mutated words) until the time is over
inline void explore(Judge const & j, std::vector<Cfg> const & cfgs, strs const & alphabet, size_t n, double quick = 20, double thorough = 240)
{
    for (size_t len = 1; len <= n; ++len)
        for (auto & c : cfgs)
        {
            std::vector<size_t> ix(len, 0);
            while (true)
            {
                if (mine())
                {
                    strs a;
                    for (size_t i : ix)
                        a.push_back(alphabet[i]);
                    judge(j, c, a);
                    if (!time_left(quick * 0.7, thorough * 0.7))
                        goto randomly;
                }
                size_t p = 0;
                while (p < len && ++ix[p] == alphabet.size())
                    ix[p++] = 0;
                if (p == len)
                    break;
            }
        }
randomly:
    static std::string const extra = "-=abkvK x-";
    size_t const cases = env.thorough ? 400000 : 3000;
    for (size_t i = 0; i < cases && time_left(quick, thorough); ++i)
    {
        Cfg const & c = pick(cfgs);
        strs a;
        for (size_t k = 1 + rnd(7); k; --k)
        {
            std::string w = pick(alphabet);
            while (rnd(3) == 0)
            {
                size_t p = rnd(w.size() + 1);
                if (rnd(2))
                    w.insert(p, 1, extra[rnd(extra.size())]);
                else if (p < w.size())
                    w.erase(p, 1);
            }
            if (!w.empty())
                a.push_back(w);
        }
        if (!a.empty())
            judge(j, c, a);
    }
}
} // namespace vp
