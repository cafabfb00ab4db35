// Ill-formed declarations are rejected at registration.
#include "common.hpp"
using namespace vp;

static std::set<std::string> const builtin{"h", "hh", "help", "advanced-help", "export-help", "version", "version-check", "copyright"};

static bool alnum(char c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
}
static bool bad_ids(char s, std::string const & l, std::set<std::string> const & used)
{
    if (!s && l.empty())
        return true;
    if (s && !(alnum(s) || s == '_' || s == '@'))
        return true;
    if (s && used.count(std::string(1, s)))
        return true;
    if (l.size() == 1 || (!l.empty() && l[0] == '-'))
        return true;
    for (char c : l)
        if (!(alnum(c) || c == '_' || c == '-' || c == '@'))
            return true;
    return used.count(l) > 0;
}

struct Decl
{
    int kind; // 0 option 1 list option 2 flag 3 positional 4 positional list
    char s{};
    std::string l{};
    bool advanced{}, hidden{}, required{}, preset{};
    std::string dm{};
};
static std::string show(Decl const & d)
{
    char const * n[]{"option", "list option", "flag", "positional", "positional list"};
    return std::string{n[d.kind]} + " short " + vp::show(std::string(d.s ? 1 : 0, d.s)) + " long " + vp::show(d.l) + (d.advanced ? " advanced" : "") + (d.hidden ? " hidden" : "")
         + (d.required ? " required" : "") + (d.preset ? " value true" : "") + (d.dm.empty() ? "" : " with a default message");
}

struct State
{
    std::set<std::string> used{builtin};
    bool list{false}, sub{false};
    bool bad(Decl const & d)
    {
        if (d.kind >= 3)
            return d.s || !d.l.empty() || d.advanced || d.hidden || sub || list || !d.dm.empty();
        if (bad_ids(d.s, d.l, used))
            return true;
        if (d.kind == 2)
            return !d.dm.empty() || d.preset;
        return d.required && !d.dm.empty();
    }
    void add(Decl const & d)
    {
        if (d.kind == 4)
            list = true;
        if (d.kind >= 3)
            return;
        if (d.s)
            used.insert(std::string(1, d.s));
        if (!d.l.empty())
            used.insert(d.l);
    }
};

static void declare(sharg::parser & p, Decl const & d, std::deque<int> & i, std::deque<std::vector<int>> & v, std::deque<bool> & b)
{
    sharg::config<> c{.short_id = d.s, .long_id = d.l, .description = "d", .default_message = d.dm, .advanced = d.advanced, .hidden = d.hidden, .required = d.required};
    switch (d.kind)
    {
    case 0: p.add_option(i.emplace_back(), c); break;
    case 1: p.add_option(v.emplace_back(), c); break;
    case 2: p.add_flag(b.emplace_back(d.preset), c); break;
    case 3: p.add_positional_option(i.emplace_back(), c); break;
    default: p.add_positional_option(v.emplace_back(), c);
    }
}

// declares one after the other until the first rejection
static void judge(std::vector<Decl> const & ds, bool sub)
{
    std::string txt{sub ? "with subcommands: " : ""};
    for (auto & d : ds)
        txt += show(d) + "; ";
    current(txt);
    sharg::parser p{"app", {"app", "x"}, sharg::update_notifications::off, sub ? strs{"x", "y"} : strs{}};
    State st;
    st.sub = sub;
    std::deque<int> i;
    std::deque<std::vector<int>> v;
    std::deque<bool> b;
    for (auto & d : ds)
    {
        bool const bad = st.bad(d);
        Threw t = outcome([&] { declare(p, d, i, v, b); });
        if (t.type != (bad ? "design_error" : ""))
        {
            fail(txt + "[" + show(d) + "] " + (bad ? "has to be rejected with a design error" : "is well-formed") + " but gives '" + t.type + " " + t.what + "'");
            break;
        }
        if (bad)
            break;
        st.add(d);
    }
    ran();
    sample(txt);
}

int main(int argc, char ** argv)
{
    init(argc, argv, "all 255 short identifiers; all long identifiers up to length 3 over 12 characters and all built-in keywords and their neighbours, on all 5 kinds; all combinations of settings; sequences of up to 4 declarations; with and without subcommands");
    for (int k = 0; k < 5; ++k)
        for (int c = 0; c < 256; ++c)
            for (char const * l : {"", "long"})
                if (mine())
                    judge({{.kind = k, .s = (char)c, .l = l}}, false);
    std::string const chars{std::string{"aZ9_-@.+ =\xe4"} + '\x01'};
    for (size_t len = 1; len <= 3; ++len)
    {
        std::vector<size_t> ix(len, 0);
        for (bool more = true; more;)
        {
            std::string l;
            for (size_t i : ix)
                l += chars[i];
            for (int k : {0, 2})
                for (char s : {'\0', 'k'})
                    if (mine())
                        judge({{.kind = k, .s = s, .l = l}}, false);
            size_t p = 0;
            while (p < len && ++ix[p] == chars.size())
                ix[p++] = 0;
            more = p < len;
        }
    }
    for (auto & w : builtin)
        for (std::string l : {w, w + "x", w.substr(0, w.size() - 1), "a" + w, w.substr(1)})
            for (int k : {0, 1, 2})
                if (mine())
                    judge({{.kind = k, .s = 'k', .l = l}}, false);
    // valid everywhere but at one position
    for (size_t len : {2, 7, 40})
        for (size_t at = 0; at < len; ++at)
            for (int c = 1; c < 256; ++c)
                if (mine())
                {
                    std::string l(len, 'q');
                    l[at] = (char)c;
                    judge({{.kind = c % 3, .s = 'k', .l = l}}, c % 2);
                }
    for (int m = 0; m < 64; ++m)
        for (int k = 0; k < 5; ++k)
            for (int ids = 0; ids < 4; ++ids)
                if (mine())
                    judge({{.kind = k, .s = ids & 1 ? 'k' : '\0', .l = ids & 2 ? "key" : "", .advanced = (m & 1) > 0, .hidden = (m & 2) > 0, .required = (m & 4) > 0, .preset = (m & 8) > 0, .dm = m & 16 ? "none" : ""}}, (m & 32) > 0);
    // sequences
    std::vector<char> sh{'\0', '\0', 'a', 'b', 'h', 'A'};
    strs lo{"", "", "aa", "ab", "aaa", "help", "hh", "b-", "AA"};
    while (time_left(20, 200))
    {
        std::vector<Decl> ds;
        for (size_t n = 2 + rnd(3); n; --n)
        {
            int k = rnd(5);
            Decl d{.kind = k};
            if (k < 3 || !rnd(8))
                d.s = pick(sh), d.l = pick(lo);
            if (!rnd(12))
                d.advanced = true;
            if (!rnd(12))
                d.hidden = true;
            if (!rnd(8))
                d.required = true;
            if (!rnd(12))
                d.dm = "x";
            if (!rnd(12))
                d.preset = true;
            ds.push_back(d);
        }
        judge(ds, !rnd(4));
    }
    return finish();
}
