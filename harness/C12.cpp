// is_option_set reflects the command line.
#include "common.hpp"
using namespace vp;

// what is forwarded to option parsing: everything but the built-in keywords before --; here no keyword is used
static bool spelled_short(std::string const & a, char s, bool)
{
    return a.size() >= 2 && a[0] == '-' && a[1] == s;
}
static bool spelled_long(std::string const & a, std::string const & l)
{
    std::string const d{"--" + l};
    return a.compare(0, d.size(), d) == 0 && (a.size() == d.size() || a[d.size()] == '=');
}

static void judge(strs const & args, bool presets, bool as_list)
{
    std::string txt{show(args) + (presets ? " with defaults" : "")};
    current(txt);
    capture cap;
    strs all{args};
    all.insert(all.begin(), "app");
    sharg::parser p{"app", all, sharg::update_notifications::off};
    std::string k{presets ? "pre" : ""}, n{presets ? "n" : ""};
    strs lk{presets ? strs{"p", "q"} : strs{}}, rest;
    bool f{}, g{};
    if (as_list)
        p.add_option(lk, sharg::config{.short_id = 'k', .long_id = "key"});
    else
        p.add_option(k, sharg::config{.short_id = 'k', .long_id = "key", .default_message = presets ? "message" : ""});
    p.add_option(n, sharg::config{.short_id = 'n'});
    p.add_option(n, sharg::config{.long_id = "keys"});
    p.add_flag(f, sharg::config{.short_id = 'f', .long_id = "flag"});
    p.add_flag(g, sharg::config{.short_id = 'g'});
    p.add_positional_option(rest, sharg::config{});
    Threw t = outcome([&] { p.parse(); });
    ran();
    sample(txt);
    // as documented: before the first --
    auto set_s = [&](char s)
    {
        for (auto & a : args)
        {
            if (a == "--")
                break;
            if (spelled_short(a, s, false))
                return true;
        }
        return false;
    };
    auto set_l = [&](std::string const & l)
    {
        for (auto & a : args)
        {
            if (a == "--")
                break;
            if (spelled_long(a, l))
                return true;
        }
        return false;
    };
    if (t.type == "exit")
        return;
    for (char s : {'k', 'n', 'f', 'g'})
    {
        bool r{};
        Threw q = outcome([&] { r = p.is_option_set(s); });
        if (!q.type.empty() || r != set_s(s))
            fail(txt + ": is_option_set('" + s + "') gives " + (q.type.empty() ? show(r) : q.type) + " after '" + t.type + "'");
    }
    for (std::string l : {"key", "keys", "flag"})
    {
        bool r{}, r2{};
        Threw q = outcome([&] { r = p.is_option_set(l), r2 = p.is_option_set(l.c_str()); });
        if (!q.type.empty() || r != set_l(l) || r2 != r)
            fail(txt + ": is_option_set(\"" + l + "\") gives " + (q.type.empty() ? show(r) : q.type) + " after '" + t.type + "'");
    }
    for (std::string l : {"k", "n", "f", "z", "", "ke", "keyss", "KEY", "-k", "--key", "key="})
        if (Threw q = outcome([&] { p.is_option_set(l); }); q.type != "design_error")
            fail(txt + ": is_option_set(text \"" + l + "\") gives '" + q.type + "' but must be a design error");
    for (char s : {'z', 'K', 'e', '-', '\0'})
        if (Threw q = outcome([&] { p.is_option_set(s); }); q.type != "design_error")
            fail(txt + ": is_option_set(char " + show(std::string(1, s)) + ") gives '" + q.type + "' but must be a design error");
}

int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 20 words for options with and without defaults, single and list");
    strs words{"-k", "-kv", "-k=v", "--key", "--key=v", "--keys", "--keys=v", "--keyx", "-n", "-nk", "v", "-", "--", "--flag", "-f", "-fg", "-gf", "-K", "--KEY=v", "---key"};
    size_t const depth = 3;
    for (size_t len = 0; len <= depth; ++len)
    {
        std::vector<size_t> ix(len, 0);
        for (bool more = true; more;)
        {
            strs a;
            for (size_t i : ix)
                a.push_back(words[i]);
            for (int m = 0; m < 4; ++m)
                if (mine() && time_left(30, 200))
                    judge(a, m & 1, m & 2);
            size_t q = 0;
            while (q < len && ++ix[q] == words.size())
                ix[q++] = 0;
            more = q < len;
        }
    }
    while (time_left(8, 100))
    {
        strs a;
        for (size_t n = rnd(9); n; --n)
            a.push_back(pick(words));
        judge(a, rnd(2), rnd(2));
    }
    return finish();
}
