// Flags: grouping, removal and stickiness.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 22 words for 6 configurations; all groups of up to 5 characters over {a,b,c,-,x}; random mutations");
    Judge j{.errors = {"unknown_option"}, .flags = true, .positionals = true};
    std::vector<Cfg> cfgs{
        {{{FLAG, 'a', "aa"}, {FLAG, 'b', ""}, {FLAG, '\0', "ab"}}, {{true}}},
        {{{FLAG, 'a', ""}, {FLAG, 'b', ""}, {FLAG, 'c', ""}}, {{true}}},
        {{{FLAG, '\0', "aa"}, {FLAG, '\0', "ab"}, {FLAG, 'c', "ba"}}, {{true}}},
        {{{FLAG, 'b', "ab"}, {SINGLE, 'k', "key"}, {FLAG, 'a', "ka"}}, {{true}}},
        {{{FLAG, 'b', "aa"}, {LIST, 'c', "key"}, {FLAG, 'a', ""}}, {}},
        {{{FLAG, 'c', "ca"}, {FLAG, 'b', "ba"}, {FLAG, 'a', "aa"}}, {{false}, {true}}},
    };
    // a flag that was already true stays true; parsing twice the same variable
    for (char const * arg : {"-b", "x", "--", "-c", "--bb"})
        for (bool init_value : {false})
            if (mine())
            {
                bool a{init_value};
                capture cap;
                sharg::parser p{"app", {"app", "-a", arg}, sharg::update_notifications::off};
                bool b{}, c{};
                std::vector<std::string> rest;
                p.add_flag(a, sharg::config{.short_id = 'a'});
                p.add_flag(b, sharg::config{.short_id = 'b', .long_id = "bb"});
                p.add_flag(c, sharg::config{.short_id = 'c'});
                b = true; // set behind the parser's back before parsing: sticky
                p.add_positional_option(rest, sharg::config{});
                Threw t = outcome([&] { p.parse(); });
                ran();
                if (t.type != "too_few_arguments" && t.type != "")
                    fail(std::string{"flag -a and "} + arg + ": " + t.type);
                if (!a || !b || c != (std::string{"-c"} == arg))
                    fail(std::string{"a flag that was true became false, or a set flag is not true: "} + arg);
            }
    std::string const chars{"abc-x"};
    size_t const groups = env.thorough ? 5 : 4;
    for (size_t len = 1; len <= groups; ++len)
    {
        std::vector<size_t> ix(len, 0);
        for (bool more = true; more;)
        {
            std::string g{"-"};
            for (size_t i : ix)
                g += chars[i];
            for (auto & c : cfgs)
                if (mine() && time_left(25, 150))
                    judge(j, c, {"p", g, "q"});
            size_t p = 0;
            while (p < len && ++ix[p] == chars.size())
                ix[p++] = 0;
            more = p < len;
        }
    }
    strs alphabet{"-a", "-b", "-c", "-ab", "-ba", "-abc", "-acb", "--aa", "--ab", "--a", "--ba", "--aab", "-aa", "-a-", "-b-", "--ca", "-", "--", "a", "b", "-k", "-x"};
    explore(j, cfgs, alphabet, env.thorough ? 4 : 2, 40, 300);
    return finish();
}
