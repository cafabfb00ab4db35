// Subcommands split the command line exactly once.
#include "split_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 4 over 14 words for 5 subcommand lists, then random longer ones; all subcommand lists up to length 4 over 5 names in up to 3 registrations");
    strs words{"sub", "su", "subx", "SUB", "-k", "--key", "--key=sub", "-ksub", "-f", "--", "", "b", "-l", "--help"};
    std::vector<SplitCfg> cfgs{{.subs = {"sub"}}, {.subs = {"subx", "sub", "b"}}, {.list = true, .subs = {"b", "su", "b"}}, {.opt = false, .flag = false, .subs = {"sub", "b"}}, {}};
    for (size_t len = 0; len <= (env.thorough ? 4 : 3); ++len)
    {
        std::vector<size_t> ix(len, 0);
        for (bool more = true; more;)
        {
            strs a;
            for (size_t i : ix)
                a.push_back(words[i]);
            for (auto & c : cfgs)
                if (mine() && time_left(30, 200))
                    judge_split(a, c, false, true);
            size_t q = 0;
            while (q < len && ++ix[q] == words.size())
                ix[q++] = 0;
            more = q < len;
        }
    }
    while (time_left(10, 100))
    {
        strs a;
        for (size_t n = 2 + rnd(8); n; --n)
            a.push_back(pick(words));
        judge_split(a, pick(cfgs), false, true);
    }
    // registration
    strs names{"b", "a", "ab", "B", "a-1"};
    while (time_left(15, 120))
    {
        std::vector<strs> groups(1 + rnd(3));
        std::set<std::string> all;
        std::string txt{"registered"};
        for (auto & g : groups)
        {
            for (size_t n = rnd(5); n; --n)
                all.insert(g.emplace_back(pick(names)));
            txt += " " + show(g);
        }
        current(txt);
        sharg::parser p{"app", {"app"}, sharg::update_notifications::off, groups[0]};
        for (size_t i = 1; i < groups.size(); ++i)
            p.add_subcommands(groups[i]);
        ran();
        expect(acc::subcommands(p) == strs(all.begin(), all.end()), txt + ": subcommands are " + show(acc::subcommands(p)));
    }
    return finish();
}
