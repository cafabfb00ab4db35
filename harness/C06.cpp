// Nothing on the command line is silently ignored.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 22 words for 6 configurations, then random ones");
    Judge j{.errors = {"unknown_option", "too_many_arguments", "too_few_arguments"}};
    std::vector<Cfg> cfgs{
        {{{FLAG, 'a', "all"}, {SINGLE, 'k', "key"}}, {}},
        {{{FLAG, 'a', "all"}, {SINGLE, 'k', "key"}}, {{false}}},
        {{{FLAG, 'a', ""}, {LIST, 'k', "key"}}, {{false}, {false}}},
        {{{LIST, 'k', ""}, {FLAG, '\0', "all"}}, {{false}, {true}}},
        {{}, {{false}, {false}}},
        {{{FLAG, 'a', ""}, {FLAG, 'b', ""}}, {{true}}},
    };
    strs alphabet{"-a", "-b", "-ab", "-aa", "-k", "-kv", "--key", "--key=v", "--all", "--all=1", "--allx", "--", "-", "v", "w", "-x", "-ax", "--x", "---", "-a-", "=", "-="};
    explore(j, cfgs, alphabet, env.thorough ? 4 : 3, 45, 300);
    return finish();
}
