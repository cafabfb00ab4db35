// Identifiers are matched exactly.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 25 near-miss spellings for 6 configurations, then random vectors with mutated words");
    Judge j{.errors = {"unknown_option"}, .singles = true, .lists = true, .flags = true};
    std::vector<Cfg> cfgs{
        {{{SINGLE, 'k', "key"}, {SINGLE, 'K', "keys"}, {LIST, 'l', "ke"}}, {{true}}},
        {{{LIST, 'k', "key"}, {FLAG, 'a', "keyx"}, {SINGLE, '_', "Key"}}, {{true}}},
        {{{SINGLE, '\0', "key"}, {SINGLE, 'e', ""}, {FLAG, '\0', "k-ey"}}, {{true}}},
        {{{SINGLE, 'k', ""}, {LIST, '\0', "ey"}, {FLAG, 'y', ""}}, {{true}}},
        {{{LIST, '@', "a-key"}, {LIST, '\0', "key-a"}, {LIST, 'x', "x_"}}, {{true}}},
        {{{LIST, '\0', "key"}, {LIST, 'k', ""}}, {}},
    };
    strs alphabet{"-k", "-K", "-kv", "-K=v", "-e", "-l=1", "--key", "--key=v", "--keys", "--keys=a=b", "--ke=x", "--Key=c", "--keyx", "--ke-y=1", "--k-ey",
                  "-ay", "-@v", "--a-key=1", "--key-a=2", "key=v", "x--key=v", "v", "-", "--", "--ey=k"};
    explore(j, cfgs, alphabet, env.thorough ? 4 : 2, 40, 300);
    return finish();
}
