// Single-value options: duplicates, required, default, validation.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 18 words for 6 configurations (required, preset, validated), then random ones");
    Judge j{.errors = {"option_declared_multiple_times", "required_option_missing", "validation_error"}, .singles = true, .vcalls = true};
    std::vector<Cfg> cfgs{
        {{{SINGLE, 'k', "key", false, true, true}, {SINGLE, 'r', "req", true, true}}, {}},
        {{{SINGLE, 'k', "key", true, true, false}, {FLAG, 'a', "all"}}, {{true}}},
        {{{SINGLE, 'k', "", false, true, true}, {SINGLE, '\0', "key", true, false, true}}, {{true}}},
        {{{SINGLE, 'k', "key", false, false, true}, {LIST, 'r', "req", true, true, true}}, {{true}}},
        {{{SINGLE, 'k', "key", true, true, true}}, {}},
        {{{SINGLE, '\0', "key", true, true, true}, {SINGLE, 'k', "", true, true, true}, {SINGLE, 'r', "req", false, true, true}}, {{true}}},
    };
    strs alphabet{"-k", "-kv", "-k=v", "-kbad", "-k=bad", "--key", "--key=v", "--key=bad", "-r", "-rw", "--req", "--req=w", "--req=bad", "v", "bad", "--", "-a", "-r=v"};
    explore(j, cfgs, alphabet, env.thorough ? 4 : 3, 40, 300);
    return finish();
}
