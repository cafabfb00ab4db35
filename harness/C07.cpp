// The `--` terminator.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all prefixes up to length 2 over 12 words, then `--`, then all tails up to length 3 over 22 words (keywords, identifiers, terminators) for 5 configurations, then random ones");
    Judge j{.errors = {"unknown_option", "too_many_arguments", "too_few_arguments", "exit", "validation_error", "user_input_error", "option_declared_multiple_times", "design_error", "std::exception"},
            .singles = true, .lists = true, .flags = true, .positionals = true};
    std::vector<Cfg> cfgs{
        {{{FLAG, 'a', "all"}, {SINGLE, 'k', "key"}}, {{true}}},
        {{{LIST, 'k', "key"}, {FLAG, 'a', "all"}}, {{false}, {true}}},
        {{{SINGLE, 'k', "key"}, {FLAG, '\0', "all"}}, {{false}, {false}}},
        {{{FLAG, 'a', "all"}}, {}},
        {{}, {{true}}},
    };
    strs pre{"-a", "-k", "-kv", "--key=v", "--all", "x", "-", "-x", "--key", "-k=--", "-h=", "--keys"};
    strs tail{"-a", "-k", "-kv", "--key=v", "--all", "x", "-", "--", "-x", "-h", "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help",
              "--export-help=html", "--version-check", "0", "--unknown", "-ax", "---"};
    auto words = [](strs const & w, size_t n)
    {
        std::vector<strs> all{{}}, last{{}};
        for (size_t i = 0; i < n; ++i)
        {
            std::vector<strs> next;
            for (auto & s : last)
                for (auto & x : w)
                {
                    next.push_back(s);
                    next.back().push_back(x);
                }
            all.insert(all.end(), next.begin(), next.end());
            last = next;
        }
        return all;
    };
    auto const P = words(pre, 2), T = words(tail, env.thorough ? 3 : 2);
    for (auto & p : P)
        for (auto & t : T)
        {
            if (!env.thorough && p.size() == 2 && t.size() == 2 && rnd(4))
                continue;
            for (auto & c : cfgs)
                if (mine() && time_left(35, 280))
                {
                    strs a = p;
                    a.push_back("--");
                    a.insert(a.end(), t.begin(), t.end());
                    judge(j, c, a);
                }
        }
    return finish();
}
