// Every spelling of an option delivers the same verbatim value.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "argument vectors over 24 words (five spellings, awkward values, neighbours) for 4 configurations; every spelling x 40 values x 6 surroundings; random mutations");
    Judge j{.errors = {"too_few_arguments", "user_input_error", "too_many_arguments"}, .singles = true, .lists = true, .positionals = true};
    std::vector<Cfg> cfgs{
        {{{SINGLE, 'k', "key"}, {FLAG, 'a', "all"}}, {{true}}},
        {{{LIST, 'k', "key"}, {FLAG, 'a', "all"}}, {{true}}},
        {{{LIST, 'k', ""}, {SINGLE, '\0', "key"}}, {}},
        {{{SINGLE, 'x', "long-key"}, {LIST, 'k', "key"}, {LIST, '\0', "ke"}}, {{true}}},
    };
    // every spelling of every value
    strs values{"v", "=", "==", "=v", "v=", "a=b", "a b", " ", " v", "v ", "--", "--v", "-", "-v", "-=", "k", "key", "--keys", "-1", "0", "\t", "v\nw", "\"q\"", "'q'", "$(x)",
                "\xc3\xa4", "\x80\xff", "a,b", "[a]", "*", "\\", "=k=", "-a", "---", "x=--key=y", std::string(300, 'z')};
    for (auto & c : cfgs)
        for (auto & v : values)
            for (auto & w : values)
                for (int around = 0; around < 3; ++around)
                {
                    strs const spell1[] = {{"-k", v}, {"-k" + v}, {"-k=" + v}, {"--key", v}, {"--key=" + v}};
                    strs const spell2[] = {{"-k", w}, {"-k" + w}, {"-k=" + w}, {"--key", w}, {"--key=" + w}};
                    for (auto & s : spell1)
                        for (auto & t : spell2)
                        {
                            if (&t != spell2 && &v != &values[0] && !env.thorough && rnd(8))
                                continue;
                            if (!mine() || !time_left(15, 150))
                                continue;
                            strs a;
                            if (around == 1)
                                a.push_back("before");
                            a.insert(a.end(), s.begin(), s.end());
                            if (around)
                                a.push_back("mid=x");
                            if (around == 2 || c.opts[0].kind == LIST)
                                a.insert(a.end(), t.begin(), t.end());
                            if (around)
                                a.push_back("after");
                            judge(j, c, a);
                        }
                }
    strs alphabet{"-k", "-kv", "-k=v", "-k=", "-k==", "-k=-v", "-k -v", "--key", "--key=v", "--key=", "--key==", "--key=--", "--key= ", "v", "=v", "-a", "-ka", "--", "-", "a b"};
    explore(j, cfgs, alphabet, env.thorough ? 4 : 2, 35, 300);
    return finish();
}
