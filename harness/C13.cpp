// Built-in keywords select the right page.
#include "split_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 30 words for parsers with and without options, flags and subcommands, then random longer ones");
    strs words{"-h", "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help", "--export-help=html", "--export-help=man", "--export-help=", "--export-help=mann", "--version-check", "--version-check=0",
               "0", "true", "false", "1", "html", "man", "--", "-k", "--key", "-kh", "--key=--help", "-l", "-f", "-hf", "-fh", "--helpx", "-H"};
    std::vector<SplitCfg> cfgs{{}, {.opt = true, .list = true}, {.opt = false, .flag = false}, {.opt = true, .subs = {"sub", "man"}}};
    for (size_t len = 0; len <= 3; ++len)
    {
        std::vector<size_t> ix(len, 0);
        for (bool more = true; more;)
        {
            strs a;
            for (size_t i : ix)
                a.push_back(words[i]);
            for (auto & c : cfgs)
                if (mine() && time_left(45, 200))
                    judge_split(a, c, true, false);
            size_t q = 0;
            while (q < len && ++ix[q] == words.size())
                ix[q++] = 0;
            more = q < len;
        }
    }
    while (time_left(15, 150))
    {
        strs a;
        for (size_t n = 2 + rnd(8); n; --n)
            a.push_back(rnd(20) ? pick(words) : "");
        judge_split(a, pick(cfgs), true, false);
    }
    return finish();
}
