// List options collect every value in order and replace the default.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 3 over 16 words for 5 configurations with initial elements, random longer ones; unconvertible numbers at every place of a list");
    Judge j{.errors = {"option_declared_multiple_times", "required_option_missing", "unknown_option", "user_input_error"}, .lists = true};
    std::vector<Cfg> cfgs{
        {{{LIST, 'k', "key", false, false, true}, {LIST, 'r', "req", true}}, {{true}}},
        {{{LIST, 'k', "key", false, true, true}, {FLAG, 'a', "all"}}, {{true}}},
        {{{LIST, 'k', "", false, false, true}, {LIST, '\0', "key", false, false, true}}, {{true}}},
        {{{LIST, 'k', "key", true, false, true}}, {}},
        {{{LIST, '\0', "key", false, false, true}, {SINGLE, 'k', "", false, false, true}}, {{true}}},
    };
    // numbers: rejected instead of dropped, wherever they stand
    strs bad{"x", "1x", "300", "-1", "", " 1", "1 ", "0x1", "256", "99999999999999999999"}, good{"1", "255", "0", "7"};
    auto numbers = [&](strs const & a, std::vector<int> const & want, bool ok)
    {
        current(show(a));
        std::vector<uint8_t> v{9, 9};
        capture cap;
        strs full{"app"};
        full.insert(full.end(), a.begin(), a.end());
        sharg::parser p{"app", full, sharg::update_notifications::off};
        p.add_option(v, sharg::config{.short_id = 'n', .long_id = "num"});
        Threw t = outcome([&] { p.parse(); });
        ran();
        if (ok)
        {
            std::vector<int> got(v.begin(), v.end());
            if (t.type != "" || got != want)
                fail("list<uint8_t> -n/--num <- " + show(a) + " gave " + show(got) + " " + t.type + " " + t.what);
        }
        else if (t.type != "user_input_error")
            fail("list<uint8_t> -n/--num <- " + show(a) + " with an unconvertible value was not rejected: " + t.type);
    };
    for (size_t len = 1; len <= 4; ++len)
        for (size_t at = 0; at <= len; ++at) // at == len: all good
            for (auto & b : bad)
                for (int form = 0; form < 32; ++form)
                {
                    if (!mine())
                        continue;
                    strs a;
                    std::vector<int> s, l;
                    for (size_t i = 0; i < len; ++i)
                    {
                        std::string const & w = i == at ? b : good[(i + form) % good.size()];
                        bool const lng = form >> i & 1;
                        if (i != at)
                            (lng ? l : s).push_back(std::atoi(w.c_str()));
                        if (form & 16)
                            a.insert(a.end(), {lng ? "--num" : "-n", w});
                        else if (!w.empty())
                            a.push_back((lng ? "--num=" : "-n=") + w);
                        else
                            a.insert(a.end(), {lng ? "--num" : "-n", "z"});
                    }
                    s.insert(s.end(), l.begin(), l.end());
                    numbers(a, s, at == len);
                }
    strs alphabet{"-k", "-kv", "-k=w", "-kx y", "--key", "--key=v", "--key=w", "-r", "-rw", "--req=1", "v", "bad", "--", "-a", "-kbad", "u"};
    explore(j, cfgs, alphabet, env.thorough ? 4 : 3, 40, 300);
    return finish();
}
