// Positional arguments are distributed in order.
#include "parse_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "all argument vectors up to length 5 over 8 words for 8 configurations of positional options (with validators), then random longer ones");
    Judge j{.errors = {"too_many_arguments", "too_few_arguments", "validation_error", "user_input_error"}, .positionals = true, .pvcalls = true};
    std::vector<Cfg> cfgs{
        {{}, {{false, true}}},
        {{}, {{true, true, true}}},
        {{}, {{false, true}, {false, true}, {false}}},
        {{}, {{false}, {true, true, true}}},
        {{{FLAG, 'a', ""}, {SINGLE, 'k', ""}}, {{false, false, true}, {false, true}, {true}}},
        {{{LIST, 'k', ""}}, {{false, true}, {true, true}}},
        {{{SINGLE, 'k', ""}}, {{false}, {false}, {false}, {false}}},
        {{}, {}},
    };
    strs alphabet{"x", "y", "bad", "-", "--", "-k", "-a", "x"};
    explore(j, cfgs, alphabet, env.thorough ? 5 : 4, 45, 300);
    // typed positionals
    for (char const * second : {"7", "-7", "x", "7x", "300", "0", " 7"})
        if (mine())
        {
            capture cap;
            int a{}, b{};
            std::vector<int8_t> v{1, 2, 3};
            sharg::parser p{"app", {"app", "1", "--", second, "5", second}, sharg::update_notifications::off};
            p.add_positional_option(a, sharg::config{});
            p.add_positional_option(b, sharg::config{});
            p.add_positional_option(v, sharg::config{.validator = sharg::arithmetic_range_validator{-10, 10}});
            Threw t = outcome([&] { p.parse(); });
            ran();
            std::string const s{second};
            bool const good = s == "7" || s == "-7" || s == "0";
            if (good ? !(t.type == "" && a == 1 && b == std::stoi(s) && v == std::vector<int8_t>{5, (int8_t)std::stoi(s)}) : t.type != "user_input_error")
                fail("typed positional options with " + s + ": " + t.type + " " + t.what);
        }
    return finish();
}
