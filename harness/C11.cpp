// The parser life cycle is enforced.
#include "common.hpp"
using namespace vp;

struct Line
{
    strs args;
    bool sub;
};

// the observable state of a parser that was parsed: what the bound variables hold and which options are set
struct Bound
{
    int i{7}, pos{3};
    std::vector<int> l{1, 2};
    bool f{false};
    auto operator<=>(Bound const &) const = default;
};

int main(int argc, char ** argv)
{
    init(argc, argv, "all sequences of up to 3 (thorough 4) of 14 calls on a parser before and after parsing, for 14 command lines with and without subcommands");
    std::vector<Line> lines{
        {{"app", "-i", "5", "9"}, false}, {{"app", "-i"}, false},          {{"app", "-i", "x", "9"}, false},     {{"app", "-z"}, false},
        {{"app", "9", "9", "9"}, false},  {{"app"}, false},                {{"app", "--help"}, false},           {{"app", "--version"}, false},
        {{"app", "-f", "x1"}, true},      {{"app", "x1", "-i", "3"}, true}, {{"app", "nosub"}, true},              {{"app", "-f"}, true},
        {{"app", "--export-help", "foo"}, false}, {{"app", "-f", "9", "--", "-i"}, false}};
    char const * names[]{"parse", "add_option", "add_flag", "add_positional_option", "add_section", "add_subsection", "add_line", "add_list_item", "add_subcommands",
                         "is_option_set('i')", "is_option_set(\"int\")", "is_option_set('u')", "is_option_set(\"unknown\")", "get_sub_parser"};
    size_t const n = std::size(names);
    size_t const depth = env.thorough ? 4 : 3;
    for (auto & ln : lines)
        for (size_t len = 1; len <= depth; ++len)
        {
            std::vector<size_t> ix(len, 0);
            for (bool more = true; more;)
            {
                if (mine() && time_left(40, 250))
                {
                    std::string txt{show(ln.args) + (ln.sub ? " with subcommands:" : ":")};
                    for (size_t c : ix)
                        txt += std::string{" "} + names[c];
                    current(txt);
                    capture cap;
                    sharg::parser p{"app", ln.args, sharg::update_notifications::off, ln.sub ? strs{"x1", "x2"} : strs{}};
                    Bound b, after;
                    int extra{11}, extra_after{11};
                    bool extra_flag{}, extra_flag_after{};
                    p.add_option(b.i, sharg::config{.short_id = 'i', .long_id = "int"});
                    p.add_option(b.l, sharg::config{.short_id = 'l'});
                    p.add_flag(b.f, sharg::config{.short_id = 'f'});
                    if (!ln.sub)
                        p.add_positional_option(b.pos, sharg::config{});
                    bool started{false}, sub{false};
                    std::set<std::string> subs;
                    if (ln.sub)
                        subs = {"x1", "x2"};
                    int added{0};
                    for (size_t c : ix)
                    {
                        Threw t = outcome(
                            [&]
                            {
                                switch (c)
                                {
                                case 0: p.parse(); break;
                                case 1: p.add_option(extra, sharg::config{.short_id = (char)('A' + added++)}); break;
                                case 2: p.add_flag(extra_flag, sharg::config{.short_id = (char)('A' + added++)}); break;
                                case 3: p.add_positional_option(extra, sharg::config{}); break;
                                case 4: p.add_section("s"); break;
                                case 5: p.add_subsection("s"); break;
                                case 6: p.add_line("s"); break;
                                case 7: p.add_list_item("s", "t"); break;
                                case 8: p.add_subcommands({"x3"}); break;
                                case 9: p.is_option_set('i'); break;
                                case 10: p.is_option_set("int"); break;
                                case 11: p.is_option_set('u'); break;
                                case 12: p.is_option_set("unknown"); break;
                                default: p.get_sub_parser();
                                }
                            });
                        bool const design = t.type == "design_error";
                        bool want = c == 0 ? started : c < 9 ? started : c < 11 ? !started : c < 13 ? true : !sub;
                        if (c == 3 && !subs.empty())
                            want = true;
                        if (c == 8 && !started)
                            subs.insert("x3");
                        if (c == 0 && !started)
                        {
                            started = true;
                            // was a subcommand given?
                            for (size_t j = 1; j < ln.args.size(); ++j)
                                if (ln.args[j] == "-i" || ln.args[j] == "--export-help")
                                    ++j;
                                else if (ln.args[j][0] != '-')
                                {
                                    sub = subs.count(ln.args[j]);
                                    break;
                                }
                            after = b, extra_after = extra, extra_flag_after = extra_flag;
                            if (design)
                                fail(txt + ": the first parse() throws a design error: " + t.what);
                            continue;
                        }
                        if (design != want || (!design && !t.type.empty()))
                            fail(txt + ": " + names[c] + (want ? " must be a design error" : " must succeed") + " but gives '" + t.type + "' " + t.what);
                        if (started && (b != after || extra != extra_after || extra_flag != extra_flag_after))
                            fail(txt + ": " + names[c] + " after parsing changed a variable");
                    }
                    ran();
                    sample(txt);
                }
                size_t q = 0;
                while (q < len && ++ix[q] == n)
                    ix[q++] = 0;
                more = q < len;
            }
        }
    // after a rejected late add, what was parsed is unchanged
    for (int k = 0; k < 8; ++k)
        if (mine())
        {
            capture cap;
            sharg::parser p{"app", {"app", "-i", "5", "9"}, sharg::update_notifications::off};
            int i{}, pos{};
            bool f{};
            p.add_option(i, sharg::config{.short_id = 'i', .long_id = "int"});
            p.add_positional_option(pos, sharg::config{});
            p.parse();
            Threw t = outcome(
                [&]
                {
                    switch (k)
                    {
                    case 0: p.add_option(pos, sharg::config{.short_id = 'u'}); break;
                    case 1: p.add_flag(f, sharg::config{.short_id = 'u'}); break;
                    case 2: p.add_positional_option(i, sharg::config{}); break;
                    case 3: p.add_section("s"); break;
                    case 4: p.add_subsection("s"); break;
                    case 5: p.add_line("s"); break;
                    case 6: p.add_list_item("s", "t"); break;
                    default: p.add_subcommands({"u"});
                    }
                });
            expect(t.type == "design_error", "late add must be a design error", std::to_string(k) + " " + t.type);
            expect(outcome([&] { p.is_option_set('u'); }).type == "design_error", "an identifier of a rejected declaration counts as declared", std::to_string(k));
            expect(p.is_option_set('i') && p.is_option_set("int") == false && i == 5 && pos == 9, "a rejected late add changed what was parsed", std::to_string(k));
            ran();
        }
    return finish();
}
