// What the entries of a page say: the man page (raw texts) and the terminal page of random parsers against an independent rule.
// flags: -fsanitize=address
#include "page_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "random parsers with up to 7 declarations over 10 value types with default values, custom default messages and validator messages: the text of every entry on the man page and the terminal page against an independent rule");
    auto judge = [](Page const & p)
    {
        current(tell(p));
        strs items;
        size_t n = 0;
        for (auto & d : p.decls)
            if (d.kind == 2 && ++n)
            {
                auto e = entry(d, n);
                items.push_back(".TP\n" + e.a + "\n" + e.b + "\n");
            }
        for (auto & d : p.decls)
            if (d.kind < 2 && shown(d, false))
            {
                auto e = entry(d, 0);
                items.push_back(".TP\n" + e.a + "\n" + e.b + "\n");
            }
        Threw t;
        std::string page = real_page(p, {"--export-help", "man"}, &t);
        ran(!items.empty());
        std::string what = tell(p);
        expect(t.type == "exit" && t.code == 0, what, "no page but " + t.type + " " + t.what);
        size_t at = 0;
        for (auto & i : items)
        {
            size_t f = page.find(i, at);
            expect(f != std::string::npos, what, "the man page must contain the entry " + show(i) + " in its place: " + show(page.substr(0, 600)));
            if (f != std::string::npos)
                at = f + i.size();
        }
        sample(what + " -> " + show(items));
        std::string is = real_page(p, {"-hh"}), want = as_term(p, page_events(p, true, term_bold(false)), false, 80);
        ran(!items.empty());
        expect(is == want, what + " with -hh", differ(is, want));
    };
    for (int kind = 0; kind < 3; kind += 2)
        for (int type = 0; type < n_types; ++type)
            for (size_t value = 0; value < 12; ++value)
                for (int req = 0; req < 3; ++req)
                    for (int msg = 0; msg < 2; ++msg)
                        for (int id = 0; id < 3; ++id)
                        {
                            if ((kind == 2 && (req == 2 || id)) || !mine())
                                continue;
                            Page p;
                            p.meta.app_name = "app";
                            Decl d;
                            d.kind = kind, d.type = type, d.value = value, d.required = req == 1;
                            if (req == 2)
                                d.default_message = value % 2 ? "what \"you\" like" : "x";
                            d.description = value % 3 ? "about this" : "";
                            if (msg)
                                d.message = "Value must be nice.";
                            if (kind == 0 && id != 1)
                                d.short_id = 'o';
                            if (kind == 0 && id != 0)
                                d.long_id = "option";
                            p.decls = {d};
                            judge(p);
                        }
    while (time_left(20, 200))
        judge(some_page(rnd(2)));
    return finish();
}
