// Which entries appear on which page, once each and in order: whole pages of the real parser, entries marked by unique words.
// flags: -fsanitize=address
#include "page_oracle.hpp"
using namespace vp;
static strs marks(std::string const & page)
{
    strs r;
    for (size_t i = 0; i + 2 < page.size(); ++i)
        if ((page[i] == 'E') && std::isdigit((unsigned char)page[i + 1]))
        {
            size_t j = i + 1;
            while (j < page.size() && std::isdigit((unsigned char)page[j]))
                ++j;
            if (j < page.size() && (page[j] == 'e' || page[j] == 'E'))
                r.push_back(page.substr(i + 1, j - i - 1));
        }
    return r;
}
int main(int argc, char ** argv)
{
    init(argc, argv, "random parsers with up to 9 declarations of every kind, hidden and advanced in every combination, shown as help page, advanced help page, HTML and man page: the entries that appear, in order, against an independent rule");
    auto judge = [](Page const & p)
    {
        current(tell(p));
        for (auto & args : std::vector<strs>{{"-h"}, {"--help"}, {"-hh"}, {"--advanced-help"}, {"--export-help", "man"}, {"--export-help=html"}})
        {
            bool advanced = args[0] == "-hh" || args[0] == "--advanced-help";
            strs want;
            for (int pos = 1; pos >= 0; --pos)
                for (size_t i = 0; i < p.decls.size(); ++i)
                    if ((p.decls[i].kind == 2) == pos && shown(p.decls[i], advanced))
                        want.push_back(std::to_string(i));
            Threw t;
            std::string page = real_page(p, args, &t);
            ran(!want.empty());
            std::string what = tell(p) + " with " + show(args);
            expect(t.type == "exit" && t.code == 0, what, "no page but " + t.type + " " + t.what);
            expect(marks(page) == want, what, "must show the entries " + show(want) + " but shows " + show(marks(page)));
            sample(what + " shows " + show(want));
        }
    };
    // every declaration alone and every pair, in each combination of hidden and advanced
    std::vector<Decl> all;
    for (int kind = 0; kind < 7; ++kind)
        for (int adv = 0; adv < 2; ++adv)
            for (int hid = 0; hid < (kind < 2 ? 2 : 1); ++hid)
                for (int req = 0; req < (kind == 0 ? 2 : 1); ++req)
                {
                    if (kind == 2 && adv)
                        continue;
                    Decl d;
                    d.kind = kind, d.advanced = adv, d.hidden = hid, d.required = req;
                    all.push_back(d);
                }
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t j = 0; j <= all.size(); ++j)
        {
            if (!mine())
                continue;
            Page p;
            p.meta.app_name = "app";
            p.decls.push_back(all[i]);
            if (j < all.size())
                p.decls.push_back(all[j]);
            for (size_t k = 0; k < p.decls.size(); ++k)
            {
                auto & d = p.decls[k];
                d.description = "E" + std::to_string(k) + "e";
                if (d.kind < 2)
                    d.short_id = "ab"[k];
                if (d.kind == 6)
                    d.long_id = "key";
            }
            judge(p);
        }
    while (time_left(20, 200))
        judge(some_page(true, 9, false));
    return finish();
}
