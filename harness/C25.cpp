// The terminal page: whole pages of the real parser for every width, on a terminal and not, against an independent renderer.
// flags: -fsanitize=address
#include "page_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "the terminal pages of parsers with every short text over markup characters and random words, for terminal widths 0 to 200, on a terminal and not: whole page against an independent renderer");
    auto judge = [](Page const & p, std::string const & about, strs const & args)
    {
        bool tty = rnd(2);
        columns = rnd(3) ? 38 + rnd(90) : rnd(200);
        tty_hook = [tty](int) { return tty; };
        std::string what = about + (tty ? " on a terminal" : " in a pipe") + " of " + std::to_string(columns) + " columns";
        current(what);
        Threw t;
        std::string is = real_page(p, args, &t);
        ran();
        expect(t.type == "exit" && t.code == 0, what, "no page but " + t.type + " " + t.what);
        std::string want = as_term(p, page_events(p, args[0] == "-hh", term_bold(tty)), tty, columns);
        expect(is == want, what, differ(is, want));
        sample(what);
    };
    std::string al{"\\fBP- a\n"};
    size_t total = 1;
    for (size_t n = 0; n <= 5; ++n, total *= al.size())
        for (size_t k = 0; k < total; k += (n < 4 || env.thorough ? 1 : n == 4 ? 3 : 41))
        {
            if (!mine() || !time_left(12, 200))
                continue;
            std::string s;
            for (size_t i = 0, x = k; i < n; ++i, x /= al.size())
                s += al[x % al.size()];
            Page p;
            p.meta.app_name = "app";
            p.meta.short_description = s;
            p.meta.synopsis = {s};
            Decl d;
            d.kind = 3 + k % 4, d.description = s, d.long_id = d.kind == 6 ? s : "", d.paragraph = k % 2;
            Decl l;
            l.kind = 5, l.description = s + std::string(rnd(40), 'x') + " " + s + std::string(rnd(40), 'y') + " z";
            p.decls = {d, l};
            judge(p, "the text " + show(s), {"-h"});
        }
    while (time_left(24, 260))
    {
        Page p = some_page(false);
        judge(p, tell(p), {rnd(2) ? "-h" : "-hh"});
    }
    return finish();
}
