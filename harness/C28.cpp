// The information pages: short help, version, copyright and the full pages with all meta data against an independent renderer.
// flags: -fsanitize=address
#include "page_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "random meta data (every field empty or not, markup and special characters) shown as short help, version page, copyright page, help page, man page and HTML, on terminals of any width and in pipes: whole page against an independent renderer");
    auto judge = [](Page const & p, strs const & args)
    {
        bool tty = rnd(2);
        columns = rnd(3) ? 38 + rnd(90) : rnd(200);
        tty_hook = [tty](int) { return tty; };
        std::string what = tell(p) + " with " + show(args) + (tty ? " on a terminal of " : " in a pipe of ") + std::to_string(columns) + " columns and short description " + show(p.meta.short_description) + " synopsis "
                         + show(p.meta.synopsis) + " copyright " + show(p.meta.short_copyright) + " / " + show(p.meta.long_copyright);
        current(what);
        auto & m = p.meta;
        Threw t;
        std::string is = real_page(p, args, &t), want;
        ran();
        expect(t.type == "exit" && t.code == 0, what, "no page but " + t.type + " " + t.what);
        auto strong = term_bold(tty);
        if (args.empty())
        {
            Events es{{'H'}};
            for (auto & s : m.synopsis)
                es.push_back({'L', synopsis_line(s)});
            es.push_back({'L', "Try -h or --help for more information.\n", "", true});
            want = as_term(p, es, tty, columns);
        }
        else if (args[0] == "--version")
        {
            Events es{{'H'}};
            for (auto & e : version_events(p, strong))
                es.push_back(e);
            want = as_term(p, es, tty, columns);
        }
        else if (args[0] == "--copyright")
        {
            std::string bar(80, '='), thin(80, '-');
            want = bar + "\n" + strong("Copyright information for " + m.app_name + ":\n") + thin + "\n";
            if (!m.long_copyright.empty())
                want += term_text("\\fP", tty) + m.long_copyright + "\n";
            else if (!m.short_copyright.empty())
                want += strong(m.app_name + " full copyright information not available. Displaying short copyright information instead:\n") + m.short_copyright + "\n";
            else
                want += term_text("\\fP", tty) + m.app_name + " copyright information not available.\n";
            want += bar + "\n" + strong("This program contains SeqAn code licensed under the following terms:\n") + thin + "\n";
            expect(is.find("THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS", want.size()) != std::string::npos, what, "the copyright page does not show the licence of the library");
            is.resize(std::min(is.size(), want.size()));
        }
        else if (args.back() == "man")
            want = as_man(p, page_events(p, false, man_bold));
        else if (args.back() == "html")
            want = as_html(p, page_events(p, false, html_bold));
        else
            want = as_term(p, page_events(p, args[0] == "-hh" || args[0] == "--advanced-help", strong), tty, columns);
        expect(is == want, what, differ(is, want));
        sample(what);
    };
    std::vector<strs> pages{{}, {"--version"}, {"--copyright"}, {"-h"}, {"--help"}, {"-hh"}, {"--advanced-help"}, {"--export-help", "man"}, {"--export-help", "html"}};
    // every field empty or not
    for (size_t mask = 0; mask < 512; ++mask)
        for (size_t k = 0; k < pages.size(); ++k)
        {
            if (!mine() || !time_left(14, 200))
                continue;
            Page p;
            auto & m = p.meta;
            m.app_name = "app";
            strs words{"1.2.3", "Short", "An Author", "a@b.c", "Jan 1", "http://x/?a=1&b=2", "(c) us", "all of it", "Us et al."};
            std::string * f[]{&m.version, &m.short_description, &m.author, &m.email, &m.date, &m.url, &m.short_copyright, &m.long_copyright, &m.citation};
            for (size_t i = 0; i < 9; ++i)
                *f[i] = mask >> i & 1 ? words[i] : "";
            if (mask % 3 == 0)
                m.synopsis = {"app [-x]", "other"};
            if (mask % 5 == 0)
                m.description = {"What it does.", "And more."}, m.examples = {"app -x"};
            p.updates = mask % 2;
            judge(p, pages[k]);
        }
    while (time_left(26, 260))
    {
        Page p = some_page(rnd(2) == 0);
        size_t k = rnd(pages.size());
        if (pages[k].empty() && !p.commands.empty())
            continue;
        judge(p, pages[k]);
    }
    return finish();
}
