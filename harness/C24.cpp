// The exported HTML page: whole pages of the real parser against an independent renderer, and tags checked by a small parser.
// flags: -fsanitize=address
#include "page_oracle.hpp"
using namespace vp;
// "" if every tag of the page is closed in its place and no markup is left open
static std::string unbalanced(std::string const & h)
{
    strs open;
    size_t i = h.find('\n'); // behind the document type
    for (; i < h.size(); ++i)
    {
        if (h[i] == '>')
            return "stray > at " + std::to_string(i);
        if (h[i] == '&')
        {
            size_t e = h.find(';', i);
            std::string n = e == std::string::npos ? "" : h.substr(i + 1, e - i - 1);
            if (n != "lt" && n != "gt" && n != "amp" && n != "quot" && n != "apos" && n != "mdash")
                return "stray & at " + std::to_string(i);
            i = e;
            continue;
        }
        if (h[i] != '<')
            continue;
        size_t e = h.find('>', i);
        if (e == std::string::npos)
            return "open tag at " + std::to_string(i);
        std::string t = h.substr(i + 1, e - i - 1);
        bool end = t[0] == '/';
        std::string n = t.substr(end, t.find(' ') == std::string::npos ? std::string::npos : t.find(' ') - end);
        i = e;
        if (n == "meta" || n == "br")
            continue;
        if (!end)
            open.push_back(n);
        else if (open.empty() || open.back() != n)
            return "</" + n + "> closes " + (open.empty() ? "nothing" : open.back());
        else
            open.pop_back();
    }
    return open.empty() ? "" : "<" + open.back() + "> is not closed";
}
int main(int argc, char ** argv)
{
    init(argc, argv, "the HTML pages of parsers with every short text over markup characters as title, line, item and meta data, and random ones: whole page against an independent renderer, and balance of all tags");
    auto judge = [](Page const & p, std::string const & what)
    {
        current(what);
        Threw t;
        std::string is = real_page(p, {"--export-help", "html"}, &t);
        ran();
        expect(t.type == "exit" && t.code == 0, what, "no page but " + t.type + " " + t.what);
        std::string want = as_html(p, page_events(p, false, html_bold));
        expect(is == want, what, differ(is, want));
        auto bad = unbalanced(is);
        expect(bad.empty(), what, bad);
        sample(what);
    };
    std::string al{"\\fBIP-<a&'\""};
    size_t total = 1;
    for (size_t n = 0; n <= 4; ++n, total *= al.size())
        for (size_t k = 0; k < total; k += (n < 3 || env.thorough ? 1 : n == 3 ? 3 : 37))
        {
            if (!mine() || !time_left(12, 200))
                continue;
            std::string s;
            for (size_t i = 0, x = k; i < n; ++i, x /= al.size())
                s += al[x % al.size()];
            Page p;
            p.meta.app_name = "app";
            p.meta.short_description = s;
            Decl d;
            d.kind = 3 + k % 4, d.description = s, d.long_id = d.kind == 6 ? s : "", d.paragraph = k % 2;
            Decl l;
            l.kind = 5, l.description = s;
            p.decls = {d, l};
            judge(p, "the text " + show(s));
        }
    while (time_left(24, 260))
    {
        Page p = some_page(false);
        judge(p, tell(p));
    }
    return finish();
}
