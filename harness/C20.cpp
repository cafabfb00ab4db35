// Untrusted text cannot reach the shell.
// also: -DNDEBUG
#include "version_oracle.hpp"
using namespace vp;

static void judge(Setup const & s)
{
    current(say(s));
    Run r = run(s);
    bool bad = !harmless(s.name);
    for (auto & x : s.subs)
        bad |= !harmless(x);
    if (bad)
    {
        expect(r.out.type == "design_error", "a harmful name was not rejected as a design error but ended with " + show(r.out.type) + ":", say(s));
        expect(r.cmds.empty(), "a command was executed for a harmful name:", say(s) + " " + show(r.cmds));
    }
    else
    {
        expect(r.out.type != "design_error" || r.out.what.find("name") == std::string::npos, "a harmless name was rejected:", say(s) + " " + r.out.what);
        expect(r.cmds.size() == (s.wget || s.curl ? 1u : 0u), "one command expected:", say(s) + " " + show(r.cmds));
        for (auto & c : r.cmds)
        {
            std::string ver = version_prefix(s.version);
            if (ver.empty())
                ver = "0.0.0";
            std::string tail = "_64_" + s.name + "_" + ver + " > /dev/null 2>&1";
            std::string out = " " + conf(s.name + ".version") + " https://";
            expect(c.size() > tail.size() && c.compare(c.size() - tail.size(), tail.size(), tail) == 0, "the command does not end with the name, the version digits.digits.digits and the redirection:", say(s) + " command " + show(c));
            expect(c.find(out) != std::string::npos, "the command does not name the version file and the server:", say(s) + " command " + show(c));
            std::string rest = c.substr(0, c.size() - std::min(c.size(), tail.size()));
            if (auto p = rest.find(conf("")); p != std::string::npos)
                rest.erase(p, conf("").size());
            for (char x : rest)
                expect(std::isalnum((unsigned char)x) || std::strchr(" /:.=-_", x), "a shell character gets into the command:", say(s) + " command " + show(c));
        }
    }
    ran(!bad || !s.subs.empty());
    sample(say(s));
}

int main(int argc, char ** argv)
{
    init(argc, argv, "names, subcommand names and versions with every byte value at the start, in the middle and at the end, shell idioms, line breaks, empty and long texts; debug and release; system() is a stand-in that records");
    install();
    strs idioms{"", "app", "a-b_C9", "-", "_", "--x", "app;id", "app id", "$(id)", "`id`", "app|id", "app&", "app\n", "\napp", "app\nid", "a\tb", "app>x", "a/b", "..", "a.b", "\xc3\xa4", "app'", "app\"", "a\\b", "app#", "app*", "app?", "~", "!x", "a,b", "a=b", "a{b}", "[a]", "a^b", "a%b", "a@b", "a+b", "a:b"};
    strs vers{"", "1.2.3", "1.2", "1.2.3.4", "1.2.3;id", "1.2.3 id", "1.2.3$(id)", ";id 1.2.3", " 1.2.3", "v1.2.3", "1.2.x", "1..3", "1.2.", ".2.3", "01.02.003", "10.20.30-rc1", "1.2.3\nid", "\n1.2.3", "1.2.3\n", "x\n1.2.3", "1a.2.3", "1.2a.3", "1.2.3a4", "1,2,3", "1-2-3", "-1.2.3", "+1.2.3", "99999999999999999999.1.2", "1.2.3.", "1.2.3`id`", "\xd9\xa1.2.3", "1 .2.3", "1.2.3|id", "1x2x3", "1;2.3", "1.2;3", "1.2.3&id", "0.0.0"};
    auto base = []
    {
        Setup s;
        s.args = {"--version-check", "1", "-i", "1"};
        return s;
    };
    auto one = [&](std::string const & n, std::string const & v, strs const & subs)
    {
        if (!mine() || !time_left(30, 150))
            return;
        Setup s = base();
        s.name = n, s.version = v, s.subs = subs;
        if (!subs.empty())
            s.args = {"--version-check", "1", subs[0]};
        s.wget = rnd(3), s.curl = rnd(3);
        if (n.find('/') == std::string::npos && n.find('\0') == std::string::npos)
            judge(s);
        else
            judge(s);
    };
    for (auto & n : idioms)
        for (auto & v : vers)
            one(n, v, {});
    for (int b = 1; b < 256; ++b)
        for (int k = 0; k < 3; ++k)
        {
            std::string c(1, (char)b);
            std::string t = k == 0 ? c + "ab" : k == 1 ? "a" + c + "b" : "ab" + c;
            one(t, "1.2.3", {});
            one("app", "1.2.3", {t});
            one("app", "1.2.3", {"ok", t});
            one("app", k == 0 ? c + "1.2.3" : k == 1 ? "1.2" + c + "3" : "1.2.3" + c, {});
            one("app", k == 0 ? "1" + c + "2.3" : k == 1 ? "1.2." + c + "3" : "1.2.3" + c + "4", {});
        }
    for (auto & n : idioms)
    {
        one("app", "1.2.3", {n});
        one("app", "1.2.3", {"zz", n, "aa"});
        one("app", "1.2.3", {"zz", "aa", n});
    }
    one(std::string(300, 'a') + ";", "1.2.3", {});
    while (time_left(15, 100))
        one(rnd(2) ? "app" : pick(idioms) + pick(idioms), rnd(2) ? "1.2.3" : pick(vers) + pick(vers), rnd(3) ? strs{} : strs{pick(idioms) + pick(idioms)});
    return finish();
}
