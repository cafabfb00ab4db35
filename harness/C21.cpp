// Version comparison and update messages.
// also: -DNDEBUG
#include "version_oracle.hpp"
using namespace vp;

static void judge(Setup const & s)
{
    current(say(s));
    Run r = run(s);
    expect(r.out.type == "" || r.out.type == "exit", "parse ended with " + r.out.type + " " + r.out.what, say(s));
    strs l = s.has_ver ? lines_of(s.verfile) : strs{};
    std::string const none{};
    bool const unreg = !l.empty() && l[0] == "UNREGISTERED_APP";
    auto app = numbers(l.empty() || unreg ? none : l[0]);
    auto sharg_srv = numbers(l.size() > 1 ? l[1] : none);
    std::string v = version_prefix(s.version);
    auto me = numbers(v.empty() ? "0.0.0" : v);
    std::array<long, 3> zero{}, sharg_me{SHARG_VERSION_MAJOR, SHARG_VERSION_MINOR, SHARG_VERSION_PATCH};
    using vc = sharg::detail::version_checker;
    std::string want;
#ifdef NDEBUG
    if (app != zero && me < app)
    {
        std::string m = "[APP VERSION INFO] :: A new version of this application is now available.\n"
                        "[APP VERSION INFO] :: If you don't wish to receive further notifications, set --version-check false.\n";
        want += m + (s.url.empty() ? "\n" : "[APP VERSION INFO] :: Visit " + s.url + " for updates.\n\n");
    }
#else
    if (unreg)
        want += vc::message_unregistered_app;
    if (sharg_srv != zero && sharg_me < sharg_srv)
        want += vc::message_sharg_update;
    if (app != zero && app < me)
        want += vc::message_registered_app_update;
#endif
    expect(r.err == want, "notified with " + show(r.err.substr(0, 60)) + " instead of " + show(want.substr(0, 60)) + ":", say(s));
    ran(!want.empty());
    sample(say(s));
}

int main(int argc, char ** argv)
{
    init(argc, argv, "version files (missing, empty, one line, two lines, with and without line breaks, malformed, UNREGISTERED_APP) x versions around each other in every component and with different numbers of digits; debug and release");
    install();
    auto sh = [](int a, int b, int c)
    {
        return std::to_string(SHARG_VERSION_MAJOR + a) + "." + std::to_string(SHARG_VERSION_MINOR + b) + "." + std::to_string(SHARG_VERSION_PATCH + c);
    };
    std::string me{sh(0, 0, 0)};
    strs nums{"0.0.0", "0.0.1", "0.1.0", "1.0.0", "0.9.10", "0.10.9", "1.2.3", "1.2.4", "1.3.2", "1.3.0", "2.0.0", "1.10.0", "1.9.0", "10.0.0", "9.9.9", "1.2.10", "1.2.9", "01.02.03", "1.2.2147483647", "2147483647.0.0"};
    strs mal{"", "1", "1.2", "1.2.", "1.2.3.4", "x1.2.3", "1.2.3x", " 1.2.3", "1.2.3 ", "1.2.3\r", "1.-2.3", "1,2,3", "a.b.c", "..", "+1.2.3", "UNREGISTERED", "unregistered_app", "1..3"};
    strs shargs{me, sh(1, 0, 0), sh(0, 1, 0), sh(0, 0, 1), sh(0, 0, 9), "0.0.0", "0.99.99", sh(0, 10, 0), "99.0.0"};
    std::vector<std::pair<bool, std::string>> files{{false, ""}, {true, ""}, {true, "\n"}, {true, "\n\n"}, {true, "UNREGISTERED_APP"}};
    strs firsts = nums;
    firsts.insert(firsts.end(), mal.begin(), mal.end());
    firsts.push_back("UNREGISTERED_APP"), firsts.push_back("UNREGISTERED_APP ");
    firsts.insert(firsts.end(), shargs.begin(), shargs.end());
    strs seconds = shargs;
    for (auto & x : {mal[0], mal[2], mal[4], mal[6], mal[7], mal[9]})
        seconds.push_back(x);
    for (auto & a : shargs)
        seconds.push_back(a + "x");
    for (auto & a : firsts)
    {
        files.push_back({true, a}), files.push_back({true, a + "\n"});
        for (auto & b : seconds)
            files.push_back({true, a + "\n" + b + (b.size() % 2 ? "\n" : "")});
        files.push_back({true, a + "\n\n" + shargs[1] + "\n"});
    }
    strs vers = nums;
    for (auto x : {"", "1.2", "1.2.3-rc", "v1.2.3", "1.2.3.4", "x", "1.2.3\n"})
        vers.push_back(x);
    auto one = [&](size_t f, size_t v, bool url)
    {
        Setup s;
        s.args = {"--version-check", "1", "-i", "1"};
        s.has_ver = files[f].first, s.verfile = files[f].second;
        s.version = vers[v];
        if (url)
            s.url = "https://x.y/z";
        judge(s);
    };
    for (size_t v = 0; v < vers.size(); ++v)
        for (size_t f = 0; f < firsts.size() * 3 && f < files.size(); ++f)
            if (mine() && time_left(25, 120))
                one((f * 7 + v) % files.size(), v, f % 3 == 0);
    for (size_t f = 0; f < files.size(); ++f)
        for (size_t v = 0; v < (env.thorough ? vers.size() : 3); ++v)
            if (mine() && time_left(35, 250))
                one(f, env.thorough ? v : rnd(vers.size()), rnd(2));
    // the message of an update to be shown also when no program for the look-up exists
    Setup s;
    s.args = {"--version-check", "1", "-i", "1"}, s.has_ver = true, s.verfile = "0.0.1\n99.0.0\n", s.version = "1.0.0", s.wget = s.curl = false;
    if (mine())
        judge(s);
    return finish();
}
