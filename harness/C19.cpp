// The update check runs only with consent.
// also: -DNDEBUG
#include "version_oracle.hpp"
using namespace vp;

static long now()
{
    return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count();
}

static void judge(Setup const & s, int user)
{
    current(say(s));
    long const t = now();
    Run r = run(s);
    bool performed = !r.cmds.empty();
    // ---- expected
    bool want{}, ask{}, remembered{};
    std::string word{"ASK"};
    if (!s.dev_on || s.env_no)
        want = false;
    else if (user >= 0)
        want = user;
    else
    {
        bool decided{};
        if (s.has_cookie)
        {
            strs l = lines_of(s.cookie);
            double stamp = 0;
            if (!l.empty())
            {
                size_t n = 0;
                while (n < l[0].size() && std::isdigit((unsigned char)l[0][n]))
                    ++n;
                if (n)
                    stamp = std::stod(l[0].substr(0, n));
            }
            // an unterminated single line is also the last line that was read
            std::string w = l.size() > 1 ? l[1] : l.size() == 1 && s.cookie.find('\n') == std::string::npos ? l[0] : "";
            if (t - stamp < 86400)
                decided = true, want = false;
            else if (w == "NEVER")
                decided = true, want = false;
            else if (w == "ALWAYS")
                decided = true, want = true;
        }
        if (!decided)
        {
            remembered = true;
            ask = s.tty_in && s.tty_err;
            if (ask)
            {
                std::string l = lines_of(s.input).empty() ? "" : lines_of(s.input)[0];
                char c = l.empty() ? 's' : l[0];
                want = c == 'y' || c == 'a';
                word = c == 'a' ? "ALWAYS" : c == 'n' ? "NEVER" : "ASK";
            }
        }
    }
    expect(r.out.type == "" || r.out.type == "exit", "parse ended with " + r.out.type + " " + r.out.what, say(s));
    expect(performed == (want && (s.wget || s.curl)), want ? "the update check was permitted but no server was contacted:" : "a server was contacted without consent:", say(s));
    expect(r.cmds.size() <= 1, "more than one server call:", say(s));
    expect((r.err.find("Automatic Update Notifications") != std::string::npos) == ask, ask ? "the user was not asked:" : "the user was asked:", say(s));
    if (!remembered)
        expect(r.has_cookie == s.has_cookie && (!s.has_cookie || r.cookie == s.cookie), "the stored decision was changed:", say(s) + " to " + show(r.cookie));
    else
    {
        strs l = lines_of(r.cookie);
        expect(r.has_cookie && l.size() == 2 && l[1] == word && std::atol(l[0].c_str()) >= t && std::atol(l[0].c_str()) <= t + 5, "the decision was not remembered as " + word + ":", say(s) + " but " + show(r.cookie));
    }
    strs files;
    if (s.has_cookie || remembered)
        files.push_back(s.name + stamp_suffix);
    expect(r.files == files, "other files were left:", say(s) + " " + show(r.files));
    ran(want || remembered);
    sample(say(s));
}

int main(int argc, char ** argv)
{
    init(argc, argv, "developer switch x environment x --version-check values x stored decisions (ages around a day, NEVER, ALWAYS, ASK, malformed) x terminals x answers; missing HOME; subcommands; debug and release");
    install();
    // broken environments never make parse fail
    for (int k = 0; k < 4; ++k)
        if (mine())
        {
            std::error_code ec;
            current("broken environment " + std::to_string(k));
            unsetenv("SHARG_NO_VERSION_CHECK");
            if (k == 0)
                unsetenv("HOME");
            else if (k == 3)
                setenv("HOME", "", 1);
            else
                setenv("HOME", (env.dir + "/nowhere").c_str(), 1);
            std::string const old = std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "";
            if (k == 2 || k == 3)
                setenv("TMPDIR", (env.dir + "/nowhere").c_str(), 1);
            for (auto on : {sharg::update_notifications::on, sharg::update_notifications::off})
            {
                capture c;
                auto r = outcome(
                    [&]
                    {
                        sharg::parser p{"app", strs{"app"}, on};
                        p.parse();
                    });
                std::string const what = k == 0 ? "HOME unset" : k == 1 ? "HOME missing" : k == 2 ? "HOME and TMPDIR missing" : "HOME empty and TMPDIR missing";
                expect(r.type == "exit" || r.type == "", "parse failed with " + r.type + " " + r.what + " in an environment with", what);
                ran();
            }
            setenv("TMPDIR", old.c_str(), 1);
            std::filesystem::remove(env.dir + "/app_dev.timestamp", ec);
            std::filesystem::remove(env.dir + "/app_usr.timestamp", ec);
        }
    long const n = now();
    auto cookies = [&]
    {
        std::vector<std::pair<bool, std::string>> c{{false, ""}, {true, ""}, {true, "NEVER"}, {true, "ALWAYS"}, {true, "ASK"}, {true, "\nNEVER"}, {true, "\nALWAYS\n"}, {true, "never\nALWAYS"}, {true, "x\nNEVER"}, {true, "0\nNEVER"}, {true, "0\nALWAYS"}};
        for (long age : {0l, 10l, 43200l, 86300l, 86400l, 86401l, 200000l, -5000l})
            for (std::string w : {"", "\n", "\nNEVER", "\nALWAYS", "\nASK", "\nALWAYS\n", "\nNEVER\nALWAYS", "\nNEVERMORE", "\n ALWAYS", "\nALWAYS ", "\n\nALWAYS", "\nalways", "\nyes", "\nALWAYSNEVER"})
                c.push_back({true, std::to_string(now() - age) + w});
        return c;
    };
    std::vector<std::pair<strs, int>> users{{{}, -1}, {{"--version-check", "1"}, 1}, {{"--version-check", "0"}, 0}, {{"--version-check", "true"}, 1}, {{"--version-check", "false"}, 0}, {{"--version-check", "1", "--version-check", "0"}, 0}, {{"--version-check", "0", "-i", "3", "--version-check", "true"}, 1}};
    strs inputs{"", "\n", "y\n", "a\n", "n\n", "s\n", "yes\n", "always\n", "no", "q\n", " y\n", "Y\n", "\ny\n", "sy\n", "A\n", "N\n"};
    size_t const nc = cookies().size();
    auto one = [&](bool dev, bool e, size_t u, size_t c, int tty, size_t i)
    {
        Setup s;
        s.dev_on = dev, s.env_no = e, s.args = users[u].first;
        if (s.args.empty())
            s.args = {"-i", "1"};
        auto ck = cookies()[c];
        s.has_cookie = ck.first, s.cookie = ck.second;
        s.tty_in = tty & 1, s.tty_err = tty & 2;
        s.input = inputs[i];
        judge(s, users[u].second);
    };
    (void)n;
    // every cookie without terminal, and on a terminal with every answer
    for (size_t c = 0; c < nc; ++c)
        for (int tty = 0; tty < 4; ++tty)
            for (size_t i = 0; i < (tty == 3 ? inputs.size() : 3); ++i)
                if (mine() && time_left(25, 150))
                    one(true, false, 0, c, tty, i);
    for (int dev = 0; dev < 2; ++dev)
        for (int e = 0; e < 2; ++e)
            for (size_t u = 0; u < users.size(); ++u)
                for (size_t c = 0; c < nc; c += env.thorough ? 1 : 5)
                    if (mine() && time_left(30, 190))
                        one(dev, e, u, c, 3 * (c & 1), 3);
    // the sub-parser never asks nor checks
    if (mine())
    {
        Setup s;
        s.subs = {"sub"}, s.args = {"sub", "-x"};
        s.tty_in = s.tty_err = true, s.input = "n\ny\ny\n";
        Run r = run(s);
        expect(r.cmds.empty(), "the sub-parser contacted a server:", say(s));
        expect(r.files == strs{s.name + stamp_suffix}, "the sub-parser stored a decision:", say(s) + show(r.files));
        ran();
        s.args = {"--version-check", "1", "sub", "-x"};
        r = run(s);
        expect(r.cmds.size() == 1, "one server call for the application expected:", say(s) + show(r.cmds));
        s.args = {"sub", "-x", "--version-check", "1"};
        s.dev_on = true, s.env_no = false, s.tty_in = false;
        r = run(s);
        expect(r.cmds.empty(), "the sub-parser contacted a server:", say(s) + show(r.cmds));
    }
    while (time_left(10, 100))
        one(rnd(4), !rnd(6), rnd(3) ? 0 : rnd(users.size()), rnd(nc), rnd(4), rnd(inputs.size()));
    return finish();
}
