// Update check: every effect (commands, terminal, standard input, home directory) is a stand-in; the oracle is written
// from the documentation of the parser.
#pragma once
#include "common.hpp"

namespace vp
{
inline std::mutex cmd_mutex;
inline strs commands;
inline bool has_wget{true}, has_curl{true}, on_tty_in{}, on_tty_err{};

inline void install()
{
    system_hook = [](char const * c) -> int
    {
        std::lock_guard g{cmd_mutex};
        std::string s{c};
        if (s.find("wget --version") != std::string::npos)
            return has_wget ? 0 : 1;
        if (s.find("curl --version") != std::string::npos)
            return has_curl ? 0 : 1;
        commands.push_back(s);
        return 0;
    };
    tty_hook = [](int fd) -> int
    {
        return fd == 0 ? on_tty_in : fd == 2 ? on_tty_err : 0;
    };
}

inline std::string home()
{
    return env.dir + "/home";
}
inline std::string conf(std::string const & f)
{
    return home() + "/.config/seqan/" + f;
}
inline bool slurp(std::string const & f, std::string & out)
{
    std::ifstream i{f, std::ios::binary};
    if (!i)
        return false;
    out.assign(std::istreambuf_iterator<char>{i}, {});
    return true;
}
inline void spit(std::string const & f, std::string const & s)
{
    std::ofstream o{f, std::ios::binary};
    o << s;
}
#ifdef NDEBUG
inline constexpr char const * stamp_suffix = "_usr.timestamp";
#else
inline constexpr char const * stamp_suffix = "_dev.timestamp";
#endif

struct Run
{
    Threw out;
    std::string err;
    strs cmds;
    std::string cookie;
    bool has_cookie{};
    strs files; // what lies in the directory afterwards
};

struct Setup
{
    std::string name{"app"}, version{}, url{};
    bool dev_on{true};
    bool env_no{};
    strs args{};
    std::string cookie{}, verfile{};
    bool has_cookie{}, has_ver{};
    bool tty_in{}, tty_err{};
    std::string input{};
    bool wget{true}, curl{true};
    strs subs{};
};

inline Run run(Setup const & s)
{
    std::error_code ec;
    std::filesystem::remove_all(home() + "/.config", ec);
    std::filesystem::create_directories(home() + "/.config/seqan", ec);
    setenv("HOME", home().c_str(), 1);
    if (s.env_no)
        setenv("SHARG_NO_VERSION_CHECK", "foo", 1);
    else
        unsetenv("SHARG_NO_VERSION_CHECK");
    std::string const cookie = conf(s.name + stamp_suffix);
    bool const plain = s.name.find('/') == std::string::npos;
    if (s.has_cookie && plain)
        spit(cookie, s.cookie);
    if (s.has_ver && plain)
        spit(conf(s.name + ".version"), s.verfile);
    has_wget = s.wget, has_curl = s.curl, on_tty_in = s.tty_in, on_tty_err = s.tty_err;
    commands.clear();
    std::istringstream in{s.input};
    auto * old = std::cin.rdbuf(in.rdbuf());
    std::cin.clear();
    Run r;
    {
        capture cap;
        r.out = outcome(
            [&]
            {
                strs args{s.name};
                args.insert(args.end(), s.args.begin(), s.args.end());
                sharg::parser p{s.name, args, s.dev_on ? sharg::update_notifications::on : sharg::update_notifications::off, s.subs};
                p.info.version = s.version;
                p.info.url = s.url;
                int pos{};
                if (s.subs.empty())
                    p.add_option(pos, sharg::config{.short_id = 'i', .long_id = "int"});
                p.parse();
                if (!s.subs.empty())
                    p.get_sub_parser().parse();
            });
        r.err = cap.e.str();
    }
    std::cin.rdbuf(old);
    {
        std::lock_guard g{cmd_mutex};
        r.cmds = commands;
    }
    r.has_cookie = slurp(cookie, r.cookie);
    for (auto & e : std::filesystem::directory_iterator(home() + "/.config/seqan", ec))
        r.files.push_back(e.path().filename().string());
    std::sort(r.files.begin(), r.files.end());
    return r;
}

inline std::string say(Setup const & s)
{
    std::string r = "name " + show(s.name) + " version " + show(s.version) + " args " + show(s.args) + " notifications " + (s.dev_on ? "on" : "off") + (s.env_no ? " SHARG_NO_VERSION_CHECK set" : "");
    r += s.has_cookie ? " cookie " + show(s.cookie) : " no cookie";
    r += s.has_ver ? " version file " + show(s.verfile) : "";
    r += " tty " + std::to_string(s.tty_in) + std::to_string(s.tty_err) + " input " + show(s.input) + " wget/curl " + std::to_string(s.wget) + std::to_string(s.curl);
    if (!s.subs.empty())
        r += " subcommands " + show(s.subs);
#ifdef NDEBUG
    r += " (release)";
#endif
    return r;
}

// digits.digits.digits at the start of a text; the longest
inline std::string version_prefix(std::string const & t)
{
    size_t i = 0;
    for (int k = 0; k < 3; ++k)
    {
        if (k)
        {
            if (i >= t.size() || t[i] != '.')
                return "";
            ++i;
        }
        size_t b = i;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9')
            ++i;
        if (i == b)
            return "";
    }
    return t.substr(0, i);
}
inline std::array<long, 3> numbers(std::string const & t)
{
    std::array<long, 3> r{};
    if (t.empty() || version_prefix(t) != t)
        return r;
    size_t i = 0;
    for (int k = 0; k < 3; ++k, ++i)
        for (; i < t.size() && t[i] != '.'; ++i)
            r[k] = r[k] * 10 + (t[i] - '0');
    return r;
}
inline bool harmless(std::string const & n)
{
    for (char c : n)
        if (!(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '_' && c != '-')
            return false;
    return !n.empty();
}
// the lines std::getline reads
inline strs lines_of(std::string const & t)
{
    strs r;
    size_t b = 0;
    while (b < t.size())
    {
        size_t e = t.find('\n', b);
        if (e == std::string::npos)
        {
            r.push_back(t.substr(b));
            break;
        }
        r.push_back(t.substr(b, e - b));
        b = e + 1;
    }
    return r;
}
} // namespace vp
