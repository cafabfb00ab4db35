// Shared by all harnesses: stand-ins for process-wide effects, result reporting, enumeration helpers.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <charconv>
#include <chrono>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <regex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>

namespace vp
{
struct exited
{
    int code;
};
inline std::function<int(char const *)> system_hook;
inline std::function<int(int)> tty_hook;
} // namespace vp
inline int vp_isatty(int fd)
{
    return vp::tty_hook ? vp::tty_hook(fd) : 0;
}
namespace std
{
[[noreturn]] inline void vp_exit(int code)
{
    throw vp::exited{code};
}
inline int vp_system(char const * c)
{
    return vp::system_hook ? vp::system_hook(c) : 0;
}
} // namespace std
using std::vp_exit;
using std::vp_system;
#define exit vp_exit
#define system vp_system
#define isatty vp_isatty

namespace vp
{
using strs = std::vector<std::string>;

inline std::string show(std::string const & s)
{
    std::string r{"\""};
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\')
            (r += '\\') += (char)c;
        else if (c < 32 || c > 126)
        {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}
inline std::string show(bool b)
{
    return b ? "true" : "false";
}
inline std::string show(int b)
{
    return std::to_string(b);
}
template <typename T>
inline std::string show(std::vector<T> const & v)
{
    std::string r{"["};
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? " " : "") + show(static_cast<T const &>(v[i]));
    return r + "]";
}

struct Env
{
    bool thorough{};
    unsigned seed{1};
    size_t shard{}, nshards{1};
    size_t counter{}, evals{}, distinct{}, fails{}, samples{};
    char * cur{};
    std::string dir;
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
    std::mt19937 rng{};
};
inline Env env;

inline void init(int argc, char ** argv, char const * rule)
{
    env.thorough = argc > 1 && std::string{argv[1]} == "thorough";
    env.seed = argc > 2 ? std::atoi(argv[2]) : 1;
    env.shard = argc > 3 ? std::atoi(argv[3]) : 0;
    env.nshards = argc > 4 ? std::atoi(argv[4]) : 1;
    env.rng.seed(env.seed * 1000003u + env.shard);
    char const * d = std::getenv("VP_DIR");
    env.dir = d ? d : ".";
    if (char const * c = std::getenv("VP_CUR"))
    {
        int fd = open(c, O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && !ftruncate(fd, 8192))
        {
            void * m = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED)
                env.cur = (char *)m;
        }
    }
    std::printf("RULE %s\n", rule);
    std::fflush(stdout);
}

// true if this shard has to run the next case
inline bool mine()
{
    return env.counter++ % env.nshards == env.shard;
}
inline void current(std::string const & s)
{
    if (env.cur)
    {
        size_t n = std::min<size_t>(s.size(), 8000);
        std::memcpy(env.cur, s.data(), n);
        env.cur[n] = 0;
    }
}
inline void ran(bool nontrivial = true)
{
    ++env.evals;
    env.distinct += nontrivial;
}
inline void sample(std::string const & s)
{
    if (env.samples < 1 && env.evals > 20)
    {
        ++env.samples;
        std::printf("SAMPLE %s\n", s.c_str());
    }
}
inline void fail(std::string s)
{
    for (char & c : s)
        if (c == '\n')
            c = ' ';
    if (++env.fails <= 5)
        std::printf("FAIL %s\n", s.c_str());
    std::fflush(stdout);
}
inline void expect(bool ok, std::string const & what, std::string const & more = "")
{
    if (!ok)
        fail(what + " " + more);
}
inline double seconds()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - env.t0).count();
}
inline bool time_left(double quick = 25, double thorough = 250)
{
    return seconds() < (env.thorough ? thorough : quick) && env.fails < 5;
}
inline int finish()
{
    current("");
    std::printf("STAT %zu %zu\n", env.evals, env.distinct);
    std::fflush(stdout);
    return env.fails ? 1 : 0;
}
inline size_t rnd(size_t n)
{
    return std::uniform_int_distribution<size_t>{0, n - 1}(env.rng);
}
template <typename T>
inline T const & pick(std::vector<T> const & v)
{
    return v[rnd(v.size())];
}

// swallow std::cout / std::cerr
struct capture
{
    std::ostringstream o, e;
    std::streambuf *po, *pe;
    capture() : po{std::cout.rdbuf(o.rdbuf())}, pe{std::cerr.rdbuf(e.rdbuf())}
    {}
    ~capture()
    {
        std::cout.rdbuf(po);
        std::cerr.rdbuf(pe);
    }
};
} // namespace vp

#include <sharg/all.hpp>

namespace vp
{
// name of the exception a call ends with, "" if it returns
struct Threw
{
    std::string type, what;
    int code{-1};
};
template <typename F>
inline Threw outcome(F && f)
{
    auto is = [](char const * t, std::exception const & e)
    {
        return Threw{t, e.what()};
    };
    try
    {
        f();
        return {};
    }
    catch (exited const & e)
    {
        return {"exit", "", e.code};
    }
    catch (sharg::validation_error const & e)
    {
        return is("validation_error", e);
    }
    catch (sharg::unknown_option const & e)
    {
        return is("unknown_option", e);
    }
    catch (sharg::too_many_arguments const & e)
    {
        return is("too_many_arguments", e);
    }
    catch (sharg::too_few_arguments const & e)
    {
        return is("too_few_arguments", e);
    }
    catch (sharg::required_option_missing const & e)
    {
        return is("required_option_missing", e);
    }
    catch (sharg::option_declared_multiple_times const & e)
    {
        return is("option_declared_multiple_times", e);
    }
    catch (sharg::user_input_error const & e)
    {
        return is("user_input_error", e);
    }
    catch (sharg::design_error const & e)
    {
        return is("design_error", e);
    }
    catch (std::exception const & e)
    {
        return is("std::exception", e);
    }
    catch (...)
    {
        return {"unknown exception", ""};
    }
}
} // namespace vp
