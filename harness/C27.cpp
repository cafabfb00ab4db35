// Lists, default values and escaped texts are printed as documented: independent oracle on the real functions.
#include "common.hpp"
#include <sharg/all.hpp>
#include <iomanip>
#include <sstream>
using namespace vp;
struct acc : sharg::detail::format_base
{
    static std::string escape(std::string const & s) { return escape_special_xml_chars(s); }
    static std::string expand(std::string const & s) { return expand_multiple_flags(s); }
    template <typename a, typename b>
    static std::string def(a const & x, b const & y) { return get_default_message(x, y); }
};
template <typename T>
static std::string number(T const & v)
{
    std::ostringstream s;
    if constexpr (sizeof(T) == 1 && !std::is_same_v<T, bool>)
        s << (int)v;
    else
        s << v;
    return s.str();
}
static std::string quote(std::string const & v)
{
    std::string r{"\""};
    for (char c : v)
    {
        if (c == '"' || c == '\\')
            r += '\\';
        r += c;
    }
    return r + '"';
}
template <typename T, typename F>
static std::string listed(std::vector<T> const & v, F f)
{
    std::string r{"["};
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (i)
            r += ", ";
        r += f(static_cast<T const &>(v[i]));
    }
    return r + "]";
}
static void same(std::string const & what, std::string const & got, std::string const & want)
{
    ran();
    expect(got == want, what, "must be printed as " + show(want) + " but is " + show(got));
    sample(what + " -> " + show(got));
}
template <typename T>
static void numbers(char const * t, std::vector<T> const & vals)
{
    for (auto v : vals)
        if (mine())
        {
            current(std::string{"to_string of "} + t);
            same(std::string{"the "} + t + " " + number<T>(v), sharg::detail::to_string(v), number<T>(v));
            same(std::string{"default of the "} + t + " " + number<T>(v), acc::def(static_cast<T const &>(v), static_cast<T const &>(v)), " Default: " + number<T>(v));
        }
    for (size_t n = 0; n < 6; ++n)
        for (size_t k = 0; k < (n ? 8u : 1u); ++k)
        {
            std::vector<T> l;
            for (size_t i = 0; i < n; ++i)
                l.push_back(vals[(i * 7 + k * 3) % vals.size()]);
            if (!mine())
                continue;
            current(std::string{"to_string of a list of "} + t);
            std::string want = listed(l, number<T>);
            same(std::string{"the list of "} + t + " " + want, sharg::detail::to_string(l), want);
            same(std::string{"default of the list of "} + t + " " + want, acc::def(l, l), " Default: " + want);
            same(std::string{"several values around the list of "} + t + " " + want, sharg::detail::to_string("a", l, std::string{"b"}, 7), "a" + want + "b7");
        }
}
int main(int argc, char ** argv)
{
    init(argc, argv, "all texts up to length 6 over 7 characters and random ones for escaping; lists of up to 5 elements of numbers, texts and paths for printing; independent oracle");
    numbers<int>("int", {0, 1, -1, 42, 2147483647, -2147483647 - 1});
    numbers<signed char>("int8_t", {0, 1, -1, 65, 127, -128, 10});
    numbers<unsigned char>("uint8_t", {0, 1, 65, 255, 10, 44});
    numbers<short>("int16_t", {0, -1, 300});
    numbers<unsigned long>("uint64_t", {0, 1, 18446744073709551615ul});
    numbers<double>("double", {0, 1.5, -2.25, 1e30});
    strs ts{"", "a", "b", "a b", "\"", "\\", "a\"b", ", ", "[x]", "a,b", "<&>"};
    for (size_t i = 0; i < ts.size(); ++i)
        for (size_t j = 0; j <= ts.size(); ++j)
        {
            if (!mine())
                continue;
            strs l{ts[i]};
            if (j < ts.size())
                l.push_back(ts[j]), l.push_back(ts[(i + j) % ts.size()]);
            std::vector<std::filesystem::path> p(l.begin(), l.end());
            current("list of texts " + show(l));
            auto id = [](std::string const & s) { return s; };
            auto pq = [](std::filesystem::path const & s) { return quote(s.string()); };
            same("the list of texts " + show(l), sharg::detail::to_string(l), listed(l, id));
            same("default of the list of texts " + show(l), acc::def(l, l), " Default: " + listed(l, quote));
            same("default message of a list of texts " + show(ts[i]), acc::def(l, ts[i]), " Default: " + ts[i]);
            same("the list of paths " + show(l), sharg::detail::to_string(p), listed(p, pq));
            same("default of the list of paths " + show(l), acc::def(p, p), " Default: " + listed(p, pq));
            same("default of the text " + show(ts[i]), acc::def(ts[i], ts[i]), " Default: " + quote(ts[i]));
            same("default of the path " + show(ts[i]), acc::def(p[0], p[0]), " Default: " + quote(ts[i]));
            same("default message of the path " + show(ts[i]), acc::def(p[0], ts[i]), " Default: " + quote(ts[i]));
            same("default message of a number " + show(ts[i]), acc::def(3, ts[i]), " Default: " + ts[i]);
        }
    if (mine())
        same("the empty list of texts", sharg::detail::to_string(strs{}), "[]"), same("default of the empty list of texts", acc::def(strs{}, strs{}), " Default: []");
    for (size_t n = 2; n <= 14; ++n)
        for (size_t k = 0; k < 40; ++k)
        {
            if (!mine())
                continue;
            std::string s{"-"}, w;
            for (size_t i = 0; i < n; ++i)
            {
                char c = k < 4 ? "aa-z"[(i * k) % 4] : (char)(33 + env.rng() % 94);
                s += c;
                w += std::string{i == 0 ? "" : i + 1 == n ? " and " : ", "} + "-" + c;
            }
            current("flags of the group " + show(s));
            same("the flags of the group " + show(s), acc::expand(s), w);
        }
    auto esc = [&](std::string const & s)
    {
        std::string w;
        for (char c : s)
            switch (c)
            {
            case '<': w += "&lt;"; break;
            case '>': w += "&gt;"; break;
            case '&': w += "&amp;"; break;
            case '"': w += "&quot;"; break;
            case '\'': w += "&apos;"; break;
            default: w += c;
            }
        current("escaping of " + show(s));
        same("the escaped text " + show(s), acc::escape(s), w);
    };
    std::string al{"a<>&\"';"};
    size_t total = 1, maxlen = env.thorough ? 7 : 6;
    for (size_t n = 0; n <= maxlen; ++n, total *= al.size())
        for (size_t k = 0; k < total; ++k)
        {
            if (!mine())
                continue;
            std::string s;
            for (size_t i = 0, x = k; i < n; ++i, x /= al.size())
                s += al[x % al.size()];
            esc(s);
        }
    for (int b = 1; b < 256; ++b)
        if (mine())
            esc(std::string{"x"} + (char)b + "y");
    for (size_t k = 0; k < 2000; ++k)
    {
        std::string s;
        size_t n = env.rng() % 200;
        for (size_t i = 0; i < n; ++i)
            s += env.rng() % 3 ? (char)(1 + env.rng() % 255) : al[env.rng() % al.size()];
        esc(s);
    }
    return finish();
}
