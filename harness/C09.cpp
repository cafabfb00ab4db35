// Values are converted strictly and completely.
#include "common.hpp"
using namespace vp;
namespace vpe
{
enum class colour
{
    red,
    green,
    blue
};
auto enumeration_names(colour)
{
    return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"green", colour::green}, {"gre", colour::blue}, {"0", colour::blue}};
}
struct coord // user type read with operator>>
{
    int x{};
    friend std::istream & operator>>(std::istream & s, coord & c)
    {
        return s >> c.x;
    }
    friend std::ostream & operator<<(std::ostream & s, coord const & c)
    {
        return s << c.x;
    }
    bool operator==(coord const &) const = default;
};
} // namespace vpe

template <typename T>
bool same(T const & a, T const & b)
{
    return a == b;
}
inline bool same(std::filesystem::path const & a, std::filesystem::path const & b)
{
    return a.native() == b.native();
}
// form: 0 `-n v`, 1 `--num=v`, 2 `-nv`, 3 positional, 4.. the same for lists
template <typename T>
void judge(std::string const & type, std::string const & in, std::optional<T> const & want)
{
    for (int form = 0; form < 8; ++form)
    {
        int const f = form % 4;
        bool const lst = form >= 4;
        if ((f == 1 || f == 2) && (in.empty() || (f == 2 && in[0] == '=')))
            continue;
        if (f == 3 && in.empty())
            continue;
        if (f == 0 && in == "--")
            continue;
        std::string const id = type + " form " + std::to_string(form) + " <- " + show(in);
        current(id);
        T v{};
        std::vector<T> vs{};
        strs argv = f == 0   ? strs{"app", "-n", in}
                  : f == 1 ? strs{"app", "--num=" + in}
                  : f == 2 ? strs{"app", "-n" + in}
                           : strs{"app", "--", in};
        capture cap;
        sharg::parser p{"app", argv, sharg::update_notifications::off};
        auto add = [&](auto & x)
        {
            if (f == 3)
                p.add_positional_option(x, sharg::config{});
            else
                p.add_option(x, sharg::config{.short_id = 'n', .long_id = "num"});
        };
        if (lst)
            add(vs);
        else
            add(v);
        Threw t = outcome([&] { p.parse(); });
        ran();
        sample(id + (t.type.empty() ? " accepted" : " rejected: " + t.what));
        if (want)
        {
            if (!t.type.empty())
                fail(id + " is a valid value but was rejected: " + t.type + " " + t.what);
            else if (lst ? vs.size() != 1 || !same(static_cast<T>(vs[0]), *want) : !same(v, *want))
                fail(id + " was not delivered exactly");
        }
        else
        {
            if (t.type != "user_input_error")
                fail(id + " is no valid value but gave: " + (t.type.empty() ? "success" : t.type + " " + t.what));
            else if (f == 0 || f == 2 ? t.what.find("-n") == std::string::npos : f == 1 ? t.what.find("--num") == std::string::npos : t.what.find("positional option1") == std::string::npos)
                if (!type.starts_with("enum"))
                    fail(id + ": the error does not name the option: " + t.what);
        }
    }
}

template <typename T>
std::optional<T> integer(std::string const & s)
{
    size_t i = 0;
    bool neg = false;
    if (std::is_signed_v<T> && !s.empty() && s[0] == '-')
        neg = true, i = 1;
    if (i == s.size() || s.size() - i > 500)
        return {};
    __int128 v = 0;
    for (; i < s.size(); ++i)
    {
        if (s[i] < '0' || s[i] > '9')
            return {};
        v = v * 10 + (s[i] - '0');
        if (v > (__int128)1 << 70)
            v = (__int128)1 << 70;
    }
    if (neg)
        v = -v;
    if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max())
        return {};
    return (T)v;
}
template <typename T>
std::optional<T> floating(std::string const & s, bool & skip)
{
    skip = false;
    size_t i = !s.empty() && s[0] == '-', digits = 0, n = s.size();
    if (i < n && (std::tolower(s[i]) == 'i' || std::tolower(s[i]) == 'n'))
        skip = true;
    while (i < n && std::isdigit((unsigned char)s[i]))
        ++i, ++digits;
    if (i < n && s[i] == '.')
        for (++i; i < n && std::isdigit((unsigned char)s[i]); ++i)
            ++digits;
    if (!digits)
        return {};
    if (i < n && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i;
        if (i < n && (s[i] == '+' || s[i] == '-'))
            ++i;
        size_t e = 0;
        while (i < n && std::isdigit((unsigned char)s[i]))
            ++i, ++e;
        if (!e)
            return {};
    }
    if (i != n)
        return {};
    T v = std::is_same_v<T, float> ? (T)std::strtof(s.c_str(), nullptr) : (T)std::strtod(s.c_str(), nullptr);
    if (std::isinf(v))
        return {};
    if (v == 0 && s.find_first_of("123456789") < s.find_first_of("eE"))
        return {}; // underflow
    if (v != 0 && std::abs(v) < std::numeric_limits<T>::min())
        skip = true;
    return v;
}

template <typename T>
void ints(char const * name, strs const & in)
{
    for (auto & s : in)
        if (mine() && env.fails < 5)
            judge<T>(name, s, integer<T>(s));
}

int main(int argc, char ** argv)
{
    init(argc, argv, "boundary numbers of every integer width with near-miss variants, floats, booleans, enumeration names, strings, paths and a user type; single, list and positional; every spelling; random digit strings");
    strs nums{"", "0", "00", "-0", "+0", "1", "-1", "+1", "01", "1 ", " 1", "1\n", "1x", "x1", "x", "0x1", "0x", "1e1", "1.0", "1.", ".1", "--1", "-", "1-", "1,2", "1,000", "true", "0b1", "1u", "1L", "\xc2\xb2"};
    for (int bits : {7, 8, 15, 16, 31, 32, 63, 64})
        for (int d = -2; d <= 2; ++d)
        {
            __int128 v = ((__int128)1 << bits) + d;
            std::string s;
            for (__int128 x = v; x; x /= 10)
                s.insert(s.begin(), char('0' + (int)(x % 10)));
            for (std::string const & t : {s, "-" + s, "0" + s, s + "0", s + "x", s + " "})
                nums.push_back(t);
        }
    for (int i = 0; i < (env.thorough ? 3000 : 60); ++i)
    {
        std::string s;
        for (size_t n = 1 + rnd(22); n; --n)
            s += "0123456789"[rnd(10)];
        if (rnd(3) == 0)
            s = "-" + s;
        if (rnd(4) == 0)
            s.insert(rnd(s.size() + 1), 1, " -+.xe,"[rnd(7)]);
        nums.push_back(s);
    }
    ints<int8_t>("int8", nums);
    ints<uint8_t>("uint8", nums);
    ints<int16_t>("int16", nums);
    ints<uint16_t>("uint16", nums);
    ints<int32_t>("int32", nums);
    ints<uint32_t>("uint32", nums);
    ints<int64_t>("int64", nums);
    ints<uint64_t>("uint64", nums);
    ints<size_t>("size_t", nums);
    ints<long long>("long long", nums);

    strs fl = nums;
    for (char const * s : {"1.5", "-1.5", "1e3", "1E-3", "1e+3", "1e", "1e+", "1.5e3x", "1.5f", "1,5", "1.5.5", "1e400", "-1e400", "1e-400", "3e38", "4e38", "1e39", "1e308", "1.8e308", "0x1p3", "1_0", "0.1", "123456789.125", "0e0", "1e5 ", "e5", ".", "-.", "-.5", "5.", "5.e1"})
        fl.push_back(s);
    for (auto & s : fl)
        if (mine() && env.fails < 5)
        {
            bool skip;
            auto f = floating<float>(s, skip);
            if (!skip)
                judge<float>("float", s, f);
            auto d = floating<double>(s, skip);
            if (!skip)
                judge<double>("double", s, d);
        }

    for (std::string const & s : strs{"0", "1", "true", "false", "", "2", "00", "01", "True", "TRUE", "tru", "truee", "true ", " true", "false0", "fals", "t", "f", "yes", "no", "-1", "10", "on", "1 ", "0x0", "falsetrue", "1true"})
        if (mine())
            judge<bool>("bool", s, s == "0" || s == "false" ? std::optional<bool>{false} : s == "1" || s == "true" ? std::optional<bool>{true} : std::nullopt);

    auto names = enumeration_names(vpe::colour{});
    for (std::string const & s : strs{"red", "green", "gre", "0", "1", "", "re", "redd", "Red", " red", "red ", "blue", "greens", "00", "-red", "gree"})
        if (mine())
            judge<vpe::colour>("enum", s, names.contains(s) ? std::optional{names.at(s)} : std::nullopt);

    for (std::string const & s : strs{"", "a", " a", "a ", "a b", "\"a\"", "\"a b\"", "'a'", "a\\", "\\\"", "=", "a=b", "a\nb", "\t", "-", "-x", "\xff\x80", "/a/b", "./a", "../a", "a//b", "a/", "~", "$HOME", "*", std::string(5000, 'q'), "\"", "\"a", "a\"b"})
        if (mine() && s != "-x")
        {
            judge<std::string>("string", s, s);
            // paths: byte for byte (native spelling)
            std::optional<std::filesystem::path> p{std::filesystem::path{s}};
            judge<std::filesystem::path>("path", s, p);
        }

    for (std::string const & s : strs{"1", "-7", "1x", "x", "", "1 2", "1 ", "99999999999", "+3"})
        if (mine() && s != "")
        {
            // operator>> of the user type decides; everything must be consumed
            std::istringstream st{s};
            vpe::coord c;
            st >> c;
            judge<vpe::coord>("user type", s, st.fail() || !st.eof() ? std::nullopt : std::optional{c});
        }

    // positional and several values: garbage at any place
    for (char const * g : {"x", "1x", "300", "-129"})
        for (size_t at = 0; at < 3; ++at)
            if (mine())
            {
                std::vector<int8_t> v;
                strs a{"app", "--", "1", "2", "3"};
                a[2 + at] = g;
                capture cap;
                sharg::parser p{"app", a, sharg::update_notifications::off};
                p.add_positional_option(v, sharg::config{});
                Threw t = outcome([&] { p.parse(); });
                ran();
                if (t.type != "user_input_error")
                    fail("positional list<int8> <- " + show(a) + ": " + t.type);
            }
    return finish();
}
