// Value validators accept exactly the specified values.
#include "common.hpp"
using namespace vp;
using sharg::operator|;

// mathematical comparison; mixed integer/floating point is compared in the common type with double
template <typename A, typename B>
int order(A a, B b) // -1, 0, 1; 2 = unordered
{
    if constexpr (std::integral<A> && std::integral<B>)
    {
        __int128 x = a, y = b;
        return x < y ? -1 : x > y;
    }
    else
    {
        long double x = (long double)a, y = (long double)b;
        if constexpr (std::integral<A>)
            x = (double)a;
        if constexpr (std::integral<B>)
            y = (double)b;
        if (std::isnan(x) || std::isnan(y))
            return 2;
        return x < y ? -1 : x > y;
    }
}

template <typename T>
std::vector<T> corners()
{
    std::vector<T> r{T(0), T(1), T(2), T(100), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(std::numeric_limits<T>::max() / 2), T(97)};
    if constexpr (std::is_signed_v<T>)
        r.push_back(T(-1)), r.push_back(T(-100));
    if constexpr (std::is_floating_point_v<T>)
        for (T x : {T(0.5), T(-0.0), T(1.5), T(-1.5), T(2.25), T(99.75), T(0.1), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min()})
            r.push_back(x);
    return r;
}
template <typename T>
std::string num(T x)
{
    std::ostringstream o;
    o.precision(20);
    o << +x;
    return o.str();
}
template <typename T>
std::string nums(std::vector<T> const & v)
{
    std::string r;
    for (T x : v)
        r += num(x) + " ";
    return r;
}
template <typename V, typename X>
void judge(V const & v, X const & x, bool ok, std::string const & what)
{
    current(what);
    X const copy = x;
    Threw t = outcome(
        [&]
        {
            v(copy);
        });
    ran();
    expect(t.type == (ok ? "" : "validation_error"), what, "must be " + std::string{ok ? "accepted" : "rejected with a validation error"} + " but: " + (t.type.empty() ? "accepted" : t.type));
}

template <typename T, typename N>
void range_case(T lo, T hi, std::vector<N> const & xs)
{
    sharg::arithmetic_range_validator<T> v{lo, hi};
    bool all = true;
    std::string w = std::string{"range validator ["} + num(lo) + "," + num(hi) + "] on type " + typeid(N).name() + " value ";
    for (N x : xs)
    {
        auto le = [](int o)
        {
            return o == -1 || o == 0;
        };
        bool ok = le(order(lo, x)) && le(order(x, hi));
        all = all && ok;
        judge(v, x, ok, w + num(x));
    }
    judge(v, xs, all, w + "list " + nums(xs));
}
template <typename T, typename N>
void list_case(std::vector<T> const & vals, std::vector<N> const & xs)
{
    sharg::value_list_validator<T> v{vals};
    bool all = true;
    std::string w = std::string{"list validator of "} + typeid(T).name() + " {" + nums(vals) + "} on type " + typeid(N).name() + " value ";
    for (N x : xs)
    {
        bool ok = std::ranges::any_of(vals,
                                      [&](T y)
                                      {
                                          return order(x, y) == 0;
                                      });
        all = all && ok;
        if constexpr (std::is_constructible_v<T, N>)
            judge(v, x, ok, w + num(x));
    }
    if constexpr (std::convertible_to<N, T>)
        judge(v, xs, all, w + "list " + nums(xs));
}
template <typename T, typename N>
void pair_of_types()
{
    auto a = corners<T>();
    auto b = corners<N>();
    for (T lo : a)
        for (T hi : a)
        {
            if (!mine() || !time_left(60, 200))
                continue;
            for (N x : b)
                range_case<T, N>(lo, hi, {x});
            std::vector<N> xs;
            for (size_t n = rnd(4); n; --n)
                xs.push_back(pick(b));
            range_case<T, N>(lo, hi, xs);
            std::vector<T> vals{lo, hi};
            if (rnd(2))
                vals.push_back(pick(a));
            if (!rnd(4))
                vals.clear();
            list_case<T, N>(vals, xs);
            for (N x : b)
                list_case<T, N>(vals, {x});
        }
}

// ---- regular expressions: our own matcher for concatenations of (alternatives | classes | . | literals) with * + ?
struct Atom
{
    std::string re;
    std::function<bool(char)> in;
    char rep;
};
bool full(std::vector<Atom> const & as, size_t i, std::string const & s, size_t p)
{
    if (i == as.size())
        return p == s.size();
    size_t lo = as[i].rep == '*' || as[i].rep == '?' ? 0 : 1, hi = as[i].rep == '*' || as[i].rep == '+' ? s.size() : 1;
    for (size_t n = 0; n <= hi; ++n)
    {
        if (n >= lo && full(as, i + 1, s, p + n))
            return true;
        if (p + n >= s.size() || !as[i].in(s[p + n]))
            return false;
    }
    return false;
}

// a part of a chain that records when it is asked
struct part
{
    using option_value_type = int;
    std::string * log{};
    char name{};
    int limit{};
    void operator()(int const & x) const
    {
        *log += name;
        if (x > limit)
            throw sharg::validation_error{std::string{"part "} + name};
    }
    void operator()(std::vector<int> const & v) const
    {
        *log += name;
        for (int x : v)
            if (x > limit)
                throw sharg::validation_error{std::string{"part "} + name};
    }
    std::string get_help_page_message() const
    {
        return {};
    }
};
template <typename V>
void chain_case(V const & v, std::vector<int> const & limits, std::string & log, int x, bool as_list)
{
    log.clear();
    std::string want, msg;
    for (size_t i = 0; i < limits.size() && msg.empty(); ++i)
    {
        want += (char)('a' + i);
        if (x > limits[i])
            msg = std::string{"part "} + (char)('a' + i);
    }
    std::string w = "chain with limits " + nums(limits) + (as_list ? "on the list {0, " : "on {") + num(x) + "}";
    current(w);
    Threw t = outcome(
        [&]
        {
            if (as_list)
                v(std::vector<int>{0, x});
            else
                v(x);
        });
    ran();
    expect(log == want, w, "parts were asked in the order " + log + " instead of " + want);
    expect(t.type == (msg.empty() ? "" : "validation_error") && t.what == msg, w, "ended with " + t.type + " " + t.what + " instead of " + msg);
}

int main(int argc, char ** argv)
{
    init(argc, argv, "all pairs of corner values per pair of number types as range and as list, single values and lists; all words up to length 5 over 5 letters against 40 random regular expressions with an independent matcher; chains of up to 4 parts");
    pair_of_types<int, int>();
    pair_of_types<int, double>();
    pair_of_types<int, long>();
    pair_of_types<double, double>();
    pair_of_types<double, int>();
    pair_of_types<double, float>();
    pair_of_types<float, float>();
    pair_of_types<float, double>();
    pair_of_types<unsigned char, unsigned char>();
    pair_of_types<unsigned char, int>();
    pair_of_types<signed char, int>();
    pair_of_types<unsigned, int>();
    pair_of_types<int, unsigned>();
    pair_of_types<long, unsigned long>();
    pair_of_types<unsigned long, long>();
    pair_of_types<short, int>();

    // texts
    strs words{"", "a", "b", "ab", "A", "a ", " a", "aa", "abc", "a\nb", std::string("a\0b", 3)};
    for (size_t m = 0; m < 200; ++m)
    {
        strs vals;
        for (size_t n = rnd(4); n; --n)
            vals.push_back(pick(words));
        sharg::value_list_validator<std::string> v{vals};
        strs xs;
        bool all = true;
        for (std::string const & x : words)
        {
            bool ok = std::ranges::count(vals, x) > 0;
            judge(v, x, ok, "list validator " + show(vals) + " on " + show(x));
            if (rnd(4) == 0 || ok)
                xs.push_back(x), all = all && ok;
        }
        judge(v, xs, all, "list validator " + show(vals) + " on the list " + show(xs));
    }
    {
        sharg::value_list_validator v{"one", "two", "three"};
        for (char const * w : {"one", "two", "three", "", "on", "onetwo", "Two"})
            judge(v, std::string{w}, strlen(w) > 2 && w[0] != 'T' && strlen(w) < 6, std::string{"list validator {one,two,three} on "} + w);
        sharg::value_list_validator n{3, -1, 7};
        for (int x : {-2, -1, 0, 3, 4, 7, 8})
            judge(n, x, x == 3 || x == -1 || x == 7, "list validator {3,-1,7} on " + num(x));
        judge(n, std::vector<int>{3, 7, -1, 3}, true, "list validator {3,-1,7} on {3,7,-1,3}");
        judge(n, std::vector<int>{3, 7, -1, 4}, false, "list validator {3,-1,7} on {3,7,-1,4}");
        judge(n, std::vector<int>{4, 7, -1, 3}, false, "list validator {3,-1,7} on {4,7,-1,3}");
    }

    // regular expressions
    strs texts{""};
    for (size_t i = 0; i < texts.size(); ++i)
        if (texts[i].size() < 5)
            for (char c : std::string{"abA1\n"})
                texts.push_back(texts[i] + c);
    for (size_t m = 0; m < (env.thorough ? 400u : 40u); ++m)
    {
        std::vector<Atom> base{{"a", [](char c) { return c == 'a'; }, 0},
                               {"b", [](char c) { return c == 'b'; }, 0},
                               {"[ab]", [](char c) { return c == 'a' || c == 'b'; }, 0},
                               {"[^a]", [](char c) { return c != 'a'; }, 0},
                               {".", [](char c) { return c != '\n'; }, 0},
                               {"[A-Z]", [](char c) { return c >= 'A' && c <= 'Z'; }, 0},
                               {"[0-9]", [](char c) { return c >= '0' && c <= '9'; }, 0},
                               {"(a|1)", [](char c) { return c == 'a' || c == '1'; }, 0}};
        std::vector<Atom> as;
        std::string re;
        for (size_t n = rnd(4); n; --n)
        {
            as.push_back(pick(base));
            as.back().rep = std::array<char, 4>{0, '*', '+', '?'}[rnd(4)];
            re += as.back().re;
            if (as.back().rep)
                re += as.back().rep;
        }
        sharg::regex_validator v{re};
        strs some;
        bool all = true;
        for (auto & t : texts)
        {
            if (!mine() || !time_left(90, 250))
                continue;
            bool ok = full(as, 0, t, 0);
            judge(v, t, ok, "regex validator " + show(re) + " on " + show(t));
            if ((ok && rnd(3) == 0) || rnd(600) == 0)
                some.push_back(t), all = all && ok;
        }
        judge(v, some, all, "regex validator " + show(re) + " on the list " + show(some));
    }

    // chains
    std::string log;
    for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b)
            for (int c = 0; c < 4; ++c)
                for (int d = 0; d < 4; ++d)
                {
                    part pa{&log, 'a', a}, pb{&log, 'b', b}, pc{&log, 'c', c}, pd{&log, 'd', d};
                    for (int x = 0; x < 5; ++x)
                        for (bool l : {false, true})
                        {
                            chain_case(pa | pb, {a, b}, log, x, l);
                            chain_case(pa | pb | pc, {a, b, c}, log, x, l);
                            chain_case(pa | (pb | pc), {a, b, c}, log, x, l);
                            chain_case((pa | pb) | (pc | pd), {a, b, c, d}, log, x, l);
                        }
                }
    return finish();
}
