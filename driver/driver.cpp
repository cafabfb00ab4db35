// Instantiation driver for the extractor: it only names the real templates at representative types so that clang
// instantiates them; no behaviour of /repo is re-stated here.
#include <sharg/all.hpp>

namespace vp
{
enum class color
{
    red,
    green,
    blue
};
inline auto enumeration_names(color)
{
    return std::unordered_map<std::string_view, color>{{"red", color::red},
                                                       {"green", color::green},
                                                       {"blue", color::blue}};
}

struct custom // streamable, no special meaning
{
    int x{};
    friend std::istream & operator>>(std::istream & is, custom & c);
    friend std::ostream & operator<<(std::ostream & os, custom const & c);
    friend bool operator==(custom const &, custom const &) = default;
};

// the most general validator: nothing is known about what it accepts
struct any_validator
{
    using option_value_type = int;
    template <typename T>
    void operator()(T const & v) const
    {
        validator_body(&v);
    }
    static void validator_body(void const *);
    std::string get_help_page_message() const;
};

struct second_validator
{
    using option_value_type = int;
    template <typename T>
    void operator()(T const & v) const
    {
        validator_body(&v);
    }
    static void validator_body(void const *);
    std::string get_help_page_message() const;
};

template <typename T>
void both(sharg::parser & p, T & v, sharg::config<> const & c)
{
    p.add_option(v, c);
    p.add_positional_option(v, c);
}

template <typename T>
void both2(sharg::parser & p, T & v, sharg::config<any_validator> const & c)
{
    p.add_option(v, c);
    p.add_positional_option(v, c);
}

void drive(sharg::parser & p, sharg::config<> const & c, std::string const & lid)
{
    int8_t i8{};
    uint8_t u8{};
    int16_t i16{};
    uint16_t u16{};
    int i{};
    unsigned u{};
    int64_t i64{};
    uint64_t u64{};
    double d{};
    float f{};
    bool b{};
    std::string s{};
    color e{};
    std::filesystem::path pa{};
    custom cu{};
    std::vector<int> vi{};
    std::vector<int8_t> vi8{};
    std::vector<uint8_t> vu8{};
    std::vector<std::string> vs{};
    std::vector<color> ve{};
    std::vector<std::filesystem::path> vp{};
    std::vector<bool> vb{};
    std::vector<double> vd{};
    both(p, i8, c);
    both(p, u8, c);
    both(p, i16, c);
    both(p, u16, c);
    both(p, i, c);
    both(p, u, c);
    both(p, i64, c);
    both(p, u64, c);
    both(p, d, c);
    both(p, f, c);
    both(p, b, c);
    both(p, s, c);
    both(p, e, c);
    both(p, pa, c);
    both(p, cu, c);
    both(p, vi, c);
    both(p, vi8, c);
    both(p, vu8, c);
    both(p, vs, c);
    both(p, ve, c);
    both(p, vp, c);
    both(p, vd, c);
    p.add_flag(b, c);
    p.add_line("x", true);
    p.add_section("x");
    p.add_subsection("x");
    p.add_list_item("x", "y");
    p.add_subcommands({"a"});
    p.parse();
    p.get_sub_parser();
    (void)p.is_option_set('c');
    (void)p.is_option_set(lid);

    {
        sharg::config<any_validator> cr{};
        both2(p, i, cr);
        both2(p, u8, cr);
        both2(p, d, cr);
        both2(p, b, cr);
        both2(p, s, cr);
        both2(p, e, cr);
        both2(p, pa, cr);
        both2(p, cu, cr);
        both2(p, vi, cr);
        both2(p, vs, cr);
        both2(p, ve, cr);
        both2(p, vp, cr);
        p.add_flag(b, cr);
    }

    // validators
    {
        sharg::config<sharg::arithmetic_range_validator<int>> cr{.validator = {1, 2}};
        p.add_option(i, cr);
        p.add_option(vi, cr);
        p.add_positional_option(i, cr);
        p.add_positional_option(vi, cr);
        cr.validator(i);
        cr.validator(vi);
    }
    {
        sharg::config<sharg::arithmetic_range_validator<double>> cr{.validator = {1, 2}};
        p.add_option(d, cr);
        p.add_option(vd, cr);
    }
    {
        sharg::config<sharg::value_list_validator<std::string>> cr{.validator = std::vector<std::string>{"a"}};
        p.add_option(s, cr);
        p.add_option(vs, cr);
    }
    {
        sharg::config<sharg::value_list_validator<int>> cr{.validator = std::vector<int>{1}};
        p.add_option(i, cr);
        p.add_option(vi, cr);
        sharg::value_list_validator<int> x{1, 2, 3};
        sharg::value_list_validator<std::string> y{std::string{"a"}, "b"};
        x(i);
        y(s);
    }
    {
        sharg::config<sharg::regex_validator> cr{.validator = sharg::regex_validator{"a"}};
        p.add_option(s, cr);
        p.add_option(vs, cr);
    }
    {
        sharg::config<sharg::input_file_validator> cr{.validator = sharg::input_file_validator{{"a"}}};
        p.add_option(pa, cr);
        p.add_option(vp, cr);
        cr.validator(pa);
    }
    {
        sharg::config<sharg::output_file_validator> cr{
            .validator = sharg::output_file_validator{sharg::output_file_open_options::create_new,
                                                      std::vector<std::string>{"a"}}};
        p.add_option(pa, cr);
        p.add_option(vp, cr);
        sharg::output_file_validator y{sharg::output_file_open_options::create_new, std::string{"a"}, std::string{"b"}};
        sharg::output_file_validator z{std::vector<std::string>{"a"}};
        cr.validator(pa);
    }
    {
        sharg::config<sharg::input_directory_validator> cr{};
        p.add_option(pa, cr);
        cr.validator(pa);
    }
    {
        sharg::config<sharg::output_directory_validator> cr{};
        p.add_option(pa, cr);
        cr.validator(pa);
    }
    {
        auto ch = sharg::arithmetic_range_validator<int>{1, 2} | sharg::value_list_validator<int>{1, 2};
        sharg::config<decltype(ch)> cr{.validator = ch};
        p.add_option(i, cr);
        p.add_option(vi, cr);
        ch(i);
        ch(vi);
        (void)ch.get_help_page_message();
    }
    {
        // values of another arithmetic type than the validator
        sharg::arithmetic_range_validator<int> r{1, 2};
        r(d), r(f), r(i64), r(u64), r(u8), r(u), r(vd), r(vu8);
        sharg::arithmetic_range_validator<unsigned> ru{1, 2};
        ru(i), ru(i8), ru(vi), ru(d);
        sharg::arithmetic_range_validator<double> rd{1, 2};
        rd(i), rd(f);
        sharg::value_list_validator<int> l{1, 2};
        l(d), l(i64), l(u64), l(u8), l(vd);
        auto ch = sharg::operator|(any_validator{}, second_validator{});
        ch(i), ch(s), ch(vs), ch(d);
    }
}

void drive2(std::string const & name, int argc, char const ** argv)
{
    std::vector<std::string> args{argv, argv + argc};
    sharg::parser p1{name, args, sharg::update_notifications::on, {}};
    sharg::parser p2{name, argc, argv, sharg::update_notifications::on, {}};
}
} // namespace vp
