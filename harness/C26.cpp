// Temporary entries are always cleaned up.
// flags: -DNDEBUG
#include "fs_oracle.hpp"
using namespace vp;
using sharg::detail::safe_filesystem_entry;
int main(int argc, char ** argv)
{
    init(argc, argv, "scope guards of files, empty and full directories, missing entries and entries that cannot be removed, left normally, by an exception and after remove/remove_all/move, in a scratch tree, as an unprivileged user");
    if (!enter_scratch("c26"))
        return finish();
    strs entries{"t/rw.txt", "t/empty.txt", "t/none.txt", "t/noext", "t/.hidden", "t/d", "t/d/sub", "t/d/dummy.txt", "t/empty_dir", "t/dir.txt", "t/dir.txt/inside.txt", "t/link.txt", "t/link_dir", "t/loop.txt", "t/fifo.txt",
                 "t/new", "t/new.txt", "t/new/deep", "t/locked/f.txt", "t/locked/new", "t/blind/f.txt", "t/closed/f.txt", "", "t/d/sub/file.txt", "t/dummy.txt", "t/made", "t/made2.txt"};
    for (size_t round = 0; round < (env.thorough ? 20u : 4u); ++round)
        for (auto & e : entries)
            for (int how = 0; how < 10; ++how)
            {
                if (!mine() || !time_left(60, 200))
                    continue;
                build_tree();
                static char const * hows[]{"normal exit", "exception", "remove()", "remove_all()", "remove_no_throw()", "moved into another guard", "entry removed by somebody else", "entry created in the scope", "directory filled in the scope", "exception after remove_no_throw()"};
                std::string what = std::string{"guard of "} + show(e) + ", " + hows[how];
                current(what);
                auto before = snapshot();
                bool removable;
                {
                    as_nobody guard;
                    Oracle o{e};
                    struct stat s{};
                    removable = !e.empty() && lstat(e.c_str(), &s) == 0 && o.may(o.parent().c_str(), W_OK | X_OK);
                }
                Threw t;
                bool late = false;
                {
                    as_nobody guard;
                    t = outcome(
                        [&]
                        {
                            safe_filesystem_entry g{fs::path{e}};
                            switch (how)
                            {
                            case 1: throw std::runtime_error{"thrown"};
                            case 2:
                                try
                                {
                                    g.remove();
                                }
                                catch (fs::filesystem_error const &)
                                {}
                                break;
                            case 3:
                                try
                                {
                                    g.remove_all();
                                }
                                catch (fs::filesystem_error const &)
                                {}
                                break;
                            case 4: g.remove_no_throw(); break;
                            case 5:
                            {
                                safe_filesystem_entry h{std::move(g)};
                                struct stat s{};
                                late = lstat(e.c_str(), &s) == 0;
                                break;
                            }
                            case 6:
                            {
                                std::error_code ec;
                                fs::remove(e, ec);
                                break;
                            }
                            case 7:
                                if (!e.empty() && !fs::is_symlink(e) && !fs::exists(e))
                                    std::ofstream{e} << "made";
                                break;
                            case 8:
                                if (e == "t/made" || e == "t/empty_dir")
                                {
                                    fs::create_directories(e + "/x/y");
                                    std::ofstream{e + "/x/y/z"} << "made";
                                }
                                break;
                            case 9: g.remove_no_throw(); throw std::runtime_error{"thrown"};
                            }
                        });
                }
                ran();
                if (how == 7 && t.type == "std::exception") // asking for the status failed in the harness itself
                    t = {};
                expect(t.type == (how == 1 || how == 9 ? "std::exception" : ""), what, "ended with " + t.type + " " + t.what);
                if (how == 5 && removable)
                    expect(late, what, "the entry disappeared while its new owner was alive");
                auto after = snapshot();
                for (auto & [k, v] : before)
                {
                    std::string me = "./" + e;
                    bool mine_ = !e.empty() && (k == me || k.starts_with(me + "/"));
                    if (mine_ && removable)
                        expect(!after.contains(k), what, k + " is still there");
                    if (!mine_)
                        expect(after.contains(k) && (after.at(k) == v), what, "removed or changed " + k);
                }
                for (auto & [k, v] : after)
                    expect(before.contains(k), what, "left behind " + k);
                sample(what);
            }
    chmod("t/closed", 0777);
    (void)!chdir("..");
    fs::remove_all("c26");
    return finish();
}
