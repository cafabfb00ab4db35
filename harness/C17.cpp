// Validating a path leaves the file system as it was.
// flags: -DNDEBUG
#include "fs_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "every validator on about 70 paths in a scratch tree with files and directories of all kinds and permissions, as an unprivileged user; the tree is compared before and after; the probe names dummy.txt, dummy.txt_, ... may exist already");
    if (!enter_scratch("c17"))
        return finish();
    for (size_t round = 0; round < (env.thorough ? 30u : 5u); ++round)
        for (kind_of k : {in_file, out_new, out_any, in_dir, out_dir})
            for (std::string const & p0 : all_paths())
                for (bool dangling : {false, true})
                {
                    std::string p = dangling ? "t/dangling.txt" : p0;
                    if (dangling && p0 != "t/rw.txt")
                        continue;
                    strs exts = round == 0 ? strs{} : round == 1 ? strs{"txt"} : random_exts();
                    if (!mine() || skip(k, p) || !time_left(60, 200))
                        continue;
                    build_tree();
                    if (dangling)
                        link_to("t/dangling.txt", "target.txt");
                    for (size_t n = rnd(4), i = 0; i < n; ++i)
                        put("t/empty_dir/dummy.txt" + std::string(i, '_'), "probe " + std::to_string(i), 0644);
                    std::string what = std::string{names[k]} + " with extensions " + show(exts) + " on " + show(p);
                    current(what);
                    auto before = snapshot();
                    Threw t;
                    bool existed, writable, named = name_ok(p, exts);
                    {
                        as_nobody guard;
                        Oracle o{p};
                        existed = o.exists();
                        writable = o.writable();
                        t = validate(k, fs::path{p}, exts);
                    }
                    std::string d = difference(before, snapshot());
                    ran();
                    if (d.empty())
                        continue;
                    // the probe for writing removes the file that it has opened
                    auto same = [](std::string const & a, std::string const & b)
                    {
                        return fs::path{a}.lexically_normal() == fs::path{b}.lexically_normal();
                    };
                    std::string gone = d.starts_with("removed ") ? d.substr(8) : "";
                    std::string real = p;
                    if (p.starts_with("t/link_dir/"))
                        real = "t/d/" + p.substr(11);
                    if (k == out_any && existed && writable && named && (same(gone, real) || (p.starts_with("t/locked/") && d == "changed ./" + p)))
                        std::printf("KNOWN output-file-removed %s: %s\n", what.c_str(), d.c_str());
                    else if (dangling && (k == out_any || k == out_new) && named && d == "removed ./t/dangling.txt; left behind ./t/target.txt")
                        std::printf("KNOWN output-file-dangling-link %s: %s\n", what.c_str(), d.c_str());
                    else if (k == out_any && p == "t/link.txt" && named && d == "removed ./t/link.txt; changed ./t/rw.txt")
                        std::printf("KNOWN output-file-removed %s: %s\n", what.c_str(), d.c_str());
                    else
                        fail(what + " " + d + (t.type.empty() ? " (accepted)" : " (" + t.type + ")"));
                }
    chmod("t/closed", 0777);
    (void)!chdir("..");
    fs::remove_all("c17");
    return finish();
}
