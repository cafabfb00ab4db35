// File validators accept exactly the usable paths.
// flags: -DNDEBUG
#include "fs_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "every validator on about 70 paths in a scratch tree with files and directories of all kinds and permissions, as an unprivileged user, against plain system calls; lists of paths");
    if (!enter_scratch("c16"))
        return finish();
    for (size_t round = 0; round < (env.thorough ? 40u : 6u); ++round)
        for (kind_of k : {in_file, out_new, out_any, in_dir, out_dir})
            for (std::string const & p : all_paths())
            {
                strs exts = round == 0 ? strs{} : round == 1 ? strs{"txt"} : random_exts();
                if (!mine() || skip(k, p) || !time_left(60, 200))
                    continue;
                build_tree();
                std::string what = std::string{names[k]} + " with extensions " + show(exts) + " on " + show(p);
                current(what);
                bool want, want_list = true;
                Threw t, tl;
                std::vector<fs::path> list;
                {
                    as_nobody guard;
                    want = expected(k, p, exts);
                    t = validate(k, fs::path{p}, exts);
                }
                ran();
                Oracle o{p};
                bool locked;
                {
                    as_nobody guard;
                    locked = k == out_any && o.exists() && !o.may(o.parent().c_str(), W_OK);
                }
                if (locked && want && t.type == "validation_error")
                {
                    std::printf("KNOWN output-file-unremovable %s: rejected although it can be written\n", what.c_str());
                    continue;
                }
                expect(t.type == (want ? "" : "validation_error"), what, want ? "must be accepted but: " + t.type + " " + t.what : "must be rejected with a validation error but: " + (t.type.empty() ? "accepted" : t.type + " " + t.what));
                sample(what + " -> " + (want ? "accepted" : "rejected"));
                if (round % 2)
                {
                    build_tree();
                    as_nobody guard;
                    for (size_t n = rnd(4); n; --n)
                    {
                        std::string q = pick(all_paths());
                        if (skip(k, q) || std::ranges::count(list, fs::path{q}))
                            continue;
                        // each element must be judged independently: only paths that do not interfere
                        if (q.find("new") != std::string::npos || k == out_any)
                            continue;
                        list.push_back(q);
                        want_list = want_list && expected(k, q, exts);
                    }
                    std::string wl = std::string{names[k]} + " with extensions " + show(exts) + " on a list of paths:";
                    for (auto & q : list)
                        wl += " " + show(q.string());
                    current(wl);
                    tl = validate(k, list, exts);
                    expect(tl.type == (want_list ? "" : "validation_error"), wl, "must be " + std::string{want_list ? "accepted" : "rejected"} + " but: " + tl.type);
                }
            }
    // the constructors
    build_tree();
    {
        as_nobody guard;
        auto acc = [](auto const & v, char const * p)
        {
            return outcome(
                       [&]
                       {
                           v(fs::path{p});
                       })
                .type.empty();
        };
        using sharg::output_file_validator;
        using enum sharg::output_file_open_options;
        expect(acc(output_file_validator{}, "t/new.doc"), "output_file_validator{} on a new file", "must be accepted");
        expect(!acc(output_file_validator{}, "t/rw.txt"), "output_file_validator{} on an existing file", "must be rejected: the default is create_new");
        expect(!acc(output_file_validator{"txt"}, "t/rw.txt"), "output_file_validator{\"txt\"} on an existing file", "must be rejected: the default is create_new");
        expect(!acc(output_file_validator{strs{"txt"}}, "t/rw.txt"), "output_file_validator{{\"txt\"}} on an existing file", "must be rejected: the default is create_new");
        expect(acc(output_file_validator{"doc", "txt"}, "t/new.txt") && acc(output_file_validator{"doc", "txt"}, "t/new.doc") && !acc(output_file_validator{"doc", "txt"}, "t/new.pdf"), "output_file_validator{\"doc\", \"txt\"}", "must accept .doc and .txt");
        expect(acc(output_file_validator{open_or_create, "doc", "txt"}, "t/rw.txt"), "output_file_validator{open_or_create, ...} on an existing file", "must be accepted");
        expect(acc(sharg::input_file_validator{}, "t/ro.txt"), "input_file_validator{} on a readable file", "must be accepted");
    }
    chmod("t/closed", 0777);
    (void)!chdir("..");
    fs::remove_all("c16");
    return finish();
}
