// File extensions are compared as whole extensions.
#include "fs_oracle.hpp"
using namespace vp;
int main(int argc, char ** argv)
{
    init(argc, argv, "file names up to length 5 over 5 characters and random longer ones against lists of up to 3 extensions, with an independent oracle; the files exist and are readable, so only the name decides");
    if (!enter_scratch("c18"))
        return finish();
    strs ns{""};
    for (size_t i = 0; i < ns.size(); ++i)
        if (ns[i].size() < 5)
            for (char c : std::string{".abB"})
                ns.push_back(ns[i] + c);
    strs es{"a", "b", ".a", "ab", "a.b", ".a.b", "B", "aB", ".", "", "..a", "b.", "ba", "a.a"};
    auto judge = [&](std::string const & n, strs const & exts)
    {
        std::string what = "input_file_validator with extensions " + show(exts) + " on the file " + show(n);
        current(what);
        bool ok = name_ok(n, exts);
        Threw t;
        {
            as_nobody guard;
            t = validate(in_file, fs::path{n}, exts);
        }
        ran();
        expect(t.type == (ok ? "" : "validation_error"), what, "must be " + std::string{ok ? "accepted" : "rejected"} + " but: " + (t.type.empty() ? "accepted" : t.type));
        sample(what + (ok ? " -> accepted" : " -> rejected"));
    };
    for (auto & n : ns)
    {
        if (n.empty() || n == "." || n == ".." || !mine() || !time_left(40, 150))
            continue;
        put(n, "x", 0644);
        judge(n, {});
        for (auto & e : es)
            judge(n, {e});
        for (size_t i = 0; i < 4; ++i)
            judge(n, {pick(es), pick(es), pick(es)});
        unlink(n.c_str());
    }
    // every byte against the bytes that differ from it in one bit, its neighbours, and a few others
    for (int c = 1; c < 256; ++c)
    {
        if (c == '/' || !mine() || !time_left(20, 120))
            continue;
        std::string n = std::string{"x.a"} + static_cast<char>(c) + "b";
        put(n, "x", 0644);
        std::vector<int> ds{c, c + 1, c - 1, std::toupper(c), std::tolower(c)};
        for (int k = 0; k < 8; ++k)
            ds.push_back(c ^ (1 << k));
        for (int k = 0; k < 6; ++k)
            ds.push_back(1 + static_cast<int>(rnd(255)));
        for (int d : ds)
            if (d > 0 && d < 256)
                judge(n, {std::string{"a"} + static_cast<char>(d) + "b"});
        unlink(n.c_str());
    }
    strs parts{".", "fa", "FA", "fasta", "bam", "x", "tar", "gz", "-", " ", "Fa", "0", "[", "\xc3\xa9"};
    while (time_left(12, 120))
    {
        auto word = [&]
        {
            std::string w;
            for (size_t k = 1 + rnd(5); k; --k)
                w += pick(parts);
            return w;
        };
        std::string n = word();
        if (n == "." || n == "..")
            continue;
        put(n, "x", 0644);
        for (size_t i = 0; i < 6; ++i)
        {
            strs exts;
            for (size_t k = 1 + rnd(3); k; --k)
                exts.push_back(rnd(2) ? word() : n.substr(rnd(n.size())));
            judge(n, exts);
        }
        unlink(n.c_str());
    }
    (void)!chdir("..");
    fs::remove_all("c18");
    return finish();
}
