// Scratch trees for the file system properties.  The validators run with the effective user `nobody`, inside a scratch
// directory that is the working directory: a call that escapes it finds nothing it may touch.
#pragma once
#include "common.hpp"
#include <sys/fsuid.h>
#include <sys/syscall.h>
namespace vp
{
namespace fs = std::filesystem;
inline bool can_drop{};

// the validators run as nobody
struct as_nobody
{
    as_nobody()
    {
        if (can_drop)
        {
            if (setegid(65534) || seteuid(65534))
                std::_Exit(99);
        }
    }
    ~as_nobody()
    {
        if (can_drop)
        {
            if (seteuid(0) || setegid(0))
                std::_Exit(99);
        }
    }
};

inline bool enter_scratch(std::string const & name)
{
    if (geteuid() == 0)
    {
        pid_t p = fork();
        if (p == 0)
            _exit(setegid(65534) || seteuid(65534) || access("/", R_OK) ? 1 : 0);
        int st = 1;
        waitpid(p, &st, 0);
        can_drop = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!can_drop)
        {
            std::printf("NOTE cannot become an unprivileged user: no file system cases were run\n");
            return false;
        }
    }
    std::string d = env.dir + "/" + name;
    fs::remove_all(d);
    fs::create_directories(d);
    chmod(d.c_str(), 0777);
    if (chdir(d.c_str()))
        return false;
    return true;
}

inline void put(std::string const & p, std::string const & content, int mode)
{
    std::ofstream(p) << content;
    chmod(p.c_str(), mode);
    if (can_drop)
        (void)!lchown(p.c_str(), 65534, 65534);
}
inline void dir(std::string const & p, int mode)
{
    mkdir(p.c_str(), 0777);
    chmod(p.c_str(), mode);
    if (can_drop)
        (void)!lchown(p.c_str(), 65534, 65534);
}
inline void link_to(std::string const & p, std::string const & target)
{
    (void)!symlink(target.c_str(), p.c_str());
    if (can_drop)
        (void)!lchown(p.c_str(), 65534, 65534);
}
// a fresh working directory t/ with entries of all kinds
inline void build_tree()
{
    if (can_drop && geteuid() != 0)
        std::_Exit(98);
    fs::remove_all("t");
    dir("t", 0777);
    put("t/rw.txt", "content", 0644);
    put("t/empty.txt", "", 0644);
    put("t/ro.txt", "read only", 0444);
    put("t/wo.txt", "write only", 0222);
    put("t/none.txt", "nothing allowed", 0);
    put("t/RW.TXT", "upper", 0644);
    put("t/noext", "no extension", 0644);
    put("t/.hidden", "hidden", 0644);
    put("t/.hidden.txt", "hidden", 0644);
    put("t/dummy.txt", "user data", 0644);
    put("t/x.tar.txt", "two", 0644);
    dir("t/d", 0755);
    put("t/d/dummy.txt", "do not touch", 0644);
    put("t/d/dummy.txt_", "do not touch either", 0600);
    dir("t/d/sub", 0755);
    put("t/d/sub/file.txt", "deep", 0644);
    dir("t/empty_dir", 0755);
    dir("t/dir.txt", 0755);
    put("t/dir.txt/inside.txt", "inside", 0644);
    dir("t/locked", 0777);
    put("t/locked/f.txt", "locked", 0644);
    put("t/locked/dummy.txt", "locked", 0644);
    chmod("t/locked", 0555);
    dir("t/blind", 0777);
    put("t/blind/f.txt", "blind", 0644);
    chmod("t/blind", 0333);
    dir("t/closed", 0777);
    put("t/closed/f.txt", "closed", 0644);
    chmod("t/closed", 0);
    link_to("t/link.txt", "rw.txt");
    link_to("t/link_dir", "d");
    link_to("t/loop.txt", "loop.txt");
    mkfifo("t/fifo.txt", 0666);
    if (can_drop)
        (void)!lchown("t/fifo.txt", 65534, 65534);
}

// everything in the scratch directory: kind, mode, content
inline std::map<std::string, std::string> snapshot(std::string const & top = ".")
{
    std::map<std::string, std::string> r;
    std::error_code ec;
    for (auto it = fs::recursive_directory_iterator(top, ec); it != fs::recursive_directory_iterator(); it.increment(ec))
    {
        struct stat s{};
        lstat(it->path().c_str(), &s);
        std::string v = std::to_string(s.st_mode) + " " + std::to_string(s.st_ino) + " ";
        if (S_ISREG(s.st_mode))
        {
            std::ifstream f(it->path(), std::ios::binary);
            v += std::string(std::istreambuf_iterator<char>(f), {});
        }
        else if (S_ISLNK(s.st_mode))
            v += fs::read_symlink(it->path(), ec).string();
        r[it->path().string()] = v;
    }
    return r;
}
// all differences, separated by "; "
inline std::string difference(std::map<std::string, std::string> const & a, std::map<std::string, std::string> const & b)
{
    std::string r;
    auto add = [&](std::string const & s)
    {
        r += (r.empty() ? "" : "; ") + s;
    };
    for (auto & [k, v] : a)
        if (!b.contains(k))
            add("removed " + k);
        else if (b.at(k) != v)
            add("changed " + k);
    for (auto & [k, v] : b)
        if (!a.contains(k))
            add("left behind " + k);
    return r;
}

// ------------------------------------------------------------------ the oracle: plain system calls
struct Oracle
{
    std::string p;
    bool may(char const * q, int mode) const
    {
        return faccessat(AT_FDCWD, q, mode, AT_EACCESS) == 0;
    }
    bool exists() const
    {
        struct stat s{};
        return stat(p.c_str(), &s) == 0;
    }
    int kind() const // 0 nothing, 1 regular, 2 directory, 3 other
    {
        struct stat s{};
        if (stat(p.c_str(), &s))
            return 0;
        return S_ISREG(s.st_mode) ? 1 : S_ISDIR(s.st_mode) ? 2 : 3;
    }
    bool readable() const
    {
        return may(p.c_str(), R_OK);
    }
    std::string parent() const
    {
        size_t i = p.find_last_of('/');
        return i == std::string::npos ? "." : i == 0 ? "/" : p.substr(0, i);
    }
    bool creatable(bool as_dir) const
    {
        std::string q = p;
        if (as_dir)
            while (q.size() > 1 && q.back() == '/')
                q.pop_back();
        Oracle o{q};
        size_t i = q.find_last_of('/');
        std::string name = i == std::string::npos ? q : q.substr(i + 1);
        struct stat s{};
        return !name.empty() && name.size() <= 255 && lstat(q.c_str(), &s) != 0 && errno == ENOENT && Oracle{o.parent()}.kind() == 2 && may(o.parent().c_str(), W_OK | X_OK);
    }
    bool writable() const
    {
        return exists() ? kind() != 2 && may(p.c_str(), W_OK) : creatable(false);
    }
};
inline std::string lower(std::string s)
{
    for (char & c : s)
        if (c >= 'A' && c <= 'Z')
            c += 32;
    return s;
}
inline bool name_ok(std::string const & path, strs const & exts)
{
    if (exts.empty())
        return true;
    size_t i = path.find_last_of('/');
    std::string n = i == std::string::npos ? path : path.substr(i + 1);
    if (n.empty() || n == "..")
        return false;
    if (n.find('.', 1) == std::string::npos) // a leading dot does not start an extension
        return false;
    if (n[0] == '.')
        n.erase(0, 1);
    for (std::string e : exts)
    {
        if (e.empty())
            return true;
        if (e[0] != '.')
            e = "." + e;
        if (n.size() >= e.size() && lower(n.substr(n.size() - e.size())) == lower(e))
            return true;
    }
    return false;
}

enum kind_of
{
    in_file,
    out_new,
    out_any,
    in_dir,
    out_dir
};
inline char const * names[]{"input_file_validator", "output_file_validator(create_new)", "output_file_validator(open_or_create)", "input_directory_validator", "output_directory_validator"};

inline strs all_paths()
{
    strs r{"", "t", "t/", ".", "..", "new.txt"};
    for (char const * e : {"rw.txt", "empty.txt", "ro.txt", "wo.txt", "none.txt", "RW.TXT", "noext", ".hidden", ".hidden.txt", "dummy.txt", "x.tar.txt", "d", "d/", "d/dummy.txt", "d/sub", "d/sub/file.txt", "d/new.txt", "d/new",
                           "empty_dir", "dir.txt", "dir.txt/inside.txt", "dir.txt/new.txt", "locked", "locked/f.txt", "locked/new.txt", "locked/dummy.txt", "locked/new", "blind", "blind/f.txt", "blind/new.txt", "blind/new",
                           "closed", "closed/f.txt", "closed/new.txt", "closed/new/deep", "link.txt", "link_dir", "link_dir/dummy.txt", "link_dir/new.txt", "loop.txt", "fifo.txt", "new.txt", "new", "new/", "new/deep.txt",
                           "rw.txt/x", "rw.txt/x.txt", "newdir/", "NEW.TXT", "new.tar.txt", ".new.txt", ".txt", "new.", "new.doc", "newtxt", "a b.txt", "-x.txt", "d/../new.txt", "./new.txt", "./d"})
        r.push_back(std::string{"t/"} + e);
    r.push_back("t/" + std::string(300, 'n') + ".txt");
    r.push_back("t/" + std::string(251, 'n') + ".txt");
    return r;
}
struct Verdict
{
    bool ok;
    Threw t;
    std::string diff;
};
inline bool expected(kind_of k, std::string const & p, strs const & exts)
{
    Oracle o{p};
    switch (k)
    {
    case in_file: return o.kind() == 1 && o.readable() && name_ok(p, exts);
    case out_new: return !o.exists() && o.writable() && name_ok(p, exts);
    case out_any: return o.writable() && name_ok(p, exts);
    case in_dir: return o.kind() == 2 && o.readable();
    case out_dir: return o.kind() == 2 ? o.may(p.c_str(), W_OK | X_OK) : !o.exists() && o.creatable(true);
    }
    return false;
}
template <typename P>
inline Threw validate(kind_of k, P const & p, strs const & exts)
{
    return outcome(
        [&]
        {
            using enum sharg::output_file_open_options;
            switch (k)
            {
            case in_file: sharg::input_file_validator{exts}(p); break;
            case out_new: sharg::output_file_validator{create_new, exts}(p); break;
            case out_any: sharg::output_file_validator{open_or_create, exts}(p); break;
            case in_dir: sharg::input_directory_validator{}(p); break;
            case out_dir: sharg::output_directory_validator{}(p); break;
            }
        });
}
// a path whose probing blocks or hits a known finding is left out
inline bool skip(kind_of k, std::string const & p)
{
    return p == "t/fifo.txt" && k != in_file;
}
inline strs random_exts()
{
    static std::vector<strs> const e{{}, {"txt"}, {".txt"}, {"TXT"}, {"tar.txt"}, {"doc", "txt"}, {"doc"}, {""}, {"xt"}, {"pdf", ".tar.txt", "x"}};
    return pick(e);
}
} // namespace vp
