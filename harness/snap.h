// Copies of a data directory as a process death would leave it.
#pragma once
#include "vh.h"
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>

namespace vh
{

// hash of the directory; also copies it if a target is given.  The log directory and the pid file do not count.
inline u64 snap_tree(const std::string &from, const std::string *to)
{
    u64 h = 1469598103934665603ULL;
    auto mix = [&](const char *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ULL; } };
    // directories, empty ones too
    static std::vector<std::string> dirs;
    dirs.clear();
    nftw(from.c_str(), [](const char *p, const struct stat*, int t, struct FTW*) { if (t == FTW_D) dirs.push_back(p); return 0; }, 20, FTW_PHYS);
    std::sort(dirs.begin(), dirs.end());
    for (auto &d : dirs)
    {
        std::string r = d.substr(from.size());
        mix(r.data(), r.size());
        if (to) make_dir(*to + r);
    }
    static char *buf = (char*)malloc(1 << 16);
    for (auto &f : list_tree(from))
    {
        if (f.compare(0, 4, "log/") == 0 || f.find(".pid") != std::string::npos) continue;
        std::string p = from + "/" + f;
        int a = ::open(p.c_str(), O_RDONLY), b = -1;
        if (a < 0) continue;
        struct stat st;
        fstat(a, &st);
        mix(f.data(), f.size());
        mix((char*)&st.st_size, sizeof st.st_size);
        if (to)
        {
            std::string q = *to + "/" + f;
            make_dir(q.substr(0, q.rfind('/')));
            b = ::open(q.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            ftruncate(b, st.st_size);
        }
        off_t o = 0;
        while (o < st.st_size)
        {
            off_t d = lseek(a, o, SEEK_DATA);
            if (d < 0) break;
            off_t e = lseek(a, d, SEEK_HOLE);
            for (o = d; o < e;)
            {
                ssize_t n = pread(a, buf, std::min<off_t>(1 << 16, e - o), o);
                if (n <= 0) break;
                // a page of zeros equals a hole
                bool z = true;
                for (ssize_t i = 0; i < n && z; i++) z = buf[i] == 0;
                if (!z)
                {
                    mix((char*)&o, sizeof o);
                    mix(buf, n);
                    if (b >= 0) pwrite(b, buf, n, o);
                }
                o += n;
            }
        }
        ::close(a);
        if (b >= 0) ::close(b);
    }
    return h;
}

}
