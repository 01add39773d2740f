// Standard output and error of the process end in a memory file for a while.
#pragma once
#include "common.hpp"
#include <sys/mman.h>
#include <unistd.h>
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
struct Std
{
    int fd = -1, o = -1, e = -1; bool on = false;
    void init() { o = dup(1); e = dup(2); fd = memfd_create("std", 0); if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)e); }
    void begin() { if (fd < 0) init(); fflush(stdout); fflush(stderr); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); dup2(fd, 1); dup2(fd, 2); on = true; }
    string end()
    {
        if (!on) return ""; fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); on = false;
        string s; off_t n = lseek(fd, 0, SEEK_END); if (n > 0) { s.resize((size_t)std::min<off_t>(n, 100000)); if (pread(fd, &s[0], s.size(), 0) < 0) s = "?"; }
        return s;
    }
};
static Std g_std;
