// files on disk: descriptors in use, disks that get full
#pragma once
#include "plan.h"
#include <fstream>
#ifndef VP_FSTREAM
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
#endif
static int openFiles()
{
#ifdef VP_FSTREAM
    return vp::openFiles;
#else
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
#endif
}
static void fileLimit(long n) // negative: none
{
#ifdef VP_FSTREAM
    vp::fileLimit = n < 0 ? 1l << 40 : n;
#else
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit r;
    getrlimit(RLIMIT_FSIZE, &r);
    r.rlim_cur = n < 0 ? r.rlim_max : n;
    setrlimit(RLIMIT_FSIZE, &r);
#endif
}
#ifndef VP_FSTREAM
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static int failAt = 1 << 30, writesDone = 0;
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
    if (fd > 2 && writesDone++ >= failAt) return errno = EIO, -1;
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (fd > 2 && writesDone++ >= failAt) return errno = EIO, -1;
    return syscall(SYS_writev, fd, v, n);
}
#endif
static void failFlush(int k) // this one and all later ones; negative: none
{
#ifdef VP_FSTREAM
    vp::flushes = 0;
    vp::failFlush = k < 0 ? 1 << 30 : k;
#else
    writesDone = 0;
    failAt = k < 0 ? 1 << 30 : k;
#endif
}
static int flushes()
{
#ifdef VP_FSTREAM
    return vp::flushes;
#else
    return writesDone;
#endif
}
static std::string slurp(const char *p)
{
    std::ifstream f(p, std::ios::in | std::ios::binary);
    std::stringstream ss;
    char c[512];
    while (f.read(c, sizeof c) || f.gcount()) ss.write(c, f.gcount());
    return ss.str();
}
static void spew(const char *p, const std::string &s)
{
    std::ofstream f(p, std::ios::out | std::ios::binary);
    f.write(s.data(), s.size());
}
