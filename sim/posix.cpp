// Clock, sleep and environment seams of the ranks.
#include "core.h"
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <set>
#include <string>
namespace sim
{
    int real_clock_gettime(int c, struct timespec *ts) { return syscall(SYS_clock_gettime, c, ts); }
    static std::set<int> tracked; // descriptors of files the ranks opened in their work directory
    void posix_reset() { tracked.clear(); }
    int64_t faulted(bool write, size_t bytes); // -1: error, otherwise the bytes the storage lets through
    static bool faultOpenClose(int kind, const char *probe)
    {
        static uint64_t n = 0;
        if (!cfg.io_faults || cfg.io_fault_kind != kind || cfg.io_fault_inc != sim_incarnation())
            return false;
        if (++n != uint64_t(cfg.io_fault_after))
            return false;
        sim_probe(probe);
        return true;
    }
    static bool isTracked(int fd) { return cur() && tracked.count(fd); }
}
using namespace sim;
extern "C"
{
    int clock_gettime(clockid_t c, struct timespec *ts)
    {
        if (!cur())
            return real_clock_gettime(c, ts);
        int64_t t = rank_clock(cur()->rank);
        if (c == CLOCK_MONOTONIC || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID)
            t = sim_now(); // monotonic clocks neither jump nor run backwards
        ts->tv_sec = t / 1000000000, ts->tv_nsec = t % 1000000000;
        return 0;
    }
    int gettimeofday(struct timeval *tv, void *)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec, tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    time_t time(time_t *p)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (p)
            *p = ts.tv_sec;
        return ts.tv_sec;
    }
    int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *)
    {
        if (!cur())
            return syscall(SYS_clock_nanosleep, c, flags, rq, nullptr);
        int64_t ns = rq->tv_sec * 1000000000LL + rq->tv_nsec;
        if (flags & TIMER_ABSTIME)
            ns -= sim_now();
        sim_probe("sleeps");
        sleep_for(ns);
        return 0;
    }
    int nanosleep(const struct timespec *rq, struct timespec *rm)
    {
        return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
    }
    int usleep(useconds_t us)
    {
        struct timespec ts = {time_t(us / 1000000), long(us % 1000000) * 1000};
        return nanosleep(&ts, nullptr);
    }
    unsigned sleep(unsigned s)
    {
        struct timespec ts = {time_t(s), 0};
        nanosleep(&ts, nullptr);
        return 0;
    }
    int sched_yield(void)
    {
        if (cur())
            yield_now();
        return 0;
    }
    pid_t getpid(void)
    {
        if (cur())
            return 10000 + cur()->rank; // a rank's process id
        return syscall(SYS_getpid);
    }

    // ---- file streams (libstdc++ opens with fopen and then uses the descriptor)
    FILE *fopen(const char *path, const char *mode)
    {
        static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
        if (!cur() || strncmp(path, sim_workdir(), strlen(sim_workdir())))
            return real(path, mode);
        sched_point();
        io_event();
        if (faultOpenClose(6, "fault:open_fails"))
        {
            errno = mode[0] == 'r' ? EIO : ENOSPC;
            return nullptr;
        }
        FILE *f = real(path, mode);
        if (f)
            tracked.insert(fileno(f));
        return f;
    }
    FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
    int fclose(FILE *f)
    {
        static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
        int fd = cur() ? fileno(f) : -1;
        bool t = isTracked(fd);
        if (t)
            io_event(), tracked.erase(fd);
        int rc = real(f);
        if (t && faultOpenClose(7, "fault:close_fails"))
        {
            errno = EIO;
            return EOF;
        }
        return rc;
    }
    ssize_t write(int fd, const void *b, size_t n)
    {
        if (!isTracked(fd))
            return syscall(SYS_write, fd, b, n);
        sched_point();
        sim_probe("io_writes");
        int64_t k = faulted(true, n);
        if (k < 0 || (n && !k))
        {
            errno = cfg.io_fault_kind == 2 ? ENOSPC : EIO;
            return -1;
        }
        return syscall(SYS_write, fd, b, size_t(k));
    }
    ssize_t writev(int fd, const struct iovec *v, int nv)
    {
        if (!isTracked(fd))
            return syscall(SYS_writev, fd, v, nv);
        std::string s;
        for (int i = 0; i < nv; i++)
            s.append((const char *)v[i].iov_base, v[i].iov_len);
        return write(fd, s.data(), s.size());
    }
    ssize_t read(int fd, void *b, size_t n)
    {
        if (!isTracked(fd))
            return syscall(SYS_read, fd, b, n);
        sched_point();
        sim_probe("io_reads");
        int64_t k = faulted(false, n);
        if (k < 0)
        {
            errno = EIO;
            return -1;
        }
        return syscall(SYS_read, fd, b, size_t(n && !k ? 1 : k));
    }
}
