/** every change of a file made by this process is an event: the standard functions are interposed (symbols of the executable win) */
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fsev {
struct Tracker {
    pthread_t owner = pthread_self();
    std::set<int> fds; // of files opened for writing
    void (*handler)(const char *what) = nullptr;
    bool inside = false;
};
inline Tracker &tracker() {
    static Tracker t;
    return t;
}
inline bool on() { return tracker().handler && !tracker().inside && pthread_equal(pthread_self(), tracker().owner); }
/// is this a path of the simulation (relative, or in its directory), not a device or a file of MPI
inline bool ours(const char *path) {
    static const std::string dir = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "";
    if (!path || path[0] != '/')
        return path;
    return dir.size() > 1 && strncmp(path, (dir + "/").c_str(), dir.size() + 1) == 0 && !strstr(path + dir.size(), "/tmp/");
}
inline void fire(const char *what) {
    const int e = errno;
    tracker().inside = true;
    tracker().handler(what);
    errno = e;
    tracker().inside = false;
}
template <class F>
F next(F, const char *name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
inline bool tracked(FILE *f) { return f && on() && tracker().fds.count(fileno(f)); }
inline FILE *opened(FILE *f, const char *path, const char *mode) {
    if (f && on() && ours(path) && strpbrk(mode, "wa+")) {
        tracker().fds.insert(fileno(f));
        fire("fopen");
    }
    return f;
}
inline int opened(int fd, const char *path, int flags) {
    if (fd >= 0 && on() && ours(path) && (flags & O_ACCMODE) != O_RDONLY) {
        tracker().fds.insert(fd);
        fire("open");
    }
    return fd;
}
/// the library may write its buffer whenever it likes: let it be now
inline void wrote(FILE *f) {
    if (tracked(f)) {
        fflush_unlocked(f);
        fire("write");
    }
}
} // namespace fsev

#define FSEV_NEXT(name) static auto real = fsev::next(&name, #name)
extern "C" {
FILE *fopen(const char *path, const char *mode) {
    FSEV_NEXT(fopen);
    return fsev::opened(real(path, mode), path, mode);
}
FILE *fopen64(const char *path, const char *mode) {
    FSEV_NEXT(fopen64);
    return fsev::opened(real(path, mode), path, mode);
}
int open(const char *path, int flags, ...) {
    static auto real = reinterpret_cast<int (*)(const char *, int, ...)>(dlsym(RTLD_NEXT, "open"));
    va_list a;
    va_start(a, flags);
    const int mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    return fsev::opened(real(path, flags, mode), path, flags);
}
int open64(const char *path, int flags, ...) {
    static auto real = reinterpret_cast<int (*)(const char *, int, ...)>(dlsym(RTLD_NEXT, "open64"));
    va_list a;
    va_start(a, flags);
    const int mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    return fsev::opened(real(path, flags, mode), path, flags);
}
int fclose(FILE *f) {
    FSEV_NEXT(fclose);
    const bool t = fsev::tracked(f);
    if (t)
        fsev::tracker().fds.erase(fileno(f));
    const int r = real(f);
    if (t)
        fsev::fire("fclose");
    return r;
}
int close(int fd) {
    FSEV_NEXT(close);
    const bool t = fsev::on() && fsev::tracker().fds.erase(fd);
    const int r = real(fd);
    if (t)
        fsev::fire("close");
    return r;
}
ssize_t write(int fd, const void *p, size_t n) {
    FSEV_NEXT(write);
    const bool t = fsev::on() && fsev::tracker().fds.count(fd);
    if (t && n > 1) { // a write may be cut in two
        const ssize_t h = real(fd, p, n / 2);
        fsev::fire("half write");
        if (h != ssize_t(n / 2))
            return h;
        const ssize_t r = real(fd, (const char *)p + h, n - h);
        fsev::fire("write");
        return r < 0 ? h : h + r;
    }
    return real(fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    FSEV_NEXT(writev);
    const bool t = fsev::on() && fsev::tracker().fds.count(fd);
    const ssize_t r = real(fd, v, n);
    if (t)
        fsev::fire("write");
    return r;
}
int fprintf(FILE *f, const char *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    const int r = vfprintf(f, fmt, a);
    va_end(a);
    fsev::wrote(f);
    return r;
}
int __fprintf_chk(FILE *f, int, const char *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    const int r = vfprintf(f, fmt, a);
    va_end(a);
    fsev::wrote(f);
    return r;
}
int fputs(const char *s, FILE *f) {
    FSEV_NEXT(fputs);
    const int r = real(s, f);
    fsev::wrote(f);
    return r;
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    FSEV_NEXT(fwrite);
    const size_t r = real(p, s, n, f);
    fsev::wrote(f);
    return r;
}
int rename(const char *a, const char *b) {
    FSEV_NEXT(rename);
    const int r = real(a, b);
    if (fsev::on() && fsev::ours(b))
        fsev::fire("rename");
    return r;
}
int unlink(const char *a) {
    FSEV_NEXT(unlink);
    const int r = real(a);
    if (fsev::on() && fsev::ours(a))
        fsev::fire("unlink");
    return r;
}
int remove(const char *a) {
    FSEV_NEXT(remove);
    const int r = real(a);
    if (fsev::on() && fsev::ours(a))
        fsev::fire("remove");
    return r;
}
int mkdir(const char *a, mode_t m) {
    FSEV_NEXT(mkdir);
    const int r = real(a, m);
    if (fsev::on() && fsev::ours(a))
        fsev::fire("mkdir");
    return r;
}
}
