// Makes the k-th storage-changing call below a directory fail, or ends the process there.
// fault_arm(root, k, how) / fault_disarm() -> whether the fault happened.
//   how: 1 that call fails (EIO)     2 it and all later ones fail (ENOSPC; what fills the disk)
//        3 the process ends before it  4 a write is cut in half, then the process ends
// Where POINT is defined it is called around every intercepted call.
#pragma once
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <mutex>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#ifndef POINT
#define POINT() do {} while(0)
#endif

namespace fault {
static std::atomic<int> how{0};
static std::atomic<long> left{0};
static std::atomic<int> fired{0};
static char root[4096] = "";
static unsigned char tracked[65536];      // descriptors opened for writing below root
template<class F> inline F next(const char * n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
inline bool below(const char * p) { return how.load() && p && root[0] && strncmp(p, root, strlen(root)) == 0; }
inline bool belowAt(int, const char * p) { return how.load() && p && (p[0] != '/' || below(p)); }
// true: the call has to fail.  grows: the call would need space
inline bool hit(bool grows = true) {
    if(!how.load()) return false;
    if(fired.load()) { if(how.load() == 2 && grows) { errno = ENOSPC; return true; } return false; }
    if(how.load() == 2 && !grows) return false;
    if(left.fetch_sub(1) != 1) return false;
    fired = 1;
    if(how.load() >= 3) _exit(77);
    errno = how.load() == 2 ? ENOSPC : EIO;
    return true;
}
inline void track(int fd, bool on) { if(fd >= 0 && fd < (int) sizeof(tracked)) tracked[fd] = on; }
inline bool isTracked(int fd) { return how.load() && fd >= 0 && fd < (int) sizeof(tracked) && tracked[fd]; }
inline bool writes(const char * m) { return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')); }
inline bool writes(int fl) { return (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; }
}
extern "C" {
__attribute__((visibility("default"))) void fault_arm(const char * root, long k, int how) {
    strncpy(fault::root, root, sizeof(fault::root) - 1);
    memset(fault::tracked, 0, sizeof(fault::tracked));
    fault::left = k; fault::fired = 0; fault::how = how;
}
__attribute__((visibility("default"))) int fault_disarm() { fault::how = 0; return fault::fired.load(); }

int rename(const char * a, const char * b) {
    static auto real = fault::next<int (*)(const char *, const char *)>("rename");
    if(fault::below(b) && fault::hit()) return -1;
    POINT(); const int r = real(a, b); POINT(); return r;
}
int link(const char * a, const char * b) {
    static auto real = fault::next<int (*)(const char *, const char *)>("link");
    if(fault::below(b) && fault::hit()) return -1;
    return real(a, b);
}
int unlink(const char * a) {
    static auto real = fault::next<int (*)(const char *)>("unlink");
    if(fault::below(a) && fault::hit(false)) return -1;
    POINT(); const int r = real(a); POINT(); return r;
}
int unlinkat(int d, const char * a, int fl) {
    static auto real = fault::next<int (*)(int, const char *, int)>("unlinkat");
    if(fault::belowAt(d, a) && fault::hit(false)) return -1;
    POINT(); const int r = real(d, a, fl); POINT(); return r;
}
int remove(const char * a) {
    static auto real = fault::next<int (*)(const char *)>("remove");
    if(fault::below(a) && fault::hit(false)) return -1;
    POINT(); const int r = real(a); POINT(); return r;
}
int rmdir(const char * a) {
    static auto real = fault::next<int (*)(const char *)>("rmdir");
    if(fault::below(a) && fault::hit(false)) return -1;
    return real(a);
}
int mkdir(const char * a, mode_t m) {
    static auto real = fault::next<int (*)(const char *, mode_t)>("mkdir");
    if(fault::below(a) && fault::hit()) return -1;
    POINT(); const int r = real(a, m); POINT(); return r;
}
int truncate(const char * a, off_t n) {
    static auto real = fault::next<int (*)(const char *, off_t)>("truncate");
    if(fault::below(a) && fault::hit()) return -1;
    return real(a, n);
}
int ftruncate(int fd, off_t n) {
    static auto real = fault::next<int (*)(int, off_t)>("ftruncate");
    if(fault::isTracked(fd) && fault::hit()) return -1;
    return real(fd, n);
}
int fsync(int fd) {
    static auto real = fault::next<int (*)(int)>("fsync");
    if(fault::isTracked(fd) && fault::hit()) return -1;
    return real(fd);
}
int fdatasync(int fd) {
    static auto real = fault::next<int (*)(int)>("fdatasync");
    if(fault::isTracked(fd) && fault::hit()) return -1;
    return real(fd);
}
static FILE * fault_fopen(const char * name, const char * a, const char * m) {
    typedef FILE * (*F)(const char *, const char *);
    F real = fault::next<F>(name);
    const bool w = fault::below(a) && fault::writes(m);
    if(w && fault::hit()) return nullptr;
    POINT(); FILE * r = real(a, m); POINT();
    if(r) fault::track(fileno(r), w);
    return r;
}
FILE * fopen64(const char * a, const char * m) { return fault_fopen("fopen64", a, m); }
FILE * fopen(const char * a, const char * m) { return fault_fopen("fopen", a, m); }
static int fault_open(const char * name, const char * a, int fl, mode_t m) {
    typedef int (*F)(const char *, int, ...);
    F real = fault::next<F>(name);
    const bool w = fault::below(a) && fault::writes(fl);
    if(w && fault::hit()) return -1;
    POINT(); const int r = real(a, fl, m); POINT();
    fault::track(r, w);
    return r;
}
int open(const char * a, int fl, ...) { va_list l; va_start(l, fl); const mode_t m = va_arg(l, mode_t); va_end(l); return fault_open("open", a, fl, m); }
int open64(const char * a, int fl, ...) { va_list l; va_start(l, fl); const mode_t m = va_arg(l, mode_t); va_end(l); return fault_open("open64", a, fl, m); }
ssize_t write(int fd, const void * b, size_t n) {
    static auto real = fault::next<ssize_t (*)(int, const void *, size_t)>("write");
    if(fault::isTracked(fd)) {
        // what fits on a disk that fills up, or was written when the process ended
        const bool now = fault::left.load() == 1 && !fault::fired.load();
        if(now && n > 1 && (fault::how.load() == 2 || fault::how.load() == 4)) real(fd, b, n / 2);
        if(fault::hit()) return -1;
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec * v, int c) {
    static auto real = fault::next<ssize_t (*)(int, const struct iovec *, int)>("writev");
    if(fault::isTracked(fd)) {
        const bool now = fault::left.load() == 1 && !fault::fired.load();
        if(now && c > 0 && (fault::how.load() == 2 || fault::how.load() == 4)) real(fd, v, 1);
        if(fault::hit()) return -1;
    }
    return real(fd, v, c);
}
size_t fwrite(const void * b, size_t s, size_t n, FILE * f) {
    static auto real = fault::next<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
    if(fault::how.load() && fault::isTracked(fileno(f)) && fault::hit()) return 0;
    return real(b, s, n, f);
}
int fclose(FILE * f) {
    static auto real = fault::next<int (*)(FILE *)>("fclose");
    // what cannot be flushed when a file is closed is lost
    const int fd = fileno(f);
    const bool lose = fault::isTracked(fd) && fault::hit();
    const int e = errno;
    fault::track(fd, false);
    if(lose) { static auto cut = fault::next<int (*)(int, off_t)>("ftruncate"); fflush(f); if(cut(fd, 0)) {} }
    POINT(); const int r = real(f); POINT();
    if(lose) { errno = e; return EOF; }
    return r;
}
int close(int fd) {
    static auto real = fault::next<int (*)(int)>("close");
    const bool lose = fault::isTracked(fd) && fault::hit();
    const int e = errno;
    fault::track(fd, false);
    if(lose) { static auto cut = fault::next<int (*)(int, off_t)>("ftruncate"); if(cut(fd, 0)) {} }
    const int r = real(fd);
    if(lose) { errno = e; return -1; }
    return r;
}
}
