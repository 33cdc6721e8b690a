/*
 * Preloaded into the shards of C14 and C38. Counts the file system effects below
 * one directory, of the process under test and its workers, and kills all of them
 * before the chosen effect, or in the middle of it if that is a write; or makes
 * the chosen effects fail with an error (a write may first write a part).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN, WRITE, RENAME, UNLINK, MKDIR, TRUNC, LINK, KINDS };

static struct shared {
    volatile long count, target, permille, owner, group, armed, kind, torn, error, span, faults;
    volatile long kinds[KINDS];
    char prefix[PATH_MAX];
    char path[PATH_MAX];
} *S;

long vf_setup(void)
{
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { S = NULL; return -1; }
    return 0;
}

void vf_arm(const char *prefix, long target, long permille)
{
    memset(S, 0, sizeof *S);
    strncpy(S->prefix, prefix, sizeof S->prefix - 1);
    S->target = target;
    S->permille = permille;
    S->owner = getpid();
    S->group = getpgrp();
    S->kind = -1;
    S->armed = 1;
}

/* the effects from the chosen one on fail with the error */
void vf_fault(long error, long span) { S->error = error; S->span = span; }
long vf_faults(void) { return S->faults; }

long vf_disarm(void) { S->armed = 0; return S->count; }
long vf_kind(void) { return S->kind; }
long vf_torn(void) { return S->torn; }
long vf_kinds(long k) { return S->kinds[k]; }
const char *vf_path(void) { return S->path; }

static int below(const char *p)
{
    size_t n = strlen(S->prefix);
    return strncmp(p, S->prefix, n) == 0 && (p[n] == '/' || p[n] == 0);
}

/* lexical: the trees under test have no links */
static int normal(int dirfd, const char *p, char *out)
{
    char tmp[PATH_MAX * 2];
    if (p[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", p);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) return 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(l, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, p);
    }
    size_t o = 0;
    char *save = NULL;
    for (char *q = strtok_r(tmp, "/", &save); q; q = strtok_r(NULL, "/", &save)) {
        if (!strcmp(q, ".")) continue;
        if (!strcmp(q, "..")) {
            while (o > 0 && out[--o] != '/') ;
            continue;
        }
        size_t k = strlen(q);
        if (o + k + 2 >= PATH_MAX) return 0;
        out[o++] = '/';
        memcpy(out + o, q, k);
        o += k;
    }
    out[o] = 0;
    return 1;
}

static void die(void)
{
    if (getpgrp() != S->group) kill(0, SIGKILL);
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

static int watched(void) { return S && S->armed && getpid() != S->owner; }

/* 1 if this is the effect in which to end, or that fails */
static int effect(int kind, const char *path)
{
    long n = __sync_add_and_fetch(&S->count, 1);
    __sync_add_and_fetch(&S->kinds[kind], 1);
    if (S->error) {
        if (S->target == 0 || n < S->target || n - S->target >= S->span) return 0;
        /* on a full disk files can still be removed and renamed */
        if ((S->error == ENOSPC || S->error == EDQUOT) && (kind == UNLINK || kind == RENAME || kind == TRUNC)) return 0;
        if (__sync_add_and_fetch(&S->faults, 1) > 1) return 1;
    } else if (n != S->target) return 0;
    S->kind = kind;
    strncpy(S->path, path, PATH_MAX - 1);
    return 1;
}

static int fails(void)
{
    if (!S->error) die();
    errno = S->error;
    return 1;
}

static int at(int kind, int dirfd, const char *p)
{
    char a[PATH_MAX];
    int e = errno;
    if (watched() && p && normal(dirfd, p, a) && below(a) && effect(kind, a)) return fails();
    errno = e;
    return 0;
}

static int at2(int kind, int d1, const char *p, int d2, const char *q)
{
    char a[PATH_MAX], b[PATH_MAX];
    int e = errno;
    if (watched() && p && q && normal(d1, p, a) && normal(d2, q, b) && (below(a) || below(b)) && effect(kind, b)) return fails();
    errno = e;
    return 0;
}

static int fd_below(int fd, char *a)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, a, PATH_MAX - 1);
    if (k < 0) return 0;
    a[k] = 0;
    return below(a);
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

#define OPENER(name) \
int name(const char *p, int flags, ...) \
{ \
    va_list v; va_start(v, flags); mode_t m = va_arg(v, mode_t); va_end(v); \
    if ((flags & (O_CREAT | O_TRUNC)) && at(OPEN, AT_FDCWD, p)) return -1; \
    return REAL(name)(p, flags, m); \
}
OPENER(open)
OPENER(open64)

#define OPENERAT(name) \
int name(int d, const char *p, int flags, ...) \
{ \
    va_list v; va_start(v, flags); mode_t m = va_arg(v, mode_t); va_end(v); \
    if ((flags & (O_CREAT | O_TRUNC)) && at(OPEN, d, p)) return -1; \
    return REAL(name)(d, p, flags, m); \
}
OPENERAT(openat)
OPENERAT(openat64)

int creat(const char *p, mode_t m) { if (at(OPEN, AT_FDCWD, p)) return -1; return REAL(creat)(p, m); }

ssize_t write(int fd, const void *b, size_t n)
{
    char a[PATH_MAX];
    int e = errno;
    if (watched() && n > 0 && fd_below(fd, a) && effect(WRITE, a)) {
        size_t k = n * S->permille / 1000;
        if (k > 0) S->torn = k;
        if (k > 0) {
            ssize_t w = syscall(SYS_write, fd, b, k);
            if (S->error) {
                /* the rest of it is what fails */
                if (S->faults == 1) __sync_add_and_fetch(&S->span, 1);
                S->permille = 0;
                errno = e;
                return w;
            }
        }
        fails();
        return -1;
    }
    errno = e;
    return syscall(SYS_write, fd, b, n);
}

#define FD(kind, fd) do { char a_[PATH_MAX]; int e_ = errno; if (watched() && fd_below(fd, a_) && effect(kind, a_)) { fails(); return -1; } errno = e_; } while (0)

ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { FD(WRITE, fd); return REAL(pwrite)(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { FD(WRITE, fd); return REAL(pwrite64)(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) { FD(WRITE, fd); return REAL(writev)(fd, v, n); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { FD(WRITE, o); return REAL(sendfile)(o, i, f, n); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { FD(WRITE, o); return REAL(sendfile64)(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *x, int o, off64_t *y, size_t n, unsigned f) { FD(WRITE, o); return REAL(copy_file_range)(i, x, o, y, n, f); }
int ftruncate(int fd, off_t n) { FD(TRUNC, fd); return REAL(ftruncate)(fd, n); }
int ftruncate64(int fd, off64_t n) { FD(TRUNC, fd); return REAL(ftruncate64)(fd, n); }
int truncate(const char *p, off_t n) { if (at(TRUNC, AT_FDCWD, p)) return -1; return REAL(truncate)(p, n); }
int truncate64(const char *p, off64_t n) { if (at(TRUNC, AT_FDCWD, p)) return -1; return REAL(truncate64)(p, n); }
int rename(const char *p, const char *q) { if (at2(RENAME, AT_FDCWD, p, AT_FDCWD, q)) return -1; return REAL(rename)(p, q); }
int renameat(int d, const char *p, int e, const char *q) { if (at2(RENAME, d, p, e, q)) return -1; return REAL(renameat)(d, p, e, q); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { if (at2(RENAME, d, p, e, q)) return -1; return REAL(renameat2)(d, p, e, q, f); }
int unlink(const char *p) { if (at(UNLINK, AT_FDCWD, p)) return -1; return REAL(unlink)(p); }
int unlinkat(int d, const char *p, int f) { if (at(UNLINK, d, p)) return -1; return REAL(unlinkat)(d, p, f); }
int rmdir(const char *p) { if (at(UNLINK, AT_FDCWD, p)) return -1; return REAL(rmdir)(p); }
int remove(const char *p) { if (at(UNLINK, AT_FDCWD, p)) return -1; return REAL(remove)(p); }
int mkdir(const char *p, mode_t m) { if (at(MKDIR, AT_FDCWD, p)) return -1; return REAL(mkdir)(p, m); }
int mkdirat(int d, const char *p, mode_t m) { if (at(MKDIR, d, p)) return -1; return REAL(mkdirat)(d, p, m); }
int link(const char *p, const char *q) { if (at2(LINK, AT_FDCWD, p, AT_FDCWD, q)) return -1; return REAL(link)(p, q); }
int linkat(int d, const char *p, int e, const char *q, int f) { if (at2(LINK, d, p, e, q)) return -1; return REAL(linkat)(d, p, e, q, f); }
int symlink(const char *p, const char *q) { if (at(LINK, AT_FDCWD, q)) return -1; return REAL(symlink)(p, q); }
int symlinkat(const char *p, int d, const char *q) { if (at(LINK, d, q)) return -1; return REAL(symlinkat)(p, d, q); }
