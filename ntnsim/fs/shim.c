/* Filesystem seam: LD_PRELOAD library that hands every file operation below
 * $NTNFS_ROOT to a controller (UNIX SOCK_SEQPACKET socket $NTNFS_CTL), which decides
 * whether it proceeds, fails, is cut short, or whether the process dies here.
 * Mutating operations outside the root are refused (EPERM) and reported.
 *
 * to the controller:  B <pid> <op> <size> <path>\t<path2>\t<inode>
 *                     A <pid> <ret> <errno>
 *                     X <pid> <op> <path>            (refused, outside)
 * decisions:          P | E <errno> | S <n> | K | T <n> | I
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t rootlen;
static char ctl[PATH_MAX];
static int sock = -1;
static pid_t sock_pid;
static int armed = -1;
static int busy;                    /* inside the shim: do not recurse */
#define MAXFD 4096
static char *fdpath[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name)

static void arm(void)
{
    if (armed >= 0)
        return;
    const char *r = getenv("NTNFS_ROOT"), *c = getenv("NTNFS_CTL");
    if (!r || !c) {
        armed = 0;
        return;
    }
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    snprintf(ctl, sizeof ctl, "%s", c);
    armed = 1;
}

__attribute__((constructor)) static void init(void) { arm(); }

static void dial(void)
{
    if (sock >= 0 && sock_pid == getpid())
        return;
    int s = syscall(SYS_socket, AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    snprintf(a.sun_path, sizeof a.sun_path, "%s", ctl);
    if (s < 0 || syscall(SYS_connect, s, &a, sizeof a) < 0)
        syscall(SYS_exit_group, 99);
    /* keep clear of the low descriptors */
    int h = syscall(SYS_fcntl, s, F_DUPFD_CLOEXEC, 900);
    if (h >= 0) {
        syscall(SYS_close, s);
        s = h;
    }
    sock = s;
    sock_pid = getpid();
}

static void say(const char *m, size_t n, char *reply, size_t cap)
{
    dial();
    if (syscall(SYS_write, sock, m, n) != (long)n)
        syscall(SYS_exit_group, 98);
    long k;
    do {
        k = syscall(SYS_read, sock, reply, cap - 1);
    } while (k < 0 && errno == EINTR);
    if (k <= 0)
        syscall(SYS_exit_group, 97);
    reply[k] = 0;
}

/* absolute path with the links of its directory resolved */
static void absolute(int dfd, const char *p, char *out)
{
    char tmp[PATH_MAX], dir[PATH_MAX], real_[PATH_MAX];
    int e = errno;
    if (p[0] == '/')
        snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char base[PATH_MAX] = "";
        if (dfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0)
                base[0] = 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
            long n = syscall(SYS_readlink, l, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        snprintf(tmp, sizeof tmp, "%.2000s/%.2000s", base, p);
    }
    size_t n = strlen(tmp);
    while (n > 1 && tmp[n-1] == '/')
        tmp[--n] = 0;
    char *s = strrchr(tmp, '/');
    snprintf(dir, sizeof dir, "%.*s", (int)(s == tmp ? 1 : s - tmp), tmp);
    if (realpath(dir, real_))
        snprintf(out, PATH_MAX, "%.2000s%s%.2000s", real_, real_[1] ? "/" : "", s + 1);
    else
        snprintf(out, PATH_MAX, "%.4000s", tmp);
    errno = e;
}

static int inside(const char *p)
{
    return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}

struct dec { char kind; long n; };

static struct dec ask(const char *op, long size, const char *p, const char *p2, long ino)
{
    char m[2*PATH_MAX + 200], r[64];
    int e = errno;
    int k = snprintf(m, sizeof m, "B %d %s %ld %s\t%s\t%ld", getpid(), op, size, p, p2 ? p2 : "", ino);
    busy++;
    say(m, k, r, sizeof r);
    busy--;
    errno = e;
    struct dec d = {r[0], r[1] ? strtol(r + 2, NULL, 10) : 0};
    if (d.kind == 'K')
        syscall(SYS_exit_group, 137);
    if (d.kind == 'I')
        raise(SIGINT);
    return d;
}

static void done(long ret)
{
    char m[64], r[64];
    int e = errno;
    int k = snprintf(m, sizeof m, "A %d %ld %d", getpid(), ret, ret < 0 ? e : 0);
    busy++;
    say(m, k, r, sizeof r);
    busy--;
    errno = e;
}

static int refuse(const char *op, const char *p)
{
    char m[PATH_MAX + 100], r[64];
    if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/self/", 11))
        return 0;
    int k = snprintf(m, sizeof m, "X %d %s 0 %s", getpid(), op, p);
    busy++;
    say(m, k, r, sizeof r);
    busy--;
    errno = EPERM;
    return 1;
}

#define OFF (armed <= 0 || busy)

static const char *tracked(int fd)
{
    return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL;
}

static long inode_of(int fd)
{
    struct stat st;
    return fstat(fd, &st) ? 0 : (long)st.st_ino;
}

static void track(int fd, const char *p)
{
    if (fd < 0 || fd >= MAXFD)
        return;
    free(fdpath[fd]);
    fdpath[fd] = p ? strdup(p) : NULL;
}

/* ---------------------------------------------------------------- open */
static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
    char p[PATH_MAX], q[PATH_MAX];
    arm();
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)) || (flags & O_TMPFILE) == O_TMPFILE;
    if (OFF || !path)
        return syscall(SYS_openat, dfd, path, flags, mode);
    absolute(dfd, path, p);
    /* an existing link is followed */
    if (!(flags & O_NOFOLLOW) && realpath(p, q))
        strcpy(p, q);
    if (!inside(p)) {
        if (wr && refuse("open", p))
            return -1;
        return syscall(SYS_openat, dfd, path, flags, mode);
    }
    struct stat st;
    if (!wr && !stat(p, &st) && S_ISDIR(st.st_mode)) {
        int fd = syscall(SYS_openat, dfd, path, flags, mode);
        track(fd, fd >= 0 ? p : NULL);
        return fd;
    }
    char op[32];
    snprintf(op, sizeof op, "open%s%s%s", wr ? "w" : "r", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "");
    struct dec d = ask(op, 0, p, NULL, 0);
    int fd;
    if (d.kind == 'E') {
        errno = d.n;
        fd = -1;
    } else
        fd = syscall(SYS_openat, dfd, path, flags, mode);
    if (fd >= 0)
        track(fd, p);
    done(fd);
    return fd;
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dfd, const char *path, int flags, ...) { MODE return do_open(dfd, path, flags, mode); }
int openat64(int dfd, const char *path, int flags, ...) { MODE return do_open(dfd, path, flags | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *path, const char *mode)
{
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+'))
        fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = do_open(AT_FDCWD, path, fl | O_CLOEXEC, 0666);
    return fd < 0 ? NULL : fdopen(fd, mode);
}
FILE *fopen(const char *path, const char *mode)
{
    REAL(FILE *, "fopen", const char *, const char *);
    arm();
    return OFF ? real(path, mode) : do_fopen(path, mode);
}
FILE *fopen64(const char *path, const char *mode)
{
    REAL(FILE *, "fopen64", const char *, const char *);
    arm();
    return OFF ? real(path, mode) : do_fopen(path, mode);
}

int close(int fd)
{
    const char *p = OFF ? NULL : tracked(fd);
    if (armed > 0 && fd == sock && sock_pid == getpid())
        return 0;
    if (!p)
        return syscall(SYS_close, fd);
    char q[PATH_MAX];
    snprintf(q, sizeof q, "%s", p);
    struct dec d = ask("close", 0, q, NULL, inode_of(fd));
    track(fd, NULL);
    int r = syscall(SYS_close, fd);
    if (d.kind == 'E') {
        errno = d.n;
        r = -1;
    }
    done(r);
    return r;
}

int dup2(int a, int b)
{
    if (!OFF)
        track(b, tracked(a));
    return syscall(SYS_dup2, a, b);
}
int dup3(int a, int b, int f)
{
    if (!OFF)
        track(b, tracked(a));
    return syscall(SYS_dup3, a, b, f);
}
int dup(int a)
{
    int r = syscall(SYS_dup, a);
    if (!OFF && r >= 0)
        track(r, tracked(a));
    return r;
}

/* ---------------------------------------------------------------- data */
#define IO(op, len_, call, cut) \
    const char *p = OFF ? NULL : tracked(fd); \
    if (!p) return call; \
    struct dec d = ask(op, len_, p, NULL, inode_of(fd)); \
    long r; \
    if (d.kind == 'E') { errno = d.n; r = -1; } \
    else if ((d.kind == 'S' || d.kind == 'T') && d.n < (long)(len_)) { cut; \
        if (d.kind == 'T') syscall(SYS_exit_group, 137); } \
    else { r = call; if (d.kind == 'T') syscall(SYS_exit_group, 137); } \
    done(r); \
    return r

ssize_t write(int fd, const void *b, size_t n) { IO("write", n, syscall(SYS_write, fd, b, n), r = syscall(SYS_write, fd, b, d.n)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { IO("write", n, syscall(SYS_pwrite64, fd, b, n, o), r = syscall(SYS_pwrite64, fd, b, d.n, o)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    size_t n = 0;
    for (int i = 0; i < c; i++)
        n += v[i].iov_len;
    IO("write", n, syscall(SYS_writev, fd, v, c), r = syscall(SYS_write, fd, v[0].iov_base, d.n < (long)v[0].iov_len ? d.n : (long)v[0].iov_len));
}
ssize_t read(int fd, void *b, size_t n) { IO("read", n, syscall(SYS_read, fd, b, n), r = syscall(SYS_read, fd, b, d.n)); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { IO("read", n, syscall(SYS_pread64, fd, b, n, o), r = syscall(SYS_pread64, fd, b, d.n, o)); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t sendfile64(int fd, int in, off_t *o, size_t n) { IO("write", n, syscall(SYS_sendfile, fd, in, o, n), r = syscall(SYS_sendfile, fd, in, o, d.n)); }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { return sendfile64(fd, in, o, n); }
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *oo, size_t n, unsigned f)
{
    IO("write", n, syscall(SYS_copy_file_range, in, io, fd, oo, n, f), r = syscall(SYS_copy_file_range, in, io, fd, oo, d.n, f));
}
int ftruncate64(int fd, off_t n) { IO("ftruncate", 0, syscall(SYS_ftruncate, fd, n), r = 0); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) { IO("fsync", 0, syscall(SYS_fsync, fd), r = 0); }
int fdatasync(int fd) { IO("fsync", 0, syscall(SYS_fdatasync, fd), r = 0); }
int fchmod(int fd, mode_t m) { IO("chmod", 0, syscall(SYS_fchmod, fd, m), r = 0); }
void sync(void)
{
    if (OFF) {
        syscall(SYS_sync);
        return;
    }
    ask("sync", 0, root, NULL, 0);
    done(0);
}

/* ---------------------------------------------------------------- names */
#define NAME1(op, dfd, path, call) \
    char p[PATH_MAX]; \
    arm(); \
    if (OFF || !path) return call; \
    absolute(dfd, path, p); \
    if (!inside(p)) { if (refuse(op, p)) return -1; return call; } \
    struct dec d = ask(op, 0, p, NULL, 0); \
    long r; \
    if (d.kind == 'E') { errno = d.n; r = -1; } else r = call; \
    done(r); \
    return r

#define NAME2(op, d1, p1, d2, p2_, call) \
    char p[PATH_MAX], q[PATH_MAX]; \
    arm(); \
    if (OFF || !p1 || !p2_) return call; \
    absolute(d1, p1, p); absolute(d2, p2_, q); \
    if (!inside(p) || !inside(q)) { if (refuse(op, inside(p) ? q : p)) return -1; return call; } \
    struct dec d = ask(op, 0, p, q, 0); \
    long r; \
    if (d.kind == 'E') { errno = d.n; r = -1; } else r = call; \
    done(r); \
    return r

int unlinkat(int dfd, const char *a, int f) { NAME1("unlink", dfd, a, syscall(SYS_unlinkat, dfd, a, f)); }
int unlink(const char *a) { return unlinkat(AT_FDCWD, a, 0); }
int rmdir(const char *a) { return unlinkat(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char *a)
{
    struct stat st;
    return unlinkat(AT_FDCWD, a, !lstat(a, &st) && S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
}
int mkdirat(int dfd, const char *a, mode_t m)
{
    struct stat st;
    char full[PATH_MAX];
    arm();
    if (!OFF && a) {
        /* "mkdir -p" walks down from the filesystem root */
        absolute(dfd, a, full);
        if (!inside(full) && !stat(full, &st)) {
            errno = EEXIST;
            return -1;
        }
    }
    NAME1("mkdir", dfd, a, syscall(SYS_mkdirat, dfd, a, m)); }
int mkdir(const char *a, mode_t m) { return mkdirat(AT_FDCWD, a, m); }
int fchmodat(int dfd, const char *a, mode_t m, int f) { NAME1("chmod", dfd, a, syscall(SYS_fchmodat, dfd, a, m)); }
int chmod(const char *a, mode_t m) { return fchmodat(AT_FDCWD, a, m, 0); }
int truncate64(const char *a, off_t n) { NAME1("truncate", AT_FDCWD, a, syscall(SYS_truncate, a, n)); }
int truncate(const char *a, off_t n) { return truncate64(a, n); }
int symlinkat(const char *t, int dfd, const char *a)
{
    char p[PATH_MAX];
    arm();
    if (OFF || !a)
        return syscall(SYS_symlinkat, t, dfd, a);
    absolute(dfd, a, p);
    if (!inside(p)) {
        if (refuse("symlink", p))
            return -1;
        return syscall(SYS_symlinkat, t, dfd, a);
    }
    struct dec d = ask("symlink", 0, p, t, 0);
    long r;
    if (d.kind == 'E') {
        errno = d.n;
        r = -1;
    } else
        r = syscall(SYS_symlinkat, t, dfd, a);
    done(r);
    return r;
}
int symlink(const char *t, const char *a) { return symlinkat(t, AT_FDCWD, a); }
int renameat(int d1, const char *a, int d2, const char *b) { NAME2("rename", d1, a, d2, b, syscall(SYS_renameat, d1, a, d2, b)); }
int rename(const char *a, const char *b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { NAME2("rename", d1, a, d2, b, syscall(SYS_renameat2, d1, a, d2, b, f)); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { NAME2("link", d1, a, d2, b, syscall(SYS_linkat, d1, a, d2, b, f)); }
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int fchownat(int dfd, const char *a, uid_t u, gid_t g, int f) { NAME1("chown", dfd, a, syscall(SYS_fchownat, dfd, a, u, g, f)); }
int chown(const char *a, uid_t u, gid_t g) { return fchownat(AT_FDCWD, a, u, g, 0); }
int lchown(const char *a, uid_t u, gid_t g) { return fchownat(AT_FDCWD, a, u, g, AT_SYMLINK_NOFOLLOW); }
int utimensat(int dfd, const char *a, const struct timespec t[2], int f)
{
    if (!a)
        return syscall(SYS_utimensat, dfd, a, t, f);
    NAME1("utimens", dfd, a, syscall(SYS_utimensat, dfd, a, t, f));
}
