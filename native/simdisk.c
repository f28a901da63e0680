/* simdisk: the disk seam of the simulator.
 *
 * Loaded with LD_PRELOAD.  Does nothing until simdisk_arm(root) is called.
 * While armed, every libc call that changes files below `root` is given a
 * sequence number and logged (so that the harness can rebuild the disk as it
 * was at any crash point), and may be failed or shortened according to the
 * fault plan.  Sleeping (sqlite's busy handler) is handed to a callback so that
 * it happens in virtual time, and /dev/urandom opened by sqlite is deterministic.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN = 1, K_WRITE, K_TRUNC, K_FSYNC, K_RENAME, K_UNLINK, K_MKDIR, K_RMDIR, K_CLOSE, K_READ, K_LINK, K_MARK };

typedef struct {
  int32_t kind, fileid, flags, err;
  int64_t off, len;      /* write: offset/length, truncate: new size */
  uint64_t data;         /* offset into blob of data / path / paths */
} rec_t;

static char root[PATH_MAX];
static size_t rootlen;
static volatile int armed;
static rec_t *recs; static size_t nrecs, crecs;
static char *blob; static size_t nblob, cblob;
static int keepdata = 1;

#define MAXFD 4096
static int fd_file[MAXFD];     /* 0: not ours, else file id + 1 */
static int fd_append[MAXFD];
static char fd_urandom[MAXFD];
static uint64_t rnd = 88172645463325252ull;
/* identity of files: (dev, ino) -> id; ids are handed out in order of first use */
static struct { dev_t d; ino_t i; int id; } *files; static int nfiles, cfiles, nextid;

/* fault plan: fail the n-th operation (1-based) whose kind is in mask and whose path contains sub */
#define MAXF 64
static struct { unsigned mask; int nth, count, err, shortw, sticky, fired, seen; char sub[64]; } faults[MAXF];
static int nfaults;
static void (*sleep_cb)(double);
static void (*op_cb)(int, int);

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static uint64_t put_blob(const void *p, size_t n) {
  if (nblob + n > cblob) { cblob = (cblob ? cblob * 2 : 1 << 16); while (cblob < nblob + n) cblob *= 2; blob = realloc(blob, cblob); }
  if (n) memcpy(blob + nblob, p, n);
  uint64_t at = nblob; nblob += n; return at;
}
static rec_t *log_op(int kind, int fileid, int flags, int64_t off, int64_t len, uint64_t data, int err) {
  if (nrecs == crecs) { crecs = crecs ? crecs * 2 : 1024; recs = realloc(recs, crecs * sizeof(rec_t)); }
  rec_t *r = &recs[nrecs++];
  r->kind = kind; r->fileid = fileid; r->flags = flags; r->err = err; r->off = off; r->len = len; r->data = data;
  return r;
}
static int under_root(const char *path) {
  if (!armed || !path) return 0;
  char buf[PATH_MAX * 2];
  if (path[0] != '/') {
    if (!getcwd(buf, PATH_MAX)) return 0;
    strncat(buf, "/", 2); strncat(buf, path, PATH_MAX - 1); path = buf;
  }
  return strncmp(path, root, rootlen) == 0 && (path[rootlen] == '/' || path[rootlen] == 0);
}
static const char *absify(const char *path, char *buf) {
  if (path[0] == '/') return path;
  if (!getcwd(buf, PATH_MAX)) return path;
  strcat(buf, "/"); strncat(buf, path, PATH_MAX - 1); return buf;
}
static int file_id(int fd) {
  struct stat st; if (fstat(fd, &st)) return -1;
  for (int k = 0; k < nfiles; k++) if (files[k].d == st.st_dev && files[k].i == st.st_ino) return files[k].id;
  if (nfiles == cfiles) { cfiles = cfiles ? cfiles * 2 : 64; files = realloc(files, cfiles * sizeof *files); }
  files[nfiles].d = st.st_dev; files[nfiles].i = st.st_ino; files[nfiles].id = nextid++;
  return files[nfiles++].id;
}
static void forget_path(const char *path) { /* inode may be reused after an unlink of the last link */
  struct stat st; if (lstat(path, &st)) return;
  if (st.st_nlink > 1 && !S_ISDIR(st.st_mode)) return;
  for (int k = 0; k < nfiles; k++) if (files[k].d == st.st_dev && files[k].i == st.st_ino) { files[k] = files[--nfiles]; return; }
}
static int check_fault(int kind, const char *path, int *shortw) {
  int hit = 0; if (shortw) *shortw = 0;
  for (int k = 0; k < nfaults; k++) {
    if (!(faults[k].mask & (1u << kind))) continue;
    if (faults[k].sub[0] && path && !strstr(path, faults[k].sub)) continue;
    faults[k].seen++;
    int on = faults[k].seen >= faults[k].nth && (faults[k].sticky || faults[k].seen < faults[k].nth + faults[k].count);
    if (on && !hit) { faults[k].fired++; if (shortw && faults[k].shortw) *shortw = faults[k].shortw; hit = faults[k].err; }
  }
  return hit;
}
static char fd_path[MAXFD][256];

/* ---- control interface (ctypes) ---- */
void simdisk_arm(const char *r) { strncpy(root, r, PATH_MAX - 1); rootlen = strlen(root); armed = 1; }
void simdisk_disarm(void) { armed = 0; }
void simdisk_reset(void) { nrecs = nblob = 0; nfiles = 0; nextid = 1; nfaults = 0; memset(fd_file, 0, sizeof fd_file); rnd = 88172645463325252ull; }
void simdisk_keepdata(int k) { keepdata = k; }
int simdisk_fault(unsigned mask, int nth, int count, int err, int shortw, int sticky, const char *sub) {
  if (nfaults == MAXF) return -1;
  faults[nfaults].mask = mask; faults[nfaults].nth = nth; faults[nfaults].count = count; faults[nfaults].err = err;
  faults[nfaults].shortw = shortw; faults[nfaults].sticky = sticky; faults[nfaults].fired = faults[nfaults].seen = 0;
  strncpy(faults[nfaults].sub, sub ? sub : "", 63); return nfaults++;
}
void simdisk_clear_faults(void) { nfaults = 0; }
int simdisk_fired(int k) { return k < nfaults ? faults[k].fired : 0; }
int simdisk_seen(int k) { return k < nfaults ? faults[k].seen : 0; }
void simdisk_set_sleep(void (*cb)(double)) { sleep_cb = cb; }
void simdisk_set_op(void (*cb)(int, int)) { op_cb = cb; }
size_t simdisk_count(void) { return nrecs; }
const rec_t *simdisk_recs(void) { return recs; }
const char *simdisk_blob(void) { return blob; }
size_t simdisk_bloblen(void) { return nblob; }
void simdisk_mark(int64_t tag) { if (armed) log_op(K_MARK, 0, 0, tag, 0, 0, 0); }
int simdisk_present(void) { return 42; }

/* ---- interposed calls ---- */
static int post_open(int fd, const char *path, int flags, int existed, int64_t oldsize) {
  if (fd < 0 || fd >= MAXFD) return fd;
  fd_file[fd] = 0; fd_urandom[fd] = 0;
  if (!armed) return fd;
  if (path && !strcmp(path, "/dev/urandom")) { fd_urandom[fd] = 1; return fd; }
  if (!under_root(path)) return fd;
  char buf[PATH_MAX * 2]; const char *ap = absify(path, buf);
  fd_file[fd] = file_id(fd) + 1; fd_append[fd] = (flags & O_APPEND) != 0;
  strncpy(fd_path[fd], ap, 255);
  if (!existed || (flags & O_TRUNC && oldsize > 0)) {
    uint64_t at = put_blob(ap, strlen(ap) + 1);
    log_op(K_OPEN, fd_file[fd] - 1, (existed ? 0 : 1) | ((flags & O_TRUNC) ? 2 : 0), 0, strlen(ap), at, 0);
  }
  return fd;
}
static int gen_open(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode) {
  int existed = 1; int64_t oldsize = 0;
  if (under_root(path)) {
    struct stat st; existed = stat(path, &st) == 0; if (existed) oldsize = st.st_size;
    int writing = (flags & O_ACCMODE) != O_RDONLY;
    if (writing || (flags & O_CREAT)) {
      int e = check_fault(K_OPEN, path, NULL);
      if (e) { log_op(K_OPEN, -1, 0, 0, 0, 0, e); errno = e; return -1; }
    }
  }
  return post_open(real(path, flags, mode), path, flags, existed, oldsize);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE REAL(int, open, const char *, int, ...) return gen_open(real_open, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE REAL(int, open64, const char *, int, ...) return gen_open(real_open64, path, flags, mode); }
static const char *at_path(int dirfd, const char *path, char *buf) {
  if (path[0] == '/' || dirfd == AT_FDCWD) return path;
  char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
  ssize_t n = readlink(link, buf, PATH_MAX - 1); if (n < 0) return path; buf[n] = 0;
  strcat(buf, "/"); strncat(buf, path, PATH_MAX - 1); return buf;
}
int openat(int d, const char *path, int flags, ...) { GETMODE REAL(int, openat, int, const char *, int, ...)
  char buf[PATH_MAX * 2]; const char *p = at_path(d, path, buf); int existed = 1; int64_t oldsize = 0;
  if (under_root(p)) { struct stat st; existed = stat(p, &st) == 0; if (existed) oldsize = st.st_size;
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) { int e = check_fault(K_OPEN, p, NULL); if (e) { errno = e; return -1; } } }
  return post_open(real_openat(d, path, flags, mode), p, flags, existed, oldsize); }
int openat64(int d, const char *path, int flags, ...) { GETMODE REAL(int, openat64, int, const char *, int, ...)
  char buf[PATH_MAX * 2]; const char *p = at_path(d, path, buf); int existed = 1; int64_t oldsize = 0;
  if (under_root(p)) { struct stat st; existed = stat(p, &st) == 0; if (existed) oldsize = st.st_size;
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) { int e = check_fault(K_OPEN, p, NULL); if (e) { errno = e; return -1; } } }
  return post_open(real_openat64(d, path, flags, mode), p, flags, existed, oldsize); }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

#define OURS(fd) (armed && (fd) >= 0 && (fd) < MAXFD && fd_file[fd])
int close(int fd) { REAL(int, close, int)
  if (fd >= 0 && fd < MAXFD) { if (OURS(fd)) { int e = check_fault(K_CLOSE, fd_path[fd], NULL); fd_file[fd] = 0; fd_urandom[fd] = 0; if (e) { real_close(fd); errno = e; return -1; } } fd_file[fd] = 0; fd_urandom[fd] = 0; }
  return real_close(fd); }
static int dupfix(int o, int n) { if (n >= 0 && n < MAXFD && o >= 0 && o < MAXFD) { fd_file[n] = fd_file[o]; fd_append[n] = fd_append[o]; fd_urandom[n] = fd_urandom[o]; memcpy(fd_path[n], fd_path[o], 256); } return n; }
int dup(int o) { REAL(int, dup, int) return dupfix(o, real_dup(o)); }
int dup2(int o, int n) { REAL(int, dup2, int, int) return dupfix(o, real_dup2(o, n)); }
int dup3(int o, int n, int f) { REAL(int, dup3, int, int, int) return dupfix(o, real_dup3(o, n, f)); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off, int positional) {
  REAL(ssize_t, write, int, const void *, size_t) REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
  if (OURS(fd)) {
    int sh; int e = check_fault(K_WRITE, fd_path[fd], &sh);
    if (e) {
      if (sh && n > 1) { size_t m = n * sh / 100; if (m < 1) m = 1; if (m >= n) m = n - 1; n = m; }
      else { log_op(K_WRITE, fd_file[fd] - 1, 0, 0, 0, 0, e); errno = e; return -1; }
    }
    if (!positional) {
      if (fd_append[fd]) { struct stat st; fstat(fd, &st); off = st.st_size; } else off = lseek64(fd, 0, SEEK_CUR);
    }
    ssize_t r = positional ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
    if (r > 0) { uint64_t at = keepdata ? put_blob(b, r) : 0; log_op(K_WRITE, fd_file[fd] - 1, 0, off, r, at, 0); }
    if (op_cb) op_cb(K_WRITE, (int)r);
    return r;
  }
  return positional ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return do_write(fd, b, n, off, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return do_write(fd, b, n, off, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int)
  if (!OURS(fd)) return real_writev(fd, v, c);
  ssize_t t = 0; for (int k = 0; k < c; k++) { ssize_t r = do_write(fd, v[k].iov_base, v[k].iov_len, 0, 0); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[k].iov_len) break; } return t; }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t off) { REAL(ssize_t, pwritev, int, const struct iovec *, int, off_t)
  if (!OURS(fd)) return real_pwritev(fd, v, c, off);
  ssize_t t = 0; for (int k = 0; k < c; k++) { ssize_t r = do_write(fd, v[k].iov_base, v[k].iov_len, off + t, 1); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[k].iov_len) break; } return t; }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
  if (!OURS(o)) return real_sendfile64(o, i, off, n);
  errno = EINVAL; return -1; }  /* callers fall back to read/write */
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
  if (!OURS(o)) return real_copy_file_range(i, io, o, oo, n, f); errno = EXDEV; return -1; }
int posix_fallocate64(int fd, off64_t a, off64_t b) { REAL(int, posix_fallocate64, int, off64_t, off64_t) if (OURS(fd)) return EOPNOTSUPP; return real_posix_fallocate64(fd, a, b); }
int posix_fallocate(int fd, off_t a, off_t b) { return posix_fallocate64(fd, a, b); }
static int do_trunc(int fd, int64_t len) { REAL(int, ftruncate64, int, off64_t)
  if (OURS(fd)) { int e = check_fault(K_TRUNC, fd_path[fd], NULL); if (e) { errno = e; return -1; }
    int r = real_ftruncate64(fd, len); if (!r) { log_op(K_TRUNC, fd_file[fd] - 1, 0, 0, len, 0, 0); if (op_cb) op_cb(K_TRUNC, 0); } return r; }
  return real_ftruncate64(fd, len); }
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }
int truncate64(const char *p, off64_t len) { REAL(int, truncate64, const char *, off64_t) if (!under_root(p)) return real_truncate64(p, len);
  int fd = open(p, O_WRONLY); if (fd < 0) return -1; int r = do_trunc(fd, len); close(fd); return r; }
int truncate(const char *p, off_t len) { return truncate64(p, len); }
static int do_sync(int fd, int (*real)(int)) {
  if (OURS(fd)) { int e = check_fault(K_FSYNC, fd_path[fd], NULL); if (e) { log_op(K_FSYNC, fd_file[fd] - 1, 0, 0, 0, 0, e); errno = e; return -1; }
    uint64_t at = put_blob(fd_path[fd], strlen(fd_path[fd]) + 1);
    struct stat st; fstat(fd, &st);
    log_op(K_FSYNC, fd_file[fd] - 1, S_ISDIR(st.st_mode) ? 4 : 0, 0, strlen(fd_path[fd]), at, 0); if (op_cb) op_cb(K_FSYNC, 0);
    return 0; }
  return real(fd); }
int fsync(int fd) { REAL(int, fsync, int) return do_sync(fd, real_fsync); }
int fdatasync(int fd) { REAL(int, fdatasync, int) return do_sync(fd, real_fdatasync); }
static int do_rename(const char *a, const char *b, int (*real)(const char *, const char *)) {
  if (under_root(a) || under_root(b)) {
    int e = check_fault(K_RENAME, b, NULL); if (e) { log_op(K_RENAME, 0, 0, 0, 0, 0, e); errno = e; return -1; }
    char b1[PATH_MAX * 2], b2[PATH_MAX * 2]; const char *pa = absify(a, b1), *pb = absify(b, b2);
    forget_path(pb);
    int r = real(a, b); if (r) return r;
    uint64_t at = put_blob(pa, strlen(pa) + 1); put_blob(pb, strlen(pb) + 1);
    log_op(K_RENAME, 0, 0, 0, strlen(pa), at, 0); if (op_cb) op_cb(K_RENAME, 0); return 0; }
  return real(a, b); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *) return do_rename(a, b, real_rename); }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, renameat, int, const char *, int, const char *)
  char b1[PATH_MAX * 2], b2[PATH_MAX * 2]; const char *pa = at_path(d1, a, b1), *pb = at_path(d2, b, b2);
  if (under_root(pa) || under_root(pb)) return rename(pa, pb);
  return real_renameat(d1, a, d2, b); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *)
  int r = real_link(a, b);
  if (!r && under_root(b)) { char b1[PATH_MAX * 2], b2[PATH_MAX * 2]; const char *pa = absify(a, b1), *pb = absify(b, b2); uint64_t at = put_blob(pa, strlen(pa) + 1); put_blob(pb, strlen(pb) + 1); log_op(K_LINK, 0, 0, 0, strlen(pa), at, 0); }
  return r; }
static int do_unlink(const char *p, int kind) {
  REAL(int, unlink, const char *) REAL(int, rmdir, const char *)
  if (under_root(p)) { int e = check_fault(kind, p, NULL); if (e) { errno = e; return -1; }
    char b1[PATH_MAX * 2]; const char *pa = absify(p, b1); 
    struct stat st; int ok = lstat(pa, &st) == 0; 
    if (ok) forget_path(pa);
    int r = kind == K_UNLINK ? real_unlink(p) : real_rmdir(p);
    if (!r) { uint64_t at = put_blob(pa, strlen(pa) + 1); log_op(kind, 0, 0, 0, strlen(pa), at, 0); if (op_cb) op_cb(kind, 0); } return r; }
  return kind == K_UNLINK ? real_unlink(p) : real_rmdir(p); }
int unlink(const char *p) { return do_unlink(p, K_UNLINK); }
int remove(const char *p) { struct stat st; if (lstat(p, &st)) return -1; return do_unlink(p, S_ISDIR(st.st_mode) ? K_RMDIR : K_UNLINK); }
int rmdir(const char *p) { return do_unlink(p, K_RMDIR); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int) char b[PATH_MAX * 2]; const char *q = at_path(d, p, b);
  if (under_root(q)) return do_unlink(q, (f & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK); return real_unlinkat(d, p, f); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t)
  if (under_root(p)) { int e = check_fault(K_MKDIR, p, NULL); if (e) { errno = e; return -1; } }
  int r = real_mkdir(p, m);
  if (!r && under_root(p)) { char b1[PATH_MAX * 2]; const char *pa = absify(p, b1); uint64_t at = put_blob(pa, strlen(pa) + 1); log_op(K_MKDIR, 0, 0, 0, strlen(pa), at, 0); } return r; }
static int do_read_fault(int fd) { return check_fault(K_READ, fd_path[fd], NULL); }
static void fill(void *b, size_t n) { unsigned char *p = b; for (size_t k = 0; k < n; k++) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; p[k] = rnd >> 24; } }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t)
  if (armed && fd >= 0 && fd < MAXFD) { if (fd_urandom[fd]) { fill(b, n); return n; } if (OURS(fd)) { int e = do_read_fault(fd); if (e) { errno = e; return -1; } } }
  return real_read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, int, void *, size_t, off64_t)
  if (OURS(fd)) { int e = do_read_fault(fd); if (e) { errno = e; return -1; } if (op_cb) op_cb(K_READ, 0); } return real_pread64(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

int usleep(useconds_t us) { REAL(int, usleep, useconds_t) if (sleep_cb) { sleep_cb(us / 1e6); return 0; } return real_usleep(us); }
int nanosleep(const struct timespec *a, struct timespec *b) { REAL(int, nanosleep, const struct timespec *, struct timespec *)
  if (sleep_cb) { sleep_cb(a->tv_sec + a->tv_nsec / 1e9); return 0; } return real_nanosleep(a, b); }
