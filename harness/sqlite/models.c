/* A small file system and libc in memory, used only in the symbolic encoding.  The native replay uses the real ones. */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

typedef struct { char name[96]; unsigned char *data; long size, cap; int exists, dir, ino; } File;
static File files[24];
static int nfiles;
static struct { int used, file; long pos; } fds[64];
static struct { int file, at, used; struct dirent64 e; } dirs[8];

static int err(int e) { errno = e; return -1; }
static long len(const char *s) { long n = 0; while (s[n]) n++; return n; }
static int eq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static void full(const char *p, char *out) {
  /* absolute, no empty or '.' parts, no trailing slash */
  long n = 0;
  if (*p != '/') { out[n++] = '/'; out[n++] = 'w'; }
  while (*p) {
    while (*p == '/') p++;
    if (!*p) break;
    if (p[0] == '.' && (p[1] == '/' || !p[1])) { p++; continue; }
    out[n++] = '/';
    while (*p && *p != '/' && n < 94) out[n++] = *p++;
  }
  if (!n) out[n++] = '/';
  out[n] = 0;
}
static void init(void) {
  if (nfiles) return;
  nfiles = 2;
  files[0].name[0] = '/'; files[0].exists = 1; files[0].dir = 1; files[0].ino = 1;
  files[1].name[0] = '/'; files[1].name[1] = 'w'; files[1].exists = 1; files[1].dir = 1; files[1].ino = 2;
}
static int find(const char *p) {
  char b[96];
  init();
  full(p, b);
  for (int i = 0; i < nfiles; i++) if (files[i].exists && eq(files[i].name, b)) return i;
  return -1;
}
static int make(const char *p, int dir) {
  char b[96];
  init();
  full(p, b);
  int i;
  for (i = 0; i < nfiles; i++) if (!files[i].exists && files[i].ino) break;
  if (i == nfiles) nfiles++;
  File *f = &files[i];
  long k = 0;
  for (; b[k]; k++) f->name[k] = b[k];
  f->name[k] = 0;
  f->data = 0; f->size = f->cap = 0; f->exists = 1; f->dir = dir; f->ino = i + 1;
  return i;
}
static void fill(int i, struct stat64 *s) {
  for (unsigned k = 0; k < sizeof *s; k++) ((char *)s)[k] = 0;
  s->st_mode = files[i].dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  s->st_size = files[i].size; s->st_ino = files[i].ino; s->st_dev = 1; s->st_nlink = 1; s->st_blksize = 4096;
}
int model_access(const char *p, int m) { (void)m; return find(p) < 0 ? err(ENOENT) : 0; }
int model_open64(const char *p, int flags, ...) {
  int i = find(p);
  if (i < 0) { if (!(flags & O_CREAT)) return err(ENOENT); i = make(p, 0); }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
  else if (files[i].dir && (flags & (O_WRONLY | O_RDWR | O_CREAT))) return err(EISDIR);
  else if (flags & O_TRUNC) files[i].size = 0;
  for (int k = 10; k < 64; k++) if (!fds[k].used) { fds[k].used = 1; fds[k].file = i; fds[k].pos = 0; return k; }
  return err(EMFILE);
}
int model_close(int fd) { if (fd < 0 || fd >= 64 || !fds[fd].used) return err(EBADF); fds[fd].used = 0; return 0; }
static void room(File *f, long n) {
  if (n > f->cap) {
    long c = f->cap ? f->cap : 8192;
    while (c < n) c *= 2;
    f->data = realloc(f->data, c);
    f->cap = c;
  }
  for (; f->size < n; f->size++) f->data[f->size] = 0;
}
long model_pread64(int fd, void *b, size_t n, long off) {
  File *f = &files[fds[fd].file];
  if (f->dir) return err(EISDIR);
  if (off >= f->size) return 0;
  if ((long)n > f->size - off) n = f->size - off;
  __builtin_memcpy(b, f->data + off, n);
  return n;
}
long model_pwrite64(int fd, const void *b, size_t n, long off) {
  File *f = &files[fds[fd].file];
  room(f, off + (long)n);
  __builtin_memcpy(f->data + off, b, n);
  return n;
}
long model_read(int fd, void *b, size_t n) { long r = model_pread64(fd, b, n, fds[fd].pos); fds[fd].pos += r; return r; }
long model_write(int fd, const void *b, size_t n) {
  if (fd < 10) return n;
  long r = model_pwrite64(fd, b, n, fds[fd].pos); fds[fd].pos += r; return r;
}
int model_ftruncate64(int fd, long n) { File *f = &files[fds[fd].file]; if (n < f->size) f->size = n; else room(f, n); return 0; }
int model_fstat64(int fd, struct stat64 *s) { fill(fds[fd].file, s); return 0; }
int model_stat64(const char *p, struct stat64 *s) { int i = find(p); if (i < 0) return err(ENOENT); fill(i, s); return 0; }
int model_lstat64(const char *p, struct stat64 *s) { return model_stat64(p, s); }
int model_unlink(const char *p) { int i = find(p); if (i < 0) return err(ENOENT); files[i].exists = 0; return 0; }
int model_mkdir(const char *p, mode_t m) { (void)m; if (find(p) >= 0) return err(EEXIST); make(p, 1); return 0; }
int model_rmdir(const char *p) { return model_unlink(p); }
int model_fcntl64(int fd, int c, ...) {
  if (c == F_GETLK) { va_list a; va_start(a, c); struct flock *l = va_arg(a, struct flock *); l->l_type = F_UNLCK; va_end(a); }
  (void)fd;
  return 0;
}
int model_fsync(int fd) { (void)fd; return 0; }
int model_fchmod(int fd, mode_t m) { (void)fd; (void)m; return 0; }
int model_fchown(int fd, uid_t u, gid_t g) { (void)fd; (void)u; (void)g; return 0; }
int model_utimes(const char *p, const struct timeval *t) { (void)p; (void)t; return 0; }
char *model_getcwd(char *b, size_t n) { if (n < 3) return 0; b[0] = '/'; b[1] = 'w'; b[2] = 0; return b; }
uid_t model_geteuid(void) { return 1000; }
pid_t model_getpid(void) { return 4711; }
int model_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = 1700000000; t->tv_usec = 0; return 0; }
time_t model_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
struct tm *model_localtime(const time_t *t) { (void)t; static struct tm x; return &x; }
int model_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return 0; }
long model_readlink(const char *p, char *b, size_t n) { (void)p; (void)b; (void)n; return err(EINVAL); }
char *model_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *model_strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
int model_strcmp(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) {} return (unsigned char)*a - (unsigned char)*b; }
int model_strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; }
  return 0;
}
size_t model_strcspn(const char *s, const char *r) {
  size_t n = 0;
  for (; s[n]; n++) for (const char *q = r; *q; q++) if (s[n] == *q) return n;
  return n;
}
size_t model_strspn(const char *s, const char *r) {
  size_t n = 0;
  for (; s[n]; n++) { const char *q = r; while (*q && *q != s[n]) q++; if (!*q) return n; }
  return n;
}
void *model_memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
DIR *model_opendir(const char *p) {
  int i = find(p);
  if (i < 0) { errno = ENOENT; return 0; }
  if (!files[i].dir) { errno = ENOTDIR; return 0; }
  for (int k = 0; k < 8; k++) if (!dirs[k].used) { dirs[k].used = 1; dirs[k].file = i; dirs[k].at = 0; return (DIR *)&dirs[k]; }
  errno = EMFILE;
  return 0;
}
struct dirent64 *model_readdir64(DIR *d) {
  int k = (int)(((char *)d - (char *)dirs) / (long)sizeof dirs[0]);
  const char *base = files[dirs[k].file].name;
  long bl = len(base);
  while (dirs[k].at < nfiles) {
    File *f = &files[dirs[k].at++];
    if (!f->exists) continue;
    long i = 0;
    while (i < bl && f->name[i] == base[i]) i++;
    if (i < bl || f->name[i] != '/') continue;
    i++;
    long j = i;
    while (f->name[j] && f->name[j] != '/') j++;
    if (f->name[j] || j == i) continue;
    struct dirent64 *e = &dirs[k].e;
    e->d_ino = f->ino; e->d_off = dirs[k].at; e->d_reclen = sizeof *e; e->d_type = f->dir ? DT_DIR : DT_REG;
    long q = 0;
    for (; f->name[i + q]; q++) e->d_name[q] = f->name[i + q];
    e->d_name[q] = 0;
    return e;
  }
  return 0;
}
int model_closedir(DIR *d) { int k = (int)(((char *)d - (char *)dirs) / (long)sizeof dirs[0]); dirs[k].used = 0; return 0; }
int model_dirfd(DIR *d) { (void)d; return 63; }
int model_pthread_create(void *a, void *b, void *c, void *d) { (void)a; (void)b; (void)c; (void)d; return EAGAIN; }
int model_pthread_join(void *a, void *b) { (void)a; (void)b; return EINVAL; }
int model_statx(int d, const char *p, int f, unsigned m, void *b) { (void)d; (void)p; (void)f; (void)m; (void)b; return err(ENOSYS); }
