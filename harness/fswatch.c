/* Link-time recorder of calls that create, change or remove files, or start programs. FSWATCH names the record file. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
static void note(const char *op, const char *p)
{
    char b[9000], *l = getenv("FSWATCH"); int fd; 
    if (!l) return;
    fd = (int) syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
    snprintf(b, sizeof b, "%s %s\n", op, p ? p : "");
    if (fd >= 0) { if (write(fd, b, strlen(b)) < 0) _exit(96); close(fd); }
}
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); FILE *__real_freopen(const char *, const char *, FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { if (strpbrk(m, "wa+")) note("fopen", p); return __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { if (strpbrk(m, "wa+")) note("fopen", p); return __real_fopen64(p, m); }
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { if (strpbrk(m, "wa+")) note("freopen", p); return __real_freopen(p, m, f); }
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_creat(const char *, mode_t);
#define MODE va_list ap; mode_t m; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); if ((f & O_ACCMODE) != O_RDONLY || f & (O_CREAT | O_TRUNC)) note("open", p)
int __wrap_open(const char *p, int f, ...) { MODE; return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { MODE; return __real_open64(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { MODE; return __real_openat(d, p, f, m); }
int __wrap_creat(const char *p, mode_t m) { note("creat", p); return __real_creat(p, m); }
#define ONE(ret, name, args, call, p) ret __real_##name args; ret __wrap_##name args { note(#name, p); return __real_##name call; }
ONE(int, mkdir, (const char *a, mode_t m), (a, m), a)
ONE(int, rmdir, (const char *a), (a), a)
ONE(int, unlink, (const char *a), (a), a)
ONE(int, remove, (const char *a), (a), a)
ONE(int, rename, (const char *a, const char *b), (a, b), b)
ONE(int, link, (const char *a, const char *b), (a, b), b)
ONE(int, symlink, (const char *a, const char *b), (a, b), b)
ONE(int, truncate, (const char *a, off_t n), (a, n), a)
ONE(int, chmod, (const char *a, mode_t m), (a, m), a)
ONE(int, mkstemp, (char *a), (a), a)
ONE(char *, mkdtemp, (char *a), (a), a)
ONE(FILE *, tmpfile, (void), (), "tmpfile")
ONE(int, system, (const char *a), (a), a)
ONE(FILE *, popen, (const char *a, const char *m), (a, m), a)
