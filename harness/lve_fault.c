/*
 * Faults and concurrent changes for the session explorer (lve_explore.c). While a request with a fault is processed, the
 * k-th call of a library function made by the executable's own code either fails or is preceded by a change of the
 * library made by "somebody else" (undone when the request has been answered).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
enum { F_fopen, F_fread, F_fclose, F_stat, F_malloc, F_calloc, F_realloc, F_open, F_read, F_fstat, F_lstat, F_fseek, F_ftell, F_N };
static int armed, hold, fn, act; static long want, cnt, hitn; static FILE *bad;
static struct { char type, *a, *b; } acts[64]; static int nacts;
static char *saved; static size_t savedlen;

void fault_action(const char *line)          /* x A B exchange, m A B move, w A B write the content of B into A */
{
    char t, a[4096], b[4096];
    if (sscanf(line, "%c %4095s %4095s", &t, a, b) != 3 || nacts >= 64) { dprintf(2, "HARNESS: action\n"); _exit(97); }
    acts[nacts].type = t; acts[nacts].a = strdup(a); acts[nacts++].b = strdup(b);
}
static char *slurp(const char *p, size_t *n)
{
    int fd = open(p, O_RDONLY); struct stat s; char *b; ssize_t k;
    if (fd < 0 || fstat(fd, &s)) { dprintf(2, "HARNESS: %s\n", p); _exit(97); }
    b = malloc(s.st_size + 1); k = read(fd, b, s.st_size); if (k < 0) _exit(97);
    *n = k; close(fd); return b;
}
static void spit(const char *p, const char *d, size_t n) { int fd = open(p, O_WRONLY | O_TRUNC); if (fd < 0 || write(fd, d, n) != (ssize_t) n) { dprintf(2, "HARNESS: %s\n", p); _exit(97); } close(fd); }
static void perform(int i, int undo)
{
    int e = errno, r = 0; int h = hold; hold = 1;
    switch (acts[i].type) {
    case 'x': r = renameat2(AT_FDCWD, acts[i].a, AT_FDCWD, acts[i].b, 2 /* exchange */); break;
    case 'm': r = undo ? rename(acts[i].b, acts[i].a) : rename(acts[i].a, acts[i].b); break;
    case 'w': if (undo) { spit(acts[i].a, saved, savedlen); free(saved); }
              else { size_t n; char *d = slurp(acts[i].b, &n); saved = slurp(acts[i].a, &savedlen); spit(acts[i].a, d, n); free(d); } break;
    }
    if (r) { dprintf(2, "HARNESS: action %d: %s\n", i, strerror(errno)); _exit(97); }
    hold = h; errno = e;
}
void fault_hold(int h) { hold = h; }
void fault_arm(long spec) { fn = spec / 1000000; want = spec / 100 % 10000; act = spec % 100; cnt = hitn = 0; armed = 1; bad = NULL; hold = 0; }
int fault_done(void) { int r = hitn > 0; if (armed && r && act) perform(act - 1, 1); armed = 0; hitn = 0; bad = NULL; return r; }
static int fail(int f)
{
    if (!armed || hold || f != fn || ++cnt != want) return 0;
    hitn = 1;
    if (act) { perform(act - 1, 0); return 0; }
    errno = f == F_malloc || f == F_calloc || f == F_realloc ? ENOMEM : f == F_fopen || f == F_open ? EMFILE : EIO;
    return 1;
}
static int own(FILE *f) { return f != stdin && f != stdout && f != stderr; }
FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fclose(FILE *); int __real_ferror(FILE *);
int __real_stat(const char *, struct stat *); int __real_fstat(int, struct stat *); int __real_lstat(const char *, struct stat *); void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { return fail(F_fopen) ? NULL : __real_fopen(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f)
{
    if (!own(f)) return __real_fread(b, s, n, f);
    if (fail(F_fread)) { bad = f; return n > 1 ? __real_fread(b, s, n / 2, f) : 0; }
    return f == bad ? 0 : __real_fread(b, s, n, f);
}
int __wrap_ferror(FILE *f) { return f == bad ? 1 : __real_ferror(f); }
int __wrap_fclose(FILE *f) { if (f == bad) bad = NULL; if (own(f) && fail(F_fclose)) { __real_fclose(f); errno = EIO; return EOF; } return __real_fclose(f); }
int __wrap_stat(const char *p, struct stat *s) { return fail(F_stat) ? -1 : __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return fail(F_lstat) ? -1 : __real_lstat(p, s); }
int __wrap_fstat(int d, struct stat *s) { return fail(F_fstat) ? -1 : __real_fstat(d, s); }
static int big(size_t n) { static long min = -1; if (min < 0) { char *e = getenv("FAULT_MIN"); min = e ? atol(e) : 0; } return (long) n >= min; }     /* only large allocations fail */
void *__wrap_malloc(size_t n) { return big(n) && fail(F_malloc) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return big(a * b) && fail(F_calloc) ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return big(n) && fail(F_realloc) ? NULL : __real_realloc(p, n); }
int __wrap_open(const char *p, int fl, ...) { va_list a; int m; va_start(a, fl); m = va_arg(a, int); va_end(a); return fail(F_open) ? -1 : __real_open(p, fl, m); }
ssize_t __wrap_read(int d, void *b, size_t n) { return fail(F_read) ? -1 : __real_read(d, b, n); }
int __wrap_fseek(FILE *f, long o, int w) { return own(f) && fail(F_fseek) ? -1 : __real_fseek(f, o, w); }
long __wrap_ftell(FILE *f) { return own(f) && fail(F_ftell) ? -1 : __real_ftell(f); }
