/*
 * Link-time fault injection. FI=name:k makes the k-th call of that function fail, FI=name:k+ that one and all later ones; FI_LOG receives the number of calls of
 * every wrapped function. RAND_bytes can be scripted: FI_RAND=HEX/HEX/... gives the bytes of successive calls (missing
 * bytes are zero), and every random output is logged.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
enum { F_fopen, F_fread, F_fwrite, F_fclose, F_fflush, F_fputs, F_fgets, F_mkdir, F_opendir, F_readdir, F_stat, F_lstat, F_RAND_bytes, F_remove, F_rmdir, F_mkdtemp, F_chmod, F_unlink, F_zip_open, F_zip_entry_open, F_zip_entry_fwrite, F_zip_entry_close, F_N };
static const char *names[F_N] = { "fopen", "fread", "fwrite", "fclose", "fflush", "fputs", "fgets", "mkdir", "opendir", "readdir", "stat", "lstat", "RAND_bytes", "remove", "rmdir", "mkdtemp", "chmod", "unlink", "zip_open", "zip_entry_open", "zip_entry_fwrite", "zip_entry_close" };
static long count[F_N]; static int hit; static FILE *failed_stream;
static void logit(const char *s) { char *l = getenv("FI_LOG"), *n = getenv("FI_LOGFD"); int fd; if (n) { if (write(atoi(n), s, strlen(s)) < 0) _exit(96); } else if (l && (fd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600)) >= 0) { if (write(fd, s, strlen(s)) < 0) _exit(96); close(fd); } }
/* FI_STOP=n stops the process (SIGSTOP) before its n-th call that opens, creates, changes or removes something, FI_KILL=n kills it there */
static long steps;
static void step(int f)
{
    static long stop = -1, kil; char *s;
    if (stop < 0) { s = getenv("FI_STOP"); stop = s ? atol(s) : 0; s = getenv("FI_KILL"); kil = s ? atol(s) : 0; }
    if (f == F_fread || f == F_fwrite || f == F_readdir || f == F_RAND_bytes || f == F_fputs || f == F_fgets || f == F_fflush) return;
    steps++;
    if (steps == stop) raise(SIGSTOP);
    if (steps == kil) raise(SIGKILL);
}
static int fail(int f)
{
    static int parsed, want = -1, on; static long k;
    count[f]++; step(f);
    if (!parsed) {
        char *s = getenv("FI"); parsed = 1;
        if (s) { int i; for (i = 0; i < F_N; i++) { size_t n = strlen(names[i]); if (!strncmp(s, names[i], n) && s[n] == ':') { want = i; k = atol(s + n + 1); on = s[strlen(s) - 1] == '+'; } } }
    }
    if (want == f && (count[f] == k || (on && count[f] > k))) { hit = 1; logit("hit\n"); errno = f == F_fopen || f == F_opendir ? EACCES : f == F_mkdir ? ENOSPC : EIO; return 1; }
    return 0;
}
void fi_mark(void) { char b[2048] = ""; int i; for (i = 0; i < F_N; i++) sprintf(b + strlen(b), "mark %s %ld\n", names[i], count[i]); logit(b); }
static __attribute__((destructor)) void fin(void) { char b[2048] = ""; int i; for (i = 0; i < F_N; i++) sprintf(b + strlen(b), "count %s %ld\n", names[i], count[i]); sprintf(b + strlen(b), "steps %ld\n", steps); logit(b); }
FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fclose(FILE *); int __real_fflush(FILE *);
int __real_fputs(const char *, FILE *); char *__real_fgets(char *, int, FILE *); int __real_mkdir(const char *, mode_t); DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *);
int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_RAND_bytes(unsigned char *, int); int __real_remove(const char *); int __real_rmdir(const char *); int __real_ferror(FILE *);
#ifdef FI_PACK
/* containment: anything that changes the file system outside PT_ROOT and outside directories made by mkdtemp is refused and recorded */
#include <limits.h>
static char made[16][PATH_MAX]; static int nmade;
static int within(const char *p, const char *root) { size_t n = strlen(root); return n && !strncmp(p, root, n) && (p[n] == 0 || p[n] == '/' || root[n - 1] == '/'); }
static int allowed(const char *op, const char *path)
{
    char dir[PATH_MAX * 2], full[PATH_MAX], b[PATH_MAX * 3]; const char *s, *root = getenv("PT_ROOT"); int i, e = errno; size_t n = strlen(path);
    if (!root || !*root) return 1;
    while (n > 1 && path[n - 1] == '/') n--;
    for (s = path + n; s > path && s[-1] != '/'; s--);
    if (s == path) strcpy(dir, "."); else snprintf(dir, sizeof dir, "%.*s", (int) (s - path), path);
    if (!realpath(dir, full)) { errno = e; return 1; }                 /* the call itself will fail */
    snprintf(dir, sizeof dir, "%s/%.*s", full, (int) (path + n - s), s); errno = e;
    if (strcmp(s, "..") && within(dir, root)) return 1;
    for (i = 0; i < nmade; i++) if (strcmp(s, "..") && within(dir, made[i])) return 1;
    snprintf(b, sizeof b, "escape %s %s\n", op, path); logit(b); errno = EPERM; return 0;
}
/* a new file or directory of its own in /tmp is as good as one made by mkdtemp */
static int own(const char *p) { return !strncmp(p, "/tmp/", 5) && p[5] && !strchr(p + 5, '/') && strcmp(p + 5, "..") && strcmp(p + 5, ".") && nmade < 16; }
static void mine(const char *p)
{
    char b[PATH_MAX * 2]; int i;
    if (!realpath(p, made[nmade])) strcpy(made[nmade], p);
    for (i = 0; i < nmade; i++) if (!strcmp(made[i], made[nmade])) return;
    snprintf(b, sizeof b, "tmp %s\n", made[nmade++]); logit(b);
}
static FILE *fresh(const char *p, const char *m)
{
    int d = open(p, O_CREAT | O_EXCL | O_WRONLY, 0666);
    if (d < 0) return allowed("fopen", p) ? __real_fopen(p, m) : NULL;
    close(d); mine(p); return __real_fopen(p, m);
}
#else
#define allowed(op, path) 1
#define own(p) 0
#define fresh(p, m) NULL
#endif
static int std(FILE *f) { return f == stdout || f == stderr || f == stdin; }
FILE *__wrap_fopen(const char *p, const char *m) { return fail(F_fopen) ? NULL : *m != 'r' && own(p) ? fresh(p, m) : *m != 'r' && !allowed("fopen", p) ? NULL : __real_fopen(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f)
{
    if (fail(F_fread)) { failed_stream = f; return n > 1 ? __real_fread(b, s, n / 2, f) : 0; }
    return failed_stream == f ? 0 : __real_fread(b, s, n, f);
}
int __wrap_ferror(FILE *f) { return failed_stream == f ? 1 : __real_ferror(f); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    if (std(f)) return __real_fwrite(b, s, n, f);
    if (fail(F_fwrite)) { failed_stream = f; return n > 1 ? __real_fwrite(b, s, n - 1, f) : 0; }
    return __real_fwrite(b, s, n, f);
}
int __wrap_fclose(FILE *f)
{
    struct stat st; int d, wr;
    if (f == failed_stream) failed_stream = NULL;
    if (!fail(F_fclose)) return __real_fclose(f);
    /* what the stream still held is lost, as on a full disk */
    wr = (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY && !std(f); d = wr ? dup(fileno(f)) : -1;
    if (d >= 0 && fstat(d, &st)) { close(d); d = -1; }
    __real_fclose(f);
    if (d >= 0) { if (ftruncate(d, st.st_size)) {} close(d); }
    errno = ENOSPC; return EOF;
}
int __wrap_fflush(FILE *f) { if (!f || std(f)) return __real_fflush(f); if (fail(F_fflush)) { errno = ENOSPC; failed_stream = f; return EOF; } return __real_fflush(f); }
int __wrap_fputs(const char *s, FILE *f) { if (std(f)) return __real_fputs(s, f); if (fail(F_fputs)) { failed_stream = f; return EOF; } return __real_fputs(s, f); }
char *__wrap_fgets(char *b, int n, FILE *f) { if (fail(F_fgets)) { failed_stream = f; return NULL; } return __real_fgets(b, n, f); }
#ifdef FI_PACK
int __wrap_mkdir(const char *p, mode_t m)
{
    if (fail(F_mkdir)) return -1;
    if (!own(p)) return allowed("mkdir", p) ? __real_mkdir(p, m) : -1;
    if (__real_mkdir(p, m)) return -1;
    mine(p); return 0;
}
#else
int __wrap_mkdir(const char *p, mode_t m) { return fail(F_mkdir) ? -1 : __real_mkdir(p, m); }
#endif
#ifdef FI_PACK
int fi_zip(int what) { return fail(F_zip_open + what); }
char *__real_mkdtemp(char *); int __real_chmod(const char *, mode_t); int __real_unlink(const char *); int __real_closedir(DIR *); int __real_rename(const char *, const char *);
char *__wrap_mkdtemp(char *t)
{
    char *r, b[PATH_MAX * 2];
    if (fail(F_mkdtemp)) return NULL;
    r = __real_mkdtemp(t);
    if (r && nmade < 16) { if (!realpath(r, made[nmade])) strcpy(made[nmade], r); snprintf(b, sizeof b, "tmp %s\n", made[nmade++]); logit(b); }
    return r;
}
int __wrap_chmod(const char *p, mode_t m) { return fail(F_chmod) || !allowed("chmod", p) ? -1 : __real_chmod(p, m); }
int __wrap_unlink(const char *p) { return fail(F_unlink) || !allowed("unlink", p) ? -1 : __real_unlink(p); }
int __wrap_rename(const char *a, const char *b) { return !allowed("rename", a) || !allowed("rename", b) ? -1 : __real_rename(a, b); }
/* directory listings: PT_ORDER=n gives the n-th permutation (factorial number system) of the sorted entries, "." and ".." included;
 * PT_DTYPE=unknown hides the entry types */
struct list { DIR *d; int n, pos; struct dirent *e; }; static struct list lists[1024];
static int cmp(const void *a, const void *b) { return strcmp(((const struct dirent *) a)->d_name, ((const struct dirent *) b)->d_name); }
DIR *__wrap_opendir(const char *p) { return fail(F_opendir) ? NULL : __real_opendir(p); }
struct dirent *__wrap_readdir(DIR *d)
{
    int i; struct list *l = NULL; struct dirent *r;
    if (fail(F_readdir)) return NULL;
    for (i = 0; i < 1024; i++) if (lists[i].d == d) l = &lists[i];
    if (!l) {
        char *o = getenv("PT_ORDER"), *t = getenv("PT_DTYPE"); unsigned long n = o ? strtoul(o, NULL, 10) : 0;
        for (i = 0; i < 1024 && lists[i].d; i++);
        if (i == 1024) _exit(95);
        l = &lists[i]; l->d = d; l->n = l->pos = 0; l->e = NULL;
        errno = 0;
        while ((r = __real_readdir(d))) { l->e = realloc(l->e, (l->n + 1) * sizeof *r); memcpy(&l->e[l->n], r, r->d_reclen < sizeof *r ? r->d_reclen : sizeof *r); if (t) l->e[l->n].d_type = DT_UNKNOWN; l->n++; }
        qsort(l->e, l->n, sizeof *r, cmp);
        for (i = 0; i < l->n; i++) { int k = l->n - i, j = i + (int) (n % k); struct dirent x = l->e[j]; n /= k; memmove(&l->e[i + 1], &l->e[i], (j - i) * sizeof x); l->e[i] = x; }
        if (o && *o == 'r') for (i = 0; i < l->n / 2; i++) { struct dirent x = l->e[i]; l->e[i] = l->e[l->n - 1 - i]; l->e[l->n - 1 - i] = x; }
    }
    return l->pos < l->n ? &l->e[l->pos++] : NULL;
}
int __wrap_closedir(DIR *d) { int i; for (i = 0; i < 1024; i++) if (lists[i].d == d) { free(lists[i].e); lists[i].d = NULL; } return __real_closedir(d); }
#else
DIR *__wrap_opendir(const char *p) { return fail(F_opendir) ? NULL : __real_opendir(p); }
struct dirent *__wrap_readdir(DIR *d) { return fail(F_readdir) ? NULL : __real_readdir(d); }
#endif
int __wrap_stat(const char *p, struct stat *s) { return fail(F_stat) ? -1 : __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return fail(F_lstat) ? -1 : __real_lstat(p, s); }
int __wrap_remove(const char *p) { return fail(F_remove) || !allowed("remove", p) ? -1 : __real_remove(p); }
int __wrap_rmdir(const char *p) { return fail(F_rmdir) || !allowed("rmdir", p) ? -1 : __real_rmdir(p); }
int __wrap_RAND_bytes(unsigned char *b, int n)
{
    static const char *script; static int init; char *l; int i, r = 1;
    if (!init) { init = 1; script = getenv("FI_RAND"); }
    if (fail(F_RAND_bytes)) return getenv("FI_RANDRC") ? atoi(getenv("FI_RANDRC")) : count[F_RAND_bytes] % 2 ? 0 : -1;
    if (script) {
        for (i = 0; i < n; i++) { unsigned v = 0; if (*script && *script != '/') { sscanf(script, "%2x", &v); script += 2; } b[i] = (unsigned char) v; }
        while (*script && *script != '/') script++;
        if (*script == '/') script++;
    } else r = __real_RAND_bytes(b, n);
    l = malloc(2 * n + 16); strcpy(l, "rand "); for (i = 0; i < n; i++) sprintf(l + 5 + 2 * i, "%02x", b[i]); strcat(l, "\n"); logit(l); free(l);
    return r;
}
int __wrap_RAND_priv_bytes(unsigned char *b, int n) { return __wrap_RAND_bytes(b, n); }
