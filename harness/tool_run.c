/*
 * Drives the tool-side API through its public header. One forked process per case.
 * usage: tool_run CASES OUT      lines of a case, started by "case ID", ended by "." :
 *   env NAME VALUE | cap N (longest pipe read) | noerr (pass a null error) | start PATH | stop
 *   version MIN MAX | libpath HEX | feature HEX | returnfeature HEX | license HEX | returnlicense HEX
 *   fail FN K: the Kth call of FN (pipe, fork, access) from now on fails, and all later ones if K is negative | fail - 0: no more
 *   slot K: the session the following calls use | fopen K HEX, fsize K, fread K N, ffree K: files kept open side by side
 *   live N: wait until N executables run | orphans: after the case, wait until none is left
 *   file HEX SIZES...   (sizes of the successive reads; the last one repeats until the end was signalled three times)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <openssl/evp.h>
#include "mlle_error.h"
#include "mlle_licensing.h"

size_t __sanitizer_get_current_allocated_bytes(void);
/* calls with which an executable is started can be made to fail */
static char ffn[20]; static int fk, fpersist;
static int failing(const char *n) { if (strcmp(ffn, n)) return 0; fk--; return fpersist ? fk <= 0 : fk == 0; }
int __real_pipe(int *p), __real_pipe2(int *p, int f), __real_fcntl(int fd, int c, ...); pid_t __real_fork(void), __real_vfork(void); int __real_access(const char *p, int m);
int __wrap_pipe(int *p) { if (failing("pipe")) { errno = EMFILE; return -1; } return __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { if (failing("pipe")) { errno = EMFILE; return -1; } return __real_pipe2(p, f); }
pid_t __wrap_fork(void) { if (failing("fork")) { errno = EAGAIN; return -1; } return __real_fork(); }
pid_t __wrap_vfork(void) { if (failing("fork")) { errno = EAGAIN; return -1; } return __real_fork(); }
int __wrap_access(const char *p, int m) { if (failing("access")) { errno = EIO; return -1; } return __real_access(p, m); }
static int outfd, noerr; static long cap;
/* pipe reads of the code under test can be made short */
ssize_t read(int fd, void *b, size_t n)
{
    if (cap > 0 && fd > 2 && n > (size_t) cap) n = cap;
    return syscall(SYS_read, fd, b, n);
}
static void out(const char *f, ...) { va_list a; va_start(a, f); vdprintf(outfd, f, a); va_end(a); }
static void outhex(const char *w, const void *d, size_t n)
{
    char *b = malloc(2 * n + 64); size_t i, k = sprintf(b, "%s ", w);
    for (i = 0; i < n; i++) k += sprintf(b + k, "%02x", ((const unsigned char *) d)[i]);
    b[k++] = '\n'; if (write(outfd, b, k) < 0) _exit(96); free(b);
}
static char *unhex(const char *h)
{
    size_t l = strspn(h, "0123456789abcdef") / 2, i; char *b = malloc(l + 1);
    for (i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); b[i] = (char) v; }
    b[l] = 0; return b;
}
static void __attribute__((noinline)) dirty(void) { volatile unsigned char b[131072]; size_t i; for (i = 0; i < sizeof b; i++) b[i] = 0xab; }
static void report(const char *what, int ok, struct mlle_error *e)
{
    out("res %s %d %d\n", what, ok, e != NULL);
    if (e) { char *m = mlle_error_get_message(e); if (m) outhex("msg", m, strlen(m)); else out("nomsg\n"); out("code %d %d\n", mlle_error_get_domain(e), mlle_error_get_code(e)); }
}
/* running (not ended) children of a process */
static int children(pid_t of)
{
    DIR *d = opendir("/proc"); struct dirent *e; int n = 0;
    while (d && (e = readdir(d))) {
        char a[300], b[512], *q; int fd, pp; char st; ssize_t r;
        if (*e->d_name < '0' || *e->d_name > '9') continue;
        snprintf(a, sizeof a, "/proc/%s/stat", e->d_name); fd = open(a, O_RDONLY); if (fd < 0) continue;
        r = syscall(SYS_read, fd, b, sizeof b - 1); close(fd); if (r <= 0) continue; b[r] = 0;
        q = strrchr(b, ')'); if (q && sscanf(q + 1, " %c %d", &st, &pp) == 2 && pp == of && st != 'Z' && st != 'X') n++;
    }
    if (d) closedir(d);
    return n;
}
static int wait_children(pid_t of, int n) { int i, k; for (i = 0; (k = children(of)) != n && i < 500; i++) usleep(i < 20 ? 1000 : 10000); return k; }
static struct mlle_file_contents *fh[128];
static void run(char *p, char *end)
{
    struct mlle_connections *conn[64] = { NULL }; int slot = 0;
#define c conn[slot]
    while (p < end) {
        char *line = p, *sp; struct mlle_error *e = NULL, **ep; int ok = 0;
        p = memchr(p, '\n', end - p); *p++ = 0;
        sp = strchr(line, ' '); if (sp) *sp++ = 0; else sp = "";
        ep = noerr ? NULL : &e;
        dirty();
        if (!strcmp(line, "env")) { char *v = strchr(sp, ' '); *v++ = 0; setenv(sp, v, 1); }
        else if (!strcmp(line, "cap")) cap = atol(sp);
        else if (!strcmp(line, "noerr")) noerr = 1;
        else if (!strcmp(line, "slot")) slot = atoi(sp);
        else if (!strcmp(line, "start")) { c = mlle_start_executable(sp, ep); report("start", c != NULL, e); }
        else if (!strcmp(line, "fail")) { ffn[0] = 0; fk = 0; sscanf(sp, "%19s %d", ffn, &fk); fpersist = fk < 0; if (fk < 0) fk = -fk; }
        else if (!strcmp(line, "stop")) { mlle_connections_free(&c); out("res stop %d 0\n", c == NULL); }
        else if (!strcmp(line, "live")) { int n = atoi(sp), k = wait_children(getpid(), n); out("res live %d %d\n", k == n, k); }
        else if (!strcmp(line, "orphans")) ;
        else if (!strcmp(line, "use")) { int i, n = 0; for (i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++; out("res use 1 0\nread %zu %d\n", __sanitizer_get_current_allocated_bytes(), n); }
        else if (!strcmp(line, "fsize")) { out("res fsize 1 0\nsize %zu\n", mlle_tool_get_file_size(fh[atoi(sp)])); }
        else if (!strcmp(line, "ffree")) { mlle_file_contents_free(&fh[atoi(sp)]); out("res ffree %d 0\n", fh[atoi(sp)] == NULL); }
        else if (!strcmp(line, "fread")) {
            int k; long n; char *b; size_t r; sscanf(sp, "%d %ld", &k, &n); b = malloc(n + 1); memset(b, 0xcd, n + 1);
            r = mlle_tool_read_bytes(fh[k], b, n); out("res fread %d 0\n", r != (size_t) -1);
            if (r != (size_t) -1) outhex("msg", b, r > (size_t) n ? n : r);
            free(b);
        }
        else if (!c) { out("res none 0 1\n"); }   /* no connection to make a call on */
        else if (!strcmp(line, "version")) { int lo, hi; sscanf(sp, "%d %d", &lo, &hi); ok = mlle_tool_version(c, lo, hi, ep); report(line, ok, e); }
        else if (!strcmp(line, "fopen")) { char *h = strchr(sp, ' '), *path = unhex(h + 1); int k = atoi(sp); fh[k] = mlle_tool_file(c, path, ep); free(path); report(line, fh[k] != NULL, e); }
        else if (!strcmp(line, "file")) {
            char *a = strchr(sp, ' '), *path = unhex(sp); struct mlle_file_contents *f = mlle_tool_file(c, path, ep);
            free(path); report(line, f != NULL, e);
            if (f) {
                EVP_MD_CTX *md = EVP_MD_CTX_new(); unsigned char dg[32]; unsigned dl; long sz = 4096, ends = 0, total = 0, n = 0, bad = 0;
                size_t fs = mlle_tool_get_file_size(f);
                EVP_DigestInit_ex(md, EVP_sha256(), NULL);
                out("size %zu\n", fs);
                while (ends < 3 && n++ < 200000) {
                    char *b; size_t r;
                    if (a && *a) sz = strtol(a, &a, 10);
                    if (!(a && *a) && sz == 0) sz = 1;
                    b = malloc(sz ? sz : 1); memset(b, 0xcd, sz ? sz : 1);
                    r = mlle_tool_read_bytes(f, b, sz);
                    if (r == (size_t) -1) { ends++; if (total != (long) fs) bad = 1; }
                    else if (ends) bad = 2;
                    else if (r > (size_t) sz) { bad = 3; free(b); break; }
                    else { size_t left = fs - total; if (r != ((size_t) sz < left ? (size_t) sz : left)) bad = 4; EVP_DigestUpdate(md, b, r); total += r; }
                    free(b);
                    if (mlle_tool_get_file_size(f) != fs) bad = 5;
                }
                EVP_DigestFinal_ex(md, dg, &dl); EVP_MD_CTX_free(md);
                out("read %ld %ld %ld\n", total, ends, bad); outhex("sha", dg, 32);
                mlle_file_contents_free(&f); if (f) out("notfreed\n");
            }
        } else {
            char *s = unhex(sp);
            ok = !strcmp(line, "libpath") ? mlle_tool_libpath(c, s, ep) : !strcmp(line, "feature") ? mlle_tool_feature(c, s, ep) :
                 !strcmp(line, "returnfeature") ? mlle_tool_returnfeature(c, s, ep) : !strcmp(line, "license") ? mlle_tool_license(c, s, ep) :
                 !strcmp(line, "returnlicense") ? mlle_tool_returnlicense(c, s, ep) : -1;
            free(s); report(line, ok, e);
        }
        mlle_error_free(&e);
    }
}
int main(int argc, char **argv)
{
    FILE *f; char *all, *p; long n; int hangs = 0;
    if (argc != 3 || !(f = fopen(argv[1], "r"))) return 97;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f); all = malloc(n + 1); if (fread(all, 1, n, f) != (size_t) n) return 97; all[n] = 0; fclose(f);
    outfd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600); if (outfd < 0) return 97;
    for (p = all; *p; ) {
        char *end = strstr(p, "\n.\n"), *nl = strchr(p, '\n'); int st; pid_t pid;
        int orphans = memmem(nl, end - nl + 1, "\norphans\n", 9) != NULL;
        *nl = 0; out("%s\n", p);
        if (orphans) prctl(PR_SET_CHILD_SUBREAPER, 1);
        if ((pid = fork()) == 0) { alarm(20); run(nl + 1, end + 1); out("done\n"); _exit(0); }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        if (orphans) { int n = wait_children(getpid(), 0); out("orphans %d\n", n); while (waitpid(-1, NULL, WNOHANG) > 0) ; if (n) { hangs++; } }
        out("status %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs >= 2) break;   /* enough to report; do not spend the day */
        p = end + 3;
    }
    return 0;
}
