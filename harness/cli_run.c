/*
 * Runs the real LVE command line (main renamed to lve_main) once per case, each in a forked child with a scripted
 * licence manager, empty standard input and discarded output; reports exit status and licence calls of every case.
 *
 * usage: cli_run CASES OUTPUT     a case: "c NEW ANS HEXARG|HEXARG|..." ; output per case: "r STATUS\n" events ".\n"
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mlle_error.h"
#include "mlle_license_manager.h"
int lve_main(int argc, char **argv);
static int evfd = -1, new_ans, ans;
struct mlle_license { int tag; };
static char *refusal(int k)
{
    char *b = malloc(6000);
    if (k == 2) b[0] = 0; else if (k == 3) strcpy(b, "100%s %n percent\n"); else if (k == 6) { memset(b, 'e', 5000); b[5000] = 0; } else strcpy(b, "scripted refusal");
    return b;
}
struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error)
{
    struct mlle_license *m; char *b;
    dprintf(evfd, "new %s\n", libpath);
    if (new_ans != 1) { b = refusal(new_ans); *error = mlle_error_new_literal(LICENSE_DOMAIN, LICENSE_ERROR_INITIALIZATION_FAILURE, b); free(b); return NULL; }
    m = malloc(sizeof *m); m->tag = 0x1234; return m;
}
void mlle_license_free(struct mlle_license *m) { if (m) { if (m->tag != 0x1234) abort(); m->tag = 0; free(m); } }
static int lic(const char *w, struct mlle_license *m, size_t n, const char *f, struct mlle_error **error)
{
    size_t i; char *b = malloc(2 * n + 8);
    if (!m || m->tag != 0x1234) abort();
    for (i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", (unsigned char) f[i]);
    b[2 * n] = 0; dprintf(evfd, "%s %zu %s%s\n", w, n, b, f[n] ? " unterminated" : ""); free(b);
    if (ans == 1) return 1;
    b = refusal(ans); *error = mlle_error_new_literal(LICENSE_DOMAIN, LICENSE_ERROR_CHECKOUT_FAILURE, b); free(b);
    return 0;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return lic("co", m, n, f, e); }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return lic("ci", m, n, f, e); }
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r"); int hangs = 0; char *line = NULL, *all; size_t cap = 64 << 20;
    evfd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (argc != 3 || !f || evfd < 0) return 97;
    all = malloc(cap); cap = fread(all, 1, cap - 1, f); all[cap] = 0; fclose(f);   /* no open input stream a child's exit() could rewind */
    for (line = strtok(all, "\n"); line; line = strtok(NULL, "\n")) {
        char *av[64], *p; int n = 0, off = 0, st; pid_t pid;
        if (sscanf(line, "c %d %d %n", &new_ans, &ans, &off) != 2) return 97;
        fflush(NULL);
        if ((pid = fork()) == 0) {
            int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1); 
            av[n++] = "lve";
            for (p = line + off; *p; ) {
                size_t l = strcspn(p, "|"), i; char *a = malloc(l / 2 + 1);
                for (i = 0; i < l / 2; i++) { unsigned v; sscanf(p + 2 * i, "%2x", &v); a[i] = (char) v; }
                a[l / 2] = 0; av[n++] = a; p += l; if (*p == '|') p++;
            }
            av[n] = NULL;
            alarm(20);
            { int rc = lve_main(n, av); fflush(stdout); fflush(stderr); _exit(rc); }
        }
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs >= 2) { dprintf(evfd, "r %d\n", 256 + SIGALRM); break; }
        dprintf(evfd, "r %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st));
    }
    return 0;
}
