/* A licence manager for the real executable: appends what is asked of it to $LM_LOG, refuses features that start with "deny". */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "mlle_error.h"
#include "mlle_license_manager.h"
struct mlle_license { char *path; };
static void note(const char *what, const char *arg, size_t n)
{
    char *f = getenv("LM_LOG"), *b = malloc(n + 128); int fd, k;
    if (f && (fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600)) >= 0) {
        k = sprintf(b, "%d %s %.*s\n", (int) getpid(), what, (int) n, arg); if (write(fd, b, k) < 0) _exit(96);
        close(fd);
    }
    free(b);
}
struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error)
{
    struct mlle_license *m = malloc(sizeof *m); m->path = strdup(libpath); note("new", libpath, strlen(libpath)); return m;
}
void mlle_license_free(struct mlle_license *m) { if (m) { note("free", m->path, strlen(m->path)); free(m->path); free(m); } }
static int ask(const char *what, size_t n, const char *f, struct mlle_error **error)
{
    note(what, f, n);
    if (n >= 4 && !strncmp(f, "deny", 4)) { mlle_error_set(error, LICENSE_DOMAIN, LICENSE_ERROR_CHECKOUT_FAILURE, "no licence for %.*s", (int) n, f); return 0; }
    return 1;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return ask("co", n, f, e); }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { return ask("ci", n, f, e); }
