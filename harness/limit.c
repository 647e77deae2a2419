/* limit BYTES COMMAND...: runs the command with a file size limit, as if the disk were full after so many bytes per file;
 * limit -1 COMMAND... without one. With LIMIT_UID=n in the environment, as that user and group. */
#define _GNU_SOURCE
#include <grp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int argc, char **argv)
{
    struct rlimit r;
    if (argc < 3) return 97;
    r.rlim_cur = r.rlim_max = (rlim_t) atol(argv[1]);
    if (atol(argv[1]) >= 0) signal(SIGXFSZ, SIG_IGN);
    if (atol(argv[1]) >= 0 && setrlimit(RLIMIT_FSIZE, &r)) return 97;
    if (getenv("LIMIT_UID")) {
        int u = atoi(getenv("LIMIT_UID"));
        if (setgroups(0, NULL) || setresgid(u, u, u) || setresuid(u, u, u)) return 96;
        unsetenv("LIMIT_UID");
    }
    alarm(60);
    execv(argv[2], argv + 2);
    return 98;
}
