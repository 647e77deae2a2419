/* Stand-in for the zip library: the archive is a sequence of "E <name length> <size> <mode>\\n<name><data>" ending in "END\\n".
 * System calls are used directly so that file-system faults are not injected here; the zip calls themselves can be made to fail. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "zip.h"
int fi_zip(int);
struct zip_t { int fd, open; char *name; unsigned char *data; size_t n; unsigned mode; };
static int put(int fd, const void *b, size_t n) { const char *p = b; while (n) { ssize_t r = write(fd, p, n); if (r <= 0) return -1; p += r; n -= r; } return 0; }
const char *zip_strerror(int e) { return "stand-in error"; }
struct zip_t *zip_openwitherror(const char *name, int level, char mode, int *err)
{
    struct zip_t *z; int fd;
    if (err) *err = -1;
    if (fi_zip(0) || !name || !*name) return NULL;
    fd = open(name, O_WRONLY | O_CREAT | (mode == 'a' ? O_APPEND : O_TRUNC), 0644);
    if (fd < 0) return NULL;
    z = calloc(1, sizeof *z); z->fd = fd; if (err) *err = 0;
    return z;
}
struct zip_t *zip_open(const char *name, int level, char mode) { int e; return zip_openwitherror(name, level, mode, &e); }
int zip_entry_open(struct zip_t *z, const char *name)
{
    if (!z) return -1;
    if (fi_zip(1)) return -8;
    if (!name || !*name || z->open) return -2;
    z->open = 1; z->name = strdup(name); z->n = 0; z->mode = 0; return 0;
}
int zip_entry_opencasesensitive(struct zip_t *z, const char *name) { return zip_entry_open(z, name); }
int zip_entry_write(struct zip_t *z, const void *b, size_t n) { if (!z || !z->open) return -1; z->data = realloc(z->data, z->n + n + 1); memcpy(z->data + z->n, b, n); z->n += n; return 0; }
int zip_entry_fwrite(struct zip_t *z, const char *file)
{
    char b[4096]; ssize_t r; int fd; struct stat st;
    if (!z || !z->open) return -1;
    if (fi_zip(2)) return -10;
    if ((fd = open(file, O_RDONLY)) < 0) return -10;
    if (fstat(fd, &st) == 0) z->mode = st.st_mode & 0777;
    while ((r = read(fd, b, sizeof b)) > 0) zip_entry_write(z, b, r);
    close(fd);
    return r < 0 ? -10 : 0;
}
int zip_entry_close(struct zip_t *z)
{
    char h[64]; int r;
    if (!z || !z->open) return -1;
    z->open = 0;
    if (fi_zip(3)) return -11;
    sprintf(h, "E %zu %zu %o\n", strlen(z->name), z->n, z->mode);
    r = put(z->fd, h, strlen(h)) || put(z->fd, z->name, strlen(z->name)) || put(z->fd, z->data, z->n) ? -11 : 0;
    free(z->name); return r;
}
void fi_mark(void) __attribute__((weak));
void zip_close(struct zip_t *z) { if (fi_mark) fi_mark(); if (!z) return; put(z->fd, "END\n", 4); close(z->fd); free(z->data); free(z); }
