/*
 * Runs sequences of additions to one archive file with the repository's bundled archive code (ThirdParty/miniz) and reads
 * the entries back with it. Commands on stdin, results on stdout (both binary, little endian):
 *   'C' id len bytes                 a content block
 *   'J' nops fault_fn fault_k pre    a job: the archive file is removed first, or holds content block pre if pre >= 0
 *       per operation: name length, name, content id, comment length, comment, level; the fault hits the last operation
 *   answer: per operation 1/0; whether the fault was hit; per operation what the bundled reader gives for the name:
 *       0 nothing, 1 the bytes of this operation, 2 those of another one of the same name, 3 anything else;
 *       what the other functions of the bundled reader give (0, or a number that says what differs);
 *       then the length (or -1) and the bytes of the archive
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#define MINIZ_HEADER_FILE_ONLY
#include MINIZ_C

enum { F_none, F_fopen, F_freopen, F_fread, F_fwrite, F_fseek, F_ftell, F_fflush, F_fclose, F_malloc, F_calloc, F_realloc };
static int armed, fn, hit; static long k, cnt; static int persist;
static int fail(int f)
{
    if (!armed || f != fn) return 0;
    cnt++;
    if (persist ? cnt < k : cnt != k) return 0;
    hit = 1; errno = f >= F_malloc ? ENOMEM : f == F_fopen || f == F_freopen ? EMFILE : ENOSPC;
    return 1;
}
#define R(ret, name, args) ret __real_##name args; ret __wrap_##name args
R(FILE *, fopen, (const char *p, const char *m)) { return fail(F_fopen) ? NULL : __real_fopen(p, m); }
R(FILE *, fopen64, (const char *p, const char *m)) { return fail(F_fopen) ? NULL : __real_fopen64(p, m); }
R(FILE *, freopen, (const char *p, const char *m, FILE *f)) { if (fail(F_freopen)) { __real_freopen("/dev/null", "r", f); fclose(f); return NULL; } return __real_freopen(p, m, f); }
R(FILE *, freopen64, (const char *p, const char *m, FILE *f)) { if (fail(F_freopen)) { __real_freopen64("/dev/null", "r", f); fclose(f); return NULL; } return __real_freopen64(p, m, f); }
R(size_t, fread, (void *b, size_t s, size_t n, FILE *f)) { return fail(F_fread) ? __real_fread(b, 1, s * n / 2, f) / (s ? s : 1) : __real_fread(b, s, n, f); }
R(size_t, fwrite, (const void *b, size_t s, size_t n, FILE *f)) { return fail(F_fwrite) ? __real_fwrite(b, 1, s * n / 2, f) / (s ? s : 1) : __real_fwrite(b, s, n, f); }
R(int, fseeko, (FILE *f, off_t o, int w)) { return fail(F_fseek) ? -1 : __real_fseeko(f, o, w); }
R(int, fseeko64, (FILE *f, off_t o, int w)) { return fail(F_fseek) ? -1 : __real_fseeko64(f, o, w); }
R(off_t, ftello, (FILE *f)) { return fail(F_ftell) ? -1 : __real_ftello(f); }
R(off_t, ftello64, (FILE *f)) { return fail(F_ftell) ? -1 : __real_ftello64(f); }
R(int, fflush, (FILE *f)) { return f != stdout && fail(F_fflush) ? EOF : __real_fflush(f); }
R(int, fclose, (FILE *f)) { if (fail(F_fclose)) { __fpurge(f); __real_fclose(f); return EOF; } return __real_fclose(f); }
R(void *, malloc, (size_t n)) { return fail(F_malloc) ? NULL : __real_malloc(n); }
R(void *, calloc, (size_t a, size_t b)) { return fail(F_calloc) ? NULL : __real_calloc(a, b); }
R(void *, realloc, (void *p, size_t n)) { return fail(F_realloc) ? NULL : __real_realloc(p, n); }

static void get(void *b, size_t n) { if (n && __real_fread(b, 1, n, stdin) != n) { fprintf(stderr, "HARNESS: input\n"); _exit(97); } }
static int32_t num(void) { int32_t v; get(&v, 4); return v; }
static void put(const void *b, size_t n) { if (n && __real_fwrite(b, 1, n, stdout) != n) _exit(97); }
static void putn(int32_t v) { put(&v, 4); }
static struct { char *b; size_t n; } *con; static int ncon;

struct op { char *name, *cmt; int cid, cn, level, ok; };
struct sink { char *b; size_t n, cap; };
static size_t sink(void *q, mz_uint64 ofs, const void *b, size_t n) { struct sink *s = q; if (ofs != s->n || n > s->cap - s->n) return 0; memcpy(s->b + s->n, b, n); s->n += n; return n; }
static int slurp(const char *p, char **b, size_t *n)
{
    struct stat st; int fd = open(p, O_RDONLY);
    if (fd < 0 || fstat(fd, &st)) return -1;
    *n = st.st_size; *b = malloc(*n ? *n : 1);
    if (read(fd, *b, *n) != (ssize_t) *n) _exit(97);
    close(fd); return 0;
}
/* everything the bundled reader offers, on the accepted additions (the last entries of the archive); 0 or a number that says what differs */
static int deep(const char *arc, const char *tmp, struct op *o, int nops)
{
    int i, j, acc = 0, n, r = 0, src; char *whole = NULL; size_t wn = 0;
    for (i = 0; i < nops; i++) acc += o[i].ok;
    if (!acc) return 0;
    if (slurp(arc, &whole, &wn)) return 1;
    for (src = 0; src < 2 && !r; src++) {
        mz_zip_archive z; memset(&z, 0, sizeof z);
        if (!(src ? mz_zip_reader_init_mem(&z, whole, wn, 0) : mz_zip_reader_init_file(&z, arc, 0))) { r = 2; break; }
        n = mz_zip_reader_get_num_files(&z);
        if (n < acc) r = 3;
        for (i = 0, j = n - acc; i < nops && !r; i++) {
            mz_zip_archive_file_stat st; char fn[1024]; size_t L = strlen(o[i].name), len = con[o[i].cid].n, got; const char *want = con[o[i].cid].b; char *p; int k, same = 0, folded = 0, isdir;
            if (!o[i].ok) continue;
            isdir = L && o[i].name[L - 1] == '/';
            if (!mz_zip_reader_file_stat(&z, j, &st)) { r = 4; break; }
            if (st.m_uncomp_size != len || st.m_file_index != (mz_uint) j || strncmp(st.m_filename, o[i].name, sizeof st.m_filename - 1)) r = 5;
            if (L < sizeof st.m_filename && strcmp(st.m_filename, o[i].name)) r = 5;
            if (o[i].cn < (int) sizeof st.m_comment && (st.m_comment_size != (mz_uint) o[i].cn || memcmp(st.m_comment, o[i].cmt, o[i].cn))) r = 6;
            if (mz_zip_reader_get_filename(&z, j, NULL, 0) != L + 1) r = 7;
            mz_zip_reader_get_filename(&z, j, fn, sizeof fn);
            if (strncmp(fn, o[i].name, sizeof fn - 1) || (L >= sizeof fn && strlen(fn) != sizeof fn - 1)) r = 8;
            if (mz_zip_reader_is_file_a_directory(&z, j) != (mz_bool) isdir || mz_zip_reader_is_file_encrypted(&z, j)) r = 9;
            if (r) break;
            p = mz_zip_reader_extract_to_heap(&z, j, &got, 0);
            if (!p ? !isdir : got != len || memcmp(p, want, len)) r = 10;
            free(p);
            p = malloc(len + 16); memset(p, 0xA5, len + 16);
            if (len && mz_zip_reader_extract_to_mem(&z, j, p, len - 1, 0)) r = 11;
            memset(p, 0xA5, len + 16);
            if (!mz_zip_reader_extract_to_mem(&z, j, p, len, 0) || memcmp(p, want, len)) r = 12;
            for (k = 0; k < 16; k++) if ((unsigned char) p[len + k] != 0xA5) r = 13;
            free(p);
            {
                struct sink s; s.n = 0; s.cap = len + 16; s.b = malloc(s.cap);
                if (!mz_zip_reader_extract_to_callback(&z, j, sink, &s, 0) || s.n != len || memcmp(s.b, want, len)) r = 14;
                free(s.b);
            }
            if (!src) {
                char *f = NULL; size_t fl = 0;
                unlink(tmp);
                if (!mz_zip_reader_extract_to_file(&z, j, tmp, 0) || slurp(tmp, &f, &fl) || fl != len || memcmp(f, want, len)) r = 15;
                free(f); unlink(tmp);
            }
            for (k = 0; k < nops; k++) if (o[k].ok) { same += !strcmp(o[k].name, o[i].name); folded += !strcasecmp(o[k].name, o[i].name); }
            if (n == acc) {
                k = mz_zip_reader_locate_file(&z, o[i].name, NULL, MZ_ZIP_FLAG_CASE_SENSITIVE);
                if (k < 0 || (same == 1 && k != j)) r = 16;
                k = mz_zip_reader_locate_file(&z, o[i].name, NULL, 0);
                if (k < 0 || (folded == 1 && k != j)) r = 17;
                if (o[i].cn && o[i].cn < 60000) {
                    char *c = malloc(o[i].cn + 1); memcpy(c, o[i].cmt, o[i].cn); c[o[i].cn] = 0;
                    k = mz_zip_reader_locate_file(&z, o[i].name, c, 0);
                    if (strlen(c) == (size_t) o[i].cn && (k < 0 || (folded == 1 && k != j))) r = 18;
                    free(c);
                }
                p = malloc(L + 2); memcpy(p, o[i].name, L); p[L] = '~'; p[L + 1] = 0;
                for (k = 0, same = 0; k < nops; k++) same += o[k].ok && !strcasecmp(o[k].name, p);
                if (!same && L < 65000 && mz_zip_reader_locate_file(&z, p, NULL, 0) >= 0) r = 19;
                free(p);
            }
            j++;
        }
        mz_zip_reader_end(&z);
    }
    free(whole);
    return r ? r + 100 * (src - 1) : 0;
}

int main(int argc, char **argv)
{
    char tmp[4096];
    const char *arc = argv[1]; int c, i, j; (void) argc;
    snprintf(tmp, sizeof tmp, "%s.out", arc);
    while ((c = getchar()) != EOF) {
        if (c == 'C') {
            int id = num(); size_t n = num();
            if (id >= ncon) { con = realloc(con, (id + 1) * sizeof *con); memset(con + ncon, 0, (id + 1 - ncon) * sizeof *con); ncon = id + 1; }
            con[id].b = malloc(n ? n : 1); con[id].n = n; get(con[id].b, n);
        } else if (c == 'J') {
            int nops = num(), ff = num(), fk = num(), pre = num(), quiet = num(); struct op *o = calloc(nops ? nops : 1, sizeof *o);
            struct stat st; int fd; char *all; size_t al;
            alarm(40); unlink(arc);
            if (pre >= 0) { fd = open(arc, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, con[pre].b, con[pre].n) != (ssize_t) con[pre].n) _exit(97); close(fd); }
            hit = 0;
            for (i = 0; i < nops; i++) {
                int n = num(); o[i].name = malloc(n + 1); get(o[i].name, n); o[i].name[n] = 0;
                o[i].cid = num(); o[i].cn = num(); o[i].cmt = malloc(o[i].cn ? o[i].cn : 1); get(o[i].cmt, o[i].cn); o[i].level = num();
            }
            for (i = 0; i < nops; i++) {
                armed = ff && i == nops - 1; fn = ff; k = fk < 0 ? -fk : fk; persist = fk < 0; cnt = 0;
                o[i].ok = mz_zip_add_mem_to_archive_file_in_place(arc, o[i].name, con[o[i].cid].b, con[o[i].cid].n, o[i].cmt, o[i].cn, o[i].level);
                armed = 0;
                putn(o[i].ok);
            }
            putn(hit);
            for (i = 0; i < nops; i++) {
                size_t n = 0; int r = 0; char *p;
                if (quiet && i % quiet) { putn(1); continue; }
                p = mz_zip_extract_archive_file_to_heap(arc, o[i].name, &n, MZ_ZIP_FLAG_CASE_SENSITIVE);
                if (p) {
                    r = 3;
                    for (j = 0; j < nops && r == 3; j++) if (!strcmp(o[j].name, o[i].name) && con[o[j].cid].n == n && !memcmp(con[o[j].cid].b, p, n)) r = j == i ? 1 : 2;
                    if (con[o[i].cid].n == n && !memcmp(con[o[i].cid].b, p, n)) r = 1;
                    free(p);
                }
                putn(r);
            }
            putn(quiet || ff ? 0 : deep(arc, tmp, o, nops));
            if (stat(arc, &st)) putn(-1);
            else { al = st.st_size; all = malloc(al ? al : 1); fd = open(arc, O_RDONLY); if (fd < 0 || read(fd, all, al) != (ssize_t) al) _exit(97); close(fd); putn((int32_t) al); put(all, al); free(all); }
            for (i = 0; i < nops; i++) { free(o[i].name); free(o[i].cmt); }
            free(o); __real_fflush(stdout); alarm(0);
        } else _exit(97);
    }
    unlink(arc);
    return 0;
}
