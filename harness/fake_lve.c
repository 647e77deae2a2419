/*
 * A scripted peer for the tool-side API: started by the code under test as if it were the library vendor executable.
 * Environment: FAKE_SCRIPT=file:offset (script lines up to "."), FAKE_LOG=file (appended), FAKE_CASE=number, FAKE_KEY=pem.
 * Script:  H handshake | R read one request and log it | W hex: one TLS record | G n rec hdrhex: header and n pattern bytes
 *          in records of rec bytes | B hex: raw bytes | O n: let only n more raw bytes out, then exit | I n: invert the n-th
 *          next raw byte | Z n: write raw output in pieces of n bytes | K close_notify | C close the output | X n: exit with n
 *          | A abort by signal | L: O closes the output instead of exiting | D ms: exit when no input arrives for so long
 *          | M: log that the next reply is out | E: end of input expected (wait for it)
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>

static int logfd; static const char *caseid;
static long budget = -1, flip = -1, piece = 0, patience = -1; static int linger;
static SSL *s; static BIO *in, *out;
static int replies; static long rawout;

static void logline(const char *what, const unsigned char *d, size_t n)
{
    char *b = malloc(2 * n + 128); size_t i, k = sprintf(b, "%s %s ", caseid, what);
    for (i = 0; i < n; i++) k += sprintf(b + k, "%02x", d[i]);
    b[k++] = '\n';
    if (write(logfd, b, k) < 0) _exit(96);
    free(b);
}
static void raw(const unsigned char *d, size_t n)
{
    unsigned char *c = malloc(n + 1); size_t o = 0, m = n;
    memcpy(c, d, n); rawout += n;
    if (flip >= 0) { if ((size_t) flip < n) { c[flip] ^= 0xff; flip = -1; } else flip -= n; }
    if (budget >= 0) { if ((size_t) budget < n) m = budget; budget -= m; }
    while (o < m) {
        size_t k = piece && piece < (long) (m - o) ? (size_t) piece : m - o;
        ssize_t w = write(1, c + o, k);
        if (w <= 0) { logline("pipe", NULL, 0); _exit(0); }
        o += w;
    }
    free(c);
    if (m < n) {
        logline("cut", NULL, 0);
        if (linger) { unsigned char b[4096]; close(1); while (read(0, b, sizeof b) > 0) ; }
        _exit(0);
    }
}
static void flush_out(void)
{
    unsigned char b[20000]; int r;
    while (BIO_pending(out) > 0 && (r = BIO_read(out, b, sizeof b)) > 0) raw(b, r);
}
static int fill(void)
{
    unsigned char b[20000]; ssize_t r; struct pollfd pf = { 0, POLLIN, 0 };
    if (patience >= 0 && poll(&pf, 1, patience) == 0) { logline("impatient", NULL, 0); _exit(0); }
    r = read(0, b, sizeof b);
    if (r <= 0) return 0;
    BIO_write(in, b, r); return 1;
}
static void eof(void) { logline("eof", NULL, 0); _exit(0); }
static int srv_read(unsigned char *b, int n)
{
    for (;;) {
        int r = SSL_read(s, b, n);
        if (r > 0) return r;
        r = SSL_get_error(s, r);
        flush_out();
        if (r == SSL_ERROR_ZERO_RETURN) eof();
        if (r != SSL_ERROR_WANT_READ) { logline("tlserror", NULL, 0); _exit(0); }
        if (!fill()) eof();
    }
}
static unsigned char *unhex(const char *h, size_t *n)
{
    size_t l = strspn(h, "0123456789abcdef") / 2, i; unsigned char *b = malloc(l + 1);
    for (i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); b[i] = v; }
    *n = l; return b;
}
static void request(void)
{
    static unsigned char b[1 << 20]; size_t n = 0; unsigned char *nl; long len = 0; char *sp;
    for (;;) {
        n += srv_read(b + n, sizeof b - 1 - n); b[n] = 0;
        nl = memchr(b, '\n', n);
        if (!nl) continue;
        *nl = 0; sp = strrchr((char *) b, ' '); len = sp && strncmp((char *) b, "VERSION", 7) ? atol(sp + 1) : 0; *nl = '\n';
        if (n >= (size_t) (nl - b) + 1 + len) break;
    }
    logline("req", b, n);
}
static void wrec(const unsigned char *d, size_t n) { if (SSL_write(s, d, n) <= 0) { logline("writefail", NULL, 0); _exit(0); } }
int main(void)
{
    char *spec = getenv("FAKE_SCRIPT"), *colon, *line = NULL; size_t cap = 0, n; FILE *f; unsigned char *d;
    signal(SIGPIPE, SIG_IGN); alarm(120);
    if (!spec) return 95;
    caseid = getenv("FAKE_CASE"); logfd = open(getenv("FAKE_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
    colon = strrchr(spec, ':'); *colon = 0; f = fopen(spec, "r"); if (!f) return 95;
    fseek(f, atol(colon + 1), SEEK_SET);
    logline("start", NULL, 0);
    while (getline(&line, &cap, f) > 0 && line[0] != '.') {
        char *a = line + (line[1] == ' ' ? 2 : 1);
        switch (line[0]) {
        case 'H': {
            SSL_CTX *ctx = SSL_CTX_new(TLS_server_method()); FILE *k = fopen(getenv("FAKE_KEY"), "r"); EVP_PKEY *pk; X509 *x;
            pk = PEM_read_PrivateKey(k, NULL, NULL, NULL); fclose(k);
            x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
            X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 86400); X509_set_pubkey(x, pk);
            X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "O", MBSTRING_ASC, (unsigned char *) "fake", -1, -1, 0);
            X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, pk, EVP_sha256());
            if (getenv("FAKE_VERSION")) { long v = strtol(getenv("FAKE_VERSION"), NULL, 0); SSL_CTX_set_min_proto_version(ctx, v); SSL_CTX_set_max_proto_version(ctx, v); }
            if (getenv("FAKE_SUITES")) { SSL_CTX_set_dh_auto(ctx, 1); if (!SSL_CTX_set_cipher_list(ctx, getenv("FAKE_SUITES"))) _exit(3); }
            SSL_CTX_use_certificate(ctx, x); SSL_CTX_use_PrivateKey(ctx, pk);
            SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, NULL);
            s = SSL_new(ctx); in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(in, -1); SSL_set_bio(s, in, out);
            SSL_set_accept_state(s);
            for (;;) {
                int r = SSL_do_handshake(s); 
                flush_out();
                if (r == 1) break;
                if (SSL_get_error(s, r) != SSL_ERROR_WANT_READ) { logline("hsfail", NULL, 0); _exit(0); }
                if (!fill()) eof();
            }
            logline("hs", NULL, 0); break; }
        case 'R': request(); break;
        case 'W': d = unhex(a, &n); wrec(d, n); flush_out(); free(d); break;
        case 'G': { long total, rec, i; char hdr[256] = ""; unsigned char *p; size_t h, o = 0;
            sscanf(a, "%ld %ld %255s", &total, &rec, hdr); d = unhex(hdr, &h);
            p = malloc(total + h + 1); memcpy(p, d, h);
            for (i = 0; i < total; i++) p[h + i] = (unsigned char) (i * 131 + (i >> 8) * 17 + 5);
            while (o < total + h) { size_t k = total + h - o < (size_t) rec ? total + h - o : (size_t) rec; wrec(p + o, k); o += k; flush_out(); }
            break; }
        case 'B': d = unhex(a, &n); raw(d, n); free(d); break;
        case 'O': budget = atol(a); break;
        case 'I': flip = atol(a); break;
        case 'Z': piece = atol(a); break;
        case 'K': SSL_shutdown(s); flush_out(); break;
        case 'C': close(1); break;
        case 'X': logline("exit", NULL, 0); _exit(atoi(a));
        case 'A': kill(getpid(), SIGKILL); break;
        case 'T': { char b[32]; sprintf(b, "total%ld", rawout); logline(b, NULL, 0); break; }
        case 'M': replies++; { char b[32]; sprintf(b, "sent%d", replies); logline(b, NULL, 0); } break;
        case 'L': linger = 1; break;
        case 'D': patience = atol(a); break;
        case 'E': break;
        }
    }
    for (;;) { unsigned char b[4096]; if (read(0, b, sizeof b) <= 0) break; }
    logline("end", NULL, 0);
    return 0;
}
