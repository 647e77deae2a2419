/*
 * Session-tree explorer for the library vendor executable (LVE).
 *
 * The real LVE program (its main renamed to lve_main at compile time) runs in this process with stdin/stdout
 * replaced by streams owned by the explorer; the peer is an OpenSSL client living behind those streams.
 * Whenever the LVE wants input and the client has nothing queued, a choice point is reached: the replies that
 * arrived since the last message are recorded for the current tree node, and one child process is forked per
 * successor node, so that every session of the given tree is executed by the real code with shared prefixes.
 *
 * usage: lve_explore SCENARIO OUTPUT STATEFILE
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include "mlle_error.h"
#include "mlle_license_manager.h"

int lve_main(int argc, char **argv);

#define OUT_END 0x80000000u
enum { NMAX = 4000000 };

struct node { int id, parent, msg, a, lic_new, lic_ans, first_child, next_sibling; char op; };
static struct node *nodes; static int nnodes;
static unsigned char **msgs; static size_t *msglen; static int nmsgs;
static unsigned char *state;           /* shared: 1 = message sent, 2 = processed */
static int outfd = -1, rawfd = -1;
static char keyfile[4096] = "none", chainfile[4096] = "";
static int tmo = 20;
static int maxproto = 0, forge = 0; static char cipher[256];

static SSL *cl; static BIO *c_in, *c_out;   /* client side; c_in: bytes from the LVE, c_out: bytes to it */
static int hs_done, hs_failed, at_eof, cur = 0;   /* node 0 is the root: after the handshake */
static unsigned char *rep; static size_t replen, repcap;
static char *ev; static size_t evlen, evcap;
static int lic_new_ans = 1, lic_ans = 1, lic_live = 0;
static int gone;                       /* the tool has ended: output cannot be delivered either */
static unsigned char *pend; static size_t pendlen;  /* bytes to deliver instead of c_out, then EOF */

/* lve_fault.c, when linked */
void fault_action(const char *) __attribute__((weak)); void fault_hold(int) __attribute__((weak)); void fault_arm(long) __attribute__((weak)); int fault_done(void) __attribute__((weak));
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static int resources;                  /* report what is in use after every request */
#define HOLD(h) do { if (fault_hold) fault_hold(h); } while (0)

static void die(const char *m) { dprintf(2, "HARNESS: %s\n", m); _exit(97); }

static void ev_add(const char *s)
{
    size_t l = strlen(s);
    if (evlen + l + 2 > evcap) { evcap = (evlen + l + 2) * 2; ev = realloc(ev, evcap); }
    memcpy(ev + evlen, s, l); evlen += l; ev[evlen++] = '\n';
}

static void hexs(char *dst, const char *s, size_t n) { size_t i; for (i = 0; i < n; i++) sprintf(dst + 2 * i, "%02x", (unsigned char) s[i]); dst[2 * n] = 0; }

/* ---- scripted licence manager -------------------------------------------------------------------- */
struct mlle_license { int tag; };
/* answers: 1 grant; 0 refuse; 2.. refuse with other kinds of messages */
static char *refusal(int k, const char *what)
{
    char *b = malloc(6000); size_t n;
    switch (k) {
    case 2: b[0] = 0; break;
    case 3: strcpy(b, "100%s %n percent\nsecond line\n"); break;
    case 4: case 5: case 6: n = k == 4 ? 1023 : k == 5 ? 2000 : 5000; memset(b, 'e', n); b[n] = 0; break;
    default: sprintf(b, "scripted refusal %s", what);
    }
    return b;
}
static struct mlle_license *lic_new(const char *libpath, struct mlle_error **error)
{
    struct mlle_license *m;
    char *b = malloc(strlen(libpath ? libpath : "(null)") + 64);
    sprintf(b, "new %d %s", lic_new_ans, libpath ? libpath : "(null)"); ev_add(b); free(b);
    if (lic_new_ans != 1) { b = refusal(lic_new_ans, "setup"); *error = mlle_error_new_literal(LICENSE_DOMAIN, LICENSE_ERROR_INITIALIZATION_FAILURE, b); free(b); return NULL; }
    lic_live++;
    m = malloc(sizeof *m); m->tag = 0x1234; return m;
}
struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error) { struct mlle_license *r; HOLD(1); r = lic_new(libpath, error); HOLD(0); return r; }
void mlle_license_free(struct mlle_license *m)
{
    if (!m) { ev_add("free null"); return; }
    if (m->tag != 0x1234) die("licence manager freed twice or corrupted");
    m->tag = 0; lic_live--; ev_add("free"); free(m);
}
static int lic(const char *what, struct mlle_license *m, size_t n, const char *f, struct mlle_error **error)
{
    char *b = malloc(2 * n + 64);
    sprintf(b, "%s %d %zu ", what, lic_ans, n); hexs(b + strlen(b), f, n);
    ev_add(b); free(b);
    if (!m || m->tag != 0x1234) die("licence call without a live manager");
    if (f[n] != 0) ev_add("unterminated");
    if (lic_ans == 1) return 1;
    b = refusal(lic_ans, what);
    *error = mlle_error_new_literal(LICENSE_DOMAIN, LICENSE_ERROR_CHECKOUT_FAILURE, b); free(b);
    return 0;
}
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { int r; HOLD(1); r = lic("co", m, n, f, e); HOLD(0); return r; }
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **e) { int r; HOLD(1); r = lic("ci", m, n, f, e); HOLD(0); return r; }

/* ---- client ----------------------------------------------------------------------------------------- */
static void client_new(void)
{
    SSL_CTX *ctx = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, NULL);
    if (maxproto) SSL_CTX_set_max_proto_version(ctx, maxproto);
    if (cipher[0]) { SSL_CTX_set_security_level(ctx, 0); SSL_CTX_set_cipher_list(ctx, cipher); }
    if (strcmp(keyfile, "none")) {
        FILE *f = fopen(keyfile, "r"); EVP_PKEY *k; X509 *x;
        if (!f) die("client key");
        if (forge) {   /* someone's public key with a wrong private exponent: possession cannot be proved */
            EVP_PKEY *pk = PEM_read_PUBKEY(f, NULL, NULL, NULL); RSA *r = pk ? EVP_PKEY_get1_RSA(pk) : NULL; BIGNUM *d = BN_new();
            if (!r) die("forge key");
            BN_set_word(d, 12345677); RSA_set0_key(r, NULL, NULL, d);
            k = EVP_PKEY_new(); EVP_PKEY_assign_RSA(k, r);
        } else k = PEM_read_PrivateKey(f, NULL, NULL, NULL);
        fclose(f);
        if (!k) die("client key parse");
        x = X509_new(); X509_set_version(x, 2);
        ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
        X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 86400);
        X509_set_pubkey(x, k);
        X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "O", MBSTRING_ASC, (unsigned char *) "peer", -1, -1, 0);
        X509_set_issuer_name(x, X509_get_subject_name(x));
        if (!X509_sign(x, k, EVP_sha256())) die("sign");
        if (SSL_CTX_use_certificate(ctx, x) != 1 || SSL_CTX_use_PrivateKey(ctx, k) != 1) { ERR_print_errors_fp(stderr); die("use cert"); }
        if (chainfile[0]) {   /* an extra chain certificate that carries someone else's (public) key */
            X509 *y = X509_new(); EVP_PKEY *pk; FILE *g = fopen(chainfile, "r");
            pk = g ? PEM_read_PUBKEY(g, NULL, NULL, NULL) : NULL; if (!pk) die("chain key");
            X509_set_version(y, 2); ASN1_INTEGER_set(X509_get_serialNumber(y), 2);
            X509_gmtime_adj(X509_getm_notBefore(y), -3600); X509_gmtime_adj(X509_getm_notAfter(y), 86400);
            X509_set_pubkey(y, pk);
            X509_set_subject_name(y, X509_get_subject_name(x)); X509_set_issuer_name(y, X509_get_subject_name(x));
            if (!X509_sign(y, k, EVP_sha256())) die("sign chain");
            SSL_CTX_add_extra_chain_cert(ctx, y);
        }
    }
    cl = SSL_new(ctx);
    c_in = BIO_new(BIO_s_mem()); c_out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(c_in, -1);
    SSL_set_bio(cl, c_in, c_out);
    SSL_set_connect_state(cl);
}

static void drain(void)
{
    unsigned char b[16384]; int r;
    while (hs_done && (r = SSL_read(cl, b, sizeof b)) > 0) {
        if (replen + r > repcap) { repcap = (replen + r) * 2; rep = realloc(rep, repcap); }
        memcpy(rep + replen, b, r); replen += r;
    }
    ERR_clear_error();
}

static void record(unsigned id)
{
    unsigned h[3] = { id, (unsigned) replen, (unsigned) evlen };
    size_t n = sizeof h + replen + evlen; unsigned char *b = malloc(n);
    memcpy(b, h, sizeof h); memcpy(b + sizeof h, rep, replen); memcpy(b + sizeof h + replen, ev, evlen);
    if (write(outfd, b, n) != (ssize_t) n) die("output");
    free(b); replen = evlen = 0;
}

static void send_node(int id)
{
    struct node *n = &nodes[id];
    cur = id; state[id] = 1;
    lic_new_ans = n->lic_new; lic_ans = n->lic_ans;
    alarm(tmo);
    switch (n->op) {
    case 'M': if (msglen[n->msg] && SSL_write(cl, msgs[n->msg], (int) msglen[n->msg]) <= 0) die("client write"); break;
    case 'S': /* the same message in two TLS records */
        if (n->a > 0) SSL_write(cl, msgs[n->msg], n->a);
        SSL_write(cl, msgs[n->msg] + n->a, (int) msglen[n->msg] - n->a); break;
    case 'P': SSL_write(cl, msgs[n->msg], (int) msglen[n->msg]); SSL_write(cl, msgs[n->a], (int) msglen[n->a]); break;
    case 'F': SSL_write(cl, msgs[n->msg], (int) msglen[n->msg]); if (!fault_arm) die("no faults in this build"); fault_arm(n->a); HOLD(1); break;
    case 'X': at_eof = 1; break;
    case 'G': at_eof = gone = 1; break;
    case 'D': SSL_write(cl, msgs[n->msg], (int) msglen[n->msg]); at_eof = gone = 1; break;   /* ends without waiting for the reply */
    case 'C': SSL_shutdown(cl); at_eof = 1; break;
    case 'T': { /* only the first a bytes of the record, then end of input */
        char *p; long l; size_t k;
        SSL_write(cl, msgs[n->msg], (int) msglen[n->msg]);
        l = BIO_get_mem_data(c_out, &p); k = n->a < l ? n->a : l - 1;
        pend = malloc(k + 1); memcpy(pend, p, k); pendlen = k; BIO_reset(c_out); at_eof = 1; break; }
    default: die("op");
    }
}

static void in_use(void)
{
    char b[64]; int i, n = 0;
    for (i = 0; i < 512; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    sprintf(b, "use %zu %d", __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0, n); ev_add(b);
}

static void choose(void)
{
    int c, last = -1;
    if (fault_done && fault_done()) ev_add("hit");
    drain();
    if (resources) in_use();
    state[cur] = 2; record(cur);
    for (c = nodes[cur].first_child; c >= 0; c = nodes[c].next_sibling) {
        pid_t p; int st;
        if (nodes[c].next_sibling < 0) { last = c; break; }
        p = fork();
        if (p < 0) die("fork");
        if (p == 0) { send_node(c); return; }
        alarm(0);
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) state[nnodes]++;
        if (state[nnodes] >= 2) _exit(0);      /* hangs are established; the rest stays unreached */
        /* an abnormal end shows in the state array: the node it happened in was sent but not processed */
    }
    if (last < 0) { at_eof = 1; alarm(tmo); return; }
    send_node(last);
}

static ssize_t rd0(void *ck, char *buf, size_t n)
{
    (void) ck;
    for (;;) {
        if (pendlen) { size_t k = n < pendlen ? n : pendlen; memcpy(buf, pend, k); pend += k; pendlen -= k; return (ssize_t) k; }
        if (BIO_pending(c_out) > 0) return BIO_read(c_out, buf, (int) n);
        if (at_eof) return 0;
        if (!hs_done) {
            int r = SSL_do_handshake(cl);
            if (r == 1) { hs_done = 1; continue; }
            if (BIO_pending(c_out) > 0) continue;
            hs_failed = 1; at_eof = 1; return 0;
        }
        drain();
        if (BIO_pending(c_out) > 0) continue;
        choose();
    }
}

static ssize_t wr0(void *ck, const char *buf, size_t n)
{
    (void) ck;
    if (gone) { raise(SIGPIPE); errno = EPIPE; return 0; }
    if (rawfd >= 0 && write(rawfd, buf, n) < 0) die("raw");
    if (BIO_write(c_in, buf, (int) n) != (int) n) die("c_in");
    if (!hs_done && !hs_failed) { int r = SSL_do_handshake(cl); if (r == 1) hs_done = 1; ERR_clear_error(); }
    return (ssize_t) n;
}

static ssize_t rd(void *ck, char *buf, size_t n) { ssize_t r; HOLD(1); r = rd0(ck, buf, n); HOLD(0); return r; }
static ssize_t wr(void *ck, const char *buf, size_t n) { ssize_t r; HOLD(1); r = wr0(ck, buf, n); HOLD(0); return r; }

static unsigned char *unhex(const char *h, size_t *n)
{
    size_t l = strlen(h) / 2, i; unsigned char *b = malloc(l + 1);
    for (i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); b[i] = v; }
    *n = l; return b;
}

int main(int argc, char **argv)
{
    FILE *f; char *line = NULL; size_t cap = 0; int fd, rc, last_child_cap = 0; int *lastc = NULL;
    cookie_io_functions_t io_r = { rd, NULL, NULL, NULL }, io_w = { NULL, wr, NULL, NULL };
    char *av[] = { "lve", NULL };
    (void) last_child_cap;
    if (argc != 4) die("usage");
    signal(SIGPIPE, SIG_IGN);
    f = fopen(argv[1], "r"); if (!f) die("scenario");
    while (getline(&line, &cap, f) > 0) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "key ", 4)) snprintf(keyfile, sizeof keyfile, "%s", line + 4);
        else if (!strncmp(line, "forge ", 6)) { forge = 1; snprintf(keyfile, sizeof keyfile, "%s", line + 6); }
        else if (!strncmp(line, "chain ", 6)) snprintf(chainfile, sizeof chainfile, "%s", line + 6);
        else if (!strncmp(line, "chdir ", 6)) { if (chdir(line + 6)) die("chdir"); }
        else if (!strncmp(line, "timeout ", 8)) tmo = atoi(line + 8);
        else if (!strncmp(line, "maxproto ", 9)) maxproto = (int) strtol(line + 9, 0, 0);
        else if (!strncmp(line, "cipher ", 7)) snprintf(cipher, sizeof cipher, "%s", line + 7);
        else if (!strncmp(line, "raw ", 4)) { rawfd = open(line + 4, O_WRONLY | O_CREAT | O_APPEND, 0600); }
        else if (!strncmp(line, "stderr ", 7)) { int e = open(line + 7, O_WRONLY | O_CREAT | O_APPEND, 0600); dup2(e, 2); close(e); }
        else if (!strcmp(line, "resources")) resources = 1;
        else if (!strncmp(line, "act ", 4)) { if (!fault_action) die("no faults in this build"); fault_action(line + 4); }
        else if (!strncmp(line, "count ", 6)) {
            int i, nn, nm; sscanf(line + 6, "%d %d", &nm, &nn);
            if (nn > NMAX) die("too many nodes");
            nodes = calloc(nn, sizeof *nodes); nnodes = nn; lastc = malloc(nn * sizeof(int));
            for (i = 0; i < nn; i++) { nodes[i].first_child = nodes[i].next_sibling = -1; lastc[i] = -1; nodes[i].lic_new = nodes[i].lic_ans = 1; }
            msgs = calloc(nm, sizeof *msgs); msglen = calloc(nm, sizeof *msglen); nmsgs = nm;
        } else if (line[0] == 'm') {
            char *p; long i = strtol(line + 2, &p, 10); msgs[i] = unhex(p + 1, &msglen[i]);
        } else if (line[0] == 'n') {
            int id, pa, m, a, ln, la; char op;
            if (sscanf(line + 2, "%d %d %c %d %d %d %d", &id, &pa, &op, &m, &a, &ln, &la) != 7) die("node");
            nodes[id].parent = pa; nodes[id].op = op; nodes[id].msg = m; nodes[id].a = a; nodes[id].lic_new = ln; nodes[id].lic_ans = la;
            if (lastc[pa] < 0) nodes[pa].first_child = id; else nodes[lastc[pa]].next_sibling = id;
            lastc[pa] = id;
        } else if (line[0]) die("line");
    }
    fclose(f);
    outfd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600); if (outfd < 0) die("out");
    fd = open(argv[3], O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, nnodes + 1)) die("state");
    state = mmap(NULL, nnodes + 1, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (state == MAP_FAILED) die("mmap");
    state[0] = 1;
    client_new();
    stdin = fopencookie(NULL, "r", io_r); stdout = fopencookie(NULL, "w", io_w);
    if (!stdin || !stdout) die("cookie");
    alarm(tmo); signal(SIGPIPE, SIG_DFL);
    rc = lve_main(1, av);
    HOLD(1);
    if (fault_done && fault_done()) ev_add("hit");
    fflush(NULL);
    drain();
    {
        char b[64]; sprintf(b, "exit %d %d %d", rc, hs_done, lic_live); ev_add(b);
    }
    state[cur] = 2; record(OUT_END | (unsigned) cur);
    _exit(0);
}
