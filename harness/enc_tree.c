/* enc_tree PLAIN DEST REL.mo ... : encrypts PLAIN/REL.mo to DEST/REL.moc, in the given order, in one encryption
 * context rooted at DEST - the way the packaging tool does. Exit 0: all done; 10+i: file i was refused. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_cr_encrypt.h"
#include "mlle_cr_decrypt.h"
int main(int argc, char **argv)
{
    int i; mlle_cr_context *c = mlle_cr_create(argv[2]);
    if (!c) return 2;
    for (i = 3; i < argc; i++) {
        char a[8192], b[8192]; FILE *in, *out; int r;
        snprintf(a, sizeof a, "%s/%s", argv[1], argv[i]); snprintf(b, sizeof b, "%s/%sc", argv[2], argv[i]);
        in = fopen(a, "rb"); out = fopen(b, "wb");
        if (!in || !out) return 3;
        r = mlle_cr_encrypt(c, argv[i], in, out);
        fclose(in);
        if (fclose(out)) return 4;
        if (!r) { remove(b); return 10 + (i - 3 < 80 ? i - 3 : 80); }
    }
    return 0;
}
