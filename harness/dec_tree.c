/* dec_tree BASE OUT REL ...: decrypts BASE/REL to OUT/<index>, in one context; prints the index of each file that is refused */
#include <stdio.h>
#include <stdlib.h>
#include "mlle_cr_decrypt.h"
#include "mlle_io.h"
#include "mlle_error.h"
static char in[1 << 22], out[1 << 22];
int main(int argc, char **argv)
{
    int i; mlle_cr_context *c = mlle_cr_create(argv[1]);
    for (i = 3; i < argc; i++) {
        char a[8192]; FILE *f; int n, r = -1;
        snprintf(a, sizeof a, "%s/%s", argv[1], argv[i]); f = fopen(a, "rb");
        if (f) { n = (int) fread(in, 1, sizeof in, f); fclose(f); r = mlle_cr_decrypt(c, argv[i], in, n, out); }
        if (r < 0) { printf("%d\n", i - 3); continue; }
        snprintf(a, sizeof a, "%s/%d", argv[2], i - 3); f = fopen(a, "wb"); fwrite(out, 1, r, f); fclose(f);
    }
    return 0;
}
