/* writes the embedded library key to standard output */
#include <stdio.h>
#include <string.h>
#include "random_key_file.h"
int main(void) { DECLARE_MLLE_CR_KEY(); INITIALIZE_MLLE_CR_KEY(); return fwrite(MLLE_CR_KEY, 1, MLLE_CR_KEY_LEN, stdout) != MLLE_CR_KEY_LEN; }
