/* Stand-in for the zip library the packaging tool uses (the real one is not available offline). */
#ifndef ZIP_STANDIN_H
#define ZIP_STANDIN_H
#include <stddef.h>
#include <sys/types.h>
struct zip_t;
#define ZIP_DEFAULT_COMPRESSION_LEVEL 6
struct zip_t *zip_open(const char *name, int level, char mode);
struct zip_t *zip_openwitherror(const char *name, int level, char mode, int *err);
const char *zip_strerror(int err);
void zip_close(struct zip_t *z);
int zip_entry_open(struct zip_t *z, const char *name);
int zip_entry_opencasesensitive(struct zip_t *z, const char *name);
int zip_entry_write(struct zip_t *z, const void *b, size_t n);
int zip_entry_fwrite(struct zip_t *z, const char *file);
int zip_entry_close(struct zip_t *z);
#endif
