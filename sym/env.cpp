// Model runtime, part 2 (symbolic build): file status on top of the in-memory file system.
#include <sys/stat.h>
#include <string.h>
extern "C" {
int pthread_equal(unsigned long a, unsigned long b) throw() { return a == b; }
int lce_fs_stat(const char* n, long* sz);
int stat(const char* n, struct stat* st) throw() { long z; if (lce_fs_stat(n, &z)) return -1; memset(st, 0, sizeof *st); st->st_size = z; st->st_mode = S_IFREG | 0644; return 0; }
}
