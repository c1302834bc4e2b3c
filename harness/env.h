#pragma once
// files by relative name: the in-memory file system in the symbolic build, a scratch working directory in the replay build
#include "hcommon.h"
#include <stdio.h>
#ifdef LCE_SYMBOLIC_BUILD
extern "C" { int lce_fs_open(const char*, int); int lce_fs_put(int, const char*, size_t); int lce_fs_get(int, size_t); void lce_fs_read(int, char*); long lce_fs_size(int); }
static inline void put_file(const char* n, const std::string& d) { int h = lce_fs_open(n, 2); lce_fs_put(h, d.data(), d.size()); }
static inline bool get_file(const char* n, std::string& d) { int h = lce_fs_open(n, 1); d.clear(); if (h < 0) return false; long k = lce_fs_size(h); if (k) { d.resize(k); lce_fs_read(h, &d[0]); } return true; }
#else
static inline void put_file(const char* n, const std::string& d) { FILE* f = fopen(n, "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
static inline bool get_file(const char* n, std::string& d) { FILE* f = fopen(n, "rb"); d.clear(); if (!f) return false; int c; while ((c = getc(f)) != EOF) d += (char)c; fclose(f); return true; }
#endif
#ifdef FS_FAULTS
// 1 opening for writing, 2 writing, 4 renaming, 8 removing fails while the bit is set
extern "C" { extern int lce_fs_faults; }
#ifndef LCE_SYMBOLIC_BUILD
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
extern "C" {
int lce_fs_faults;
FILE* fopen(const char* n, const char* m) { if ((lce_fs_faults & 1) && *m != 'r') { errno = EACCES; return 0; } static FILE* (*f)(const char*, const char*); if (!f) f = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); return f(n, m); }
ssize_t write(int fd, const void* p, size_t n) { if ((lce_fs_faults & 2) && fd > 2) { errno = ENOSPC; return -1; } return syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const struct iovec* p, int n) { if ((lce_fs_faults & 2) && fd > 2) { errno = ENOSPC; return -1; } return syscall(SYS_writev, fd, p, n); }
int rename(const char* a, const char* b) throw() { if (lce_fs_faults & 4) { errno = EACCES; return -1; } return syscall(SYS_rename, a, b); }
int unlink(const char* a) throw() { if (lce_fs_faults & 8) { errno = EACCES; return -1; } return syscall(SYS_unlink, a); }
int remove(const char* a) throw() { return unlink(a); }
}
#endif
#endif
