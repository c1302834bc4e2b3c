// System V shared memory as exact-size heap objects (any access beyond the segment is caught); keys map to segments
// (the last detach unmaps: an old pointer is dead)
#pragma once
#include "hcommon.h"
#include <sys/shm.h>
#include <errno.h>
#include <stdio.h>
struct Seg { int key; size_t size; char* p; int att; bool gone; };
static Seg g_seg[8]; static int g_nseg, g_failget, g_failat;
extern "C" int shmget(key_t k, size_t n, int fl) {
  if (g_failget) { errno = EACCES; return -1; }
  for (int i = 0; i < g_nseg; i++) if (g_seg[i].key == k && !g_seg[i].gone) { if (n > g_seg[i].size) { errno = EINVAL; return -1; } return i + 1; }
  if (!(fl & IPC_CREAT) || n == 0 || g_nseg == 8) { errno = ENOENT; return -1; }
  Seg s = {k, n, (char*)calloc(n, 1), 0, false}; g_seg[g_nseg++] = s; return g_nseg;
}
extern "C" void* shmat(int id, const void*, int) noexcept { if (g_failat || id < 1 || id > g_nseg || !g_seg[id - 1].p) { errno = EINVAL; return (void*)-1; } g_seg[id - 1].att++; return g_seg[id - 1].p; }
extern "C" int shmdt(const void* p) noexcept { for (int i = 0; i < g_nseg; i++) if (g_seg[i].p && g_seg[i].p == p) { CHECK(g_seg[i].att > 0, "segment detached more often than attached"); if (--g_seg[i].att == 0) { char* q = 0; if (!g_seg[i].gone) { q = (char*)malloc(g_seg[i].size); memcpy(q, g_seg[i].p, g_seg[i].size); } free(g_seg[i].p); g_seg[i].p = q; } return 0; } errno = EINVAL; return -1; }
extern "C" int shmctl(int id, int cmd, struct shmid_ds* d) noexcept { if (id < 1 || id > g_nseg || g_seg[id - 1].gone) { errno = EINVAL; return -1; } Seg& s = g_seg[id - 1]; if (cmd == IPC_RMID) { s.gone = true; if (!s.att) { free(s.p); s.p = 0; } } else if (cmd == IPC_STAT) { memset(d, 0, sizeof *d); d->shm_segsz = s.size; d->shm_nattch = s.att; } return 0; }
