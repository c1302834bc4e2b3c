// Error numbers of failed calls: the value stays symbolic, so a caller that treats some error specially is decided for all of them.
#ifndef ERRS_H
#define ERRS_H
static inline int hard_errno(const char* nm) { int e = (int)sym_range(12, 113, nm); sym_assume((e == 12) | (e >= 100)); return e; }        // no memory, or one of the network errors 100 (down) .. 113 (no route)
static inline int send_errno(const char* nm) { int e = (int)sym_range(12, 113, nm); sym_assume((e == 12) | (e == 32) | (e >= 100)); return e; } // or a broken pipe
static inline int hard_not_reset(const char* nm) { int e = hard_errno(nm); sym_assume(e != 104); return e; }
#endif
