// Stands in for src/utils/mlog2.c, which is process wide logging to stderr:
// in some runs every message is formatted (and thrown away), so that its
// arguments are evaluated as with logging on.
#include <cstdarg>
#include <cstdio>
#define MLOG_NOMACRO_OPT
extern "C" {
#include "utils/mlog2.h"
struct mlog_xstate mlog_xst;
static struct mlog_fac facs[64];
int mlog_open(char *, int, int, int, char *, int, int, int) { return 0; }
void mlog_close(void) {}
void (*sim_mlog_hook)(const char *text);
void mlog(int, const char *fmt, ...) {
    char buf[16384];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (sim_mlog_hook) sim_mlog_hook(buf);
}
void sim_mlog(int on) {
    for (auto &f : facs) f.fac_mask = 0;
    mlog_xst.mlog_facs = facs;
    mlog_xst.fac_cnt = 64;
    mlog_xst.tag = on ? (char *) "hxhim" : nullptr;
}
}
