/* Wire protocol between the preloaded shim (inside each simulated packetc
 * process) and the simulator. One request per intercepted operation; the
 * simulator answers with what happens; the shim then reports the result. */
#ifndef PROTO_H
#define PROTO_H
#include <stdint.h>

enum {
    OP_OPEN = 1, OP_OPENW, OP_READ, OP_WRITE, OP_STAT, OP_OPENDIR, OP_READDIR,
    OP_MKDIR, OP_RENAME, OP_UNLINK, OP_RMDIR, OP_FSYNC, OP_TRUNC, OP_LINK,
    OP_CHMOD, OP_STDOUT, OP_STDERR, OP_RANDOM, OP_CLOCK, OP_ESCAPE, OP_LOCK, OP_MAX
};
enum { ACT_GO = 0, ACT_FAIL, ACT_SHORT, ACT_CRASH, ACT_CRASH_MID, ACT_CRASH_AFTER };

#define PATHMAX 4096
typedef struct {
    uint32_t op;
    uint32_t flags;
    int64_t n;
    uint32_t len1, len2; /* path lengths, bytes follow in buf */
    char buf[2 * PATHMAX];
} Req;
typedef struct {
    uint32_t act;
    int32_t err;
    int64_t n;
    uint64_t r1, r2;
} Rep;
typedef struct {
    int64_t ret;
    int32_t err;
    int32_t pad;
} Done;
#endif
