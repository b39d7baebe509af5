// Controlled scheduler: the threads of one execution run one at a time and
// change only at synchronisation operations, as a given schedule says.
#ifndef VH_SCHED_H
#define VH_SCHED_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { VS_MAXT = 4, VS_MAXP = 20000, VS_OBJ = 4096, VS_TEXT = 6000 };

struct vs_point {
    uint8_t enabled;  // bit mask of threads that could run
    uint8_t chosen;
    uint8_t prev;     // thread running before, 255 at the start
    uint8_t prev_enabled;
    int16_t object;   // synchronisation object the chosen thread is about to use, -1 none
    uint8_t kind;
    uint8_t users;    // filled in at the end: threads that use the object
};
struct vs_shared {
    // in
    int nprefix;
    uint8_t prefix[VS_MAXP];
    int atomic_ops;   // switch only between operations
    int atoms;        // atomic memory operations are switching points too
    // out
    int npoints, overflow, finished, deadlock, diverged, race, raised;
    struct vs_point pt[VS_MAXP];
    uint8_t objusers[VS_OBJ], objwriters[VS_OBJ];
    int nobj;
    char result[VS_MAXT][VS_TEXT];
    char message[4000];
};
void vs_begin(struct vs_shared* s, int nthreads);
void vs_thread_start(int id);
void vs_op_boundary(void);
void vs_thread_end(void);
void vs_run(void);// called by the main thread when all threads exist
#ifdef __cplusplus
}
#endif
#endif
