/* Compiled without instrumentation: its hand-overs must not order the threads'
   accesses in the eyes of the race detector. */
#define _GNU_SOURCE
#include "vh_sched.h"
#include <linux/futex.h>
#include <pthread.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static struct vs_shared* S;
static int N;
enum { READY, DONE };
static int status[VS_MAXT];
static int waits_for[VS_MAXT];     /* object a thread wants, -1 none */
static int wants_shared[VS_MAXT];
static int go[VS_MAXT];            /* futex words */
static int active;
static __thread int self = -1;
static int running = -1;

struct obj { void* p; int owner, count, readers[VS_MAXT], once; };
static struct obj objs[VS_OBJ];
static int nobj;

static void fwait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void fail_now(void) { syscall(SYS_exit_group, 77); }

static short slot[1 << 14];        /* object number + 1 */
static int find(void* p)
{
    unsigned h = (unsigned) (((uintptr_t) p >> 2) * 2654435761u) >> 18;
    while (slot[h & 16383]) {
        if (objs[slot[h & 16383] - 1].p == p) return slot[h & 16383] - 1;
        ++h;
    }
    if (nobj == VS_OBJ) { S->overflow = 1; fail_now(); }
    memset(&objs[nobj], 0, sizeof objs[0]);
    objs[nobj].p = p; objs[nobj].owner = -1;
    slot[h & 16383] = nobj + 1;
    return nobj++;
}

static int can_take(int t, int o, int shared)
{
    int i;
    if (objs[o].owner >= 0 && objs[o].owner != t) return 0;
    if (!shared) for (i = 0; i < N; ++i) if (i != t && objs[o].readers[i]) return 0;
    return 1;
}
static int enabled(int t)
{
    if (status[t] == DONE) return 0;
    return waits_for[t] < 0 || can_take(t, waits_for[t], wants_shared[t]);
}

/* choose who runs next; returns when the caller is chosen (or for ever gone) */
static void reschedule(int me)
{
    int t, next, mask = 0, k;
    for (t = 0; t < N; ++t) if (enabled(t)) mask |= 1 << t;
    if (!mask) {
        for (t = 0; t < N; ++t) if (status[t] != DONE) { S->deadlock = 1; fail_now(); }
        S->finished = 1;
        __atomic_store_n(&active, 0, __ATOMIC_SEQ_CST);
        return;
    }
    int prev_en = me >= 0 && (mask >> me & 1);
    if (__builtin_popcount(mask) == 1) next = __builtin_ctz(mask);
    else {
        k = S->npoints;
        if (k >= VS_MAXP) { S->overflow = 1; fail_now(); }
        if (k < S->nprefix) {
            next = S->prefix[k];
            if (!(mask >> next & 1)) { S->diverged = 1; fail_now(); }
        } else next = prev_en ? me : __builtin_ctz(mask);
        struct vs_point* p = &S->pt[k];
        p->enabled = mask; p->chosen = next; p->prev = me < 0 ? 255 : me; p->prev_enabled = prev_en;
        p->object = waits_for[next]; p->kind = 0;
        S->npoints = k + 1;
    }
    running = next;
    if (next == me) return;
    __atomic_store_n(&go[next], 1, __ATOMIC_SEQ_CST);
    fwake(&go[next]);
    if (me >= 0 && status[me] != DONE) {
        while (!__atomic_load_n(&go[me], __ATOMIC_SEQ_CST)) fwait(&go[me], 0);
        __atomic_store_n(&go[me], 0, __ATOMIC_SEQ_CST);
    }
}

void vs_begin(struct vs_shared* s, int n)
{
    int i;
    S = s; N = n; nobj = 0; running = -1;
    memset(slot, 0, sizeof slot);
    for (i = 0; i < n; ++i) { status[i] = READY; waits_for[i] = -1; go[i] = 0; }
}
void vs_thread_start(int id)
{
    while (!__atomic_load_n(&go[id], __ATOMIC_SEQ_CST)) fwait(&go[id], 0);
    __atomic_store_n(&go[id], 0, __ATOMIC_SEQ_CST);
    self = id;
}
void vs_run(void)
{
    __atomic_store_n(&active, 1, __ATOMIC_SEQ_CST);
    reschedule(-1);
}
void vs_op_boundary(void)
{
    if (self >= 0 && active) reschedule(self);
}
void vs_thread_end(void)
{
    int me = self;
    self = -1;
    status[me] = DONE;
    reschedule(me);
}

/* ---- synchronisation operations */
static int controlled(void) { return self >= 0 && active; }
static void touch(int o, int write)
{
    S->objusers[o] |= 1 << self;
    if (write) S->objwriters[o] |= 1 << self;
    if (o >= S->nobj) S->nobj = o + 1;
}

static void acquire(int o, int shared)
{
    if (objs[o].owner == self) return;
    touch(o, !shared);
    waits_for[self] = o; wants_shared[self] = shared;
    if (!S->atomic_ops || !can_take(self, o, shared)) reschedule(self);
    waits_for[self] = -1;
}

extern int __real_pthread_mutex_lock(pthread_mutex_t*);
extern int __real_pthread_mutex_trylock(pthread_mutex_t*);
extern int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
extern int __real_pthread_once(pthread_once_t*, void (*)(void));
extern int __real___cxa_guard_acquire(void*);
extern void __real___cxa_guard_release(void*);
extern void __real___cxa_guard_abort(void*);

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!controlled()) return __real_pthread_mutex_lock(m);
    int o = find(m);
    if (objs[o].owner == self && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE) {
        S->deadlock = 2;/* locks a plain mutex it holds */
        fail_now();
    }
    acquire(o, 0);
    objs[o].owner = self; objs[o].count++;
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!controlled()) return __real_pthread_mutex_trylock(m);
    int o = find(m);
    touch(o, 1);
    if (!S->atomic_ops) reschedule(self);
    int r = __real_pthread_mutex_trylock(m);
    if (r == 0) { objs[o].owner = self; objs[o].count++; }
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    if (controlled()) {
        int o = find(m);
        if (objs[o].owner == self && --objs[o].count == 0) objs[o].owner = -1;
    }
    return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (controlled()) { int o = find(m); acquire(o, 1); objs[o].readers[self]++; }
    return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (controlled()) { int o = find(m); acquire(o, 0); objs[o].owner = self; }
    return __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    int r = __real_pthread_rwlock_unlock(m);
    if (controlled()) {
        int o = find(m);
        if (objs[o].owner == self) objs[o].owner = -1;
        else if (objs[o].readers[self]) objs[o].readers[self]--;
    }
    return r;
}
int __wrap_pthread_once(pthread_once_t* c, void (*f)(void))
{
    if (!controlled()) return __real_pthread_once(c, f);
    int o = find(c);
    int outer = objs[o].owner == self;
    acquire(o, 0);
    objs[o].owner = self;
    int r = __real_pthread_once(c, f);
    if (!outer) objs[o].owner = -1;
    return r;
}
int __wrap___cxa_guard_acquire(void* g)
{
    if (!controlled()) return __real___cxa_guard_acquire(g);
    int o = find(g);
    acquire(o, 0);
    int r = __real___cxa_guard_acquire(g);
    if (r) objs[o].owner = self;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    if (controlled()) { int o = find(g); objs[o].owner = -1; }
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    if (controlled()) { int o = find(g); objs[o].owner = -1; }
}

/* ---- atomic memory operations (what the race detector's instrumentation calls) */
static void atom(volatile void* a, int write)
{
    if (!controlled() || !S->atoms || S->atomic_ops) return;
    int o = find((void*) ((uintptr_t) a | (uintptr_t) 1 << 63));
    touch(o, write);
    waits_for[self] = o; wants_shared[self] = 1;
    reschedule(self);
    waits_for[self] = -1;
}
#define RMW(bits, type, op)                                                                  \
    extern type __real___tsan_atomic##bits##_##op(volatile type*, type, int);                 \
    type __wrap___tsan_atomic##bits##_##op(volatile type* a, type v, int mo)                  \
    {                                                                                        \
        atom(a, 1);                                                                          \
        return __real___tsan_atomic##bits##_##op(a, v, mo);                                   \
    }
#define ALL(bits, type)                                                                      \
    RMW(bits, type, fetch_add) RMW(bits, type, fetch_sub) RMW(bits, type, exchange)           \
    RMW(bits, type, fetch_and) RMW(bits, type, fetch_or)                                      \
    extern type __real___tsan_atomic##bits##_load(const volatile type*, int);                 \
    type __wrap___tsan_atomic##bits##_load(const volatile type* a, int mo)                    \
    {                                                                                        \
        atom((volatile void*) a, 0);                                                         \
        return __real___tsan_atomic##bits##_load(a, mo);                                      \
    }                                                                                        \
    extern void __real___tsan_atomic##bits##_store(volatile type*, type, int);                \
    void __wrap___tsan_atomic##bits##_store(volatile type* a, type v, int mo)                 \
    {                                                                                        \
        atom(a, 1);                                                                          \
        __real___tsan_atomic##bits##_store(a, v, mo);                                         \
    }                                                                                        \
    extern int __real___tsan_atomic##bits##_compare_exchange_strong(volatile type*, type*, type, int, int); \
    int __wrap___tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo) \
    {                                                                                        \
        atom(a, 1);                                                                          \
        return __real___tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);        \
    }                                                                                        \
    extern int __real___tsan_atomic##bits##_compare_exchange_weak(volatile type*, type*, type, int, int); \
    int __wrap___tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo) \
    {                                                                                        \
        atom(a, 1);                                                                          \
        return __real___tsan_atomic##bits##_compare_exchange_weak(a, c, v, mo, fmo);          \
    }                                                                                        \
    extern type __real___tsan_atomic##bits##_compare_exchange_val(volatile type*, type, type, int, int); \
    type __wrap___tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo) \
    {                                                                                        \
        atom(a, 1);                                                                          \
        return __real___tsan_atomic##bits##_compare_exchange_val(a, c, v, mo, fmo);           \
    }
ALL(8, uint8_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
