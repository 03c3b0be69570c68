// A deterministic scheduler for C threads, and the run-time library that calls it
//
// The code under test is compiled with -fsanitize=thread, and linked with this
// instead of with libtsan: each memory access and each function call the code
// makes comes here. The threads are real (so thread-local storage works), but
// only the one holding the baton runs, and the PRNG decides when the baton is
// passed on and to whom: one seed is one interleaving.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <pthread.h>
#include <semaphore.h>
#include <link.h>
#include <errno.h>
#include "tsched.h"

#define MAXT 8
static struct
{
    bool     on;
    int      n, cur, nalive;
    bool     alive[MAXT];
    sem_t    sem[MAXT], done;
    uint64_t rng;
    double   mean, pstatic, pext;
    int64_t  count;
    int64_t  ticks, switches, statics, externals;
    uint64_t log;
    uintptr_t data_lo, data_hi;
    bool     stuck;
    int      blocked_spins;
} X;
static __thread int       me = -1;
static __thread uintptr_t stack_lo, stack_hi;

static uint64_t rnd(void)
{
    uint64_t z = (X.rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z>>27)) * 0x94d049bb133111ebull;
    return z ^ (z>>31);
}
static double u01(void) { return (double)(rnd()>>11) / 9007199254740992.; }
static void rearm(void)
{
    // geometric-ish, with occasional bursts of fine-grained switching
    double u = u01();
    double m = u01()<.1 ? 2. : X.mean;
    X.count = 1 + (int64_t)(-m*__builtin_log(1.-u));
}
static void pass(int to)
{
    int from = me;
    X.switches++;
    X.log = (X.log ^ (uint64_t)(X.ticks*MAXT*MAXT + from*MAXT + to)) * 0x100000001b3ull;
    X.cur = to;
    sem_post(&X.sem[to]);
    while(sem_wait(&X.sem[from])) {}
}
static int pick_other(void)
{
    int k = X.nalive-1;
    if(k <= 0) return -1;
    k = rnd()%k;
    for(int i=0;i<X.n;i++)
        if(X.alive[i] && i!=me && k--==0) return i;
    return -1;
}
static void yield_now(void)
{
    int to = pick_other();
    if(to>=0) { int e=errno; pass(to); errno=e; }
}
static inline void tick(uintptr_t a)
{
    if(me<0 || !X.on) return;
    if(a>=stack_lo && a<stack_hi) return;
    X.ticks++;
    if(a>=X.data_lo && a<X.data_hi)
    {
        X.statics++;
        if(u01() < X.pstatic) { yield_now(); return; }
    }
    if(--X.count > 0) return;
    rearm();
    yield_now();
}

#define RW(n) \
void __tsan_read##n (void* a) { tick((uintptr_t)a); } \
void __tsan_write##n(void* a) { tick((uintptr_t)a); } \
void __tsan_unaligned_read##n (void* a) { tick((uintptr_t)a); } \
void __tsan_unaligned_write##n(void* a) { tick((uintptr_t)a); } \
void __tsan_volatile_read##n (void* a) { tick((uintptr_t)a); } \
void __tsan_volatile_write##n(void* a) { tick((uintptr_t)a); } \
void __tsan_read##n##_pc (void* a,void* pc) { (void)pc; tick((uintptr_t)a); } \
void __tsan_write##n##_pc(void* a,void* pc) { (void)pc; tick((uintptr_t)a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range (void* a,long n) { (void)n; tick((uintptr_t)a); }
void __tsan_write_range(void* a,long n) { (void)n; tick((uintptr_t)a); }
void __tsan_func_entry(void* pc) { (void)pc; tick(0); }
void __tsan_func_exit(void) { tick(0); }
void __tsan_init(void) {}
void __tsan_vptr_update(void** a,void* v) { (void)v; tick((uintptr_t)a); }
void __tsan_vptr_read(void** a) { tick((uintptr_t)a); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define ATOMIC(bits,T)                                                  \
T __tsan_atomic##bits##_load(const volatile T* a,int mo) { (void)mo; tick((uintptr_t)a); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); *a=v; } \
T __tsan_atomic##bits##_exchange(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=o+v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=o-v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=o&v; return o; } \
T __tsan_atomic##bits##_fetch_or (volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=o|v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=o^v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a,T v,int mo) { (void)mo; tick((uintptr_t)a); T o=*a; *a=~(o&v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* e,T v,int mo,int fmo) \
{ (void)mo;(void)fmo; tick((uintptr_t)a); if(*a==*e) { *a=v; return 1; } *e=*a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* e,T v,int mo,int fmo) \
{ return __tsan_atomic##bits##_compare_exchange_strong(a,e,v,mo,fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T e,T v,int mo,int fmo) \
{ (void)mo;(void)fmo; tick((uintptr_t)a); T o=*a; if(o==e) *a=v; return o; }
ATOMIC(8,uint8_t) ATOMIC(16,uint16_t) ATOMIC(32,uint32_t) ATOMIC(64,uint64_t)

// Right before a call to code that isn't instrumented
__attribute__((visibility("hidden"))) void ts_external(void)
{
    if(me<0 || !X.on) return;
    X.ticks++; X.externals++;
    if(u01() < X.pext) { yield_now(); return; }
    tick(0);
}

//////////////// Blocking: a thread that would wait lets the others run
static bool may_wait(void)
{
    if(me<0 || !X.on) return false;
    if(X.nalive<2 || X.blocked_spins++ > 1000000) { X.stuck = true; }
    yield_now();
    return true;
}
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if(me<0 || !X.on) return __real_pthread_mutex_lock(m);
    tick(0);
    int r;
    while(EBUSY == (r=pthread_mutex_trylock(m))) { if(X.stuck) return __real_pthread_mutex_lock(m); may_wait(); }
    X.blocked_spins = 0;
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if(me<0 || !X.on) return __real_pthread_rwlock_rdlock(m);
    int r; tick(0);
    while(EBUSY == (r=pthread_rwlock_tryrdlock(m))) { if(X.stuck) return __real_pthread_rwlock_rdlock(m); may_wait(); }
    return r;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if(me<0 || !X.on) return __real_pthread_rwlock_wrlock(m);
    int r; tick(0);
    while(EBUSY == (r=pthread_rwlock_trywrlock(m))) { if(X.stuck) return __real_pthread_rwlock_wrlock(m); may_wait(); }
    return r;
}
// once and c++ static guards: no switches inside
int __real_pthread_once(pthread_once_t* o,void (*f)(void));
int __wrap_pthread_once(pthread_once_t* o,void (*f)(void))
{
    int m=me; me=-1;
    int r = __real_pthread_once(o,f);
    me=m; return r;
}
static __thread int guard_me;
int __real___cxa_guard_acquire(void* g);
int __wrap___cxa_guard_acquire(void* g)
{
    tick((uintptr_t)g);
    int r = __real___cxa_guard_acquire(g);
    if(r) { guard_me=me; me=-1; }
    return r;
}
void __real___cxa_guard_release(void* g);
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    me = guard_me;
}

//////////////// running
static int find_data(struct dl_phdr_info* info, size_t size, void* data)
{
    (void)size;
    uintptr_t self = (uintptr_t)&X;
    (void)data;
    for(int i=0;i<info->dlpi_phnum;i++)
    {
        uintptr_t lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, hi = lo+info->dlpi_phdr[i].p_memsz;
        if(info->dlpi_phdr[i].p_type==PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W) && self>=lo && self<hi)
        {
            X.data_lo=lo; X.data_hi=hi;
            return 1;
        }
    }
    return 0;
}

typedef struct { int i; const op_t* ops; int nops; result_t* out; const void* shared; } targ_t;
static void* thread_main(void* v)
{
    targ_t* t = v;
    pthread_attr_t at;
    void* sa; size_t sn;
    pthread_getattr_np(pthread_self(),&at);
    pthread_attr_getstack(&at,&sa,&sn);
    pthread_attr_destroy(&at);
    stack_lo=(uintptr_t)sa; stack_hi=stack_lo+sn;
    while(sem_wait(&X.sem[t->i])) {}
    me = t->i;
    for(int k=0;k<t->nops;k++)
    {
        memset(&t->out[k],0,sizeof t->out[k]);
        op_run(&t->ops[k],t->shared,&t->out[k]);
    }
    me = -1;
    X.alive[t->i] = false;
    X.nalive--;
    if(X.nalive==0) { sem_post(&X.done); return NULL; }
    int k = rnd()%X.nalive;
    for(int i=0;i<X.n;i++)
        if(X.alive[i] && k--==0) { X.cur=i; sem_post(&X.sem[i]); break; }
    return NULL;
}

// ops: all the operations of thread 0, then of thread 1, ...
// stats: ticks, switches, statics, log hash, stuck
int ts_run(int nthreads, const int* nops, const op_t* ops, result_t* out, const void* shared,
           uint64_t seed, double mean, double pstatic, int64_t* stats)
{
    if(nthreads>MAXT) return -1;
    memset(&X,0,sizeof X);
    dl_iterate_phdr(find_data,NULL);
    X.n=X.nalive=nthreads; X.rng=seed; X.mean=mean; X.pstatic=pstatic; X.pext=pstatic>0. ? .25 : 0.; X.log=0xcbf29ce484222325ull;
    rearm();
    pthread_t th[MAXT]; targ_t ta[MAXT];
    sem_init(&X.done,0,0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,16<<20);
    for(int i=0,o=0;i<nthreads;o+=nops[i],i++)
    {
        X.alive[i]=true;
        sem_init(&X.sem[i],0,0);
        ta[i]=(targ_t){.i=i,.ops=&ops[o],.nops=nops[i],.out=&out[o],.shared=shared};
        if(pthread_create(&th[i],&at,thread_main,&ta[i])) return -2;
    }
    X.on = true;
    X.cur = rnd()%nthreads;
    sem_post(&X.sem[X.cur]);
    while(sem_wait(&X.done)) {}
    X.on = false;
    for(int i=0;i<nthreads;i++) pthread_join(th[i],NULL);
    stats[0]=X.ticks; stats[1]=X.switches; stats[2]=X.statics; stats[3]=(int64_t)X.log; stats[4]=X.stuck; stats[5]=X.externals;
    return 0;
}
// The same, one after the other, in this thread
void ts_serial(int n, const op_t* ops, result_t* out, const void* shared)
{
    for(int i=0;i<n;i++) { memset(&out[i],0,sizeof out[i]); op_run(&ops[i],shared,&out[i]); }
}
