// The simulator's system-call and allocator seam.
//
// Loaded with LD_PRELOAD (so that malloc() is interposed). A forked simulation
// process calls dst_install() once: from then on every file-related system call
// made anywhere in the process (python, libc stdio, libpng, libmrcal, ...) is
// trapped (seccomp SECCOMP_RET_TRAP -> SIGSYS handler), and the handler decides
// what happens, following the fault plan in shared memory. Only calls touching
// the scratch root, or file descriptors derived from it, are simulation events;
// everything else passes through unnoticed.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>

#define MAXEV     16384
#define MAXFAULTS 64
#define MAXFD     4096
#define MAXPATHS  512
#define PATHLEN   192
#define MAXMAPS   256

enum { K_NONE=0, K_ERR=1, K_SHORT=2, K_CRASH_BEFORE=3, K_CRASH_AFTER=4,
       K_TORN_CRASH=5, K_DO_THEN_ERR=6, K_SIGINT=7, K_QUOTA=8, K_MALLOC=9, K_N=16 };

typedef struct { int32_t ev; int32_t kind; int64_t arg; } fault_t;
typedef struct { int16_t nr; int16_t path; int16_t kind; int16_t pad; int64_t arg; int64_t res; } ev_t;

typedef struct
{
    // ---- configuration
    int32_t armed;
    int32_t nfaults;
    int64_t quota;          // bytes that may still be written; <0: unlimited
    char    root[PATHLEN];
    fault_t faults[MAXFAULTS];
    // ---- log
    int32_t nev;
    int32_t npaths;
    int32_t fired[K_N];
    int32_t live_fds, live_maps;
    int64_t bytes_written;
    ev_t    ev[MAXEV];
    char    paths[MAXPATHS][PATHLEN];
    // ---- allocator
    int32_t malloc_armed;
    int32_t malloc_count;        // allocations by the watched libraries so far
    int32_t malloc_nfail;
    int32_t malloc_fail[16];     // indices to fail
    int32_t malloc_live;
    int64_t malloc_bytes;
    // ---- cwd was inside root
    int32_t cwd_in_root;
    int32_t live_pages;         // mapped by the watched libraries, and not unmapped
    // ---- ticks: calls into libc or libm from the libraries whose progress is followed
    int32_t tick_armed;
    int32_t nofault_probes;
    int64_t ticks;
    int64_t tick_sigint;        // raise SIGINT at this tick; <0: don't
    // ---- write watch: every path in the root, opened for writing/renamed/unlinked
} shared_t;

static shared_t* S;
static int16_t   fdpath[MAXFD]; // pathid+1; 0: untracked
static bool      fdappend[MAXFD];
static struct { uintptr_t a; size_t n; } maps[MAXMAPS];
static int       yield_w = -1, yield_r = -1;

long dst_stub(long nr, ...);
extern char dst_stub_ip[];
asm(".text\n.globl dst_stub\n.type dst_stub,@function\n"
    "dst_stub: mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
    " mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n"
    ".globl dst_stub_ip\ndst_stub_ip: ret\n");
#define RAW(nr,a,b,c,d,e,f) dst_stub(nr,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))

__attribute__((noreturn)) static void crash(void)
{
    RAW(SYS_exit_group, 137,0,0,0,0,0);
    __builtin_trap();
}

// >=0: pathid. <0: not in the root
static int path_intern(const char* p)
{
    if(p == NULL) return -1;
    char buf[2*PATHLEN];
    if(p[0] != '/')
    {
        if(!S->cwd_in_root) return -1;
        size_t r = strlen(S->root), n = strlen(p);
        if(r+1+n+1 > sizeof(buf)) return -1;
        while(p[0]=='.' && p[1]=='/') { p+=2; n-=2; }
        memcpy(buf, S->root, r); buf[r]='/'; memcpy(buf+r+1, p, n+1);
        p = buf;
    }
    size_t r = strlen(S->root);
    if(0 != strncmp(p, S->root, r) || (p[r] != '/' && p[r] != 0)) return -1;
    p += r;
    while(*p=='/') p++;
    for(int i=0; i<S->npaths; i++)
        if(0 == strncmp(S->paths[i], p, PATHLEN-1)) return i;
    if(S->npaths >= MAXPATHS) return MAXPATHS-1;
    strncpy(S->paths[S->npaths], p, PATHLEN-1);
    return S->npaths++;
}

static int fdp(int fd) { return (fd<0||fd>=MAXFD) ? -1 : fdpath[fd]-1; }
static void fdset(int fd, int path)
{
    if(fd<0 || fd>=MAXFD) return;
    if(fdpath[fd] && path<0)   S->live_fds--;
    if(!fdpath[fd] && path>=0) S->live_fds++;
    fdpath[fd] = path+1;
}

static long handle(long nr, long* a)
{
    int path=-1, path2=-1;
    bool iswrite=false, isread=false, isvec=false;

    switch(nr)
    {
    case SYS_open: case SYS_creat: case SYS_unlink: case SYS_truncate: case SYS_mkdir: case SYS_rmdir:
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_chmod:
        path = path_intern((const char*)a[0]); break;
    case SYS_openat: case SYS_unlinkat: case SYS_newfstatat: case SYS_statx: case SYS_mkdirat:
    case SYS_faccessat: case SYS_faccessat2: case SYS_fchmodat:
        if(a[1] && ((const char*)a[1])[0]==0) path = fdp(a[0]);
        else if((int)a[0] == AT_FDCWD || ((const char*)a[1])[0]=='/') path = path_intern((const char*)a[1]);
        else if(fdp(a[0])>=0)
        {
            char b[2*PATHLEN]; snprintf(b,sizeof b,"%s/%s/%s",S->root,S->paths[fdp(a[0])],(const char*)a[1]);
            path = path_intern(b);
        }
        break;
    case SYS_rename: case SYS_link: case SYS_symlink:
        path = path_intern((const char*)a[0]); path2 = path_intern((const char*)a[1]);
        if(path<0) path=path2;
        break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        path = path_intern((const char*)a[1]); path2 = path_intern((const char*)a[3]);
        if(path<0) path=path2;
        break;
    case SYS_write: case SYS_pwrite64:               iswrite=true;            path=fdp(a[0]); break;
    case SYS_writev: case SYS_pwritev: case SYS_pwritev2: iswrite=true; isvec=true; path=fdp(a[0]); break;
    case SYS_read: case SYS_pread64:                 isread=true;             path=fdp(a[0]); break;
    case SYS_readv: case SYS_preadv:                 isread=true; isvec=true; path=fdp(a[0]); break;
    case SYS_sendfile: case SYS_splice:              path = fdp(a[0]); if(path<0 && nr==SYS_splice) path=fdp(a[2]); break;
    case SYS_copy_file_range:                        path = fdp(a[2]); break;
    case SYS_mmap:                                   path = fdp(a[4]); break;
    case SYS_close: case SYS_fstat: case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: case SYS_fallocate:
    case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fchmod:
        path = fdp(a[0]); break;
    case SYS_fcntl:
        path = (a[1]==F_DUPFD || a[1]==F_DUPFD_CLOEXEC) ? fdp(a[0]) : -1; break;
    default: break;
    }

    if(!S->armed)
        path = -1;

    long res;
    int  kind = K_NONE;
    int64_t arg = 0;
    int evi = -1;
    if(path >= 0 && yield_w >= 0)
    {
        // a simulated worker process: the scheduler decides when this happens
        char c = 'y';
        while(RAW(SYS_write, yield_w,&c,1,0,0,0) == -EINTR) ;
        long r;
        while((r = RAW(SYS_read, yield_r,&c,1,0,0,0)) == -EINTR) ;
        if(r <= 0) RAW(SYS_exit_group, 1,0,0,0,0,0);
    }
    if(path >= 0)
    {
        evi = S->nev++;
        for(int i=0; i<S->nfaults; i++)
            if(S->faults[i].ev == evi) { kind = S->faults[i].kind; arg = S->faults[i].arg; }
    }
    if(iswrite && path>=0 && (kind==K_NONE || kind==K_SIGINT) && S->quota >= 0)
    {
        int64_t n = a[2];
        if(isvec) { n=0; for(int i=0;i<a[2];i++) n += ((struct iovec*)a[1])[i].iov_len; }
        if(n > S->quota)
        {
            if(S->quota == 0) { kind=K_QUOTA; arg=ENOSPC; }
            else              { kind=K_SHORT; arg=S->quota; S->fired[K_QUOTA]++; }
        }
    }
    // python reports these as 'there is no such file'
    if(S->nofault_probes && kind!=K_SIGINT && kind!=K_NONE &&
       (nr==SYS_stat || nr==SYS_lstat || nr==SYS_newfstatat || nr==SYS_statx || nr==SYS_access || nr==SYS_faccessat || nr==SYS_faccessat2 ||
        (nr==SYS_openat && (a[2]&O_DIRECTORY)) || (nr==SYS_open && (a[1]&O_DIRECTORY))))
        kind = K_NONE;
    // short/torn only mean something for reads and writes of >1 byte
    if(kind==K_SHORT && !(iswrite||isread)) kind=K_NONE;
    if(kind==K_TORN_CRASH && !iswrite)      kind=K_CRASH_BEFORE;

    // in Linux a close() that fails still closes
    if(kind==K_ERR && nr==SYS_close)        kind=K_DO_THEN_ERR;
    // and these that fail don't produce a descriptor or a mapping
    if(kind==K_DO_THEN_ERR && (nr==SYS_open || nr==SYS_openat || nr==SYS_creat || nr==SYS_mmap ||
                               nr==SYS_dup || nr==SYS_dup2 || nr==SYS_dup3 || nr==SYS_fcntl ||
                               isread || iswrite))
        kind=K_ERR;

    if(kind != K_NONE) S->fired[kind]++;

    if(kind == K_ERR || kind == K_QUOTA)
        res = -arg;
    else if(kind == K_CRASH_BEFORE)
    {
        if(evi>=0 && evi<MAXEV) S->ev[evi] = (ev_t){.nr=nr,.path=path,.kind=kind,.arg=a[2],.res=0};
        crash();
    }
    else
    {
        if(kind==K_SHORT || kind==K_TORN_CRASH)
        {
            if(arg < 1 && kind==K_SHORT) arg = 1;
            if(isvec)
            {
                struct iovec* v = (struct iovec*)a[1];
                struct iovec one = v[0];
                if((int64_t)one.iov_len > arg) one.iov_len = arg;
                if(nr==SYS_writev || nr==SYS_readv)
                    res = RAW(nr, a[0], &one, 1, 0,0,0);
                else
                    res = RAW(nr, a[0], &one, 1, a[3],a[4],a[5]);
            }
            else
                res = RAW(nr, a[0], a[1], a[2] < arg ? a[2] : arg, a[3],a[4],a[5]);
            if(kind==K_TORN_CRASH)
            {
                if(evi>=0 && evi<MAXEV) S->ev[evi] = (ev_t){.nr=nr,.path=path,.kind=kind,.arg=a[2],.res=res};
                crash();
            }
        }
        else
            res = RAW(nr, a[0],a[1],a[2],a[3],a[4],a[5]);

        // bookkeeping
        if(iswrite && path>=0 && res>0)
        {
            S->bytes_written += res;
            if(S->quota >= 0) S->quota -= res;
        }
        switch(nr)
        {
        case SYS_open: case SYS_openat: case SYS_creat:
            if(res >= 0) fdset(res, path);
            break;
        case SYS_dup: if(res>=0) fdset(res,path); break;
        case SYS_dup2: case SYS_dup3: if(res>=0) fdset(res,path); break;
        case SYS_fcntl: if(path>=0 && res>=0) fdset(res,path); break;
        case SYS_close:
            fdset(a[0], -1);
            break;
        case SYS_mmap:
            if(path>=0 && (unsigned long)res < -4095UL)
                for(int i=0;i<MAXMAPS;i++) if(!maps[i].a) { maps[i].a=res; maps[i].n=a[1]; S->live_maps++; break; }
            break;
        case SYS_munmap:
            if(res==0)
                for(int i=0;i<MAXMAPS;i++) if(maps[i].a && maps[i].a==(uintptr_t)a[0]) { maps[i].a=0; S->live_maps--; break; }
            break;
        default: break;
        }
        if(kind == K_DO_THEN_ERR) res = -arg;
        if(kind == K_CRASH_AFTER)
        {
            if(evi>=0 && evi<MAXEV) S->ev[evi] = (ev_t){.nr=nr,.path=path,.kind=kind,.arg=a[2],.res=res};
            crash();
        }
    }
    if(evi>=0 && evi<MAXEV)
        S->ev[evi] = (ev_t){.nr=nr,.path=path,.kind=kind,.arg=(iswrite||isread)?a[2]:0,
                            .res = (nr==SYS_mmap && (unsigned long)res < -4095UL) ? 0 : res};
    if(kind == K_SIGINT)
        RAW(SYS_tgkill, RAW(SYS_getpid,0,0,0,0,0,0), RAW(SYS_gettid,0,0,0,0,0,0), SIGINT, 0,0,0);
    return res;
}

static void sigsys(int sig, siginfo_t* si, void* u)
{
    (void)sig;
    greg_t* g = ((ucontext_t*)u)->uc_mcontext.gregs;
    long a[6] = { g[REG_RDI],g[REG_RSI],g[REG_RDX],g[REG_R10],g[REG_R8],g[REG_R9] };
    int e = errno;
    g[REG_RAX] = handle(si->si_syscall, a);
    errno = e;
}

void* dst_shared(void)
{
    if(!S)
    {
        S = mmap(NULL, sizeof(shared_t), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        if(S == MAP_FAILED) { S=NULL; return NULL; }
        S->quota = -1;
    }
    return S;
}
void dst_reset(void)
{
    dst_shared();
    memset(S, 0, sizeof(*S));
    S->quota = -1;
    memset(fdpath,0,sizeof fdpath);
    memset(maps,0,sizeof maps);
}
size_t dst_sizeof(void) { return sizeof(shared_t); }

// In the simulation process, before anything else happens. Irreversible
int dst_install(void)
{
    static const int traps[] = {
        SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_pwritev2,
        SYS_read, SYS_readv, SYS_pread64, SYS_preadv, SYS_close,
        SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_link, SYS_linkat, SYS_symlink,
        SYS_ftruncate, SYS_truncate, SYS_fsync, SYS_fdatasync, SYS_fallocate, SYS_copy_file_range, SYS_sendfile, SYS_splice,
        SYS_fstat, SYS_newfstatat, SYS_stat, SYS_lstat, SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir,
        SYS_dup, SYS_dup2, SYS_dup3, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_munmap };
    enum { NT = sizeof(traps)/sizeof(traps[0]) };
    struct sock_filter f[2*NT+32];
    int n = 0;
    uint64_t ip = (uint64_t)(uintptr_t)dst_stub_ip;
#define ST(code,k)        f[n++] = (struct sock_filter)BPF_STMT(code,k)
#define JP(code,k,jt,jf)  f[n++] = (struct sock_filter)BPF_JUMP(code,k,jt,jf)
    ST(BPF_LD|BPF_W|BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    JP(BPF_JMP|BPF_JEQ|BPF_K, (uint32_t)ip, 0, 3);
    ST(BPF_LD|BPF_W|BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)+4);
    JP(BPF_JMP|BPF_JEQ|BPF_K, (uint32_t)(ip>>32), 0, 1);
    ST(BPF_RET|BPF_K, SECCOMP_RET_ALLOW);
    ST(BPF_LD|BPF_W|BPF_ABS, offsetof(struct seccomp_data, nr));
    JP(BPF_JMP|BPF_JEQ|BPF_K, SYS_mmap, 0, 4);
    ST(BPF_LD|BPF_W|BPF_ABS, offsetof(struct seccomp_data, args)+8*4);
    JP(BPF_JMP|BPF_JEQ|BPF_K, 0xffffffffu, 0, 1);
    ST(BPF_RET|BPF_K, SECCOMP_RET_ALLOW);
    ST(BPF_RET|BPF_K, SECCOMP_RET_TRAP);
    JP(BPF_JMP|BPF_JEQ|BPF_K, SYS_fcntl, 0, 5);
    ST(BPF_LD|BPF_W|BPF_ABS, offsetof(struct seccomp_data, args)+8*1);
    JP(BPF_JMP|BPF_JEQ|BPF_K, F_DUPFD, 2, 0);
    JP(BPF_JMP|BPF_JEQ|BPF_K, F_DUPFD_CLOEXEC, 1, 0);
    ST(BPF_RET|BPF_K, SECCOMP_RET_ALLOW);
    ST(BPF_RET|BPF_K, SECCOMP_RET_TRAP);
    for(int i=0;i<NT;i++)
    {
        JP(BPF_JMP|BPF_JEQ|BPF_K, traps[i], 0, 1);
        ST(BPF_RET|BPF_K, SECCOMP_RET_TRAP);
    }
    ST(BPF_RET|BPF_K, SECCOMP_RET_ALLOW);

    char cwd[4096];
    S->cwd_in_root = (getcwd(cwd,sizeof cwd) && 0==strcmp(cwd, S->root));

    struct sigaction sa;
    memset(&sa,0,sizeof sa);
    sa.sa_sigaction = sigsys;
    sa.sa_flags     = SA_SIGINFO|SA_NODEFER|SA_RESTART;
    if(sigaction(SIGSYS,&sa,NULL)) return -1;
    if(prctl(PR_SET_NO_NEW_PRIVS,1,0,0,0)) return -2;
    struct sock_fprog p = { n, f };
    if(prctl(PR_SET_SECCOMP,SECCOMP_MODE_FILTER,&p)) return -3;
    return 0;
}

// mark an already-open descriptor (e.g. a redirected stdout) as tracked
int dst_track_fd(int fd, const char* path)
{
    int p = path_intern(path);
    fdset(fd, p);
    return p;
}
void dst_yield_fds(int w, int r) { yield_w = w; yield_r = r; }
void dst_untrack_fd(int fd) { fdset(fd,-1); }

//////////////// allocator seam
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t,size_t);
extern void* __libc_realloc(void*,size_t);
extern void  __libc_free(void*);
extern void* __libc_memalign(size_t,size_t);

#define NRANGES 8
static struct { uintptr_t lo,hi; } ranges[NRANGES];
static int nranges;
#define NLIVE 65536
static void* live[NLIVE];

void dst_malloc_forget(void) { memset(live,0,sizeof live); S->malloc_live = 0; }
static int cb(struct dl_phdr_info* info, size_t size, void* data)
{
    (void)size;
    const char* want = data;
    if(!info->dlpi_name || !strstr(info->dlpi_name, want)) return 0;
    for(int i=0;i<info->dlpi_phnum;i++)
        if(info->dlpi_phdr[i].p_type==PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_X) && nranges<NRANGES)
        {
            ranges[nranges].lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            ranges[nranges].hi = ranges[nranges].lo + info->dlpi_phdr[i].p_memsz;
            nranges++;
        }
    return 0;
}
int dst_malloc_watch(const char* libname) { int n=nranges; dl_iterate_phdr(cb,(void*)libname); return nranges-n; }

static inline bool watched(void* ra)
{
    uintptr_t a=(uintptr_t)ra;
    for(int i=0;i<nranges;i++) if(a>=ranges[i].lo && a<ranges[i].hi) return true;
    return false;
}
static struct { uintptr_t lo,hi; } tranges[NRANGES];
static int ntranges;
static int tcb(struct dl_phdr_info* info, size_t size, void* data)
{
    (void)size;
    const char* want = data;
    if(!info->dlpi_name || !strstr(info->dlpi_name, want)) return 0;
    for(int i=0;i<info->dlpi_phnum;i++)
        if(info->dlpi_phdr[i].p_type==PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_X) && ntranges<NRANGES)
        {
            tranges[ntranges].lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            tranges[ntranges].hi = tranges[ntranges].lo + info->dlpi_phdr[i].p_memsz;
            ntranges++;
        }
    return 0;
}
int dst_tick_watch(const char* libname) { int n=ntranges; dl_iterate_phdr(tcb,(void*)libname); return ntranges-n; }
static __attribute__((noinline)) void tick(void* ra)
{
    uintptr_t a=(uintptr_t)ra;
    int i;
    for(i=0;i<ntranges;i++) if(a>=tranges[i].lo && a<tranges[i].hi) break;
    if(i==ntranges) return;
    if(S->ticks++ == S->tick_sigint)
    {
        int e=errno;
        S->fired[K_SIGINT]++;
        syscall(SYS_tgkill,getpid(),syscall(SYS_gettid),SIGINT);
        errno=e;
    }
}
#define TICK() do { if(S && S->tick_armed) tick(__builtin_return_address(0)); } while(0)
#define LIBM1(f)                                                \
double f(double x)                                              \
{                                                               \
    static double (*real)(double);                              \
    if(!real) real = (double(*)(double))dlsym(RTLD_NEXT,#f);    \
    TICK();                                                     \
    return real(x);                                             \
}
LIBM1(sin) LIBM1(cos) LIBM1(tan) LIBM1(asin) LIBM1(acos) LIBM1(sqrt)
double atan2(double y,double x)
{
    static double (*real)(double,double);
    if(!real) real = (double(*)(double,double))dlsym(RTLD_NEXT,"atan2");
    TICK();
    return real(y,x);
}
void sincos(double x,double* s,double* c)
{
    static void (*real)(double,double*,double*);
    if(!real) real = (void(*)(double,double*,double*))dlsym(RTLD_NEXT,"sincos");
    TICK();
    real(x,s,c);
}
static inline bool deny(size_t n)
{
    int i = S->malloc_count++;
    for(int k=0;k<S->malloc_nfail && k<16;k++)
        if(S->malloc_fail[k]==i) { S->fired[K_MALLOC]++; return true; }
    S->malloc_bytes += n;
    return false;
}
static inline void live_add(void* p)
{
    if(!p) return;
    unsigned h = ((uintptr_t)p>>4)*2654435761u;
    for(int i=0;i<64;i++) { void** q=&live[(h+i)%NLIVE]; if(!*q) { *q=p; S->malloc_live++; return; } }
}
static inline void live_del(void* p)
{
    unsigned h = ((uintptr_t)p>>4)*2654435761u;
    for(int i=0;i<64;i++) { void** q=&live[(h+i)%NLIVE]; if(*q==p) { *q=NULL; S->malloc_live--; return; } }
}
#define ON (S && S->malloc_armed)
// What fresh memory contains. That's nondeterministic in a real process: nothing
// may depend on it
static int poison = -1;
static inline void* fresh(void* p, size_t n) { if(poison>=0 && p) memset(p,poison,n); return p; }
__attribute__((noinline)) static void stack_fill(int c) { char b[200000]; memset(b,c,sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
void dst_poison(int c) { poison = c; if(c>=0) stack_fill(c); }
void* malloc(size_t n)
{
    TICK();
    if(ON && watched(__builtin_return_address(0)))
    {
        if(deny(n)) { errno=ENOMEM; return NULL; }
        void* p=fresh(__libc_malloc(n),n); live_add(p); return p;
    }
    return fresh(__libc_malloc(n),n);
}
void* calloc(size_t a,size_t b)
{
    TICK();
    if(ON && watched(__builtin_return_address(0)))
    {
        if(deny(a*b)) { errno=ENOMEM; return NULL; }
        void* p=__libc_calloc(a,b); live_add(p); return p;
    }
    return __libc_calloc(a,b);
}
void* realloc(void* q,size_t n)
{
    TICK();
    if(ON)
    {
        bool w = watched(__builtin_return_address(0));
        if(w && deny(n)) { errno=ENOMEM; return NULL; }
        size_t had = poison>=0 && q ? malloc_usable_size(q) : 0;
        void* p=__libc_realloc(q,n);
        if(poison>=0 && p && n>had) memset((char*)p+had,poison,n-had);
        if(q && (p || n==0)) live_del(q);
        if(w) live_add(p);
        return p;
    }
    size_t had = poison>=0 && q ? malloc_usable_size(q) : 0;
    void* p=__libc_realloc(q,n);
    if(poison>=0 && p && n>had) memset((char*)p+had,poison,n-had);
    return p;
}
void free(void* p)
{
    TICK();
    if(ON && p) live_del(p);
    __libc_free(p);
}
int posix_memalign(void** out,size_t al,size_t n)
{
    if(ON && watched(__builtin_return_address(0)))
    {
        if(deny(n)) return ENOMEM;
        void* p=fresh(__libc_memalign(al,n),n); if(!p) return ENOMEM;
        live_add(p); *out=p; return 0;
    }
    void* p=fresh(__libc_memalign(al,n),n); if(!p) return ENOMEM;
    *out=p; return 0;
}
void* aligned_alloc(size_t al,size_t n)
{
    if(ON && watched(__builtin_return_address(0)))
    {
        if(deny(n)) { errno=ENOMEM; return NULL; }
        void* p=fresh(__libc_memalign(al,n),n); live_add(p); return p;
    }
    return fresh(__libc_memalign(al,n),n);
}
void* memalign(size_t al,size_t n) { return fresh(__libc_memalign(al,n),n); }

// mappings made by the watched libraries
#define NPAGES 4096
static uintptr_t pages[NPAGES];
static void pages_add(uintptr_t a, size_t n)
{
    for(uintptr_t p=a&~4095UL; p<a+n; p+=4096)
    {
        int hole=-1; bool have=false;
        for(int i=0;i<NPAGES;i++) { if(pages[i]==p) { have=true; break; } if(hole<0 && !pages[i]) hole=i; }
        if(!have && hole>=0) { pages[hole]=p; S->live_pages++; }
    }
}
static void pages_del(uintptr_t a, size_t n)
{
    for(int i=0;i<NPAGES;i++) if(pages[i] && pages[i]>=(a&~4095UL) && pages[i]<a+n) { pages[i]=0; S->live_pages--; }
}
void* mmap(void* addr, size_t n, int prot, int flags, int fd, off_t off)
{
    bool w = ON && watched(__builtin_return_address(0));
    if(w && deny(0)) { errno=ENOMEM; return MAP_FAILED; }
    void* p = (void*)syscall(SYS_mmap,addr,n,prot,flags,fd,off);
    if(w && p!=MAP_FAILED) pages_add((uintptr_t)p,n);
    return p;
}
void* mmap64(void* addr, size_t n, int prot, int flags, int fd, off_t off)
{
    bool w = ON && watched(__builtin_return_address(0));
    if(w && deny(0)) { errno=ENOMEM; return MAP_FAILED; }
    void* p = (void*)syscall(SYS_mmap,addr,n,prot,flags,fd,off);
    if(w && p!=MAP_FAILED) pages_add((uintptr_t)p,n);
    return p;
}
int munmap(void* addr, size_t n)
{
    int r = syscall(SYS_munmap,addr,n);
    if(ON && r==0) pages_del((uintptr_t)addr,n);
    return r;
}
