// agsim: deterministic simulation runtime for OpenMP / C++ / CPython-extension code.
// Provides, inside one process and under one seeded scheduler:
//   * the OpenMP runtime (GOMP_*, omp_*), static-init guards, mutexes and the Python GIL,
//   * preemption points at every instrumented memory access (the -fsanitize=thread call-backs),
//   * a happens-before race detector used to steer preemptions (and as an oracle where asked),
//   * virtual clock, signal delivery, allocation failures, file-system faults, crashes.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { AGSIM_MAXDEC = 1<<16, AGSIM_MAXFAULT = 64, AGSIM_MAXRACE = 256, AGSIM_MAXMSG = 8192, AGSIM_MAXBRK = 128 };

enum AgsimPolicy { POL_SEQ=0, POL_RANDOM=1, POL_PCT=2, POL_STARVE=3, POL_BURST=4, POL_REVERSE=5, POL_RR=6, POL_REPLAY=7 };

enum AgsimFaultKind {
    FK_NONE=0,
    FK_ALLOC,        // operator new call number <at> (counted from arming) throws bad_alloc
    FK_SIGNAL,       // SIGINT delivered at global step <at>
    FK_IO_WERR,      // write op number <at> returns error <arg>  (sticky if arg2)
    FK_IO_WSHORT,    // write op number <at> writes only <arg> bytes/permille
    FK_IO_WEINTR,    // write op number <at> returns EINTR
    FK_IO_SPACE,     // disk has room for <at> more bytes, then ENOSPC
    FK_IO_OPENERR,   // open op number <at> fails with <arg>
    FK_IO_CLOSEERR,  // close op number <at> fails with <arg>
    FK_IO_RERR,      // read op number <at> fails with <arg>
    FK_IO_RSHORT,    // all reads from op <at> on return at most <arg> bytes
    FK_IO_REINTR,    // read op number <at> returns EINTR
    FK_IO_CRASH,     // process is killed at I/O op number <at> after writing arg permille of it
    FK_CLOCKJUMP,    // virtual clock jumps by <arg> ms at step <at>
    FK_SEEKERR,      // lseek op number <at> fails
    FK_NKINDS
};

typedef struct { int32_t kind; int32_t arg; int64_t at; int32_t arg2; int32_t fired; } AgsimFault;
typedef struct { uint64_t step; int16_t task, next; int16_t kind; int16_t pad; } AgsimDec;   // kind 0=preempt 1=forced
typedef struct { uint64_t pc1, pc2; uint64_t addr; int32_t w1, w2, t1, t2, size; int32_t count; uint64_t cs1[6]; } AgsimRace;

typedef struct {
    uint64_t seed;
    int32_t policy;
    int32_t nthreads;       // default team size
    int32_t nested;         // max active levels
    int32_t q;              // mean preemption quantum (steps)
    int32_t psync;          // permille probability of a switch at a synchronisation point
    int32_t d;              // PCT depth
    int64_t horizon;        // PCT: estimated number of steps
    int32_t victim;         // STARVE
    int32_t racedetect;     // 0 off, 1 on
    int32_t dynteam;        // permille probability that a team is smaller than requested (OMP_DYNAMIC)
    int64_t maxsteps;       // step limit -> hang
    int64_t nsperstep;      // virtual clock rate
    int32_t nfaults; AgsimFault faults[AGSIM_MAXFAULT];
    int32_t ndec; AgsimDec* dec;        // replay decisions
    int32_t nbrk; uint64_t brk[AGSIM_MAXBRK]; int32_t pbrk;  // race-directed preemption points
} AgsimCfg;

enum AgsimStatus { ST_NONE=0, ST_OK=1, ST_DEADLOCK=2, ST_HANG=3, ST_CRASH=4, ST_TERMINATE=5, ST_HEAP=6, ST_KILLED=7, ST_FAIL=8, ST_INTERNAL=9 };

// result block, lives in shared memory so that it survives a crash of the run
typedef struct {
    volatile int32_t status;
    int32_t sig;
    uint64_t steps, switches, preempts, parallels, maxteam, teams_shrunk, syncops, hash, statehash;
    uint64_t allocs, allocfail, live0, live1;
    uint64_t ioops, iofired[FK_NKINDS], nwrite, nread, nopen, nclose, bytesw, bytesr;
    uint64_t sigdelivered, sigstep, sigafter;   // sigafter: steps executed after the delivery
    uint64_t vclock_ns, parsteps;
    int32_t nraces, ndec, decoverflow, npad;
    AgsimRace races[AGSIM_MAXRACE];
    AgsimDec dec[AGSIM_MAXDEC];
    char msg[AGSIM_MAXMSG];
} AgsimRes;

void agsim_begin(const AgsimCfg* cfg, AgsimRes* res);
void agsim_end(void);
int  agsim_active(void);
void agsim_spawn(int n, void (*fn)(void*), void** args);   // run n host threads to completion
void agsim_yield(void);
void agsim_fail(const char* msg);        // record an oracle failure (does not stop the run)
void agsim_arm_alloc(int on);            // start/stop counting allocations for FK_ALLOC
void agsim_arm_signal(int on);           // delivery of FK_SIGNAL is relative to this point
void agsim_arm_io(int on, const char* prefix);  // count only operations on files below prefix
uint64_t agsim_held(void);               // bytes of freed C++ allocations kept in quarantine
uint64_t agsim_live(void);               // number of live C++ allocations
uint64_t agsim_steps(void);
void agsim_note(const char* fmt, ...);   // append to the run's event hash
void agsim_set_maxthreads(int n);
void agsim_guard(int on);                // suspend preemption (harness code)
int  agsim_task(void);
void agsim_install_crash_handlers(AgsimRes* res);
void agsim_gil_lock(void);
void agsim_gil_unlock(void);
#ifdef __cplusplus
}
#endif
