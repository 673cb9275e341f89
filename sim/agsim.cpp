// Deterministic simulation runtime (see agsim.h). Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "agsim.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <execinfo.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x),1)
#define unlikely(x) __builtin_expect(!!(x),0)

namespace {

const int MAXT = 40;          // simulated tasks
const int MAXSTK = 64;
const int64_t BIG = (int64_t)1 << 60;

//---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27)) * 0x94d049bb133111ebull; return z ^ (z>>31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t geom(int64_t mean) {  // geometric-like with the given mean, integer arithmetic only
        if(mean<=1) return 1;
        uint64_t u = next();
        // sum of two uniforms mixed with an occasional long tail
        int64_t x = 1 + (int64_t)(u % (uint64_t)(2*mean-1));
        if((u>>60)==0) x *= 6; else if((u>>60)==1) x = 1 + x/16;
        return x;
    }
};

//---------------------------------------------------------------- tasks
enum TState { T_UNUSED=0, T_IDLE, T_RUN, T_BLOCK };
struct Team;
struct VC { uint32_t c[MAXT]; };

struct Task {
    int id; volatile int go; TState st; pthread_t th; bool created;
    uint64_t local;
    VC vc;
    Team* team; int tid, level, nthreads, active;
    unsigned wsseq; int64_t ordchunk;
    void (*fn)(void*); void* arg;
    bool host;
    uint64_t prio;
    int guard;
    uintptr_t stklo, stkhi;
    uintptr_t cs[MAXSTK]; int csd;
    void* waiton;
    const char* waitwhat;
    uint64_t gil_ts;
    int gildepth;
    bool parked;      // waits at a racing access for another task to arrive at one
};

Task tasks[MAXT];
int ntasks = 0;
Task* cur = NULL;

struct WS {
    bool used; unsigned seq; bool init;
    int64_t start, end, incr, chunk, next; bool up;
    int nleft;
    int64_t ordcur, ordnext;
    int singleTaken; void* copypriv;
};
const int NWS = 64;

struct Team {
    int n, ndone; Task* members[MAXT]; Task* master; Team* parent;
    void (*fn)(void*); void* data;
    int barcount; uint64_t bargen; VC barvc;
    WS ws[NWS];
    VC endvc; bool used;
};
Team teams[MAXT];

//---------------------------------------------------------------- global simulation state
bool on = false;               // a run is active
AgsimCfg cfg; AgsimRes* res = NULL; AgsimRes dummyres;
Rng rsched;
int64_t budget = BIG, b0 = BIG;
uint64_t gsteps = 0;
uint64_t nextpre = 0;
int g_flags = 0;               // 1: race detection active in this team phase, 2: breakpoints
int defthreads = 8;
int inpar = 0;                 // number of live teams with >1 member or host threads
uint32_t racegen = 1;
uint64_t pctpoints[16]; int npct=0, pctcur=0; uint64_t gpar=0, parbase=0;   // steps made inside parallel regions
int burstleft=0;
uint64_t vclock_extra=0;
bool sigarmed=false; uint64_t sigbase=0; uint64_t nextevent=~0ull;
int allocarmed=0; uint64_t alloccount=0;   // armed: 1 all allocations, 2 those made inside parallel regions
int64_t livecount=0;
uint64_t hashstate=0xcbf29ce484222325ull;
// replay
struct RepDec { uint64_t step; int next; int kind; };
RepDec* rep[MAXT]; int nrep[MAXT], irep[MAXT];
uint64_t brkset[256];

inline void hmix(uint64_t v) { hashstate = (hashstate ^ v) * 0x100000001b3ull; hashstate ^= hashstate >> 29; }

int futex(volatile int* addr, int op, int val) { return syscall(SYS_futex, addr, op, val, NULL, NULL, 0); }

void die(int status, const char* fmt, ...) __attribute__((format(printf,2,3),noreturn));
void quardrain();
void appendmsg(const char* fmt, ...) __attribute__((format(printf,1,2)));
void appendmsg(const char* fmt, ...)
{
    AgsimRes* r = res ? res : &dummyres;
    size_t l = strnlen(r->msg, AGSIM_MAXMSG-1);
    va_list ap; va_start(ap, fmt);
    vsnprintf(r->msg+l, AGSIM_MAXMSG-l, fmt, ap);
    va_end(ap);
}
void flushacct();
void finalize()
{
    if(!res) return;
    if(cur) flushacct();
    res->steps = gsteps; res->hash = hashstate; res->vclock_ns = gsteps*(uint64_t)cfg.nsperstep + vclock_extra;
    res->allocs = alloccount; res->live1 = livecount; res->parsteps = gpar + (inpar ? gsteps-parbase : 0);
}
void die(int status, const char* fmt, ...)
{
    AgsimRes* r = res ? res : &dummyres;
    size_t l = strnlen(r->msg, AGSIM_MAXMSG-1);
    va_list ap; va_start(ap, fmt);
    vsnprintf(r->msg+l, AGSIM_MAXMSG-l, fmt, ap);
    va_end(ap);
    if(!res) { ssize_t x = syscall(SYS_write, 2, r->msg, strlen(r->msg)); (void)x; }
    finalize();
    if(r->status==ST_NONE || r->status==ST_FAIL || r->status==ST_OK) r->status = status;
    syscall(SYS_exit_group, 70);
    __builtin_unreachable();
}

void flushacct()
{
    int64_t used = b0 - budget;
    cur->local += used; gsteps += used;
    budget = 0; b0 = 0;
}

//---------------------------------------------------------------- scheduling
int runnable(Task** out, Task* except)
{
    int n=0;
    for(int i=0; i<ntasks; i++) if(tasks[i].st==T_RUN && &tasks[i]!=except) out[n++] = &tasks[i];
    return n;
}

void recomputeEvent();

bool sigdefer = false;    // a signal awaits the main thread
void setbudget()
{
    if(sigdefer && cur->id==0) { sigdefer=false; recomputeEvent(); }
    // number of ticks until slow() has to be entered again
    uint64_t lim = ~0ull;   // in ticks
    if(!on || cur->guard) { b0 = budget = BIG; return; }
    if(nextevent > gsteps) { if(nextevent-gsteps < lim) lim = nextevent-gsteps; } else lim = 1;
    if(cfg.policy==POL_REPLAY) {
        int t = cur->id;
        while(irep[t]<nrep[t] && rep[t][irep[t]].step < cur->local) irep[t]++;
        // find the next preemptive decision
        int k = irep[t];
        while(k<nrep[t] && (rep[t][k].kind!=0 || rep[t][k].step <= cur->local)) k++;
        if(k<nrep[t] && rep[t][k].step - cur->local < lim) lim = rep[t][k].step - cur->local;
    } else if(ntasks>1) {
        if(nextpre > gsteps) { if(nextpre-gsteps < lim) lim = nextpre-gsteps; } else lim = 1;
    }
    if(lim > (uint64_t)BIG) lim = BIG;
    b0 = budget = (int64_t)lim - 1;
}

void record(Task* from, Task* to, int kind)
{
    hmix(from->local); hmix(((uint64_t)from->id<<16) | (to->id<<4) | kind);
    res->switches++;
    if(kind==0) res->preempts++;
    if(res->ndec < AGSIM_MAXDEC) {
        AgsimDec& d = res->dec[res->ndec++];
        d.step = from->local; d.task = from->id; d.next = to->id; d.kind = kind; d.pad = 0;
    } else res->decoverflow = 1;
}

void rawswitch(Task* t)
{
    Task* p = cur;
    cur = t; t->parked = false;
    setbudget();
    if(p==t) return;
    t->go = 1;
    futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
    while(!p->go) futex(&p->go, FUTEX_WAIT_PRIVATE, 0);
    p->go = 0;
    __sync_synchronize();
}

Task* choose(Task** r, int n, bool forced)
{
    // forced: the current task cannot continue
    switch(cfg.policy) {
    case POL_SEQ: return r[0];
    case POL_REVERSE: return r[n-1];
    case POL_PCT: { Task* b=r[0]; for(int i=1;i<n;i++) if(r[i]->prio > b->prio) b=r[i]; return b; }
    case POL_STARVE: {
        Task* o[MAXT]; int m=0;
        for(int i=0;i<n;i++) if(r[i]->tid != cfg.victim || r[i]->level==0) o[m++]=r[i];
        if(m>0) return o[rsched.below(m)];
        return r[0]; }
    case POL_RR: {
        for(int i=0;i<n;i++) if(r[i]->id > cur->id) return r[i];
        return r[0]; }
    default: return r[rsched.below(n)];
    }
}

void planNext()
{
    switch(cfg.policy) {
    case POL_RANDOM: case POL_STARVE: nextpre = gsteps + rsched.geom(cfg.q); break;
    case POL_RR: nextpre = gsteps + cfg.q; break;
    case POL_BURST:
        if(burstleft>0) { burstleft--; nextpre = gsteps + 1 + rsched.below(12); }
        else { burstleft = 3 + rsched.below(40); nextpre = gsteps + rsched.geom((int64_t)cfg.q*20); }
        break;
    case POL_PCT:
        { uint64_t p = gpar + (inpar ? gsteps-parbase : 0);
        while(pctcur<npct && pctpoints[pctcur]<=p) pctcur++;
        nextpre = pctcur<npct ? gsteps + (pctpoints[pctcur]-p) : ~0ull; } break;
    default: nextpre = ~0ull;
    }
}

void deliverSignals();

// remove the parked tasks from the list, unless there are no others
int unparked(Task** r, int n, bool must)
{
    int m=0;
    for(int i=0;i<n;i++) if(!r[i]->parked) { Task* t=r[i]; r[i]=r[m]; r[m]=t; m++; }
    if(m>0 || !must || n==0) return m;
    if(n>1) { int k=rsched.below(n); Task* t=r[0]; r[0]=r[k]; r[k]=t; }
    return 1;
}

// called at a tick when the budget is exhausted, or at synchronisation points (sync=true)
void slow(bool sync, bool force)
{
    flushacct();
    if(!on || cur->guard) { setbudget(); return; }
    if(gsteps >= nextevent) deliverSignals();
    if((int64_t)gsteps >= cfg.maxsteps) {
        appendmsg("no progress: step limit %lld reached; tasks:", (long long)cfg.maxsteps);
        for(int i=0;i<ntasks;i++) if(tasks[i].st!=T_UNUSED && tasks[i].st!=T_IDLE)
            appendmsg(" [%d %s %s local=%llu]", i, tasks[i].st==T_RUN?"runnable":"blocked",
                tasks[i].waitwhat?tasks[i].waitwhat:"", (unsigned long long)tasks[i].local);
        die(ST_HANG, "\n");
    }
    if(cfg.policy==POL_REPLAY) {
        int t = cur->id;
        while(irep[t]<nrep[t] && rep[t][irep[t]].step < cur->local) irep[t]++;
        while(irep[t]<nrep[t] && rep[t][irep[t]].step == cur->local) {
            RepDec& d = rep[t][irep[t]++];
            if(d.kind==0 && d.next<ntasks && tasks[d.next].st==T_RUN && d.next!=t) {
                record(cur, &tasks[d.next], 0);
                rawswitch(&tasks[d.next]);
                return;
            }
        }
        setbudget();
        return;
    }
    bool want = force;
    if(gsteps >= nextpre) {
        want = true;
        if(cfg.policy==POL_PCT) {  // priority change point
            cur->prio = (uint64_t)(npct - pctcur);
        }
        planNext();
    }
    if(sync && !want && cfg.psync>0 && (int)rsched.below(1000) < cfg.psync) want = true;
    if(want && cfg.policy!=POL_SEQ && cfg.policy!=POL_REVERSE) {
        Task* r[MAXT];
        if(cfg.policy==POL_PCT) {
            int n = runnable(r, NULL);
            if(cfg.nbrk>0) n = unparked(r, n, true);
            Task* b = choose(r, n, false);
            if(b==cur) cur->parked = false;
            if(b!=cur) { record(cur, b, 0); rawswitch(b); return; }
        } else {
            int n = runnable(r, cur);
            if(cfg.nbrk>0) n = unparked(r, n, cur->parked);
            if(n==0) cur->parked = false;
            if(n>0) { Task* b = choose(r, n, false);
                if(!(cfg.policy==POL_STARVE && b->tid==cfg.victim && b->level>0)) { record(cur, b, 0); rawswitch(b); return; } }
        }
    }
    setbudget();
}

inline void tick() { if(unlikely(--budget < 0)) slow(false, false); }
void ticksync() { if(!on) return; budget--; res->syncops++; slow(true, false); }

// the current task is blocked or finished: pick somebody else
void reschedule()
{
    budget--; flushacct();
    Task* r[MAXT];
    if(gsteps >= nextevent && on) deliverSignals();
    int n = runnable(r, NULL);
    if(n==0) {
        appendmsg("deadlock: no runnable task;");
        for(int i=0;i<ntasks;i++) if(tasks[i].st==T_BLOCK)
            appendmsg(" [task %d waits for %s]", i, tasks[i].waitwhat?tasks[i].waitwhat:"?");
        die(ST_DEADLOCK, "\n");
    }
    if((int64_t)gsteps >= cfg.maxsteps) die(ST_HANG, "no progress: step limit reached while blocking\n");
    Task* b = NULL;
    if(cfg.policy==POL_REPLAY) {
        int t = cur->id;
        while(irep[t]<nrep[t] && rep[t][irep[t]].step < cur->local) irep[t]++;
        if(irep[t]<nrep[t] && rep[t][irep[t]].step == cur->local && rep[t][irep[t]].kind==1) {
            int k = rep[t][irep[t]++].next;
            if(k<ntasks && tasks[k].st==T_RUN) b = &tasks[k];
        }
        if(!b) b = r[0];
    } else if(cfg.nbrk>0) { int m = unparked(r, n, true); b = choose(r, m, true); }
    else b = choose(r, n, true);
    if(n>1 || b!=cur) record(cur, b, 1);
    rawswitch(b);
}

void block(void* obj, const char* what)
{
    cur->st = T_BLOCK; cur->waiton = obj; cur->waitwhat = what;
    reschedule();
    cur->waitwhat = NULL;
}
void wakeall(void* obj) { for(int i=0;i<ntasks;i++) if(tasks[i].st==T_BLOCK && tasks[i].waiton==obj) { tasks[i].st=T_RUN; tasks[i].waiton=NULL; } }

//---------------------------------------------------------------- vector clocks
inline void vjoin(VC& a, const VC& b) { for(int i=0;i<MAXT;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }
inline void vinc(Task* t) { t->vc.c[t->id]++; }

struct SyncVar { uintptr_t key; VC vc; uint32_t gen; };
const int NSYNC = 4096;
SyncVar* syncvars = NULL;
SyncVar dummySync;
SyncVar& syncvar(uintptr_t key)
{
    unsigned h = (unsigned)((key>>2)*0x9E3779B1u) & (NSYNC-1);
    for(int i=0;i<64;i++) {
        SyncVar& s = syncvars[(h+i)&(NSYNC-1)];
        if(s.key==key && s.gen==racegen) return s;
        if(s.gen!=racegen) { s.key=key; s.gen=racegen; memset(&s.vc,0,sizeof(VC)); return s; }
    }
    return dummySync;
}
void hb_acquire(uintptr_t k) { if(inpar) vjoin(cur->vc, syncvar(k).vc); }
void hb_release(uintptr_t k) { if(inpar) { vjoin(syncvar(k).vc, cur->vc); vinc(cur); } }

//---------------------------------------------------------------- race detector
struct Cell {
    uintptr_t key; uint32_t gen; uint8_t wt, wm, ra; uint32_t wc; uint64_t wpc;
    struct { uint32_t c; uint8_t t, m; uint64_t pc; } r[3];
};
const unsigned NCELL = 1<<20;
Cell* cells = NULL;
uint64_t cellsfull=0;

Cell* cell(uintptr_t key)
{
    unsigned h = (unsigned)((key * 0x9E3779B97F4A7C15ull) >> 44) & (NCELL-1);
    for(int i=0;i<32;i++) {
        Cell* c = &cells[(h+i)&(NCELL-1)];
        if(c->gen==racegen) { if(c->key==key) return c; }
        else { memset(c,0,sizeof(Cell)); c->gen=racegen; c->key=key; return c; }
    }
    cellsfull++;
    return NULL;
}

void reportRace(uint64_t pc1, int w1, int t1, uint64_t pc2, int w2, int t2, uintptr_t addr, int size)
{
    if(!res) return;
    for(int i=0;i<res->nraces;i++) {
        AgsimRace& r = res->races[i];
        if((r.pc1==pc1 && r.pc2==pc2) || (r.pc1==pc2 && r.pc2==pc1)) { r.count++; return; }
    }
    if(res->nraces>=AGSIM_MAXRACE) return;
    AgsimRace& r = res->races[res->nraces++];
    r.pc1=pc1; r.pc2=pc2; r.w1=w1; r.w2=w2; r.t1=t1; r.t2=t2; r.addr=addr; r.size=size; r.count=1;
    for(int i=0;i<6;i++) { int d=cur->csd-1-i; r.cs1[i] = d>=0 && d<MAXSTK ? cur->cs[d] : 0; }
}

void granule(uintptr_t g, uint8_t mask, bool w, uint64_t pc, int size)
{
    Cell* c = cell(g);
    if(!c) return;
    int me = cur->id; uint32_t myc = cur->vc.c[me];
    const VC& vc = cur->vc;
    if(c->wm & mask) {
        if(c->wt!=me && c->wc > vc.c[c->wt])
            reportRace(pc, w, me, c->wpc, 1, c->wt, g, size);
    }
    if(w) {
        for(int i=0;i<3;i++) if((c->r[i].m & mask) && c->r[i].t!=me && c->r[i].c > vc.c[c->r[i].t])
            reportRace(pc, 1, me, c->r[i].pc, 0, c->r[i].t, g, size);
        if(c->wt==me && c->wc==myc) c->wm |= mask; else { c->wt=me; c->wc=myc; c->wm=mask; }
        c->wpc=pc;
        if(mask==0xff) for(int i=0;i<3;i++) c->r[i].m=0;
    } else {
        int slot=-1;
        for(int i=0;i<3;i++) {
            if(c->r[i].m && c->r[i].t==me) { if(c->r[i].c==myc) { c->r[i].m|=mask; return; } slot=i; c->r[i].m=0; break; }
            if(slot<0 && (!c->r[i].m || c->r[i].c <= vc.c[c->r[i].t])) slot=i;
        }
        if(slot<0) slot = (c->ra++)%3;
        c->r[slot].t=me; c->r[slot].c=myc; c->r[slot].m=mask; c->r[slot].pc=pc;
    }
}

void access_range(uintptr_t a, size_t n, bool w, uint64_t pc)
{
    if(n==0) return;
    if(cur->host==false && cur->id!=0 && a>=cur->stklo && a<cur->stkhi) return;  // worker's own stack
    if(n > (1u<<20)) n = 1u<<20;
    uintptr_t e = a+n, g = a & ~(uintptr_t)7;
    for(; g<e; g+=8) {
        uint8_t m=0xff;
        if(g<a) m &= (uint8_t)(0xff << (a-g));
        if(g+8>e) m &= (uint8_t)(0xff >> (g+8-e));
        granule(g, m, w, pc, (int)(n>64?64:n));
    }
}

inline unsigned brkh(uint64_t pc) { return (unsigned)((pc*0x9E3779B97F4A7C15ull)>>56); }

void access_slow(void* p, size_t n, bool w, void* pcv)
{
    if(!on || cur->guard) return;
    uint64_t pc = (uint64_t)pcv;
    if((g_flags & 2) && cfg.policy!=POL_REPLAY) {
        unsigned h = brkh(pc);
        for(int i=0;i<8 && brkset[(h+i)&255];i++) if(brkset[(h+i)&255]==pc) {
            for(int k=0;k<ntasks;k++) if(tasks[k].parked && &tasks[k]!=cur && rsched.below(6)==0) tasks[k].parked = false;
            if((int)rsched.below(1000) < cfg.pbrk) { cur->parked = rsched.below(4)!=0; slow(false, true); }
            break;
        }
    } else if(g_flags & 2) {  // replay of such a decision (recorded without advancing the step counter)
        int t = cur->id; uint64_t l = cur->local + (uint64_t)(b0-budget);
        while(irep[t]<nrep[t] && rep[t][irep[t]].step < l) irep[t]++;
        if(irep[t]<nrep[t] && rep[t][irep[t]].step == l && rep[t][irep[t]].kind==0) slow(false, true);
    }
    if(g_flags & 1) access_range((uintptr_t)p, n, w, pc);
}

void updflags()
{
    g_flags = 0;
    if(on && inpar>0) {
        if(cfg.racedetect) g_flags |= 1;
        if(cfg.nbrk>0) g_flags |= 2;
    }
}

//---------------------------------------------------------------- events: signals, clock jumps
void recomputeEvent()
{
    nextevent = (uint64_t)cfg.maxsteps;
    for(int i=0;i<cfg.nfaults;i++) {
        AgsimFault& f = cfg.faults[i];
        if(f.fired) continue;
        if(f.kind==FK_SIGNAL && sigarmed && !sigdefer) { uint64_t s = sigbase + (uint64_t)f.at; if(s<nextevent) nextevent=s; }
        if(f.kind==FK_CLOCKJUMP && (uint64_t)f.at<nextevent) nextevent = (uint64_t)f.at;
    }
}
// the kernel delivers a signal sent to the process to its main thread; it matters if the handler belongs to the
// Python interpreter, which checks the identity of the thread, but not if it is the handler of the library
bool interpreterHandler()
{
    struct sigaction sa; Dl_info di;
    if(sigaction(SIGINT, NULL, &sa)!=0 || (void*)sa.sa_handler==(void*)SIG_DFL || (void*)sa.sa_handler==(void*)SIG_IGN) return false;
    return dladdr((void*)sa.sa_handler, &di) && di.dli_fname && !strstr(di.dli_fname, "agama");
}
void deliverSignals()
{
    for(int i=0;i<cfg.nfaults;i++) {
        AgsimFault& f = cfg.faults[i];
        if(f.fired) continue;
        if(f.kind==FK_SIGNAL && sigarmed && gsteps >= sigbase+(uint64_t)f.at) {
            if(sigdefer) continue;
            if(cur->id!=0 && interpreterHandler()) { sigdefer=true; continue; }
            f.fired=1; res->iofired[FK_SIGNAL]++; res->sigdelivered++; res->sigstep = gsteps;
            hmix(0x5151+gsteps);
            cur->guard++;
            b0=budget=BIG;
            syscall(SYS_tgkill, (pid_t)syscall(SYS_getpid), (pid_t)syscall(SYS_gettid), SIGINT);
            flushacct(); gsteps = res->sigstep;   // steps executed by the handler are not counted
            cur->guard--;
        }
        if(f.kind==FK_CLOCKJUMP && gsteps >= (uint64_t)f.at) {
            f.fired=1; res->iofired[FK_CLOCKJUMP]++;
            vclock_extra += (uint64_t)((int64_t)f.arg*1000000ll);
        }
    }
    recomputeEvent();
}

//---------------------------------------------------------------- teams
void* workermain(void* p)
{
    Task* me = (Task*)p;
    pthread_attr_t at;
    if(pthread_getattr_np(pthread_self(), &at)==0) {
        void* a; size_t s; pthread_attr_getstack(&at, &a, &s); pthread_attr_destroy(&at);
        me->stklo=(uintptr_t)a; me->stkhi=me->stklo+s;
    }
    void* volatile warm = malloc(40); free(warm);   // set up the thread cache now
    me->created = true;
    futex((volatile int*)&me->created, FUTEX_WAKE_PRIVATE, 1);
    while(!me->go) futex(&me->go, FUTEX_WAIT_PRIVATE, 0);
    me->go = 0;
    for(;;) {
        me->fn(me->arg);
        // finished: notify the team
        Team* t = me->team;
        me->csd=0;
        flushacct();
        vjoin(t->endvc, me->vc);
        t->ndone++;
        if(t->ndone==t->n) wakeall(t);
        me->st = T_IDLE; me->team=NULL; me->waitwhat=NULL;
        b0=budget=0;
        reschedule();
    }
    return NULL;
}

Task* getworker()
{
    for(int i=1;i<ntasks;i++) if(tasks[i].st==T_IDLE) return &tasks[i];
    if(ntasks>=MAXT) die(ST_INTERNAL, "too many simulated tasks\n");
    Task* t = &tasks[ntasks];
    memset(t, 0, sizeof(*t));
    t->id = ntasks; t->st = T_IDLE;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2<<20);
    t->vc.c[t->id]=1;
    if(pthread_create(&t->th, &at, workermain, t)) die(ST_INTERNAL, "pthread_create failed\n");
    while(!*(volatile bool*)&t->created) sched_yield();
    pthread_attr_destroy(&at);
    ntasks++;
    return t;
}

Team* newteam()
{
    for(int i=0;i<MAXT;i++) if(!teams[i].used) { memset(&teams[i],0,sizeof(Team)); teams[i].used=true; return &teams[i]; }
    die(ST_INTERNAL, "too many teams\n");
}

void startworker(Task* w, Team* t, int tid, Task* parent, void (*fn)(void*), void* arg, bool host)
{
    w->team=t; w->tid = host?0:tid; w->level = host?0:parent->level; w->active = host?0:parent->active;
    w->nthreads = host?cfg.nthreads:parent->nthreads;
    w->wsseq=0; w->fn=fn; w->arg=arg; w->host=host; w->guard=0; w->csd=0;
    vjoin(w->vc, parent->vc); vinc(w);
    w->prio = 1000 + rsched.below(1u<<30);
    w->st=T_RUN;
}

void runteam(Team* t, int n, void (*fn)(void*), void* data, bool host, void** args)
{
    Task* me = cur;
    t->n = host? n+1 : n; t->fn=fn; t->data=data; t->master=me; t->parent=me->team;
    if(!host) t->members[0]=me;
    flushacct();
    if(inpar==0) { racegen++; parbase=gsteps; }
    inpar++;
    updflags();
    if(on) { res->parallels++; if((uint64_t)t->n>res->maxteam) res->maxteam=t->n; }
    for(int i=host?0:1; i<n; i++) {
        Task* w = getworker();
        startworker(w, t, i, me, fn, host?args[i]:data, host);
        t->members[host?i+1:i]=w;
    }
    vinc(me);
    setbudget();
    if(on && inpar==1) planNext();
    if(on) { budget--; slow(true, false); }
}

void endteam(Team* t)
{
    Task* me = t->master;
    flushacct(); setbudget();
    t->ndone++;
    while(t->ndone < t->n) block(t, "end of a parallel region");
    flushacct();
    vjoin(me->vc, t->endvc); vinc(me);
    t->used=false;
    inpar--;
    if(inpar==0) gpar += gsteps-parbase;
    updflags();
    if(inpar==0 && on && cfg.policy!=POL_REPLAY) nextpre = ~0ull;
    setbudget();
}

WS* getws(Team* t, unsigned seq, bool* fresh)
{
    WS* f=NULL;
    for(int i=0;i<NWS;i++) {
        if(t->ws[i].used && t->ws[i].seq==seq) { *fresh=false; return &t->ws[i]; }
        if(!t->ws[i].used && !f) f=&t->ws[i];
    }
    if(!f) die(ST_INTERNAL, "too many outstanding work shares\n");
    memset(f,0,sizeof(*f));
    f->used=true; f->seq=seq; f->nleft=t->n; *fresh=true;
    return f;
}
// worksharing state for a thread outside any team
WS solows[MAXT][16]; int solodepth[MAXT];

Team soloteam[MAXT];   // "team" of one for orphaned constructs
Team* myteam()
{
    Team* t = cur->team;
    if(t && !cur->host) return t;
    Team* s = &soloteam[cur->id];
    if(s->n!=1) { memset(s,0,sizeof(*s)); s->n=1; s->master=cur; s->members[0]=cur; }
    return s;
}

WS* curws() { bool f; return getws(myteam(), cur->wsseq, &f); }

bool loopstart(long start, long end, long incr, long chunk)
{
    Team* t = myteam(); bool fresh;
    cur->wsseq++;
    WS* w = getws(t, cur->wsseq, &fresh);
    if(fresh) { w->start=w->next=start; w->incr=incr; w->chunk=chunk<1?1:chunk;
        w->end = incr>0 ? (start>end?start:end) : (start<end?start:end); w->init=true; }
    return true;
}
bool loopnext(long* is, long* ie)
{
    ticksync();
    WS* w = curws();
    if(w->incr>0 ? w->next>=w->end : w->next<=w->end) return false;
    int64_t s = w->next, e = s + w->incr*w->chunk;
    if(w->incr>0 ? e>w->end : e<w->end) e=w->end;
    w->next = e; *is=s; *ie=e;
    cur->ordchunk = w->ordnext++;
    if(on) { hmix(0xC0000 + cur->id); hmix(s); }
    return true;
}
bool guidednext(long* is, long* ie)
{
    ticksync();
    WS* w = curws();
    if(w->incr>0 ? w->next>=w->end : w->next<=w->end) return false;
    int64_t n = (w->end - w->next + w->incr - (w->incr>0?1:-1))/w->incr;
    int nt = myteam()->n;
    int64_t q = (n+nt-1)/nt; if(q<w->chunk) q=w->chunk; if(q>n) q=n;
    int64_t s=w->next, e=s+q*w->incr;
    if(w->incr>0 ? e>w->end : e<w->end) e=w->end;
    w->next=e; *is=s; *ie=e; cur->ordchunk=w->ordnext++;
    return true;
}
// static schedule through the runtime: chunk number k of this thread
struct StaticPos { int64_t trip; } spos[MAXT];
bool staticnext(long* is, long* ie)
{
    ticksync();
    WS* w = curws(); int nt=myteam()->n, id = cur->tid;
    int64_t n = (w->end - w->start + w->incr - (w->incr>0?1:-1))/w->incr; if(n<0) n=0;
    int64_t k = spos[cur->id].trip;
    int64_t a,b;
    if(w->singleTaken==0) { // chunk==0: one contiguous piece per thread
        if(k>0) return false;
        int64_t q=n/nt, r=n%nt;
        if(id<r) { q++; r=0; }
        a=q*id+r; b=a+q;
        if(a>=b) return false;
        cur->ordchunk = id;
    } else {
        a=(k*nt+id)*w->chunk; b=a+w->chunk; if(b>n) b=n;
        if(a>=n) return false;
        cur->ordchunk = k*nt+id;
    }
    spos[cur->id].trip++;
    *is = w->start+a*w->incr; *ie = w->start+b*w->incr;
    return true;
}
void loopleave()
{
    Team* t=myteam(); bool f; WS* w=getws(t, cur->wsseq, &f);
    if(--w->nleft==0) w->used=false;
}
void barrier()
{
    Team* t = myteam();
    if(t->n<=1) return;
    ticksync();
    flushacct(); setbudget();
    vjoin(t->barvc, cur->vc);
    uint64_t g=t->bargen;
    if(++t->barcount==t->n) { t->barcount=0; t->bargen++; wakeall(&t->barcount); }
    else while(t->bargen==g) block(&t->barcount, "barrier");
    vjoin(cur->vc, t->barvc); vinc(cur);
}
void ordwait(WS* w) { while(w->ordcur!=cur->ordchunk) block(&w->ordcur, "ordered section"); }
void ordpass(WS* w) { hb_release((uintptr_t)&w->ordcur); w->ordcur++; wakeall(&w->ordcur); }

//---------------------------------------------------------------- locks
struct SimLock { void* key; int owner; int depth; };
const int NLOCK=256;
SimLock locks[NLOCK];
SimLock& lockof(void* key)
{
    unsigned h=(unsigned)(((uintptr_t)key>>3)*0x9E3779B1u)>>24;
    for(int i=0;i<NLOCK;i++) { SimLock& l=locks[(h+i)%NLOCK]; if(l.key==key) return l; if(!l.key) { l.key=key; l.owner=-1; return l; } }
    die(ST_INTERNAL,"too many locks\n");
}
void lock(void* key, const char* what, bool recursive=false)
{
    if(!on && inpar==0) return;
    ticksync();
    SimLock& l=lockof(key);
    if(recursive && l.owner==cur->id) { l.depth++; return; }
    while(l.owner>=0) block(key, what);
    l.owner=cur->id; l.depth=1;
    if(on) { hmix(0xAC0 + cur->id); }
    hb_acquire((uintptr_t)key);
}
void unlock(void* key, bool recursive=false)
{
    if(!on && inpar==0) return;
    SimLock& l=lockof(key);
    if(recursive && --l.depth>0) return;
    hb_release((uintptr_t)key);
    l.owner=-1;
    wakeall(key);
    ticksync();
}
char critKey, atomicKey;

//---------------------------------------------------------------- initialisation
typedef int (*fn_fclose)(FILE*); typedef FILE* (*fn_fopen)(const char*, const char*);
fn_fclose real_fclose=NULL; fn_fopen real_fopen=NULL, real_fopen64=NULL;
typedef sighandler_t (*fn_signal)(int, sighandler_t);

bool inited=false;
void init()
{
    if(inited) return;
    inited=true;
    memset(tasks,0,sizeof tasks);
    cur=&tasks[0]; cur->id=0; cur->st=T_RUN; ntasks=1; cur->nthreads=defthreads; cur->vc.c[0]=1;
    const char* e=getenv("AGSIM_MAXTHREADS"); if(e) { defthreads=atoi(e); if(defthreads<1) defthreads=1; if(defthreads>16) defthreads=16; }
    cur->nthreads=defthreads;
    cells=(Cell*)mmap(NULL, sizeof(Cell)*(size_t)NCELL, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    syncvars=(SyncVar*)mmap(NULL, sizeof(SyncVar)*(size_t)NSYNC, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    real_fclose=(fn_fclose)dlsym(RTLD_NEXT,"fclose");
    real_fopen=(fn_fopen)dlsym(RTLD_NEXT,"fopen"); real_fopen64=(fn_fopen)dlsym(RTLD_NEXT,"fopen64");
}
__attribute__((constructor(101))) void ctor() { init(); }

} // namespace

//================================================================ control interface
static void sim_terminate()
{
    const char* what="(no exception)"; char buf[512];
    std::type_info* ti = abi::__cxa_current_exception_type();
    if(ti) {
        try { throw; }
        catch(std::exception& e) { snprintf(buf,sizeof buf,"uncaught %s: %s", ti->name(), e.what()); what=buf; }
        catch(...) { snprintf(buf,sizeof buf,"uncaught %s", ti->name()); what=buf; }
    }
    void* bt[24]; int nb=backtrace(bt,24), n=0; char cs[500]; cs[0]=0;
    for(int i=2;i<nb && n<(int)sizeof(cs)-20;i++) n+=snprintf(cs+n,sizeof(cs)-n," %lx",(unsigned long)bt[i]);
    die(ST_TERMINATE, "std::terminate called in task %d: %s callers%s\n", cur?cur->id:-1, what, cs);
}
static void sim_crash(int sig, siginfo_t* si, void*)
{
    if(res) { res->sig=sig; }
    char cs[400]; int n=0; cs[0]=0;
    if(cur) for(int i=0;i<8;i++) { int d=cur->csd-1-i; if(d>=0&&d<MAXSTK) n+=snprintf(cs+n,sizeof(cs)-n," %lx",(unsigned long)cur->cs[d]); }
    die(ST_CRASH, "process died from signal %d in task %d callers%s\n", sig, cur?cur->id:-1, cs);
}

EXPORT void agsim_install_crash_handlers(AgsimRes* r)
{
    init();
    if(r) res=r;
    static char alt[1<<16];
    stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,NULL);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=sim_crash; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_RESETHAND;
    int sigs[]={SIGSEGV,SIGBUS,SIGABRT,SIGFPE,SIGILL};
    for(int s: sigs) sigaction(s,&sa,NULL);
    std::set_terminate(sim_terminate);
}

EXPORT void agsim_begin(const AgsimCfg* c, AgsimRes* r)
{
    init();
    cfg=*c; res=r; r->status=ST_NONE;
    for(int i=0;i<cfg.nfaults;i++) cfg.faults[i].fired=0;
    rsched.s = cfg.seed*0x9E3779B97F4A7C15ull + 0x1234567;
    hashstate=0xcbf29ce484222325ull; hmix(cfg.seed);
    gsteps=0; for(int i=0;i<ntasks;i++) tasks[i].local=0;
    if(cfg.maxsteps<=0) cfg.maxsteps=BIG;
    if(cfg.nsperstep<=0) cfg.nsperstep=20;
    if(cfg.nthreads<1) cfg.nthreads=1;
    if(cfg.nthreads>16) cfg.nthreads=16;
    cur->nthreads=cfg.nthreads; cur->guard=0;
    burstleft=0; gpar=0; parbase=0; vclock_extra=0; sigarmed=false; allocarmed=false; alloccount=0;
    npct=0; pctcur=0;
    if(cfg.policy==POL_PCT) {
        npct = cfg.d>15?15:cfg.d; int64_t h = cfg.horizon>10?cfg.horizon:1000;
        for(int i=0;i<npct;i++) pctpoints[i]=1+rsched.below(h);
        for(int i=0;i<npct;i++) for(int j=i+1;j<npct;j++) if(pctpoints[j]<pctpoints[i]) { uint64_t x=pctpoints[i]; pctpoints[i]=pctpoints[j]; pctpoints[j]=x; }
    }
    cur->prio = 1000 + rsched.below(1u<<30);
    memset(brkset,0,sizeof brkset);
    for(int i=0;i<cfg.nbrk;i++) { unsigned h=brkh(cfg.brk[i]); for(int k=0;k<8;k++) { if(!brkset[(h+k)&255]) { brkset[(h+k)&255]=cfg.brk[i]; break; } if(brkset[(h+k)&255]==cfg.brk[i]) break; } }
    for(int i=0;i<MAXT;i++) { nrep[i]=irep[i]=0; rep[i]=NULL; }
    if(cfg.policy==POL_REPLAY) {
        int cnt[MAXT]; memset(cnt,0,sizeof cnt);
        for(int i=0;i<cfg.ndec;i++) if(cfg.dec[i].task>=0 && cfg.dec[i].task<MAXT) cnt[cfg.dec[i].task]++;
        RepDec* pool=(RepDec*)mmap(NULL, sizeof(RepDec)*(cfg.ndec+1), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
        for(int i=0,o=0;i<MAXT;i++) { rep[i]=pool+o; o+=cnt[i]; }
        for(int i=0;i<cfg.ndec;i++) { int t=cfg.dec[i].task; if(t<0||t>=MAXT) continue; RepDec& d=rep[t][nrep[t]++]; d.step=cfg.dec[i].step; d.next=cfg.dec[i].next; d.kind=cfg.dec[i].kind; }
    }
    nextpre=~0ull;
    r->live0=livecount;
    on=true;
    flushacct(); gsteps=0; cur->local=0;
    updflags(); recomputeEvent(); setbudget();
}

EXPORT void agsim_end(void)
{
    flushacct();
    finalize();
    quardrain();
    res->statehash = hashstate;
    on=false; g_flags=0; allocarmed=false; sigarmed=false;
    if(res->status==ST_NONE) res->status=ST_OK;
    setbudget();
}
EXPORT int agsim_active(void) { return on; }
EXPORT void agsim_yield(void) { if(on) ticksync(); }
EXPORT uint64_t agsim_live(void) { return livecount; }
EXPORT uint64_t agsim_steps(void) { return gsteps + (b0-budget); }
EXPORT void agsim_set_maxthreads(int n) { init(); defthreads=n; if(cur) cur->nthreads=n; }
EXPORT void agsim_guard(int x) { flushacct(); if(x) cur->guard++; else cur->guard--; setbudget(); }
EXPORT int agsim_task(void) { return cur->id; }
EXPORT void agsim_arm_alloc(int x) { allocarmed=x; }
EXPORT void agsim_rearm(void) { for(int i=0;i<cfg.nfaults;i++) cfg.faults[i].fired=0; alloccount=0; recomputeEvent(); }    // the faults may happen again
EXPORT void agsim_arm_signal(int x) { flushacct(); sigarmed=x; sigdefer=false; sigbase=gsteps; recomputeEvent(); setbudget(); }
EXPORT void agsim_fail(const char* m) { if(res) { appendmsg("%s\n", m); if(res->status==ST_NONE||res->status==ST_OK) res->status=ST_FAIL; } }
EXPORT void agsim_note(const char* fmt, ...)
{
    char buf[512]; va_list ap; va_start(ap,fmt); int n=vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
    for(int i=0;i<n && i<(int)sizeof(buf)-1;i++) hmix((unsigned char)buf[i]);
}
EXPORT void agsim_spawn(int n, void (*fn)(void*), void** args)
{
    if(!on) { for(int i=0;i<n;i++) fn(args[i]); return; }
    Team* t=newteam();
    Task* me=cur; 
    runteam(t, n, fn, NULL, true, args);
    endteam(t);
    (void)me;
}

//================================================================ GOMP / omp
EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned)
{
    Task* me=cur;
    int n = nt ? (int)nt : me->nthreads;
    if(!on) n=1;
    int maxact = on && cfg.nested>0 ? cfg.nested : 1;
    if(me->active >= maxact) n=1;
    if(n>16) n=16;
    // never more tasks than the pool can hold
    int avail=1; for(int i=1;i<MAXT;i++) if(tasks[i].st==T_IDLE || tasks[i].st==T_UNUSED) avail++;
    if(n>avail) n=avail;
    if(on && n>1 && cfg.dynteam>0 && (int)rsched.below(1000)<cfg.dynteam) { int k=1+(int)rsched.below(n); if(k<n) { n=k; res->teams_shrunk++; } }
    Team* saved=me->team; int stid=me->tid, slev=me->level, sact=me->active, snt=me->nthreads; unsigned sws=me->wsseq; bool shost=me->host; int64_t so=me->ordchunk;
    Team* t=newteam();
    me->level++; if(n>1) me->active++;
    me->tid=0; me->wsseq=0; me->host=false; me->ordchunk=0;
    if(n==1) {
        t->n=1; t->master=me; t->members[0]=me; t->parent=saved;
        me->team=t;
        fn(data);
        t->used=false;
    } else {
        t->parent=saved;
        // workers inherit level/active/nthreads from the (already updated) parent
        Team* tt=t; 
        runteam(tt, n, fn, data, false, NULL);
        // 'runteam' may have switched away; when we are back here we run our own share
        me->team=t;
        fn(data);
        endteam(t);
    }
    me->team=saved; me->tid=stid; me->level=slev; me->active=sact; me->nthreads=snt; me->wsseq=sws; me->host=shost; me->ordchunk=so;
}

EXPORT void GOMP_barrier(void) { barrier(); }
EXPORT bool GOMP_barrier_cancel(void) { barrier(); return false; }
EXPORT void GOMP_critical_start(void) { lock(&critKey, "critical section"); }
EXPORT void GOMP_critical_end(void) { unlock(&critKey); }
EXPORT void GOMP_critical_name_start(void** p) { lock(p, "named critical section"); }
EXPORT void GOMP_critical_name_end(void** p) { unlock(p); }
EXPORT void GOMP_atomic_start(void) { lock(&atomicKey, "atomic"); }
EXPORT void GOMP_atomic_end(void) { unlock(&atomicKey); }

#define DYN(name) \
EXPORT bool GOMP_loop_##name##_start(long s,long e,long i,long c,long* is,long* ie) { loopstart(s,e,i,c); return loopnext(is,ie); } \
EXPORT bool GOMP_loop_##name##_next(long* is,long* ie) { return loopnext(is,ie); }
DYN(dynamic) DYN(nonmonotonic_dynamic)
#define GUI(name) \
EXPORT bool GOMP_loop_##name##_start(long s,long e,long i,long c,long* is,long* ie) { loopstart(s,e,i,c); return guidednext(is,ie); } \
EXPORT bool GOMP_loop_##name##_next(long* is,long* ie) { return guidednext(is,ie); }
GUI(guided) GUI(nonmonotonic_guided)
EXPORT bool GOMP_loop_runtime_start(long s,long e,long i,long* is,long* ie) { loopstart(s,e,i,1); return loopnext(is,ie); }
EXPORT bool GOMP_loop_runtime_next(long* is,long* ie) { return loopnext(is,ie); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_start(long s,long e,long i,long* is,long* ie) { loopstart(s,e,i,1); return loopnext(is,ie); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_next(long* is,long* ie) { return loopnext(is,ie); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long* is,long* ie) { loopstart(s,e,i,1); return loopnext(is,ie); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is,long* ie) { return loopnext(is,ie); }
EXPORT bool GOMP_loop_static_start(long s,long e,long i,long c,long* is,long* ie) { loopstart(s,e,i,c); spos[cur->id].trip=0; curws()->singleTaken=c>0; return staticnext(is,ie); }
EXPORT bool GOMP_loop_static_next(long* is,long* ie) { return staticnext(is,ie); }
EXPORT bool GOMP_loop_ordered_static_start(long s,long e,long i,long c,long* is,long* ie)
{
    loopstart(s,e,i,c); spos[cur->id].trip=0; curws()->singleTaken=c>0;
    return staticnext(is,ie);
}
EXPORT bool GOMP_loop_ordered_static_next(long* is,long* ie)
{
    WS* w=curws(); ordwait(w); ordpass(w);
    return staticnext(is,ie);
}
EXPORT bool GOMP_loop_ordered_dynamic_start(long s,long e,long i,long c,long* is,long* ie) { loopstart(s,e,i,c); return loopnext(is,ie); }
EXPORT bool GOMP_loop_ordered_dynamic_next(long* is,long* ie) { WS* w=curws(); ordwait(w); ordpass(w); return loopnext(is,ie); }
EXPORT bool GOMP_loop_ordered_guided_start(long s,long e,long i,long c,long* is,long* ie) { loopstart(s,e,i,c); return guidednext(is,ie); }
EXPORT bool GOMP_loop_ordered_guided_next(long* is,long* ie) { WS* w=curws(); ordwait(w); ordpass(w); return guidednext(is,ie); }
EXPORT bool GOMP_loop_ordered_runtime_start(long s,long e,long i,long* is,long* ie) { loopstart(s,e,i,1); return loopnext(is,ie); }
EXPORT bool GOMP_loop_ordered_runtime_next(long* is,long* ie) { WS* w=curws(); ordwait(w); ordpass(w); return loopnext(is,ie); }
EXPORT void GOMP_ordered_start(void) { ticksync(); WS* w=curws(); ordwait(w); hb_acquire((uintptr_t)&w->ordcur); }
EXPORT void GOMP_ordered_end(void) { }
EXPORT void GOMP_loop_end(void) { loopleave(); barrier(); }
EXPORT bool GOMP_loop_end_cancel(void) { loopleave(); barrier(); return false; }
EXPORT void GOMP_loop_end_nowait(void) { loopleave(); }
EXPORT bool GOMP_single_start(void)
{
    ticksync(); Team* t=myteam(); bool f; cur->wsseq++;
    WS* w=getws(t,cur->wsseq,&f);
    bool r = !w->singleTaken; w->singleTaken=1;
    if(--w->nleft==0) w->used=false;
    return r;
}
EXPORT unsigned GOMP_sections_start(unsigned n) { loopstart(1,(long)n+1,1,1); long a,b; return loopnext(&a,&b)?(unsigned)a:0; }
EXPORT unsigned GOMP_sections_next(void) { long a,b; return loopnext(&a,&b)?(unsigned)a:0; }
EXPORT void GOMP_sections_end(void) { loopleave(); barrier(); }
EXPORT void GOMP_sections_end_nowait(void) { loopleave(); }
EXPORT void GOMP_taskwait(void) {}
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*,void*), long size, long align, bool, unsigned, void**, int, void*)
{   // executed immediately (undeferred), which is a legal execution
    if(cpy) { char* b=(char*)malloc(size+align); char* a=(char*)(((uintptr_t)b+align-1)&~(uintptr_t)(align-1)); cpy(a,data); fn(a); free(b); }
    else fn(data);
}
namespace {
struct CombArg { void (*fn)(void*); void* data; long s,e,i,c; int kind; };
void combtramp(void* p)
{
    CombArg* a=(CombArg*)p;
    loopstart(a->s,a->e,a->i,a->c);
    if(a->kind==1) { spos[cur->id].trip=0; curws()->singleTaken=a->c>0; }
    a->fn(a->data);
}
}
#define COMB(name,k) \
EXPORT void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long s,long e,long i,long c,unsigned fl) \
{ CombArg a={fn,data,s,e,i,c,k}; GOMP_parallel(combtramp,&a,nt,fl); }
COMB(dynamic,0) COMB(nonmonotonic_dynamic,0) COMB(guided,0) COMB(nonmonotonic_guided,0) COMB(static,1)
#define COMBR(name) \
EXPORT void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long s,long e,long i,unsigned fl) \
{ CombArg a={fn,data,s,e,i,1,0}; GOMP_parallel(combtramp,&a,nt,fl); }
COMBR(runtime) COMBR(nonmonotonic_runtime) COMBR(maybe_nonmonotonic_runtime)

EXPORT int omp_get_max_threads(void) { return cur->nthreads; }
EXPORT int omp_get_num_threads(void) { return cur->team && !cur->host ? cur->team->n : 1; }
EXPORT int omp_get_thread_num(void) { return cur->tid; }
EXPORT void omp_set_num_threads(int n) { cur->nthreads = n<1?1:(n>16?16:n); }
EXPORT int omp_in_parallel(void) { return cur->active>0; }
EXPORT int omp_get_level(void) { return cur->level; }
EXPORT int omp_get_active_level(void) { return cur->active; }
EXPORT int omp_get_num_procs(void) { return defthreads; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_nested(void) { return cfg.nested>1; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_max_active_levels(void) { return cfg.nested>0?cfg.nested:1; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT int omp_get_thread_limit(void) { return 16; }
EXPORT int omp_get_ancestor_thread_num(int l) { return l==0?0:cur->tid; }
EXPORT int omp_get_team_size(int l) { return l==0?1:omp_get_num_threads(); }
EXPORT double omp_get_wtime(void) { return 1e-9*(double)(agsim_steps()*(uint64_t)cfg.nsperstep+vclock_extra); }
EXPORT void omp_init_lock(void* l) { *(int*)l=0; }
EXPORT void omp_destroy_lock(void*) {}
EXPORT void omp_set_lock(void* l) { lock(l,"omp lock"); }
EXPORT void omp_unset_lock(void* l) { unlock(l); }
EXPORT int omp_test_lock(void* l) { SimLock& s=lockof(l); if(s.owner>=0) return 0; lock(l,"omp lock"); return 1; }

//================================================================ C++ runtime: static initialisation guards, mutexes
EXPORT int __cxa_guard_acquire(uint64_t* g)
{
    char* b=(char*)g;
    if(b[0]) { hb_acquire((uintptr_t)g); return 0; }
    if(on) ticksync();
    while(b[1]) { if(b[0]) break; if(!on) abort(); block(g,"static initialisation of another thread"); }
    if(b[0]) { hb_acquire((uintptr_t)g); return 0; }
    b[1]=1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g) { char* b=(char*)g; hb_release((uintptr_t)g); b[1]=0; b[0]=1; wakeall(g); }
EXPORT void __cxa_guard_abort(uint64_t* g) { char* b=(char*)g; b[1]=0; wakeall(g); }

// instrumented objects reach these through renamed symbols
EXPORT int agsim_pthread_mutex_lock(pthread_mutex_t* m) { lock(m,"mutex", m->__data.__kind==PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
EXPORT int agsim_pthread_mutex_unlock(pthread_mutex_t* m) { unlock(m, m->__data.__kind==PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
EXPORT int agsim_pthread_mutex_trylock(pthread_mutex_t* m) { SimLock& s=lockof(m); if(on && s.owner>=0 && s.owner!=cur->id) return EBUSY; return agsim_pthread_mutex_lock(m); }
EXPORT int agsim_pthread_once(pthread_once_t* o, void (*f)(void))
{
    while(*o==1) block(o,"call_once");
    if(*o==2) { hb_acquire((uintptr_t)o); return 0; }
    *o=1;
    try { f(); } catch(...) { *o=0; wakeall(o); throw; }
    *o=2; hb_release((uintptr_t)o); wakeall(o);
    return 0;
}
EXPORT void* agsim_memcpy(void* d, const void* s, size_t n) { if(unlikely(g_flags)) { void* pc=__builtin_return_address(0); access_slow((void*)s,n,false,pc); access_slow(d,n,true,pc); } return memcpy(d,s,n); }
EXPORT void* agsim_memmove(void* d, const void* s, size_t n) { if(unlikely(g_flags)) { void* pc=__builtin_return_address(0); access_slow((void*)s,n,false,pc); access_slow(d,n,true,pc); } return memmove(d,s,n); }
EXPORT void* agsim_memset(void* d, int c, size_t n) { if(unlikely(g_flags)) access_slow(d,n,true,__builtin_return_address(0)); return memset(d,c,n); }
EXPORT int agsim_memcmp(const void* a, const void* b, size_t n) { if(unlikely(g_flags)) { void* pc=__builtin_return_address(0); access_slow((void*)a,n,false,pc); access_slow((void*)b,n,false,pc); } return memcmp(a,b,n); }

//================================================================ instrumentation call-backs
#define PC __builtin_return_address(0)
#define RW(n) \
EXPORT void __tsan_read##n(void* p) { tick(); if(unlikely(g_flags)) access_slow(p,n,false,PC); } \
EXPORT void __tsan_write##n(void* p) { tick(); if(unlikely(g_flags)) access_slow(p,n,true,PC); } \
EXPORT void __tsan_unaligned_read##n(void* p) { tick(); if(unlikely(g_flags)) access_slow(p,n,false,PC); } \
EXPORT void __tsan_unaligned_write##n(void* p) { tick(); if(unlikely(g_flags)) access_slow(p,n,true,PC); } \
EXPORT void __tsan_volatile_read##n(void*) { tick(); } \
EXPORT void __tsan_volatile_write##n(void*) { tick(); } \
EXPORT void __tsan_unaligned_volatile_read##n(void*) { tick(); } \
EXPORT void __tsan_unaligned_volatile_write##n(void*) { tick(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { tick(); if(unlikely(g_flags)) access_slow(p,n,false,PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { tick(); if(unlikely(g_flags)) access_slow(p,n,true,PC); }
EXPORT void __tsan_func_entry(void* pc) { Task* t=cur; int d=t->csd++; if(d<MAXSTK && d>=0) t->cs[d]=(uintptr_t)pc; tick(); }
EXPORT void __tsan_func_exit(void) { if(cur->csd>0) cur->csd--; }
EXPORT void __tsan_vptr_update(void** p, void* v) { tick(); if(unlikely(g_flags) && *p!=v) access_slow(p,8,true,PC); }
EXPORT void __tsan_vptr_read(void** p) { tick(); if(unlikely(g_flags)) access_slow(p,8,false,PC); }
EXPORT void __tsan_init(void) { init(); }
EXPORT void __tsan_acquire(void* p) { hb_acquire((uintptr_t)p); }
EXPORT void __tsan_release(void* p) { hb_release((uintptr_t)p); }

#define AT(bits,T) \
EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int) { tick(); hb_acquire((uintptr_t)a); return __atomic_load_n(a,__ATOMIC_SEQ_CST); } \
EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int) { tick(); hb_release((uintptr_t)a); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); } \
EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_compare_exchange_n(a,c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); return __atomic_compare_exchange_n(a,c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { tick(); hb_acquire((uintptr_t)a); hb_release((uintptr_t)a); __atomic_compare_exchange_n(a,&c,v,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

//================================================================ allocator seam
namespace {
const uint64_t MAGIC=0xA6A3A5170C0FFEEull, DEADM=0xDEADA110CA7EDull;
struct Hdr { uint64_t magic; size_t size; };
void* simnew(size_t n)
{
    if(allocarmed && (allocarmed<2 || (cur && cur->level>0))) {
        alloccount++;
        for(int i=0;i<cfg.nfaults;i++) if(cfg.faults[i].kind==FK_ALLOC && !cfg.faults[i].fired && (int64_t)alloccount>=cfg.faults[i].at
            && (cfg.faults[i].arg2==0 || (int64_t)n>=cfg.faults[i].arg2)) {
            cfg.faults[i].fired=1; if(res) { res->allocfail++; res->iofired[FK_ALLOC]++; }
            hmix(0xA110C+alloccount);
            return NULL;
        }
    }
    if(n > ((size_t)1<<33)) return NULL;   // an absurd request (e.g. a negative size): refuse it as the system would
    Hdr* h=(Hdr*)malloc(n+sizeof(Hdr));
    if(!h) return NULL;
    h->magic=MAGIC; h->size=n;
    livecount++;
    if(unlikely(on)) memset(h+1, 0xA5, n);      // uninitialised memory is visible and deterministic
    if(unlikely(g_flags&1)) { // fresh memory: forget previous accesses
        if(n<=65536) for(uintptr_t g=(uintptr_t)(h+1); g<(uintptr_t)(h+1)+n; g+=8) { Cell* c=cell(g); if(c) { c->wm=0; c->r[0].m=c->r[1].m=c->r[2].m=0; } }
    }
    return h+1;
}
const int NQUAR=1024;
Hdr* quarantine[NQUAR]; unsigned quarpos=0;
void quarcheck(Hdr* h)
{
    const unsigned char* c=(const unsigned char*)(h+1);
    for(size_t i=0;i<h->size;i++) if(c[i]!=0xDD) die(ST_HEAP, "a freed heap block of %zu bytes was modified at offset %zu\n", h->size, i);
    if(h->magic!=DEADM) die(ST_HEAP, "header of a freed heap block was modified\n");
}
// bytes held by freed blocks that have not been returned to malloc yet
uint64_t quarbytes() { uint64_t b=0; for(int i=0;i<NQUAR;i++) if(quarantine[i]) b+=malloc_usable_size(quarantine[i])+8; return b; }
void quardrain() { for(int i=0;i<NQUAR;i++) if(quarantine[i]) quarcheck(quarantine[i]); }
void simdelete(void* p)
{
    if(!p) return;
    Hdr* h=(Hdr*)p-1;
    if(h->magic!=MAGIC) {
        if(on || res) die(ST_HEAP, h->magic==DEADM ? "double free of a heap block\n" : "invalid free (corrupted heap block)\n");
        abort();
    }
    if(unlikely(g_flags&1) && h->size<=65536) access_range((uintptr_t)p, h->size, true, (uint64_t)__builtin_return_address(0));
    h->magic=DEADM;
    livecount--;
    if(unlikely(on)) {
        // freed blocks are kept for a while, so that their use shows up
        memset(p, 0xDD, h->size);
        if(h->size<=16384) { Hdr*& q=quarantine[quarpos++ % NQUAR]; Hdr* old=q; q=h; if(!old) return; quarcheck(old); h=old; }
    }
    free(h);
}
}
static int64_t mallocfail=0;      // failures of malloc rather than operator new
EXPORT int64_t agsim_malloc_failures(void) { return mallocfail; }
EXPORT void* agsim_malloc(size_t n) { void* p=simnew(n); if(!p) mallocfail++; return p; }
EXPORT void* agsim_calloc(size_t n, size_t k) { void* p=agsim_malloc(n*k); if(p) memset(p,0,n*k); return p; }
EXPORT void agsim_free(void* p) { simdelete(p); }
EXPORT void* agsim_realloc(void* p, size_t n)
{
    if(!p) return agsim_malloc(n);
    void* q=agsim_malloc(n); if(!q) return NULL;
    size_t m=((Hdr*)p-1)->size;
    memcpy(q, p, m<n?m:n); simdelete(p); return q;
}
EXPORT uint64_t agsim_held(void) { return quarbytes(); }
__attribute__((visibility("default"))) void* operator new(size_t n) { void* p=simnew(n); if(!p) throw std::bad_alloc(); return p; }
__attribute__((visibility("default"))) void* operator new[](size_t n) { void* p=simnew(n); if(!p) throw std::bad_alloc(); return p; }
__attribute__((visibility("default"))) void* operator new(size_t n, const std::nothrow_t&) noexcept { return simnew(n); }
__attribute__((visibility("default"))) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simnew(n); }
__attribute__((visibility("default"))) void operator delete(void* p) noexcept { simdelete(p); }
__attribute__((visibility("default"))) void operator delete[](void* p) noexcept { simdelete(p); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t) noexcept { simdelete(p); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t) noexcept { simdelete(p); }
__attribute__((visibility("default"))) void operator delete(void* p, const std::nothrow_t&) noexcept { simdelete(p); }
__attribute__((visibility("default"))) void operator delete[](void* p, const std::nothrow_t&) noexcept { simdelete(p); }

//================================================================ clock seam
static void simtime(struct timespec* ts)
{
    uint64_t ns = agsim_steps()*(uint64_t)cfg.nsperstep + vclock_extra + 1000000000ull*1000000;
    ts->tv_sec=ns/1000000000ull; ts->tv_nsec=ns%1000000000ull;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts)
{
    if(on) { simtime(ts); return 0; }
    return syscall(SYS_clock_gettime, c, ts);
}
EXPORT time_t time(time_t* t)
{
    struct timespec ts; if(on) simtime(&ts); else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if(t) *t=ts.tv_sec; return ts.tv_sec;
}
EXPORT int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts; if(on) simtime(&ts); else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0;
}

//================================================================ file system seam
namespace {
bool ioarmed=false; char ioprefix[512]; size_t ioprefixlen=0;
unsigned char tracked[4096];
uint64_t nW=0,nR=0,nO=0,nC=0,nS=0,nAll=0; uint64_t bytesleft=~0ull; bool spaceinit=false; int stickyW=0;
bool want(const char* path) { return on && ioarmed && path && strncmp(path,ioprefix,ioprefixlen)==0; }
inline bool trk(int fd) { return on && ioarmed && fd>=0 && fd<4096 && tracked[fd]; }
AgsimFault* match(int kind, uint64_t count)
{
    for(int i=0;i<cfg.nfaults;i++) { AgsimFault& f=cfg.faults[i];
        if(f.kind==kind && !f.fired && (int64_t)count>=f.at) { f.fired=1; res->iofired[kind]++; hmix(0x10000+kind*64+count); return &f; } }
    return NULL;
}
bool ioopen(const char* path)
{
    nO++; nAll++; res->ioops++; res->nopen++;
    if(AgsimFault* f=match(FK_IO_CRASH,nAll)) { (void)f; finalize(); res->status=ST_KILLED; syscall(SYS_exit_group,73); }
    if(AgsimFault* f=match(FK_IO_OPENERR,nO)) { errno=f->arg; return false; }
    return true;
}
ssize_t iowrite(int fd, const struct iovec* iv, int cnt)
{
    size_t tot=0; for(int i=0;i<cnt;i++) tot+=iv[i].iov_len;
    nW++; nAll++; res->ioops++; res->nwrite++;
    if(on && inpar) ticksync();
    if(stickyW) { errno=stickyW; return -1; }
    size_t allow=tot;
    AgsimFault* f;
    if((f=match(FK_IO_CRASH,nAll))) {
        size_t k=tot*(size_t)f->arg/1000; 
        for(int i=0;i<cnt && k>0;i++) { size_t m=iv[i].iov_len<k?iv[i].iov_len:k; syscall(SYS_write,fd,iv[i].iov_base,m); k-=m; }
        finalize(); res->status=ST_KILLED; syscall(SYS_exit_group,73);
    }
    if((f=match(FK_IO_WEINTR,nW))) { errno=EINTR; return -1; }
    if((f=match(FK_IO_WERR,nW))) { errno=f->arg; if(f->arg2) stickyW=f->arg; return -1; }
    if((f=match(FK_IO_WSHORT,nW))) { size_t k=tot*(size_t)f->arg/1000; if(k<1) k=1; if(k<allow) allow=k; }
    if(!spaceinit) { spaceinit=true; for(int i=0;i<cfg.nfaults;i++) if(cfg.faults[i].kind==FK_IO_SPACE) bytesleft=cfg.faults[i].at; }
    if(allow>bytesleft) {
        res->iofired[FK_IO_SPACE]++; hmix(0x50ACE);
        allow=bytesleft;
        if(allow==0) { errno=ENOSPC; return -1; }
    }
    size_t done=0;
    for(int i=0;i<cnt && done<allow;i++) {
        size_t m=iv[i].iov_len; if(m>allow-done) m=allow-done;
        if(m==0) continue;
        ssize_t k=syscall(SYS_write,fd,iv[i].iov_base,m);
        if(k<0) return done?(ssize_t)done:-1;
        done+=k; if((size_t)k<m) break;
    }
    if(bytesleft!=~0ull) bytesleft-=done;
    res->bytesw+=done; hmix(done);
    return done;
}
}
EXPORT void agsim_arm_io(int x, const char* prefix)
{
    ioarmed=x; if(prefix) { strncpy(ioprefix,prefix,sizeof(ioprefix)-1); ioprefixlen=strlen(ioprefix); }
    nW=nR=nO=nC=nS=nAll=0; stickyW=0; spaceinit=false; bytesleft=~0ull;
}
EXPORT int agsim_pause_io(int on) { int o=ioarmed; ioarmed=on; return o; }     // temporarily exempt the harness' own operations
EXPORT FILE* fopen64(const char* p, const char* m)
{
    init();
    if(want(p)) { if(!ioopen(p)) return NULL; FILE* f=real_fopen64(p,m); if(f) { int fd=fileno(f); if(fd<4096) tracked[fd]=1; } return f; }
    FILE* f=real_fopen64(p,m); if(f) { int fd=fileno(f); if(fd>=0&&fd<4096) tracked[fd]=0; } return f;
}
EXPORT FILE* fopen(const char* p, const char* m) { return fopen64(p,m); }
EXPORT int fclose(FILE* f)
{
    init();
    int fd=fileno(f); bool t=trk(fd);
    if(fd>=0&&fd<4096) tracked[fd]=0;
    if(t) { nC++; nAll++; res->ioops++; res->nclose++;
        if(match(FK_IO_CRASH,nAll)) { finalize(); res->status=ST_KILLED; syscall(SYS_exit_group,73); }
        if(AgsimFault* x=match(FK_IO_CLOSEERR,nC)) { int e=x->arg; real_fclose(f); errno=e; return EOF; } }
    return real_fclose(f);
}
EXPORT int open64(const char* p, int fl, ...)
{
    va_list ap; va_start(ap,fl); int mode=va_arg(ap,int); va_end(ap);
    bool w=want(p);
    if(w && !ioopen(p)) return -1;
    int fd=syscall(SYS_openat,AT_FDCWD,p,fl,mode);
    if(fd>=0&&fd<4096) tracked[fd]=w;
    return fd;
}
EXPORT int open(const char* p, int fl, ...)
{
    va_list ap; va_start(ap,fl); int mode=va_arg(ap,int); va_end(ap);
    return open64(p,fl,mode);
}
EXPORT int close(int fd)
{
    bool t=trk(fd); if(fd>=0&&fd<4096) tracked[fd]=0;
    int r=syscall(SYS_close,fd);
    if(t) { nC++; nAll++; res->nclose++; if(AgsimFault* x=match(FK_IO_CLOSEERR,nC)) { errno=x->arg; return -1; } }
    return r;
}
EXPORT ssize_t write(int fd, const void* b, size_t n)
{
    if(trk(fd)) { struct iovec iv={(void*)b,n}; return iowrite(fd,&iv,1); }
    return syscall(SYS_write,fd,b,n);
}
EXPORT ssize_t writev(int fd, const struct iovec* iv, int n)
{
    if(trk(fd)) return iowrite(fd,iv,n);
    return syscall(SYS_writev,fd,iv,n);
}
EXPORT ssize_t read(int fd, void* b, size_t n)
{
    if(trk(fd)) {
        nR++; nAll++; res->ioops++; res->nread++;
        if(match(FK_IO_REINTR,nR)) { errno=EINTR; return -1; }
        if(AgsimFault* f=match(FK_IO_RERR,nR)) { errno=f->arg; return -1; }
        for(int i=0;i<cfg.nfaults;i++) if(cfg.faults[i].kind==FK_IO_RSHORT && (int64_t)nR>=cfg.faults[i].at && n>(size_t)cfg.faults[i].arg) {
            n=cfg.faults[i].arg<1?1:cfg.faults[i].arg; res->iofired[FK_IO_RSHORT]++; }
        ssize_t k=syscall(SYS_read,fd,b,n); if(k>0) { res->bytesr+=k; } hmix(k); return k;
    }
    return syscall(SYS_read,fd,b,n);
}

//================================================================ Python GIL seam (instrumented interface_python.o is linked to these)
namespace {
char gilKey;
template<typename F> F pysym(const char* n) { static F f=NULL; if(!f) f=(F)dlsym(RTLD_DEFAULT,n); return f; }
struct TsSave { void* ts; };
}
#define PYSYM(name, type) ((type)({ static void* f=NULL; if(!f) f=dlsym(RTLD_DEFAULT,#name); f; }))
EXPORT void agsim_gil_lock(void) { if(on) { lock(&gilKey,"GIL"); } }
EXPORT void agsim_gil_unlock(void) { if(on) unlock(&gilKey); }
static bool gilmine() { SimLock& l=lockof(&gilKey); return l.owner==cur->id; }
EXPORT int agsim_gil_held(void) { return on && gilmine(); }
/// called before each use of the Python C API by the library
EXPORT void agsim_gil_check(const char* what)
{
    if(on && cur && !gilmine()) {
        char cs[400]; int n=0; cs[0]=0;
        for(int i=0;i<8;i++) { int d=cur->csd-1-i; if(d>=0&&d<MAXSTK) n+=snprintf(cs+n,sizeof(cs)-n," %lx",(unsigned long)cur->cs[d]); }
        die(ST_CRASH, "%s was called in task %d without holding the global interpreter lock callers%s\n", what, cur->id, cs);
    }
}
EXPORT int agsim_PyGILState_Ensure(void)
{
    if(on && !gilmine()) { lock(&gilKey,"GIL"); cur->gildepth=0; }
    cur->gildepth++;
    return PYSYM(PyGILState_Ensure,int(*)(void))();
}
EXPORT void agsim_PyGILState_Release(int s)
{
    PYSYM(PyGILState_Release,void(*)(int))(s);
    cur->gildepth--;
    if(on && s==1 /*PyGILState_UNLOCKED*/) unlock(&gilKey);
}
EXPORT void* agsim_PyEval_SaveThread(void)
{
    void* ts=PYSYM(PyEval_SaveThread,void*(*)(void))();
    if(on) unlock(&gilKey);
    return ts;
}
EXPORT void agsim_PyEval_RestoreThread(void* ts)
{
    if(on) lock(&gilKey,"GIL");
    PYSYM(PyEval_RestoreThread,void(*)(void*))(ts);
}
