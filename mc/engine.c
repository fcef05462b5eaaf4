#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "mc.h"

typedef uint64_t u64;
typedef uint8_t u8;
typedef uint32_t u32;

#define MAXF 8
#define STACK_SZ (256 * 1024)
#define STACK_BASE 0x300000000UL
#define STACK_STRIDE (STACK_SZ * 2)
#define H_BASE 0x400000000UL
#define H_MAX (4UL << 20)
#define P_BASE 0x500000000UL
#define P_MAX (1UL << 30)
#define MAXSLOT 1024
#define MAXPATH 16000
#define TLS_SZ 2048
#define MAXW 16
#define TASKS 2048
#define SMALL_ALIGN 16
#ifndef POOLB
#define POOLB ((u64) 1 << 24)
#endif
/* each pool-sized block has its own slot followed by a guard of the same size */
#define P_STRIDE (2 * POOLB)

enum { F_UNUSED, F_RUN, F_BLOCK, F_DONE };
enum { W_NONE, W_MUTEX, W_BARRIER, W_JOIN, W_SEM };
enum { R_NONE, R_CHOOSE, R_SCHED, R_BLOCK, R_EXIT, R_FAIL, R_DONE, R_PRUNE, R_PROBE, R_PROBEEND, R_YIELD };

struct Fiber {
    void *sp;
    int status, wait, err;
    void *obj;
    u64 val;
    void *(*start)(void *);
    void *arg, *ret;
};

/* the part of the program's state that the engine holds for it */
struct PState {
    struct Fiber f[MAXF];
    int nf, cur, preempt, quiet, failCreates, failAllocs, expectAbort, allocLimit, blockErr;
    void (*onAbort)(void);
    int pools;
    u32 hUsed, nslots, tlsNext;
    struct { u32 off, len; u8 live; } slot[MAXSLOT];
};

struct Snap { u64 size, cap; u8 *buf; };
struct Frame { struct Snap snap; int keep, n, next, plen, req; u64 node; const char *label; };
struct PE { u8 c, n; };

struct Task { int len; u64 node; struct PE p[MAXPATH]; };
#define NVAL 3
struct Val { int len; u64 h; struct PE p[MAXPATH]; };

struct Shared {
    volatile int lock;
    volatile int stop;
    volatile int idle, qn;
    volatile int violated;
    char vmsg[2000];
    int vlen;
    struct PE vpath[MAXPATH];
    char vlabels[MAXPATH][24];
    volatile u64 states, transitions, execs, pruned, maxpath, validated, vdiverged, maxenabled;
    volatile u64 outcomes[4096];
    volatile int noutcomes;
    char cover[64][64];
    volatile u64 coverct[64];
    char sample[8][1000];
    volatile int nsamples;
    volatile int capped;
    volatile int newShared;
    volatile u64 edgeCt[MAXW];
    struct Task q[TASKS];
};

struct Edge { u64 a, b; };
#define EDGE_MAX (1UL << 26)
#define DONE_NODE 1UL

struct Engine {
    void *esp;               /* engine stack pointer while a fiber runs */
    int req, reqN, reqRet;
    const char *label;
    char failmsg[1500];
    long budget, budget0;
    struct PE path[MAXPATH];
    const char *labels[MAXPATH];
    int plen, replayLen;
    struct Frame *frames;
    int nframes, capframes;
    struct Snap root, probe;
    int inProbe;
    u64 curNode;
    struct Shared *sh;
    u64 *visited; u64 vmask;
    struct Edge *edges[MAXW];
    int worker, nworkers;
    int replayMode;
    int checkLive;
    int preemptBound, passNo;
    int conc;                /* fibers enabled > 1: count */
    int argc; char **argv;
    u64 maxStates; double t0, maxTime;
    volatile uint16_t *acc;  /* per-word access info (shared): bit f = accessed by fiber f, 0x100: written,
                              * 0x4000: found to be shared in this pass, 0x8000: shared (frozen for this pass) */
    struct Val val[NVAL]; int nval, skipVal;
    u64 target;
    u8 *dataLo, *dataHi, *hLo, *hHi;
    struct PE *replayPath; int replayN;
    char notes[64]; int trackLabels;
    FILE *out;
    int started;
    char samplebuf[1000];
    u64 finalHash; int wantFinal; int diverged;
    volatile long steps, lastSteps;
    unsigned char *hshadow;
};

#define S ((struct PState *) 0x200000000UL)
#define TLS ((u8 (*)[TLS_SZ]) 0x210000000UL)
#define HSH ((u8 *) 0x220000000UL)
#define E ((struct Engine *) 0x230000000UL)
#define ACC_WORDS_H (H_MAX / 8)

extern char __data_start[], _end[], __start_mc_harness[], __stop_mc_harness[];
MCG int mc_section_keep = 1;

static void *fixmap(u64 addr, u64 sz)
{
    void *r = mmap((void *) addr, sz, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void *) addr) { static const char m[] = "mc: fixed mapping failed\n"; if (write(2, m, sizeof m - 1)) {} _exit(9); }
    return r;
}

/* ------------------------------------------------------------------ fibers */
void mc_swap(void **save, void *to);
__asm__(
    ".text\n.globl mc_swap\nmc_swap:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static void initEngine(void);

static u8 *stackLo(int f) { return (u8 *) (STACK_BASE + (u64) f * STACK_STRIDE + STACK_SZ); }
static u8 *stackHi(int f) { return stackLo(f) + STACK_SZ; }

/* hand a request to the engine; returns the engine's answer */
static int request(int req, int n, const char *label)
{
    E->req = req; E->reqN = n; E->label = label;
    S->f[S->cur].err = errno;
    mc_swap(&S->f[S->cur].sp, E->esp);
    errno = S->f[S->cur].err;
    return E->reqRet;
}

static void fiberEntry(void)
{
    struct Fiber *f = &S->f[S->cur];
    errno = 0;
    f->ret = f->start(f->arg);
    request(R_EXIT, 0, "exit");
    abort();
}

static void fiberInit(int i, void *(*start)(void *), void *arg)
{
    struct Fiber *f = &S->f[i];
    u64 *sp = (u64 *) stackHi(i);
    memset(f, 0, sizeof *f);
    f->status = F_RUN; f->start = start; f->arg = arg;
    *--sp = 0;                            /* alignment: entry with rsp%16==8 */
    *--sp = (u64) fiberEntry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    f->sp = sp;
}

/* --------------------------------------------------------------- snapshots */
struct Range { u8 *p; u64 n; };
static int ranges(struct Range *r)
{
    int n = 0, i;
    r[n++] = (struct Range) { (u8 *) S, offsetof(struct PState, slot) + S->nslots * sizeof S->slot[0] };
    r[n++] = (struct Range) { E->dataLo, E->dataHi - E->dataLo };
    r[n++] = (struct Range) { (u8 *) H_BASE, S->hUsed };
    r[n++] = (struct Range) { HSH, S->hUsed / 8 };
    for (i = 0; i < S->nf; i++) {
        r[n++] = (struct Range) { TLS[i], S->tlsNext };
        if (S->f[i].status != F_DONE && S->f[i].status != F_UNUSED)
            r[n++] = (struct Range) { S->f[i].sp, stackHi(i) - (u8 *) S->f[i].sp };
    }
    for (i = 0; i < (int) S->nslots; i++)
        r[n++] = (struct Range) { (u8 *) P_BASE + (u64) i * P_STRIDE + S->slot[i].off, S->slot[i].len };
    return n;
}

static void snapSave(struct Snap *s)
{
    struct Range r[8 + 2 * MAXF + MAXSLOT];
    int n = ranges(r), i;
    u64 sz = 0; u8 *p;
    for (i = 0; i < n; i++) sz += r[i].n;
    if (sz > s->cap) {
        if (s->buf) munmap(s->buf, s->cap);
        s->cap = (sz + sz / 4 + 65535) & ~65535UL;
        s->buf = mmap(NULL, s->cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (s->buf == MAP_FAILED) { fprintf(stderr, "mc: out of memory for snapshots\n"); _exit(9); }
    }
    s->size = sz;
    for (p = s->buf, i = 0; i < n; i++) { memcpy(p, r[i].p, r[i].n); p += r[i].n; }
}

static void snapLoad(struct Snap *s)
{
    struct Range r[8 + 2 * MAXF + MAXSLOT];
    int n, i; u8 *p = s->buf;
    u32 oldH = S->hUsed;
    /* the first range determines the others */
    memcpy(S, p, offsetof(struct PState, slot));
    memcpy(S->slot, p + offsetof(struct PState, slot), S->nslots * sizeof S->slot[0]);
    n = ranges(r);
    for (i = 0; i < n; i++) { memcpy(r[i].p, p, r[i].n); p += r[i].n; }
    if (oldH > S->hUsed) memset(HSH + S->hUsed / 8, 0, (oldH - S->hUsed) / 8);
}

static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 hashBytes(const u8 *p, u64 n, u64 h)
{
    u64 a = h ^ 0x9E3779B97F4A7C15UL, b = h + 0xD1B54A32D192ED03UL, c = ~h, d = h * 0xff51afd7ed558ccdUL + n;
    u64 v[4];
    while (n >= 32) {
        memcpy(v, p, 32);
        a = rotl((a ^ v[0]) * 0x9FB21C651E98DF25UL, 29);
        b = rotl((b ^ v[1]) * 0xC2B2AE3D27D4EB4FUL, 31);
        c = rotl((c ^ v[2]) * 0x165667B19E3779F9UL, 27);
        d = rotl((d ^ v[3]) * 0x27D4EB2F165667C5UL, 33);
        p += 32; n -= 32;
    }
    if (n) {
        memset(v, 0, 32); memcpy(v, p, n);
        a = (a ^ v[0]) * 0x9FB21C651E98DF25UL; b = (b ^ v[1]) * 0xC2B2AE3D27D4EB4FUL;
        c = (c ^ v[2]) * 0x165667B19E3779F9UL; d = (d ^ v[3]) * 0x27D4EB2F165667C5UL;
    }
    a ^= rotl(b, 17) ^ rotl(c, 35) ^ rotl(d, 51);
    a ^= a >> 32; a *= 0xd6e8feb86659fd93UL; a ^= a >> 29; a += b * 0x9E3779B97F4A7C15UL + c; a ^= a >> 32; a *= 0xd6e8feb86659fd93UL; a ^= a >> 31; a += d;
    return a;
}

static u64 stateHash2(int stacks)
{
    struct Range r[8 + 2 * MAXF + MAXSLOT];
    int n = ranges(r), i;
    u64 h = 12345;
    for (i = 0; i < n; i++)
        /* unused words of the stacks depend on how we came here */
        if (stacks || (u64) r[i].p < STACK_BASE || (u64) r[i].p >= STACK_BASE + (u64) (MAXF + 1) * STACK_STRIDE)
            h = hashBytes(r[i].p, r[i].n, h + i);
    if (h < 2) h += 2;
    return h;
}
static u64 stateHash(void) { return stateHash2(1); }

/* ------------------------------------------------------------ shared tables */
static void lockSh(void) { while (__sync_lock_test_and_set(&E->sh->lock, 1)) syscall(SYS_sched_yield); }
static void unlockSh(void) { __sync_lock_release(&E->sh->lock); }

/* 1 if new */
static int visit(u64 h)
{
    u64 i = h & E->vmask, probes = 0;
    while (1) {
        u64 v = __atomic_load_n(&E->visited[i], __ATOMIC_RELAXED);
        if (v == h) return 0;
        if (v == 0) {
            u64 z = 0;
            if (__atomic_compare_exchange_n(&E->visited[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __sync_fetch_and_add(&E->sh->states, 1);
                return 1;
            }
            if (z == h) return 0;
        }
        i = (i + 1) & E->vmask;
        if (++probes > E->vmask / 2) { E->sh->capped = 1; E->sh->stop = 1; return 0; }
    }
}

static void edge(u64 a, u64 b)
{
    if (!E->checkLive) return;
    u64 n = E->sh->edgeCt[E->worker];
    if (n >= EDGE_MAX) { E->sh->capped = 1; E->sh->stop = 1; return; }
    E->edges[E->worker][n].a = a; E->edges[E->worker][n].b = b;
    E->sh->edgeCt[E->worker] = n + 1;
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/* ------------------------------------------------------------- violations */
static void violation(const char *msg)
{
    struct Shared *sh = E->sh;
    lockSh();
    if (!sh->violated) {
        sh->violated = 1;
        snprintf(sh->vmsg, sizeof sh->vmsg, "%s", msg);
        sh->vlen = E->plen;
        for (int i = 0; i < E->plen; i++) {
            sh->vpath[i] = E->path[i];
            snprintf(sh->vlabels[i], sizeof sh->vlabels[i], "%s", E->labels[i] ? E->labels[i] : "");
        }
    }
    sh->stop = 1;
    unlockSh();
}

static void onSignal(int sig, siginfo_t *si, void *uc)
{
    char b[300];
    ucontext_t *u = uc;
    if (sig == SIGVTALRM) {
        /* 30 s of processor time without one engine step */
        if (E->steps != E->lastSteps) { E->lastSteps = E->steps; return; }
        snprintf(b, sizeof b, "hang: no progress within the time limit (pc %#llx)", (long long) u->uc_mcontext.gregs[REG_RIP]);
    } else
    snprintf(b, sizeof b, "crash: signal %d at address %p (pc %#llx)", sig, si->si_addr, (long long) u->uc_mcontext.gregs[REG_RIP]);
    if (E->replayMode) fprintf(E->out, "  !! %s\n", b);
    violation(b);
    if (E->replayMode) fflush(E->out);
    _exit(3);
}

/* --------------------------------------------------------- memory accesses */
static void __attribute__((noreturn)) failReq(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vsnprintf(E->failmsg, sizeof E->failmsg, fmt, ap); va_end(ap);
    if (!E->started) { fprintf(stderr, "mc: failure before start: %s\n", E->failmsg); _exit(9); }
    request(R_FAIL, 0, "fail");
    __builtin_unreachable();
}

/* index of a word in the access table, or -1 */
static inline long accIndex(u64 a)
{
    if (a >= (u64) E->dataLo && a < (u64) E->dataHi) {
        if (a >= (u64) E->hLo && a < (u64) E->hHi) return -1;
        return (a - (u64) E->dataLo) >> 3;
    }
    long base = (E->dataHi - E->dataLo) / 8 + 1;
    if (a - H_BASE < H_MAX) return base + ((a - H_BASE) >> 3);
    base += H_MAX / 8;
    if (a - STACK_BASE < (u64) MAXF * STACK_STRIDE) return base + ((a - STACK_BASE) >> 3);
    base += MAXF * STACK_STRIDE / 8;
    if (a - 0x210000000UL < MAXF * TLS_SZ) return base + ((a - 0x210000000UL) >> 3);
    base += MAXF * TLS_SZ / 8;
    if (a - P_BASE < P_MAX) return base + ((a - P_BASE) >> 3);
    return -1;
}
#define ACC_TOTAL ((4UL << 20) + H_MAX / 8 + MAXF * STACK_STRIDE / 8 + MAXF * TLS_SZ / 8 + P_MAX / 8 + 64)

static int enabledCount(void)
{
    int i, n = 0;
    for (i = 0; i < S->nf; i++) n += S->f[i].status == F_RUN;
    return n;
}

static void schedPoint(const char *label)
{
    if (!E->started || S->quiet || E->inProbe) return;
    if (S->nf <= 1) return;
    if (enabledCount() < 2) return;
    request(R_SCHED, 0, label);
}

static inline int validAccess(u64 a, u64 n)
{
    if (a - H_BASE < H_MAX) {
        u64 o = a - H_BASE, e = o + n;
        if (e > S->hUsed) return 0;
        for (u64 w = o >> 3; w << 3 < e; w++) {
            u8 v = HSH[w];
            if (v > 8 || v == 0) return 0;
            if (((w + 1) << 3) > e ? (e - (w << 3)) > v : v != 8) return 0;
        }
        return 1;
    }
    if (a - P_BASE < P_MAX) {
        u64 o = a - P_BASE, s = o / P_STRIDE, w = o % P_STRIDE;
        if (s >= S->nslots || S->slot[s].live != 1) return 0;
        return w >= S->slot[s].off && w + n <= (u64) S->slot[s].off + S->slot[s].len;
    }
    return 1;
}

static void sharedAccess(u64 a, u64 n, int write)
{
    /* only called with more than one live fiber */
    int en = enabledCount();
    if (en < 2 || S->quiet || E->inProbe) return;
    int vis = 0;
    for (u64 w = a & ~7UL; w < a + n; w += 8) {
        long i = accIndex(w);
        if (i < 0) continue;
        uint16_t v = E->acc[i], nv = v | (1 << S->cur) | (write ? 0x100 : 0);
        if (v & 0x8000) vis = 1;
        if (nv == v) continue;
        if ((nv & 0x100) && ((nv & 0xff) & ((nv & 0xff) - 1)) && !(nv & 0xC000)) {
            nv |= 0x4000;
            E->sh->newShared = 1;
        }
        __sync_fetch_and_or(&E->acc[i], nv);
    }
    if (vis) request(R_SCHED, 0, write ? "write" : "read");
}

static inline void access_(u64 a, u64 n, int write, void *pc)
{
    if (!E->started) return;
    if (--E->budget < 0) {
        E->budget = 1000000000L;
        failReq("hang: more than %ld memory accesses without finishing a step", E->budget0);
    }
    if (a - H_BASE < (P_BASE + P_MAX - H_BASE)) {
        if (!validAccess(a, n))
            failReq("invalid memory access: %s of %lu bytes at %#lx is outside every live block (pc %p)", write ? "write" : "read", (unsigned long) n, (unsigned long) a, pc);
    } else if (a < 4096)
        failReq("invalid memory access: %s of %lu bytes at NULL+%#lx (pc %p)", write ? "write" : "read", (unsigned long) n, (unsigned long) a, pc);
    if (S->nf > 1) sharedAccess(a, n, write);
}

#define ACC(nm, n, w) void nm(void *p) { access_((u64) p, n, w, __builtin_return_address(0)); }
ACC(__tsan_read1, 1, 0) ACC(__tsan_read2, 2, 0) ACC(__tsan_read4, 4, 0) ACC(__tsan_read8, 8, 0) ACC(__tsan_read16, 16, 0)
ACC(__tsan_write1, 1, 1) ACC(__tsan_write2, 2, 1) ACC(__tsan_write4, 4, 1) ACC(__tsan_write8, 8, 1) ACC(__tsan_write16, 16, 1)
ACC(__tsan_unaligned_read2, 2, 0) ACC(__tsan_unaligned_read4, 4, 0) ACC(__tsan_unaligned_read8, 8, 0) ACC(__tsan_unaligned_read16, 16, 0)
ACC(__tsan_unaligned_write2, 2, 1) ACC(__tsan_unaligned_write4, 4, 1) ACC(__tsan_unaligned_write8, 8, 1) ACC(__tsan_unaligned_write16, 16, 1)
ACC(__tsan_read_write1, 1, 1) ACC(__tsan_read_write2, 2, 1) ACC(__tsan_read_write4, 4, 1) ACC(__tsan_read_write8, 8, 1) ACC(__tsan_read_write16, 16, 1)
ACC(__tsan_unaligned_read_write2, 2, 1) ACC(__tsan_unaligned_read_write4, 4, 1) ACC(__tsan_unaligned_read_write8, 8, 1) ACC(__tsan_unaligned_read_write16, 16, 1)
ACC(__tsan_vptr_read, 8, 0)
void __tsan_vptr_update(void **p, void *v) { access_((u64) p, 8, 1, __builtin_return_address(0)); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) { initEngine(); }
static void rangeAcc(u64 p, u64 n, int w, void *pc) { if (n) access_(p, n, w, pc); if (E->started) E->budget -= n / 8; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { rangeAcc((u64) s, n, 0, __builtin_return_address(0)); rangeAcc((u64) d, n, 1, __builtin_return_address(0)); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { rangeAcc((u64) s, n, 0, __builtin_return_address(0)); rangeAcc((u64) d, n, 1, __builtin_return_address(0)); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { rangeAcc((u64) d, n, 1, __builtin_return_address(0)); return memset(d, c, n); }

long mc_accesses(void) { return E->budget0 - E->budget; }
int mc_mem_valid(const void *p, size_t n) { return (u64) p >= 4096 && validAccess((u64) p, n); }

/* ------------------------------------------------------------- emulated TLS */
struct emutls { u64 size, align; u64 off; void *templ; };
void *__emutls_get_address(struct emutls *c)
{
    initEngine();
    if (!c->off) {
        u64 al = c->align < 8 ? 8 : c->align;
        u32 o = (S->tlsNext + al - 1) & ~(al - 1);
        if (o + c->size > TLS_SZ) { fprintf(stderr, "mc: TLS too big\n"); _exit(9); }
        for (int f = 0; f < MAXF; f++) {
            if (c->templ) memcpy(TLS[f] + o, c->templ, c->size);
            else memset(TLS[f] + o, 0, c->size);
        }
        c->off = o + 1;
        S->tlsNext = (o + c->size + 7) & ~7UL;
    }
    return TLS[S->cur] + (c->off - 1);
}

/* ------------------------------------------------------------------- memory */
static void junk(void *p, u64 n) { memset(p, 0xA5, n); }

static void *hAlloc(u64 n)
{
    u64 o = S->hUsed, need = (n + 15) & ~15UL;
    if (need == 0) need = 16;
    if (o + 16 + need > H_MAX) failReq("harness heap exhausted (leak or runaway malloc of %lu bytes)", (unsigned long) n);
    /* 16 byte guard/size word in front, never valid for the program */
    *(u64 *) (H_BASE + o) = n; *(u64 *) (H_BASE + o + 8) = 0x600DB10C;
    HSH[o / 8] = HSH[o / 8 + 1] = 0;
    junk((void *) (H_BASE + o + 16), need);
    for (u64 w = 0; w < need / 8; w++) {
        u64 left = n > w * 8 ? n - w * 8 : 0;
        HSH[o / 8 + 2 + w] = left >= 8 ? 8 : left;
    }
    S->hUsed = o + 16 + need;
    return (void *) (H_BASE + o + 16);
}

static void *pAlloc(u64 n, int aligned)
{
    if (S->allocLimit && S->pools >= S->allocLimit) return NULL;
    if (S->failAllocs && E->started && !E->inProbe) { if (mc_choose(2, "pool allocation: 1 fails")) return NULL; }
    if (S->nslots >= MAXSLOT || (S->nslots + 1) * P_STRIDE > P_MAX) failReq("runaway heap: more than %d pools", MAXSLOT);
    u32 i = S->nslots++;
    u32 off = aligned ? 0 : 48;
    S->slot[i].off = off; S->slot[i].len = n; S->slot[i].live = 1;
    u8 *p = (u8 *) P_BASE + (u64) i * P_STRIDE + off;
    S->pools++;
    junk(p, n);
    return p;
}

void *__wrap_malloc(size_t n) { initEngine(); return n >= POOLB && n <= P_STRIDE - 64 ? pAlloc(n, 0) : hAlloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
    initEngine();
    if (al > POOLB || (POOLB % al) || n > P_STRIDE) failReq("unexpected posix_memalign(%lu, %lu)", (unsigned long) al, (unsigned long) n);
    void *p = pAlloc(n, 1);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
/* the break is always where the next block of memory will be: somebody else moves it in between */
void *__wrap_sbrk(long n)
{
    initEngine();
    if (n < 0 || n > P_STRIDE) failReq("unexpected sbrk(%ld)", n);
    if (!n) return (u8 *) P_BASE + (u64) S->nslots * P_STRIDE;
    void *p = pAlloc(n, 1);
    return p ? p : (void *) -1;
}
void __wrap_free(void *p)
{
    u64 a = (u64) p;
    if (!p) return;
    if (a - H_BASE < H_MAX) {
        u64 o = a - H_BASE - 16, n = *(u64 *) (H_BASE + o);
        if (*(u64 *) (H_BASE + o + 8) != 0x600DB10C) failReq("invalid free(%p)", p);
        if (HSH[o / 8 + 2] == 0xFD) failReq("double free(%p)", p);
        for (u64 w = 0; w < (n + 7) / 8; w++) HSH[o / 8 + 2 + w] = 0xFD;
        junk(p, n);
        return;
    }
    if (a - P_BASE < P_MAX) {
        u64 s = (a - P_BASE) / P_STRIDE;
        if (s >= S->nslots || S->slot[s].live != 1) failReq("invalid free(%p)", p);
        S->slot[s].live = 2; S->pools--;
        return;
    }
    failReq("invalid free(%p)", p);
}
void *__wrap_realloc(void *p, size_t n)
{
    void *q = __wrap_malloc(n);
    if (p && q) { u64 o = *(u64 *) ((u64) p - 16); memcpy(q, p, o < n ? o : n); __wrap_free(p); }
    return q;
}

void __wrap_abort(void)
{
    if (E->started && S->onAbort) { void (*f)(void) = S->onAbort; S->onAbort = NULL; f(); }
    if (E->started && S->expectAbort) { request(R_DONE, 0, "abort"); }
    failReq("abort() called");
}
void __wrap_exit(int rc) { failReq("exit(%d) called", rc); }
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { failReq("assertion %s failed at %s:%u", a, f, l); }

/* ------------------------------------------------------------ threads model */
struct MMutex { u32 locked, owner; };
struct MBarrier { u32 st, count, waiting, gen; };  /* st: 0 none, 0xBA live, 0xDE destroyed, 0xE1 init failed */
struct MSem { u32 count; };

static void block(int wait, void *obj, u64 val, const char *label)
{
    struct Fiber *f = &S->f[S->cur];
    if (E->inProbe) failReq("blocked (%s) inside a sequential probe", label);
    if (!E->started) { fprintf(stderr, "mc: blocked before start\n"); _exit(9); }
    f->status = F_BLOCK; f->wait = wait; f->obj = obj; f->val = val;
    request(R_BLOCK, 0, label);
}
static void wake(int wait, void *obj, int max)
{
    for (int i = 0; i < S->nf && max; i++)
        if (S->f[i].status == F_BLOCK && S->f[i].wait == wait && S->f[i].obj == obj) {
            S->f[i].status = F_RUN; S->f[i].wait = W_NONE; S->f[i].obj = NULL; S->f[i].val = 0; max--;
        }
}

int __wrap_sched_yield(void);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m_)
{
    struct MMutex *m = (void *) m_;
    initEngine();
    schedPoint("trylock");
    if (E->started) { if ((E->budget -= 20) < 0) { E->budget = 1000000000L; failReq("hang: endless trylock loop"); } }
    if (m->locked) {
        /* it will have to wait: switching away costs no preemption */
        if (E->preemptBound >= 0) __wrap_sched_yield();
        return EBUSY;
    }
    m->locked = 1; m->owner = S->cur + 1;
    return 0;
}
static int blockErr(void) { int e = S->blockErr; S->blockErr = 0; return e; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m_)
{
    struct MMutex *m = (void *) m_;
    initEngine();
    if (S->blockErr) return blockErr();
    schedPoint("lock");
    while (m->locked) block(W_MUTEX, m, 0, "lock");
    m->locked = 1; m->owner = S->cur + 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m_)
{
    struct MMutex *m = (void *) m_;
    schedPoint("unlock");
    if (!m->locked) failReq("unlock of a mutex that is not locked");
    if (m->owner != (u32) S->cur + 1) failReq("unlock of a mutex held by thread %d", m->owner - 1);
    m->locked = 0; m->owner = 0;
    wake(W_MUTEX, m, MAXF);
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, void *a) { memset(m, 0, sizeof(struct MMutex)); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }

int __wrap_pthread_barrier_init(pthread_barrier_t *b_, const pthread_barrierattr_t *at, unsigned n)
{
    struct MBarrier *b = (void *) b_;
    schedPoint("barrier_init");
    if (b->st == 0xBA && b->waiting) failReq("barrier re-initialized while %u threads wait on it", b->waiting);
    if (n == 0) { b->st = 0xE1; return EINVAL; }
    b->st = 0xBA; b->count = n; b->waiting = 0; b->gen = 0;
    return 0;
}
int __wrap_pthread_barrier_destroy(pthread_barrier_t *b_)
{
    struct MBarrier *b = (void *) b_;
    schedPoint("barrier_destroy");
    if (b->st == 0xBA && b->waiting) failReq("barrier destroyed while %u threads wait on it", b->waiting);
    if (b->st != 0xBA && b->st != 0xE1) failReq("destroy of a barrier that is not initialized");
    b->st = 0xDE;
    return 0;
}
int __wrap_pthread_barrier_wait(pthread_barrier_t *b_)
{
    struct MBarrier *b = (void *) b_;
    if (S->blockErr) return blockErr();
    schedPoint("barrier_wait");
    if (b->st != 0xBA) failReq("wait on a barrier that is not initialized");
    if (b->waiting + 1 >= b->count) {
        b->waiting = 0;
        wake(W_BARRIER, b, MAXF);
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    b->waiting++;
    block(W_BARRIER, b, 0, "barrier");
    return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    schedPoint("create");
    if (S->failCreates && !E->inProbe && mc_choose(2, "pthread_create: 1 fails")) return EAGAIN;
    if (S->nf >= MAXF) failReq("harness: too many threads");
    int i = S->nf++;
    memset(TLS[i], 0, TLS_SZ);
    /* TLS initial values */
    memcpy(TLS[i], TLS[MAXF - 1], S->tlsNext);
    fiberInit(i, f, arg);
    *t = (pthread_t) (i + 1);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret)
{
    int i = (int) t - 1;
    if (S->blockErr) return blockErr();
    schedPoint("join");
    if (i < 0 || i >= S->nf) failReq("join of an unknown thread");
    if (S->f[i].status != F_DONE) block(W_JOIN, &S->f[i], 0, "join");
    if (ret) *ret = S->f[i].ret;
    return 0;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t) (S->cur + 1); }
int __wrap_sem_init(sem_t *s_, int p, unsigned n) { schedPoint("sem_init"); *(u32 *) s_ = n; ((u32 *) s_)[1] = 0x5E; return 0; }
int __wrap_sem_destroy(sem_t *s_)
{
    schedPoint("sem_destroy");
    for (int i = 0; i < S->nf; i++) if (S->f[i].status == F_BLOCK && S->f[i].wait == W_SEM && S->f[i].obj == s_) failReq("semaphore destroyed while a thread waits on it");
    ((u32 *) s_)[1] = 0; return 0;
}
int __wrap_sem_post(sem_t *s_) { schedPoint("sem_post"); if (((u32 *) s_)[1] != 0x5E) failReq("post of a semaphore that is not initialized"); ++*(u32 *) s_; wake(W_SEM, s_, MAXF); return 0; }
int __wrap_sem_wait(sem_t *s_)
{
    if (S->blockErr) { errno = blockErr(); return -1; }
    schedPoint("sem_wait");
    if (((u32 *) s_)[1] != 0x5E) failReq("wait on a semaphore that is not initialized");
    while (*(u32 *) s_ == 0) block(W_SEM, s_, 0, "sem_wait");
    --*(u32 *) s_;
    return 0;
}
int __wrap_sem_trywait(sem_t *s_) { schedPoint("sem_trywait"); if (*(u32 *) s_ == 0) { errno = EAGAIN; return -1; } --*(u32 *) s_; return 0; }
/* switching away here costs no preemption */
int __wrap_sched_yield(void)
{
    if (!E->started || S->quiet || E->inProbe || S->nf <= 1 || enabledCount() < 2) return 0;
    request(R_YIELD, 0, "sched_yield");
    return 0;
}

/* --------------------------------------------------------------- harness API */
int mc_choose(int n, const char *label)
{
    if (n <= 1) return 0;
    if (n > 250) failReq("harness: too many alternatives (%d)", n);
    if (E->inProbe) failReq("harness: choice inside a probe (%s)", label);
    return request(R_CHOOSE, n, label);
}
void mc_point(const char *label) { schedPoint(label); }
void mc_fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vsnprintf(E->failmsg, sizeof E->failmsg, fmt, ap); va_end(ap);
    request(R_FAIL, 0, "fail");
    __builtin_unreachable();
}
void mc_done(void) { request(R_DONE, 0, "done"); __builtin_unreachable(); }
void mc_prune(void) { request(R_PRUNE, 0, "prune"); __builtin_unreachable(); }
int mc_probe_begin(void) { if (E->inProbe) failReq("harness: nested probe"); return request(R_PROBE, 0, "probe"); }
void mc_probe_end(void) { request(R_PROBEEND, 0, "probe end"); __builtin_unreachable(); }
void mc_expect_abort(int on) { S->expectAbort = on; }
void mc_on_abort(void (*f)(void)) { S->onAbort = f; }
void mc_fail_creates(int on) { S->failCreates = on; }
void mc_fail_allocs(int on) { S->failAllocs = on; }
void mc_block_error(int err) { S->blockErr = err; }
void mc_alloc_limit(int n) { S->allocLimit = n; }
int mc_pools(void) { return S->pools; }
int mc_self(void) { return S->cur; }
void mc_quiet(int on) { S->quiet += on ? 1 : -1; }
int mc_replaying(void) { return E->replayMode; }
void mc_note(const char *fmt, ...)
{
    va_list ap;
    if (E->replayMode && !E->inProbe) {
        fprintf(E->out, "    [t%d] ", S->cur);
        va_start(ap, fmt); vfprintf(E->out, fmt, ap); va_end(ap);
        fputc('\n', E->out);
    } else if (E->wantFinal && !E->inProbe) {
        /* remember the notes of validated executions as samples */
        u64 l = strlen(E->samplebuf);
        if (l < 700) {
            va_start(ap, fmt); vsnprintf(E->samplebuf + l, sizeof E->samplebuf - l, fmt, ap); va_end(ap);
            l = strlen(E->samplebuf);
            if (l < 900) strcat(E->samplebuf, "; ");
        }
    }
}
void mc_outcome(u64 h)
{
    struct Shared *sh = E->sh;
    if (!h) h = 1;
    for (int i = 0; i < 4096; i++) {
        u64 k = (h + i) & 4095;
        if (sh->outcomes[k] == h) return;
        if (!sh->outcomes[k]) { sh->outcomes[k] = h; __sync_fetch_and_add(&sh->noutcomes, 1); return; }
    }
}
void mc_cover(const char *what)
{
    struct Shared *sh = E->sh;
    for (int i = 0; i < 64; i++) {
        if (!sh->cover[i][0]) {
            lockSh();
            if (!sh->cover[i][0]) snprintf(sh->cover[i], 64, "%s", what);
            unlockSh();
        }
        if (!strcmp(sh->cover[i], what)) { __sync_fetch_and_add(&sh->coverct[i], 1); return; }
    }
}
int mc_arg(const char *name, int dflt)
{
    size_t l = strlen(name);
    for (int i = 1; i < E->argc; i++)
        if (!strncmp(E->argv[i], name, l) && E->argv[i][l] == '=') return atoi(E->argv[i] + l + 1);
    return dflt;
}
static const char *sarg(const char *name, const char *dflt)
{
    size_t l = strlen(name);
    for (int i = 1; i < E->argc; i++)
        if (!strncmp(E->argv[i], name, l) && E->argv[i][l] == '=') return E->argv[i] + l + 1;
    return dflt;
}

/* ------------------------------------------------------------------- engine */
MCG static volatile int engineUp = 0;

static void initEngine(void)
{
    if (engineUp) return;
    engineUp = 1;
    fixmap(0x200000000UL, sizeof(struct PState) + 4096);
    fixmap(0x210000000UL, MAXF * TLS_SZ);
    fixmap(0x220000000UL, H_MAX / 8 + 64);
    fixmap(0x230000000UL, sizeof(struct Engine));
    fixmap(STACK_BASE, (u64) MAXF * STACK_STRIDE + STACK_SZ);
    fixmap(H_BASE, H_MAX);
    fixmap(P_BASE, P_MAX);
    for (int i = 0; i <= MAXF; i++) mprotect((void *) (STACK_BASE + (u64) i * STACK_STRIDE), 4096, PROT_NONE);
    S->tlsNext = 16;
    S->nf = 1;
    S->f[0].status = F_RUN;
    E->dataLo = (u8 *) ((u64) __data_start & ~7UL); E->dataHi = (u8 *) (((u64) _end + 7) & ~7UL);
    E->hLo = (u8 *) __start_mc_harness; E->hHi = (u8 *) __stop_mc_harness;
    E->budget = E->budget0 = 1000000000L;
}
static void __attribute__((constructor(101))) earlyInit(void) { alarm(60); initEngine(); }


static void finish(void)
{
    /* one complete execution */
    u64 n = __sync_fetch_and_add(&E->sh->execs, 1);
    (void) n;
    edge(E->curNode, DONE_NODE);
    if ((u64) E->plen > E->sh->maxpath) E->sh->maxpath = E->plen;
    /* keep the 1st, 10th and 100th execution of this worker for validation */
    E->skipVal++;
    if (E->nval < NVAL && (E->skipVal == 1 || E->skipVal == 10 || E->skipVal == 100)) {
        struct Val *v = &E->val[E->nval++];
        v->len = E->plen; memcpy(v->p, E->path, E->plen * sizeof v->p[0]);
        v->h = stateHash2(0);
    }
}

static int pushTask(const struct PE *p, int len, u64 node)
{
    int ok = 0;
    lockSh();
    if (E->sh->qn < TASKS) {
        struct Task *t = &E->sh->q[E->sh->qn++];
        t->len = len; t->node = node; memcpy(t->p, p, len * sizeof *p);
        ok = 1;
    }
    unlockSh();
    return ok;
}

static struct Frame *pushFrame(void)
{
    if (E->nframes == E->capframes) {
        int nc = E->capframes ? E->capframes * 2 : 64;
        struct Frame *nf = mmap(NULL, nc * sizeof *nf, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (E->frames) { memcpy(nf, E->frames, E->capframes * sizeof *nf); munmap(E->frames, E->capframes * sizeof *nf); }
        E->frames = nf; E->capframes = nc;
    }
    return &E->frames[E->nframes++];
}

/* order of the fibers at a scheduling choice: current first */
static int nthEnabled(int k)
{
    int cur = S->cur;
    if (S->f[cur].status == F_RUN) { if (k == 0) return cur; k--; }
    for (int i = 0; i < S->nf; i++)
        if (i != cur && S->f[i].status == F_RUN) { if (k == 0) return i; k--; }
    return -1;
}

static void applyChoice(int req, int c)
{
    if (req == R_CHOOSE) { E->reqRet = c; return; }
    int t = nthEnabled(c);
    if (req != R_YIELD && S->f[S->cur].status == F_RUN && t != S->cur && S->preempt > 0) S->preempt--;
    S->cur = t;
    E->reqRet = 0;
}

/* Run from the current program state until everything reachable from it has
 * been explored (or, in a replay, to the end of the execution). */
static void explore(u64 taskNode)
{
    E->nframes = 0;
    E->curNode = 0;
    while (1) {
        struct Frame *fr;
        int req, n, k;
        if (E->sh->stop && !E->replayMode && !E->wantFinal) return;
        E->steps++;
        mc_swap(&E->esp, S->f[S->cur].sp);
        req = E->req;
        switch (req) {
        case R_FAIL:
            if (E->replayMode) fprintf(E->out, "  !! thread %d: %s\n", S->cur, E->failmsg);
            violation(E->failmsg);
            return;
        case R_DONE: goto complete;
        case R_PRUNE:
            if (!E->wantFinal && !E->replayMode) { __sync_fetch_and_add(&E->sh->pruned, 1); edge(E->curNode, DONE_NODE); }
            goto backtrack;
        case R_PROBE:
            snapSave(&E->probe); E->inProbe = 1; E->reqRet = 1;
            continue;
        case R_PROBEEND:
            if (!E->inProbe) { violation("harness: probe end without begin"); return; }
            snapLoad(&E->probe); E->inProbe = 0; E->reqRet = 0;
            continue;
        case R_EXIT:
            S->f[S->cur].status = F_DONE;
            if (E->replayMode) fprintf(E->out, "  thread %d exits\n", S->cur);
            wake(W_JOIN, &S->f[S->cur], MAXF);
            req = R_BLOCK;
            /* fall through */
        case R_BLOCK:
        case R_SCHED:
        case R_YIELD:
            n = enabledCount();
            if (n == 0) {
                int all = 1, l;
                char b[400];
                for (int i = 0; i < S->nf; i++) all &= S->f[i].status == F_DONE;
                if (all) goto complete;
                l = snprintf(b, sizeof b, "deadlock:");
                for (int i = 0; i < S->nf; i++) if (S->f[i].status == F_BLOCK)
                    l += snprintf(b + l, sizeof b - l, " thread %d waits for %s;", i,
                                  S->f[i].wait == W_MUTEX ? "a mutex" : S->f[i].wait == W_BARRIER ? "a barrier" : S->f[i].wait == W_JOIN ? "a thread" : "a semaphore");
                if (E->replayMode) fprintf(E->out, "  !! %s\n", b);
                violation(b);
                return;
            }
            if ((u64) n > E->sh->maxenabled) E->sh->maxenabled = n;
            if (req == R_SCHED && E->preemptBound >= 0 && S->preempt == 0) n = 1;
            if (n == 1) { applyChoice(req, 0); continue; }
            break;
        case R_CHOOSE:
            n = E->reqN;
            break;
        default:
            violation("harness: bad request"); return;
        }
        /* a real choice among n */
        if (E->plen >= MAXPATH) {
            if (E->replayMode || E->wantFinal) { violation("path too long"); return; }
            E->sh->capped = 2; E->sh->stop = 1; return;
        }
        E->labels[E->plen] = E->label;
        E->budget = E->budget0;
        if (E->plen < E->replayLen || E->wantFinal || E->replayMode) {
            struct PE pe = { 0, (u8) n };
            if (E->plen < E->replayLen) pe = E->path[E->plen];
            if (pe.n != n || pe.c >= n) { E->diverged = 1; E->sh->vdiverged++; return; }
            E->path[E->plen++] = pe;
            if (E->replayMode) {
                if (req == R_CHOOSE) fprintf(E->out, "  t%d choose %s = %d of %d\n", S->cur, E->label, pe.c, n);
                else if (nthEnabled(pe.c) != S->cur) fprintf(E->out, "  switch t%d (at %s) -> t%d\n", S->cur, E->label, nthEnabled(pe.c));
            }
            if (E->plen == E->replayLen) E->curNode = taskNode;
            applyChoice(req, pe.c);
            continue;
        }
        u64 h = stateHash() ^ (req == R_CHOOSE ? 0 : 0x5bd1e995UL);
        if (h < 2) h += 2;
        if (E->curNode) edge(E->curNode, h);
        if (E->target && h == E->target) { violation("livelock: from this reachable state no schedule lets all threads finish"); return; }
        if (!visit(h)) goto backtrack;
        if ((E->sh->states & 255) == 0) {
            if ((E->maxStates && E->sh->states > E->maxStates) || (E->maxTime > 0 && now() - E->t0 > E->maxTime)) { E->sh->capped = 1; E->sh->stop = 1; return; }
            if (E->sh->newShared && now() - E->t0 > 2 << (E->passNo < 6 ? E->passNo : 6)) { E->sh->stop = 1; return; }
        }
        E->curNode = h;
        __sync_fetch_and_add(&E->sh->transitions, n);
        /* give alternatives to idle workers, keep the rest here */
        k = n;
        if (E->nworkers > 1 && E->sh->qn < E->nworkers)
            for (; k > 1; k--) {
                E->path[E->plen].c = k - 1; E->path[E->plen].n = n;
                if (!pushTask(E->path, E->plen + 1, h)) break;
            }
        if (k > 1) {
            fr = pushFrame();
            snapSave(&fr->snap);
            fr->keep = k; fr->n = n; fr->next = 1; fr->plen = E->plen; fr->req = req; fr->node = h; fr->label = E->label;
        }
        E->path[E->plen].c = 0; E->path[E->plen].n = n; E->plen++;
        applyChoice(req, 0);
        continue;
complete:
        if (E->wantFinal) { E->finalHash = stateHash2(0); return; }
        if (E->replayMode) { fprintf(E->out, "  execution completes\n"); return; }
        finish();
backtrack:
        if (E->inProbe) { violation("harness: execution ended inside a probe"); return; }
        if (E->replayMode || E->wantFinal) return;
        while (E->nframes > 0 && E->frames[E->nframes - 1].next >= E->frames[E->nframes - 1].keep) E->nframes--;
        if (E->nframes == 0) return;
        fr = &E->frames[E->nframes - 1];
        snapLoad(&fr->snap);
        E->plen = fr->plen; E->replayLen = 0; E->curNode = fr->node;
        E->labels[E->plen] = fr->label;
        E->path[E->plen].c = fr->next++; E->path[E->plen].n = fr->n; E->plen++;
        E->budget = E->budget0;
        applyChoice(fr->req, E->path[E->plen - 1].c);
    }
}

static void runPath(const struct PE *p, int len, u64 node)
{
    E->inProbe = 0;
    snapLoad(&E->root);
    memcpy(E->path, p, len * sizeof *p);
    E->plen = 0; E->replayLen = len;
    E->budget = E->budget0;
    E->nframes = 0;
    explore(node);
}

static void installSignals(void)
{
    stack_t ss; struct sigaction sa;
    int sig[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGABRT };
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, NULL);
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (unsigned i = 0; i < sizeof sig / sizeof *sig; i++) sigaction(sig[i], &sa, NULL);
}

static void armWatchdog(void)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = it.it_interval.tv_sec = 30;
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static void workerMain(int w)
{
    E->worker = w;
    installSignals();
    armWatchdog();
    int idle = 0;
    struct Task *t = mmap(NULL, sizeof *t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    while (!E->sh->stop) {
        int got = 0;
        if (E->sh->qn) {
            lockSh();
            if (E->sh->qn) {
                struct Task *q = &E->sh->q[--E->sh->qn];
                t->len = q->len; t->node = q->node; memcpy(t->p, q->p, q->len * sizeof q->p[0]);
                got = 1;
                if (idle) { __sync_fetch_and_sub(&E->sh->idle, 1); idle = 0; }
            }
            unlockSh();
        }
        if (!got) {
            if (!idle) { __sync_fetch_and_add(&E->sh->idle, 1); idle = 1; }
            if (E->sh->idle == E->nworkers && E->sh->qn == 0) break;
            usleep(100);
            continue;
        }
        runPath(t->p, t->len, t->node);
    }
    /* determinism: replay some complete executions from the beginning, on the real code */
    if (!E->sh->violated) {
        for (int i = 0; i < E->nval; i++) {
            struct Val *v = &E->val[i];
            E->wantFinal = 1; E->diverged = 0; E->samplebuf[0] = 0; E->finalHash = 0;
            runPath(v->p, v->len, 0);
            E->wantFinal = 0;
            if (E->diverged || E->finalHash != v->h) { E->sh->vdiverged++; continue; }
            __sync_fetch_and_add(&E->sh->validated, 1);
            lockSh();
            if (E->sh->nsamples < 8) {
                char *d = E->sh->sample[E->sh->nsamples++];
                int l = snprintf(d, 1000, "choices ");
                for (int j = 0; j < v->len && l < 260; j++) l += snprintf(d + l, 1000 - l, "%s%d/%d", j ? "," : "", v->p[j].c, v->p[j].n);
                if (E->samplebuf[0]) snprintf(d + l, 1000 - l, ": %s", E->samplebuf);
            }
            unlockSh();
        }
    }
    _exit(0);
}

static void *mainFiber(void *a) { mc_main(); return NULL; }

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char) *s < 32) fputc(' ', f);
        else fputc(*s, f);
    }
    fputc('"', f);
}

static int cmpEdge(const void *a, const void *b)
{
    u64 x = ((const struct Edge *) a)->b, y = ((const struct Edge *) b)->b;
    return x < y ? -1 : x > y;
}
static int cmpU(const void *a, const void *b) { u64 x = *(const u64 *) a, y = *(const u64 *) b; return x < y ? -1 : x > y; }

/* every visited state must reach DONE_NODE: returns a state that does not, or 0 */
static u64 liveCheck(void)
{
    u64 n = 0, i, nn = 0, head = 0, tail = 0;
    for (i = 0; i < (u64) E->nworkers; i++) n += E->sh->edgeCt[i];
    if (!n) return 0;
    struct Edge *e = mmap(NULL, n * sizeof *e, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 k = 0;
    for (i = 0; i < (u64) E->nworkers; i++) { memcpy(e + k, E->edges[i], E->sh->edgeCt[i] * sizeof *e); k += E->sh->edgeCt[i]; }
    qsort(e, n, sizeof *e, cmpEdge);
    u64 *nodes = mmap(NULL, (2 * n + 2) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (i = 0; i < n; i++) { nodes[nn++] = e[i].a; nodes[nn++] = e[i].b; }
    qsort(nodes, nn, 8, cmpU);
    u64 m = 0;
    for (i = 0; i < nn; i++) if (nodes[i] > 1 && (m == 0 || nodes[m - 1] != nodes[i])) nodes[m++] = nodes[i];
    u8 *ok = mmap(NULL, m + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u64 *queue = mmap(NULL, (m + 1) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    queue[tail++] = DONE_NODE;
    while (head < tail) {
        u64 d = queue[head++];
        /* first edge with b == d */
        u64 lo = 0, hi = n;
        while (lo < hi) { u64 mid = (lo + hi) / 2; if (e[mid].b < d) lo = mid + 1; else hi = mid; }
        for (; lo < n && e[lo].b == d; lo++) {
            u64 a = e[lo].a, l2 = 0, h2 = m;
            if (a <= 1) continue;
            while (l2 < h2) { u64 mid = (l2 + h2) / 2; if (nodes[mid] < a) l2 = mid + 1; else h2 = mid; }
            if (!ok[l2]) { ok[l2] = 1; queue[tail++] = a; }
        }
    }
    u64 bad = 0;
    for (i = 0; i < m; i++) if (!ok[i]) { bad = nodes[i]; break; }
    munmap(e, n * sizeof *e); munmap(nodes, (2 * n + 2) * 8); munmap(queue, (m + 1) * 8); munmap(ok, m + 1);
    return bad;
}

static void resetShared(void)
{
    struct Shared *sh = E->sh;
    madvise(sh, sizeof *sh, MADV_REMOVE);
    memset((void *) sh, 0, offsetof(struct Shared, q));
    memset((void *) sh->sample, 0, sizeof sh->sample);
    sh->q[0].len = 0; sh->q[0].node = 0; sh->qn = 1;
    madvise(E->visited, (E->vmask + 1) * 8, MADV_REMOVE);
}

static void pass(void)
{
    pid_t pid[MAXW];
    resetShared();
    E->t0 = now();
    fflush(NULL);
    for (int w = 0; w < E->nworkers; w++) {
        pid[w] = fork();
        if (pid[w] == 0) workerMain(w);
        if (pid[w] < 0) { perror("fork"); _exit(9); }
    }
    for (int w = 0; w < E->nworkers; w++) {
        int st = 0;
        while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR);
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3))) {
            E->sh->stop = 1; E->sh->capped = 3;
            fprintf(stderr, "mc: worker %d ended with status %#x\n", w, st);
        }
    }
}

static void *sharedMap(u64 sz)
{
    void *p = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
    return p;
}

/* replay the recorded violation in a child; 1 if it fails again with the same message */
static int confirm(const struct PE *p, int len, const char *msg, int verbose, FILE *out)
{
    pid_t pid;
    resetShared();
    E->sh->qn = 0;
    fflush(NULL);
    pid = fork();
    if (pid == 0) {
        installSignals();
        armWatchdog();
        E->replayMode = 1; E->out = out; E->budget0 *= 4;
        if (!verbose) E->out = fopen("/dev/null", "w");
        runPath(p, len, 0);
        if (E->diverged) fprintf(E->out, "  replay DIVERGED at step %d\n", E->plen);
        fflush(E->out);
        _exit(E->diverged ? 4 : 0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 0;
    if (!E->sh->violated) return 0;
    if (msg && strncmp(msg, E->sh->vmsg, 8)) return 0;
    return 1;
}

int main(int argc, char **argv)
{
    const char *outf;
    int passes = 0, rc = 0, w;
    FILE *f;
    initEngine();
    E->argc = argc; E->argv = argv;
    E->nworkers = mc_arg("workers", 8);
    E->checkLive = mc_arg("live", 0);
    E->preemptBound = mc_arg("preempt", -1);
    E->maxStates = (u64) mc_arg("maxkstates", 0) * 1000;
    E->maxTime = mc_arg("maxtime", 0);
    E->budget0 = (long) mc_arg("mbudget", 30) * 1000000;
    outf = sarg("out", NULL);
    E->sh = sharedMap(sizeof *E->sh);
    int lg = mc_arg("lgvisited", 23);
    E->vmask = (1UL << lg) - 1;
    E->visited = sharedMap((E->vmask + 1) * 8);
    E->acc = sharedMap(ACC_TOTAL * 2);
    if (E->checkLive) for (w = 0; w < E->nworkers; w++) E->edges[w] = sharedMap(EDGE_MAX * sizeof(struct Edge));
    if ((u64) (E->dataHi - E->dataLo) / 8 > (4UL << 20)) { fprintf(stderr, "mc: data too big\n"); return 9; }
    if (E->hLo < E->dataLo || E->hHi > E->dataHi) { fprintf(stderr, "mc: harness section outside of the data segment\n"); return 9; }
    if (!mc_arg("verbose", 0)) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0 && !sarg("replay", NULL)) dup2(nul, 2); }

    /* the initial state */
    S->preempt = E->preemptBound;
    fiberInit(0, mainFiber, NULL);
    S->cur = 0;
    E->started = 1;
    alarm(0);
    snapSave(&E->root);

    if (sarg("replay", NULL)) {
        /* replay=FILE: lines "shared I I I...", "path c/n c/n ..." */
        struct PE *p = sharedMap(MAXPATH * sizeof *p); int n = 0; /* outside of the program's data */
        FILE *r = fopen(sarg("replay", NULL), "r");
        char *line = sharedMap(1 << 20);
        if (!r) { perror("replay"); return 9; }
        while (fgets(line, 1 << 20, r)) {
            char *q = line;
            if (!strncmp(line, "shared", 6)) { long v; int k; q += 6; while (sscanf(q, "%ld%n", &v, &k) == 1) { E->acc[v] |= 0x8000; q += k; } }
            if (!strncmp(line, "path", 4)) { int c, m, k; q += 4; while (sscanf(q, "%d/%d%n", &c, &m, &k) == 2) { p[n].c = c; p[n].n = m; n++; q += k; } }
        }
        rc = confirm(p, n, NULL, 1, stdout);
        printf(rc ? "REPRODUCED: %s\n" : "NOT REPRODUCED\n", E->sh->vmsg);
        return rc ? 1 : 0;
    }

    double t0 = now();
    do {
        for (u64 i = 0; passes && i < ACC_TOTAL; i++) {
            /* promote what the last pass found (only touched pages matter) */
            if ((i & 2047) == 0) {
                /* skip untouched pages quickly */
                unsigned char v = 0;
                if (mincore((void *) ((u64) &E->acc[i] & ~4095UL), 4096, &v) == 0 && !(v & 1)) { i += 2047; continue; }
            }
            if (E->acc[i] & 0x4000) E->acc[i] = 0x8000 | (E->acc[i] & 0x3fff);
        }
        E->passNo = passes;
        pass();
        passes++;
    } while (!E->sh->violated && E->sh->newShared && E->sh->capped != 3 && passes < 60 && (E->maxTime <= 0 || now() - t0 < 4 * E->maxTime));
    if (!E->sh->violated && E->sh->newShared) E->sh->capped = 4;

    u64 bad = 0;
    if (!E->sh->violated && E->checkLive && !E->sh->capped && (bad = liveCheck())) {
        E->target = bad;
        pass();
        if (!E->sh->violated) { E->sh->capped = 5; }
    }
    /* results */
    struct Shared *Rp = sharedMap(sizeof *Rp);
    memcpy((void *) Rp, (void *) E->sh, offsetof(struct Shared, q));
#define R (*Rp)
    int confirmed = -1;
    if (R.violated && !E->target) {
        confirmed = confirm(R.vpath, R.vlen, R.vmsg, 0, NULL) && confirm(R.vpath, R.vlen, R.vmsg, 0, NULL);
    } else if (R.violated) confirmed = 1;
    f = outf ? fopen(outf, "w") : stdout;
    if (!f) { perror(outf); return 9; }
    fprintf(f, "{\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"pruned\":%lu,\"max_choices\":%lu,\"validated\":%lu,\"diverged\":%lu,\"outcomes\":%d,\"passes\":%d,\"capped\":%d,\"max_enabled\":%lu,\"wall\":%.2f,\"live\":%d,\"preempt\":%d",
            R.states, R.transitions, R.execs, R.pruned, R.maxpath, R.validated, R.vdiverged, R.noutcomes, passes, R.capped, R.maxenabled, now() - t0, E->checkLive, E->preemptBound);
    fprintf(f, ",\"cover\":{");
    for (int i = 0, c = 0; i < 64; i++) if (R.cover[i][0]) { if (c++) fputc(',', f); jstr(f, R.cover[i]); fprintf(f, ":%lu", R.coverct[i]); }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < R.nsamples; i++) { if (i) fputc(',', f); jstr(f, R.sample[i]); }
    fprintf(f, "]");
    if (R.violated) {
        fprintf(f, ",\"violation\":"); jstr(f, R.vmsg);
        fprintf(f, ",\"confirmed\":%d,\"path\":\"", confirmed);
        for (int i = 0; i < R.vlen; i++) fprintf(f, "%s%d/%d", i ? " " : "", R.vpath[i].c, R.vpath[i].n);
        fprintf(f, "\",\"labels\":[");
        for (int i = 0; i < R.vlen; i++) { if (i) fputc(',', f); jstr(f, R.vlabels[i]); }
        fprintf(f, "],\"shared\":[");
        int c = 0;
        for (u64 i = 0; i < ACC_TOTAL; i++) {
            if ((i & 2047) == 0) {
                unsigned char v = 0;
                if (mincore((void *) ((u64) &E->acc[i] & ~4095UL), 4096, &v) == 0 && !(v & 1)) { i += 2047; continue; }
            }
            if (E->acc[i] & 0x8000) fprintf(f, "%s%lu", c++ ? "," : "", (unsigned long) i);
        }
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
    if (outf) fclose(f);
    return R.violated ? 1 : R.capped == 3 || R.vdiverged ? 9 : 0;
}
