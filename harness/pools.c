/* C17: the pool allocators over a model of the system's memory.
 *
 * The library is compiled with malloc, free, mmap, munmap, sbrk and
 * posix_memalign renamed to the functions below, which hand out parts of an
 * arena, at chosen places, or refuse.
 *
 * mode 0: sequences of requests and returns of pools.
 * mode 1: two threads request pools. */
#undef malloc
#undef free
#undef mmap
#undef munmap
#undef sbrk
#undef posix_memalign
#undef perror
#undef fprintf
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include "ggggc/gc.h"
#include "ggggc-internals.h"
#include "mc.h"

#define FAST __attribute__((no_sanitize("thread")))
#define PB ((size_t) GGGGC_POOL_BYTES)
#ifndef ARENA_POOLS
#define ARENA_POOLS 24
#endif
#define ARENA (PB * ARENA_POOLS)
#define PAGE 4096

enum { FOREIGN, OURS /* the allocator's */, BACK /* a pool that was given back */, USERS, FIRST /* the collector's own pool */, POOL0 = 8 };
#define ALIGN (PB > PAGE ? PB : PAGE)
static MCG unsigned char arena0[ARENA + ALIGN];
#define arena ((unsigned char *) (((size_t) arena0 + ALIGN - 1) & ~(size_t) (ALIGN - 1)))
static MCG unsigned char owner[ARENA];
static MCG size_t lo, hi;           /* what is in between was never handed out */
static MCG int callsA[8], refusedA[8];  /* in this request: answers, and was the last one a refusal */
#define calls callsA[mc_self()]
#define refused refusedA[mc_self()]
static MCG int refusals;            /* how many more there may be */
static MCG int must;                /* this request must not fail */
static MCG int policy, changes, trim;
static MCG int foreignMoves;

#define PAT(o) ((unsigned char) ((o) == FOREIGN ? 0xF1 : 0x40 + (o)))

static size_t off(const void *p, size_t n, const char *what)
{
    size_t o = (size_t) ((const unsigned char *) p - arena);
    mc_assert((const unsigned char *) p >= arena && o <= ARENA && n <= ARENA - o, "%s: not memory of the system", what);
    return o;
}

static void own(size_t a, size_t n, int o)
{
    memset(owner + a, o, n);
    if (o == FOREIGN) memset(arena + a, PAT(FOREIGN), n);
    else if (o == OURS || o == USERS) memset(arena + a, 0xA7, n);  /* junk */
}

static MCG int up;      /* 1: only constructors have run, 2: exploring */
static int pick(int n, const char *what) { return up == 2 ? mc_choose(n, what) : 0; }
static void sys(const char *what)
{
    if (up == 2) { mc_point(what); mc_quiet(1); }
    if (!up) {
        up = 1;
        memset(arena, PAT(FOREIGN), ARENA);
        memset(owner, FOREIGN, ARENA);
        lo = PB; hi = ARENA - PB;
    }
}
static void done(void) { if (up == 2) mc_quiet(0); }

static int refuse(const char *what)
{
    if (up != 2) return 0;
    if (!refusals) return 0;
    if (!mc_choose(2, what)) return 0;
    refusals--;
    return 1;
}

static void answer(int granted)
{
    if (up != 2) return;
    calls++;
    refused = !granted;
    if (must) mc_expect_abort(!granted);
    if (!granted) mc_cover("refused");
}

/* a place for n bytes with one of the residues modulo the pool size */
static size_t place(size_t n, const size_t *res, int nres)
{
    size_t r = res[pick(nres, "residue")], a;
    if (pick(2, "below")) {
        size_t top = hi - n;
        mc_assert(hi - lo >= n + 2 * PB, "harness: arena full");
        a = top - ((top - r) & (PB - 1));
        hi = a;
    } else {
        mc_assert(hi - lo >= n + 2 * PB, "harness: arena full");
        a = lo + ((r - lo) & (PB - 1));
        lo = a + n;
    }
    if (up == 2) mc_cover(a & (PB - 1) ? "unaligned" : "aligned");
    return a;
}

#ifdef GGGGC_USE_SBRK
static size_t brkAt(void) { return lo; }

void *sys_sbrk(intptr_t n)
{
    size_t a;
    sys("sbrk");
    if (foreignMoves && pick(2, "somebody else's sbrk")) {
        foreignMoves--;
        own(lo, 48, FOREIGN); lo += 48;
        mc_cover("moved by somebody else");
    }
    mc_assert(n >= 0, "sbrk: given back memory");
    a = brkAt();
    if (n == 0) { done(); return arena + a; }
    if (refuse("sbrk")) { answer(0); done(); errno = ENOMEM; return (void *) -1; }
    mc_assert(hi - lo >= (size_t) n + 2 * PB, "harness: arena full");
    own(a, n, OURS);
    lo = a + n;
    answer(1);
    done();
    return arena + a;
}

static MCG struct { size_t a, n; int top; } chunk[32];
static MCG int nchunk;
void *sys_malloc(size_t n)
{
    size_t a;
    int i;
    sys("malloc");
    /* 0: from elsewhere, 1: from the break, 2: the same, taking more, 3: refused */
    if (up != 2) policy = 3; else if (policy < 0) policy = pick(4, "malloc");
    else if (changes && pick(2, "malloc changes")) { changes--; policy = pick(4, "malloc"); }
    if (policy == 3) { done(); return NULL; }
    n = (n + 15) & ~(size_t) 15;
    mc_assert(hi - lo >= n + 5 * PB, "harness: arena full");
    if (policy == 0) {
        hi -= n + 16; hi &= ~(size_t) 15; a = hi;
    } else {
        a = (lo + 31) & ~(size_t) 15;
        lo = a + n;
        if (policy == 2) lo += PB / 4 * 3;
    }
    own(a, n, USERS);
    for (i = 0; i < nchunk && chunk[i].n; i++);
    mc_assert(i < 32, "harness: too many chunks");
    if (i == nchunk) nchunk++;
    chunk[i].a = a; chunk[i].n = n; chunk[i].top = policy == 1;
    done();
    return arena + a;
}
void sys_free(void *p)
{
    int i;
    sys("free");
    for (i = 0; i < nchunk; i++) if (chunk[i].n && arena + chunk[i].a == p) break;
    mc_assert(i < nchunk, "freed what malloc did not give");
    own(chunk[i].a, chunk[i].n, FOREIGN);
    if (chunk[i].top && chunk[i].a + chunk[i].n == lo) {
        if (trim < 0) trim = pick(2, "free lowers the break");
        if (trim) { lo = chunk[i].a; mc_cover("break lowered"); }
    }
    chunk[i].n = 0;
    done();
}
#else
void *sys_malloc(size_t n)
{
    static const size_t res[] = {16, 0, PB / 2, PB - 16};
    size_t a;
    sys("malloc");
    if (refuse("malloc") || (up != 2 && n > 2 * PB)) { answer(0); done(); errno = ENOMEM; return NULL; }
    a = place(n, res, 4);
    own(a, n, OURS);
    answer(1);
    done();
    return arena + a;
}
void sys_free(void *p) { mc_fail("freed memory"); }
void *sys_sbrk(intptr_t n) { mc_fail("sbrk"); }
#endif

int sys_memalign(void **p, size_t align, size_t n)
{
    size_t res[2], a;
    sys("memalign");
    mc_assert(align >= sizeof(void *) && !(align & (align - 1)), "posix_memalign: bad alignment");
    if (refuse("memalign")) { answer(0); done(); *p = (void *) 1; return ENOMEM; }
    /* any address with that alignment */
    res[0] = align & (PB - 1); res[1] = 0;
    a = place(n, res, align >= PB ? 1 : 2);
    if (align < PB && pick(2, "one more")) { mc_prune(); }
    own(a, n, OURS);
    answer(1);
    *p = arena + a;
    done();
    return 0;
}

static MCG size_t pageRes[64];
void *sys_mmap(void *at, size_t n, int prot, int flags, int fd, long offset)
{
    size_t a;
    int i, k = PB > PAGE ? PB / PAGE : 1;
    sys("mmap");
    mc_assert(n > 0, "mmap: empty");
    n = (n + PAGE - 1) & ~(size_t) (PAGE - 1);
    if (refuse("mmap")) { answer(0); done(); errno = ENOMEM; return (void *) -1; }
    for (i = 0; i < k; i++) pageRes[i] = i * PAGE;
    a = place(n, pageRes, k);
    mc_assert(!(a & (PAGE - 1)), "harness: mmap alignment");
    own(a, n, OURS);
    answer(1);
    done();
    return arena + a;
}
FAST int sys_munmap(void *p, size_t n)
{
    size_t a, i;
    sys("munmap");
    mc_assert(n > 0, "munmap: empty");
    n = (n + PAGE - 1) & ~(size_t) (PAGE - 1);
    a = off(p, n, "munmap");
    mc_assert(!(a & (PAGE - 1)), "munmap: not page aligned");
    for (i = 0; i < n; i++) mc_assert(owner[a + i] == OURS, "munmap: gave back %s", owner[a + i] == FOREIGN ? "somebody else's memory" : "a pool in use");
    own(a, n, FOREIGN);
    done();
    return 0;
}
void sys_perror(const char *s) { }
int sys_fprintf(void *f, const char *fmt, ...) { return 0; }

/* ---- pools in use ---- */
#define MAXP 64
static MCG struct GGGGC_Pool *pools[MAXP];
static MCG int np, inUse, given, back;

static FAST void intact(const char *when)
{
    size_t i;
    for (i = 0; i < ARENA; i++) {
        if (!(i & 63) && !memcmp(owner + i, owner + i + 1, 63)) {
            /* the same owner all along */
            if ((owner[i] != FOREIGN && owner[i] < POOL0) || (arena[i] == PAT(owner[i]) && !memcmp(arena + i, arena + i + 1, 63))) { i += 63; continue; }
        }
        if (owner[i] == FOREIGN || owner[i] >= POOL0)
            mc_assert(arena[i] == PAT(owner[i]), "%s: %s was overwritten (byte %d of the arena)", when, owner[i] == FOREIGN ? "somebody else's memory" : "another pool", (int) i);
    }
}

static FAST int request(int mustNot)
{
    struct GGGGC_Pool *p;
    size_t a, i;
    int k, o;
    mc_quiet(1);
    calls = refused = 0; policy = trim = -1;
    mc_quiet(0);
    if (mustNot) { must = 1; mc_cover("must not fail"); }
    p = ggggc_newPool(mustNot);
    mc_quiet(1);
    must = 0; mc_expect_abort(0);
    mc_note("newPool(%d) = %ld after %d calls%s", mustNot, p ? (long) ((unsigned char *) p - arena) : -1L, calls, refused ? ", refused" : "");
    if (!p) {
        mc_assert(!mustNot, "a request that must not fail returned nothing");
        mc_assert(refused, "a request failed although the system did not refuse memory");
        if (!mc_arg("mode", 0)) mc_assert(!back, "a request failed although a pool that was given back is free");
        mc_cover("reported");
        mc_quiet(0);
        return 0;
    }
    a = off(p, PB, "newPool");
#if !defined(GGGGC_COLLECTOR_PORTABLEMS) && !defined(GGGGC_USE_PORTABLE_ALLOCATOR)
    mc_assert(!((size_t) p & (PB - 1)), "a pool is not aligned to the pool size: at %ld of the arena", (long) a);
#endif
    mc_assert(!((size_t) p & (sizeof(void *) - 1)), "a pool is not aligned");
    o = owner[a];
    for (i = 0; i < PB; i++)
        mc_assert((owner[a + i] == OURS || owner[a + i] == BACK) && owner[a + i] == o, "a pool at %ld contains %s", (long) a,
            owner[a + i] == FOREIGN ? "memory that is not the allocator's" : owner[a + i] == USERS ? "memory that malloc handed out" : owner[a + i] >= POOL0 ? "part of another pool" : "parts of different blocks");
    if (o == BACK) { back--; mc_cover("reused"); }
    mc_assert(p->next == NULL && p->free == p->start && p->survivors == 0 && (unsigned char *) p->end == (unsigned char *) p + PB, "a pool's header is wrong");
    mc_assert((unsigned char *) p->start >= (unsigned char *) (p) + 4 * sizeof(void *) && (unsigned char *) p->start < (unsigned char *) p->end, "a pool's content is not inside it");
    for (k = 0; k < np && pools[k]; k++);
    mc_assert(k < MAXP, "harness: too many pools");
    if (k == np) np++;
    pools[k] = p; inUse++; given++;
    own(a, PB, POOL0 + k);
    memset(arena + a, PAT(POOL0 + k), PB);
#ifdef GGGGC_ALLOC_MMAP
    if (!mc_arg("mode", 0))
        for (i = 0; i < ARENA; i++) mc_assert(owner[i] != OURS, "memory beyond the pool was not given back");
#endif
    intact("request");
    mc_quiet(0);
    return 1;
}

/* give back n pools, from the i-th on, as one chain */
static void giveBack(int i, int n)
{
    struct GGGGC_Pool *chain = NULL;
    int k;
    for (k = 0; k < np && n; k++) if (pools[k] && i-- <= 0) {
        pools[k]->next = chain; chain = pools[k];
        own((unsigned char *) pools[k] - arena, PB, BACK);
        pools[k] = NULL; inUse--; back++; n--;
    }
    mc_note("give back");
    ggggc_freeGeneration(chain);
    intact("giving back");
}

static void sequences(void)
{
    int depth = mc_arg("depth", 5), maxUse = mc_arg("max", 6), d, many = mc_arg("many", 0);
    for (d = 0; d < depth; d++) {
        int op = mc_choose(4, "operation");
        switch (op) {
        case 0:
        case 1:
            if (inUse >= maxUse) mc_prune();
            request(op);
            if (many) {
                /* up to the next call */
                while (inUse < maxUse && !refused && !calls) request(0);
            }
            break;
        case 2: {
            int w, n;
            if (!inUse) mc_prune();
            w = mc_choose(inUse > 2 ? 2 : 1, "from") ? inUse - 1 : 0;
            n = 1 + mc_choose(inUse - w > 2 ? 3 : inUse - w, "how many");
            giveBack(w, n);
            break;
        }
        case 3:
#ifdef GGGGC_USE_SBRK
            {
                static const int by[] = {16, 1, PB / 2, PB - 32, PB};
                int k = by[mc_choose(5, "the break moves by")];
                mc_assert(hi - lo >= (size_t) k, "harness: arena full");
                own(lo, k, FOREIGN); lo += k;
            }
            break;
#else
            mc_prune();
#endif
        }
    }
    /* and it works afterwards */
    refusals = 0;
    { int k; for (k = 0; k < 3; k++) mc_assert(request(0), "no pool although memory is available"); }
    mc_outcome(given * 64 + back);
    mc_done();
}

static MCG int per;
static void *requests(void *v)
{
    int i;
    for (i = 0; i < per; i++) request(0);
    return NULL;
}

static void threads(void)
{
    pthread_t t[4];
    int n = mc_arg("n", 2), i;
    per = mc_arg("per", 2);
    /* some pools that are free */
    {
        int b = mc_choose(3, "given back before");
        int r = refusals; refusals = 0;
        for (i = 0; i < b; i++) request(0);
        if (b) giveBack(0, b);
        if (mc_arg("pre", 0) && mc_choose(2, "first block nearly used up")) for (i = 0; i < mc_arg("pre", 0); i++) request(0);
        refusals = r;
    }
    for (i = 1; i < n; i++) pthread_create(&t[i], NULL, requests, NULL);
    requests(NULL);
    for (i = 1; i < n; i++) pthread_join(t[i], NULL);
    intact("at the end");
    refusals = 0;
    mc_assert(request(0), "no pool although memory is available");
    mc_done();
}

void mc_main(void)
{
    size_t i;
    mc_quiet(1);
    for (i = 0; i < ARENA; i++) if (owner[i] == OURS || owner[i] == USERS) owner[i] = FIRST;
    up = 2;
#ifdef GGGGC_USE_SBRK
    {
        static const size_t by[] = {0, 16, 8, PB / 2 + 1, PB - 8, PB - 40};
        lo += by[mc_choose(6, "the break")];
    }
#endif
    refusals = mc_arg("refusals", 2);
    changes = mc_arg("changes", 1);
    foreignMoves = mc_arg("moves", 0);
    mc_quiet(0);
    if (mc_arg("mode", 0)) threads(); else sequences();
}
