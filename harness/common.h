/* Shared by the sequential harnesses: a shadow heap (the reference model) and
 * the comparison of the real object graph against it. */
#ifndef COMMON_H
#define COMMON_H 1
#include <alloca.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ggggc/gc.h"
#include "ggggc-internals.h"
#include "mc.h"

#define HW (sizeof(struct GGGGC_Header) / sizeof(ggc_size_t))
#ifdef GGGGC_COLLECTOR_PORTABLEMS
#define MAXGEN 0
#else
#define MAXGEN (GGGGC_GENERATIONS - 1)
#endif
typedef ggc_size_t W;

/* The checking functions only look; where threads are explored, their reads
 * are to be seen by the engine, otherwise that is wasted time */
#ifndef FASTV
#define FASTV
#define FASTW __attribute__((no_sanitize("thread")))
#endif

/* ---- reference model ---- */
#ifndef MAXM
#define MAXM 64
#endif
#ifndef MAXWORDS
#define MAXWORDS 24
#endif
#ifndef MAXROOT
#define MAXROOT 16
#endif
struct MObj {
    int size;              /* words including the header */
    int isArr;             /* word HW is a length */
    short ptr[MAXWORDS]; /* -2: data word; -1: NULL pointer; else model index */
    W data[MAXWORDS];
    W *exact;              /* expected descriptor root variable, or NULL */
    int user;              /* descriptor's user pointer: -2 not modelled, -1 NULL, else model index */
};
static MCG struct MObj M[MAXM];
static MCG int Mn;
static MCG int Mroot[MAXROOT];      /* model index; -1: NULL; -2: a value that is no pointer, */
static MCG W MrootVal[MAXROOT];     /* this one */
static MCG void **Rroot[MAXROOT];   /* the real root variables */
static MCG int Rn;
static MCG void *Mmap[MAXM];
#define MAXKEEP 16
static MCG int Mkeep[MAXKEEP], Mkn; /* kept in the model although not reachable */

static FASTV int mNew(int size)
{
    int i, k;
    mc_assert(Mn < MAXM, "harness: model full");
    i = Mn++;
    M[i].size = size; M[i].isArr = 0; M[i].exact = NULL; M[i].user = -2;
    for (k = 0; k < MAXWORDS; k++) { M[i].ptr[k] = -2; M[i].data[k] = 0; }
    return i;
}

#define VIA_ROOT -1
#define VIA_USER -2
#define VIA_DESC -3
static const char *viaText(int from, int word)
{
    static MCG char via[48];
    if (from == VIA_ROOT) snprintf(via, sizeof via, "root %d", word);
    else if (word == VIA_USER) snprintf(via, sizeof via, "object %d's user pointer", from);
    else if (word == VIA_DESC) snprintf(via, sizeof via, "object %d's descriptor", from);
    else snprintf(via, sizeof via, "object %d word %d", from, word);
    return via;
}

static FASTV void mVisit(int mi, void *p, const char *when, int from, int word, int *st, int *sp)
{
    if (mi < 0) {
        mc_assert(p == NULL, "%s: %s should be NULL but is %p", when, viaText(from, word), p);
        return;
    }
    mc_assert(p != NULL, "%s: %s is NULL, object %d lost", when, viaText(from, word), mi);
    if (Mmap[mi]) {
        mc_assert(Mmap[mi] == p, "%s: %s: identity of object %d lost (%p and %p)", when, viaText(from, word), mi, Mmap[mi], p);
        return;
    }
    mc_assert(((W) p & (sizeof(W) - 1)) == 0 && mc_mem_valid(p, M[mi].size * sizeof(W)),
              "%s: %s: object %d at %p is outside of the heap", when, viaText(from, word), mi, p);
    Mmap[mi] = p;
    st[(*sp)++] = mi;
}

/* compare everything reachable from the roots with the model */
static FASTV void verify(const char *when)
{
    static MCG int st[MAXM + 1];
    int sp = 0, i, k;
    for (i = 0; i < Mn; i++) Mmap[i] = NULL;
    for (i = 0; i < Rn; i++) {
        if (Mroot[i] == -2) {
            mc_assert((W) *Rroot[i] == MrootVal[i], "%s: %s is %#lx, should be %#lx", when, viaText(VIA_ROOT, i), (long) *Rroot[i], (long) MrootVal[i]);
            continue;
        }
        mVisit(Mroot[i], *Rroot[i], when, VIA_ROOT, i, st, &sp);
    }
    while (sp) {
        int mi = st[--sp];
        W *p = (W *) Mmap[mi];
        struct GGGGC_Descriptor *d = ((struct GGGGC_Header *) p)->descriptor__ptr;
        mc_assert(((W) d & (sizeof(W) - 1)) == 0 && mc_mem_valid(d, sizeof *d), "%s: object %d at %p has a corrupt descriptor pointer %p", when, mi, (void *) p, (void *) d);
        mc_assert(d->size == (W) M[mi].size, "%s: object %d at %p: its descriptor says %ld words, not %d", when, mi, (void *) p, (long) d->size, M[mi].size);
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
        mc_assert(p[1] == GGGGC_MEMORY_CORRUPTION_VAL, "%s: object %d: canary destroyed", when, mi);
#endif
        if (M[mi].exact) mc_assert((W) d == *M[mi].exact, "%s: object %d: descriptor identity lost", when, mi);
        if (M[mi].user != -2) {
            mVisit(M[mi].user, d->user__ptr, when, mi, VIA_USER, st, &sp);
        }
        if (M[mi].ptr[0] >= 0) mVisit(M[mi].ptr[0], d, when, mi, VIA_DESC, st, &sp);
        for (k = HW; k < M[mi].size; k++) {
            if (M[mi].ptr[k] == -2) {
                mc_assert(p[k] == M[mi].data[k], "%s: object %d word %d is %#lx, should be %#lx", when, mi, k, (long) p[k], (long) M[mi].data[k]);
            } else {
                mVisit(M[mi].ptr[k], (void *) p[k], when, mi, k, st, &sp);
            }
        }
    }
    /* distinct objects at distinct places */
    for (i = 0; i < Mn; i++) if (Mmap[i])
        for (k = 0; k < i; k++) if (Mmap[k]) {
            W *a = (W *) Mmap[i], *b = (W *) Mmap[k];
            mc_assert(a + M[i].size <= b || b + M[k].size <= a, "%s: objects %d and %d overlap", when, i, k);
        }
}

/* forget model objects that are unreachable (keeps states equal) */
static FASTV void mGC(void)
{
    static MCG int mark[MAXM], st[MAXM + 1], to[MAXM];
    int sp = 0, i, k, n = 0;
    for (i = 0; i < MAXM; i++) mark[i] = 0;
    for (i = 0; i < Rn; i++) if (Mroot[i] >= 0 && !mark[Mroot[i]]) { mark[Mroot[i]] = 1; st[sp++] = Mroot[i]; }
    for (i = 0; i < Mkn; i++) if (Mkeep[i] >= 0 && !mark[Mkeep[i]]) { mark[Mkeep[i]] = 1; st[sp++] = Mkeep[i]; }
    while (sp) {
        int m = st[--sp];
        if (M[m].user >= 0 && !mark[M[m].user]) { mark[M[m].user] = 1; st[sp++] = M[m].user; }
        for (k = 0; k < M[m].size; k++) if (M[m].ptr[k] >= 0 && !mark[(int) M[m].ptr[k]]) { mark[(int) M[m].ptr[k]] = 1; st[sp++] = M[m].ptr[k]; }
    }
    for (i = 0; i < Mn; i++) if (mark[i]) to[i] = n++;
    for (i = 0; i < Mn; i++) if (mark[i]) {
        if (to[i] != i) M[to[i]] = M[i];
        if (M[to[i]].user >= 0) M[to[i]].user = to[M[to[i]].user];
        for (k = 0; k < M[to[i]].size; k++) if (M[to[i]].ptr[k] >= 0) M[to[i]].ptr[k] = to[(int) M[to[i]].ptr[k]];
    }
    for (i = 0; i < Rn; i++) if (Mroot[i] >= 0) Mroot[i] = to[Mroot[i]];
    for (i = 0; i < Mkn; i++) if (Mkeep[i] >= 0) Mkeep[i] = to[Mkeep[i]];
    memset((void *) &M[n], 0, (MAXM - n) * sizeof M[0]);
    Mn = n;
    for (i = 0; i < MAXM; i++) { mark[i] = to[i] = st[i] = 0; Mmap[i] = NULL; }
    st[MAXM] = 0;
}

/* ---- object kinds used by the harnesses ---- */
GGC_TYPE(Node)
    GGC_MDATA(W, id);
    GGC_MPTR(Node, a);
    GGC_MDATA(W, mid);
    GGC_MPTR(Node, b);
GGC_END_TYPE(Node,
    GGC_PTR(Node, a)
    GGC_PTR(Node, b)
    )
#define NODE_WORDS ((int) HW + 4)
#define NODE_ID ((int) HW)
#define NODE_A ((int) HW + 1)
#define NODE_MID ((int) HW + 2)
#define NODE_B ((int) HW + 3)

/* any object, by word */
struct RawObj { struct GGGGC_Header header; void *a__ptrs[1]; };
typedef struct RawObj *Raw;

static MCG W nextId;

/* model of a fresh Node */
static int mNode(W id)
{
    int m = mNew(NODE_WORDS);
    M[m].data[NODE_ID] = id; M[m].ptr[NODE_A] = -1; M[m].data[NODE_MID] = ~id; M[m].ptr[NODE_B] = -1;
    return m;
}

/* freshly allocated memory must be clean */
static void checkFresh(void *p, int words, int skipLen, const char *what)
{
    int k;
    mc_assert(p && ((W) p % sizeof(W)) == 0 && mc_mem_valid(p, words * sizeof(W)), "%s: allocation at %p is not inside the heap", what, p);
    mc_assert(((struct GGGGC_Header *) p)->descriptor__ptr->size == (W) (words < GGGGC_MINIMUM_OBJECT_SIZE ? GGGGC_MINIMUM_OBJECT_SIZE : words), "%s: wrong size descriptor", what);
    for (k = HW + skipLen; k < words; k++)
        mc_assert(((W *) p)[k] == 0, "%s: fresh object word %d is %#lx, not zero", what, k, (long) ((W *) p)[k]);
}

static void collectGen(int g)
{
    if (g < 0 || g > MAXGEN) GGC_COLLECT();
    else ggggc_collect0((unsigned char) g);
}

/* allocate at least `words` words of garbage, full of junk */
static void churn(W words)
{
    W done = 0;
    GGC_size_t_Array g = NULL;
    Node n = NULL;
    GGC_PUSH_2(g, n);
    while (done < words) {
        int k;
        g = GGC_NEW_DA(size_t, 5);
        for (k = 0; k < 5; k++) { size_t junk = 0x5B5B5B5B5B5B5B5BUL; GGC_WAD(g, k, junk); }
        n = GGC_NEW(Node);
        { W junk = 0x6C6C6C6C6C6C6C6CUL; GGC_WD(n, id, junk); GGC_WD(n, mid, junk); GGC_WP(n, a, n); }
        done += 6 + HW + NODE_WORDS + 4;
        g = NULL; n = NULL;
    }
    GGC_POP();
}

#ifdef GGGGC_USE_PORTABLE_ALLOCATOR
#define POOL_USABLE ((W) (GGGGC_WORDS_PER_POOL - sizeof(struct GGGGC_Pool) / sizeof(W) + 1))
#else
#define POOL_USABLE ((W) (GGGGC_WORDS_PER_POOL - (sizeof(struct GGGGC_Pool) / sizeof(W)) + 1))
#endif

static Node newNode(void)
{
    Node n = GGC_NEW(Node);
    W id = ++nextId, mid = ~id;
    checkFresh(n, NODE_WORDS, 0, "GGC_NEW");
    GGC_WD(n, id, id);
    GGC_WD(n, mid, mid);
    return n;
}

/* leave `left` words free in this thread's allocation pools, so that the
 * next allocations meet their end */
#define DA_OVER (HW + 1)
#define DESC_WORDS_DA ((W) GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor))
static void fillTo(W left)
{
#ifdef GGGGC_COLLECTOR_GEMBC
    GGC_size_t_Array g = NULL;
    W last = (W) -1;
    GGC_PUSH_1(g);
    /* the descriptor of each filler also comes out of this pool */
    while (ggggc_pool0) {
        W avail = ggggc_pool0->end - ggggc_pool0->free, k, leave = ggggc_pool0->next ? 0 : left, n;
        if (avail == last) break;
        last = avail;
        if (avail < leave + DESC_WORDS_DA + DA_OVER + 1) break;
        n = avail - leave - DESC_WORDS_DA - DA_OVER;
        if (n > 260) n = 200;
        g = GGC_NEW_DA(size_t, n);
        for (k = 0; k < n; k++) { size_t junk = 0x7777777777777777UL; GGC_WAD(g, k, junk); }
    }
    GGC_POP();
#endif
}

/* ---- memory actually in use, and memory that has to be ---- */

/* words in objects, over every pool of every generation of the only thread */
static FASTW long usedWords(void)
{
    struct GGGGC_Pool *p;
    long n = 0;
#ifdef GGGGC_COLLECTOR_PORTABLEMS
    for (p = ggggc_gen0; p; p = p->next) {
        W *c = p->start;
        while (c < p->end) {
            if (c[0] == 0) c += c[1];
            else { W z = ((struct GGGGC_Header *) c)->descriptor__ptr->size; n += z; c += z; }
        }
        mc_assert(c == p->end, "a pool is not tiled by its objects and free chunks");
    }
#else
    int g;
    for (p = ggggc_gen0; p; p = p->next) n += p->free - p->start;
    for (g = 1; g < GGGGC_GENERATIONS; g++) for (p = ggggc_gens[g]; p; p = p->next) n += p->free - p->start;
#endif
    return n;
}

#define RWMAX 4096
static MCG W *rwSeen[RWMAX];
static MCG int rwN;
static FASTW void rwAdd(void *v)
{
    W *p = (W *) v;
    W h;
    if (!p) return;
#ifdef GGGGC_FEATURE_TAGGING
    if ((W) p & (sizeof(W) - 1)) return;
#endif
    mc_assert(((W) p & 7) == 0 && mc_mem_valid(p, HW * 8), "walking the heap: %p is no object", (void *) p);
    for (h = ((W) p >> 3) * 0x9E3779B1u % RWMAX; rwSeen[h]; h = (h + 1) % RWMAX) if (rwSeen[h] == p) return;
    rwSeen[h] = p;
    mc_assert(++rwN < RWMAX - 8, "harness: too many objects");
}

/* words in objects that can be reached from the registered roots */
static FASTW long reachWords(void)
{
    static MCG W *q[RWMAX];
    int qh = 0, qt = 0, i;
    long n = 0;
    struct GGGGC_PointerStack *ps;
    memset((void *) rwSeen, 0, sizeof rwSeen); rwN = 0;
#define RW(v) do { int old_ = rwN; void *v_ = (void *) (v); rwAdd(v_); if (rwN != old_) q[qt++] = (W *) v_; } while (0)
    for (ps = ggggc_pointerStack; ps; ps = ps->next)
        for (i = 0; i < (int) ps->size; i++) if (ps->pointers[i]) RW(*(void **) ps->pointers[i]);
#ifdef GGGGC_FEATURE_JITPSTACK
    {
        void **j;
        for (j = ggc_jitPointerStack; j < ggc_jitPointerStackEnd; j++) {
#ifdef GGGGC_FEATURE_EXTTAG
            W tags = *(W *) j;
            int t;
            for (t = 0; t < 8 && (tags & 0xFF) != 0xFF; t++, tags >>= 8) { j++; if (!(tags & 1)) RW(*j); }
#else
            RW(*j);
#endif
        }
    }
#endif
    while (qh < qt) {
        W *p = q[qh++];
        struct GGGGC_Descriptor *d = ((struct GGGGC_Header *) p)->descriptor__ptr;
        W k;
        RW(d);
        mc_assert(d->size >= GGGGC_MINIMUM_OBJECT_SIZE && d->size < GGGGC_WORDS_PER_POOL, "walking the heap: object %p has size %ld", (void *) p, (long) d->size);
        n += d->size;
#ifdef GGGGC_FEATURE_EXTTAG
        if (d->tags[0] == 0) for (k = 1; k < d->size; k++) if (!(d->tags[k] & 1)) RW(p[k]);
#else
        if (d->pointers[0] & 1) for (k = 1; k < d->size; k++) if (d->pointers[k / 64] >> (k % 64) & 1) RW(p[k]);
#endif
    }
    memset((void *) rwSeen, 0, sizeof rwSeen); rwN = 0;
    memset((void *) q, 0, sizeof q);
    return n;
#undef RW
}

/* a full collection leaves exactly what is reachable */
static void checkReclaimed(const char *when)
{
    long u = usedWords(), r = reachWords();
    mc_assert(u == r, "%s: %ld words in use after a full collection, but %ld reachable", when, u, r);
}

/* continuations that would expose a lost or stale pointer; rolled back */
static void probeAll(const char *when)
{
    int g;
    char b[80];
    for (g = 0; g <= MAXGEN + 1; g++) {
        if (mc_probe_begin()) {
            snprintf(b, sizeof b, "%s, then collection of generation %d", when, g);
            collectGen(g);
            verify(b);
            snprintf(b, sizeof b, "%s, then collection of generation %d and reuse of memory", when, g);
            churn(POOL_USABLE + 20);
            verify(b);
            mc_probe_end();
        }
    }
}

#endif
