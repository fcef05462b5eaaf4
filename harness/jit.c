/* C10: the JIT pointer stack.
 * mode 0: every sequence of pushes, pops, overwrites and collections (without
 *         tags or with internal tags);
 * mode 1: external tags: every sequence of groups;
 * mode 2: another thread's stack, while it is blocked or stopped. */
#define FASTV
#define FASTW
#include "common.h"
#include <sched.h>

#define AREA 40
#define LOW 4          /* words below the stack's limit, and above its end */
static W area[AREA + 2 * LOW];
static Node r0;
static MCG W old[AREA + 2 * LOW];    /* what is in memory that is not on the stack */
static MCG int depth_, nGroups, groupAt[8];

static void setup(void)
{
    int i;
    GGC_PUSH_1(r0);
    GGC_GLOBALIZE();
    GGC_POP();
    Rn = 1; Rroot[0] = (void **) &r0; Mroot[0] = -1;
    for (i = 0; i < AREA + 2 * LOW; i++) old[i] = area[i] = 0x4242424242424243UL + 8 * i;
    ggc_jitPointerStack = ggc_jitPointerStackEnd = (void **) &area[AREA + LOW];
}

static int sp(void) { return (int) ((W *) ggc_jitPointerStack - area); }

static void outside(const char *when)
{
    int i;
    for (i = 0; i < AREA + 2 * LOW; i++)
        if (i < sp() || i >= AREA + LOW)
            mc_assert(area[i] == old[i], "%s: word %d, outside of the JIT stack, changed from %#lx to %#lx", when, i - sp(), (long) old[i], (long) area[i]);
}

static void check(const char *when)
{
    int g;
    char b[80];
    mGC();
    verify(when);
    outside(when);
    for (g = 0; g <= MAXGEN + 1; g++) if (mc_probe_begin()) {
        snprintf(b, sizeof b, "%s, then collection of generation %d", when, g);
        collectGen(g);
        verify(b);
        outside(b);
        churn(POOL_USABLE + 20);
        verify(b);
        outside(b);
        mc_probe_end();
    }
    if (mc_probe_begin()) {
        GGC_COLLECT();
        checkReclaimed(when);
        mc_probe_end();
    }
}

/* the stack grew by one word that holds m (or v) */
static void *valueFor(int k, int *m, W *v)
{
    Node n;
    *v = 0;
    switch (k) {
    case 0: *m = -1; return NULL;
    case 1: n = newNode(); *m = mNode(nextId); return n;
    case 2: *m = Mroot[0]; return r0;
    default:
        *m = -2;
        *v = (W) r0 | (k == 3 ? 1 : k == 4 ? 2 : k == 5 ? 4 : 7);
        if (k == 7) *v = 1;
        return (void *) *v;
    }
}

#ifdef GGGGC_FEATURE_TAGGING
#define KINDSJ 7
#else
#define KINDSJ 3
#endif

static void mode0(void)
{
    int d, depth = mc_arg("depth", 4), kinds = mc_arg("kinds", KINDSJ), m, i;
    W v;
    void *p;
    for (d = 0; d < depth; d++) {
        int n = AREA + LOW - sp();
        switch (mc_choose(5, "op")) {
        case 0: /* push */
            p = valueFor(mc_choose(kinds, "value"), &m, &v);
            if (n >= AREA) mc_prune();
            ggc_jitPointerStack--;
            *ggc_jitPointerStack = p;
            Rroot[Rn] = ggc_jitPointerStack; Mroot[Rn] = m; MrootVal[Rn] = v; Rn++;
            mc_note("pushed %d", m);
            break;
        case 1: /* pop: the word stays behind */
            if (!n) mc_prune();
            old[sp()] = area[sp()];
            ggc_jitPointerStack++;
            Rn--; Rroot[Rn] = NULL; Mroot[Rn] = 0; MrootVal[Rn] = 0;
            break;
        case 2: /* overwrite */
            i = mc_choose(3, "entry");
            if (i >= n) mc_prune();
            p = valueFor(mc_choose(kinds, "value"), &m, &v);
            ggc_jitPointerStack[i] = p;
            Mroot[Rn - 1 - i] = m; MrootVal[Rn - 1 - i] = v;
            break;
        case 3: { /* r0 = new, or NULL, or link */
            Node x;
            i = mc_choose(3, "root");
            if (i == 0) { r0 = newNode(); Mroot[0] = mNode(nextId); }
            else if (i == 1) { if (!r0) mc_prune(); r0 = NULL; Mroot[0] = -1; }
            else {
                Node y = newNode();
                if (!n || Mroot[Rn - 1] < 0) { mc_prune(); }
                m = mNode(nextId);
                x = (Node) *ggc_jitPointerStack; /* not moved by the allocation above? */
                GGC_WP(x, a, y);
                M[Mroot[Rn - 1]].ptr[NODE_A] = m;
            }
            break;
        }
        case 4:
            collectGen(mc_choose(MAXGEN + 2, "generation"));
            mc_cover("collected");
            break;
        }
        check("after the operation");
    }
}

#ifdef GGGGC_FEATURE_EXTTAG
static void mode1(void)
{
    static const unsigned char even[] = { 0, 2, 250, 128 }, odd[] = { 1, 3, 251, 129 };
    int d, depth = mc_arg("depth", 2), m, i, k;
    W v;
    r0 = newNode(); Mroot[0] = mNode(nextId);
    for (d = 0; d < depth; d++) {
        switch (mc_choose(3, "op")) {
        case 0: { /* a group */
            static const int lens[] = { 1, 2, 8, 0, 7, 3 };
            int len = lens[mc_choose(mc_arg("lens", 5), "words")], bg = 0, at = -1, rest;
            W tags = 0;
            unsigned char isptr[8];
            if (sp() - LOW < len + 1) mc_prune();
            if (len > 2) { bg = mc_choose(2, "others"); at = mc_choose(len, "at"); }
            for (i = 0; i < len; i++) isptr[i] = len > 2 ? bg ^ (i == at) : mc_choose(2, "pointer");
            rest = mc_choose(2, "bytes after the end tag");
            for (i = 0; i < 8; i++) {
                unsigned char t = i < len ? (isptr[i] ? even : odd)[(i + d) & 3] : i == len ? 0xFF : rest ? 0 : 1;
                tags |= (W) t << (8 * i);
            }
            /* what gets on the stack: values that are made before, rooted by r0's list */
            {
                W words[8]; int ms[8];
                Node y = NULL;
                for (i = 0; i < len; i++) {
                    if (isptr[i]) {
                        if (i % 4 == 3) { words[i] = 0; ms[i] = -1; }
                        else if (i % 4 == 2) { words[i] = 1; ms[i] = Mroot[0]; }
                        else { words[i] = 2; ms[i] = -3; }
                    } else { words[i] = i % 3 == 0 ? 1 : i % 3 == 1 ? 3 : ~(W) 0; ms[i] = -2; }
                }
                ggc_jitPointerStack -= len + 1;
                /* all of it is data at first */
                area[sp()] = len == 8 ? 0x0101010101010101UL : ~(W) 0 >> (8 * (8 - len)) & 0x0101010101010101UL;
                if (len < 8) area[sp()] |= (W) 0xFF << (8 * len);
                for (i = 0; i < len; i++) ggc_jitPointerStack[i + 1] = NULL;
                Rroot[Rn] = ggc_jitPointerStack; Mroot[Rn] = -2; MrootVal[Rn] = tags; Rn++;
                for (i = 0; i < len; i++) {
                    if (words[i] == 1 && ms[i] == -2) v = (W) r0;
                    else if (words[i] == 3) v = (W) r0 + 8;
                    else if (words[i] == 1) v = (W) r0;
                    else if (words[i] == 2) { y = newNode(); ms[i] = mNode(nextId); v = (W) y; }
                    else v = words[i];
                    ggc_jitPointerStack[i + 1] = (void *) v;
                    Rroot[Rn] = &ggc_jitPointerStack[i + 1]; Mroot[Rn] = ms[i]; MrootVal[Rn] = ms[i] == -2 ? v : 0; Rn++;
                }
                area[sp()] = tags;
            }
            groupAt[nGroups++] = len + 1;
            break;
        }
        case 1: /* drop a group */
            if (!nGroups) mc_prune();
            k = groupAt[--nGroups]; groupAt[nGroups] = 0;
            for (i = 0; i < k; i++) { old[sp()] = area[sp()]; ggc_jitPointerStack++; Rn--; Rroot[Rn] = NULL; Mroot[Rn] = 0; MrootVal[Rn] = 0; }
            break;
        case 2:
            collectGen(mc_choose(MAXGEN + 2, "generation"));
            if (mc_choose(2, "r0")) { r0 = newNode(); Mroot[0] = mNode(nextId); }
            break;
        }
        check("after the operation");
    }
    (void) m;
}
#else
static void mode1(void) { }
#endif

#ifndef GGGGC_NO_THREADS
/* entry words of a thread's own stack, with a tag word below if external */
static volatile int go_;
static MCG int how_, n_, ok_;
static void threadMain(GGC_ThreadArg arg)
{
    W mine[14];
    int i, below;
    Node held = (Node) arg;
    GGC_PUSH_1(held);
    for (i = 0; i < 14; i++) mine[i] = 0x4242424242424243UL;
    churn(10);      /* so that the entries will move */
    ggc_jitPointerStackEnd = ggc_jitPointerStack = (void **) &mine[12];
    for (i = 0; i < n_; i++) {
        Node n = newNode();
        *--ggc_jitPointerStack = n;
    }
#ifdef GGGGC_FEATURE_EXTTAG
    { W t = 0xFFUL << (8 * n_); *--ggc_jitPointerStack = (void *) t; }
#endif
    below = (int) ((W *) ggc_jitPointerStack - mine);
    if (how_ == 0) {
        ggc_pre_blocking();
        go_ = 1;
        mc_point("blocked");
        ggc_post_blocking();
    } else if (how_ == 1) {
        go_ = 1;
        while (go_ != 2) { GGC_YIELD(); sched_yield(); }
    } else {
        go_ = 1;
        GGC_COLLECT();
    }
    for (i = 0; i < 14; i++) if (i < below || i >= 12)
        mc_assert(mine[i] == 0x4242424242424243UL, "word %d, outside of the JIT stack, changed to %#lx", i, (long) mine[i]);
    for (i = 0; i < n_; i++) {
        Node n = (Node) mine[11 - i];
        mc_assert(((W) n & 7) == 0 && mc_mem_valid(n, NODE_WORDS * 8), "entry %d lost", i);
        mc_assert(GGC_RD(n, mid) == ~GGC_RD(n, id) && n->header.descriptor__ptr->size == NODE_WORDS, "entry %d's object lost", i);
    }
    ok_++;
    ggc_jitPointerStack = ggc_jitPointerStackEnd = NULL;
    GGC_POP();
}

static void mode2(void)
{
    ggc_thread_t th;
    GGC_ThreadArg a = NULL;
    int g, i;
    GGC_PUSH_1(a);
    how_ = mc_choose(3, "the thread");
    n_ = 1 + mc_choose(2, "entries");
    g = mc_choose(MAXGEN + 2, "generation");
    if (mc_choose(2, "this thread has none")) ggc_jitPointerStack = ggc_jitPointerStackEnd = NULL;
    r0 = newNode();
    a = (GGC_ThreadArg) r0;
    mc_assert(ggc_thread_create(&th, threadMain, a) == 0, "ggc_thread_create failed");
    while (!go_) { GGC_YIELD(); sched_yield(); }
    if (how_ != 2) { collectGen(g); churn(POOL_USABLE + 20); }
    for (i = 0; i < 3; i++) GGC_YIELD();
    go_ = 2;
    ggc_thread_join(th);
    mc_assert(ok_ == 1, "the thread did not finish");
    GGC_POP();
}
#endif

void mc_main(void)
{
    setup();
    GGC_COLLECT();
    switch (mc_arg("mode", 0)) {
    case 0: mode0(); break;
    case 1: mode1(); break;
#ifndef GGGGC_NO_THREADS
    case 2: mode2(); break;
#endif
    }
}
