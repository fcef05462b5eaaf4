/* C07: variables are roots exactly while they are registered.
 *
 * mode 0: every pair of frame kinds and arities, one inside the other, with
 *   every way out of the inner one and every collection.
 * mode 1: every sequence of pushing, leaving, filling, globalizing and
 *   collecting over a few arities.
 * Built with GCC cleanups, as C++, and with neither. */
#define MAXM 96
#define MAXROOT 96
#include <alloca.h>
#include "common.h"

#if defined(__cplusplus) || !defined(GGGGC_NO_GNUC_CLEANUP)
#define AUTOPOP 1
#endif

#define NS 48
static Node slot[NS];       /* the variables */
static MCG Node stale[NS];  /* what unregistered ones hold */
static MCG int owner[NS];   /* root index+1 of a registered one */
static MCG int isGlobal[NS];
static MCG long baseWords;
static MCG int budget;
static MCG int top;         /* first slot not in use */
static MCG int depthNow, path, globalized;

enum { FALL, RETURN, VALUE, BREAK, GOTO, BLOCKRET, THROW, NPATHS };
static const char *const pathName[] = { "fall through", "return from a loop", "return a variable's value", "break out of a block", "goto out of a block", "return out of a block", "throw" };

static void dropRoot(int s)
{
    int r = owner[s] - 1, i;
    if (r < 0) return;
    owner[s] = 0;
    stale[s] = slot[s];
    /* keep the order of the others */
    for (i = r; i < Rn - 1; i++) { Rroot[i] = Rroot[i + 1]; Mroot[i] = Mroot[i + 1]; }
    Rn--;
    Rroot[Rn] = NULL; Mroot[Rn] = 0;
    for (i = 0; i < NS; i++) if (owner[i] - 1 > r) owner[i]--;
}

static void addRoot(int s, int m)
{
    mc_assert(Rn < MAXROOT, "harness: too many roots");
    Rroot[Rn] = (void **) &slot[s]; Mroot[Rn] = m; owner[s] = ++Rn;
}

static void enter(int b, int k)
{
    int i;
    top = b + k;
    depthNow++;
    for (i = 0; i < k; i++) {
        mc_assert(b + i < NS, "harness: out of variables");
        addRoot(b + i, i == 0 && b > 0 && slot[b] && owner[b - 1] ? Mroot[owner[b - 1] - 1] : -1);
    }
}

static void leave(int b, int k)
{
    int i;
    depthNow--;
    for (i = k - 1; i >= 0; i--) if (!isGlobal[b + i]) dropRoot(b + i);
    mGC();
    /* a global's variable is not to be used again */
    for (i = k; i > 0 && !isGlobal[b + i - 1]; i--) ;
    top = b + i;
}

static void check(const char *when)
{
    int i;
    verify(when);
    for (i = 0; i < NS; i++) if (!owner[i])
        mc_assert(slot[i] == stale[i], "%s: variable %d is no longer registered, but was changed from %p to %p", when, i, (void *) stale[i], (void *) slot[i]);
}

static void checkAll(const char *when)
{
    int g;
    char b[96];
    check(when);
    for (g = 0; g <= MAXGEN + 1; g++) if (mc_probe_begin()) {
        snprintf(b, sizeof b, "%s, then collection of generation %d", when, g);
        collectGen(g);
        check(b);
        if (g == MAXGEN + 1 && baseWords) {
            long u = usedWords(), want = baseWords + (long) Mn * NODE_WORDS;
            mc_assert(u == want, "%s: %ld words in use, but the registered variables reach %ld", b, u, want);
        }
        churn(POOL_USABLE);
        check(b);
        mc_probe_end();
    }
}

static void fill(int b, int k)
{
    int i;
    newNode(); /* not kept: so that the others move */
    for (i = 0; i < k; i++) { slot[b + i] = newNode(); Mroot[owner[b + i] - 1] = mNode(nextId); }
    mGC();
}

static void frame(int kind, int k, int b, int lv);
static void body(int b, int k, int lv, int manual);

/* arguments by count */
#define S1 slot[b]
#define S2 S1, slot[b + 1]
#define S3 S2, slot[b + 2]
#define S4 S3, slot[b + 3]
#define S5 S4, slot[b + 4]
#define S6 S5, slot[b + 5]
#define S7 S6, slot[b + 6]
#define S8 S7, slot[b + 7]
#define S9 S8, slot[b + 8]
#define S10 S9, slot[b + 9]
#define S11 S10, slot[b + 10]
#define S12 S11, slot[b + 11]
#define S13 S12, slot[b + 12]
#define S14 S13, slot[b + 13]
#define S15 S14, slot[b + 14]
#define S16 S15, slot[b + 15]
#define CALL(m, ...) m(__VA_ARGS__)

#ifdef __cplusplus
#define MAYTHROW(k) if (path == THROW) { leave(b, k); throw 1; }
#else
#define MAYTHROW(k)
#endif
#ifdef AUTOPOP
/* a frame in an inner block, left in several ways */
#define BLOCKFRAME(PUSH, k) \
static Node b##k(int b, int lv) { \
    int it; \
    for (it = 0; it < 3; it++) { \
        PUSH; \
        enter(b, k); \
        body(b, k, lv, 0); \
        MAYTHROW(k) \
        leave(b, k); \
        if (path == BREAK) break; \
        if (path == GOTO) goto out; \
        if (path == BLOCKRET) return NULL; \
        if (path == VALUE) return slot[b]; \
        if (path == RETURN) { it = 2; continue; } \
        it = 2; \
    } \
    return NULL; \
out: \
    return NULL; \
}
#else
#define BLOCKFRAME(PUSH, k) \
static Node b##k(int b, int lv) { \
    { \
        PUSH; \
        enter(b, k); \
        body(b, k, lv, 0); \
        leave(b, k); \
        GGC_POP(); \
    } \
    return NULL; \
}
#endif

#define FUNCS(k, PUSH, MPUSH) \
static Node f##k(int b, int lv) { \
    int it; \
    PUSH; \
    enter(b, k); \
    body(b, k, lv, 0); \
    MAYTHROW(k) \
    leave(b, k); \
    if (path == RETURN) for (it = 0; ; it++) { if (it == 1) { return NULL; } } \
    if (path == VALUE) return slot[b + k - 1]; \
    return NULL; \
} \
static void v##k(int b, int lv) { \
    PUSH; \
    enter(b, k); \
    body(b, k, lv, 0); \
    leave(b, k); \
    GGC_POP(); \
} \
static Node m##k(int b, int lv) { \
    MPUSH; \
    enter(b, k); \
    body(b, k, lv, 1); \
    leave(b, k); \
    GGC_POP_MANUAL(); \
    return slot[b]; \
} \
BLOCKFRAME(PUSH, k)

FUNCS(1, CALL(GGC_PUSH_1, S1), CALL(GGC_PUSH_MANUAL_1, S1))
FUNCS(2, CALL(GGC_PUSH_2, S2), CALL(GGC_PUSH_MANUAL_2, S2))
FUNCS(3, CALL(GGC_PUSH_3, S3), CALL(GGC_PUSH_MANUAL_3, S3))
FUNCS(4, CALL(GGC_PUSH_4, S4), CALL(GGC_PUSH_MANUAL_4, S4))
FUNCS(5, CALL(GGC_PUSH_5, S5), CALL(GGC_PUSH_MANUAL_5, S5))
FUNCS(6, CALL(GGC_PUSH_6, S6), CALL(GGC_PUSH_MANUAL_6, S6))
FUNCS(7, CALL(GGC_PUSH_7, S7), CALL(GGC_PUSH_MANUAL_7, S7))
FUNCS(8, CALL(GGC_PUSH_8, S8), CALL(GGC_PUSH_MANUAL_8, S8))
FUNCS(9, CALL(GGC_PUSH_9, S9), CALL(GGC_PUSH_MANUAL_9, S9))
FUNCS(10, CALL(GGC_PUSH_10, S10), CALL(GGC_PUSH_MANUAL_10, S10))
FUNCS(11, CALL(GGC_PUSH_11, S11), CALL(GGC_PUSH_MANUAL_11, S11))
FUNCS(12, CALL(GGC_PUSH_12, S12), CALL(GGC_PUSH_MANUAL_12, S12))
FUNCS(13, CALL(GGC_PUSH_13, S13), CALL(GGC_PUSH_MANUAL_13, S13))
FUNCS(14, CALL(GGC_PUSH_14, S14), CALL(GGC_PUSH_MANUAL_14, S14))
FUNCS(15, CALL(GGC_PUSH_15, S15), CALL(GGC_PUSH_MANUAL_15, S15))
FUNCS(16, CALL(GGC_PUSH_16, S16), CALL(GGC_PUSH_MANUAL_16, S16))

#ifndef __cplusplus
/* run-time sizes; C only (the macro needs a compound literal) */
#define LIST { &slot[b], &slot[b + 1], &slot[b + 2], &slot[b + 3], &slot[b + 4], &slot[b + 5], &slot[b + 6], &slot[b + 7], &slot[b + 8], \
    &slot[b + 9], &slot[b + 10], &slot[b + 11], &slot[b + 12], &slot[b + 13], &slot[b + 14], &slot[b + 15], &slot[b + 16], &slot[b + 17] }
static Node fn(int k, int b, int lv)
{
    GGC_PUSH_N(k, LIST);
    enter(b, k);
    body(b, k, lv, 0);
    leave(b, k);
    return slot[b];
}
#define NMAX 18
#else
#define NMAX 0
#endif

/* kinds: 0 automatic, 1 in a block, 2 manual, 3 run-time size */
#ifdef __cplusplus
#define NKINDS 3
#else
#define NKINDS 4
#endif
static void frame(int kind, int k, int b, int lv)
{
    Node ret = NULL;
    int i;
    for (i = 0; i < k; i++) {
        mc_assert(b + i < NS && !owner[b + i], "harness: variable in use");
        slot[b + i] = NULL;
    }
    /* an argument from the caller */
    if (b > 0 && owner[b - 1] && slot[b - 1]) slot[b] = slot[b - 1];
#define C(n) case n: \
    if (kind == 0) { if (path == FALL) v##n(b, lv); else ret = f##n(b, lv); } \
    else if (kind == 1) ret = b##n(b, lv); \
    else ret = m##n(b, lv); \
    break;
#ifdef __cplusplus
    try {
#endif
#ifndef __cplusplus
    if (kind == 3) ret = fn(k, b, lv); else
#endif
    switch (k) { C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) }
#ifdef __cplusplus
    } catch (int x) { ret = NULL; }
#endif
    if (ret) mc_assert(ret == slot[b] || ret == slot[b + k - 1], "the value returned is %p, the variable's was %p", (void *) ret, (void *) slot[b + k - 1]);
}

/* which ways out does this kind have? (decided on entry) */
static void choosePath(int kind)
{
    int n = 0, opts[NPATHS];
#ifdef AUTOPOP
    if (kind == 0) { opts[n++] = FALL; opts[n++] = RETURN; opts[n++] = VALUE; }
    else if (kind == 1) { opts[n++] = FALL; opts[n++] = BREAK; opts[n++] = GOTO; opts[n++] = BLOCKRET; opts[n++] = VALUE; opts[n++] = RETURN; }
    else opts[n++] = VALUE;
#ifdef __cplusplus
    if (kind < 2) opts[n++] = THROW;
#endif
#else
    if (kind == 0) { opts[n++] = FALL; opts[n++] = RETURN; opts[n++] = VALUE; }
    else opts[n++] = FALL;
#endif
    if (mc_arg("mode", 0) == 1 && mc_arg("ways", 0) == 0 && n > 2) { /* a selection */
        if (kind == 1) opts[0] = opts[1];
        opts[1] = opts[n - 1]; n = 2;
    }
    path = opts[mc_choose(n, "way out")];
    mc_note("leave it by: %s", pathName[path]);
}

static void doGlobalize(int b, int k)
{
    int i;
    GGC_GLOBALIZE();
    for (i = 0; i < k; i++) isGlobal[b + i] = 1;
    mc_cover("globalized");
}

static void body(int b, int k, int lv, int manual)
{
    int myPath = path;
    if (mc_arg("mode", 0) == 0) {
        if (lv == 0) {
            int kind, k2, g;
            fill(b, k);
            kind = mc_choose(NKINDS, "inner kind");
            k2 = 1 + mc_choose(kind == 3 ? NMAX : 16, "inner arity");
            if (k2 != 1 && k2 != 16 && k != 1 && k != 16 && mc_arg("pairs", 0) == 0 && k2 != k) mc_prune();
            choosePath(kind);
            mc_note("outer arity %d, inner kind %d arity %d", k, kind, k2);
            frame(kind, k2, b + k, 1);
            checkAll("back in the outer frame");
            g = mc_choose(MAXGEN + 2, "generation");
            collectGen(g);
            check("after a collection in the outer frame");
        } else {
            check("in the inner frame");
            fill(b, k);
            checkAll("inner frame filled");
            collectGen(mc_choose(MAXGEN + 2, "generation in the inner frame"));
            check("after a collection in the inner frame");
        }
    } else if (mc_arg("mode", 0) == 2) {
        /* the very first allocations and globals are made `levels` deep */
        if (lv < budget) { path = VALUE; frame(mc_choose(2, "kind"), lv & 1 ? 1 : 3, top, lv + 1); }
        fill(b, k);
        checkAll("filled");
        if (mc_choose(2, "globalize")) { doGlobalize(b, k); checkAll("globalized"); }
        path = VALUE;
    } else {
        while (budget > 0) {
            int op = mc_choose(k ? 6 : 4, "op");
            budget--;
            if (op == 0) break;
            switch (op) {
            case 1: collectGen(mc_choose(MAXGEN + 2, "generation")); mc_note("collect"); break;
            case 2: case 3: { /* deeper */
                int kind = op == 2 ? 0 : mc_choose(NKINDS - 1, "kind") + 1, k2 = lv & 1 ? 1 : 3;
                if (depthNow >= 4 || top + k2 > NS) mc_prune();
                choosePath(kind);
                mc_note("push %d (kind %d)", k2, kind);
                frame(kind, k2, top, lv + 1);
                break;
            }
            case 4: fill(b, k); mc_note("fill"); break;
            case 5: doGlobalize(b, k); mc_note("globalize"); break;
            }
            checkAll("after the operation");
        }
        mc_note("leave");
    }
    path = myPath;
    (void) manual;
}

static void checkStart(void)
{
    GGC_COLLECT();
    baseWords = usedWords();
}

void mc_main(void)
{
    if (mc_arg("mode", 0) == 2) {
        budget = mc_choose(4, "levels");
        path = VALUE;
        frame(mc_choose(2, "kind"), 2, 0, 0);
        checkAll("at the end");
        return;
    }
    /* make everything there is to make */
    churn(POOL_USABLE + 10);
    { GGC_PUSH_1(slot[0]); slot[0] = newNode(); GGC_POP(); }
    slot[0] = NULL;
    checkStart();
    if (mc_arg("mode", 0) == 0) {
        int kind = mc_choose(NKINDS, "kind"), k = 1 + mc_choose(kind == 3 ? NMAX : 16, "arity");
        path = FALL;
        choosePath(kind);
        if (mc_arg("pairs", 0) == 0 && path != FALL && path != VALUE) mc_prune();
        frame(kind, k, 0, 0);
        checkAll("at the end");
    } else {
        budget = mc_arg("depth", 5);
        body(0, 0, 0, 0);
        checkAll("at the end");
        if (mc_probe_begin()) {
            GGC_COLLECT();
            if (!Rn) mc_assert(usedWords() == baseWords, "everything was left, but %ld words stay in use instead of %ld", usedWords(), baseWords);
            mc_probe_end();
        }
    }
}
