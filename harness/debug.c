/* C20: a corrupted header of a reachable object is reported at the next
 * collection, wherever the object is, and only then. */
#include "common.h"

static MCG int expecting;
static void reported(void)
{
    mc_assert(expecting, "abort() called, but nothing is corrupt");
    mc_cover("reported");
}

static void age(void)
{
    int a = mc_choose(MAXGEN + 2, "age");
    while (a--) GGC_COLLECT();
}

static ggc_sem_t ready, go;
static MCG W *theirs;
static Node mk(void) { Node n = newNode(); return n; }

static void worker(GGC_ThreadArg arg)
{
    Node n = NULL;
    GGC_PUSH_2(arg, n);
    n = mk();
    if (mc_choose(2, "the thread collects")) GGC_COLLECT();
    theirs = (W *) n;
    ggc_sem_post(&ready);
    ggc_sem_wait(&go);
    GGC_POP();
    return;
}

void mc_main(void)
{
    Node a = NULL, b = NULL, n = NULL;
    NodeArray arr = NULL;
    GGC_size_t_Array data = NULL;
    W *victim, v, *at[9];
    static const W bad[] = { 0, GGGGC_MEMORY_CORRUPTION_VAL ^ 1, GGGGC_MEMORY_CORRUPTION_VAL ^ 0x80000000UL, ~(W) 0, GGGGC_MEMORY_CORRUPTION_VAL | (W) 1 << 32, GGGGC_MEMORY_CORRUPTION_VAL | (W) 1 << 63 };
    int i, k;
    ggc_thread_t th;
    GGC_ThreadArg ta = NULL;
    GGC_PUSH_6(a, b, n, arr, data, ta);
    mc_expect_abort(1);
    mc_on_abort(reported);
    if (mc_arg("settle", 1)) GGC_COLLECT();
    a = newNode();
    age();
    b = newNode();
    GGC_WP(a, a, b);
    n = newNode();
    GGC_WP(b, b, n);
    n = NULL;
    if (mc_choose(2, "root of the chain")) b = NULL; else { n = GGC_RP(b, b); }
    age();
    if (mc_choose(2, "across pools")) { fillTo(3); arr = GGC_NEW_PA(Node, 3); data = GGC_NEW_DA(size_t, 4); }
    else { arr = GGC_NEW_PA(Node, 3); data = GGC_NEW_DA(size_t, 4); }
    { Node x = newNode(); GGC_WAP(arr, 1, x); }
    age();
    at[0] = (W *) a;
    { Node x = GGC_RP(a, a); at[1] = (W *) x; at[2] = (W *) GGC_RP(x, b); }
    at[3] = (W *) arr; at[4] = (W *) data; at[5] = (W *) GGC_RAP(arr, 1);
    at[6] = (W *) *at[0]; /* Node's descriptor */
    at[7] = (W *) *at[3]; /* the array's */
    k = 8;
    if (mc_arg("threads", 0)) {
        mc_assert(!ggc_sem_init(&ready, 0) && !ggc_sem_init(&go, 0), "ggc_sem_init failed");
        ta = GGC_NEW(GGC_ThreadArg);
        mc_assert(ggc_thread_create(&th, worker, ta) == 0, "ggc_thread_create failed");
        ggc_sem_wait(&ready);
        /* the blocked thread's object */
        { Node x; at[0] = (W *) a; x = GGC_RP(a, a); at[1] = (W *) x; at[2] = (W *) GGC_RP(x, b); at[3] = (W *) arr; at[4] = (W *) data; at[5] = (W *) GGC_RAP(arr, 1); at[6] = (W *) *at[0]; at[7] = (W *) *at[3]; }
        at[8] = theirs; k = 9;
        victim = at[mc_choose(2, "whose") ? 8 : 1];
    } else {
        /* nothing is wrong: nothing is reported, also by a collection of any kind */
        victim = at[mc_choose(k, "victim")];
    }
    mc_assert(victim[1] == GGGGC_MEMORY_CORRUPTION_VAL, "no canary");
    i = mc_choose(7, "value");
    if (i == 6) { /* intact */
        v = victim[1];
        victim[1] = v;
        collectGen(mc_choose(MAXGEN + 2, "generation"));
        mc_cover("intact");
        if (mc_arg("threads", 0)) { ggc_sem_post(&go); ggc_thread_join(th); }
        GGC_POP();
        mc_done();
    }
    victim[1] = bad[i];
    expecting = 1;
    k = mc_choose(MAXGEN + 3, "generation");
    if (k < MAXGEN + 2) collectGen(k);
    else {
        /* until one is needed; no matter by whom */
        GGC_size_t_Array d = NULL;
        GGC_PUSH_1(d);
        for (i = 0; i < 3 * (int) POOL_USABLE / 20; i++) d = GGC_NEW_DA(size_t, 20);
        GGC_POP();
    }
    mc_fail("a corrupted header of a reachable object was not reported");
}
