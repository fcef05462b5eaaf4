/* C11, C12, C13: threads.
 * mode 0: every combination of scripts for main and 1..2 other threads;
 * mode 1: threads blocked in every kind of blocking call, released in every order;
 * mode 2: thread creation that may fail;
 * mode 3: threads created and exiting repeatedly: memory is reused;
 * mode 4: global roots of threads that have exited, first globalize in a thread;
 * mode 5: results of blocking calls. */
#define FASTV
#define FASTW
#include "common.h"
#include "tile.h"
#include <errno.h>
#include <sched.h>

#define MAXT 8
struct Th { int n, next; W ids[40]; };
static MCG struct Th T[MAXT];
static MCG struct Th Sh;             /* the shared list */
static MCG W shB;                    /* id of the object its oldest element refers to, or 0 */
static MCG const char *script[MAXT];
static MCG int fill_[MAXT], finished[MAXT], nTh;
static Node shared, result[MAXT];
static ggc_mutex_t um = GGC_MUTEX_INITIALIZER;

GGC_TYPE(SlotA)
    GGC_MPTR(Node, p);
    GGC_MDATA(W, d);
GGC_END_TYPE(SlotA,
    GGC_PTR(SlotA, p)
    )
GGC_TYPE(SlotB)
    GGC_MDATA(W, d);
    GGC_MPTR(Node, p);
    GGC_MPTR(SlotA, s);
GGC_END_TYPE(SlotB,
    GGC_PTR(SlotB, p)
    GGC_PTR(SlotB, s)
    )

static void obj(Node n, W id, const char *when)
{
    mc_assert(n && ((W) n & 7) == 0 && mc_mem_valid(n, NODE_WORDS * 8), "%s: object %ld lost: %p is outside of the heap", when, (long) id, (void *) n);
    mc_assert(GGC_RD(n, id) == id && GGC_RD(n, mid) == ~id, "%s: object %ld lost: at %p there is %#lx, %#lx", when, (long) id, (void *) n, (long) GGC_RD(n, id), (long) GGC_RD(n, mid));
    mc_assert(((W) n->header.descriptor__ptr & 7) == 0 && mc_mem_valid(n->header.descriptor__ptr, 24) && n->header.descriptor__ptr->size == NODE_WORDS, "%s: object %ld: header lost", when, (long) id);
}

static void walk(Node h, struct Th *t, const char *when)
{
    int i;
    mc_quiet(1);
    for (i = t->n - 1; i >= 0; i--) {
        obj(h, t->ids[i], when);
        h = GGC_RP(h, a);
    }
    mc_assert(h == NULL, "%s: the list does not end, %p", when, (void *) h);
    mc_quiet(0);
}

static Node mk(W id)
{
    Node n = GGC_NEW(Node);
    mc_quiet(1);
    checkFresh(n, NODE_WORDS, 0, "GGC_NEW");
    mc_quiet(0);
    GGC_WD(n, id, id);
    id = ~id;
    GGC_WD(n, mid, id);
    return n;
}

static Node push(Node head, struct Th *t, int me)
{
    Node n = NULL;
    W id = (me + 1) * 1000 + ++T[me].next;
    GGC_PUSH_2(head, n);
    n = mk(id);
    GGC_WP(n, a, head);
    t->ids[t->n++] = id;
    mc_assert(t->n < 40, "harness: too many objects");
    return n;
}

static void runScript(Node *head, int me);
static ggc_sem_t sem[MAXT];
static ggc_mutex_t held[MAXT];
static ggc_barrier_t bar[MAXT];
static Node gl[MAXT][2];
static MCG W glId[MAXT][2];
static MCG int glN[MAXT];

/* make a global root, some frames deep */
static void globalRoot(int me, int k, int deep)
{
    Node n = NULL;
    GGC_PUSH_1(n);
    if (deep) {
        n = mk(77);
        globalRoot(me, k, deep - 1);
        mc_assert(GGC_RD(n, id) == 77, "a local root was lost");
    } else {
        GGC_PUSH_1(gl[me][k]);
        GGC_GLOBALIZE();
        GGC_POP();
        glId[me][k] = (me + 1) * 1000 + 500 + k;
        gl[me][k] = mk(glId[me][k]);
    }
    GGC_POP();
}
static void checkGlobals(int me, const char *when)
{
    int k;
    mc_quiet(1);
    for (k = 0; k < glN[me]; k++) obj(gl[me][k], glId[me][k], when);
    mc_quiet(0);
}

#ifdef GGGGC_FEATURE_FINALIZERS
static MCG int ran[64], regd[64], nReg;
static void fin(void *n_)
{
    Node n = (Node) n_;
    W k;
    GGC_PUSH_1(n);
    mc_quiet(1);
    k = GGC_RD(n, id) - 100000;
    mc_assert(k < 64 && GGC_RD(n, mid) == ~GGC_RD(n, id), "a finalizer got something else than its object");
    ran[k]++;
    mc_assert(ran[k] == 1, "finalizer %ld ran twice", (long) k);
    mc_assert(regd[k] != 1, "finalizer %ld ran although its object is reachable", (long) k);
    mc_quiet(0);
    mk(1);
    GGC_POP();
}
static Node mkFin(int garbage)
{
    Node n = NULL;
    int k;
    GGC_PUSH_1(n);
    k = nReg++;
    regd[k] = 1;
    n = mk(100000 + k);
    GGC_FINALIZE(n, fin);
    if (garbage) regd[k] = 2;
    return n;
}
#endif

static void threadMain(GGC_ThreadArg arg)
{
    Node head = NULL, given = (Node) arg;
    W id;
    int me;
    GGC_PUSH_2(head, given);
    mc_quiet(1);
    id = GGC_RD(given, id);
    me = (int) id;
    obj(given, id, "a thread's argument");
    if (fill_[me]) { head = push(head, &T[me], me); fillTo(fill_[me] - 1); }
    mc_quiet(0);
    runScript(&head, me);
    mc_quiet(1);
    obj(given, id, "a thread's argument at the end");
    mc_quiet(0);
    result[me] = head;
    finished[me] = 1;
    GGC_POP();
}

/* the argument of thread `to` is an object with its number */
static int spawn(ggc_thread_t *th, int to)
{
    GGC_ThreadArg a = NULL;
    int r;
    GGC_PUSH_1(a);
    a = (GGC_ThreadArg) mk(to);
    r = ggc_thread_create(th, threadMain, a);
    return r;
}

static void op(char c, Node *head, int me)
{
    struct Th *t = &T[me];
    switch (c) {
    case 'N': *head = push(*head, t, me); break;
    case 'C': GGC_COLLECT(); break;
    case '0': case '1': case '2': collectGen(c - '0'); break;
    case 'Y': GGC_YIELD(); break;
    case 'B':
        ggc_pre_blocking();
        mc_point("blocked");
        ggc_post_blocking();
        break;
    case 'L': /* push to the shared list */
        mc_assert(ggc_mutex_lock(&um) == 0, "ggc_mutex_lock failed");
        walk(shared, &Sh, "with the lock held");
        shared = push(shared, &Sh, me);
        walk(shared, &Sh, "with the lock held");
        ggc_mutex_unlock(&um);
        break;
    case 'W': { /* its oldest object, which other threads' objects also refer to, gets a new one */
        Node n = NULL, o = NULL;
        W id = (me + 1) * 1000 + ++t->next;
        GGC_PUSH_2(n, o);
        mc_assert(ggc_mutex_lock(&um) == 0, "ggc_mutex_lock failed");
        n = mk(id);
        mc_quiet(1);
        for (o = shared; GGC_RP(o, a); o = GGC_RP(o, a));
        mc_quiet(0);
        GGC_WP(o, b, n);
        shB = id;
        ggc_mutex_unlock(&um);
        GGC_POP();
        break;
    }
    case 'H': { /* no collection between two safe points */
        Node h = *head, s = shared;
        int i;
        for (i = 0; i < 2; i++) {
            mc_point("between safe points");
            mc_quiet(1);
            mc_assert(h == *head, "between safe points: this thread's root changed from %p to %p", (void *) h, (void *) *head);
            mc_quiet(0);
            walk(h, t, "between safe points");
        }
        (void) s;
        break;
    }
    case 'S': { /* shared descriptions */
        SlotA a = NULL;
        SlotB b = NULL;
        W v = 0x1234567;
        GGC_PUSH_2(a, b);
        a = GGC_NEW(SlotA);
        GGC_WP(a, p, *head);
        GGC_WD(a, d, v);
        b = GGC_NEW(SlotB);
        GGC_WP(b, s, a);
        GGC_WP(b, p, *head);
        GGC_YIELD();
        mc_quiet(1);
        mc_assert(GGC_RP(b, s) == a && GGC_RP(a, p) == *head && GGC_RP(b, p) == *head && GGC_RD(a, d) == v && GGC_RD(b, d) == 0, "an object of a shared type lost its contents");
        mc_assert(a->header.descriptor__ptr->size == HW + 2 && b->header.descriptor__ptr->size == HW + 3, "an object of a shared type has the wrong descriptor");
        mc_quiet(0);
        GGC_POP();
        break;
    }
    case 'D': { /* descriptors of sizes nobody used before */
        GGC_size_t_Array a = NULL;
        NodeArray p = NULL;
        GGC_PUSH_2(a, p);
        a = GGC_NEW_DA(size_t, 19);
        p = GGC_NEW_PA(Node, 21);
        GGC_WAP(p, 20, *head);
        GGC_YIELD();
        mc_quiet(1);
        mc_assert(a->length == 19 && p->length == 21 && a->header.descriptor__ptr->size == HW + 20 && p->header.descriptor__ptr->size == HW + 22, "an array has the wrong size");
        mc_assert(GGC_RAP(p, 20) == *head, "an array lost its contents");
        mc_quiet(0);
        GGC_POP();
        break;
    }
    case 'T': { /* a thread of its own, with the last number */
        ggc_thread_t th;
        int c = nTh++, r;
        mc_assert(c < MAXT, "harness: too many threads");
        script[c] = "N";
        r = spawn(&th, c);
        mc_assert(r == 0, "ggc_thread_create failed");
        mc_assert(ggc_thread_join(th) == 0, "ggc_thread_join failed");
        mc_assert(finished[c], "joined a thread that has not finished");
        break;
    }
    case 'Z': mc_assert(ggc_sem_wait(&sem[me]) == 0, "ggc_sem_wait failed"); break;
    case 'M':
        mc_assert(ggc_mutex_lock(&held[me]) == 0, "ggc_mutex_lock failed");
        ggc_mutex_unlock(&held[me]);
        break;
    case 'R': mc_assert(ggc_barrier_wait(&bar[me]) == 0, "ggc_barrier_wait failed"); break;
    case 'G': case 'g':
        globalRoot(me, glN[me], c == 'G' ? 2 : 0);
        glN[me]++;
        break;
#ifdef GGGGC_FEATURE_FINALIZERS
    case 'Q': { /* garbage with a finalizer */
        Node n = NULL;
        GGC_PUSH_1(n);
        n = mkFin(1);
        n = NULL;
        GGC_POP();
        break;
    }
    case 'q': { /* add a shared object with a finalizer */
        Node n = NULL;
        GGC_PUSH_1(n);
        mc_assert(ggc_mutex_lock(&um) == 0, "ggc_mutex_lock failed");
        n = mkFin(0);
        GGC_WP(n, a, shared);
        Sh.ids[Sh.n++] = GGC_RD(n, id);
        shared = n;
        ggc_mutex_unlock(&um);
        GGC_POP();
        break;
    }
    case 'p': /* remove the newest shared object */
        mc_assert(ggc_mutex_lock(&um) == 0, "ggc_mutex_lock failed");
        if (Sh.n > 2) {
            W id;
            mc_quiet(1);
            id = GGC_RD(shared, id);
            if (id >= 100000) regd[id - 100000] = 2;
            mc_quiet(0);
            shared = GGC_RP(shared, a);
            Sh.n--;
            Sh.ids[Sh.n] = 0;
        }
        ggc_mutex_unlock(&um);
        break;
#endif
    }
}

/* the heap of this thread, and if all others have exited, theirs */
static void checkTiles(const char *when, int all)
{
#ifdef GGGGC_COLLECTOR_PORTABLEMS
    mc_quiet(1);
    tiles(ggggc_gen0, when);
    if (all) tiles(ggggc_orphanPools.pool, when);
    tilesForget();
    mc_quiet(0);
#endif
}

static void runScript(Node *head, int me)
{
    const char *p;
    char b[40];
    for (p = script[me]; *p; p++) {
        op(*p, head, me);
        snprintf(b, sizeof b, "thread %d after %c", me, *p);
        walk(*head, &T[me], b);
        checkGlobals(me, b);
        checkTiles(b, 0);
    }
}

/* shared: two old objects */
static void setup(void)
{
    int i;
    GGC_PUSH_9(shared, result[0], result[1], result[2], result[3], result[4], result[5], result[6], result[7]);
    GGC_GLOBALIZE();
    GGC_POP();
    for (i = 0; i < 2; i++) shared = push(shared, &Sh, MAXT - 1);
    T[MAXT - 1].next = 0;
    GGC_COLLECT();
    GGC_COLLECT();
    churn(20);
    GGC_COLLECT();
}

static void finalCheck(int n)
{
    int i, k;
    for (k = 0; k < 2; k++) {
        for (i = 0; i < n; i++) {
            mc_assert(finished[i], "thread %d did not finish", i);
            walk(result[i], &T[i], "at the end");
        }
        walk(shared, &Sh, "at the end");
        for (i = 0; i < MAXT; i++) checkGlobals(i, "at the end");
        if (shB) {
            Node o;
            for (o = shared; GGC_RP(o, a); o = GGC_RP(o, a));
            obj(GGC_RP(o, b), shB, "at the end");
        }
        checkTiles("at the end", 1);
        if (!k) { GGC_COLLECT(); churn(60); }
    }
}

static const char *const ops[] = {
    "NC0YBLWH",     /* 0: 8 */
    "CNBLYH",       /* 1: 6 */
    "SDTLC",        /* 2: 5 */
    "CN0H",         /* 3 */
    "SDC",          /* 4 */
    "CB",           /* 5 */
    "TCN",          /* 6 */
    "QqpC",         /* 7 */
    "gGCN",         /* 8 */
};
static const char *chooseScript(int alpha, int len, int me)
{
    static MCG char b[MAXT][8];
    int i;
    for (i = 0; i < len; i++) b[me][i] = ops[alpha][mc_choose(strlen(ops[alpha]), "op")];
    b[me][i] = 0;
    return b[me];
}

static void mode0(void)
{
    ggc_thread_t th[MAXT];
    Node head = NULL;
    int i, n = mc_arg("n", 1), alpha = mc_arg("alpha", 0);
    GGC_PUSH_1(head);
    for (i = 0; i <= n; i++) {
        static const int fills[] = { 0, 3, 8 };
        script[i] = chooseScript(i && mc_arg("alphac", -1) >= 0 ? mc_arg("alphac", 0) : alpha, i ? mc_arg("lenc", 1) : mc_arg("len", 2), i);
        fill_[i] = fills[mc_choose(mc_arg("fills", 2), "fill")];
    }
    nTh = n + 1;
    if (fill_[0]) { head = push(head, &T[0], 0); fillTo(fill_[0] - 1); }
    for (i = 1; i <= n; i++) mc_assert(spawn(&th[i], i) == 0, "ggc_thread_create failed");
    runScript(&head, 0);
    for (i = 1; i <= n; i++) {
        mc_assert(ggc_thread_join(th[i]) == 0, "ggc_thread_join failed");
        mc_assert(finished[i], "joined a thread that has not finished");
        walk(head, &T[0], "after the join");
        walk(result[i], &T[i], "after the join");
    }
    result[0] = head; finished[0] = 1;
    mc_cover("all joined");
    finalCheck(nTh);
    GGC_POP();
}

#ifdef GGGGC_FEATURE_FINALIZERS
static void finalFinalizers(void)
{
    int i;
    for (i = 0; i < 3; i++) GGC_COLLECT();
    for (i = 0; i < nReg; i++)
        mc_assert(regd[i] == 1 ? !ran[i] : ran[i] == 1, "finalizer %d %s", i, regd[i] == 1 ? "ran although its object is reachable" : "did not run");
    for (i = 0; i < nReg; i++) regd[i] = 2;
    shared = NULL;
    for (i = 0; i < MAXT; i++) result[i] = NULL;
    for (i = 0; i < 3; i++) GGC_COLLECT();
    for (i = 0; i < nReg; i++)
        mc_assert(ran[i] == 1, "finalizer %d did not run after its object became unreachable", i);
}
#endif

/* threads that are blocked, released in every order */
static void mode1(void)
{
    static const char *const how[] = { "NZN", "NMN", "NRC", "NBN" };
    static const char *const between[] = { "", "C", "0", "N" };
    ggc_thread_t th[MAXT];
    Node head = NULL;
    int i, k, n = mc_arg("n", 2), left, btw, kind[MAXT], released[MAXT];
    GGC_PUSH_1(head);
    mc_assert(n < MAXT, "harness: too many threads");
    for (i = 1; i <= n; i++) {
        /* the threads are otherwise alike */
        kind[i] = i == 1 ? mc_choose(mc_arg("kinds", 3), "blocked in") : kind[i - 1] + mc_choose(mc_arg("kinds", 3) - kind[i - 1], "blocked in");
        script[i] = how[kind[i]];
        fill_[i] = mc_choose(mc_arg("fills", 1), "fill") ? 8 : 0;
        ggc_sem_init(&sem[i], 0);
        ggc_barrier_init(&bar[i], 2);
        if (kind[i] == 1) ggc_mutex_lock_raw(&held[i]);
        released[i] = 0;
    }
    for (i = 1; i <= n; i++) mc_assert(spawn(&th[i], i) == 0, "ggc_thread_create failed");
    script[0] = "C";
    runScript(&head, 0);
    btw = mc_choose(mc_arg("between", 2), "after each release");
    for (left = n; left; left--) {
        k = mc_choose(left, "release");
        for (i = 1; i <= n; i++) if (!released[i] && !k--) break;
        released[i] = 1;
        if (kind[i] == 0) ggc_sem_post(&sem[i]);
        else if (kind[i] == 1) ggc_mutex_unlock(&held[i]);
        else if (kind[i] == 2) mc_assert(ggc_barrier_wait(&bar[i]) == 0, "ggc_barrier_wait failed");
        script[0] = between[btw];
        runScript(&head, 0);
    }
    for (i = 1; i <= n; i++) {
        mc_assert(ggc_thread_join(th[i]) == 0, "ggc_thread_join failed");
        mc_assert(finished[i], "joined a thread that has not finished");
    }
    result[0] = head; finished[0] = 1;
    finalCheck(n + 1);
    GGC_POP();
}

/* creation may fail */
static void mode2(void)
{
    ggc_thread_t th[MAXT];
    Node head = NULL;
    int i, n = mc_arg("n", 2), ok[MAXT], r;
    GGC_PUSH_1(head);
    mc_fail_creates(1);
    script[0] = "NC";
    for (i = 1; i <= n; i++) {
        script[i] = i == 1 ? "CN" : chooseScript(3, 1, i);
        errno = 0;
        r = spawn(&th[i], i);
        ok[i] = r == 0;
        if (r) {
            mc_assert(r == -1 && errno == EAGAIN, "a failed creation reports %d, errno %d", r, errno);
            finished[i] = 1;
            mc_cover("a thread could not be created");
        }
        runScript(&head, 0);
    }
    for (i = 1; i <= n; i++) if (ok[i]) {
        mc_assert(ggc_thread_join(th[i]) == 0, "ggc_thread_join failed");
        mc_assert(finished[i], "joined a thread that has not finished");
    }
    result[0] = head; finished[0] = 1;
    finalCheck(n + 1);
    GGC_POP();
}

/* one thread after the other */
static void mode3(void)
{
    ggc_thread_t th;
    Node head = NULL;
    int i, n = mc_arg("rounds", 6), pools = 0, conc = mc_choose(2, "collect while it runs");
    GGC_PUSH_1(head);
    for (i = 0; i < n; i++) {
        memset((void *) &T[1], 0, sizeof T[1]);
        finished[1] = 0; result[1] = NULL;
        script[1] = mc_arg("deep", 0) ? "NCN" : "NNN";
        fill_[1] = 20;
        mc_assert(spawn(&th, 1) == 0, "ggc_thread_create failed");
        if (conc) GGC_COLLECT();
        mc_assert(ggc_thread_join(th) == 0, "ggc_thread_join failed");
        mc_assert(finished[1], "joined a thread that has not finished");
        walk(result[1], &T[1], "after the join");
        GGC_COLLECT();
        walk(result[1], &T[1], "after the join");
        if (i == 2) pools = mc_pools();
        if (i > 2) mc_assert(mc_pools() <= pools + 1, "after %d threads there are %d pools, after 3 there were %d", i + 1, mc_pools(), pools);
    }
    result[0] = NULL; finished[0] = 1;
    finalCheck(2);
    GGC_POP();
}

/* results of blocking calls */
static void mode5(void)
{
    static ggc_mutex_t m = GGC_MUTEX_INITIALIZER;
    static const int errs[] = { 0, EINVAL, EDEADLK, ESRCH };
    ggc_thread_t th = 0;
    Node head = NULL;
    int e, r = 0, want, what = mc_choose(6, "call");
    GGC_PUSH_1(head);
    head = push(head, &T[0], 0);
    ggc_sem_init(&sem[0], 1);
    ggc_barrier_init(&bar[0], 1);
    if (what == 4) {
        script[1] = "N";
        mc_assert(spawn(&th, 1) == 0, "ggc_thread_create failed");
    }
    e = errs[mc_choose(4, "error")];
    want = e ? -1 : 0;
    if (what == 5) { if (e) mc_prune(); }
    if (e) mc_block_error(e);
    errno = 12345;
    switch (what) {
    case 0: r = ggc_mutex_lock(&m); break;
    case 1: r = ggc_sem_wait(&sem[0]); break;
    case 2: r = ggc_barrier_wait(&bar[0]); break;
    case 3: case 4:
        if (what == 3 && !e) mc_prune();
        r = ggc_thread_join(th);
        break;
    case 5: /* interrupted */
        mc_block_error(EINTR);
        r = ggc_sem_wait(&sem[0]);
        break;
    }
    mc_assert(r == want, "call %d returned %d instead of %d", what, r, want);
    if (e) mc_assert(errno == e, "call %d set errno to %d instead of %d", what, errno, e);
    walk(head, &T[0], "after the call");
    if (what == 4 && e) mc_assert(ggc_thread_join(th) == 0, "ggc_thread_join failed");
    GGC_COLLECT();
    walk(head, &T[0], "after the call");
    GGC_POP();
}

void mc_main(void)
{
    setup();
    switch (mc_arg("mode", 0)) {
    case 0: mode0(); break;
    case 1: mode1(); break;
    case 2: mode2(); break;
    case 3: mode3(); break;
    case 5: mode5(); break;
    }
#ifdef GGGGC_FEATURE_FINALIZERS
    finalFinalizers();
#endif
}
