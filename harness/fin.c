/* C08: finalizers. Objects are Nodes; a request is (object, kind of finalizer).
 * mode 0: every small graph, placement in generations, set of requests and
 *         set of kept roots, then two collections;
 * mode 1: every sequence of operations;
 * mode 2: collections whose promotion fails. */
#include "gcat.h"

#define NR 5           /* roots: 0..2 the objects, 3 rescued by a finalizer, 4 an old object */
#define MAXREQ 12
#define KINDS 8
static Node gr[NR];
static MCG struct { int live, kind, mustRun, unreach; } Req[MAXREQ]; /* Mkeep[i] is the object */
static MCG int nReq, ran, partly;

/* which model objects are reachable from the roots */
static MCG int reach_[MAXM];
static void computeReach(void)
{
    static MCG int st[MAXM + 1];
    int sp = 0, i, k;
    for (i = 0; i < MAXM; i++) reach_[i] = 0;
    for (i = 0; i < Rn; i++) if (Mroot[i] >= 0 && !reach_[Mroot[i]]) { reach_[Mroot[i]] = 1; st[sp++] = Mroot[i]; }
    while (sp) {
        int m = st[--sp];
        for (k = 0; k < M[m].size; k++) if (M[m].ptr[k] >= 0 && !reach_[(int) M[m].ptr[k]]) { reach_[(int) M[m].ptr[k]] = 1; st[sp++] = M[m].ptr[k]; }
    }
    for (i = 0; i <= MAXM; i++) st[i] = 0;
}

/* the program's graph has changed, or is about to be collected (top): requests
 * whose object can be reached now have not been found unreachable */
static void note(int top)
{
    int i;
    computeReach();
    for (i = 0; i < nReq; i++) if (Req[i].live) {
        int u = !reach_[Mkeep[i]];
        if (u) Req[i].unreach = 1;
        else if (top) Req[i].unreach = 0;
        if (!u && partly) Req[i].mustRun = 0; /* rescued by a finalizer of the partial collections that come first */
    }
    for (i = 0; i < MAXM; i++) reach_[i] = 0;
}

static void fin0(void *), fin1(void *), fin2(void *), fin3(void *), fin4(void *), fin5(void *), fin6(void *), fin7(void *);
static void (*const fins[KINDS])(void *) = { fin0, fin1, fin2, fin3, fin4, fin5, fin6, fin7 };

static MCG int reqGcat; /* collect while the request is made: 1 + generation */
static void request(void *obj, int m, int kind)
{
    int i;
    for (i = 0; i < nReq && Req[i].live; i++);
    mc_assert(i < MAXREQ, "harness: too many requests");
    if (i == nReq) nReq++;
    Mkn = nReq;
    Mkeep[i] = m; Req[i].live = 1; Req[i].kind = kind; Req[i].mustRun = 0; Req[i].unreach = 0;
    mc_note("finalizer %d for #%ld", kind, (long) M[m].data[NODE_ID]);
    if (reqGcat) { gcatLeft = 1; gcatGen = reqGcat - 1; mc_cover("collected in the request"); }
    GGC_FINALIZE(obj, fins[kind]);
    gcatOff();
    note(0);
}

/* common part of every finalizer: returns the model object */
static int called(void *obj, int kind)
{
    int i, m = -1, r = Rn;
    W id;
    mc_assert(obj && ((W) obj & 7) == 0 && mc_mem_valid(obj, NODE_WORDS * 8), "finalizer %d called with %p", kind, obj);
    id = ((W *) obj)[NODE_ID];
    for (i = 0; i < nReq; i++) if (Req[i].live && Req[i].kind == kind && M[Mkeep[i]].data[NODE_ID] == id && (m < 0 || Req[i].unreach)) { m = i; if (Req[i].mustRun) break; }
    mc_assert(m >= 0, "finalizer %d called for #%ld, which does not ask for it (any more)", kind, (long) id);
    mc_note("finalizer %d runs for #%ld", kind, (long) id);
    mc_assert(Req[m].unreach, "finalizer %d called for #%ld, which is reachable", kind, (long) id);
    Req[m].live = 0;
    i = Mkeep[m];
    Mkeep[m] = -1;
    while (nReq && !Req[nReq - 1].live) nReq--;
    Mkn = nReq;
    /* the object and everything it refers to is intact */
    Rroot[r] = &obj; Mroot[r] = i; Rn = r + 1;
    verify("in a finalizer");
    Rn = r; Rroot[r] = NULL; Mroot[r] = -1;
    ran++;
    mc_cover("finalized");
    return i;
}
static void after(void) { note(0); verify("in a finalizer, after its action"); }

/* m may be renumbered while objects are collected: keep it in the model */
static int hold(int m) { int i; for (i = 0; i < nReq && Req[i].live; i++); (void) m; return i; }
static void fin0(void *obj) { called(obj, 0); after(); }
static void fin1(void *obj)             /* rescue */
{
    int m = called(obj, 1);
    gr[3] = (Node) obj; Mroot[3] = m;
    mc_cover("rescued");
    after();
}
static void fin2(void *obj)             /* allocate and link the new object to it */
{
    int m = called(obj, 2), m2;
    Node n = NULL, o = (Node) obj;
    GGC_PUSH_2(n, o);
    n = newNode(); m2 = mNode(nextId);
    GGC_WP(n, a, o); M[m2].ptr[NODE_A] = m;
    gr[3] = n; Mroot[3] = m2;
    after();
    GGC_POP();
}
static void checkHeld(void *obj, int m)
{
    int r = Rn;
    Rroot[r] = &obj; Mroot[r] = m; Rn = r + 1;
    verify("in a finalizer, after its collection");
    Rn = r; Rroot[r] = NULL; Mroot[r] = -1;
}
static void fin3(void *obj)             /* collect */
{
    int m = called(obj, 3);
    void *o = obj;
    GGC_PUSH_1(o);
    GGC_COLLECT();
    checkHeld(o, m);
    after();
    GGC_POP();
}
static void fin4(void *obj)             /* rescue, and ask again */
{
    int m = called(obj, 4);
    Node o = (Node) obj;
    GGC_PUSH_1(o);
    gr[3] = o; Mroot[3] = m;
    request(o, m, 0);
    after();
    GGC_POP();
}
static void fin5(void *obj)             /* ask again */
{
    int m = called(obj, 5);
    Node o = (Node) obj;
    GGC_PUSH_1(o);
    request(o, m, 0);
    checkHeld(o, m);
    after();
    GGC_POP();
}
static void fin6(void *obj)             /* allocate much, so that it is collected meanwhile */
{
    int m = called(obj, 6);
    void *o = obj;
    GGC_PUSH_1(o);
    churn(POOL_USABLE + 20);
    checkHeld(o, m);
    after();
    GGC_POP();
}
static void fin7(void *obj)             /* store into an old object */
{
    int m = called(obj, 7);
    Node o = (Node) obj, old = gr[4];
    if (old) { GGC_WP(old, b, o); M[Mroot[4]].ptr[NODE_B] = m; }
    after();
}

static void setup(void)
{
    int i;
    GGC_PUSH_5(gr[0], gr[1], gr[2], gr[3], gr[4]);
    GGC_GLOBALIZE();
    GGC_POP();
    Rn = NR;
    for (i = 0; i < NR; i++) { Rroot[i] = (void **) &gr[i]; Mroot[i] = -1; }
    for (i = 0; i < MAXKEEP; i++) Mkeep[i] = -1;
}

static void doCollect(int g, const char *when)
{
    int i;
    note(1);
    if (g > MAXGEN || MAXGEN == 0 || g == MAXGEN)
        for (i = 0; i < nReq; i++) if (Req[i].live) Req[i].mustRun = Req[i].unreach;
    partly = MAXGEN && g > MAXGEN;
    collectGen(g);
    partly = 0;
    for (i = 0; i < nReq; i++)
        mc_assert(!Req[i].live || !Req[i].mustRun, "%s: finalizer %d of unreachable object #%ld did not run", when, Req[i].kind, (long) M[Mkeep[i]].data[NODE_ID]);
    mGC();
    note(1);
    verify(when);
}

static void finish(void)
{
    int i;
    if (mc_probe_begin()) {
        doCollect(MAXGEN + 1, "final collection");
        for (i = 0; i < 3; i++) { gr[i] = NULL; Mroot[i] = -1; }
        gr[3] = NULL; Mroot[3] = -1;
        if (gr[4]) { Node o = gr[4], z = NULL; GGC_WP(o, a, z); GGC_WP(o, b, z); M[Mroot[4]].ptr[NODE_A] = M[Mroot[4]].ptr[NODE_B] = -1; }
        /* rescuers may keep objects for one more round */
        for (i = 0; i < 4; i++) {
            doCollect(MAXGEN + 1, "final collection of everything");
            gr[3] = NULL; Mroot[3] = -1;
            if (gr[4]) { Node o = gr[4], z = NULL; GGC_WP(o, b, z); M[Mroot[4]].ptr[NODE_B] = -1; }
            mGC(); note(1);
        }
        for (i = 0; i < nReq; i++) mc_assert(!Req[i].live, "finalizer %d of #%ld never ran", Req[i].kind, (long) M[Mkeep[i]].data[NODE_ID]);
        churn(POOL_USABLE + 20);
        verify("at the end");
        mc_probe_end();
    }
}

static void newOld(void)
{
    int i;
    gr[4] = newNode(); Mroot[4] = mNode(nextId);
    for (i = 0; i < MAXGEN; i++) collectGen(i);
}

static void mode0(void)
{
    int n = mc_arg("n", 2), i, k, j, g;
    if (mc_choose(2, "an old object")) newOld();
    for (i = 0; i < n; i++) {
        gr[i] = newNode(); Mroot[i] = mNode(nextId);
        if (mc_choose(2, "finalizer while young")) request(gr[i], Mroot[i], mc_choose(i ? mc_arg("kinds", KINDS) : KINDS, "kind"));
        if (MAXGEN && (g = mc_choose(MAXGEN + 1, "promote"))) doCollect(g - 1, "after promotion");
    }
    /* links, from any object to any */
    for (i = 0; i < n; i++) {
        j = mc_choose(n + 1 + (i == 0 && gr[4]), "link");
        if (j < n) { Node x = gr[i], y = gr[j]; GGC_WP(x, a, y); M[Mroot[i]].ptr[NODE_A] = Mroot[j]; }
        else if (j > n) { Node x = gr[4], y = gr[i]; GGC_WP(x, a, y); M[Mroot[4]].ptr[NODE_A] = Mroot[i]; }
    }
    if ((g = mc_choose(4, "another finalizer"))) { /* collecting nothing, generation 0, everything */
        reqGcat = g == 3 ? MAXGEN + 2 : g - 1;
        {
            static const int ks[KINDS] = { 0, 4, 3, 7, 1, 2, 5, 6 };
            request(gr[0], Mroot[0], ks[mc_choose(mc_arg("kinds2", KINDS), "kind")]);
        }
        reqGcat = 0;
        mGC(); note(1);
    }
    k = mc_choose(1 << n, "drop");
    for (i = 0; i < n; i++) if (k >> i & 1) { gr[i] = NULL; Mroot[i] = -1; }
    mGC();
    for (i = 0; i < mc_arg("collections", 2); i++) {
        doCollect(mc_choose(MAXGEN + 2, "generation"), "after the collection");
        if (i == 0) { churn(40); verify("after allocations"); }
    }
    finish();
    mc_outcome(ran * 16 + nReq);
}

static void mode1(void)
{
    int d, i, j, depth = mc_arg("depth", 4);
    if (mc_arg("old", 0)) newOld();
    for (d = 0; d < depth; d++) {
        switch (mc_choose(5, "op")) {
        case 0:
            i = mc_choose(2, "into");
            gr[i] = newNode(); Mroot[i] = mNode(nextId);
            break;
        case 1: {
            Node x, y;
            i = mc_choose(2, "object"); j = mc_choose(3, "value");
            if (!gr[i] || (j < 2 && !gr[j])) mc_prune();
            x = gr[i]; y = j < 2 ? gr[j] : NULL;
            GGC_WP(x, a, y); M[Mroot[i]].ptr[NODE_A] = j < 2 ? Mroot[j] : -1;
            break;
        }
        case 2:
            i = mc_choose(2, "root");
            if (!gr[i]) mc_prune();
            gr[i] = NULL; Mroot[i] = -1;
            break;
        case 3:
            i = mc_choose(2, "object");
            if (!gr[i] || nReq >= 4) mc_prune();
            reqGcat = mc_choose(MAXGEN + 2, "collecting");
            request(gr[i], Mroot[i], mc_choose(KINDS, "kind"));
            reqGcat = 0;
            break;
        case 4:
            doCollect(mc_choose(MAXGEN + 2, "generation"), "after the collection");
            break;
        }
        mGC(); note(1);
        verify("after the operation");
        finish();
    }
}

/* promotion fails after some of the survivors and finalizers have moved: the
 * next generation is nearly full, of garbage or of live data, and memory may
 * be refused */
static void mode2(void)
{
    int i, n = mc_arg("n", 3), left, g, live;
    GGC_size_t_Array bal = NULL, bal2 = NULL;
    GGC_PUSH_2(bal, bal2);
    if (mc_choose(2, "an old object")) newOld();
    GGC_COLLECT();
    g = MAXGEN ? mc_choose(MAXGEN, "full generation") + 1 : 0;
    left = mc_choose(mc_arg("span", 60), "left");
    live = mc_choose(2, "its contents live");
    {
        /* two arrays with their descriptors, leaving exactly this much */
        long used = 0, x;
#ifdef GGGGC_COLLECTOR_GEMBC
        if (MAXGEN && ggggc_gens[g]) used = ggggc_gens[g]->free - ggggc_gens[g]->start;
#endif
        x = (long) POOL_USABLE - used - left - 2 * (long) (DA_OVER + DESC_WORDS_DA);
        mc_assert(x > 20, "harness: no room for the ballast");
        bal = GGC_NEW_DA(size_t, x / 2);
        bal2 = GGC_NEW_DA(size_t, x - x / 2);
    }
    for (i = 0; i < g; i++) collectGen(i);
    if (!live) bal = NULL;
    if (MAXGEN && mc_choose(2, "refuse memory")) mc_alloc_limit(mc_pools());
    for (i = 0; i < n; i++) {
        int k;
        gr[i] = newNode(); Mroot[i] = mNode(nextId);
        k = mc_choose(mc_arg("kinds", 4), "kind");
        if (k) { static const int ks[] = { 0, 1, 2, 3, 5, 6, 7, 4 }; request(gr[i], Mroot[i], ks[k - 1]); }
        if (i) { Node x = gr[i], y = gr[i - 1]; GGC_WP(x, a, y); M[Mroot[i]].ptr[NODE_A] = Mroot[i - 1]; }
    }
    for (i = 1; i < g; i++) doCollect(i - 1, "while aging");
    i = mc_choose(1 << n, "drop");
    for (n--; n >= 0; n--) if (i >> n & 1) { gr[n] = NULL; Mroot[n] = -1; }
    mGC();
    doCollect(mc_choose(MAXGEN + 1, "generation"), "after the collection");
    doCollect(0, "after the second collection");
    finish();
    mc_outcome(ran * 16 + nReq);
    GGC_POP();
}

/* the first objects of further descriptor sizes, allocated by a finalizer that
 * runs in the allocation of another */
static MCG int fin8n;
static void fin8(void *obj)
{
    NodeArray a = NULL;
    (void) obj;
    GGC_PUSH_1(a);
    ran++;
    a = GGC_NEW_PA(Node, fin8n);
    mc_assert(GGC_LENGTH(a) == (W) fin8n, "wrong array");
    GGC_POP();
}
static void mode3(void)
{
    NodeArray a = NULL;
    int left, n1, g;
    GGC_PUSH_1(a);
    GGC_COLLECT();
    gr[0] = newNode();
    GGC_FINALIZE(gr[0], fin8);
    gr[0] = NULL;
    n1 = mc_choose(3, "array") * 64 + 60;
    fin8n = mc_choose(3, "finalizer's array") * 64 + 60;
    left = mc_choose(mc_arg("levels", 12), "left") * 5;
    g = MAXGEN ? mc_choose(2, "aged") : 0;
    if (g) { gr[0] = newNode(); gr[0] = NULL; }
    fillTo(left);
    gcatChoose(6);
    a = GGC_NEW_PA(Node, n1);
    gcatOff();
    mc_assert(GGC_LENGTH(a) == (W) n1, "wrong array");
    GGC_COLLECT();
    mc_assert(ran == 1, "the finalizer ran %d times", ran);
    mc_assert(GGC_LENGTH(a) == (W) n1, "wrong array");
    GGC_POP();
}

void mc_main(void)
{
    setup();
    if (mc_arg("settle", 1) == 1 || mc_choose(2, "settle")) GGC_COLLECT();
    switch (mc_arg("mode", 0)) {
    case 0: mode0(); break;
    case 1: mode1(); break;
    case 2: mode2(); break;
    case 3: mode3(); break;
    }
}
