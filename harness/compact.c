/* C03: full collections over every layout.
 *
 * mode 0: every sequence of n objects of several sizes, each live or dead,
 *   in one pool or across the end of one, the rest free or exactly full.
 * mode 1: promotion fails at every possible point of a partial collection,
 *   which then turns into a full one.
 * mode 2: long regular patterns of live and dead objects over a whole pool.
 * mode 3: pointer arrays larger than the collector's search buffer. */
#ifndef MAXM
#define MAXM 40
#endif
#define MAXROOT 24
#include "raw.h"

#define MAXN 10
static Raw o[MAXN], tail, extra[4];
static GGC_size_t_Array bal, bal2;

static void roots(void)
{
    int i;
    GGC_PUSH_10(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9]);
    GGC_GLOBALIZE();
    {
        GGC_PUSH_7(tail, extra[0], extra[1], extra[2], extra[3], bal, bal2);
        GGC_GLOBALIZE();
    }
    Rn = MAXN + 4;
    for (i = 0; i < MAXN; i++) { Rroot[i] = (void **) &o[i]; Mroot[i] = -1; }
    for (i = 0; i < 4; i++) { Rroot[MAXN + i] = (void **) &extra[i]; Mroot[MAXN + i] = -1; }
}

static GGC_size_t_Array newBallast(int n)
{
    GGC_size_t_Array a = GGC_NEW_DA(size_t, n);
    int k;
    for (k = 0; k < n; k++) { size_t v = 0xB0B00000UL + k; GGC_WAD(a, k, v); }
    return a;
}
static void checkBallast(const char *when)
{
    int k;
    if (bal) for (k = 0; k < (int) GGC_LENGTH(bal); k++) mc_assert(GGC_RAD(bal, k) == 0xB0B00000UL + k, "%s: ballast word %d changed", when, k);
    if (bal2) for (k = 0; k < (int) GGC_LENGTH(bal2); k++) mc_assert(GGC_RAD(bal2, k) == 0xB0B00000UL + k, "%s: second ballast word %d changed", when, k);
}

static void promote(int gen)
{
    int g;
    for (g = 0; g < gen; g++) ggggc_collect0((unsigned char) g);
}

static void full(const char *when)
{
    collectGen(MAXGEN);
    verify(when);
    checkBallast(when);
}

/* the heap must be usable as before */
static void aftermath(const char *when)
{
    char b[80];
    int g;
    checkBallast(when);
    probeAll(when);
    for (g = 0; g <= MAXGEN; g++) if (mc_probe_begin()) {
        int i, m;
        snprintf(b, sizeof b, "%s, then two more objects and collection of generation %d", when, g);
        for (i = 0; i < 2; i++) {
            extra[2 + i] = newRaw(5 + 2 * i, 0, &m);
            Mroot[MAXN + 2 + i] = m;
        }
        rawLink(extra[2], Mroot[MAXN + 2], extra[3], Mroot[MAXN + 3]);
        for (i = 0; i < MAXN; i++) if (Mroot[i] >= 0) { rawLink(o[i], Mroot[i], extra[2], Mroot[MAXN + 2]); break; }
        collectGen(g);
        verify(b);
        collectGen(MAXGEN);
        verify(b);
        checkBallast(b);
        mc_probe_end();
    }
    if (mc_probe_begin()) {
        snprintf(b, sizeof b, "%s, then GGC_COLLECT", when);
        GGC_COLLECT();
        verify(b);
        checkReclaimed(b);
        mc_probe_end();
    }
}

static void mode0(void)
{
    static const int sizes[4] = { 2, 4, 5, 8 };
    int n = mc_arg("n", 5), i, gen, fresh, dir, tl, pools, live[MAXN], last = -1, m;
    if (!mc_arg("fresh", 0)) for (i = 0; i < 4; i++) { newRaw(sizes[i] + (int) HW - 1, 0, &m); }
    mGC();
    gen = mc_arg("gens", 1) ? mc_choose(MAXGEN + 1, "generation") : MAXGEN;
    pools = mc_choose(mc_arg("pools", 2), "across pools");
    fresh = mc_arg("fresh", 0);
    dir = mc_choose(2, "links");
    tl = mc_choose(3, "rest");
    if (pools) {
        /* make the generation grow, and begin near the end of its first pool */
        bal = newBallast(300);
        GGC_COLLECT(); GGC_COLLECT();
        bal = NULL;
        GGC_COLLECT();
        fillTo(mc_choose(3, "left") * 4 + 6);
    }
    for (i = 0; i < n; i++) {
        int z = mc_choose(mc_arg("sizes", 3), "size");
        live[i] = mc_choose(2, "live");
        o[i] = newRaw(sizes[z] + (int) HW - 1, fresh, &Mroot[i]);
    }
    if (tl) {
        int mi;
        Raw f = fillExactly(&mi);
        if (tl == 2) tail = f;
        if (f) mc_cover("exactly full");
    }
    verify("before");
    promote(gen);
    verify("after promotion");
    for (i = 0; i < n; i++) if (live[i]) {
        if (last >= 0) {
            if (dir) rawLink(o[i], Mroot[i], o[last], Mroot[last]);
            else rawLink(o[last], Mroot[last], o[i], Mroot[i]);
        }
        last = i;
    }
    for (i = 0; i < n; i++) if (!live[i]) { o[i] = NULL; Mroot[i] = -1; }
    if (tl == 2 && n && live[0]) tail = NULL; /* sometimes it is dead as well */
    /* something young on both ends of a pointer */
    if (last >= 0) {
        extra[0] = newRaw(4, 0, &m); Mroot[MAXN] = m;
        if (dir) rawLink(extra[0], m, o[last], Mroot[last]);
        else rawLink(o[last], Mroot[last], extra[0], m);
    }
    mGC();
    verify("before the full collection");
    full("after the full collection");
    mc_cover("compacted");
    aftermath("after the full collection");
}

static void mode1(void)
{
    int n = mc_arg("n", 4), i, b, h, m, dir, limit, remembered;
    static const int holes[] = { 0, 4, 20, 120 };
    GGC_COLLECT();
    limit = mc_choose(2, "refuse memory");
    h = holes[mc_choose(4, "hole")];
    b = mc_choose(mc_arg("span", 60), "ballast");
    dir = mc_choose(2, "links");
    remembered = mc_choose(2, "remembered");
    /* the top generation: a hole, the ballast, an old object */
    bal2 = newBallast(h ? h : 1);
    b = (int) POOL_USABLE - mc_arg("top", 110) + b - h - mc_arg("gaps", 0);
    bal = newBallast(b / 2);
    if (remembered) { o[MAXN - 1] = newRaw(5, 0, &m); Mroot[MAXN - 1] = m; }
    promote(MAXGEN);
    GGC_COLLECT();
    if (h) bal2 = NULL;
    {
        /* the second half; both halves together leave less than a pool */
        GGC_size_t_Array keep = newBallast(b - b / 2);
        bal2 = keep;
        promote(MAXGEN);
    }
    if (limit) mc_alloc_limit(mc_pools());
    for (i = 0; i < n; i++) {
        int z = mc_choose(2, "size");
        o[i] = newRaw(z ? 7 : 3 + (int) HW - 1, 0, &m);
        Mroot[i] = m;
        if (i && dir) rawLink(o[i], m, o[i - 1], Mroot[i - 1]);
        else if (i) rawLink(o[i - 1], Mroot[i - 1], o[i], m);
    }
    if (mc_choose(2, "drop")) {
        o[1] = NULL; Mroot[1] = -1;
        mGC();
    }
    if (remembered) rawLink(o[MAXN - 1], Mroot[MAXN - 1], o[0], Mroot[0]);
    verify("before");
    i = mc_choose(MAXGEN + 1, "generation");
    collectGen(i);
    mc_note("collected %d with a hole of %d and a ballast of %d", i, h, b);
    verify("after the collection");
    checkBallast("after the collection");
    aftermath("after the collection");
    collectGen(0);
    verify("after the second collection");
    aftermath("after the second collection");
}

static void mode2(void)
{
    static const int sizes[3] = { 2, 4, 5 };
    int n = mc_choose(170, "objects"), a = sizes[mc_choose(3, "size")] + (int) HW - 1, b = sizes[mc_choose(3, "size")] + (int) HW - 1;
    int p = 2 + mc_choose(3, "period"), q = mc_choose(2, "phase"), w = 0, i, m, gen, lastM = -1;
    int inv = mc_choose(2, "inverse");
    newRaw(a, 0, &m); newRaw(b, 0, &m);
    mGC();
    GGC_COLLECT();
    gen = mc_choose(MAXGEN + 1, "generation");
    /* a chain of every object, o[0] is its head; the dead ones are cut out later */
    for (i = 0; i < n; i++) {
        int z = i & 1 ? a : b;
        if (w + z > (int) POOL_USABLE - 30) mc_prune();
        w += z;
        o[1] = newRaw(z, 0, &Mroot[1]);
        rawLink(o[1], Mroot[1], o[0], Mroot[0]);
        o[0] = o[1]; Mroot[0] = Mroot[1];
        o[1] = NULL; Mroot[1] = -1;
    }
    if (!n) mc_prune();
    promote(gen);
    verify("before");
    /* cut */
    {
        Raw prev = NULL, cur;
        int pm = -1, cm, idx = 0;
        cur = o[0]; cm = Mroot[0];
        while (cur) {
            Raw nx = (Raw) GGC_RAP(cur, 0);
            int nm = M[cm].ptr[HW];
            int lv = (idx % p == q) ^ inv;
            if (lv) { prev = cur; pm = cm; }
            else if (prev) rawLink(prev, pm, nx, nm);
            else { o[0] = nx; Mroot[0] = nm; }
            cur = nx; cm = nm; idx++;
        }
    }
    (void) lastM;
    mGC();
    full("after the full collection");
    aftermath("after the full collection");
}

/* more than the search buffer's 1024 entries at once */
static void mode3(void)
{
    static const int ns[] = { 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1500, 2046, 2047, 2048, 2049, 2050, 2051, 3072, 3074 };
    int n = ns[mc_choose(sizeof ns / sizeof *ns, "children")], depth = mc_choose(3, "nested"), c, i, rounds;
    NodeArray a = NULL, b = NULL;
    GGC_size_t_Array d = NULL;
    GGC_PUSH_3(a, b, d);
    GGC_COLLECT();
    a = GGC_NEW_PA(Node, n);
    for (i = 0; i < n; i++) {
        if (depth == 1 && i == n / 2) { b = GGC_NEW_PA(Node, n); d = (GGC_size_t_Array) b; }
        else { size_t v = i * 3 + 1; d = GGC_NEW_DA(size_t, 1); GGC_WAD(d, 0, v); }
        { Node x = (Node) d; GGC_WAP(a, i, x); if (depth == 2 && i % 7 == 0 && i) { x = GGC_RAP(a, 0); GGC_WAP(a, i, x); } }
    }
    if (depth == 1) for (i = 0; i < n; i++) { Node x = GGC_RAP(a, i); GGC_WAP(b, n - 1 - i, x); }
    b = NULL; d = NULL;
    for (rounds = 0; rounds < 2; rounds++) {
        c = mc_choose(MAXGEN + 1, "generation");
        collectGen(c);
        mc_assert(GGC_LENGTH(a) == (W) n, "array length changed");
        for (i = 0; i < n; i++) {
            Node x = GGC_RAP(a, i);
            mc_assert(x && ((W) x & 7) == 0 && mc_mem_valid(x, 24), "child %d of %d lost", i, n);
            if (depth == 1 && i == n / 2) {
                int k;
                b = (NodeArray) x;
                mc_assert(GGC_LENGTH(b) == (W) n, "nested array length changed");
                for (k = 0; k < n; k++) mc_assert(GGC_RAP(b, n - 1 - k) == GGC_RAP(a, k), "nested array's element %d differs", k);
                b = NULL;
            } else {
                d = (GGC_size_t_Array) x;
                mc_assert(GGC_LENGTH(d) == 1 && GGC_RAD(d, 0) == (size_t) (depth == 2 && i % 7 == 0 ? 0 : i) * 3 + 1, "child %d of %d has the wrong contents", i, n);
                d = NULL;
            }
        }
        mc_cover("searched");
    }
}

void mc_main(void)
{
    roots();
    GGC_COLLECT();
    switch (mc_arg("mode", 0)) {
    case 0: mode0(); break;
    case 1: mode1(); break;
    case 2: mode2(); break;
    case 3: mode3(); break;
    }
}
