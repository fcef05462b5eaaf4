/* C02: pointers to younger objects written into older ones.
 *
 * mode 0: one old object at every possible place of its pool (a ballast of
 *   every size is promoted ahead of it), written through every kind of store.
 * mode 1: a few old objects in chosen generations, all sequences of stores,
 *   promotions and collections up to a depth. */
#define MAXWORDS 140
#define MAXM 32
#include "common.h"

/* a pointer array of n, in the model and for real */
static NodeArray newArr(int n, int *mi)
{
    NodeArray a = GGC_NEW_PA(Node, n);
    int k;
    checkFresh(a, HW + 1 + n, 1, "GGC_NEW_PA");
    mc_assert(GGC_LENGTH(a) == (W) n, "wrong array length");
    *mi = mNew(HW + 1 + n);
    M[*mi].data[HW] = n;
    M[*mi].user = -1; /* every array has its own descriptor */
    for (k = 0; k < n; k++) M[*mi].ptr[HW + 1 + k] = -1;
    return a;
}

static GGC_size_t_Array newBallast(int n, int *mi)
{
    GGC_size_t_Array a = GGC_NEW_DA(size_t, n);
    int k;
    for (k = 0; k < n; k++) { size_t v = 0xB0B00000UL + k; GGC_WAD(a, k, v); }
    /* only its first words are modelled */
    *mi = -1;
    return a;
}

static void promote(int gen)
{
    int g;
    for (g = 0; g < gen; g++) ggggc_collect0((unsigned char) g);
}

/* store a new young object into `a`: way 0 first element, 1 last element,
 * 2 middle element, 3 the descriptor's user pointer */
static void storeYoung(NodeArray a, int mi, int n, int way)
{
    Node y = NULL;
    int m;
    GGC_PUSH_2(a, y);
    y = newNode();
    m = mNode(nextId);
    if (way == 3) { GGC_WUP(a, y); M[mi].user = m; }
    else {
        int k = way == 0 ? 0 : way == 1 ? n - 1 : n / 2;
        GGC_WAP(a, k, y);
        M[mi].ptr[HW + 1 + k] = m;
    }
}

static const int oldSizes[] = { 1, 3, 29, 30, 31, 61, 100 };

static void mode0(void)
{
    NodeArray a = NULL;
    GGC_size_t_Array bal = NULL;
    int b, n, gen, way, way2, bi, c, rounds = mc_arg("rounds", 2), r, order;
    GGC_size_t_Array dead = NULL;
    NodeArray z = NULL; /* at the start of the pool */
    GGC_PUSH_4(a, bal, dead, z);
    b = mc_choose(250, "ballast") + 250 * mc_choose(2, "ballast high");
    if (b > (int) POOL_USABLE - 16) mc_prune();
    if (b % mc_arg("stride", 1)) mc_prune();
    n = oldSizes[mc_choose(mc_arg("sizes", 4), "size")];
    gen = 1 + mc_choose(MAXGEN, "generation");
    way = mc_choose(4, "store");
    way2 = mc_choose(2, "second store") ? 3 - way : way;
    Rn = 2; Rroot[0] = (void **) &a; Mroot[0] = -1; Rroot[1] = (void **) &z; Mroot[1] = -1;
    z = newArr(1, &Mroot[1]);
    order = mc_choose(mc_arg("orders", 3), "order");
    if (order == 0) {
        a = newArr(n, &Mroot[0]);
        if (b) bal = newBallast(b, &bi);
        promote(gen);
    } else {
        /* the ballast is there first, and has been compacted (2: and moved) */
        if (order == 2) {
            dead = newBallast(41, &bi);
            if (b) bal = newBallast(b, &bi);
            promote(gen);
            dead = NULL;
        } else {
            if (b) bal = newBallast(b, &bi);
            promote(gen);
        }
        ggggc_collect0(MAXGEN);
        a = newArr(n, &Mroot[0]);
        promote(gen);
    }
    verify("after promotion");
    mc_note("old array of %d after a ballast of %d, in generation %d", n, b, gen);
    for (r = 0; r < rounds; r++) {
        storeYoung(a, Mroot[0], n, r & 1 ? way2 : way);
        storeYoung(z, Mroot[1], 1, 0);
        mGC();
        verify("after the store");
        if (r == 0 && mc_arg("probe1", 0) == 0) { /* the collections chosen below cover it */ }
        else probeAll("after the store");
        c = mc_choose(MAXGEN + 2, "collection");
        collectGen(c);
        verify("after the collection");
        mc_note("stored by way %d, collected %d", r & 1 ? way2 : way, c);
        mc_cover("stored");
    }
    probeAll("at the end");
    if (bal) {
        int k;
        for (k = 0; k < b; k++) mc_assert(GGC_RAD(bal, k) == 0xB0B00000UL + k, "ballast word %d changed", k);
    }
}

/* sequences of stores and collections over three arrays and some nodes */
static void mode1(void)
{
    NodeArray a[2] = { NULL, NULL };
    Node r0 = NULL, r1 = NULL;
    GGC_size_t_Array bal = NULL;
    int d, depth = mc_arg("depth", 4), i, j, bi;
    static const int ns[] = { 2, 33 };
    static const int bals[] = { 0, 20, 200, 400 };
    Node *r[2] = { &r0, &r1 };
    GGC_PUSH_5(a[0], a[1], r0, r1, bal);
    Rn = 4;
    Rroot[0] = (void **) &a[0]; Rroot[1] = (void **) &a[1]; Rroot[2] = (void **) &r0; Rroot[3] = (void **) &r1;
    for (i = 0; i < 4; i++) Mroot[i] = -1;
    i = bals[mc_choose(mc_arg("bals", 2), "ballast")];
    if (i) bal = newBallast(i, &bi);
    for (i = 0; i < 2; i++) {
        a[i] = newArr(ns[i], &Mroot[i]);
        j = mc_choose(MAXGEN + 1, "generation");
        promote(j);
        if (mc_arg("samegen", 0)) break;
    }
    if (Mroot[1] < 0) a[1] = newArr(ns[1], &Mroot[1]);
    verify("at the start");
    for (d = 0; d < depth; d++) {
        switch (mc_choose(5, "op")) {
        case 0: /* a new young object straight into an old array */
            i = mc_choose(2, "array"); j = mc_choose(3, "way");
            storeYoung(a[i], Mroot[i], ns[i], j == 2 ? 3 : j);
            mc_note("a%d <- new, way %d", i, j);
            break;
        case 1: /* collect */
            i = mc_choose(MAXGEN + 2, "generation");
            collectGen(i);
            mc_note("collect %d", i);
            mc_cover("collected");
            break;
        case 2: /* a node's member, of whatever generation it is by now */
            i = mc_choose(2, "object"); j = mc_choose(3, "value");
            if (Mroot[2 + i] < 0) mc_prune();
            if (j < 2) {
                Node x = *r[i], y = *r[j];
                if (Mroot[2 + j] < 0 || i == j) mc_prune();
                GGC_WP(x, b, y);
                M[Mroot[2 + i]].ptr[NODE_B] = Mroot[2 + j];
            } else {
                Node x, y = newNode();
                int m = mNode(nextId);
                x = *r[i];
                GGC_WP(x, a, y);
                M[Mroot[2 + i]].ptr[NODE_A] = m;
            }
            mc_note("r%d member <- %d", i, j);
            break;
        case 3: /* array element -> root, or a new one */
            i = mc_choose(2, "root"); j = mc_choose(3, "from");
            if (j == 2) {
                if (Mroot[2 + i] >= 0) mc_prune();
                *r[i] = newNode(); Mroot[2 + i] = mNode(nextId);
            } else {
                int m = M[Mroot[j]].ptr[HW + 1];
                if (m < 0) mc_prune();
                *r[i] = GGC_RAP(a[j], 0); Mroot[2 + i] = m;
            }
            mc_note("r%d = %d", i, j);
            break;
        case 4: /* root -> array element, or an array's element cleared */
            i = mc_choose(2, "root"); j = mc_choose(2, "array");
            if (Mroot[2 + i] < 0) mc_prune();
            {
                Node y = *r[i];
                NodeArray x = a[j];
                GGC_WAP(x, 0, y);
                M[Mroot[j]].ptr[HW + 1] = Mroot[2 + i];
                *r[i] = NULL; Mroot[2 + i] = -1;
            }
            mc_note("a%d <- r%d, dropped", j, i);
            break;
        }
        mGC();
        verify("after the operation");
        probeAll("after the operation");
    }
}

void mc_main(void)
{
    GGC_COLLECT();
    if (mc_arg("mode", 0)) mode1(); else mode0();
}
