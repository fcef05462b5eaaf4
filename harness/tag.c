/* C09: tagged values.
 * mode 0 (internal tagging): two nodes and an array in any generations, then
 *   every sequence of operations that store, copy and overwrite tagged and
 *   untagged values in roots, members and elements.
 * mode 1 (internal tagging): every alignment tag in every word of one object.
 * mode 2 (external tagging): every assignment of tags from an alphabet to
 *   every word of an object, with pointers and pointer-like data. */
#include "gcat.h"

static Node r[3];
static NodeArray pa;
static Raw x;

static void setup(void)
{
    GGC_PUSH_5(r[0], r[1], r[2], pa, x);
    GGC_GLOBALIZE();
    GGC_POP();
    Rn = 5;
    Rroot[0] = (void **) &r[0]; Rroot[1] = (void **) &r[1]; Rroot[2] = (void **) &r[2]; Rroot[3] = (void **) &pa; Rroot[4] = (void **) &x;
    Mroot[0] = Mroot[1] = Mroot[2] = Mroot[3] = Mroot[4] = -1;
}

static void full(const char *when)
{
    if (mc_probe_begin()) {
        GGC_COLLECT();
        verify(when);
        checkReclaimed(when);
        mc_probe_end();
    }
}

static void check(const char *when)
{
    mGC();
    verify(when);
    probeAll(when);
    full(when);
}

#ifdef GGGGC_FEATURE_TAGGING
/* cells: 0..2 roots, 3..6 members of r0 and r1, 7, 8 elements of pa */
#define CELLS 9
static void **cellP(int c)
{
    if (c < 3) return (void **) &r[c];
    if (c < 7) {
        int i = (c - 3) / 2;
        if (Mroot[i] < 0) return NULL;
        return (void **) &((W *) r[i])[c & 1 ? NODE_A : NODE_B];
    }
    return (void **) &((W *) pa)[HW + c - 6];
}
static int cellM(int c) { return c < 3 ? Mroot[c] : c < 7 ? M[Mroot[(c - 3) / 2]].ptr[c & 1 ? NODE_A : NODE_B] : M[Mroot[3]].ptr[HW + c - 6]; }
static W cellV(int c) { return c < 3 ? MrootVal[c] : c < 7 ? M[Mroot[(c - 3) / 2]].data[c & 1 ? NODE_A : NODE_B] : M[Mroot[3]].data[HW + c - 6]; }
static void store(int c, void *v, int m)
{
    W d = m == -2 ? (W) v : 0;
    if (c < 3) { r[c] = (Node) v; Mroot[c] = m; MrootVal[c] = d; return; }
    if (c < 7) {
        int i = (c - 3) / 2;
        Node o = r[i], n = (Node) v;
        if (c & 1) GGC_WP(o, a, n); else GGC_WP(o, b, n);
        M[Mroot[i]].ptr[c & 1 ? NODE_A : NODE_B] = m;
        M[Mroot[i]].data[c & 1 ? NODE_A : NODE_B] = d;
        return;
    }
    { Node n = (Node) v; GGC_WAP(pa, c - 7, n); }
    M[Mroot[3]].ptr[HW + c - 6] = m;
    M[Mroot[3]].data[HW + c - 6] = d;
}

static void mode0(void)
{
    int d, depth = mc_arg("depth", 3), i, g, c, values = mc_arg("values", 5);
    for (i = 0; i < 3; i++) {
        if (i < 2) { r[i] = newNode(); Mroot[i] = mNode(nextId); }
        else {
            pa = GGC_NEW_PA(Node, 2);
            Mroot[3] = mNew(HW + 3); M[Mroot[3]].data[HW] = 2; M[Mroot[3]].ptr[HW + 1] = M[Mroot[3]].ptr[HW + 2] = -1;
        }
        if (i == 0 || mc_arg("ages", 1)) { g = MAXGEN ? mc_choose(MAXGEN + 1, "promote") : 0; if (g) collectGen(g - 1); }
    }
    verify("at the start");
    for (d = 0; d < depth; d++) {
        switch (mc_choose(4, "op")) {
        case 0: { /* store a tagged value */
            W v;
            int k = mc_choose(values, "value");
            c = mc_choose(CELLS, "cell");
            if (!cellP(c)) mc_prune();
            if (k == 0) v = 1;
            else if (k == 1) v = ~(W) 0;
            else {
                static const unsigned char of[] = { 0, 1, 1, 0, 0, 1, 1, 0, 1 }, t[] = { 1, 2, 4, 7, 3, 5, 6, 2, 1 };
                if (Mroot[of[k - 2]] < 0) mc_prune();
                v = (W) r[of[k - 2]] | t[k - 2];
            }
            store(c, (void *) v, -2);
            mc_note("cell %d = tagged value %d", c, k);
            break;
        }
        case 1: { /* copy a cell */
            int from = mc_choose(CELLS + 1, "from");
            c = mc_choose(CELLS, "to");
            if (c == from || !cellP(c) || (from < CELLS && !cellP(from))) mc_prune();
            if (from == CELLS) store(c, NULL, -1);
            else {
                void *v = *cellP(from);
                int m = cellM(from);
                if (m == -2) mc_assert((W) v == cellV(from), "cell %d is %#lx, should be %#lx", from, (long) v, (long) cellV(from));
                store(c, v, m);
            }
            mc_note("cell %d = cell %d", c, from);
            break;
        }
        case 2:
            i = mc_choose(3, "into");
            r[i] = newNode(); Mroot[i] = mNode(nextId);
            mc_note("r%d = new", i);
            break;
        case 3:
            collectGen(g = mc_choose(MAXGEN + 2, "generation"));
            mc_note("collect %d", g);
            break;
        }
        check("after the operation");
    }
}

static void mode1(void)
{
    int k, n = mc_arg("words", 3), m, age, word = mc_choose(n + 1, "tagged word"), t = mc_choose(8, "tag"), base = mc_choose(5, "value");
    W v;
    Node y = NULL;
    W lowest;
    GGC_PUSH_1(y);
    r[2] = newNode();              /* dead later */
    r[0] = newNode(); Mroot[0] = mNode(nextId);
    lowest = (W) r[2];
    r[2] = NULL;
    x = (Raw) GGC_NEW_FROM_DESCRIPTOR(ggggc_allocateDescriptor(HW + n, ~(((W) 1 << HW) - 2)));
    m = Mroot[4] = mNew(HW + n);
    age = mc_choose(MAXGEN + 2, "age");
    for (k = 0; k < n; k++) M[m].ptr[HW + k] = -1;
    for (k = 0; k < age; k++) collectGen(k);
    v = base == 0 ? (W) r[0] : base == 1 ? lowest : base == 2 ? (W) x : base == 3 ? 0 : 0xDEADBEEFDEADBEE8UL;
    if (t == 0 && base != 0 && base != 2 && base != 3) mc_prune();
    for (k = 0; k < n; k++) {
        Raw z;
        if (k == word) { z = (Raw) (v | t); M[m].ptr[HW + k] = t ? -2 : base == 0 ? Mroot[0] : base == 2 ? m : -1; M[m].data[HW + k] = v | t; }
        else if (k == (word + 1) % n) { z = (Raw) r[0]; M[m].ptr[HW + k] = Mroot[0]; }
        else { y = newNode(); M[m].ptr[HW + k] = mNode(nextId); z = (Raw) y; }
        GGC_WAP(x, k, z);
    }
    if (word == n) { r[1] = (Node) (v | t); if (t) { Mroot[1] = -2; MrootVal[1] = v | t; } else Mroot[1] = base == 0 ? Mroot[0] : base == 2 ? m : -1; }
    y = NULL;
    if (mc_choose(2, "drop")) { r[0] = NULL; Mroot[0] = -1; }
    check("after the stores");
    for (k = 0; k < 2; k++) {
        collectGen(mc_choose(MAXGEN + 2, "generation"));
        if (k == 0 && (word + 1) % n < n) {
            Raw z;
            y = newNode(); z = (Raw) y;
            if (n > 1) { GGC_WAP(x, (word + 1) % n, z); M[Mroot[4]].ptr[HW + (word + 1) % n] = mNode(nextId); }
            y = NULL;
        }
        check("after the collection");
    }
    GGC_POP();
}
#else
static void mode0(void) { }
static void mode1(void) { }
#endif

static void mode2(void)
{
#ifdef GGGGC_FEATURE_EXTTAG
    static const unsigned char alpha[] = { 0, 1, 250, 251, 2, 3, 128, 129, 127, 126 };
    unsigned char tags[256];
    int size = mc_arg("first", 1) + mc_choose(mc_arg("sizes", 5), "size"), na = mc_arg("alpha", 4), k, m, age, mode = mc_arg("all", 1), at = -1, bg = 0, isz;
    Node y = NULL;
    W deadAddr;
    GGC_PUSH_1(y);
    isz = size < GGGGC_MINIMUM_OBJECT_SIZE ? GGGGC_MINIMUM_OBJECT_SIZE : size;
    for (k = 0; k < 256; k++) tags[k] = 1;
    if (mode) for (k = 0; k < isz; k++) tags[k] = alpha[mc_choose(k ? na : 2, "tag")];
    else {
        bg = mc_choose(2, "others");
        at = mc_choose(size, "at");
        for (k = 0; k < size; k++) tags[k] = bg ? 250 - 2 * (k % 100) : 251 - 2 * (k % 100);
        tags[at] = alpha[mc_choose(na, "tag")];
    }
    for (k = 1; k < (int) HW; k++) tags[k] = 1; /* the header of the debugging configurations */
    y = newNode(); deadAddr = (W) y;
    r[0] = newNode(); Mroot[0] = mNode(nextId);
    y = newNode(); y = NULL;
    x = (Raw) GGC_NEW_FROM_DESCRIPTOR(GGC_NEW_DESCRIPTOR_WITH_TAGS(size, tags));
    checkFresh(x, isz, 0, "GGC_NEW_FROM_DESCRIPTOR");
    m = Mroot[4] = mNew(isz);
    for (k = HW; k < isz; k++) M[m].ptr[k] = tags[k] & 1 ? -2 : -1;
    age = mc_choose(MAXGEN + 2, "age");
    for (k = 0; k < age; k++) collectGen(k);
    verify("after ageing");
    for (k = HW; k < isz; k++) {
        if (tags[k] & 1) {
            W v = k % 4 == 0 ? (W) x : k % 4 == 1 ? (W) r[0] : k % 4 == 2 ? deadAddr : ~(W) 0;
            ((W *) x)[k] = v; M[m].data[k] = v;
        } else if (k % 5 != 4) {
            Raw z;
            if (k % 3 == 0) { z = (Raw) r[0]; M[m].ptr[k] = Mroot[0]; }
            else {
                if (k < 12) { y = newNode(); M[m].ptr[k] = mNode(nextId); }
                else { y = r[0]; M[m].ptr[k] = Mroot[0]; }
                z = (Raw) y; y = NULL;
            }
            GGC_WAP(x, k - (int) HW, z);
        }
    }
    if (mc_choose(2, "drop")) { r[0] = NULL; Mroot[0] = -1; }
    check("after the stores");
    collectGen(mc_choose(MAXGEN + 2, "generation"));
    check("after the collection");
    GGC_POP();
#endif
}

void mc_main(void)
{
    setup();
    GGC_COLLECT();
    switch (mc_arg("mode", 0)) {
    case 0: mode0(); break;
    case 1: mode1(); break;
    case 2: mode2(); break;
    }
}
