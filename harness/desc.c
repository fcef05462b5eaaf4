/* C06: every pointer word and no data word.
 *
 * mode 0: every size up to `smax` and every pointer pattern, through each way
 *   of making a descriptor; data words hold addresses of live, dead and
 *   moving objects; made and kept across collections in every generation.
 * mode 1: sizes around multiples of the description word: one pointer at each
 *   position, one non-pointer at each position, pairs.
 * mode 2: pointer arrays and data arrays of every length up to `n`.
 * mode 3: types declared with the macros.
 * mode 4: descriptors and their user pointers: histories. */
#include "gcat.h"

static Raw x, x2;
static Node live, pt[8];
static GGC_Descriptor dv, dv2;
static MCG W deadAt, deadAt2;

static void roots(void)
{
    { GGC_PUSH_5(x, x2, live, dv, dv2); GGC_GLOBALIZE(); }
    { GGC_PUSH_8(pt[0], pt[1], pt[2], pt[3], pt[4], pt[5], pt[6], pt[7]); GGC_GLOBALIZE(); }
    Rn = 3; Rroot[0] = (void **) &x; Rroot[1] = (void **) &live; Rroot[2] = (void **) &x2;
    Mroot[0] = Mroot[1] = Mroot[2] = -1;
}

/* an object that will be dead, with a live one behind it (so that that moves) */
static void deadOne(void)
{
    Node d = newNode();
    deadAt = (W) d;
    live = newNode(); Mroot[1] = mNode(nextId);
    d = newNode();
    deadAt2 = (W) d;
}

static W dataFor(int kind, int k)
{
    switch (kind) {
    case 0: return k & 1 ? deadAt : deadAt2;
    case 1: return (W) live;
    case 2: return k & 1 ? (W) x : deadAt;
    default: return ~(W) 0 - k;
    }
}

/* fill a new x: pointers get their own node each (up to 6, then shared) */
static void fillX(int size, const unsigned char *isptr, int kind, int skipLen)
{
    int m = mNew(size < GGGGC_MINIMUM_OBJECT_SIZE ? GGGGC_MINIMUM_OBJECT_SIZE : size), k, n = 0, nodes[8];
    Mroot[0] = m;
    for (k = HW; k < size; k++) M[m].ptr[k] = isptr[k] ? -1 : -2;
    if (skipLen) M[m].data[HW] = ((GGC_size_t_Array) x)->length;
    for (k = 0; k < 6; k++) nodes[k] = -1;
    for (k = HW + skipLen; k < size; k++) if (isptr[k]) {
        int i = n++ % 6;
        Raw y;
        if (nodes[i] < 0) { pt[i] = newNode(); nodes[i] = mNode(nextId); }
        y = (Raw) pt[i];
        GGC_WAP(x, k - (int) HW, y);
        M[m].ptr[k] = nodes[i];
    }
    for (k = 0; k < 6; k++) pt[k] = NULL;
    for (k = HW + skipLen; k < size; k++) if (!isptr[k]) {
        ((W *) x)[k] = M[m].data[k] = dataFor(kind, k);
    }
}

/* new young values for all of x's pointers */
static void refillX(int size, const unsigned char *isptr, int from)
{
    int k, m = Mroot[0], n = 0;
    Node y = NULL;
    GGC_PUSH_1(y);
    y = newNode();
    { int mi = mNode(nextId);
    for (k = HW + from; k < size; k++) if (isptr[k]) {
        if (n++ % 3 == 0) continue;
        { Raw yy = (Raw) y; GGC_WAP(x, k - (int) HW, yy); }
        M[m].ptr[k] = mi;
    } }
}

static void checkFull(const char *when)
{
    if (mc_probe_begin()) {
        GGC_COLLECT();
        verify(when);
        checkReclaimed(when);
        mc_probe_end();
    }
}

static struct GGGGC_Descriptor *makeDesc(int size, const unsigned char *isptr, int way)
{
    W bits[8] = { 0 };
    int k;
    for (k = 0; k < size; k++) if (isptr[k]) bits[k / 64] |= (W) 1 << (k % 64);
#ifdef GGGGC_FEATURE_EXTTAG
    if (way == 2) {
        static const unsigned char even[] = { 0, 2, 250, 4 }, odd[] = { 1, 3, 251, 129 };
        unsigned char tags[512];
        for (k = 0; k < size; k++) tags[k] = isptr[k] ? even[k % 4] : odd[k % 4];
        return GGC_NEW_DESCRIPTOR_WITH_TAGS(size, tags);
    }
#endif
    if (way == 0 && size <= 64) return ggggc_allocateDescriptor(size, bits[0]);
    if (way == 1) bits[0] |= 1; /* saying that word 0 is a pointer makes no difference */
    return GGC_NEW_DESCRIPTOR(size, bits);
}

#ifdef GGGGC_FEATURE_EXTTAG
#define WAYS 3
#else
#define WAYS 2
#endif

static void finish(int size, const unsigned char *isptr, int from)
{
    int n = mc_choose(MAXGEN + 2, "age"), g;
    gcatOff();
    dv = NULL;
    verify("after creation");
    for (g = 0; g < n; g++) collectGen(g);
    verify("after ageing");
    probeAll("aged");
    checkFull("full collection of the aged object");
    if (n) {
        refillX(size, isptr, from);
        mGC();
        probeAll("aged and rewritten");
        checkFull("full collection of the aged and rewritten object");
    }
    /* and when x goes, all of it goes */
    x = NULL; Mroot[0] = -1; mGC();
    checkFull("full collection after the object's end");
    mc_done();
}

static void mode0(void)
{
    unsigned char isptr[16] = { 0 };
    int smax = mc_arg("smax", 7);
    int size = HW + 1 + mc_choose(smax - (int) HW, "size"), bits, k, way, kind;
    bits = mc_choose(1 << (size - (int) HW), "pattern");
    for (k = HW; k < size; k++) isptr[k] = bits >> (k - HW) & 1;
    way = mc_choose(WAYS, "way");
    kind = mc_choose(3, "data");
    deadOne();
    gcatChoose(bits == 5 || bits == 2 ? 6 : 0);
    dv = makeDesc(size, isptr, way);
    x = (Raw) GGC_NEW_FROM_DESCRIPTOR(dv);
    checkFresh(x, size, 0, "object");
    fillX(size, isptr, kind, 0);
    finish(size, isptr, 0);
}

static void mode1(void)
{
    static const int sizes[] = { 63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 320, 400 };
    unsigned char isptr[512] = { 0 };
    int size = sizes[mc_arg("first", 0) + mc_choose(mc_arg("sizes", 5), "size")], shape, k, pos, lo, n;
    shape = mc_choose(4, "shape");
    /* positions: around word boundaries in the quick check */
    n = size - (int) HW;
    if (mc_arg("all", 0)) { pos = HW + mc_choose(n, "position"); }
    else {
        static const int at[] = { 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192, 319, 399 };
        pos = at[mc_choose(18, "position")];
    }
    if (pos < (int) HW || pos >= size) mc_prune();
    lo = HW;
    switch (shape) {
    case 0: isptr[pos] = 1; break;
    case 1: for (k = HW; k < size; k++) isptr[k] = k != pos; break;
    case 2: isptr[lo] = isptr[pos] = isptr[size - 1] = 1; break;
    case 3: for (k = HW; k < pos; k++) isptr[k] = 1; break;
    }
    deadOne();
    dv = makeDesc(size, isptr, shape == 1 ? WAYS - 1 : shape == 2);
    x = (Raw) GGC_NEW_FROM_DESCRIPTOR(dv);
    checkFresh(x, size, 0, "object");
    fillX(size, isptr, 2, 0);
    finish(size, isptr, 0);
}

static void mode2(void)
{
    unsigned char isptr[512] = { 0 };
    int what = mc_choose(2, "kind of array");
    int n, k, size;
    static const int lens[] = { 0, 1, 2, 3, 7, 61, 62, 63, 64, 65, 125, 126, 127, 128, 129, 130 };
    if (mc_arg("all", 0)) n = mc_choose(140, "length"); else n = lens[mc_choose(16, "length")];
    deadOne();
    gcatChoose(n == 1 || n == 64 ? 4 : 0);
    if (what == 0) x = (Raw) GGC_NEW_PA(Node, n);
    else x = (Raw) GGC_NEW_DA(size_t, n);
    size = n + 1 + (int) HW;
    checkFresh(x, size, 1, "array");
    mc_assert(((GGC_size_t_Array) x)->length == (W) n, "wrong array length");
    for (k = HW + 1; k < size; k++) isptr[k] = what == 0;
    fillX(size, isptr, mc_choose(3, "data"), 1);
    finish(size, isptr, 1);
}

/* ---- declared types ---- */
typedef struct { W w[3]; } triple;
typedef struct { char c[5]; } five;
GGC_TYPE(T1)               /* one pointer only */
    GGC_MPTR(T1, p);
GGC_END_TYPE(T1, GGC_PTR(T1, p))
GGC_TYPE(T2)               /* small members before and after */
    GGC_MDATA(char, c);
    GGC_MPTR(T1, p);
    GGC_MDATA(short, s);
    GGC_MDATA(char, d);
    GGC_MPTR(T2, q);
GGC_END_TYPE(T2, GGC_PTR(T2, p) GGC_PTR(T2, q))
GGC_TYPE(T3)               /* only one of its two pointers is declared collectable */
    GGC_MPTR(void *, p);
    GGC_MDATA(five, f);
    GGC_MDATA(triple, t);
    GGC_MPTR(T3, q);
GGC_END_TYPE(T3, GGC_PTR(T3, q))
GGC_TYPE(T4)               /* no pointers */
    GGC_MDATA(triple, t);
    GGC_MDATA(void *, v);
GGC_END_TYPE(T4, GGC_NO_PTRS)
#define D8(n) GGC_MDATA(W, n ## 0); GGC_MDATA(W, n ## 1); GGC_MDATA(W, n ## 2); GGC_MDATA(W, n ## 3); GGC_MDATA(W, n ## 4); GGC_MDATA(W, n ## 5); GGC_MDATA(W, n ## 6); GGC_MDATA(W, n ## 7);
GGC_TYPE(T5)               /* pointers up to the last described word, and data beyond */
    GGC_MPTR(T5, a);
    D8(w) D8(x) D8(y)
    GGC_MDATA(W, o0); GGC_MDATA(W, o1); GGC_MDATA(W, o2); GGC_MDATA(W, o3); GGC_MDATA(W, o4);
    GGC_MPTR(T5, p30); GGC_MPTR(T5, p31); GGC_MPTR(T5, p32); GGC_MPTR(T5, p33);
    D8(z) D8(u) D8(v)
    GGC_MDATA(W, n0); GGC_MDATA(W, n1); GGC_MDATA(W, n2);
    GGC_MPTR(T5, p61); GGC_MPTR(T5, p62);
    D8(t)
GGC_END_TYPE(T5, GGC_PTR(T5, a) GGC_PTR(T5, p30) GGC_PTR(T5, p31) GGC_PTR(T5, p32) GGC_PTR(T5, p33) GGC_PTR(T5, p61) GGC_PTR(T5, p62))
GGC_TYPE(T6)               /* 64 words: the last one is described by the highest bit */
    GGC_MDATA(W, h0);
    D8(w) D8(x) D8(y) D8(z) D8(u) D8(v) D8(t)
#ifndef GGGGC_DEBUG_MEMORY_CORRUPTION
    GGC_MDATA(W, o0);
#endif
    GGC_MDATA(W, o1); GGC_MDATA(W, o2); GGC_MDATA(W, o3); GGC_MDATA(W, o4);
    GGC_MPTR(T6, last);
GGC_END_TYPE(T6, GGC_PTR(T6, last))
GGC_TYPE(T7)               /* long, no pointers */
    D8(w) D8(x) D8(y) D8(z) D8(u) D8(v) D8(t) D8(s) D8(r)
GGC_END_TYPE(T7, GGC_NO_PTRS)

static void mode3(void)
{
    unsigned char isptr[512] = { 0 };
    int t = mc_choose(7, "type"), size = 0;
#define OFF(T, m) (offsetof(struct T ## __ggggc_struct, m ## __ptr) / sizeof(W))
#define SZ(T) ((int) ((sizeof(struct T ## __ggggc_struct) + sizeof(W) - 1) / sizeof(W)))
    deadOne();
    gcatChoose(3);
    switch (t) {
    case 0: x = (Raw) GGC_NEW(T1); size = SZ(T1); isptr[OFF(T1, p)] = 1; break;
    case 1: x = (Raw) GGC_NEW(T2); size = SZ(T2); isptr[OFF(T2, p)] = isptr[OFF(T2, q)] = 1; break;
    case 2: x = (Raw) GGC_NEW(T3); size = SZ(T3); isptr[OFF(T3, q)] = 1; break;
    case 3: x = (Raw) GGC_NEW(T4); size = SZ(T4); break;
    case 4: x = (Raw) GGC_NEW(T5); size = SZ(T5);
        isptr[OFF(T5, a)] = isptr[OFF(T5, p30)] = isptr[OFF(T5, p31)] = isptr[OFF(T5, p32)] = isptr[OFF(T5, p33)] = isptr[OFF(T5, p61)] = isptr[OFF(T5, p62)] = 1; break;
    case 5: x = (Raw) GGC_NEW(T6); size = SZ(T6); isptr[OFF(T6, last)] = 1;
        mc_assert(OFF(T6, last) == 63, "harness: T6's last member is not word 63"); break;
    case 6: x = (Raw) GGC_NEW(T7); size = SZ(T7); break;
    }
    checkFresh(x, size, 0, "object");
    fillX(size, isptr, mc_choose(3, "data"), 0);
    finish(size, isptr, 0);
}

/* ---- user pointers and descriptors' lifetimes ---- */
static MCG int dvSize;
static MCG int dvUser[2]; /* model of dv's and dv2's user pointers */
static void mode4(void)
{
    int depth = mc_arg("depth", 4), d;
    Rn = 7;
    Rroot[3] = (void **) &dv; Rroot[4] = (void **) &dv2; Rroot[5] = (void **) &pt[0]; Rroot[6] = (void **) &pt[1];
    Mroot[3] = Mroot[4] = Mroot[5] = Mroot[6] = -1;
    /* a descriptor is an object too: user pointer is its only other pointer.
     * It is modelled by its own model object with one pointer (user), and
     * objects' `user` is checked through it. */
    for (d = 0; d < depth; d++) {
        int op = mc_choose(7, "op"), w, v;
        switch (op) {
        case 0: { /* a new descriptor for 3-word objects with one pointer */
            int m = mNew(DESC_WORDS_DA);
            w = mc_choose(2, "which");
            { GGC_Descriptor q = ggggc_allocateDescriptor(3 + (HW - 1), (W) 1 << (HW + 1)); if (w) dv2 = q; else dv = q; }
            /* size, user, pointers */
            M[m].data[HW] = 3 + (HW - 1); M[m].ptr[HW + 1] = -1;
#ifdef GGGGC_FEATURE_EXTTAG
            memset(&M[m].data[HW + 2], 1, 3 + (HW - 1));
            ((unsigned char *) &M[m].data[HW + 2])[0] = ((unsigned char *) &M[m].data[HW + 2])[HW + 1] = 0;
#else
            M[m].data[HW + 2] = 1 | (W) 1 << (HW + 1);
#endif
            Mroot[3 + w] = m;
            break;
        }
        case 1: { /* an object from it */
            GGC_Descriptor q;
            int m;
            w = mc_choose(2, "descriptor"); v = mc_choose(2, "into");
            q = w ? dv2 : dv;
            if (!q) mc_prune();
            { Raw r = (Raw) GGC_NEW_FROM_DESCRIPTOR(q); if (v) x2 = r; else x = r; ((W *) r)[HW] = deadAt; }
            m = mNew(3 + (HW - 1)); M[m].data[HW] = deadAt; M[m].ptr[HW + 1] = -1;
            M[m].ptr[0] = Mroot[3 + w]; /* the descriptor, as a pointer of the model */
            Mroot[v ? 2 : 0] = m;
            break;
        }
        case 2: { /* set a user pointer, through an object or an array */
            Raw r; void *to;
            v = mc_choose(2, "of"); w = mc_choose(4, "value");
            r = v ? x2 : x;
            if (!r) mc_prune();
            to = w == 0 ? (void *) live : w == 1 ? (void *) x : w == 2 ? (void *) x2 : NULL;
            if (w < 3 && !to) mc_prune();
            GGC_WUP(r, to);
            { int dm = M[Mroot[v ? 2 : 0]].ptr[0]; M[dm].ptr[HW + 1] = w == 0 ? Mroot[1] : w == 1 ? Mroot[0] : w == 2 ? Mroot[2] : -1; }
            mc_assert(GGC_RUP(r) == to, "user pointer reads back wrong");
            break;
        }
        case 3: /* drop something */
            w = mc_choose(5, "drop");
            if (w == 0) { x = NULL; Mroot[0] = -1; }
            if (w == 1) { x2 = NULL; Mroot[2] = -1; }
            if (w == 2) { dv = NULL; Mroot[3] = -1; }
            if (w == 3) { dv2 = NULL; Mroot[4] = -1; }
            if (w == 4) { live = NULL; Mroot[1] = -1; }
            break;
        case 4:
            collectGen(mc_choose(MAXGEN + 2, "generation"));
            break;
        case 5: /* read a user pointer into live */
            v = mc_choose(2, "of");
            { Raw r = v ? x2 : x; int dm;
              if (!r) mc_prune();
              dm = M[M[Mroot[v ? 2 : 0]].ptr[0]].ptr[HW + 1];
              live = (Node) GGC_RUP(r); Mroot[1] = dm; }
            break;
        case 6: /* make live, and link it */
            live = newNode(); Mroot[1] = mNode(nextId);
            if (x && mc_choose(2, "link")) { Raw l = (Raw) live; GGC_WAP(x, 1, l); M[Mroot[0]].ptr[HW + 1] = Mroot[1]; }
            break;
        }
        mGC();
        verify("after the operation");
        probeAll("after the operation");
        checkFull("full collection after the operation");
    }
}

void mc_main(void)
{
    roots();
    GGC_COLLECT();
    switch (mc_arg("mode", 0)) {
    case 0: mode0(); break;
    case 1: mode1(); break;
    case 2: mode2(); break;
    case 3: mode3(); break;
    case 4: deadAt = 0; live = newNode(); Mroot[1] = mNode(nextId); mode4(); break;
    }
}
