/* C05: allocations of every size at every fill level of the heap, over dirty
 * memory.
 *
 * mode 0: one allocation of every kind and size, at fill levels around the
 *   exact fit and elsewhere, then a second one.
 * mode 1: typed objects and arrays of small element sizes and every length. */
#define MAXM 24
#include "raw.h"

typedef struct { char c[3]; } three;
typedef struct { W w[3]; } triple;
typedef unsigned char byte;
typedef unsigned short half;
GGC_DA_TYPE(byte)
GGC_DA_TYPE(half)
GGC_DA_TYPE(three)
GGC_DA_TYPE(triple)

GGC_TYPE(Tiny)
    GGC_MDATA(char, c);
GGC_END_TYPE(Tiny, GGC_NO_PTRS)
GGC_TYPE(Lone)
    GGC_MPTR(Lone, p);
GGC_END_TYPE(Lone, GGC_PTR(Lone, p))

static Raw o[4];
static Node keep0, keep1;
static struct GGGGC_Descriptor *dd[2];

static void roots(void)
{
    { GGC_PUSH_8(o[0], o[1], o[2], o[3], keep0, keep1, dd[0], dd[1]); GGC_GLOBALIZE(); }
    Rn = 2; Rroot[0] = (void **) &keep0; Rroot[1] = (void **) &keep1; Mroot[0] = Mroot[1] = -1;
}

/* live objects that must not be touched; contents checked by verify() */
static void live(void)
{
    keep0 = newNode(); Mroot[0] = mNode(nextId);
    keep1 = newNode(); Mroot[1] = mNode(nextId);
    GGC_WP(keep1, a, keep0);
    M[Mroot[1]].ptr[NODE_A] = Mroot[0];
}

/* every free word of the heap gets junk in it */
static void dirty(void)
{
    churn(2 * POOL_USABLE);
}

/* no reachable object may overlap [p, p+words) */
static void disjoint(void *p, W words, const char *what)
{
    int i;
    void *q[8];
    for (i = 0; i < 4; i++) q[i] = o[i];
    q[4] = keep0; q[5] = keep1; q[6] = dd[0]; q[7] = dd[1];
    for (i = 0; i < 8; i++) if (q[i] && q[i] != p) {
        W *b = (W *) q[i], *a = (W *) p;
        W z = ((struct GGGGC_Header *) b)->descriptor__ptr->size, k;
        mc_assert(a + words <= b || b + z <= a, "%s: the new object overlaps a live one", what);
        b = (W *) ((struct GGGGC_Header *) q[i])->descriptor__ptr; z = ((struct GGGGC_Header *) b)->descriptor__ptr->size;
        mc_assert(a + words <= b || b + z <= a, "%s: the new object overlaps a live object's descriptor", what);
        (void) k;
    }
    {
        W *b = (W *) ((struct GGGGC_Header *) p)->descriptor__ptr, *a = (W *) p;
        W z = ((struct GGGGC_Header *) b)->descriptor__ptr->size;
        mc_assert(a + words <= b || b + z <= a, "%s: the new object overlaps its descriptor", what);
    }
}

/* kinds: 0 raw object with a prepared descriptor, 1 pointer array, 2 data array */
static Raw allocate(int kind, int words, int di)
{
    Raw r;
    switch (kind) {
    case 0:
        r = (Raw) GGC_NEW_FROM_DESCRIPTOR(dd[di]);
        checkFresh(r, words, 0, "object");
        mc_assert(r->header.descriptor__ptr == dd[di], "object: wrong descriptor");
        break;
    case 1: {
        NodeArray a = GGC_NEW_PA(Node, words - HW - 1);
        checkFresh(a, words, 1, "pointer array");
        mc_assert(GGC_LENGTH(a) == words - HW - 1, "pointer array: wrong length");
        r = (Raw) a;
        break; }
    default: {
        GGC_size_t_Array a = GGC_NEW_DA(size_t, words - HW - 1);
        checkFresh(a, words, 1, "data array");
        mc_assert(GGC_LENGTH(a) == words - HW - 1, "data array: wrong length");
        r = (Raw) a;
        break; }
    }
    disjoint(r, words, "allocation");
    return r;
}

static void scribble(Raw r, int kind, int words)
{
    W *p = (W *) r;
    int k;
    /* (the objects' descriptors say that they hold no pointers) */
    for (k = kind ? HW + 1 : HW; k < words && kind != 1; k++) p[k] = 0x9999999999999999UL;
}

static void mode0(void)
{
    int kind = mc_choose(3, "kind"), words, left, near, i, max;
    max = (int) POOL_USABLE;
    words = 3 + (int) HW - 1 + mc_choose(250, "words") + 250 * mc_choose(3, "words high");
    if (words > max) mc_prune();
#ifdef GGGGC_COLLECTOR_PORTABLEMS
    /* a free chunk that would leave less than a new free chunk isn't used */
    if (words > max - 4 && words < max) mc_prune();
#endif
    if (words > 40 && words < max - 60 && words % mc_arg("stride", 7)) mc_prune();
    roots();
    live();
    if (mc_choose(2, "promoted")) { GGC_COLLECT(); verify("at first"); }
    if (kind == 0) {
        dd[0] = ggggc_allocateDescriptor(words, 0);
        dd[1] = ggggc_allocateDescriptor(5, 0);
    }
    dirty();
    verify("after dirtying");
    /* fill levels: from an exact fit on downwards and upwards, or a full pool */
    near = mc_choose(mc_arg("levels", 16), "fill level");
    left = near < 12 ? words - 6 + near : near == 12 ? 0 : near == 13 ? 3 : near == 14 ? words / 2 : words + (int) DESC_WORDS_DA * 2 + 3;
    if (left < 0) mc_prune();
    fillTo(left);
    mc_note("%d words, kind %d, with %d words left", words, kind, left);
    o[0] = allocate(kind, words, 0);
    verify("after the allocation");
    scribble(o[0], kind, words);
    verify("after writing to it");
    o[1] = allocate(kind == 0 ? 0 : 3 - kind, kind == 0 ? 5 : 9, 1);
    verify("after another");
    for (i = 0; i <= MAXGEN + 1; i++) if (mc_probe_begin()) {
        W *p;
        int k;
        collectGen(i);
        verify("after a collection");
        p = (W *) o[0];
        mc_assert(p && ((struct GGGGC_Header *) p)->descriptor__ptr->size == (W) words, "after a collection: the object's size changed");
        for (k = kind ? HW + 1 : HW; k < words; k++) mc_assert(p[k] == (kind == 1 ? 0 : 0x9999999999999999UL), "after a collection: word %d changed", k);
        disjoint(p, words, "after a collection");
        o[2] = allocate(2, 7, 0);
        dirty();
        verify("after a collection and reuse");
        mc_probe_end();
    }
    mc_cover("allocated");
}

#define CHECK_DA(type, n) do { \
    GGC_##type##_Array a = GGC_NEW_DA(type, n); \
    W w = HW + 1 + ((n) * sizeof(type) + sizeof(W) - 1) / sizeof(W); \
    checkFresh(a, w, 1, "array of " #type); \
    mc_assert(GGC_LENGTH(a) == (W) (n), "array of " #type ": wrong length"); \
    mc_assert((char *) &a->a__data[n] <= (char *) a + w * 8, "array of " #type " is too small"); \
    disjoint(a, w, "array of " #type); \
    o[0] = (Raw) a; \
    if (n) memset(a->a__data, 0xEE, (n) * sizeof(type)); \
    verify("after writing an array of " #type); \
    ggggc_collect0(0); \
    a = (GGC_##type##_Array) o[0]; \
    mc_assert(GGC_LENGTH(a) == (W) (n), "array of " #type ": length changed"); \
    { int k_; for (k_ = 0; k_ < (int) ((n) * sizeof(type)); k_++) mc_assert(((unsigned char *) a->a__data)[k_] == 0xEE, "array of " #type ": byte %d changed", k_); } \
} while (0)

static void mode1(void)
{
    int n = mc_choose(70, "elements"), t = mc_choose(9, "type"), left = mc_choose(30, "left");
    roots();
    live();
    dirty();
    fillTo(left);
    switch (t) {
    case 0: CHECK_DA(byte, n); break;
    case 1: CHECK_DA(half, n); break;
    case 2: CHECK_DA(three, n); break;
    case 3: CHECK_DA(size_t, n); break;
    case 4: CHECK_DA(triple, n); break;
    case 5: { NodeArray a = GGC_NEW_PA(Node, n);
        checkFresh(a, HW + 1 + n, 1, "pointer array"); mc_assert(GGC_LENGTH(a) == (W) n, "pointer array: wrong length");
        disjoint(a, HW + 1 + n, "pointer array"); break; }
    case 6: { Tiny x = GGC_NEW(Tiny); char c = 'x';
        if (n > 3) mc_prune();
        checkFresh(x, GGGGC_MINIMUM_OBJECT_SIZE, 0, "small object"); disjoint(x, 3, "small object");
        o[0] = (Raw) x; GGC_WD(x, c, c); ggggc_collect0(0); x = (Tiny) o[0]; mc_assert(GGC_RD(x, c) == 'x', "small object changed"); break; }
    case 7: { Lone x = GGC_NEW(Lone), y;
        if (n > 3) mc_prune();
        checkFresh(x, GGGGC_MINIMUM_OBJECT_SIZE, 0, "small object"); disjoint(x, 3, "small object");
        o[0] = (Raw) x; y = GGC_NEW(Lone); x = (Lone) o[0];
        checkFresh(y, GGGGC_MINIMUM_OBJECT_SIZE, 0, "small object"); disjoint(y, 3, "small object");
        GGC_WP(x, p, y); ggggc_collect0(0); x = (Lone) o[0]; y = GGC_RP(x, p);
        mc_assert(y && y != x && GGC_RP(y, p) == NULL, "small object lost"); break; }
    case 8: { Node x = newNode(); (void) x; if (n > 3) mc_prune(); break; }
    }
    verify("at the end");
}

void mc_main(void)
{
    if (mc_arg("mode", 0)) mode1(); else mode0();
}
