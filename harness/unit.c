/* C21: boxed values of every primitive type, in every place an object can be.
 * mode 0: every value of a set, at every age, next to others
 * mode 1: sequences of operations, with a collection at any allocation */
#include "gcat.h"
#include "ggggc/collections/unit.h"
#include "ggggc/collections/list.h"
#include "ggggc/collections/map.h"
#ifdef __cplusplus
extern "C" {
#endif

typedef signed char schar;
typedef unsigned char uchar;
typedef unsigned short ushort_;
typedef unsigned long ulong_;
typedef long long llong;
typedef unsigned long long ullong;
typedef long double ldouble;
#ifdef __cplusplus
typedef bool boolean;
#else
typedef _Bool boolean;
#endif
typedef const char *cstr;
typedef enum { E0, E1, EBIG = 0x7fffffff } enumer;
GGC_DA_TYPE(schar)
GGC_DA_TYPE(uchar)
GGC_DA_TYPE(ushort_)
GGC_DA_TYPE(ulong_)
GGC_DA_TYPE(llong)
GGC_DA_TYPE(ullong)
GGC_DA_TYPE(ldouble)
GGC_DA_TYPE(boolean)
GGC_DA_TYPE(cstr)
GGC_DA_TYPE(enumer)

/* values: the bytes of number vi */
#define NPAT 24
static int nvals(int bits) { return bits == 1 ? 2 : bits == 8 ? 256 : NPAT; }
static void bytesOf(unsigned char *b, int size, int bits, int vi)
{
    int k;
    for (k = 0; k < 16; k++) b[k] = 0;
    if (bits == 1 || bits == 8) b[0] = vi;
    else for (k = 0; k < size; k++) {
        unsigned char lastB = k == size - 1;
        b[k] = vi == 0 ? 0 : vi == 1 ? 0xFF : vi == 2 ? (k == 0) : vi == 3 ? (lastB ? 0x80 : 0) : vi == 4 ? (lastB ? 0x7F : 0xFF) : vi == 5 ? 0x55 : vi == 6 ? 0xAA : vi == 7 ? k + 1
            /* as floating point numbers: a quiet and a signalling NaN, infinity, a denormal */
            : vi == 8 ? (lastB ? 0x7F : k == size - 2 ? 0xC1 : k) : vi == 9 ? (lastB ? 0xFF : k == size - 2 ? 0xF0 - (size == 4 ? 0x70 : 0) : k == 0 ? 3 : 0)
            : vi < 16 ? (k == (vi - 9) % size ? 0x81 : 0) : (k == vi % size ? 0 : 0xC3);
    }
}

struct UnitOps {
    const char *name;
    int size, bits;
    void *(*box)(int vi);
    void (*set)(void *u, int vi);
    int (*is)(void *u, int vi);
    void *(*array)(int n);
    void *(*deunit)(void *ua);
    int (*at)(void *da, int i, int vi);
    void *(*list)(void);
    void (*push)(void *l, void *u);
    void *(*shift)(void *l);
    void *(*listArray)(void *l);
    void *(*map)(void);
    void (*put)(void *m, void *k, void *v);
    int (*get)(void *m, void *k, void **v);
};

#define SIZE(T) ((int) sizeof(T) == 16 ? 10 : (int) sizeof(T))
#define DEF(T) \
GGC_UNIT(T) \
GGC_LIST(GGC_ ## T ## _Unit) \
static size_t T ## Hash(GGC_ ## T ## _Unit u) { T v; size_t h = 0; v = GGC_RD(u, v); { unsigned char b[16]; int k; memcpy(b, &v, sizeof v); for (k = 0; k < SIZE(T); k++) h = h * 31 + b[k]; } return h; } \
static int T ## Cmp(GGC_ ## T ## _Unit a, GGC_ ## T ## _Unit b) { T x, y; x = GGC_RD(a, v); y = GGC_RD(b, v); return memcmp(&x, &y, SIZE(T)); } \
GGC_MAP(T ## Map, GGC_ ## T ## _Unit, GGC_ ## T ## _Unit, T ## Hash, T ## Cmp) \
static T T ## Val(int vi, int bits) { unsigned char b[16]; T v; bytesOf(b, SIZE(T), bits, vi); memcpy(&v, b, sizeof v); return v; } \
static void *T ## Box(int vi) { GGC_ ## T ## _Unit u = GGC_NEW(GGC_ ## T ## _Unit); T v = T ## Val(vi, T ## Bits), z; z = GGC_RD(u, v); { unsigned char zero[16]; memset(zero, 0, 16); mc_assert(!memcmp(&z, zero, SIZE(T)), "a new unit of " #T " is not zero"); } GGC_WD(u, v, v); return (void *) u; } \
static void T ## Set(void *p, int vi) { GGC_ ## T ## _Unit u = (GGC_ ## T ## _Unit) p; T v = T ## Val(vi, T ## Bits); GGC_WD(u, v, v); } \
static int T ## Is(void *p, int vi) { GGC_ ## T ## _Unit u = (GGC_ ## T ## _Unit) p; T v = T ## Val(vi, T ## Bits), w; w = GGC_RD(u, v); return !memcmp(&v, &w, SIZE(T)); } \
static void *T ## Array_(int n) { return (void *) GGC_NEW_PA(GGC_ ## T ## _Unit, n); } \
static void *T ## Deunit(void *p) { return (void *) GGC_ ## T ## _UnitArrayDeunit((GGC_ ## T ## _UnitArray) p); } \
static int T ## At(void *p, int i, int vi) { GGC_ ## T ## _Array da = (GGC_ ## T ## _Array) p; T v = T ## Val(vi, T ## Bits), w; w = GGC_RAD(da, i); return !memcmp(&v, &w, SIZE(T)); } \
static void *T ## NewList(void) { return (void *) GGC_NEW(GGC_ ## T ## _UnitList); } \
static void T ## Push(void *l, void *u) { GGC_ ## T ## _UnitListPush((GGC_ ## T ## _UnitList) l, (GGC_ ## T ## _Unit) u); } \
static void *T ## Shift(void *l) { return (void *) GGC_ ## T ## _UnitListShift((GGC_ ## T ## _UnitList) l); } \
static void *T ## ListArray(void *l) { return (void *) GGC_ ## T ## _UnitListToArray((GGC_ ## T ## _UnitList) l); } \
static void *T ## NewMap(void) { return (void *) GGC_NEW(T ## Map); } \
static void T ## Put(void *m, void *k, void *v) { T ## MapPut((T ## Map) m, (GGC_ ## T ## _Unit) k, (GGC_ ## T ## _Unit) v); } \
static int T ## Get(void *m, void *k, void **v) { GGC_ ## T ## _Unit r = (GGC_ ## T ## _Unit) *v; int x = T ## MapGet((T ## Map) m, (GGC_ ## T ## _Unit) k, &r); *v = (void *) r; return x; }
#define OPS(T) { #T, (int) sizeof(T), T ## Bits, T ## Box, T ## Set, T ## Is, T ## Array_, T ## Deunit, T ## At, T ## NewList, T ## Push, T ## Shift, T ## ListArray, T ## NewMap, T ## Put, T ## Get }
#define ALL(X) X(char) X(schar) X(uchar) X(short) X(ushort_) X(int) X(unsigned) X(long) X(ulong_) X(llong) X(ullong) X(float) X(double) X(ldouble) X(size_t) X(boolean) X(cstr) X(enumer)
static const int charBits = 8, scharBits = 8, ucharBits = 8, shortBits = 0, ushort_Bits = 0, intBits = 0, unsignedBits = 0, longBits = 0, ulong_Bits = 0, llongBits = 0, ullongBits = 0,
    floatBits = 0, doubleBits = 0, ldoubleBits = 0, size_tBits = 0, booleanBits = 1, cstrBits = 0, enumerBits = 0;
ALL(DEF)
#define COMMA(T) OPS(T),
static const struct UnitOps types[] = { ALL(COMMA) };
#define NTYPES ((int) (sizeof types / sizeof types[0]))
static const struct UnitOps *U;

static void checkBox(void *u, int vi, const char *when, const char *what)
{
    mc_assert(u && ((W) u & 7) == 0 && mc_mem_valid(u, 3 * sizeof(W)), "%s: %s is no object (%p)", when, what, u);
    mc_assert(U->is(u, vi), "%s: %s: the unit of %s does not have value number %d", when, what, U->name, vi);
}

static void values(void)
{
    GGC_voidp x = NULL, y = NULL, z = NULL, da = NULL, ua = NULL;
    int vi, other, n, k, nv, left, g;
    GGC_voidpArray va = NULL;
    GGC_PUSH_6(x, y, z, da, ua, va);
    U = &types[mc_choose(NTYPES, "type")];
    nv = nvals(U->bits);
    if (nv > 16) { vi = 16 * mc_choose((nv + 15) / 16, "value"); vi += mc_choose(nv - vi < 16 ? nv - vi : 16, "value"); }
    else vi = mc_choose(nv, "value");
    other = nv == 2 ? !vi : vi == nv - 1 ? 0 : nv - 1 - (vi == 0);
    left = mc_choose(mc_arg("lefts", 4), "words left");
    if (left) fillTo(left * 2 - 2);
    x = U->box(other);
    y = U->box(vi);
    z = U->box(other);
    checkBox(x, other, "boxed", "the box before"); checkBox(y, vi, "boxed", "the box"); checkBox(z, other, "boxed", "the box after");
    n = mc_choose(mc_arg("ns", 4), "array");
    if (mc_arg("acat", 0)) gcatChoose(2);
    ua = U->array(n);
    gcatOff();
    va = (GGC_voidpArray) ua;
    for (k = 0; k < n; k++) { GGC_voidp e = k == 1 ? y : x; GGC_WAP(va, k, e); }
    gcatChoose(2);
    da = U->deunit(ua);
    gcatOff();
    mc_assert(((GGC_char_Array) da)->length == (W) n, "deunit: wrong length");
    for (k = 0; k < n; k++) mc_assert(U->at(da, k, k == 1 ? vi : other), "deunit: element %d of %s has the wrong value", k, U->name);
    g = mc_choose(MAXGEN + 2, "generation");
    collectGen(g);
    churn(POOL_USABLE + 20);
    checkBox(x, other, "collected", "the box before"); checkBox(y, vi, "collected", "the box"); checkBox(z, other, "collected", "the box after");
    for (k = 0; k < n; k++) mc_assert(U->at(da, k, k == 1 ? vi : other), "collected: element %d of %s has the wrong value", k, U->name);
    U->set(y, other);
    checkBox(x, other, "set", "the box before"); checkBox(y, other, "set", "the box"); checkBox(z, other, "set", "the box after");
    U->set(y, vi); U->set(z, vi);
    checkBox(x, other, "set again", "the box before"); checkBox(y, vi, "set again", "the box"); checkBox(z, vi, "set again", "the box after");
    for (k = 0; k < n; k++) mc_assert(U->at(da, k, k == 1 ? vi : other), "set: element %d of %s changed with its former box", k, U->name);
    GGC_POP();
}

/* the model: what the boxes are worth; boxes are told apart by number */
#define MAXB 40
static MCG int boxVal[MAXB], boxN;
static MCG int slot[2], arr[3], lst[8], lstN, mapV[4];   /* box numbers; -1: none */
static MCG void *where[MAXB];
static void squeeze(void)
{
    int used[MAXB], to[MAXB], k, n = 0;
    for (k = 0; k < MAXB; k++) used[k] = to[k] = 0;
#define EACH(X) { for (k = 0; k < 2; k++) X(slot[k]); for (k = 0; k < 3; k++) X(arr[k]); for (k = 0; k < lstN; k++) X(lst[k]); for (k = 0; k < 4; k++) X(mapV[k]); }
#define USE(b) if ((b) >= 0) used[b] = 1
#define MOVE(b) if ((b) >= 0) (b) = to[b]
    EACH(USE)
    for (k = 0; k < boxN; k++) if (used[k]) { boxVal[n] = boxVal[k]; to[k] = n++; }
    EACH(MOVE)
    for (k = n; k < MAXB; k++) boxVal[k] = 0;
    boxN = n;
}
static void same(void *u, int b, const char *when, const char *what)
{
    if (b < 0) { mc_assert(!u, "%s: %s should be NULL", when, what); return; }
    checkBox(u, boxVal[b], when, what);
    if (where[b]) mc_assert(where[b] == u, "%s: %s: identity lost", when, what);
    where[b] = u;
}

static void verifyAll(GGC_voidp *s, GGC_voidpArray *ar, GGC_voidp *list, GGC_voidp *map, const int *vals, const char *when)
{
    int k;
    GGC_voidp x = NULL, la = NULL, da = NULL, key = NULL;
    GGC_voidpArray va = NULL;
    GGC_PUSH_5(x, la, da, key, va);
    for (k = 0; k < MAXB; k++) where[k] = NULL;
    same(s[0], slot[0], when, "variable 0"); same(s[1], slot[1], when, "variable 1");
    for (k = 0; k < 3; k++) same(GGC_RAP(*ar, k), arr[k], when, "array element");
    if (arr[0] >= 0 && arr[1] >= 0 && arr[2] >= 0) {
        da = U->deunit(*ar);
        for (k = 0; k < 3; k++) mc_assert(U->at(da, k, boxVal[arr[k]]), "%s: deunit: element %d has the wrong value", when, k);
        for (k = 0; k < MAXB; k++) where[k] = NULL;
    }
    la = U->listArray(*list);
    va = (GGC_voidpArray) la;
    for (k = 0; k < MAXB; k++) where[k] = NULL;
    mc_assert(va->length == (W) lstN, "%s: the list has length %ld, should be %d", when, (long) va->length, lstN);
    for (k = 0; k < lstN; k++) same(GGC_RAP(va, k), lst[k], when, "list element");
    da = U->deunit(la);
    for (k = 0; k < lstN; k++) mc_assert(U->at(da, k, boxVal[lst[k]]), "%s: list to array: element %d has the wrong value", when, k);
    for (k = 0; k < 4; k++) {
        int r;
        key = U->box(vals[k]);
        x = NULL;
        r = U->get(*map, key, (void **) &x);
        mc_assert(r == (mapV[k] >= 0), "%s: key %d %s", when, k, r ? "found, but was never put" : "not found");
        if (r) checkBox(x, boxVal[mapV[k]], when, "map value");
    }
    for (k = 0; k < MAXB; k++) where[k] = NULL;
    GGC_POP();
}

static void sequences(void)
{
    static const int few[] = { 5, 12, 15, 13, 0, 9, 16, 3 };
    int d, depth = mc_arg("depth", 4), i, j, k, g, vals[4], nv;
    GGC_voidp s[2], list = NULL, map = NULL, x = NULL;
    GGC_voidpArray ar = NULL;
    s[0] = s[1] = NULL;
    GGC_PUSH_6(s[0], s[1], list, map, x, ar);
    U = &types[few[mc_choose(mc_arg("types", 4), "type")]];
    nv = nvals(U->bits);
    vals[0] = 0; vals[1] = 1; vals[2] = nv > 2 ? 5 : 0; vals[3] = nv > 2 ? 8 : 1;
    for (k = 0; k < 2; k++) slot[k] = -1;
    for (k = 0; k < 3; k++) arr[k] = -1;
    for (k = 0; k < 4; k++) mapV[k] = -1;
    x = U->array(3); ar = (GGC_voidpArray) x; x = NULL;
    list = U->list();
    map = U->map();
    if (mc_choose(2, "old")) { GGC_COLLECT(); GGC_COLLECT(); }
    for (d = 0; d < depth; d++) {
        int op = mc_choose(9, "operation");
        char b[64];
        switch (op) {
        case 0: /* box */
            i = mc_choose(2, "into"); j = mc_choose(2, "value");
            gcatChoose(0);
            s[i] = U->box(vals[j + 1]);
            gcatOff();
            slot[i] = boxN; boxVal[boxN++] = vals[j + 1];
            snprintf(b, sizeof b, "after s%d = box(%d)", i, vals[j + 1]);
            break;
        case 1: /* change */
            i = mc_choose(2, "which"); j = mc_choose(2, "value");
            if (slot[i] < 0) mc_prune();
            U->set(s[i], vals[j]);
            boxVal[slot[i]] = vals[j];
            snprintf(b, sizeof b, "after s%d->v = %d", i, vals[j]);
            break;
        case 2: /* copy */
            i = mc_choose(2, "into");
            s[i] = s[1 - i]; slot[i] = slot[1 - i];
            snprintf(b, sizeof b, "after s%d = s%d", i, 1 - i);
            break;
        case 3: /* to the array */
            i = mc_choose(2, "from"); j = mc_choose(3, "index");
            x = s[i];
            GGC_WAP(ar, j, x);
            x = NULL;
            arr[j] = slot[i];
            snprintf(b, sizeof b, "after array[%d] = s%d", j, i);
            break;
        case 4: /* to the list */
            i = mc_choose(2, "from");
            if (lstN >= 8 || slot[i] < 0) mc_prune();
            gcatChoose(1);
            U->push(list, s[i]);
            gcatOff();
            lst[lstN++] = slot[i];
            snprintf(b, sizeof b, "after pushing s%d", i);
            break;
        case 5: /* and from it */
            i = mc_choose(2, "into");
            if (!lstN) mc_prune();
            s[i] = U->shift(list);
            slot[i] = lst[0];
            for (k = 1; k < lstN; k++) lst[k - 1] = lst[k];
            lst[--lstN] = 0;
            snprintf(b, sizeof b, "after s%d = shift", i);
            break;
        case 6: /* into the map, under a key that is not changed later */
            i = mc_choose(2, "value"); j = mc_choose(nv > 2 ? 4 : 2, "key");
            if (slot[i] < 0) mc_prune();
            x = U->box(vals[j]);
            gcatChoose(2);
            U->put(map, x, s[i]);
            gcatOff();
            x = NULL;
            mapV[j] = slot[i];
            if (nv == 2) mapV[j + 2] = slot[i];
            snprintf(b, sizeof b, "after map[%d] = s%d", vals[j], i);
            break;
        case 7: /* and out of it */
            i = mc_choose(2, "into"); j = mc_choose(nv > 2 ? 4 : 2, "key");
            if (mapV[j] < 0) mc_prune();
            x = U->box(vals[j]);
            k = U->get(map, x, (void **) &s[i]);
            mc_assert(k, "the key is not in the map");
            x = NULL;
            slot[i] = mapV[j];
            snprintf(b, sizeof b, "after s%d = map[%d]", i, vals[j]);
            break;
        default:
            g = mc_choose(MAXGEN + 2, "generation");
            collectGen(g);
            snprintf(b, sizeof b, "after a collection of %d", g);
        }
        squeeze();
        if (mc_probe_begin()) { verifyAll(s, &ar, &list, &map, vals, b); mc_probe_end(); }
        for (g = 0; g <= MAXGEN + 1; g++) if (mc_probe_begin()) {
            collectGen(g);
            churn(POOL_USABLE + 20);
            verifyAll(s, &ar, &list, &map, vals, b);
            mc_probe_end();
        }
    }
    GGC_POP();
}

void mc_main(void)
{
    if (mc_arg("settle", 1)) GGC_COLLECT();
    if (mc_arg("mode", 0)) sequences(); else values();
    mc_done();
}
#ifdef __cplusplus
}
#endif
