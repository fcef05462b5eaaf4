/* C16: every history of map operations, with several hash functions and a
 * collection at any allocation (or in the hash and comparison functions),
 * against finite functions. */
#include "gcat.h"
#include "ggggc/collections/map.h"
#ifdef __cplusplus
extern "C" {
#endif

#define MAXK 24
static MCG int hk, inHash;    /* hash kind; generation + 1 that hashing and comparing collects */
static MCG int F[3][MAXK + 1];    /* value of key k (0..): id; -1: absent; 0: NULL. Index MAXK: the NULL key */
static MCG int nk;            /* keys 0..nk-1 are in play */
static MCG int nullKey;

static W kid(Node n) { return n ? GGC_RD(n, id) : MAXK; }
static size_t theHash(Node n)
{
    W id, r;
    if (n) mc_assert(((W) n & 7) == 0 && mc_mem_valid((void *) n, NODE_WORDS * sizeof(W)), "hash: the key is no object (%p)", (void *) n);
    id = kid(n);
    mc_assert(id <= MAXK, "hash: the key is #%ld", (long) id);
    r = hk == 0 ? 0 : hk == 1 ? ~(W) 0 - id : hk == 2 ? id / 2 : hk == 3 ? id : hk == 4 ? id << 62 : id * 4 + 3;
    if (inHash) { GGC_PUSH_1(n); collectGen(inHash - 1); GGC_POP(); }
    return r;
}
static int theCmp(Node a, Node b)
{
    W x, y;
    if (a) mc_assert(((W) a & 7) == 0 && mc_mem_valid((void *) a, NODE_WORDS * sizeof(W)), "cmp: the first key is no object (%p)", (void *) a);
    if (b) mc_assert(((W) b & 7) == 0 && mc_mem_valid((void *) b, NODE_WORDS * sizeof(W)), "cmp: the second key is no object (%p)", (void *) b);
    x = kid(a); y = kid(b);
    mc_assert(x <= MAXK && y <= MAXK, "cmp: the keys are #%ld and #%ld", (long) x, (long) y);
    if (inHash) { GGC_PUSH_2(a, b); collectGen(inHash - 1); GGC_POP(); }
    return x == y ? 0 : hk % 2 ? -1 : 1;
}

GGC_MAP(NMap, Node, Node, theHash, theCmp)
#ifdef GENERIC
typedef GGC_Map TheMap;
#define MNEW() GGC_NEW(GGC_Map)
static int MGet(TheMap m, Node k, Node *v) { return GGC_MapGet(m, (void *) k, (void **) v, (ggc_map_hash_t) theHash, (ggc_map_cmp_t) theCmp); }
static void MPut(TheMap m, Node k, Node v) { GGC_MapPut(m, (void *) k, (void *) v, (ggc_map_hash_t) theHash, (ggc_map_cmp_t) theCmp); }
#define MClone GGC_MapClone
#else
typedef NMap TheMap;
#define MNEW() GGC_NEW(NMap)
#define MGet NMapGet
#define MPut NMapPut
#define MClone NMapClone
#endif

static TheMap *Mv[3];
static MCG W vid;    /* values are Nodes with ids from 100 */

static Node keyObj(int k)
{
    Node n = NULL;
    W v = k, m = ~(W) k;
    if (k == MAXK) return NULL;
    n = GGC_NEW(Node);
    GGC_WD(n, id, v); GGC_WD(n, mid, m);
    return n;
}

static void check(const char *when)
{
    int m, k, was = inHash, wasLeft = gcatLeft;
    Node key = NULL, val = NULL, none = NULL;
    GGC_PUSH_3(key, val, none);
    gcatLeft = 0;
    none = GGC_NEW(Node);
    for (m = 0; m < 3; m++) {
        TheMap mp = NULL;
        GGC_PUSH_1(mp);
        mp = *Mv[m];
        if (mp)
        for (k = 0; k <= MAXK; k++) {
            int r;
            if (k >= nk && !(k == MAXK && nullKey)) continue;
            inHash = 0;
            key = keyObj(k);
            mp = *Mv[m];
            val = none;
            r = MGet(mp, key, &val);
            mc_assert(r == (F[m][k] >= 0), "%s: map %d: key %d %s", when, m, k, r ? "found, but was never put" : "not found");
            if (!r) mc_assert(val == none, "%s: map %d: key %d not found, but the value was changed", when, m, k);
            else if (F[m][k] == 0) mc_assert(val == NULL, "%s: map %d: key %d has a value, should be NULL", when, m, k);
            else mc_assert(val && ((W) val & 7) == 0 && mc_mem_valid((void *) val, NODE_WORDS * sizeof(W)) && GGC_RD(val, id) == (W) F[m][k] && GGC_RD(val, mid) == ~(W) F[m][k],
                           "%s: map %d: key %d has value #%ld, should be #%d", when, m, k, val ? (long) GGC_RD(val, id) : -1L, F[m][k]);
        }
        GGC_POP();
    }
    inHash = was; gcatLeft = wasLeft;
    GGC_POP();
}

static void probes(const char *when)
{
    int g;
    char b[90];
    if (mc_probe_begin()) { check(when); mc_probe_end(); }
    for (g = 0; g <= MAXGEN + 1; g++) if (mc_probe_begin()) {
        snprintf(b, sizeof b, "%s, then collection of generation %d and reuse of memory", when, g);
        collectGen(g);
        churn(POOL_USABLE + 20);
        check(b);
        mc_probe_end();
    }
}

static void run(int depth)
{
    TheMap m0 = NULL, m1 = NULL, m2 = NULL, x = NULL;
    Node key = NULL, val = NULL;
    int d, i, j, k, first, nm = 1, maxcat = mc_arg("cat", 3), inh = mc_arg("inhash", 1);
    GGC_PUSH_6(m0, m1, m2, x, key, val);
    Mv[0] = &m0; Mv[1] = &m1; Mv[2] = &m2;
    for (i = 0; i < 3; i++) for (k = 0; k <= MAXK; k++) F[i][k] = -1;
    vid = 100;
    hk = mc_choose(mc_arg("hashes", 6), "hash function");
    val = newNode(); val = NULL;   /* so that what follows has to move */
    m0 = MNEW();
    first = mc_choose(mc_arg("first", 7), "entries to begin with");
    first = first + first / 6 * mc_arg("skip", 2);
    nk = first + 2;
    nullKey = mc_arg("null", 0);
    mc_assert(nk < MAXK, "harness: too many keys");
    for (k = 0; k < first; k++) {
        key = keyObj(k);
        val = newNode();
        { W v = ++vid, w = ~v; GGC_WD(val, id, v); GGC_WD(val, mid, w); }
        MPut(m0, key, val);
        F[0][k] = (int) vid;
    }
    mc_cover(first > 8 ? "grown three times" : first > 4 ? "grown twice" : first > 2 ? "grown once" : "small");
    if (mc_choose(2, "settle")) GGC_COLLECT();
    check("after the first entries");
    for (d = 0; d < depth; d++) {
        int op = mc_choose(3, "op");
        gcatOff(); inHash = 0;
        if (op == 0) {
            int what;
            i = mc_choose(nm, "map");
            /* an absent key, the newest, the oldest, one in the middle, NULL */
            j = mc_choose(4 + nullKey, "key");
            k = j == 0 ? nk - 1 : j == 1 ? nk - 2 : j == 2 ? 0 : j == 3 ? first / 2 : MAXK;
            if ((j == 2 && first < 1) || (j == 3 && first / 2 == 0)) mc_prune();
            what = mc_choose(mc_arg("vals", 3), "value");
            key = keyObj(k);
            if (what == 0) { W v = ++vid, w = ~v; val = newNode(); GGC_WD(val, id, v); GGC_WD(val, mid, w); }
            else if (what == 2) val = NULL;
            else val = key;
            if (what == 1 && k == 0) mc_prune();   /* its id means NULL */
            if (what == 1 && k == MAXK) mc_prune();
            if (inh && mc_choose(2, "collect in the functions")) inHash = 1 + mc_choose(MAXGEN + 2, "generation");
            else gcatChoose(maxcat < 3 ? maxcat : 2);
            x = *Mv[i];
            mc_note("m%d[%d] = %s%ld (hash %d, collecting at %d, generation %d, in hash %d)", i, k, what == 2 ? "NULL " : "#", (long) vid, hk, gcatLeft, gcatGen, inHash - 1);
            MPut(x, key, val);
            F[i][k] = what == 0 ? (int) vid : what == 2 ? 0 : k;
        } else if (op == 1) {
            int n;
            if (nm >= 3) mc_prune();
            i = mc_choose(nm, "map");
            for (n = k = 0; k <= MAXK; k++) n += F[i][k] >= 0;
            gcatChoose(maxcat < n + 2 ? maxcat : n + 2);
            x = *Mv[i];
            mc_note("m%d = clone of m%d, collecting at %d, generation %d", nm, i, gcatLeft, gcatGen);
            x = MClone(x);
            *Mv[nm] = x;
            for (k = 0; k <= MAXK; k++) F[nm][k] = F[i][k];
            nm++;
            mc_cover("cloned");
        } else {
            int g = mc_choose(MAXGEN + 2, "generation");
            mc_note("collect %d", g);
            collectGen(g);
        }
        gcatOff(); inHash = 0;
        key = val = NULL; x = NULL;
        probes("after the operation");
    }
    GGC_POP();
}

void mc_main(void)
{
    run(mc_arg("depth", 2));
}
#ifdef __cplusplus
}
#endif
