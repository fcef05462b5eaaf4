/* C18: the portable collector's heap, object by object and chunk by chunk.
 *
 * Sequences of allocations of various sizes (with a shared descriptor or one
 * of their own), drops and collections, while further memory is refused from
 * some point on. After each operation the heap must be exactly objects and
 * free chunks; every live object must be one of the objects and where it was.
 * Then, with no more memory to be had, every free chunk must be obtainable. */
#define MAXM 24
#define MAXWORDS 100
#include "raw.h"
#include "tile.h"

#define NO 8
static Raw o[NO];
static MCG void *at[NO];
static struct GGGGC_Descriptor *d;    /* the descriptor for it */
static MCG int want;            /* size of the allocation that is under way */
static MCG int refusedAt;
static W fake[128][4];          /* stand-ins for descriptors */

static const int small[] = {3, 4, 5, 6, 7, 8, 10, 13};

static FAST void liveTiles(const char *when)
{
    int i, t;
    tiles(ggggc_gen0, when);
    for (i = 0; i < NO; i++) if (o[i]) {
        mc_assert((void *) o[i] == at[i], "%s: object %d moved", when, i);
        t = tileAt(o[i]);
        mc_assert(t >= 0 && !tile[t].free, "%s: object %d is not among the objects of the heap", when, i);
        mc_assert(tile[t].n == (W) M[Mroot[i]].size, "%s: object %d has become %ld words", when, i, (long) tile[t].n);
        t = tileAt(((struct GGGGC_Header *) o[i])->descriptor__ptr);
        mc_assert(t >= 0 && !tile[t].free, "%s: the descriptor of object %d is not among the objects of the heap", when, i);
    }
}

/* nothing fits and nothing can be had */
static void outOfMemory(void)
{
    int i;
    mc_expect_abort(0);
    mc_assert(refusedAt && mc_pools() >= refusedAt, "gave up although more memory can be had");
    ggggc_collect0(0);
    liveTiles("out of memory");
    for (i = 0; i < ntile; i++)
        mc_assert(!tile[i].free || !want || !(tile[i].n == (W) want || tile[i].n >= (W) want + 4), "gave up on %d words although there is a free chunk of %ld", want, (long) tile[i].n);
    tilesForget();
    mc_cover("out of memory");
    mc_done();
}

/* every free chunk can be had, once */
static FAST void available(const char *when, int collect)
{
    static MCG struct { W *p; W n; } got[1200];
    int n = 0, i, k;
    W z;
    char b[80];
    if (!mc_probe_begin()) return;
    mc_alloc_limit(mc_pools());
    if (collect) ggggc_collect0(0);
    snprintf(b, sizeof b, "%s%s", when, collect ? ", then a collection" : "");
    mc_alloc_limit(mc_pools());
    liveTiles(b);
    if (collect) tilesMerged(b);
    /* the largest first, so that only a chunk of exactly that size will do */
    for (;;) {
        for (z = 0, i = 0; i < ntile; i++) if (tile[i].free && tile[i].n > z) z = tile[i].n;
        if (!z) break;
        struct GGGGC_Descriptor *none = NULL;
        W *p;
        want = (int) z;
        p = (W *) ggggc_mallocRaw(&none, z);
        mc_assert(z < 128, "harness: chunk too big");
        fake[z][1] = z;
        p[0] = (W) fake[z];
        for (k = 0; k < n; k++) mc_assert(got[k].p + got[k].n <= p || p + z <= got[k].p, "%s: the same memory was handed out twice", b);
        k = tileAt(p);
        mc_assert(k >= 0 && tile[k].free && tile[k].n == z, "%s: %ld words came from something else than a free chunk of that size", b, (long) z);
        got[n].p = p; got[n].n = z; n++;
        tile[k].free = 0;
    }
    if (collect) {
        tiles(ggggc_gen0, b);
        for (i = 0; i < ntile; i++) mc_assert(!tile[i].free, "%s: a free chunk of %ld words cannot be had", b, (long) tile[i].n);
    }
    verify(b);
    mc_probe_end();
}

static int newObj(int size, int fresh)
{
    int i, m;
    for (i = 0; i < NO && o[i]; i++);
    if (i == NO) return 0;
    {
        int k;
#ifdef GGGGC_FEATURE_EXTTAG
        want = 0; /* several sizes of descriptors */
#else
        want = (int) DESC_WORDS_DA + (size - 1) / 64;
#endif
        if (fresh || size > RAWMAX) d = ggggc_allocateDescriptor(size, 0);
        else {
            if (!rawDesc[size]) rawDesc[size] = (W) ggggc_allocateDescriptor(size, 0);
            d = (struct GGGGC_Descriptor *) rawDesc[size];
        }
        want = size;
        o[i] = (Raw) GGC_NEW_FROM_DESCRIPTOR(d);
        checkFresh(o[i], size, 0, "GGC_NEW_FROM_DESCRIPTOR");
        nextId++;
        m = mNew(size);
        for (k = HW; k < size; k++) { ((W *) o[i])[k] = nextId * 0x10001 + k; M[m].data[k] = nextId * 0x10001 + k; }
        if (!fresh && size <= RAWMAX) M[m].exact = &rawDesc[size];
    }
    at[i] = o[i]; Mroot[i] = m; d = NULL;
    return 1;
}

static void check(const char *when)
{
    mc_quiet(1);
    liveTiles(when);
    verify(when);
    tilesForget();
    available(when, 0);
    available(when, 1);
    mc_quiet(0);
}

void mc_main(void)
{
    int i, dep, depth = mc_arg("depth", 5), sizes = mc_arg("sizes", 5), pre = mc_arg("pre", 2), own = mc_arg("own", 1);
    int room = POOL_USABLE;
    { GGC_PUSH_9(d, o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]); GGC_GLOBALIZE(); }
    Rn = NO;
    for (i = 0; i < NO; i++) { Rroot[i] = (void **) &o[i]; Mroot[i] = -1; }
    rawInit();
    /* descriptors of these sizes */
    if (pre) {
        for (i = 0; i < sizes; i++) if (small[i] <= RAWMAX) rawDesc[small[i]] = (W) ggggc_allocateDescriptor(small[i], 0);
        if (pre > 1) ggggc_collect0(0);
    }
    /* how many more pools there are */
    i = mc_choose(mc_arg("limits", 3), "further pools");
    refusedAt = mc_pools() + i;
    mc_alloc_limit(refusedAt);
    mc_expect_abort(1);
    mc_on_abort(outOfMemory);
    for (dep = 0; dep < depth; dep++) {
        int op = mc_choose(5, "operation"), s, fresh;
        char b[60];
        switch (op) {
        case 0: /* a small one */
            s = small[mc_choose(sizes, "size")];
            fresh = own ? mc_choose(2, "own descriptor") : 0;
            if (!newObj(s, fresh)) mc_prune();
            snprintf(b, sizeof b, "after allocating %d words%s", s, fresh ? " with a descriptor" : "");
            break;
        case 1: /* one that depends on what is free: the size of a chunk, or a little less */
            if (!mc_arg("chunks", 1)) mc_prune();
            {
                W z = 0;
                int which = mc_choose(3, "chunk"), less = mc_choose(6, "less by"), k = 0;
                tiles(ggggc_gen0, "before");
                for (i = 0; i < ntile; i++) if (tile[i].free && k++ == which) { z = tile[i].n; break; }
                tilesForget();
                if (z < 3 + (W) less || z - less >= MAXWORDS) mc_prune();
                s = (int) z - less;
                if (!newObj(s, 0)) mc_prune();
                snprintf(b, sizeof b, "after allocating %d words, %d less than a chunk", s, less);
                mc_cover(less == 0 ? "exact" : less < 4 ? "too small to split" : "split");
            }
            break;
        case 2: /* a big one */
            s = mc_choose(2, "size") ? room * 2 / 3 : room / 2 - 2;
            if (s >= MAXWORDS || !newObj(s, 1)) mc_prune();
            snprintf(b, sizeof b, "after allocating %d words", s);
            break;
        case 3: /* drop */
            {
                int which = mc_choose(NO, "object");
                if (!o[which]) mc_prune();
                o[which] = NULL; at[which] = NULL; Mroot[which] = -1;
                mGC();
                continue; /* nothing has changed in the heap */
            }
        default:
            {
                int before = mc_pools();
                ggggc_collect0(0);
                tiles(ggggc_gen0, "after a collection");
                tilesMerged("after a collection");
                tilesForget();
                snprintf(b, sizeof b, "after a collection");
                if (mc_pools() > before) mc_cover("expanded");
            }
        }
        check(b);
    }
    mc_done();
}
