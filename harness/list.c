/* C15: every history of list operations, with a collection at any allocation,
 * against plain sequences. */
#include "gcat.h"
#include "ggggc/collections/list.h"
#ifdef __cplusplus
extern "C" {
#endif

GGC_LIST(Node)
#ifdef GENERIC
typedef GGC_List TheList;
typedef GGC_ListNode TheNode;
#define LNEW() GGC_NEW(GGC_List)
#define LPush(l, v) GGC_ListPush(l, (void *) (v))
#define LPushList GGC_ListPushList
#define LUnshift(l, v) GGC_ListUnshift(l, (void *) (v))
#define LUnshiftList GGC_ListUnshiftList
#define LShift(l) ((Node) GGC_ListShift(l))
#define LInsertAfter(l, a, v) GGC_ListInsertAfter(l, a, (void *) (v))
#define LInsertAfterList GGC_ListInsertAfterList
#define LToArray(l) ((NodeArray) GGC_ListToArray(l))
#else
typedef NodeList TheList;
typedef NodeListNode TheNode;
#define LNEW() GGC_NEW(NodeList)
#define LPush NodeListPush
#define LPushList NodeListPushList
#define LUnshift NodeListUnshift
#define LUnshiftList NodeListUnshiftList
#define LShift NodeListShift
#define LInsertAfter NodeListInsertAfter
#define LInsertAfterList NodeListInsertAfterList
#define LToArray NodeListToArray
#endif

#define MAXL 3
#define MAXN 24
static MCG int NLs;
static MCG W S[MAXL][MAXN];   /* the sequences of element ids; 0: NULL */
static MCG int Sn[MAXL];

static void mIns(int l, int pos, W v)
{
    int k;
    mc_assert(Sn[l] < MAXN, "harness: sequence full");
    for (k = Sn[l]++; k > pos; k--) S[l][k] = S[l][k - 1];
    S[l][pos] = v;
}
/* move all of `from` to position pos of `to` */
static void mJoin(int to, int pos, int from)
{
    int k;
    for (k = 0; k < Sn[from]; k++) mIns(to, pos + k, S[from][k]);
    for (k = 0; k < MAXN; k++) S[from][k] = 0;
    Sn[from] = 0;
}
static void checkEl(Node n, W id, const char *when, const char *what, int k)
{
    if (id == 0) { mc_assert(n == NULL, "%s: %s %d should be NULL", when, what, k); return; }
    mc_assert(n && ((W) n & 7) == 0 && mc_mem_valid(n, NODE_WORDS * sizeof(W)), "%s: %s %d is no object (%p)", when, what, k, (void *) n);
    mc_assert(((struct GGGGC_Header *) n)->descriptor__ptr && GGC_RD(n, id) == id && GGC_RD(n, mid) == (W) ~id, "%s: %s %d is #%ld, should be #%ld", when, what, k, (long) GGC_RD(n, id), (long) id);
}
static TheList *Lv[MAXL];
static Node *Ev;   /* an element that is always kept */
static MCG W Eid;

static void check(const char *when)
{
    int l, k;
    for (l = 0; l < NLs; l++) {
        TheList li = *Lv[l];
        TheNode n;
        mc_assert(((W) li & 7) == 0 && mc_mem_valid((void *) li, 5 * sizeof(W)), "%s: list %d lost", when, l);
        mc_assert(GGC_RD(li, length) == (W) Sn[l], "%s: list %d has length %ld, should be %d", when, l, (long) GGC_RD(li, length), Sn[l]);
        n = GGC_RP(li, head);
        for (k = 0; k < Sn[l]; k++) {
            mc_assert(n, "%s: list %d ends after %d of %d elements", when, l, k, Sn[l]);
            mc_assert(((W) n & 7) == 0 && mc_mem_valid((void *) n, 3 * sizeof(W)), "%s: list %d: node %d is no object", when, l, k);
            checkEl((Node) GGC_RP(n, el), S[l][k], when, "element", k);
            n = GGC_RP(n, next);
        }
        mc_assert(n == NULL, "%s: list %d goes on after its %d elements", when, l, Sn[l]);
    }
    checkEl(*Ev, Eid, when, "kept element", 0);
}

static void probes(const char *when)
{
    int g;
    char b[90];
    check(when);
    for (g = 0; g <= MAXGEN + 1; g++) if (mc_probe_begin()) {
        snprintf(b, sizeof b, "%s, then collection of generation %d", when, g);
        collectGen(g);
        check(b);
        churn(POOL_USABLE + 20);
        snprintf(b, sizeof b, "%s, then collection of generation %d and reuse of memory", when, g);
        check(b);
        mc_probe_end();
    }
    /* what the next push sees */
    if (mc_probe_begin()) {
        int l;
        snprintf(b, sizeof b, "%s, then a push to each", when);
        for (l = 0; l < NLs; l++) {
            TheList li = *Lv[l];
            Node e = *Ev;
            GGC_PUSH_2(li, e);
            LPush(li, e);
            mIns(l, Sn[l], Eid);
            GGC_POP();
            check(b);
        }
        mc_probe_end();
    }
}

static void run(int depth)
{
    TheList l0 = NULL, l1 = NULL, l2 = NULL, x = NULL, y = NULL;
    TheNode at = NULL;
    NodeArray arr = NULL;
    Node el = NULL, e0 = NULL;
    int d, k, i, j, p, els = mc_arg("els", 2), gens;
    GGC_PUSH_9(l0, l1, l2, x, y, at, arr, el, e0);
    Lv[0] = &l0; Lv[1] = &l1; Lv[2] = &l2; Ev = &e0;
    el = newNode(); el = NULL;   /* so that what follows has to move */
    l0 = LNEW(); l1 = LNEW(); l2 = LNEW();
    e0 = newNode(); Eid = nextId;
    gens = mc_arg("gens", MAXGEN + 2);
    if (mc_arg("old", 1) && mc_choose(2, "old lists")) GGC_COLLECT();
    for (d = 0; d < depth; d++) {
        int op = mc_choose(9, "op");
        W id = 0;
        gcatOff();
        i = mc_choose(NLs, "list");
        if (op == 0 || op == 1 || op == 3) {
            switch (mc_choose(els, "element")) {
                case 0: el = newNode(); id = nextId; break;
                case 1: el = e0; id = Eid; break;
                case 2: el = NULL; id = 0; break;
            }
        }
        if (op == 3 || op == 6) {
            if (Sn[i] == 0) mc_prune();
            p = mc_choose(Sn[i], "after");
            x = *Lv[i];
            at = GGC_RP(x, head);
            for (k = 0; k < p; k++) at = GGC_RP(at, next);
        } else p = 0;
        j = 0;
        if (op >= 4 && op <= 6) {
            j = mc_choose(NLs - 1, "other list");
            if (j >= i) j++;
            y = *Lv[j];
        }
        if (op == 0 || op == 1 || op == 3 || op == 7) {
            int g = mc_choose(gens + 1, "collect at its allocations");
            if (g) { gcatLeft = -1; gcatGen = g - 1; mc_cover("collected in an operation"); }
        }
        x = *Lv[i];
        switch (op) {
        case 0: LPush(x, el); mIns(i, Sn[i], id); mc_note("push(%d, #%ld)", i, (long) id); break;
        case 1: LUnshift(x, el); mIns(i, 0, id); mc_note("unshift(%d, #%ld)", i, (long) id); break;
        case 2:
            mc_note("shift(%d)", i);
            el = LShift(x);
            if (Sn[i]) {
                checkEl(el, S[i][0], "the operation", "shifted element", 0);
                for (k = 1; k < Sn[i]; k++) S[i][k - 1] = S[i][k];
                S[i][--Sn[i]] = 0;
            } else { mc_assert(el == NULL, "shifting an empty list gave %p", (void *) el); mc_cover("shifted an empty list"); }
            break;
        case 3: LInsertAfter(x, at, el); mIns(i, p + 1, id); mc_note("insertAfter(%d, %d, #%ld)", i, p, (long) id); break;
        case 4: mc_note("pushList(%d, %d)", i, j); LPushList(x, y); mJoin(i, Sn[i], j); break;
        case 5: mc_note("unshiftList(%d, %d)", i, j); LUnshiftList(x, y); mJoin(i, 0, j); break;
        case 6: mc_note("insertAfterList(%d, %d, %d)", i, p, j); LInsertAfterList(x, at, y); mJoin(i, p + 1, j); break;
        case 7:
            mc_note("toArray(%d)", i);
            arr = LToArray(x);
            mc_assert(arr && mc_mem_valid((void *) arr, (HW + 1 + Sn[i]) * sizeof(W)) && arr->length == (W) Sn[i], "the array has length %ld, should be %d", arr ? (long) arr->length : -1L, Sn[i]);
            for (k = 0; k < Sn[i]; k++) checkEl(GGC_RAP(arr, k), S[i][k], "conversion to an array", "element", k);
            break;
        case 8: {
            int g;
            if (i) mc_prune();
            g = mc_choose(MAXGEN + 2, "generation");
            mc_note("collect %d", g);
            collectGen(g);
            break;
        }
        }
        gcatOff();
        el = NULL; x = y = NULL; at = NULL; arr = NULL;
        probes("after the operation");
    }
    GGC_POP();
}

void mc_main(void)
{
    NLs = mc_arg("lists", 2);
    run(mc_arg("depth", 3));
}
#ifdef __cplusplus
}
#endif
