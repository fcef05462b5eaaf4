/* C01: every sequence of heap operations (allocate, link, unlink, copy roots,
 * collect any generation) up to a depth; after each one the reachable graph
 * must be exactly the reference model's, also after any following collection
 * and reuse of memory. */
#include "common.h"

#define NR 3
static void run(int depth, int mode)
{
    Node r0 = NULL, r1 = NULL, r2 = NULL;
    NodeArray pa = NULL;
    int d, i, j;
    GGC_PUSH_4(r0, r1, r2, pa);
    Node *r[NR] = { &r0, &r1, &r2 };
    Rn = 4;
    for (i = 0; i < NR; i++) { Rroot[i] = (void **) r[i]; Mroot[i] = -1; }
    Rroot[3] = (void **) &pa; Mroot[3] = -1;

    for (d = 0; d < depth; d++) {
        /* the alphabet */
        int nops = mode == 0 ? 6 : mode == 1 ? 7 : 5;
        int op = mc_choose(nops, "op");
        switch (op) {
        case 0: /* r[i] = new */
            i = mc_choose(NR, "into");
            *r[i] = newNode();
            Mroot[i] = mNode(nextId);
            mc_note("r%d = new #%ld", i, (long) nextId);
            break;
        case 1: { /* r[i]->a/b = r[j] */
            int b = mc_choose(2, "member");
            Node x, y;
            i = mc_choose(NR, "object"); j = mc_choose(NR + 1, "value");
            if (Mroot[i] < 0 || (j < NR && Mroot[j] < 0)) mc_prune();
            x = *r[i]; y = j < NR ? *r[j] : NULL;
            if (b) { GGC_WP(x, b, y); } else { GGC_WP(x, a, y); }
            M[Mroot[i]].ptr[b ? NODE_B : NODE_A] = j < NR ? Mroot[j] : -1;
            mc_note("r%d->%s = %s%d", i, b ? "b" : "a", j < NR ? "r" : "NULL", j);
            break;
        }
        case 2: { /* collect */
            int g = mc_choose(MAXGEN + 2, "generation");
            collectGen(g);
            mc_note("collect %d", g);
            mc_cover("collected");
            break;
        }
        case 3: { /* r[i] = r[j]->a/b, or NULL */
            i = mc_choose(NR, "into"); j = mc_choose(NR + 1, "from");
            if (j < NR) {
                int b = mc_choose(2, "member");
                Node y = *r[j];
                if (Mroot[j] < 0) mc_prune();
                *r[i] = b ? GGC_RP(y, b) : GGC_RP(y, a);
                Mroot[i] = M[Mroot[j]].ptr[b ? NODE_B : NODE_A];
                mc_note("r%d = r%d->%s", i, j, b ? "b" : "a");
            } else {
                if (Mroot[i] < 0) mc_prune();
                *r[i] = NULL; Mroot[i] = -1;
                mc_note("r%d = NULL", i);
            }
            break;
        }
        case 4: { /* allocate with the pool nearly full, so that it collects midway */
            static const int lefts[] = { 0, 4, 5, 8, 9 };
            int l = mc_choose(5, "words left");
            i = mc_choose(NR, "into");
            fillTo(lefts[l]);
            *r[i] = newNode();
            Mroot[i] = mNode(nextId);
            mc_note("r%d = new #%ld with %d words left", i, (long) nextId, lefts[l]);
            break;
        }
        case 5: { /* replace the array, or store into it */
            int w = mc_choose(3, "array op");
            if (w == 0) {
                pa = GGC_NEW_PA(Node, 2);
                checkFresh(pa, HW + 3, 1, "GGC_NEW_PA");
                mc_assert(pa->length == 2, "wrong array length");
                i = mNew(HW + 3); M[i].data[HW] = 2; M[i].ptr[HW + 1] = M[i].ptr[HW + 2] = -1; Mroot[3] = i;
                mc_note("pa = new array of 2");
            } else {
                Node y;
                i = mc_choose(NR, "value");
                if (Mroot[3] < 0 || Mroot[i] < 0) mc_prune();
                y = *r[i];
                GGC_WAP(pa, w - 1, y);
                M[Mroot[3]].ptr[HW + w] = Mroot[i];
                mc_note("pa[%d] = r%d", w - 1, i);
            }
            break;
        }
        }
        mGC();
        verify("after the operation");
        if (mc_arg("reclaim", 0)) {
            if (mc_probe_begin()) {
                GGC_COLLECT();
                checkReclaimed("GGC_COLLECT after the operation");
                mc_cover("reclaimed");
                mc_probe_end();
            }
        } else probeAll("after the operation");
    }
    mc_outcome(Mn * 100 + Mroot[0] * 17 + Mroot[1] * 5 + Mroot[2]);
}

void mc_main(void)
{
    if (mc_arg("settle", 1)) GGC_COLLECT();
    run(mc_arg("depth", 3), mc_arg("mode", 0));
}
