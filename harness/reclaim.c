/* C04: bounded live data needs bounded memory.
 *
 * Every combination of a live set (size and shape), how much of it is
 * replaced per round, and how the program collects, run for many rounds:
 * memory must stay within a bound that does not depend on the rounds, and
 * with no further memory available from the start (where the live set fits)
 * nothing may fail. After it, a full collection leaves exactly what is
 * reachable. */
#define MAXM 4
#include "common.h"

#define L 64
static NodeArray live;
static Node head;
static GGC_size_t_Array big;

static Node cell(W id, Node a, Node b)
{
    Node n = NULL;
    GGC_PUSH_3(n, a, b);
    n = GGC_NEW(Node);
    GGC_WD(n, id, id);
    GGC_WP(n, a, a);
    GGC_WP(n, b, b);
    return n;
}

static void bounded(void)
{
    static const int sizes[] = { 0, 4, 16, 32, 64 };
    int n = sizes[mc_choose(5, "live cells")], shape = mc_choose(4, "shape"), turn = mc_choose(4, "replaced");
    int how = mc_choose(4, "collections"), refuse = mc_choose(3, "refuse memory"), garbage = mc_choose(3, "garbage");
    int rounds = mc_arg("rounds", 60), r, i, bound, words;
    { GGC_PUSH_3(live, head, big); GGC_GLOBALIZE(); }
    live = GGC_NEW_PA(Node, L);
    GGC_COLLECT();
    words = n * (NODE_WORDS + (shape == 2 ? NODE_WORDS : 0) + (shape == 3 ? 8 + (int) HW : 0)) + L + 60
        + (how == 3 ? 5 : 1) * (3 << garbage) * NODE_WORDS + (garbage == 2 ? 80 : 0);
    bound = (MAXGEN + 1) * (3 + 4 * words / (int) POOL_USABLE);
    if (refuse == 2) {
        /* first the heap grows, and all of it becomes free again */
        for (i = 0; i < 12; i++) {
            GGC_size_t_Array x = GGC_NEW_DA(size_t, (int) POOL_USABLE / 6);
            Node y = (Node) x;
            GGC_WAP(live, i, y);
        }
        GGC_COLLECT(); GGC_COLLECT();
        for (i = 0; i < L; i++) { Node nul = NULL; GGC_WAP(live, i, nul); }
        GGC_COLLECT();
        if (words > (mc_pools() / (MAXGEN + 1)) * (int) POOL_USABLE * mc_arg("percent", 100) / 100) mc_prune();
        mc_alloc_limit(mc_pools());
        bound = mc_pools();
    }
    if (refuse == 1) {
        if (words > (int) POOL_USABLE * mc_arg("percent", 100) / 100) mc_prune();
        /* one pool per generation, and no more */
        mc_alloc_limit(mc_pools() > MAXGEN + 1 ? mc_pools() : MAXGEN + 1);
    }
    for (r = 0; r < rounds; r++) {
        int from = turn == 0 ? 0 : turn == 1 ? (r * 3) % (n + 1) : 0;
        int to = turn == 0 ? n : turn == 1 ? from + 2 : turn == 2 ? n / 2 : r < 2 ? n : 0;
        for (i = from; i < to && i < n; i++) {
            Node c = NULL, d = NULL;
            GGC_PUSH_2(c, d);
            switch (shape) {
            case 0: c = cell(r, NULL, NULL); break;             /* single cells */
            case 1: c = i ? GGC_RAP(live, i - 1) : NULL; c = cell(r, c, NULL); break; /* chains of older cells */
            case 2: c = cell(r, NULL, NULL); d = cell(r, c, c); GGC_WP(c, a, d); break; /* cycles */
            case 3: { /* cells with a descriptor and a data array of their own */
                GGC_size_t_Array x = GGC_NEW_DA(size_t, 2);
                c = (Node) x; c = cell(r, c, NULL);
                break; }
            }
            /* the chains must not grow without end */
            if (shape == 1 && c && (i == 0 || i % 5 == 0)) { Node nul = NULL; GGC_WP(c, a, nul); }
            GGC_WAP(live, i, c);
        }
        for (i = 0; i < 3 << garbage; i++) head = cell(r, head, NULL);
        if (garbage == 2) big = GGC_NEW_DA(size_t, 30 + r % 40);
        if (how != 3 || r % 5 == 0) head = NULL;
        big = NULL;
        if (how == 1 && r % 7 == 0) ggggc_collect0(0);
        if (how == 2 && r % 11 == 0) GGC_COLLECT();
        mc_assert(mc_pools() <= bound, "round %d: %d pools are in use for %d words of live data (at most %d should be)", r, mc_pools(), words, bound);
    }
    head = NULL;
    GGC_COLLECT();
    checkReclaimed("at the end");
    for (i = 0; i < L; i++) { Node nul = NULL; GGC_WAP(live, i, nul); }
    GGC_COLLECT();
    checkReclaimed("with everything dropped");
    mc_cover(refuse ? "ran with memory refused" : "ran");
}

/* all memory that was once obtained can be used again */
static void capacity(void)
{
    int grow = mc_choose(5, "grow"), rounds = mc_choose(3, "rounds"), dropped = mc_choose(3, "dropped by"), kind = mc_choose(3, "cells"), i, k;
    int pct = mc_arg("percent", 80);
    long room, used = 0;
    { GGC_PUSH_3(live, head, big); GGC_GLOBALIZE(); }
    GGC_COLLECT();
    for (k = 0; k <= rounds; k++) {
        /* live data spread over the generations */
        for (i = 0; i < grow * (int) POOL_USABLE * 2 / 3 / NODE_WORDS; i++) {
            head = cell(i, head, NULL);
            if (i % 40 == 39 && k == 1) ggggc_collect0((unsigned char) (i / 40 % (MAXGEN + 1)));
        }
        if (k < 2) GGC_COLLECT();
        head = NULL;
    }
    if (dropped == 0) GGC_COLLECT();
    else if (dropped == 1) { GGC_COLLECT(); head = cell(0, NULL, NULL); ggggc_collect0(0); head = NULL; GGC_COLLECT(); }
    else { for (i = 0; i <= MAXGEN; i++) ggggc_collect0((unsigned char) (MAXGEN - i)); GGC_COLLECT(); }
    checkReclaimed("after dropping everything");
    mc_alloc_limit(mc_pools());
    room = (long) mc_pools() * (long) POOL_USABLE * pct / 100 - usedWords() - 20;
    for (i = 0; used < room; i++) {
        if (kind == 2 && i % 3 == 0) {
            GGC_size_t_Array x = GGC_NEW_DA(size_t, 1 + i % 6);
            head = cell(i, head, (Node) x);
            used += DESC_WORDS_DA + DA_OVER + 1 + i % 6;
        } else head = cell(i, head, kind ? head : NULL);
        used += NODE_WORDS;
    }
    {
        Node n = head;
        while (i--) {
            mc_assert(n && GGC_RD(n, id) == (W) i, "cell %d lost", i);
            n = GGC_RP(n, a);
        }
        mc_assert(!n, "too many cells");
    }
    GGC_COLLECT();
    checkReclaimed("when full");
    mc_cover("filled again");
}

void mc_main(void)
{
    if (mc_arg("mode", 0)) capacity(); else bounded();
}
