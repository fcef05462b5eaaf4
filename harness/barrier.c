/* C14: the generic barrier, directly.
 * mode 0: n threads meet r times at one barrier.
 * mode 1: between rounds, whoever chose to destroys the barrier and makes it
 *         anew for another number of threads, holding a lock as the library does. */
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include "ggggc/gc.h"
#include "ggggc-internals.h"
#include "mc.h"

#define MAXT 6
static MCG int N, R;
static MCG int arrived[16];     /* arrivals per round */
static MCG int need[16];        /* how many the round is for */
static MCG int plan[16];        /* mode 1: who changes the barrier after this round */
static MCG int leaves[16];      /* mode 1: ... and leaves it */
static MCG int left[16];
static ggc_barrier_t bar;
static pthread_mutex_t world = PTHREAD_MUTEX_INITIALIZER;
static int ready[16];

static void meet(int me, int r)
{
    mc_quiet(1); arrived[r]++; mc_quiet(0);
    mc_assert(ggc_barrier_wait_raw(&bar) == 0, "round %d: the wait failed", r);
    mc_assert(arrived[r] == need[r], "thread %d passed round %d when %d of %d threads had arrived", me, r, arrived[r], need[r]);
    left[r]++;
}

static void *rounds(void *a)
{
    int me = (int) (size_t) a, r;
    for (r = 0; r < R; r++) {
        meet(me, r);
    }
    return NULL;
}

/* after round r, plan[r] destroys and remakes; the others wait for that (as
 * the library's threads do, with the lock it holds) before they meet again */
static void *changing(void *a)
{
    int me = (int) (size_t) a, r;
    for (r = 0; r < R; r++) {
        if (r > 0 && plan[r - 1] != me) {
            for (;;) {
                int ok;
                while (pthread_mutex_trylock(&world)) sched_yield();
                ok = ready[r];
                pthread_mutex_unlock(&world);
                if (ok) break;
                sched_yield();
            }
        }
        meet(me, r);
        if (plan[r] == me) {
            while (pthread_mutex_trylock(&world)) sched_yield();
            mc_assert(ggc_barrier_destroy(&bar) == 0, "the barrier could not be destroyed");
            mc_assert(ggc_barrier_init(&bar, need[r + 1]) == 0, "the barrier could not be made again");
            ready[r + 1] = 1;
            pthread_mutex_unlock(&world);
            mc_cover("made again");
            if (leaves[r]) return NULL;
        }
    }
    return NULL;
}

void mc_main(void)
{
    pthread_t t[MAXT];
    int i, r, mode = mc_arg("mode", 0), n;
    N = mc_arg("n", 2); R = mc_arg("rounds", 2);
    n = N;
    for (r = 0; r < R; r++) {
        need[r] = n;
        if (mode == 1) {
            /* the changer is one that is still there; thread N-1 down to n have left */
            plan[r] = r == R - 1 ? -1 : mc_choose(n, "who makes it again");
            if (plan[r] == n - 1 && n > 1 && mc_choose(2, "and leaves")) { leaves[r] = 1; n--; }
        }
    }
    mc_assert(ggc_barrier_init(&bar, need[0]) == 0, "the barrier could not be made");
    for (i = 1; i < N; i++) pthread_create(&t[i], NULL, mode ? changing : rounds, (void *) (size_t) i);
    (mode ? changing : rounds)(NULL);
    for (i = 1; i < N; i++) pthread_join(t[i], NULL);
    for (r = 0; r < R; r++) mc_assert(left[r] == need[r], "round %d: %d of %d left", r, left[r], need[r]);
    mc_assert(ggc_barrier_destroy(&bar) == 0, "the barrier could not be destroyed");
    mc_cover("all rounds");
    mc_done();
}
