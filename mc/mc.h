/* cmc: explicit-state model checking of the compiled implementation.
 *
 * A harness defines mc_main(). The engine runs it (and every thread that it
 * or the library creates) on fibers, owns all of the program's memory, and
 * enumerates every combination of mc_choose() results and, when more than one
 * fiber can run, every schedule, pruning on already visited program states. */
#ifndef MC_H
#define MC_H 1
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

/* harness model data: part of the state, but not of the program under test
 * (no memory monitoring, no scheduling points). */
#define MCG __attribute__((section("mc_harness")))

void mc_main(void);                       /* the harness */

int mc_choose(int n, const char *label);  /* enumerated: 0..n-1 */
void mc_point(const char *label);         /* extra scheduling point */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define mc_assert(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
void mc_done(void) __attribute__((noreturn));   /* end this execution here (it counts as complete) */
void mc_prune(void) __attribute__((noreturn));  /* this execution is outside the bounds: drop it */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* shown in replays */
void mc_outcome(uint64_t h);              /* counted distinct */
void mc_cover(const char *what);          /* named situation reached (non-vacuity) */

/* if (mc_probe_begin()) { ...; mc_probe_end(); }: run something, then roll the
 * whole program back to the state before. No mc_choose() inside. */
int mc_probe_begin(void);
void mc_probe_end(void) __attribute__((noreturn));

void mc_expect_abort(int on);             /* abort() ends the execution as complete */
void mc_on_abort(void (*f)(void));        /* abort() calls this first */
int mc_arg(const char *name, int dflt);   /* run parameter NAME=INT */
int mc_replaying(void);
void mc_fail_creates(int on);             /* pthread_create may fail (a choice) */
void mc_block_error(int err);             /* the next blocking pthread call reports this error */
void mc_fail_allocs(int on);              /* pool allocations may fail (a choice) */
void mc_alloc_limit(int pools);           /* more pools than this: allocation fails */
int mc_pools(void);                       /* pools handed out so far */
int mc_self(void);                        /* current fiber */
void mc_quiet(int on);                    /* no scheduling points while on */
long mc_accesses(void);                   /* instrumented accesses in this execution step */
int mc_mem_valid(const void *p, size_t n);/* is it inside one live block? */

#ifdef __cplusplus
}
#endif
#endif
