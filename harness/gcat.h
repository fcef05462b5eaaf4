/* Collect at a chosen allocation: link with wraps=GCAT (see runs.py). */
#ifndef GCAT_H
#define GCAT_H
#include "common.h"
#ifdef __cplusplus
extern "C" {
#endif
static MCG int gcatLeft;  /* collect when this many allocations have been made; 0: off; -1: at every one */
static MCG int gcatGen;

static void gcatHit(struct GGGGC_Descriptor **d)
{
    if (gcatLeft == 0) return;
    if (gcatLeft > 0 && --gcatLeft) return;
    {
        GGC_PUSH_1(*d);
        collectGen(gcatGen);
        GGC_POP();
    }
}

void *__real_ggggc_malloc(struct GGGGC_Descriptor *d);
void *__real_ggggc_mallocRaw(struct GGGGC_Descriptor **d, ggc_size_t size);
void *__wrap_ggggc_malloc(struct GGGGC_Descriptor *d)
{
    gcatHit(&d);
    return __real_ggggc_malloc(d);
}
void *__wrap_ggggc_mallocRaw(struct GGGGC_Descriptor **d, ggc_size_t size)
{
    gcatHit(d);
    return __real_ggggc_mallocRaw(d, size);
}

/* choose where the following operation's allocations collect; max: up to which one */
static void gcatChoose(int max)
{
    int a = mc_choose(max + 2, "collect at allocation");
    gcatLeft = 0; gcatGen = 0;
    if (a == 0) return;
    gcatGen = mc_choose(MAXGEN + 2, "generation");
    gcatLeft = a == max + 1 ? -1 : a;
}
static void gcatOff(void) { gcatLeft = 0; gcatGen = 0; }
#ifdef __cplusplus
}
#endif
#endif
