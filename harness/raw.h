/* objects of any size: word HW is a link, the others are data */
#ifndef RAW_H
#define RAW_H
#include "common.h"
#define RAWMAX 12
static W rawDesc[RAWMAX + 1]; /* cached descriptors by size (roots) */

static void rawInit(void)
{
    static int done;
    if (done) return;
    done = 1;
    GGC_PUSH_12(rawDesc[1], rawDesc[2], rawDesc[3], rawDesc[4], rawDesc[5], rawDesc[6], rawDesc[7], rawDesc[8], rawDesc[9], rawDesc[10], rawDesc[11], rawDesc[12]);
    GGC_GLOBALIZE();
}

/* fresh: with a descriptor of its own */
static Raw newRaw(int size, int fresh, int *mi)
{
    struct GGGGC_Descriptor *d;
    W mask = size > (int) HW ? (W) 1 << HW : 0;
    Raw r;
    int k, m;
    rawInit();
    if (fresh) d = ggggc_allocateDescriptor(size, mask);
    else {
        if (!rawDesc[size]) { d = ggggc_allocateDescriptor(size, mask); rawDesc[size] = (W) d; }
        d = (struct GGGGC_Descriptor *) rawDesc[size];
    }
    r = (Raw) GGC_NEW_FROM_DESCRIPTOR(d);
    checkFresh(r, size, 0, "GGC_NEW_FROM_DESCRIPTOR");
    nextId++;
    m = mNew(size < GGGGC_MINIMUM_OBJECT_SIZE ? GGGGC_MINIMUM_OBJECT_SIZE : size);
    if (size > (int) HW) M[m].ptr[HW] = -1;
    for (k = HW + 1; k < size; k++) { ((W *) r)[k] = nextId * 0x10001 + k; M[m].data[k] = nextId * 0x10001 + k; }
    if (!fresh) M[m].exact = &rawDesc[size];
    *mi = m;
    return r;
}

static void rawLink(Raw r, int mi, Raw to, int mt)
{
    GGC_WAP(r, 0, to);
    M[mi].ptr[HW] = mt;
}

/* fill the current pool exactly, with an object that has a descriptor of its own */
static Raw fillExactly(int *mi)
{
    W avail;
    Raw r = NULL;
    *mi = -1;
#ifdef GGGGC_COLLECTOR_GEMBC
    if (!ggggc_pool0) return NULL;
    avail = ggggc_pool0->end - ggggc_pool0->free;
    if (avail < DESC_WORDS_DA + GGGGC_MINIMUM_OBJECT_SIZE) return NULL;
    r = (Raw) GGC_NEW_FROM_DESCRIPTOR(ggggc_allocateDescriptorDA(avail - DESC_WORDS_DA));
    mc_assert(ggggc_pool0->end == ggggc_pool0->free, "harness: the pool is not exactly full");
#else
    (void) avail;
#endif
    return r;
}
#endif
