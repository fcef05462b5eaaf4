/* The portable collector's heaps: objects and free chunks, end to end. */
#ifndef TILE_H
#define TILE_H
#define FAST __attribute__((no_sanitize("thread")))
struct Tile { W *p; W n; int free; };
static MCG struct Tile tile[1200];
static MCG int ntile;

/* every object and free chunk of these pools; fails unless they fit exactly */
static FAST void tiles(struct GGGGC_Pool *p, const char *when)
{
    ntile = 0;
    for (; p; p = p->next) {
        W *c = p->start;
        while (c < p->end) {
            W n;
            int fr = c[0] == 0;
            mc_assert(ntile < 1200, "harness: too many tiles");
            if (fr) n = c[1];
            else {
                struct GGGGC_Descriptor *d = ((struct GGGGC_Header *) c)->descriptor__ptr;
                mc_assert(((W) d & (sizeof(W) - 1)) == 0 && mc_mem_valid(d, 4 * sizeof(W)), "%s: what is at word %ld of a pool is neither an object nor free", when, (long) (c - p->start));
                n = d->size;
            }
            mc_assert(n >= GGGGC_MINIMUM_OBJECT_SIZE && n <= (W) (p->end - c), "%s: %s of %ld words at word %ld of a pool with %ld left", when, fr ? "a free chunk" : "an object", (long) n, (long) (c - p->start), (long) (p->end - c));
            tile[ntile].p = c; tile[ntile].n = n; tile[ntile].free = fr; ntile++;
            c += n;
        }
    }
}
static FAST int tileAt(void *p)
{
    int i;
    for (i = 0; i < ntile; i++) if (tile[i].p == (W *) p) return i;
    return -1;
}
static FAST void tilesMerged(const char *when)
{
    int i;
    for (i = 1; i < ntile; i++)
        mc_assert(!(tile[i].free && tile[i - 1].free && tile[i - 1].p + tile[i - 1].n == tile[i].p), "%s: adjacent free chunks of %ld and %ld words", when, (long) tile[i - 1].n, (long) tile[i].n);
}
static void tilesForget(void) { memset((void *) tile, 0, sizeof tile); ntile = 0; }
#endif
