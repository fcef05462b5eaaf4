/* C19: the C++ front end: smart pointers, array wrappers and members.
 *
 * Sequences of operations written with the C++ classes only; the reference
 * model, and everything checked, is that of the C harnesses.
 * mode 0: smart pointers and members; mode 1: arrays; mode 2: scopes. */
#include "common.h"

typedef GGC<Node> P;
typedef GGCPA<Node, NodeArray> PA;
typedef GGCDA<size_t, GGC_size_t_Array> DA;

/* more members, of all kinds */
struct pair { int a; short b; };
GGC_TYPE(Rich)
    GGC_MDATA(char, c);
    GGC_MPTR(Rich, next);
    GGC_MDATA(double, d);
    GGC_MPTR(Node, node);
    GGC_MPTR(NodeArray, nodes);
    GGC_MDATA(int, i);
    GGC_MDATA(short, s);
GGC_END_TYPE(Rich,
    GGC_PTR(Rich, next)
    GGC_PTR(Rich, node)
    GGC_PTR(Rich, nodes)
    )

static MCG int depthNow;

static int addRoot(void *at, int m)
{
    mc_assert(Rn < MAXROOT, "harness: too many roots");
    Rroot[Rn] = (void **) at; Mroot[Rn] = m;
    return Rn++;
}
static void dropRoots(int n)
{
    int i;
    for (i = n; i < Rn; i++) { Rroot[i] = NULL; Mroot[i] = -1; }
    Rn = n;
}

static Node fresh(int *m)
{
    Node n = newNode();
    *m = mNode(nextId);
    return n;
}

/* what the operators say must agree with the model */
static void questions(P *v, int n, const char *when)
{
    int i, j;
    for (i = 0; i < n; i++) {
        const P &c = v[i];
        bool set = Mroot[i] >= 0;
        mc_assert((bool) v[i] == set && !v[i] == !set, "%s: pointer %d says it is %s", when, i, set ? "null" : "not null");
        mc_assert(c.get() == v[i].ptr, "%s: get", when);
        for (j = 0; j < n; j++) {
            bool eq = Mroot[i] == Mroot[j];
            mc_assert((v[i] == v[j]) == eq && (c == v[j].get()) == eq, "%s: pointers %d and %d say they are %sequal", when, i, j, eq ? "un" : "");
        }
        if (set) {
            W id = v[i]->id, mid = c->mid;
            Node a = v[i]->a;
            mc_assert(id == M[Mroot[i]].data[NODE_ID] && mid == M[Mroot[i]].data[NODE_MID], "%s: pointer %d: data members read wrongly", when, i);
            mc_assert(!!a == (M[Mroot[i]].ptr[NODE_A] >= 0), "%s: pointer %d: member read wrongly", when, i);
        }
    }
}

static void after(P *v, int n, const char *what)
{
    mGC();
    verify(what);
    questions(v, n, what);
    probeAll(what);
}

static void smart(void)
{
    int d, depth = mc_arg("depth", 4), i, j, m;
    struct GGGGC_PointerStack *base = ggggc_pointerStack;
    {
        P v[3];
        for (i = 0; i < 3; i++) addRoot(&v[i].ptr, -1);
        for (d = 0; d < depth; d++) {
            int op = mc_choose(9, "operation"), k;
            char b[64];
            switch (op) {
            case 0: /* assign a new object */
                i = mc_choose(3, "into");
                v[i] = fresh(&m);
                Mroot[i] = m;
                snprintf(b, sizeof b, "after v%d = new", i);
                break;
            case 1: /* pointer assignment, by several operators */
                i = mc_choose(3, "into"); j = mc_choose(4, "from"); k = mc_choose(3, "by");
                if (i == j && k) mc_prune();
                if (j == 3) { if (k) mc_prune(); v[i] = (Node) NULL; Mroot[i] = -1; }
                else {
                    if (k == 0) v[i] = v[j];
                    else if (k == 1) v[i] = v[j].get();
                    else { Node &r = v[j]; Node &l = v[i]; l = r; }
                    Mroot[i] = Mroot[j];
                }
                snprintf(b, sizeof b, "after v%d = v%d (%d)", i, j, k);
                break;
            case 2: /* store into a member */
                i = mc_choose(3, "object"); j = mc_choose(4, "value"); k = mc_choose(2, "member");
                if (Mroot[i] < 0 || (j < 3 && Mroot[j] < 0)) mc_prune();
                if (j == 3) { Node none = NULL; if (k) v[i]->b = none; else v[i]->a = none; }
                else if (k) { Node x = v[j]; v[i]->b = x; }
                else v[i]->a = v[j];
                M[Mroot[i]].ptr[k ? NODE_B : NODE_A] = j == 3 ? -1 : Mroot[j];
                snprintf(b, sizeof b, "after v%d->%c = v%d", i, "ab"[k], j);
                break;
            case 3: /* read a member */
                i = mc_choose(3, "into"); j = mc_choose(3, "from"); k = mc_choose(2, "member");
                if (Mroot[j] < 0) mc_prune();
                if (k) v[i] = v[j]->b; else v[i] = v[j]->a;
                Mroot[i] = M[Mroot[j]].ptr[k ? NODE_B : NODE_A];
                snprintf(b, sizeof b, "after v%d = v%d->%c", i, j, "ab"[k]);
                break;
            case 4: /* copy a member of one object to another */
                i = mc_choose(3, "object"); j = mc_choose(3, "from"); k = mc_choose(2, "member");
                if (Mroot[i] < 0 || Mroot[j] < 0) mc_prune();
                if (k) v[i]->b = v[j]->b; else v[i]->a = v[j]->a;
                M[Mroot[i]].ptr[k ? NODE_B : NODE_A] = M[Mroot[j]].ptr[k ? NODE_B : NODE_A];
                snprintf(b, sizeof b, "after v%d->%c = v%d->%c", i, "ab"[k], j, "ab"[k]);
                break;
            case 5: { /* data members */
                W w;
                i = mc_choose(3, "object"); j = mc_choose(4, "from");
                if (Mroot[i] < 0 || (j < 3 && Mroot[j] < 0)) mc_prune();
                if (j == 3) { w = ++nextId; v[i]->mid = w; }
                else { v[i]->mid = v[j]->mid; w = M[Mroot[j]].data[NODE_MID]; }
                M[Mroot[i]].data[NODE_MID] = w;
                snprintf(b, sizeof b, "after v%d->mid = v%d->mid", i, j);
                break;
            }
            case 6: { /* chains */
                i = mc_choose(3, "object");
                if (Mroot[i] < 0 || M[Mroot[i]].ptr[NODE_A] < 0) mc_prune();
                Node n = v[i]->a;
                n->b = v[i];
                M[M[Mroot[i]].ptr[NODE_A]].ptr[NODE_B] = Mroot[i];
                snprintf(b, sizeof b, "after v%d->a->b = v%d", i, i);
                break;
            }
            case 7: { /* allocate when the pool is full */
                static const int lefts[] = { 0, 5, 9 };
                fillTo(lefts[mc_choose(3, "words left")]);
                i = mc_choose(3, "into");
                v[i] = fresh(&m);
                Mroot[i] = m;
                mc_cover("allocated at the end of a pool");
                snprintf(b, sizeof b, "after v%d = new, at the end of a pool", i);
                break;
            }
            default:
                k = mc_choose(MAXGEN + 2, "generation");
                collectGen(k);
                snprintf(b, sizeof b, "after a collection of %d", k);
            }
            after(v, 3, b);
        }
        dropRoots(0);
    }
    mc_assert(ggggc_pointerStack == base, "the smart pointers are still roots after their scope");
}

static void arrays(void)
{
    int d, depth = mc_arg("depth", 4), i, j, m, t;
    struct GGGGC_PointerStack *base = ggggc_pointerStack;
    {
        P v[2];
        PA a, b2;
        GGC<NodeArray> plain;
        DA da, db;
        for (i = 0; i < 2; i++) addRoot(&v[i].ptr, -1);
        addRoot(&a.ptr, -1); addRoot(&b2.ptr, -1); addRoot(&plain.ptr, -1); addRoot(&da.ptr, -1); addRoot(&db.ptr, -1);
        PA *pa[2] = { &a, &b2 };
        DA *pd[2] = { &da, &db };
        for (d = 0; d < depth; d++) {
            int op = mc_choose(8, "operation");
            char b[64];
            switch (op) {
            case 0: /* new array */
                i = mc_choose(2, "which");
                if (mc_choose(2, "kind")) {
                    *pd[i] = GGC_NEW_DA(size_t, 2);
                    m = mNew(HW + 3); M[m].data[HW] = 2; Mroot[5 + i] = m;
                } else {
                    *pa[i] = GGC_NEW_PA(Node, 2);
                    m = mNew(HW + 3); M[m].data[HW] = 2; M[m].ptr[HW + 1] = M[m].ptr[HW + 2] = -1; Mroot[2 + i] = m;
                }
                snprintf(b, sizeof b, "after a new array");
                break;
            case 1: /* assign arrays */
                i = mc_choose(2, "into"); j = mc_choose(3, "by");
                if (j == 0) { *pa[i] = *pa[1 - i]; Mroot[2 + i] = Mroot[2 + 1 - i]; }
                else if (j == 1) { plain = *pa[i]; Mroot[4] = Mroot[2 + i]; }
                else { *pa[i] = plain; Mroot[2 + i] = Mroot[4]; }
                snprintf(b, sizeof b, "after assigning arrays %d %d", i, j);
                break;
            case 2: /* put */
                t = mc_choose(2, "array"); i = mc_choose(2, "index"); j = mc_choose(3, "value");
                if (Mroot[2 + t] < 0 || (j < 2 && Mroot[j] < 0)) mc_prune();
                {
                    Node x = j < 2 ? v[j].get() : NULL;
                    Node r = j == 1 ? (*pa[t]).put(i, v[j]) : (*pa[t]).put(i, x);
                    mc_assert(r == x, "put returned something else");
                }
                M[Mroot[2 + t]].ptr[HW + 1 + i] = j < 2 ? Mroot[j] : -1;
                snprintf(b, sizeof b, "after array%d.put(%d, v%d)", t, i, j);
                break;
            case 3: /* get */
                t = mc_choose(2, "array"); i = mc_choose(2, "index"); j = mc_choose(2, "into");
                if (Mroot[2 + t] < 0) mc_prune();
                if (j) v[j] = (*pa[t])[i]; else v[j] = pa[t]->get(i);
                Mroot[j] = M[Mroot[2 + t]].ptr[HW + 1 + i];
                snprintf(b, sizeof b, "after v%d = array%d[%d]", j, t, i);
                break;
            case 4: { /* data arrays */
                size_t w = ++nextId * 0x100000001UL, r;
                t = mc_choose(2, "array"); i = mc_choose(2, "index");
                if (Mroot[5 + t] < 0) mc_prune();
                r = pd[t]->put(i, w);
                mc_assert(r == w, "put returned something else");
                M[Mroot[5 + t]].data[HW + 1 + i] = w;
                snprintf(b, sizeof b, "after data%d.put(%d)", t, i);
                break;
            }
            case 5: { /* copy constructors and conversions */
                i = mc_choose(2, "which");
                PA c(*pa[i]); GGC<NodeArray> g(*pa[i]); PA h(g); PA k(pa[i]->get(0) ? pa[i]->ptr : pa[i]->ptr);
                DA e(*pd[i]);
                (void) k;
                if (Mroot[2 + i] < 0) mc_prune();
                int n0 = Rn;
                addRoot(&c.ptr, Mroot[2 + i]); addRoot(&g.ptr, Mroot[2 + i]); addRoot(&h.ptr, Mroot[2 + i]); addRoot(&k.ptr, Mroot[2 + i]); addRoot(&e.ptr, Mroot[5 + i]);
                if (mc_choose(2, "and drop the original")) { *pa[i] = (NodeArray) NULL; Mroot[2 + i] = -1; }
                snprintf(b, sizeof b, "with copies of array %d", i);
                verify(b);
                probeAll(b);
                dropRoots(n0);
                break;
            }
            case 6:
                i = mc_choose(2, "into");
                v[i] = fresh(&m);
                Mroot[i] = m;
                snprintf(b, sizeof b, "after v%d = new", i);
                break;
            default:
                i = mc_choose(MAXGEN + 2, "generation");
                collectGen(i);
                snprintf(b, sizeof b, "after a collection of %d", i);
            }
            mGC();
            verify(b);
            for (i = 0; i < 2; i++) {
                if (Mroot[2 + i] >= 0) {
                    mc_assert((*pa[i])->length == 2, "%s: length", b);
                    for (j = 0; j < 2; j++) mc_assert(!(*pa[i])[j] == (M[Mroot[2 + i]].ptr[HW + 1 + j] < 0), "%s: element %d of array %d", b, j, i);
                }
                if (Mroot[5 + i] >= 0) for (j = 0; j < 2; j++)
                    mc_assert((*pd[i])[j] == M[Mroot[5 + i]].data[HW + 1 + j] && pd[i]->get(j) == (*pd[i])[j], "%s: element %d of data array %d", b, j, i);
            }
            probeAll(b);
        }
        dropRoots(0);
    }
    mc_assert(ggggc_pointerStack == base, "the smart pointers are still roots after their scope");
}

/* scopes: functions that get smart pointers by value, by reference and as
 * plain pointers, with locals made in every way, that call themselves */
static Node scope(P x, P &y, int level, int n0);
static void body(P &x, P &y, P &z, int level, const char *how)
{
    /* Mroot of these: the last three */
    int rx = Rn - 3, ry = Rn - 2, rz = Rn - 1, m;
    char b[64];
    snprintf(b, sizeof b, "level %d (%s)", level, how);
    verify(b);
    switch (mc_choose(6, "in the scope")) {
    case 0: z = fresh(&m); Mroot[rz] = m; if (Mroot[rx] >= 0) { x->a = z; M[Mroot[rx]].ptr[NODE_A] = m; } break;
    case 1: collectGen(mc_choose(MAXGEN + 2, "generation")); break;
    case 2: x = (Node) NULL; Mroot[rx] = -1; break;
    case 3: { P t = z; z = x; x = t; m = Mroot[rx]; Mroot[rx] = Mroot[rz]; Mroot[rz] = m; break; }
    case 4: /* one level deeper */
        if (level < mc_arg("levels", 2)) {
            int n = Rn;
            /* the by-reference one is the same root as here */
            P r;
            r = scope(x, y, level + 1, n);
            (void) ry;
            z = r;
            Mroot[rz] = Mroot[Rn]; Mroot[Rn] = -1;
            mc_cover("a deeper scope");
            break;
        }
        /* fall through */
    default: break;
    }
    mGC();
    verify(b);
    probeAll(b);
}

/* returns its z, as a plain pointer (a smart pointer returned would outlive
 * those made before it, which they do not support); leaves the model of that in Mroot[n0] */
static Node scope(P x, P &y, int level, int n0)
{
    int mx = -1, how = mc_choose(5, "the local"), i, r;
    for (i = 0; i < n0; i++) if (*Rroot[i] == (void *) x.get()) mx = Mroot[i];
    if (!x) mx = -1;
    addRoot(&x.ptr, mx); addRoot(&y.ptr, -1);
    for (i = 0; i < n0; i++) if ((void *) Rroot[i] == (void *) &y.ptr) Mroot[n0 + 1] = Mroot[i];
    r = n0 + 2;
    switch (how) {
    case 0: { P z; addRoot(&z.ptr, -1); body(x, y, z, level, "default"); i = Mroot[r]; dropRoots(n0); Mroot[n0] = i; return z; }
    case 1: { P z(x); addRoot(&z.ptr, Mroot[n0]); body(x, y, z, level, "copy"); i = Mroot[r]; dropRoots(n0); Mroot[n0] = i; return z; }
    case 2: { P z = y; addRoot(&z.ptr, Mroot[n0 + 1]); body(x, y, z, level, "copied reference"); i = Mroot[r]; dropRoots(n0); Mroot[n0] = i; return z; }
    case 3: { P z(x.get()); addRoot(&z.ptr, Mroot[n0]); body(x, y, z, level, "from a plain pointer"); i = Mroot[r]; dropRoots(n0); Mroot[n0] = i; return z.get(); }
    default: {
        int m;
        P z = fresh(&m);
        Node w = NULL;
        GGC_PUSH_1(w);  /* mixed with the macros */
        addRoot(&z.ptr, m);
        w = z;
        body(x, y, z, level, "new");
        mc_assert(!!w, "a root pushed by the macro was lost");
        i = Mroot[r]; dropRoots(n0); Mroot[n0] = i;
        return z;
    }
    }
}

static void scopes(void)
{
    struct GGGGC_PointerStack *base = ggggc_pointerStack;
    int m, times;
    {
        P a, b;
        addRoot(&a.ptr, -1); addRoot(&b.ptr, -1);
        a = fresh(&m); Mroot[0] = m;
        b = fresh(&m); Mroot[1] = m;
        a->b = b; M[Mroot[0]].ptr[NODE_B] = Mroot[1];
        if (mc_choose(2, "old")) { GGC_COLLECT(); GGC_COLLECT(); }
        for (times = 0; times < mc_arg("times", 1); times++) {
            struct GGGGC_PointerStack *here = ggggc_pointerStack;
            switch (mc_choose(3, "call")) {
            case 0: b = scope(a, b, 0, 2); Mroot[1] = Mroot[2]; Mroot[2] = -1; break;
            case 1: {
                P r;
                r = scope(a.get(), a, 0, 2);
                m = Mroot[2]; Mroot[2] = -1;
                addRoot(&r.ptr, m);
                verify("with the result"); probeAll("with the result");
                dropRoots(2);
                break;
            }
            default: {
                /* several of them, one of a derived class */
                P *h = &b;
                { P c(a), e(c); GGCPA<Node, NodeArray> arr(GGC_NEW_PA(Node, 1)); arr.put(0, e);
                  int x = mNew(HW + 2); M[x].data[HW] = 1; M[x].ptr[HW + 1] = Mroot[0];
                  addRoot(&c.ptr, Mroot[0]); addRoot(&e.ptr, Mroot[0]); addRoot(&arr.ptr, x);
                  verify("with more of them"); probeAll("with more of them");
                  dropRoots(2); }
                P in;
                in = scope(a, b, 1, 2);
                m = Mroot[2]; Mroot[2] = -1;
                addRoot(&in.ptr, m);
                *h = scope(in, b, 1, 3);
                Mroot[1] = Mroot[3]; Mroot[3] = -1;
                dropRoots(2);
            }
            }
            mGC();
            mc_assert(ggggc_pointerStack == here, "after the call, the stack of roots is not what it was");
            verify("after the call");
            probeAll("after the call");
        }
        dropRoots(0);
    }
    mc_assert(ggggc_pointerStack == base, "the smart pointers are still roots after their scope");
}

/* all kinds of members */
static void rich(void)
{
    GGC<Rich> r[2];
    P n;
    PA arr;
    int i, d, depth = mc_arg("depth", 4);
    /* the model: what each holds */
    static MCG struct { char c; int next, node, nodes; double d; int i; short s; } mm[2];
    for (i = 0; i < 2; i++) { r[i] = GGC_NEW(Rich); mm[i].next = mm[i].node = mm[i].nodes = -1; }
    n = newNode(); arr = GGC_NEW_PA(Node, 3); arr.put(1, n);
    int in = (int) (W) n->id; /* what the array's node is */
    if (mc_choose(2, "old")) { GGC_COLLECT(); GGC_COLLECT(); }
    for (d = 0; d < depth; d++) {
        int k = mc_choose(2, "object"), v = mc_choose(3, "value"), o = 1 - k, p;
        double dv = v == 0 ? -0.5 : v == 1 ? 1e300 : 0.0; char cv = v == 0 ? -1 : v == 1 ? 127 : 0; int iv = v == 0 ? -1 : v == 1 ? 0x7fffffff : 0; short sv = v == 0 ? -1 : v == 1 ? 0x7fff : 0;
        switch (mc_choose(9, "operation")) {
        case 0: r[k]->c = cv; mm[k].c = cv; break;
        case 1: r[k]->d = dv; mm[k].d = dv; break;
        case 2: r[k]->i = iv; mm[k].i = iv; break;
        case 3: r[k]->s = sv; mm[k].s = sv; break;
        case 4: if (v == 2) { Rich x = NULL; r[k]->next = x; mm[k].next = -1; } else { r[k]->next = r[v]; mm[k].next = v; } break;
        case 5: if (v == 2) { Node x = NULL; r[k]->node = x; mm[k].node = -1; } else { if (v == 1) n = newNode(); r[k]->node = n; mm[k].node = (int) (W) n->id; } break;
        case 6: if (v == 2) { NodeArray x = NULL; r[k]->nodes = x; mm[k].nodes = -1; } else { if (v == 1) { arr = GGC_NEW_PA(Node, 3); arr.put(1, n); in = (int) (W) n->id; } r[k]->nodes = arr; mm[k].nodes = in; } break;
        case 7: if (v == 0) { r[k]->c = r[o]->c; mm[k].c = mm[o].c; r[k]->d = r[o]->d; mm[k].d = mm[o].d; r[k]->i = r[o]->i; mm[k].i = mm[o].i; r[k]->s = r[o]->s; mm[k].s = mm[o].s; }
                else if (v == 1) { r[k]->next = r[o]->next; mm[k].next = mm[o].next; r[k]->node = r[o]->node; mm[k].node = mm[o].node; r[k]->nodes = r[o]->nodes; mm[k].nodes = mm[o].nodes; }
                else { GGC<Rich> t = r[k]; r[k] = r[o]; r[o] = t; { double x; char c; int q; short s; x = mm[0].d; mm[0].d = mm[1].d; mm[1].d = x; c = mm[0].c; mm[0].c = mm[1].c; mm[1].c = c; q = mm[0].i; mm[0].i = mm[1].i; mm[1].i = q; s = mm[0].s; mm[0].s = mm[1].s; mm[1].s = s;
                    q = mm[0].next; mm[0].next = mm[1].next; mm[1].next = q; q = mm[0].node; mm[0].node = mm[1].node; mm[1].node = q; q = mm[0].nodes; mm[0].nodes = mm[1].nodes; mm[1].nodes = q; }
                    for (p = 0; p < 2; p++) if (mm[p].next >= 0) mm[p].next = 1 - mm[p].next; }
                break;
        default: collectGen(v % (MAXGEN + 2));
        }
        for (p = 0; p <= MAXGEN + 2; p++) if (!p || mc_probe_begin()) {
            if (p) { collectGen(p - 1); churn(POOL_USABLE + 20); }
            for (i = 0; i < 2; i++) {
                const GGC<Rich> &x = r[i];
                char c = x->c; double dd = x->d; int q = x->i; short s = x->s;
                Rich nx = x->next; Node nn = x->node; NodeArray na = x->nodes;
                mc_assert(c == mm[i].c && q == mm[i].i && s == mm[i].s && !memcmp(&dd, &mm[i].d, sizeof dd), "object %d: a data member has the wrong value", i);
                mc_assert(c == GGC_RD(x, c) && q == GGC_RD(x, i) && nx == GGC_RP(x, next), "object %d: the macros read something else than the members", i);
                mc_assert(nx == (mm[i].next < 0 ? (Rich) NULL : r[mm[i].next].get()), "object %d: next is wrong", i);
                mc_assert(mm[i].node < 0 ? !nn : nn && (W) nn->id == (W) mm[i].node, "object %d: node is wrong", i);
                mc_assert(mm[i].nodes < 0 ? !na : na && GGC_RAP(na, 1) && (W) GGC_RAP(na, 1)->id == (W) mm[i].nodes, "object %d: nodes is wrong", i);
            }
            if (p) mc_probe_end();
        }
    }
}

void mc_main(void)
{
    if (mc_arg("settle", 1)) GGC_COLLECT();
    switch (mc_arg("mode", 0)) {
    case 0: smart(); break;
    case 1: arrays(); break;
    case 2: scopes(); break;
    default: rich();
    }
    mc_outcome(Mn);
    mc_done();
}
