/* Happens-before monitor: vector clocks over the atomics of every crate (with
 * the memory orderings they were compiled with), thread starts, ends and
 * joins; every plain access of the crate under test and of the generic code it
 * instantiates is checked against the accesses of other threads. */
typedef struct { uint32_t c[MAXT]; } vc;
static vc VC[MAXT], FA[MAXT], FR[MAXT], FSC;
static void join(vc *a, const vc *b)
{
    for (int i = 0; i < nthr; i++)
        if (b->c[i] > a->c[i])
            a->c[i] = b->c[i];
}
/* sync variables */
#define SN (1 << 16)
static uint64_t SB[1024]; /* lines that may hold one */
static uint32_t line(uintptr_t a) { return (uint32_t)(((a >> 6) * 0x9E3779B97F4A7C15ull) >> 48); }
struct sync { vc v; };
static struct sync *S;
static uintptr_t *SK;
static struct sync *sync_of(uintptr_t a, int make)
{
    uint32_t l = line(a);
    if (make)
        SB[l >> 6] |= 1ull << (l & 63);
    else if (!(SB[l >> 6] >> (l & 63) & 1))
        return 0;
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 40) % SN;
    for (int n = 0; n < 4096; n++, h = (h + 1) % SN) {
        if (SK[h] == a)
            return &S[h];
        if (!SK[h]) {
            if (!make)
                return 0;
            SK[h] = a;
            return &S[h];
        }
    }
    C->overflow |= 1;
    return 0;
}
/* memory */
enum { R_READ, R_WRITE, R_AREAD, R_AWRITE, R_FREE };
#define NE 8
struct ent { uint32_t clk, site; uint8_t tid, mask, kind, n; };
struct cell { struct ent e[NE]; };
#define BN (1 << 15)
struct blk { struct cell c[64]; };
static struct blk *B;
static uintptr_t *BK;
static struct cell *cell_of(uintptr_t g, int make)
{
    uintptr_t b = (g >> 6) + 1;
    uint32_t h = (uint32_t)((b * 0x9E3779B97F4A7C15ull) >> 40) % BN;
    for (int n = 0; n < 2048; n++, h = (h + 1) % BN) {
        if (BK[h] == b)
            return &B[h].c[g & 63];
        if (!BK[h]) {
            if (!make)
                return 0;
            BK[h] = b;
            return &B[h].c[g & 63];
        }
    }
    C->overflow |= 1;
    return 0;
}
static void race_found(uintptr_t a, int kind, uint32_t site, const struct ent *e)
{
    static const char *nm[] = {"reads", "writes", "atomically reads", "atomically writes", "frees"};
    char b[400];
    snprintf(b, sizeof b, "data race: thread %d %s @0x%x@ what thread %d %s @0x%x@ without any order between them", me->id, nm[kind], site - 1, e->tid,
             e->kind == R_READ ? "reads" : e->kind == R_WRITE ? "writes" : nm[e->kind], e->site - 1);
    (void)a;
    finish(S_FAIL, b);
}
static void race_gran(uintptr_t g, uint8_t mask, int kind, uint32_t site)
{
    struct cell *c = cell_of(g, kind != R_FREE);
    if (!c)
        return;
    int w = kind == R_WRITE || kind == R_AWRITE || kind == R_FREE, at = kind == R_AREAD || kind == R_AWRITE;
    vc *v = &VC[me->id];
    uint32_t now = v->c[me->id];
    int n = 0;
    if (kind < R_FREE && c->e[0].mask == mask && c->e[0].tid == me->id && c->e[0].clk == now && c->e[0].kind == kind && !c->e[1].mask)
        return;
    for (int i = 0; i < NE && c->e[i].mask; i++) {
        struct ent e = c->e[i];
        int ew = e.kind == R_WRITE || e.kind == R_AWRITE, eat = e.kind == R_AREAD || e.kind == R_AWRITE;
        int ord = e.tid == me->id || e.clk <= v->c[e.tid];
        if ((e.mask & mask) && !ord && (w || ew) && !(at && eat))
            race_found(g << 3, kind, site, &e);
        if (ord && !(e.mask & ~mask) && (w || !ew) && (!at || eat))
            continue;
        c->e[n++] = e;
    }
    for (int i = n; i < NE; i++)
        c->e[i].mask = 0;
    if (kind == R_FREE) {
        for (int i = 0; i < n; i++)
            if (c->e[i].mask & mask)
                c->e[i].mask &= ~mask;
        /* keep the rest dense */
        int k = 0;
        for (int i = 0; i < n; i++)
            if (c->e[i].mask)
                c->e[k++] = c->e[i];
        for (; k < NE; k++)
            c->e[k].mask = 0;
        return;
    }
    if (n == NE) {
        memmove(&c->e[0], &c->e[1], sizeof c->e - sizeof c->e[0]);
        n--;
    }
    c->e[n] = (struct ent){now, site, me->id, mask, kind, 0};
}
static void race_access(uintptr_t a, size_t n, int kind, uint32_t site)
{
    if (!n || !active || !me || inrt)
        return;
    inrt = 1;
    uintptr_t lo = a >> 3, hi = (a + n - 1) >> 3;
    for (uintptr_t g = lo; g <= hi; g++) {
        uint8_t m = 0xff;
        if (g == lo)
            m &= 0xff << (a & 7);
        if (g == hi)
            m &= 0xff >> (7 - ((a + n - 1) & 7));
        race_gran(g, m, kind, site);
    }
    inrt = 0;
}
static void race_clear(uintptr_t a, size_t n)
{
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3;) {
        if (!cell_of(g, 0)) {
            g = ((g >> 6) + 1) << 6;
            continue;
        }
        memset(cell_of(g, 0), 0, sizeof(struct cell));
        g++;
    }
}
static void race_freed(uintptr_t a, size_t n, uint32_t site)
{
    if (!active || !me || inrt)
        return;
    race_access(a, n, R_FREE, site);
    for (uintptr_t x = a; x < a + n && n <= 4096; x++) {
        uint32_t l = line(x);
        if (!(SB[l >> 6] >> (l & 63) & 1)) {
            x |= 63;
            continue;
        }
        struct sync *s = sync_of(x, 0);
        if (s)
            memset(&s->v, 0, sizeof s->v);
    }
}
static void hb_load(uintptr_t a, int mo)
{
    if (!active || !me)
        return;
    struct sync *s = sync_of(a, 0);
    if (!s)
        return;
    join(mo ? (mo == 3 ? &FA[me->id] : &VC[me->id]) : &FA[me->id], &s->v);
}
static int rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static int acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static void hb_store(uintptr_t a, int mo)
{
    if (!active || !me)
        return;
    struct sync *s = sync_of(a, 1);
    if (!s)
        return;
    s->v = rel(mo) ? VC[me->id] : FR[me->id];
    if (rel(mo))
        VC[me->id].c[me->id]++;
}
static void hb_rmw(uintptr_t a, int mo)
{
    if (!active || !me)
        return;
    struct sync *s = sync_of(a, 1);
    if (!s)
        return;
    join(acq(mo) ? &VC[me->id] : &FA[me->id], &s->v);
    join(&s->v, rel(mo) ? &VC[me->id] : &FR[me->id]);
    if (rel(mo))
        VC[me->id].c[me->id]++;
}
static void hb_fence(int mo)
{
    if (!active || !me)
        return;
    if (acq(mo))
        join(&VC[me->id], &FA[me->id]);
    if (mo == 5) {
        join(&VC[me->id], &FSC);
        join(&FSC, &VC[me->id]);
    }
    if (rel(mo)) {
        FR[me->id] = VC[me->id];
        VC[me->id].c[me->id]++;
    }
}
static void hb_spawn(int child)
{
    VC[child] = VC[me->id];
    VC[child].c[child] = 1;
    memset(&FA[child], 0, sizeof(vc));
    memset(&FR[child], 0, sizeof(vc));
    VC[me->id].c[me->id]++;
}
static void hb_join(int child) { join(&VC[me->id], &VC[child]); }
static void *zeros(size_t n)
{
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? 0 : p;
}
static void race_begin(void)
{
    B = zeros(BN * sizeof(struct blk));
    BK = zeros(BN * sizeof *BK);
    S = zeros(SN * sizeof(struct sync));
    SK = zeros(SN * sizeof *SK);
    if (!B || !BK || !S || !SK)
        finish(S_INTERNAL, "no memory for the monitor");
    VC[0].c[0] = 1;
}
