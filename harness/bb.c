/* Runs the solver of /repo on generated instances with the observation points of bb_trace.h, watches every search with
 * a fast monitor (the demands of specs/BranchBound.tla, on bit sets), and writes traces for TLC: a sample of all runs
 * and every run that the monitor objects to. The verdict is TLC's; the monitor only chooses what TLC looks at.
 *
 * bb OUT SEED COUNT SAMPLE MAXFLAG PROPERTY PROFILE SECONDS LOGR
 *
 * bb OUT SEED COUNT -  - - service:PROFILE SECONDS HISTORIES
 * Answers requests: for each pool of instances, histories of requests are executed, each history in a process of its own.
 * bb OUT SEED COUNT - - - report:PROFILE SECONDS FOLDER
 * Keeps the result file of every solve in FOLDER; OUT: for each what the solver knew when it wrote it.
 *
 * HISTORIES: a line per history: PICK then requests MEMORY*100+INSTANCE; a history is executed for the pools t with
 * PICK = 0 or t % PICK = 0. OUT: for each pool the instances and the answers of each history.
 */
#define _GNU_SOURCE
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include "algorithms/branch_and_bound.h"
#include "algorithms/bb_trace.h"
#include "tsp_instance_reader.h"

#define NV 16
#define INFI 2000000000
typedef unsigned __int128 mask;
typedef unsigned long long u64;

/* ------------------------------------------------------------------ randomness */
static u64 S;
static unsigned rnd(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (unsigned) (S >> 17); }
static unsigned below(unsigned k) { return rnd() % k; }
static void seed(u64 a, u64 b) { S = a * 0x9E3779B97F4A7C15ULL + b * 0xC2B2AE3D27D4EB4FULL + 88172645463325252ULL;
    if (!S) S = 1; for (int i = 0; i < 8; i++) rnd(); }

/* ------------------------------------------------------------------ the virtual processor clock */
static long vclock, vstart, vclock_end;   /* microseconds; the end: when the solve returned */
static long vstep = 10000;
static int clock_calls;                   /* during the first phase of a solve */
static void first_phase(void);
clock_t __wrap_clock(void) { first_phase(); return vclock; }
static long elapsed_ms(void) { return (vclock - vstart) / 1000; }

/* ------------------------------------------------------------------ instances */
typedef struct {
    int n, eps, family, dec;              /* dec: number of decimals of the weights */
    double unit;
    int w[NV][NV], p[NV][NV];
    int jump_event; long jump_to;         /* virtual clock: set the elapsed time (ms) at this event; -1: never */
    int jump_call;                        /* or at this look at the clock, before the first event; 0: never */
    long start_clock;
} Inst;
static Inst I;

static int idx[NV][NV];
static int pair_a[128], pair_b[128], npairs;
static mask B(int k) { return ((mask) 1) << k; }
static void make_index(void) {
    npairs = 0;
    for (int j = 1; j < NV; j++) for (int i = 0; i < j; i++) {
        idx[i][j] = idx[j][i] = npairs; pair_a[npairs] = i; pair_b[npairs] = j; npairs++; }
}

static void set_unit(int dec) {
    I.dec = dec; I.unit = dec == 4 ? 1e-4 : dec == 2 ? 1e-2 : 1;
    I.eps = (int) floor(GHOSH_UB / 1000 / I.unit * (1 + 1e-12));
}

/* profile letters: what to vary */
static void generate(const char *profile, u64 sd, u64 t) {
    seed(sd, t);
    memset(&I, 0, sizeof I);
    I.jump_event = -1; I.jump_call = 0;
    I.start_clock = below(3) == 0 ? 0 : below(2000000000);
    int N = MAX_VERTEX_NUM;
    int small = strchr(profile, 's') != NULL;      /* sizes for full enumeration in TLC */
    int n = N;
    if (below(4) == 0 && N > 3) n = 3 + below(N - 2);
    if (small && n > 7) n = 5 + below(3);
    I.n = n;
    int fam = below(10);
    static const int dens_t[] = {100, 100, 100, 90, 75, 60, 50, 45};
    int dens = dens_t[below(8)];
    if (strchr(profile, 'c')) dens = 100;
    if (strchr(profile, 'd')) dens = 100 - below(60);
    I.family = fam;
    double x[NV], y[NV];
    for (int i = 0; i < n; i++) { x[i] = below(10000) / 10000.0; y[i] = below(10000) / 10000.0; }
    int tie = 0, big = 0;
    if (fam == 4) tie = 1;
    if (fam == 6 || fam == 7) big = 1;
    set_unit(big ? (below(2) ? 0 : 2) : 4);
    int scale_small = 1 + below(40), scale_big = big ? (I.dec == 0 ? 1000 + below(1000000) : 100000 + below(10000000)) : 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        int w;
        switch (fam) {
            case 0: case 1: case 2: w = (int) lround(10000 * sqrt((x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j]))); break;
            case 3: w = 1 + below(10000); break;
            case 4: w = 10000 * (1 + below(scale_small)); break;
            case 5: w = below(100) < 35 ? 10000 : 10000 * (2 + below(20)); break;
            case 6: w = (i % 3 == j % 3) ? 1 + below(10) : scale_big + below(10); break;
            case 7: w = 1 + below(scale_big); break;
            case 8: w = 5000 + below(60); break;                  /* differences about the tolerance */
            default: w = 10000 + 20 * below(8) + (int) (10000 * fabs(x[i] - x[j])); break;
        }
        if (w < 1) w = 1;
        if (dens < 100 && below(100) >= (unsigned) dens) w = 0;
        I.w[i][j] = I.w[j][i] = w;
    }
    (void) tie;
    /* make most sparse instances have a tour */
    if (dens < 100 && below(5)) {
        int perm[NV]; for (int i = 0; i < n; i++) perm[i] = i;
        for (int i = n - 1; i > 0; i--) { int k = below(i + 1), q = perm[i]; perm[i] = perm[k]; perm[k] = q; }
        for (int i = 0; i < n; i++) { int a = perm[i], b = perm[(i + 1) % n];
            if (!I.w[a][b]) I.w[a][b] = I.w[b][a] = fam < 4 || fam >= 8 ? 1000 + below(9000) : fam == 6 ? 1 + below(10) : fam == 7 ? 1 + below(scale_big) : 10000 * (1 + below(scale_small)); }
    }
    int pk = below(5);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        int p;
        switch (pk) {
            case 0: case 1: p = below(1000001); break;
            case 2: p = below(3) * 500000; break;                 /* 0, one half, 1 */
            case 3: p = below(10) ? below(20) : 900000 + below(100001); break;
            default: p = 450000 + below(100001); break;
        }
        I.p[i][j] = I.p[j][i] = p;
    }
}

static void write_csv(const char *file) {
    FILE *f = fopen(file, "w");
    for (int i = 0; i < I.n; i++) fprintf(f, "(%d, %d)%s", i, 2 * i, i < I.n - 1 ? ";" : "\n");
    for (int i = 0; i < I.n; i++) {
        for (int j = 0; j < I.n; j++) fprintf(f, "(%.*f, %.6f);", I.dec, I.w[i][j] * I.unit, I.p[i][j] / 1e6);
        fprintf(f, "\n");
    }
    fclose(f);
}

/* ------------------------------------------------------------------ tours */
#define CAP 3000
typedef struct { int c; mask s; } Tour;
static Tour T[CAP + 1]; static int nT, T_all;
static int *dp;                           /* cheapest completion */
static int opt;
static int full_mask;
static int complete_from(int m, int v) {
    int *e = &dp[m * NV + v];
    if (*e >= 0) return *e;
    int best = INFI;
    if (m == full_mask) { if (I.w[v][0]) best = I.w[v][0]; }
    else for (int u = 1; u < I.n; u++) if (!(m >> u & 1) && I.w[v][u]) {
        int c = complete_from(m | 1 << u, u);
        if (c < INFI && c + I.w[v][u] < best) best = c + I.w[v][u];
    }
    return *e = best;
}
static int limit_cost, overflow;
static void collect(int m, int v, int c, mask s, int second) {
    if (overflow) return;
    int rest = complete_from(m, v);
    if (rest >= INFI || (long) c + rest >= limit_cost) return;
    if (m == full_mask) {
        if (v < second) return;
        if (nT == CAP) { overflow = 1; return; }
        T[nT].c = c + I.w[v][0]; T[nT].s = s | B(idx[v][0]); nT++;
        return;
    }
    for (int u = 1; u < I.n; u++) if (!(m >> u & 1) && I.w[v][u])
        collect(m | 1 << u, u, c + I.w[v][u], s | B(idx[v][u]), second ? second : u);
}
static int cmp_tour(const void *a, const void *b) { const Tour *x = a, *y = b; return (x->c > y->c) - (x->c < y->c); }
static int greedy_cost(int s) {
    int vis = 1 << s, v = s, c = 0;
    for (int k = 1; k < I.n; k++) {
        int b = -1;
        for (int u = 0; u < I.n; u++) if (!(vis >> u & 1) && I.w[v][u] && (b < 0 || I.w[v][u] < I.w[v][b])) b = u;
        if (b < 0) return INFI;
        c += I.w[v][b]; vis |= 1 << b; v = b;
    }
    return I.w[v][s] ? c + I.w[v][s] : INFI;
}
static void make_tours(void) {
    full_mask = (1 << I.n) - 1;
    memset(dp, 0xff, sizeof(int) * NV << I.n);
    opt = complete_from(1, 0);
    nT = 0; T_all = 1;
    if (opt >= INFI) return;
    long lim = INFI;
    if (I.n > 7) {
        int g = INFI; for (int s = 0; s < I.n; s++) { int c = greedy_cost(s); if (c < g) g = c; }
        if (g < INFI) { lim = (long) g + g / 8 + 1; T_all = 0; }
    }
    for (;;) {
        limit_cost = (int) (lim > INFI ? INFI : lim); overflow = 0; nT = 0;
        collect(1, 0, 0, 0, 0);
        if (!overflow) break;
        T_all = 0; lim = lim >= INFI ? (long) opt + opt / 2 : (opt + lim) / 2;
        if (lim <= opt + 1) break;
    }
    qsort(T, nT, sizeof(Tour), cmp_tour);
}

/* ------------------------------------------------------------------ shared with the child */
typedef struct {
    unsigned verdict;                     /* bit k: property Ck objected to */
    int finished, truncated, nodes, events, flagged_tours[64], nflag;
    int tree_fixed, tree_drop, tree_found, tree_closed, branchings;
    u64 hash;
    long res[10]; long prob; mask tour;
    size_t len, whole;                    /* whole: the length without the event being written */
    char buf[1 << 23];
} Shared;
static Shared *sh;
static int tracing, log_r;
static void out(const char *f, ...) {
    if (!tracing) return;
    va_list a; va_start(a, f);
    size_t room = sizeof sh->buf - sh->len;
    int k = vsnprintf(sh->buf + sh->len, room, f, a);
    va_end(a);
    if (k < 0 || (size_t) k >= room) { sh->truncated = 1; sh->len = sh->whole; tracing = 0; return; }
    sh->len += k;
}
static void object(int prop) { sh->verdict |= 1u << prop; }
static void check(int prop, int ok) { if (!ok) object(prop); }
static void flag_tour(int k) {
    for (int q = 0; q < sh->nflag; q++) if (sh->flagged_tours[q] == k) return;
    if (sh->nflag < 64) sh->flagged_tours[sh->nflag++] = k;
}

/* ------------------------------------------------------------------ the monitor */
typedef struct { unsigned id, fa; int lvl, val, prob; mask M, F; } Nd;
typedef struct { int ok, ne; unsigned short e[NV][2]; int w[NV * NV]; double wd[NV * NV]; int val; mask s; } Rel;
#define MAXOPEN 20000
static int maxevents = 3000;
static Nd openl[MAXOPEN]; static int nopen;
static Nd cur, pend; static int has_cur, has_pend, made, stage; /* 0 none 1 idle 2 popped 3 bounded 4 fixed */
static int br;
static int best, best_at; static unsigned best_id; static int best_lvl, best_type; static long best_time; static mask best_tour;
static unsigned gen, nexpl, fixedc, maxid; static int maxlvl;
static Rel R[256]; static int nR, nR_total;
static Problem P;

static int to_int(double v) {
    double q = v / I.unit;
    if (!(q < INFI)) return INFI;
    if (q < -INFI) return -INFI;
    return (int) lround(q);
}
static int to_ppm(double v) { if (!(v < 2000)) return INFI; if (v < -2000) return -INFI; return (int) lround(v * 1e6); }

static Nd node_of(const SubProblem *s) {
    Nd d; d.id = s->id; d.fa = s->fatherId; d.lvl = s->treeLevel; d.val = to_int(s->value); d.prob = to_ppm(s->prob);
    d.M = d.F = 0;
    for (int i = 0; i < I.n; i++) for (int j = i + 1; j < I.n; j++) {
        ConstraintType a = s->constraints[i][j], b = s->constraints[j][i];
        if (a == MANDATORY || b == MANDATORY) d.M |= B(idx[i][j]);
        if (a == FORBIDDEN || b == FORBIDDEN) d.F |= B(idx[i][j]);
    }
    return d;
}
static int in(mask t, mask M, mask F) { return (t & M) == M && !(t & F); }
static int bits(mask m) { return __builtin_popcountll((u64) m) + __builtin_popcountll((u64) (m >> 64)); }
static void out_mask(const char *name, mask m) {
    if (!tracing) return;
    out("\"%s\":[", name); int first = 1;
    for (int k = 0; k < npairs; k++) if (m >> k & 1) { out("%s%d", first ? "" : ",", pair_a[k] * 64 + pair_b[k]); first = 0; }
    out("]");
}
static void out_node(const Nd *d) {
    out("\"id\":%d,\"fa\":%d,\"lvl\":%d,\"val\":%d,\"prob\":%d,", (int) d->id, (int) d->fa, d->lvl, d->val, d->prob);
    out_mask("M", d->M); out(","); out_mask("F", d->F);
}
static int event_no;
static void first_phase(void) {
    if (event_no) return;
    if (++clock_calls == I.jump_call) { vclock = vstart + I.jump_to * 1000; vstep = 0; }
    else if (clock_calls > 1 && vstep) vclock += 10000;
}
static struct { double value; long us; } improved[1024]; static int nimproved;
static void tick(void) {
    if (vstep) vclock += vstep;
    if (event_no == I.jump_event) { long to = vstart + I.jump_to * 1000; if (vclock < to) vclock = to; vstep = 0; }
    event_no++; sh->events++;
    if (event_no == maxevents && vstep) vclock += 2000000000L;   /* enough: the time limit ends the search */
}
static long last_ms;                                 /* the time of the last event of the search */
static long before_us, before_ms;                    /* the time before the event; a pop is decided at that time */
static void begin_event(const char *k) { if (tracing) sh->whole = sh->len; out("%s{\"k\":\"%s\",\"t\":%ld,", event_no > 1 ? "," : "", k, k[0] == 'p' ? before_ms : elapsed_ms()); }

static int code(int i, int j) { return i < j ? i * 64 + j : j * 64 + i; }
static mask tour_mask(const SubProblem *s, int *okay) {
    mask m = 0; *okay = s->num_edges_in_cycle <= MAX_VERTEX_NUM;
    for (int e = 0; *okay && e < s->num_edges_in_cycle; e++) {
        int a = s->cycleEdges[e].src, b = s->cycleEdges[e].dest;
        if (a >= I.n || b >= I.n || a == b) { *okay = 0; break; }
        m |= B(idx[a][b]);
    }
    return m;
}
static const char *kind_name(int t) {
    return t == CLOSED_NN ? "nn" : t == CLOSED_NN_HYBRID ? "pnn" : t == CLOSED_1TREE ? "tree" : t == CLOSED_SUBGRADIENT ? "ascent" : "none";
}
static void out_best(const SubProblem *b, int cost) {
    out("\"bc\":%d,\"bk\":\"%s\",\"bi\":%d,\"bl\":%d,\"bs\":%ld,\"bt\":[", cost, kind_name(b->type), (int) b->id,
        (int) b->treeLevel, lround(b->timeToReach * 1000.0));
    for (int e = 0; e < b->num_edges_in_cycle && e < MAX_VERTEX_NUM && cost < INFI; e++)
        out("%s%d", e ? "," : "", code(b->cycleEdges[e].src & 63, b->cycleEdges[e].dest & 63));
    out("]");
}

static void coverage(void) {
    if ((long) nopen * nT > 30000 && event_no % 16) return;
    for (int k = 0; k < nT && T[k].c < best - (best >= INFI ? 0 : I.eps); k++) {
        mask t = T[k].s; int ok = 0;
        if (has_cur && in(t, cur.M, cur.F)) ok = 1;
        if (!ok && has_pend && in(t, pend.M, pend.F)) ok = 1;
        for (int o = 0; !ok && o < nopen; o++) if (in(t, openl[o].M, openl[o].F)) ok = 1;
        if (!ok) { object(3); flag_tour(k); return; }
    }
}

/* connectivity of the vertices but s over the edges m */
static int uf[NV]; static int uff(int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; }
static int rest_connected(mask m, int s) {
    for (int i = 0; i < I.n; i++) uf[i] = i;
    int comp = I.n - 1;
    for (int j = 1; j < I.n; j++) for (int i = 0; i < j; i++) if (i != s && j != s && (m >> idx[i][j] & 1)) {
        int a = uff(i), b = uff(j); if (a != b) { uf[a] = b; comp--; } }
    return comp == 1;
}
static mask all_edges(void) { mask m = 0; for (int i = 0; i < I.n; i++) for (int j = i + 1; j < I.n; j++) if (I.w[i][j]) m |= B(idx[i][j]); return m; }
static int degree(mask m, int v) { int d = 0; for (int u = 0; u < I.n; u++) if (u != v && (m >> idx[u][v] & 1)) d++; return d; }

/* minimum 1-tree with the mandatory edges M inside usable, weights wd; mandatory must be acyclic away from s */
static int min_one_tree(mask usable, mask M, int s, const double *wd, double *cost, mask *tree) {
    int order[128], ne = 0; mask m = 0; double c = 0;
    for (int j = 1; j < I.n; j++) for (int i = 0; i < j; i++) if (usable >> idx[i][j] & 1) order[ne++] = i * 64 + j;
    for (int a = 1; a < ne; a++) { int q = order[a], b = a; double wq = wd[(q >> 6) * NV + (q & 63)];
        while (b > 0 && wd[(order[b - 1] >> 6) * NV + (order[b - 1] & 63)] > wq) { order[b] = order[b - 1]; b--; } order[b] = q; }
    for (int i = 0; i < I.n; i++) uf[i] = i;
    for (int pass = 0; pass < 2; pass++) for (int a = 0; a < ne; a++) {
        int i = order[a] >> 6, j = order[a] & 63; if (i == s || j == s) continue;
        int mand = (M >> idx[i][j]) & 1; if (mand != (pass == 0)) continue;
        int x = uff(i), y = uff(j);
        if (x == y) { if (pass == 0) return 0; continue; }
        uf[x] = y; m |= B(idx[i][j]); c += wd[i * NV + j];
    }
    int k = 0;
    for (int pass = 0; pass < 2; pass++) for (int a = 0; a < ne && k < 2; a++) {
        int i = order[a] >> 6, j = order[a] & 63; if (i != s && j != s) continue;
        int mand = (M >> idx[i][j]) & 1; if (mand != (pass == 0)) continue;
        m |= B(idx[i][j]); c += wd[i * NV + j]; k++;
    }
    *cost = c; if (tree) *tree = m;
    return 1;
}

static void watch_relaxation(const Rel *r, int first) {
    mask usable = all_edges() & ~cur.F, M = cur.M & all_edges();
    int s = P.candidateNodeId;
    if (!r->ok) {
        int md = degree(M, s), ud = degree(usable | M, s);
        if (md <= 2 && ud >= 2 && rest_connected(usable, s)) object(13);
        return;
    }
    mask t = 0; int ok = 1, atS = 0;
    for (int k = 0; k < r->ne; k++) {
        int a = r->e[k][0], b = r->e[k][1];
        if (a >= I.n || b >= I.n || a == b) { ok = 0; break; }
        t |= B(idx[a][b]); if (a == s || b == s) atS++;
    }
    if (!ok || r->ne != I.n || bits(t) != I.n || (t & ~usable) || atS != 2 || !rest_connected(t, s)) { object(13); return; }
    double c1 = 0, c0;
    for (int k = 0; k < r->ne; k++) c1 += r->wd[r->e[k][0] * NV + r->e[k][1]];
    mask miss = M & ~t;
    for (int k = 0; k < npairs; k++) if (miss >> k & 1) {
        if (pair_a[k] == s || pair_b[k] == s) { object(13); return; }
        /* its ends must be connected by mandatory edges of the tree */
        for (int i = 0; i < I.n; i++) uf[i] = i;
        for (int q = 0; q < npairs; q++) if ((t & M) >> q & 1 && pair_a[q] != s && pair_b[q] != s) { int a = uff(pair_a[q]), b = uff(pair_b[q]); uf[a] = b; }
        if (uff(pair_a[k]) != uff(pair_b[k])) { object(13); return; }
    }
    if (min_one_tree(usable, M, s, r->wd, &c0, NULL) && c1 > c0 + 1e-9 * (fabs(c0) + I.n)) object(13);
    (void) first;
}

static int freq_of(int a, int b) {
    int f = 0;
    for (int k = nR > 10 ? nR - 10 : 0; k < nR; k++) if (R[k].ok && (R[k].s >> idx[a][b] & 1)) f++;
    return f;
}
static int dist5(int f) { return f >= 5 ? f - 5 : 5 - f; }
static int branch_edge_ok(int val, int b) {
    for (int k = 0; k < nR; k++) if (R[k].ok && R[k].val == val) {
        mask freem = R[k].s & ~cur.M & ~cur.F; int ok = 1;
        if (b < 0) { if (!freem) return 1; continue; }
        int ba = b >> 6, bb = b & 63;
        if (ba >= I.n || bb >= I.n || ba == bb || !(freem >> idx[ba][bb] & 1)) continue;
        int fb = freq_of(ba, bb);
        for (int q = 0; ok && q < npairs; q++) if (freem >> q & 1) {
            int f = freq_of(pair_a[q], pair_b[q]);
            if (dist5(f) < dist5(fb)) ok = 0;
            if (HYBRID && f == fb && I.p[pair_a[q]][pair_b[q]] > I.p[ba][bb] + 2) ok = 0;
        }
        if (ok) return 1;
    }
    return 0;
}

/* all costs of greedy tours with ties broken in every way: smallest and largest */
static long tie_leaves;
static void nn_costs(int s, int v, int vis, int c, int cnt, int prob, int *lo, int *hi) {
    if (tie_leaves > 20000) return;
    if (cnt == I.n) { tie_leaves++; int r = I.w[v][s] ? c + I.w[v][s] : INFI; if (r < *lo) *lo = r; if (r > *hi) *hi = r; return; }
    int b = -1;
    for (int u = 0; u < I.n; u++) if (!(vis >> u & 1) && I.w[v][u]) {
        if (b < 0 || (prob ? I.p[v][u] > I.p[v][b] : I.w[v][u] < I.w[v][b])) b = u; }
    if (b < 0) { tie_leaves++; if (INFI < *lo) *lo = INFI; if (INFI > *hi) *hi = INFI; return; }
    for (int u = 0; u < I.n; u++) if (!(vis >> u & 1) && I.w[v][u] && (prob ? I.p[v][u] == I.p[v][b] : I.w[v][u] == I.w[v][b]))
        nn_costs(s, u, vis | 1 << u, c + I.w[v][u], cnt + 1, prob, lo, hi);
}
static void watch_start(int cost, int kind) {
    int low = INFI, high = INFI, anyk = 0;
    for (int s = 0; s < I.n; s++) for (int prob = 0; prob <= HYBRID; prob++) {
        int lo = INFI, hi = -1; tie_leaves = 0;
        nn_costs(s, s, 1 << s, 0, 1, prob, &lo, &hi);
        if (tie_leaves > 20000) return;
        if (lo < low) low = lo;
        if (hi < high) high = hi;
        if (cost >= lo && cost <= hi && kind == (prob ? CLOSED_NN_HYBRID : CLOSED_NN)) anyk = 1;
    }
    check(5, cost >= low && cost <= high);
    check(11, cost >= INFI || anyk);
}
static void watch_candidate(void) {
    if (opt >= INFI) return;
    double wd[NV * NV]; int distinct = 1; mask all = all_edges();
    for (int i = 0; i < I.n; i++) for (int j = 0; j < I.n; j++) wd[i * NV + j] = I.w[i][j];
    for (int a = 0; a < npairs; a++) for (int b = 0; b < a; b++) if ((all >> a & 1) && (all >> b & 1) &&
        I.w[pair_a[a]][pair_b[a]] == I.w[pair_a[b]][pair_b[b]]) distinct = 0;
    double c[NV]; long p[NV];
    for (int s = 0; s < I.n; s++) { mask t = 0; min_one_tree(all, 0, s, wd, &c[s], &t); p[s] = 0;
        for (int k = 0; k < npairs; k++) if (t >> k & 1) p[s] += I.p[pair_a[k]][pair_b[k]]; }
    int d = P.candidateNodeId;
    if (d >= I.n) { object(6); return; }
    for (int s = 0; s < I.n; s++) {
        check(6, c[s] <= c[d] + I.eps);
        if (HYBRID && distinct) check(6, !(c[s] > c[d] && p[s] - p[d] >= (long) I.n * 50002));
    }
}

static int preferred(const Nd *a, const Nd *b) {
    return (long) b->val - a->val > I.eps || (HYBRID && b->val > a->val && a->prob - b->prob >= 50002);
}

void bb_trace_event(const char *event, const Problem *problem, const SubProblem *s, long position) {
    (void) position;
    before_us = vclock; before_ms = elapsed_ms();
    if (strcmp(event, "end") == 0) { vclock_end = vclock; return; }
    tick(); last_ms = elapsed_ms();
    Nd d;
    if (strcmp(event, "start") == 0) {
        d = node_of(s);
        int okc; best = to_int(problem->bestValue); best_tour = tour_mask(&problem->bestSolution, &okc);
        best_id = problem->bestSolution.id; best_lvl = problem->bestSolution.treeLevel; best_type = problem->bestSolution.type;
        best_time = lround(problem->bestSolution.timeToReach * 1000.0);
        begin_event("start"); out_node(&d); out(","); out_best(&problem->bestSolution, best); out("}");
        openl[0] = d; nopen = 1; has_cur = has_pend = 0; stage = 1; gen = 1; nexpl = 0; fixedc = 0; maxlvl = 1; maxid = d.id;
        check(11, best_id == 0 && best_lvl == 0 && (best >= INFI || (best_time > 0 && best_time <= elapsed_ms() + 5)));
        watch_start(best, best_type);
        watch_candidate();
        coverage();
    } else if (strcmp(event, "pop") == 0) {
        d = node_of(s);
        begin_event("pop"); out_node(&d); out("}");
        sh->nodes++;
        check(8, stage == 1);
        check(10, before_ms <= 600999);
        int found = -1;
        for (int o = 0; o < nopen; o++) {
            if (openl[o].id == d.id) found = o;
            check(7, !preferred(&openl[o], &d));
            check(7, !(openl[o].fa == d.fa && openl[o].val == d.val && openl[o].prob == d.prob && openl[o].id < d.id));
        }
        check(7, found >= 0);
        if (found >= 0) openl[found] = openl[--nopen];
        cur = d; has_cur = 1; has_pend = 0; made = 0; stage = 2; nR = nR_total = 0; best_at = -1; br = -1;
        coverage();
    } else if (strcmp(event, "bound") == 0) {
        d = node_of(s);
        int nb = to_int(problem->bestValue), okc, changed = nb != best || problem->bestSolution.id != best_id;
        mask nt = tour_mask(&problem->bestSolution, &okc);
        if (nt != best_tour) changed = 1;
        if (changed && best_at < 0) best_at = nR_total;
        if (!changed) best_at = -1;
        const char *type = s->type == OPEN ? "open" : s->type == CLOSED_BOUND ? "bound" : s->type == CLOSED_UNFEASIBLE ? "infeasible" : "tour";
        int b = -1;
        if (s->edge_to_branch >= 0 && s->edge_to_branch < problem->graph.num_edges)
            b = code(problem->graph.edges[s->edge_to_branch].src & 63, problem->graph.edges[s->edge_to_branch].dest & 63);
        else if (s->edge_to_branch >= 0) b = 4095;
        begin_event("bound");
        out("\"type\":\"%s\",\"val\":%d,\"prob\":%d,\"br\":%d,\"time\":%ld,\"nrel\":%d,\"at\":%d,", type, d.val, d.prob, b,
            lround(s->timeToReach * 1000.0), nR_total, best_at);
        out_best(&problem->bestSolution, nb);
        out(",\"R\":[");
        if (log_r) for (int k = 0; k < nR; k++) {
            out("%s{\"ok\":%d,\"T\":[", k ? "," : "", R[k].ok);
            for (int e = 0; e < R[k].ne; e++) out("%s%d", e ? "," : "", code(R[k].e[e][0], R[k].e[e][1]));
            out("],\"w\":[");
            if (log_r > 1 && k > 0) for (int i = 0; i < I.n; i++) for (int j = 0; j < I.n; j++) out("%s%d", i + j ? "," : "", R[k].w[i * NV + j]);
            out("]}");
        }
        out("]}");
        if (nR_total > 0) nexpl++;
        int old = best;
        if (best_at >= 0) {
            sh->tree_found++;
            if (nimproved < 1024) { improved[nimproved].value = problem->bestValue; improved[nimproved++].us = before_us - vstart; }
            check(5, nb < old);
            check(11, problem->bestSolution.id == cur.id && problem->bestSolution.treeLevel == cur.lvl
                && problem->bestSolution.type == (best_at == 1 ? CLOSED_1TREE : CLOSED_SUBGRADIENT)
                && lround(problem->bestSolution.timeToReach * 1000.0) == lround(s->timeToReach * 1000.0));
            best = nb; best_tour = nt; best_id = problem->bestSolution.id; best_lvl = problem->bestSolution.treeLevel;
            best_type = problem->bestSolution.type; best_time = lround(problem->bestSolution.timeToReach * 1000.0);
        }
        int discarded = s->type != OPEN || b == -1;
        for (int k = 0; k < nT; k++) {
            if (s->type == OPEN && T[k].c < d.val && in(T[k].s, cur.M, cur.F)) { object(4); flag_tour(k); }
            if (discarded && T[k].c < best - (best >= INFI ? 0 : I.eps) && in(T[k].s, cur.M, cur.F)) { object(4); flag_tour(k); }
            if (s->type == CLOSED_UNFEASIBLE && in(T[k].s, cur.M, cur.F)) { object(4); flag_tour(k); }
        }
        for (int k = 0; k < nR; k++) watch_relaxation(&R[k], k == 0);
        if (s->type == OPEN) check(26, branch_edge_ok(d.val, b));
        if (discarded) { has_cur = 0; stage = 1; sh->tree_closed++; } else { stage = 3; cur.val = d.val; cur.prob = d.prob; br = b; }
        coverage();
    } else if (strcmp(event, "fix") == 0) {
        d = node_of(s);
        begin_event("fix"); out_mask("M", d.M); out(","); out_mask("F", d.F); out("}");
        for (int k = 0; k < nT; k++) if (in(T[k].s, cur.M, cur.F) && !in(T[k].s, d.M, d.F) && T[k].c < best) { object(9); flag_tour(k); }
        int nf = bits((d.M | d.F) & ~(cur.M | cur.F)); fixedc += nf; sh->tree_fixed += nf;
        cur.M = d.M; cur.F = d.F; stage = 4;
        coverage();
    } else if (strcmp(event, "child") == 0) {
        d = node_of(s);
        begin_event("child"); out_node(&d); out("}");
        int a = br >> 6, b = br & 63, ok = br >= 0 && (stage == 3 || stage == 4) && made < 2 && !has_pend && a < I.n && b < I.n && a != b && I.w[a][b];
        if (ok) {
            int mfirst = !HYBRID || I.p[a][b] >= 500000, mand = mfirst == (made == 0);
            mask m = B(idx[a][b]), hM = mand ? cur.M | m : cur.M & ~m, hF = mand ? cur.F & ~m : cur.F | m;
            ok = d.fa == cur.id && d.lvl == cur.lvl + 1 && d.id > maxid && (hM & ~d.M) == 0 && (hF & ~d.F) == 0;
            for (int k = 0; ok && k < nT; k++) if (in(T[k].s, hM, hF) && !in(T[k].s, d.M, d.F)) { ok = 0; flag_tour(k); }
        }
        check(8, ok);
        pend = d; has_pend = 1; made++; gen++; if (cur.lvl + 1 > maxlvl) maxlvl = cur.lvl + 1; if (d.id > maxid) maxid = d.id;
        if (made == 1) sh->branchings++;
        coverage();
    } else if (strcmp(event, "queue") == 0 || strcmp(event, "drop") == 0) {
        d = node_of(s);
        begin_event(event); out_node(&d); out("}");
        check(8, has_pend && d.id == pend.id);
        Nd a = has_pend ? pend : cur;
        int drop = event[0] == 'd';
        for (int k = 0; k < nT; k++) {
            if (drop) { if (in(T[k].s, a.M, a.F)) { object(9); flag_tour(k); } continue; }
            if (T[k].c < d.val && in(T[k].s, d.M, d.F)) { object(4); flag_tour(k); }
            if (in(T[k].s, a.M, a.F) && !in(T[k].s, d.M, d.F)) { object(8); if (T[k].c < best) object(9); flag_tour(k); }
        }
        int nf = bits((d.M | d.F) & ~(a.M | a.F)); fixedc += nf; sh->tree_fixed += nf; sh->tree_drop += drop;
        has_pend = 0;
        if (!drop && nopen < MAXOPEN) openl[nopen++] = d;
        if (made >= 2) { has_cur = 0; stage = 1; }
        coverage();
    }
}

void bb_trace_relaxation(int iter, int max_iter, const Graph *graph, const SubProblem *s, BBNodeType type, double total_pi) {
    (void) iter; (void) max_iter; (void) total_pi;
    vclock += vstep ? 1000 : 0;
    if (best_at < 0 && nR_total > 0) {
        int nb = to_int(P.bestValue);
        if (nb != best || P.bestSolution.id != best_id) best_at = nR_total;
    }
    nR_total++;
    if (nR == 256) return;
    Rel *r = &R[nR++];
    r->ok = type != CLOSED_UNFEASIBLE; r->ne = 0; r->s = 0; r->val = 0;
    if (r->ok) for (int e = 0; e < s->oneTree.num_edges && e < NV; e++) {
        int a = s->oneTree.edges[e].src & 63, b = s->oneTree.edges[e].dest & 63;
        r->e[e][0] = a; r->e[e][1] = b; r->ne++;
        if (a < I.n && b < I.n && a != b) { r->s |= B(idx[a][b]); r->val += I.w[a][b]; }
    }
    for (int i = 0; i < I.n; i++) for (int j = 0; j < I.n; j++) {
        double w = I.w[i][j] ? graph->edges_matrix[i][j].weight : 0;
        r->wd[i * NV + j] = w / I.unit; double q = w / I.unit;
        r->w[i * NV + j] = q > 1e9 ? 1000000000 : q < -1e9 ? -1000000000 : (int) lround(q);
    }
}

/* ------------------------------------------------------------------ one solve */
static int graph_same(const Graph *a, const Graph *b) {
    if (a->num_nodes != b->num_nodes || a->num_edges != b->num_edges || a->cost != b->cost) return 0;
    for (int i = 0; i < a->num_nodes; i++) {
        if (a->nodes[i].num_neighbours != b->nodes[i].num_neighbours) return 0;
        for (int j = 0; j < a->num_nodes; j++) if (I.w[i][j] && (a->edges_matrix[i][j].weight != b->edges_matrix[i][j].weight ||
            a->edges_matrix[i][j].prob != b->edges_matrix[i][j].prob)) return 0;
    }
    mask m = 0;
    for (int e = 0; e < a->num_edges; e++) {
        int s = a->edges[e].src, d = a->edges[e].dest;
        if (s >= I.n || d >= I.n || s == d || a->edges[e].weight != b->edges_matrix[s][d].weight || a->edges[e].prob != b->edges_matrix[s][d].prob) return 0;
        m |= B(idx[s][d]);
    }
    return bits(m) == a->num_edges;
}
static Graph before;
static char stdout_name[64], csv_name[64];

static void __attribute__((noinline)) poison_stack(int v) {
    volatile char a[1 << 20]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char) v;
}

/* fill: -1 leaves the memory of the problem as it is */
static void solve_here(int fill) {
    fflush(stdout); int fd = open(stdout_name, O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); close(fd);
    if (fill >= 0) memset(&P, fill, sizeof P);
    read_tsp_csv_file(&P.graph, csv_name);
    before = P.graph;
    vstart = vclock = I.start_clock; vstep = 10000; event_no = 0; clock_calls = 0; last_ms = 0; stage = 0; nopen = 0; has_cur = has_pend = 0;
    best = INFI; best_id = 0; best_lvl = 0; best_type = CLOSED_UNFEASIBLE; best_time = 0; best_tour = 0; best_at = -1;
    gen = nexpl = fixedc = maxid = 0; maxlvl = 0; nimproved = 0;
    if (fill > 0) poison_stack(fill);
    vclock_end = -1;
    branch_and_bound(&P);
    if (vclock_end < 0) vclock_end = vclock;
}

static void report(void) {
    /* reads back what the solve printed */
    tick();
    print_problem();
    fflush(stdout);
    static char text[1 << 16]; size_t len = 0;
    FILE *f = fopen(stdout_name, "r"); if (f) { fseek(f, 0, SEEK_END); long z = ftell(f); long from = z > 60000 ? z - 60000 : 0; fseek(f, from, SEEK_SET); len = fread(text, 1, 60000, f); fclose(f); }
    text[len] = 0;
    double pc = 0; char ptype[64] = ""; char *q = strstr(text, "SUBPROBLEM with cost = ");
    int wa[64], wb[64], nw = 0;
    if (q) { sscanf(q, "SUBPROBLEM with cost = %lf, type = %60[A-Z_1]", &pc, ptype);
        q = strstr(q, "Cycle with "); if (q) { char *c = strchr(q, ':'); if (c) { c++; int a, b, used;
            while (nw < 64 && sscanf(c, " %d <-> %d%n", &a, &b, &used) == 2) { wa[nw] = a; wb[nw] = b; nw++; c += used; if (*c == ',') c++; } } } }
    const char *pk = !strcmp(ptype, "CLOSED_NEAREST_NEIGHBOR") ? "nn" : !strcmp(ptype, "CLOSED_NEAREST_NEIGHBOR_HYBRID") ? "pnn"
        : !strcmp(ptype, "CLOSED_1TREE") ? "tree" : !strcmp(ptype, "CLOSED_SUBGRADIENT") ? "ascent" : "none";
    const SubProblem *b = &P.bestSolution;
    int cost = to_int(P.bestValue), value = to_int(b->value), same = graph_same(&P.graph, &before), okc;
    mask t = tour_mask(b, &okc);
    begin_event("report");
    out("\"cost\":%d,\"value\":%d,\"ncycle\":%d,\"kind\":\"%s\",\"pkind\":\"%s\",\"id\":%d,\"lvl\":%d,\"time\":%ld,\"prob\":%d,"
        "\"gen\":%d,\"expl\":%d,\"lvls\":%d,\"fixed\":%d,\"intr\":%d,\"pcost\":%d,\"same\":%d,", cost, value,
        b->num_edges_in_cycle, kind_name(b->type), pk, (int) b->id, b->treeLevel, lround(b->timeToReach * 1000.0), to_ppm(b->prob),
        (int) P.generatedBBNodes, (int) P.exploredBBNodes, P.totTreeLevels, (int) P.num_fixed_edges, P.interrupted, to_int(pc), same);
    out("\"tour\":[");
    for (int e = 0; e < b->num_edges_in_cycle && e < MAX_VERTEX_NUM; e++) out("%s%d", e ? "," : "", code(b->cycleEdges[e].src & 63, b->cycleEdges[e].dest & 63));
    out("],\"walk\":[");
    for (int k = 0; k < nw; k++) out("%s[%d,%d]", k ? "," : "", wa[k] & 63, wb[k] & 63);
    out("]}");
    /* monitor */
    int deg_ok = okc; long sum = 0; mask wm = 0;
    if (okc) { int dg[NV] = {0}; for (int k = 0; k < npairs; k++) if (t >> k & 1) { dg[pair_a[k]]++; dg[pair_b[k]]++; sum += I.w[pair_a[k]][pair_b[k]]; if (!I.w[pair_a[k]][pair_b[k]]) deg_ok = 0; }
        for (int v = 0; v < I.n; v++) if (dg[v] != 2) deg_ok = 0;
        for (int i = 0; i < I.n; i++) uf[i] = i;
        int comp = I.n; for (int k = 0; k < npairs; k++) if (t >> k & 1) { int x = uff(pair_a[k]), y = uff(pair_b[k]); if (x != y) { uf[x] = y; comp--; } }
        if (comp != 1) deg_ok = 0; }
    int walk_ok = nw == I.n;
    for (int k = 0; walk_ok && k < nw; k++) { int a = wa[k], bb = wb[k]; if (a < 0 || bb < 0 || a >= I.n || bb >= I.n || a == bb || wb[k] != wa[(k + 1) % nw]) walk_ok = 0; else wm |= B(idx[a][bb]); }
    if (cost < INFI) check(2, deg_ok && b->num_edges_in_cycle == I.n && sum == cost && value == cost && to_int(pc) == cost && walk_ok && wm == t);
    else check(2, value >= INFI && b->num_edges_in_cycle == 0 && nw == 0 && to_int(pc) >= INFI);
    if (!P.interrupted && nT) { if (T[0].c < cost - (cost >= INFI ? 0 : I.eps)) { object(1); flag_tour(0); } }
    check(5, cost == best && (cost >= INFI || t == best_tour));
    check(10, !P.interrupted || elapsed_ms() > 600999);
    check(10, P.interrupted || last_ms <= 600999);
    check(10, P.interrupted || (nopen == 0 && stage <= 1));
    check(10, cost == best && (cost >= INFI || t == best_tour));
    check(8, stage <= 1);
    check(11, P.generatedBBNodes == gen && P.exploredBBNodes == nexpl && P.totTreeLevels == maxlvl && P.num_fixed_edges == fixedc);
    if (cost < INFI) check(11, b->id == best_id && b->treeLevel == best_lvl && b->type == (BBNodeType) best_type && !strcmp(pk, kind_name(best_type)) && labs(lround(b->timeToReach * 1000.0) - best_time) <= 5);
    check(20, same);
    if (!HYBRID) check(21, b->prob == 0);
    else if (cost < INFI && okc) { long ps = 0; for (int k = 0; k < npairs; k++) if (t >> k & 1) ps += I.p[pair_a[k]][pair_b[k]]; check(21, labs((long) to_ppm(b->prob) * I.n - ps) <= 2 * I.n); }
    long res[10] = {cost, P.candidateNodeId, P.generatedBBNodes, P.exploredBBNodes, P.totTreeLevels, P.num_fixed_edges, P.interrupted, b->id, b->treeLevel, b->type};
    memcpy(sh->res, res, sizeof res); sh->tour = cost < INFI ? t : 0; sh->prob = cost < INFI ? to_ppm(b->prob) : 0;
    sh->finished = 1;
}

/* runs the instance I in a child; returns 1 when it finished */
static int hangs;
static int run_child(int trace) {
    size_t keep = 0;
    sh->verdict = 0; sh->finished = sh->truncated = sh->nodes = sh->events = sh->nflag = 0; sh->len = sh->whole = keep;
    sh->tree_fixed = sh->tree_drop = sh->tree_found = sh->tree_closed = sh->branchings = 0; sh->hash = 0;
    memset(sh->res, 0, sizeof sh->res);
    fflush(NULL);
    pid_t c = fork();
    if (c == 0) {
        struct rlimit lim = {30, 31}; setrlimit(RLIMIT_CPU, &lim); alarm(200);
        int z = open("/dev/null", O_WRONLY); dup2(z, 2);
        tracing = trace;
        solve_here(0);
        report();
        _exit(0);
    }
    int st; waitpid(c, &st, 0);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) hangs++;
    if (!sh->finished) {
        sh->verdict = 0x7fffffff & ~1u;
    }
    return sh->finished;
}

static long total_runs, total_nodes, total_found, total_fixed, total_dropped, total_branch, total_int, total_notour, total_sparse, total_nontrivial, flagged_runs, total_crash;

/* the JSON of the solve in sh, with the instance */
static void emit_solve(FILE *f, int first, int crashed, u64 t) {
    fprintf(f, "%s{\"seed\":%lld,\"n\":%d,\"N\":%d,\"hyb\":%d,\"eps\":%d,\"dec\":%d,\"cand\":%d,\"jump\":[%d,%ld],\"clock0\":%ld,\"w\":[", first ? "" : ",\n",
            (long long) (t % 1000000000), I.n, MAX_VERTEX_NUM, HYBRID, I.eps, I.dec, crashed ? 0 : (int) sh->res[1], I.jump_event, I.jump_to, I.start_clock);
    for (int q = 0; q < 2; q++) {
        for (int i = 0; i < I.n; i++) { fprintf(f, "%s[", i ? "," : ""); for (int j = 0; j < I.n; j++) fprintf(f, "%s%d", j ? "," : "", q ? I.p[i][j] : I.w[i][j]); fprintf(f, "]"); }
        fprintf(f, q ? "]," : "],\"p\":[");
    }
    fprintf(f, "\"tours\":[");
    int first_t = 1;
    if (I.n > 7) for (int k = 0; k < nT + sh->nflag; k++) {
        int q = k < nT ? k : sh->flagged_tours[k - nT];
        if (k < nT && k >= 40) { k = nT - 1; continue; }
        fprintf(f, "%s[", first_t ? "" : ","); first_t = 0; int ff = 1;
        for (int e = 0; e < npairs; e++) if (T[q].s >> e & 1) { fprintf(f, "%s%d", ff ? "" : ",", pair_a[e] * 64 + pair_b[e]); ff = 0; }
        fprintf(f, "]");
    }
    fprintf(f, "],\"ev\":[");
    if (crashed) fprintf(f, "{\"k\":\"crash\",\"t\":0}");
    else fwrite(sh->buf, 1, sh->len, f);
    fprintf(f, "]}");
}

static void count_run(void) {
    total_runs++; total_nodes += sh->nodes; total_found += sh->tree_found; total_fixed += sh->tree_fixed; total_dropped += sh->tree_drop;
    total_branch += sh->branchings; total_int += sh->res[6]; total_notour += opt >= INFI;
    int m = 0; for (int i = 0; i < I.n; i++) for (int j = i + 1; j < I.n; j++) m += I.w[i][j] > 0;
    total_sparse += m < I.n * (I.n - 1) / 2; total_nontrivial += sh->nodes > 1;
}

/* ------------------------------------------------------------------ the service: histories of requests */
#define POOL 8
static Inst pool[POOL]; static int npool;
static void make_pool(const char *profile, u64 salt, long t) {
    seed(salt, t); u64 a = rnd();
    npool = POOL;
    for (int k = 0; k < POOL; k++) {
        if (strchr(profile, 'x') && k > 0) {           /* the same weights, other probabilities */
            seed(a, k); I = pool[0];
            int how = k % 4;
            for (int i = 0; i < I.n; i++) for (int j = i + 1; j < I.n; j++)
                I.p[i][j] = I.p[j][i] = how == 1 ? 0 : how == 2 ? 1000000 : how == 3 ? (int) below(1000001) : below(4) ? 0 : 1000000;
        } else {
            generate(k % 3 == 1 || strchr(profile, 'd') ? "d" : "a", a, k);
            seed(a, k + 100);
            if (!strchr(profile, 'x') && k == POOL - 1) { I.jump_event = 1 + below(25); I.jump_to = below(2) ? 601000 : 3000000; }
            if (k == POOL - 2 && !strchr(profile, 'x')) { int v = below(I.n); for (int u = 0; u < I.n; u++) I.w[u][v] = I.w[v][u] = 0;
                if (I.n > 3 && below(2)) { int u = (v + 1) % I.n; I.w[u][v] = I.w[v][u] = 5000; } }   /* no tour */
        }
        pool[k] = I;
    }
}
static void answer(int inst, int mem) {
    I = pool[inst]; opt = INFI; nT = 0;
    write_csv(csv_name);
    if (mem == 2) mallopt(M_PERTURB, 0x5a);
    solve_here(mem == 0 ? 0 : mem == 1 ? -1 : mem == 2 ? 0xa5 : 0x01);
    report();
    const SubProblem *b = &P.bestSolution;
    tracing = 1; sh->whole = sh->len;
    out("%s{\"i\":%d,\"m\":%d,\"same\":%d,\"cost\":%ld,\"prob\":%ld,\"time\":%ld,\"intr\":%ld,\"st\":[", sh->nodes > 0 && sh->len ? "," : "", inst, mem,
        graph_same(&P.graph, &before), sh->res[0], (long) to_ppm(b->prob), lround(b->timeToReach * 1000.0), sh->res[6]);
    for (int k = 1; k < 10; k++) out("%s%ld", k > 1 ? "," : "", sh->res[k]);
    out("],\"tour\":[");
    int okc; mask m = tour_mask(b, &okc); int first = 1;
    for (int k = 0; okc && k < npairs; k++) if (m >> k & 1) { out("%s%d", first ? "" : ",", pair_a[k] * 64 + pair_b[k]); first = 0; }
    out("]}");
    tracing = 0;
}
static int service(int argc, char **argv) {
    const char *outfile = argv[1], *profile = argv[7]; u64 sd = strtoull(argv[2], 0, 10); long count = atol(argv[3]); double seconds = atof(argv[8]);
    FILE *h = fopen(argv[9], "r"); if (!h) return 2;
    static char *line[100000]; int nl = 0; char *buf = NULL; size_t cap = 0;
    while (nl < 100000 && getline(&buf, &cap, h) > 0) line[nl++] = strdup(buf);
    fclose(h);
    FILE *f = fopen(outfile, "w"); fprintf(f, "[");
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    long t, histories = 0, answers = 0, crashes = 0;
    for (t = 0; t < count && hangs < 2 && crashes < 20; t++) {
        clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9 > seconds) break;
        make_pool(profile, sd * 1000003ULL + MAX_VERTEX_NUM * 16, t);
        fprintf(f, "%s{\"seed\":%lu,\"pool\":%ld,\"N\":%d,\"hyb\":%d,\"inst\":[", t ? ",\n" : "", (unsigned long) sd, t, MAX_VERTEX_NUM, HYBRID);
        for (int k = 0; k < npool; k++) {
            fprintf(f, "%s{\"n\":%d,\"eps\":%d,\"w\":[", k ? "," : "", pool[k].n, pool[k].eps);
            for (int q = 0; q < 2; q++) {
                for (int i = 0; i < pool[k].n; i++) { fprintf(f, "%s[", i ? "," : ""); for (int j = 0; j < pool[k].n; j++) fprintf(f, "%s%d", j ? "," : "", q ? pool[k].p[i][j] : pool[k].w[i][j]); fprintf(f, "]"); }
                fprintf(f, q ? "]}" : "],\"p\":[");
            }
        }
        fprintf(f, "],\"hist\":["); int firsth = 1;
        for (int q = 0; q < nl; q++) {
            int used, pick, r; char *c = line[q];
            sscanf(c, "%d%n", &pick, &used); c += used;
            if (pick && t % pick) continue;
            sh->len = sh->whole = 0; sh->finished = 0; sh->nodes = 0; sh->truncated = 0; tracing = 0; log_r = 0;
            fflush(NULL);
            pid_t p = fork();
            if (p == 0) {
                struct rlimit lim = {30, 31}; setrlimit(RLIMIT_CPU, &lim); alarm(200);
                int z = open("/dev/null", O_WRONLY); dup2(z, 2);
                while (sscanf(c, "%d%n", &r, &used) == 1) { c += used; answer(r % 100, r / 100); sh->nodes++; }
                sh->nodes = -1;
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) hangs++;
            histories++;
            fprintf(f, "%s[", firsth ? "" : ","); firsth = 0;
            fwrite(sh->buf, 1, sh->len, f);
            for (size_t k = 0; k < sh->len; k++) answers += sh->buf[k] == 'm';
            if (sh->nodes != -1) { crashes++; fprintf(f, "%s{\"i\":-1}", sh->len ? "," : ""); }
            fprintf(f, "]");
        }
        fprintf(f, "]}");
    }
    fprintf(f, "]\n"); fclose(f);
    unlink(stdout_name); unlink(csv_name);
    printf("{\"pools\":%ld,\"histories\":%ld,\"answers\":%ld,\"crashes\":%ld}\n", t, histories, answers, crashes);
    return 0;
}

/* ------------------------------------------------------------------ result files */
static void keep_report(const char *file) {
    solve_here(0);
    tick();
    print_problem();
    fflush(stdout);
    rename(stdout_name, file);
    const SubProblem *b = &P.bestSolution;
    tracing = 1;
    out("\"n\":%d,\"hyb\":%d,\"origin\":\"%s\",\"cost\":\"%.6f\",\"prob\":\"%.6f\",\"lvl\":%d,\"id\":%u,\"best\":\"%.6f\",\"elapsed\":\"%.6f\",\"intr\":%d,"
        "\"gen\":%u,\"expl\":%u,\"lvls\":%u,\"imp\":[", I.n, HYBRID, P.bestValue < INFINITE ? kind_name(b->type) : "none", P.bestValue, b->prob, (int) b->treeLevel,
        b->id, b->timeToReach, (vclock_end - vstart) / 1e6, P.interrupted, P.generatedBBNodes, P.exploredBBNodes, P.totTreeLevels);
    for (int k = 0; k < nimproved; k++) out("%s[\"%.6f\",\"%.6f\"]", k ? "," : "", improved[k].value, improved[k].us / 1e6);
    out("],\"tour\":[");
    for (int e = 0; e < b->num_edges_in_cycle && e < MAX_VERTEX_NUM; e++) out("%s%d", e ? "," : "", code(b->cycleEdges[e].src & 63, b->cycleEdges[e].dest & 63));
    out("]");
    tracing = 0;
}
static int reports(char **argv) {
    maxevents = 40000;
    const char *profile = argv[7] + 7; u64 sd = strtoull(argv[2], 0, 10); long count = atol(argv[3]); double seconds = atof(argv[8]);
    FILE *f = fopen(argv[1], "w"); fprintf(f, "[");
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    u64 salt = sd * 1000003ULL + MAX_VERTEX_NUM * 16 + HYBRID; long k = 0, crashes = 0;
    for (long t = 0; t < count && crashes < 10; t++) {
        clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9 > seconds) break;
        generate(profile, salt, t);
        if (t % 12 == 11) { int v = below(I.n); for (int u = 0; u < I.n; u++) I.w[u][v] = I.w[v][u] = 0; }     /* no tour */
        write_csv(csv_name);
        int nev = 0;
        for (int v = 0; v < 3 && (v == 0 || nev > 1); v++) {
            if (v) { seed(salt + t, v + 1000); I.jump_event = below(nev); I.jump_to = below(2) ? 601000 : 601000 + below(100000); }
            char file[512]; snprintf(file, sizeof file, "%s/%ld.txt", argv[9], k);
            sh->len = sh->whole = 0; sh->finished = sh->truncated = sh->events = 0;
            fflush(NULL);
            pid_t c = fork();
            if (c == 0) {
                struct rlimit lim = {30, 31}; setrlimit(RLIMIT_CPU, &lim); alarm(200);
                int z = open("/dev/null", O_WRONLY); dup2(z, 2);
                keep_report(file); sh->finished = 1;
                _exit(0);
            }
            int st; waitpid(c, &st, 0);
            if (!sh->finished || sh->truncated) { crashes++; fprintf(f, "%s{\"k\":%ld,\"crash\":1}", k ? ",\n" : "", k); k++; break; }
            nev = sh->events;
            fprintf(f, "%s{\"k\":%ld,\"crash\":0,", k ? ",\n" : "", k); fwrite(sh->buf, 1, sh->len, f); fprintf(f, "}");
            k++;
        }
    }
    fprintf(f, "]\n"); fclose(f);
    unlink(stdout_name); unlink(csv_name);
    printf("{\"reports\":%ld,\"crashes\":%ld}\n", k, crashes);
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 10) return 2;
    const char *outfile = argv[1]; u64 sd = strtoull(argv[2], 0, 10); long count = atol(argv[3]); int sample = atoi(argv[4]), maxflag = atoi(argv[5]);
    int prop = atoi(argv[6]); const char *profile = argv[7]; double seconds = atof(argv[8]); log_r = atoi(argv[9]);
    make_index();
    dp = malloc(sizeof(int) * NV << NV);
    sh = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    snprintf(stdout_name, sizeof stdout_name, "o_%d", getpid()); snprintf(csv_name, sizeof csv_name, "i_%d.csv", getpid());
    if (strncmp(profile, "report:", 7) == 0) return reports(argv);
    if (strncmp(profile, "service:", 8) == 0) { argv[7] = argv[7] + 8; return service(argc, argv); }
    FILE *f = fopen(outfile, "w"); fprintf(f, "[");
    int first = 1, flags = 0, sampled = 0, trivial = 0; long next = 0; struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    u64 salt = sd * 1000003ULL + MAX_VERTEX_NUM * 16 + HYBRID;
    long t;
    for (t = 0; t < count; t++) {
        clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9 > seconds || hangs > 1) break;
        generate(profile, salt, t);
        make_tours(); write_csv(csv_name);
        int variants = 1, nev = 0;
        if (strchr(profile, 'j')) { run_child(0); nev = sh->events; variants = nev > 1 ? 6 : 1; if (strchr(profile, 'J')) variants = nev * 2; }
        for (int v = 0; v < variants; v++) {
            if (strchr(profile, 'j') && v > 0) {
                seed(salt + t, v + 1000);
                I.jump_event = strchr(profile, 'J') ? v / 2 : (int) below(nev);
                /* also beyond what 16 bits of seconds and 31 or 32 bits of microseconds hold */
                static const long to[] = {600000, 601000, 601000, 603000, 3000000, 601000, 4300000, 65600000, 8600000, 5000000};
                I.jump_to = to[strchr(profile, 'J') ? (v & 1) : below(10)];
                I.jump_call = 0;
                if (!strchr(profile, 'J') && v == 5) { I.jump_event = -1; I.jump_call = 2 + below(I.n); }
            }
            int want = sampled < sample && t >= next;
            int ok = run_child(want);
            count_run();
            int suspicious = prop ? (sh->verdict >> prop & 1) : sh->verdict != 0;
            if (suspicious) {
                flagged_runs++;
                unsigned v1 = sh->verdict;
                if (flags >= maxflag) continue;
                ok = run_child(1);            /* again, with a trace */
                if ((sh->verdict & v1) == 0) continue;
                if (!ok) total_crash++;
                flags++;
            } else if (!want || sh->truncated || sh->events > 300 || (sh->nodes < 3 && trivial >= sample / 4)) continue;
            else { sampled++; trivial += sh->nodes < 3; next = t + count / (sample + 1); }
            emit_solve(f, first, !ok, t); first = 0;
        }
    }
    fprintf(f, "]\n"); fclose(f);
    unlink(stdout_name); unlink(csv_name);
    printf("{\"N\":%d,\"hyb\":%d,\"instances\":%ld,\"runs\":%ld,\"nontrivial\":%ld,\"nodes\":%ld,\"branchings\":%ld,\"improvements\":%ld,\"forced\":%ld,\"dropped\":%ld,"
           "\"interrupted\":%ld,\"notour\":%ld,\"sparse\":%ld,\"suspicious\":%ld,\"crashed\":%ld,\"traces\":%d}\n", MAX_VERTEX_NUM, HYBRID, t, total_runs, total_nontrivial,
           total_nodes, total_branch, total_found, total_fixed, total_dropped, total_int, total_notour, total_sparse, flagged_runs, total_crash, sampled + flags);
    return 0;
}
