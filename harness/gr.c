/* Spanning trees and the sort of the edges.
 * gr KIND IN OUT. A line: N M B, then M times S D W P (weight W times 2 to the B, probability P / 1000), the edges in order.
 *   m: three times (Prim, Kruskal, Prim on the sorted graph) "valid cost count", then count times "s d w"
 *   s: after the sort "count", count times "s d w p position", then for each edge both ways its lookup "position w p same",
 *      then 1 when a second sort left everything as it was
 */
#include "lines.h"
#include <float.h>
#include <math.h>
#include "algorithms/kruskal.h"
#include "algorithms/prim.h"

static int scaled(double x, double by) {
    double y = x * by, r = floor(y + 0.5);
    return fabs(y - r) < 1e-6 && fabs(r) < 2e9 ? (int) r : 2000000001;
}
static Graph g, h;
static double unit;
static MST t;

static void tree(void) {
    out(t.isValid); out(scaled(t.cost, 1 / unit)); out(t.num_edges);
    for (int k = 0; k < t.num_edges && k < MAX_VERTEX_NUM; k++) {
        out(t.edges[k].src); out(t.edges[k].dest); out(scaled(t.edges[k].weight, 1 / unit));
    }
}

static void do_line(char kind, char *p) {
    int n, m, bits, used;
    sscanf(p, "%d %d %d%n", &n, &m, &bits, &used); p += used;
    unit = ldexp(1, bits);
    Node *nodes = calloc(n + 1, sizeof(Node)); Edge *edges = calloc(m + 1, sizeof(Edge));
    List *ln = new_list(), *le = new_list();
    for (int i = 0; i < n; i++) { nodes[i].positionInGraph = i; nodes[i].x = i; add_elem_list_bottom(ln, &nodes[i]); }
    int *s = calloc(m + 1, sizeof(int)), *d = calloc(m + 1, sizeof(int));
    for (int k = 0; k < m; k++) {
        int w, q; sscanf(p, "%d %d %d %d%n", &s[k], &d[k], &w, &q, &used); p += used;
        edges[k].src = s[k]; edges[k].dest = d[k]; edges[k].weight = w * unit; edges[k].prob = q / 1000.0;
        edges[k].symbol = k + 1; edges[k].positionInGraph = k;
        add_elem_list_bottom(le, &edges[k]);
    }
    memset(&g, 0x5a, sizeof g); memset(&t, 0x5a, sizeof t);
    create_graph(&g, ln, le, WEIGHTED_GRAPH);
    free(nodes); free(edges);
    if (kind == 'm') {
        prim(&g, &t); tree(); memset(&t, 0x5a, sizeof t);
        kruskal(&g, &t); tree(); memset(&t, 0x5a, sizeof t);
        prim(&g, &t); tree();
    } else {
        wrap_quick_sort(&g);
        out(g.num_edges);
        for (int k = 0; k < m; k++) {
            out(g.edges[k].src); out(g.edges[k].dest); out(scaled(g.edges[k].weight, 1 / unit)); out(scaled(g.edges[k].prob, 1000));
            out(g.edges[k].positionInGraph);
        }
        for (int k = 0; k < m; k++) for (int r = 0; r < 2; r++) {
            Edge *e = r ? &g.edges_matrix[d[k]][s[k]] : &g.edges_matrix[s[k]][d[k]];
            out(e->positionInGraph); out(scaled(e->weight, 1 / unit)); out(scaled(e->prob, 1000));
            out((e->src == s[k] && e->dest == d[k]) || (e->src == d[k] && e->dest == s[k]));
        }
        memcpy(&h, &g, sizeof g);
        wrap_quick_sort(&g);
        out(memcmp(&h, &g, sizeof g) == 0);
    }
    free(s); free(d);
}
