/* Executes operation sequences on the data structures of the solver and writes down what they answer.
 *
 * ds KIND IN OUT: KIND h (heap), f (merge-find forest), l (generic list), s (list of subproblems).
 * IN: one sequence per line, numbers and operation letters; OUT: one line of answers per sequence, "crash" at its end
 * when the sequence did not come to its end. Sequences run in child processes.
 *   h: i K V insert, d K V decrease, x extract -> answer, k K delete, v values of the elements present
 *      answers: per operation "r n" (answer, elements reported); v: count and K V pairs of the elements the driver
 *      believes present
 *   f: N SKIP first; m A B merge, f A find -> representative, a all -> representatives
 *   l, s: b X add at the bottom, i X K add at index, t delete at the bottom, k K delete at index, o observe
 *      per operation: size empty; o: the elements at index 0 .. size, then those of an iteration, -1 ended
 */
#include "lines.h"
#include "data_structures/fibonacci_heap.h"
#include "data_structures/mfset.h"
#include "data_structures/b_and_b_data.h"
#include "data_structures/doubly_linked_list/list_functions.h"
#include "data_structures/doubly_linked_list/list_iterator.h"

extern void delete_node(FibonacciHeap *heap, OrdTreeNode *node) __attribute__((weak));

#define MAXKEYS 4096
static double val(int v) { return v >= 1000000000 ? DBL_MAX : v; }
static int ival(double d) { return d >= 1e9 ? 1000000000 : (int) d; }

static void heap_line(char *p) {
    static OrdTreeNode node[MAXKEYS]; static char present[MAXKEYS];
    static FibonacciHeap h;
    memset(present, 0, sizeof present); memset(node, 0x5a, sizeof node);
    create_fibonacci_heap(&h);
    char op; int used, k, v;
    while (sscanf(p, " %c%n", &op, &used) == 1) {
        p += used;
        int r = 0;
        if (op == 'i' || op == 'd') { sscanf(p, "%d %d%n", &k, &v, &used); p += used; }
        if (op == 'k') { sscanf(p, "%d%n", &k, &used); p += used; }
        if (op == 'i') { create_insert_node(&h, &node[k], k, val(v)); present[k] = 1; }
        else if (op == 'd') decrease_value(&h, &node[k], val(v));
        else if (op == 'k') { delete_node(&h, &node[k]); present[k] = 0; }
        else if (op == 'x') { r = extract_min(&h); if (r >= 0 && r < MAXKEYS) present[r] = 0; }
        if (op == 'v') {
            int n = 0; for (int q = 0; q < MAXKEYS; q++) n += present[q];
            out(n); for (int q = 0; q < MAXKEYS; q++) if (present[q]) { out(q); out(ival(node[q].value)); }
        } else { out(r); out(h.num_nodes); }
    }
}

static void forest_line(char *p) {
    static Forest f; static Node nodes[MAX_VERTEX_NUM];
    int n, skip, used, a, b; char op;
    sscanf(p, "%d %d%n", &n, &skip, &used); p += used;
    memset(&f, 0x5a, sizeof f);
    for (int i = 0; i < n; i++) { memset(&nodes[i], 0, sizeof nodes[i]); nodes[i].positionInGraph = i; }
    if (skip < 0) create_forest(&f, nodes, n); else create_forest_constrained(&f, nodes, n, skip);
    while (sscanf(p, " %c%n", &op, &used) == 1) {
        p += used;
        if (op == 'm') { sscanf(p, "%d %d%n", &a, &b, &used); p += used; merge(&f.sets[a], &f.sets[b]); }
        else if (op == 'f') { sscanf(p, "%d%n", &a, &used); p += used; Set *r = find(&f.sets[a]); out(r == &f.sets[r->num_in_forest] ? r->num_in_forest : 9999); }
        else if (op == 'a') for (int i = 0; i < n; i++) {
            if (i == skip) { out(-1); continue; }
            Set *r = find(&f.sets[i]);
            /* the set carries its own node */
            out(f.sets[i].curr.positionInGraph == i && r >= f.sets && r < f.sets + n ? (int) (r - f.sets) : 9999);
        }
    }
}

/* subproblems with contents that follow from their number */
static unsigned long mix;
static unsigned nxt(void) { mix = mix * 6364136223846793005UL + 1442695040888963407UL; return (unsigned) (mix >> 40); }
static void fill_sub(SubProblem *s, int x) {
    memset(s, 0, sizeof *s);
    mix = x * 77UL + 5;
    s->type = nxt() % 7; s->id = x; s->fatherId = nxt(); s->value = nxt() / 8.0; s->treeLevel = nxt(); s->timeToReach = nxt() % 4096;
    s->num_edges_in_cycle = nxt(); s->prob = nxt() / 16.0; s->num_forbidden_edges = nxt(); s->num_mandatory_edges = nxt(); s->edge_to_branch = nxt();
    for (int i = 0; i < MAX_VERTEX_NUM; i++) {
        s->cycleEdges[i].src = nxt(); s->cycleEdges[i].dest = nxt();
        s->mandatoryEdges[i].src = nxt(); s->mandatoryEdges[i].dest = nxt();
        for (int j = 0; j < MAX_VERTEX_NUM; j++) s->constraints[i][j] = nxt() % 3;
    }
    s->oneTree.isValid = nxt() & 1; s->oneTree.cost = nxt(); s->oneTree.num_nodes = nxt(); s->oneTree.num_edges = nxt(); s->oneTree.prob = nxt();
    for (int i = 0; i < MAX_VERTEX_NUM; i++) { s->oneTree.edges[i].src = nxt(); s->oneTree.edges[i].dest = nxt(); s->oneTree.edges[i].weight = nxt(); }
}
static int same_sub(const SubProblem *s) {
    static SubProblem t; fill_sub(&t, s->id);
    if (s->type != t.type || s->fatherId != t.fatherId || s->value != t.value || s->treeLevel != t.treeLevel || s->timeToReach != t.timeToReach
        || s->num_edges_in_cycle != t.num_edges_in_cycle || s->prob != t.prob || s->num_forbidden_edges != t.num_forbidden_edges
        || s->num_mandatory_edges != t.num_mandatory_edges || s->edge_to_branch != t.edge_to_branch
        || memcmp(s->constraints, t.constraints, sizeof t.constraints)) return 0;
    for (int i = 0; i < MAX_VERTEX_NUM; i++) if (s->cycleEdges[i].src != t.cycleEdges[i].src || s->cycleEdges[i].dest != t.cycleEdges[i].dest
        || s->mandatoryEdges[i].src != t.mandatoryEdges[i].src || s->mandatoryEdges[i].dest != t.mandatoryEdges[i].dest
        || s->oneTree.edges[i].src != t.oneTree.edges[i].src || s->oneTree.edges[i].dest != t.oneTree.edges[i].dest
        || s->oneTree.edges[i].weight != t.oneTree.edges[i].weight) return 0;
    return s->oneTree.isValid == t.oneTree.isValid && s->oneTree.cost == t.oneTree.cost && s->oneTree.num_nodes == t.oneTree.num_nodes
        && s->oneTree.num_edges == t.oneTree.num_edges && s->oneTree.prob == t.oneTree.prob;
}
static int sub_no(const SubProblem *s) { return !s ? 0 : same_sub(s) ? (int) s->id : -2; }

static int items[1 << 16];
static int item_no(void *v) { return !v ? 0 : (int *) v >= items && (int *) v < items + (1 << 16) ? *(int *) v : -2; }

static void list_line(char *p, int sub) {
    static SubProblemsList sl; static SubProblem tmp;
    List *l = NULL;
    if (sub) { memset(&sl, 0x5a, sizeof sl); new_SubProblemList(&sl); } else l = new_list();
    char op; int used, x = 0, k = 0;
    while (sscanf(p, " %c%n", &op, &used) == 1) {
        p += used;
        if (op == 'b' || op == 'i') { sscanf(p, "%d%n", &x, &used); p += used; items[x] = x; if (sub) fill_sub(&tmp, x); }
        if (op == 'k' || op == 'i') { sscanf(p, "%d%n", &k, &used); p += used; }
        if (op == 'b') { if (sub) add_elem_SubProblemList_bottom(&sl, &tmp); else add_elem_list_bottom(l, &items[x]); }
        else if (op == 'i') { if (sub) add_elem_SubProblemList_index(&sl, &tmp, k); else add_elem_list_index(l, &items[x], k); }
        else if (op == 't') delete_list_elem_bottom(l);
        else if (op == 'k') { if (sub) delete_SubProblemList_elem_index(&sl, k); else delete_list_elem_index(l, k); }
        memset(&tmp, 0xee, sizeof tmp);
        int n = (int) (sub ? get_SubProblemList_size(&sl) : get_list_size(l));
        if (op == 'o') {
            for (int i = 0; i <= n; i++) out(sub ? sub_no(get_SubProblemList_elem_index(&sl, i)) : item_no(get_list_elem_index(l, i)));
            int steps = 0;
            if (sub) {
                SubProblemsListIterator *it = create_SubProblemList_iterator(&sl);
                while (is_SubProblemList_iterator_valid(it) && steps++ <= n + 2) out(sub_no(SubProblemList_iterator_get_next(it)));
                if (SubProblemList_iterator_get_next(it)) out(-3);
                delete_SubProblemList_iterator(it);
            } else {
                ListIterator *it = create_list_iterator(l);
                while (is_list_iterator_valid(it) && steps++ <= n + 2) {
                    int cur = item_no(get_current_list_iterator_element(it));
                    int got;
                    if (steps & 1) { got = cur; list_iterator_next(it); } else got = item_no(list_iterator_get_next(it));
                    out(got == cur ? got : -3);
                }
                if (list_iterator_get_next(it)) out(-3);
                delete_list_iterator(it);
            }
            out(-1);
        } else { out(n); out(sub ? is_SubProblemList_empty(&sl) : is_list_empty(l)); }
    }
    if (sub) delete_SubProblemList(&sl); else del_list(l);
}

static void do_line(char kind, char *p) {
    if (kind == 'h') heap_line(p); else if (kind == 'f') forest_line(p); else list_line(p, kind == 's');
}
