From f6a22ad991987577bf5263b541d761f610b8eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/21] fix: force mandatory edges into the constrained
 spanning tree at any weight scale

The weight given to a mandatory edge, -num_nodes, is not below every
reformulated weight (w + pi) when weights are large, so an edge that is not
mandatory could replace a mandatory one and the bound was not valid.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..43ff047 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -590,9 +590,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -INFINITE;
+            graph_copy.edges_matrix[dest][src].weight = -INFINITE;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -INFINITE;
         }
     }
 
-- 
2.43.0


From e85b51e710182c8fa19577abdae6df499970c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 02/21] fix: accept a greedy walk as a tour only if all its
 edges exist

On graphs with missing edges the (probability) nearest neighbour walks used
the adjacency entries of missing edges, so a walk that is not a tour became
the best solution; with no tour at all the solution was left uninitialised.
---
 .../main/algorithms/branch_and_bound.c        | 55 +++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 43ff047..c69484a 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -841,8 +841,19 @@ bool time_limit_reached(void) {
 }
 
 
+static bool are_neighbours(const Graph *graph, unsigned short node1, unsigned short node2) {
+    for (unsigned short i = 0; i < graph->nodes[node1].num_neighbours; i++) {
+        if (graph->nodes[node1].neighbours[i] == node2) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
+    bool is_tour = true;
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
@@ -855,6 +866,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
     for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!are_neighbours(&problem->graph, current_node, start_node)) {
+                is_tour = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -872,6 +887,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                is_tour = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -881,7 +900,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    nn_subProblem.value = is_tour ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -894,10 +913,15 @@ void nearest_prob_neighbour(unsigned short start_node) {
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
+        is_tour = true;
 
         for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!are_neighbours(&problem->graph, current_node, start_node)) {
+                    is_tour = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -915,6 +939,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    is_tour = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -924,7 +952,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = is_tour ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1012,11 +1040,30 @@ bool check_feasibility(Graph *graph) {
 void branch_and_bound(Problem *current_problem) {
 
     problem = current_problem;
+    problem->start = clock();
+    problem->end = problem->start;
+    problem->candidateNodeId = 0;
+    problem->exploredBBNodes = 0;
+    problem->generatedBBNodes = 0;
+    problem->totTreeLevels = 0;
+    problem->num_fixed_edges = 0;
+    problem->interrupted = false;
+    problem->bestValue = INFINITE;
+    // no tour is known yet
+    problem->bestSolution.type = CLOSED_UNFEASIBLE;
+    problem->bestSolution.id = 0;
+    problem->bestSolution.fatherId = -1;
+    problem->bestSolution.treeLevel = 0;
+    problem->bestSolution.value = INFINITE;
+    problem->bestSolution.timeToReach = 0;
+    problem->bestSolution.prob = 0;
+    problem->bestSolution.edge_to_branch = -1;
+    problem->bestSolution.num_edges_in_cycle = 0;
+    problem->bestSolution.num_forbidden_edges = 0;
+    problem->bestSolution.num_mandatory_edges = 0;
 
     if (check_feasibility(&problem->graph)) {
 
-        problem->start = clock();
-        problem->bestValue = INFINITE;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
-- 
2.43.0


From d4de1fc7f67f10c4b5081c63d398e3ddb22dfbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/21] fix: infer and fix edges among the vertices of the
 instance only

infer_constraints and variable_fixing ranged over MAX_VERTEX_NUM vertices, so
on an instance with fewer vertices they counted vertices that do not exist
and read 1-tree edges that were never written: optimal tours were lost.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index c69484a..b35c534 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -186,14 +186,14 @@ bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
 
-    for (short i = 0; i < MAX_VERTEX_NUM && valid; i++) {
+    for (short i = 0; i < problem->graph.num_nodes && valid; i++) {
 
         short num_nothing_node = 0;
         short num_mandatory_node = 0;
         short num_forbidden_node = 0;
         short nothing_nodes[MAX_VERTEX_NUM];
 
-        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
+        for (short j = 0; j < problem->graph.num_nodes; j++) {
             if (subProblem->constraints[i][j] == NOTHING) {
                 nothing_nodes[num_nothing_node] = j;
                 num_nothing_node++;
@@ -211,9 +211,9 @@ bool infer_constraints(SubProblem * subProblem){
                 subProblem->num_forbidden_edges++;
                 problem->num_fixed_edges++;
             }
-        } else if (num_mandatory_node > 2 || (MAX_VERTEX_NUM - num_forbidden_node < 2)) {
+        } else if (num_mandatory_node > 2 || (problem->graph.num_nodes - num_forbidden_node < 2)) {
             valid = false;
-        } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
+        } else if (problem->graph.num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
                 for (short j = 0; j < num_nothing_node; j++) {
@@ -469,7 +469,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < problem->graph.num_nodes; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From dcf2f7f1f8babe100d31964e212f53e6fc85b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/21] fix: room for the mandatory edges of infeasible
 subproblems

The degree rules can make more than num_nodes edges mandatory, or more than two
at the starting vertex, before the subproblem is found infeasible: the writes
past mandatoryEdges changed the constraints, those past bestEdges the stack.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c  | 4 ++--
 src/HybridSolver/main/data_structures/b_and_b_data.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index b35c534..e8022db 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -88,8 +88,8 @@ bool check_hamiltonian(SubProblem *subProblem) {
 BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
     Node candidate = graph->nodes[problem->candidateNodeId];
-    int bestEdgesPos[2];
-    double bestEdgesWeight[2];
+    int bestEdgesPos[3];
+    double bestEdgesWeight[3];
     unsigned short src = candidate.positionInGraph;
     unsigned short others [candidate.num_neighbours];
     unsigned short num_others = 0;
diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.h b/src/HybridSolver/main/data_structures/b_and_b_data.h
index f76eda6..7b8b438 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.h
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.h
@@ -53,7 +53,7 @@ typedef struct SubProblem{
     unsigned short num_forbidden_edges; ///< The number of forbidden edges in the SubProblem.
     unsigned short num_mandatory_edges; ///< The number of mandatory edges in the SubProblem.
     int edge_to_branch; ///< The id of the edge to branch in the SubProblem.
-    ConstrainedEdge mandatoryEdges [MAX_VERTEX_NUM]; ///< The mandatory edges in the SubProblem.
+    ConstrainedEdge mandatoryEdges [MAX_EDGES_NUM + 1]; ///< The mandatory edges in the SubProblem, before a SubProblem is recognized as infeasible they can be more than the nodes.
     ConstraintType constraints [MAX_VERTEX_NUM][MAX_VERTEX_NUM]; ///< The constraints of the edges in the SubProblem.
 }SubProblem;
 
-- 
2.43.0


From b25a635756164bd16cae703a66ef4bdf24d0c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 05/21] fix: size the degree table of the Fibonacci heap by log
 phi

After cuts a tree of degree k can have only Fibonacci(k + 2) nodes, so with the
log2 size consolidate wrote past degree_list (degree 8 with 55 nodes).
---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..efb9dd6 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,8 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    // because of the cuts, the degree of a root is bounded by the logarithm in base phi, not in base 2
+    int dimension = ((int) ceil(log(heap->num_nodes) / log((1 + sqrt(5)) / 2))) + 2;
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From 615d010711a2f525fd3245725591adccf430ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 06/21] fix: keep the tail of the lists up to date

An insertion at index size left the tail on the old last element, so the next
append dropped it; deleting the last of one element dereferenced NULL.
---
 src/HybridSolver/main/data_structures/b_and_b_data.c       | 1 +
 .../data_structures/doubly_linked_list/list_functions.c    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..f120683 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -99,6 +99,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..0a224f2 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -110,6 +110,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
@@ -133,7 +134,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail != NULL) {
+        list->tail->next = NULL;
+    } else {
+        list->head = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From 49847568e14a918ccb5a19406cbf926afbeaf3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/21] fix: initialise the time and the branching edge of the
 greedy tours

print_problem printed uninitialised values when a greedy tour was the best one.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index e8022db..da7b561 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -903,6 +903,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
     nn_subProblem.value = is_tour ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
 
     if (HYBRID) {
@@ -910,6 +911,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
+        prob_nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
@@ -955,6 +957,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.value = is_tour ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
+        prob_nn_subProblem.edge_to_branch = -1;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
 
         bool better_prob = prob_nn_subProblem.value < nn_subProblem.value;
-- 
2.43.0


From 5a4754462a8096fc628fb3de9f34160ebd1fcf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 08/21] fix: accept EUC_2D TSPLIB files and only those

The test was inverted: any file with a header line other than the EUC_2D one
was accepted, so files with another edge weight type were read as Euclidean.
---
 src/HybridSolver/main/tsp_instance_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..a72026c 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,7 +28,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
+        if (strstr(line, "EDGE_WEIGHT_TYPE") != NULL && strstr(line, "EUC_2D") != NULL) {
             check_euc_2d = true;
         }
     }
-- 
2.43.0


From 8155eb778216d4dfdc2b96fbbd937af14660d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 09/21] fix: reject instances with more vertices than the
 solver was built for

Both readers wrote past the arrays of the graph.
---
 src/HybridSolver/main/tsp_instance_reader.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index a72026c..144ab19 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -56,6 +56,10 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
                 printf("\nFile: %s\n", filename);
                 exit(1);
             }
+            if (i == MAX_VERTEX_NUM) {
+                fprintf(stderr, "The instance has more than %d nodes.\n", MAX_VERTEX_NUM);
+                exit(1);
+            }
             nodes[i].positionInGraph = i;
             nodes[i].x = x;
             nodes[i].y = y;
@@ -107,6 +111,10 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     printf("\nFile: %s\n", filename);
                     exit(1);
                 }
+                if (node_num == MAX_VERTEX_NUM) {
+                    fprintf(stderr, "The instance has more than %d nodes.\n", MAX_VERTEX_NUM);
+                    exit(1);
+                }
                 graph->nodes[node_num].positionInGraph = node_num;
                 graph->nodes[node_num].x = x;
                 graph->nodes[node_num].y = y;
@@ -117,9 +125,17 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
 
             continue;
         }
+        if (i == MAX_VERTEX_NUM) {
+            fprintf(stderr, "The instance has more than %d nodes.\n", MAX_VERTEX_NUM);
+            exit(1);
+        }
         char *token = strtok(line, ";");
         unsigned short j = 0;
         while (token != NULL && strcmp(token, "\n") != 0) {
+            if (j == MAX_VERTEX_NUM) {
+                fprintf(stderr, "The instance has more than %d nodes.\n", MAX_VERTEX_NUM);
+                exit(1);
+            }
             if (j != i) {
                 double weight = 0, prob = 0;
 
-- 
2.43.0


From 712656eadc6b32b63188bb3c7cf547d6a19a8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 10/21] Observation points of the search, enabled by BB_TRACE

---
 src/HybridSolver/main/algorithms/bb_trace.h   | 41 +++++++++++++++++++
 .../main/algorithms/branch_and_bound.c        | 12 ++++++
 2 files changed, 53 insertions(+)
 create mode 100644 src/HybridSolver/main/algorithms/bb_trace.h

diff --git a/src/HybridSolver/main/algorithms/bb_trace.h b/src/HybridSolver/main/algorithms/bb_trace.h
new file mode 100644
index 0000000..77a80fd
--- /dev/null
+++ b/src/HybridSolver/main/algorithms/bb_trace.h
@@ -0,0 +1,41 @@
+//! The observation points of the Branch and Bound algorithm.
+/**
+ * @file bb_trace.h
+ * @brief With BB_TRACE defined every observation point calls a function that the program linked with the solver must
+ * define; without it the points only check that their arguments are well typed, and no code is generated.
+ */
+
+#ifndef BRANCHANDBOUND1TREE_BB_TRACE_H
+#define BRANCHANDBOUND1TREE_BB_TRACE_H
+#include "../data_structures/b_and_b_data.h"
+
+#ifdef BB_TRACE
+
+//! A step of the search on a SubProblem: start, pop, bound, fix, child, queue, drop or end.
+/**
+ * @param event The name of the step.
+ * @param problem The Problem being solved.
+ * @param subProblem The SubProblem after the step.
+ * @param position For queue the position in the list of the open SubProblems, for end the number of open SubProblems.
+ */
+void bb_trace_event(const char *event, const Problem *problem, const SubProblem *subProblem, long position);
+
+//! A relaxation of a SubProblem, with the weights of the Edges for which it was computed.
+void bb_trace_relaxation(int iter, int max_iter, const Graph *graph, const SubProblem *subProblem, BBNodeType type,
+                         double total_pi);
+
+#define BB_EVENT(event, subProblem, position) bb_trace_event((event), problem, (subProblem), (position))
+#define BB_RELAXATION(iter, max_iter, graph, subProblem, type, total_pi) \
+    bb_trace_relaxation((iter), (max_iter), (graph), (subProblem), (type), (total_pi))
+
+#else
+
+#define BB_EVENT(event, subProblem, position) \
+    ((void) sizeof(event), (void) sizeof(*(subProblem)), (void) sizeof(position))
+#define BB_RELAXATION(iter, max_iter, graph, subProblem, type, total_pi) \
+    ((void) sizeof(iter), (void) sizeof(max_iter), (void) sizeof(*(graph)), (void) sizeof(*(subProblem)), \
+     (void) sizeof(type), (void) sizeof(total_pi))
+
+#endif
+
+#endif //BRANCHANDBOUND1TREE_BB_TRACE_H
diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index da7b561..0e88a0c 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -13,6 +13,7 @@
 
 
 #include "branch_and_bound.h"
+#include "bb_trace.h"
 
 
 void dfs(SubProblem *subProblem) {
@@ -317,6 +318,7 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
             }
         }
 
+        BB_EVENT("child", &child, 0L);
         if(infer_constraints(&child)){
             long position = -1;
 
@@ -329,11 +331,14 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
                 }
             }
             delete_SubProblemList_iterator(subProblem_iterators);
+            BB_EVENT("queue", &child, position);
             if (position == -1) {
                 add_elem_SubProblemList_bottom(openSubProblems, &child);
             } else {
                 add_elem_SubProblemList_index(openSubProblems, &child, position);
             }
+        } else {
+            BB_EVENT("drop", &child, 0L);
         }
     }
 }
@@ -702,6 +707,7 @@ void bound(SubProblem *currentSubProb) {
 
             if (analyzedSubProblem.oneTree.isValid) {
                 type = mst_to_one_tree(&analyzedSubProblem, used_graph);
+                BB_RELAXATION(iter, max_iter, used_graph, &analyzedSubProblem, type, total_pi);
 
                 if (type == OPEN) {
                     analyzedSubProblem.prob = analyzedSubProblem.oneTree.prob;
@@ -782,6 +788,7 @@ void bound(SubProblem *currentSubProb) {
                     return;
                 }
             } else {
+                BB_RELAXATION(iter, max_iter, used_graph, &analyzedSubProblem, CLOSED_UNFEASIBLE, total_pi);
                 currentSubProb->type = CLOSED_UNFEASIBLE;
                 return;
             }
@@ -1095,12 +1102,16 @@ void branch_and_bound(Problem *current_problem) {
         new_SubProblemList(&subProblems);
         add_elem_SubProblemList_bottom(&subProblems, &subProblem);
 
+        BB_EVENT("start", &subProblem, 0L);
         while (subProblems.size != 0 && !time_limit_reached()) {
             SubProblem current_sub_problem = *get_SubProblemList_elem_index(&subProblems, 0);
             delete_SubProblemList_elem_index(&subProblems, 0);
+            BB_EVENT("pop", &current_sub_problem, 0L);
             bound(&current_sub_problem);
+            BB_EVENT("bound", &current_sub_problem, 0L);
             if (current_sub_problem.type == OPEN && current_sub_problem.edge_to_branch != -1) {
                 problem->num_fixed_edges += variable_fixing(&current_sub_problem);
+                BB_EVENT("fix", &current_sub_problem, 0L);
                 branch(&subProblems, &current_sub_problem);
             }
         }
@@ -1110,6 +1121,7 @@ void branch_and_bound(Problem *current_problem) {
         }
 
         problem->end = clock();
+        BB_EVENT("end", &problem->bestSolution, (long) subProblems.size);
         delete_SubProblemList(&subProblems);
     }
 }
-- 
2.43.0


From b112465ea3161e6742f8d7a91a4fdf9caf53f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 11/21] fix: print the origin of tours found by the first
 relaxation

print_subProblem had no name for CLOSED_1TREE, so the result files called these tours CLOSED_SUBGRADIENT and the
analysis, which looks for CLOSED_1TREE, never counted one.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 0e88a0c..840d6f5 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1145,6 +1145,8 @@ void print_subProblem(const SubProblem *subProblem) {
         type = "CLOSED_NEAREST_NEIGHBOR";
     } else if (subProblem->type == CLOSED_NN_HYBRID) {
         type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
+    } else if (subProblem->type == CLOSED_1TREE) {
+        type = "CLOSED_1TREE";
     } else {
         type = "CLOSED_SUBGRADIENT";
     }
-- 
2.43.0


From 0aa54371dbefe1ffe87118e981c543486ad20f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 12/21] fix: do not sort the edges of a graph without edges

---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..5c66525 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,9 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        if (graph->num_edges > 1) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From 9afa74135c55be6d37c11808f49f040cd7751799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 13/21] fix: do not index the edges by the position of a
 missing edge

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 840d6f5..bf36321 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -597,7 +597,6 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
             graph_copy.edges_matrix[src][dest].weight = -INFINITE;
             graph_copy.edges_matrix[dest][src].weight = -INFINITE;
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -INFINITE;
         }
     }
 
-- 
2.43.0


From cf653386778e4845bf0ee170a4e4be26d46485bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 14/21] fix: take the largest probability of all the dummy
 copies of a city

The probabilities were compared as strings (1e-07 above 0.9), and the second
and later rounds of dummy copies were written to the entries of the next city.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 89da50f..e49626b 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -148,9 +148,10 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
                 final_arr.append(arr_combined[i * model_size + j])
 
             for j in range(num_nodes, model_size):
-                if i != j-num_nodes:
-                    if arr_combined[i * model_size + j][1] > final_arr[i * num_nodes + j - num_nodes][1]:
-                        final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
+                city = j % num_nodes  # the city of which j is a dummy copy
+                if i != city:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + city][1]):
+                        final_arr[i * num_nodes + city][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
 
-- 
2.43.0


From f2449a7ab586d21455805888d2b1a8728243e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 15/21] fix: list the cities of a hybrid result in the order of
 its matrix

With more than 100 cities the network writes the medoids first, so the vertex
numbers of the tour did not match the list of nodes in the result file.
---
 src/HybridSolver/main/HybridSolver.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 8351373..9342593 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -112,6 +112,22 @@ def get_instance(instance, num_nodes):
     return graph, orig_graph
 
 
+def get_matrix_nodes(matrix_path):
+    """
+    Gets the nodes of an instance in the order of its adjacency matrix, that can differ from the one of the instance
+    file when the neural network has clustered the nodes.
+    Args:
+        matrix_path: The path of the file with the adjacency matrix.
+
+    Returns:
+        The nodes of the adjacency matrix.
+    """
+    with open(matrix_path, "r") as f:
+        cities = f.readline().strip().split(";")
+
+    return [[float(x) for x in city.strip("()").split(",")] for city in cities]
+
+
 def build_c_program(build_directory, num_nodes, hyb_mode):
     """
     Builds the C program with the specified number of nodes and whether it is in hybrid mode or not.
@@ -212,6 +228,8 @@ def hybrid_solver(num_instances, num_nodes, hyb_mode, gen_matrix):
             else:
                 print('Neural Network failed on instance ' + str(i) + ' / ' + str(end_instance))
 
+            graph = get_matrix_nodes(absolute_input_path)
+
         elif gen_matrix:
             adj_matrix = adjacency_matrix(graph)
             with open(absolute_input_path, "w") as f:
-- 
2.43.0


From 38fac0125330342b01ee78e0d29bf50520a23aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 16/21] fix: import errno, used when a folder is created by
 another run

---
 src/HybridSolver/main/HybridSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 9342593..a563f3d 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -11,6 +11,7 @@
 
     Repo: https://github.com/LorenzoSciandra/GraphConvolutionalBranchandBound
 """
+import errno
 import subprocess
 import argparse
 import pprint as pp
-- 
2.43.0


From 5cf0d367f4597d3c0c46c5c855e722f73dd6e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 17/21] fix: read results without any resolved instance

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index ddccab2..cd21b54 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -254,11 +254,11 @@ def read_values(path):
 
             partial_solutions[inst_id] = (current_resolved, solutions)
 
-    all_stats["resolved"] = str(round((resolved / (resolved + len(not_resolved_list)))* 100, 2)) + "%"
-    all_stats["num_closed_nn"] = str(round((num_closed_nn / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / resolved) * 100, 2)) + "%"
+    all_stats["resolved"] = str(round((resolved / max(resolved + len(not_resolved_list), 1))* 100, 2)) + "%"
+    all_stats["num_closed_nn"] = str(round((num_closed_nn / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / max(resolved, 1)) * 100, 2)) + "%"
 
     all_stats["total_time"] = dict(sorted(total_time.items()))
     all_stats["time_bb"] = dict(sorted(time_bb.items()))
-- 
2.43.0


From e8822e0b3ab68bf999fb28c129c5012018a44f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 18/21] fix: in the improvement profile, instances without a
 solution in either mode count for neither

inf - inf is not a number, which is not smaller than the tolerance, so they were all counted as better in classic mode
---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index cd21b54..e606144 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -60,8 +60,8 @@ def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
         one_count = 0
         two_count = 0
         for key in sol_one.keys():
-            # if the two solutions are contained in the ub range, we consider them equal
-            if not abs(sol_one[key] - sol_two[key]) < ub:
+            # if the two solutions are contained in the ub range, or none has been found yet, we consider them equal
+            if sol_one[key] != sol_two[key] and not abs(sol_one[key] - sol_two[key]) < ub:
                 if sol_one[key] < sol_two[key]:
                     one_count += 1
                 else:
-- 
2.43.0


From 511e69dfe8bd4ea8b606489246b201c64a61e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 19/21] fix: a missing backslash put a tab and "extbf" in the
 tables

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index e606144..f86779c 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -403,7 +403,7 @@ def modify_string(old_tab, line, name, j):
         if p_val < 0.05:
             old_tab = old_tab.replace(name + "_" + str(j),  "\\underline{\\textbf{" + str(cla_m) + "}}")
         else:
-            old_tab = old_tab.replace(name + "_" + str(j),  "\textbf{" + str(cla_m) + "}")
+            old_tab = old_tab.replace(name + "_" + str(j),  "\\textbf{" + str(cla_m) + "}")
 
         old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\stdf{" + str(hyb_std) + "}")
         old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))
-- 
2.43.0


From 0b42cc483deaf8a473a69f51f86023990c23b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 20/21] fix: the improvement profile compares the instances
 that both modes have, as the cumulative one

An instance with a hybrid result only ended the analysis with a KeyError
---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index f86779c..19a5f68 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -22,6 +22,11 @@ import pandas as pd
 
 
 def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
+
+    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
+    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
+    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}
+
     # take all the times of the partial solutions
     times = set()
 
-- 
2.43.0


From 3b377038b27fd32ea3a201f4c93f38f86be55cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:43 +0000
Subject: [PATCH 21/21] fix: Kruskal takes as mandatory only what the graph has
 and the constraints say

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index bf36321..a0b3e38 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -512,13 +512,14 @@ void constrained_kruskal(Graph * graph, SubProblem * subProblem, unsigned short
     wrap_quick_sort(graph);
 
     unsigned short num_edges_inMST = 0;
-    for (unsigned short i = 0; i < subProblem->num_mandatory_edges; i++) {
-        ConstrainedEdge current_mandatory = subProblem->mandatoryEdges[i];
-        Edge mandatory_edge = graph->edges_matrix[current_mandatory.src][current_mandatory.dest];
+    // The constraints are the reference for what is mandatory: mandatoryEdges may also hold an edge that is absent from
+    // the graph, or one that has become forbidden since it was added.
+    for (unsigned short i = 0; subProblem->num_mandatory_edges > 0 && i < graph->num_edges; i++) {
+        Edge mandatory_edge = graph->edges[i];
         unsigned short src = mandatory_edge.src;
         unsigned short dest = mandatory_edge.dest;
 
-        if (src != candidateId && dest != candidateId) {
+        if (src != candidateId && dest != candidateId && subProblem->constraints[src][dest] == MANDATORY) {
 
             Set *set1_root = find(&forest.sets[src]);
             Set *set2_root = find(&forest.sets[dest]);
-- 
2.43.0

