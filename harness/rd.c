/* Reads instance files with the solver's readers and writes down the graphs.
 * rd KIND LIST OUT: KIND c (matrix file) or t (TSPLIB file); LIST: one file per line, with the byte the memory is
 * filled with before it: "FILL NAME". OUT: per file a line
 *   "exit S" (the reader ended the process with status S), "signal K", or
 *   "graph N M COST", per node "P X Y K neighbours", per edge "S D W P POS", and per edge the two lookups alike.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "tsp_instance_reader.h"

typedef struct { int done; size_t len; char buf[1 << 22]; } Shared;
static Shared *sh;
static void out(const char *f, ...) {
    va_list a; va_start(a, f);
    size_t room = sizeof sh->buf - sh->len; int k = vsnprintf(sh->buf + sh->len, room, f, a);
    va_end(a); if (k > 0 && (size_t) k < room) sh->len += k;
}
static void edge(const Edge *e) { out(" %d %d %a %a %d", e->src, e->dest, e->weight, e->prob, e->positionInGraph); }
static Graph g;

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    FILE *l = fopen(argv[2], "r"), *o = fopen(argv[3], "w");
    if (!l || !o) return 2;
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char *names[1 << 20]; static int fills[1 << 20]; int n = 0;
    while (n < 1 << 20 && fscanf(l, "%d %ms", &fills[n], &names[n]) == 2) n++;
    fclose(l);                                         /* an exit in a child would move the shared file position */
    for (int at = 0; at < n; at++) {
        int fill = fills[at]; char *name = names[at];
        sh->len = 0; sh->done = 0;
        fflush(NULL);
        pid_t c = fork();
        if (c == 0) {
            struct rlimit lim = {20, 21}; setrlimit(RLIMIT_CPU, &lim);
            int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2);
            memset(&g, fill, sizeof g);
            if (argv[1][0] == 'c') read_tsp_csv_file(&g, name); else read_tsp_lib_file(&g, name);
            out("graph %d %d %a", g.num_nodes, g.num_edges, g.cost);
            for (int i = 0; i < g.num_nodes && i < MAX_VERTEX_NUM; i++) {
                out(" %d %a %a %d", g.nodes[i].positionInGraph, g.nodes[i].x, g.nodes[i].y, g.nodes[i].num_neighbours);
                for (int k = 0; k < g.nodes[i].num_neighbours && k < MAX_VERTEX_NUM - 1; k++) out(" %d", g.nodes[i].neighbours[k]);
            }
            for (int e = 0; e < g.num_edges && e < MAX_EDGES_NUM; e++) edge(&g.edges[e]);
            for (int e = 0; e < g.num_edges && e < MAX_EDGES_NUM; e++) {
                int s = g.edges[e].src, d = g.edges[e].dest;
                if (s < MAX_VERTEX_NUM && d < MAX_VERTEX_NUM) { edge(&g.edges_matrix[s][d]); edge(&g.edges_matrix[d][s]); }
            }
            sh->done = 1;
            _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (sh->done) fprintf(o, "%s\n", sh->buf);
        else if (WIFSIGNALED(st)) fprintf(o, "signal %d\n", WTERMSIG(st));
        else fprintf(o, "exit %d\n", WEXITSTATUS(st));
    }
    fclose(o);
    return 0;
}
