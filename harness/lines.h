/* Runs a line of input after the other through do_line() in child processes; answers are collected in shared memory.
 * PROGRAM KIND IN OUT: one line of answers per line of IN, ending in "crash" when the line was not finished. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

typedef struct { int line; size_t len; char buf[1 << 24]; } Shared;
static Shared *sh;
static void out(int v) { if (sh->len < sizeof sh->buf - 32) sh->len += sprintf(sh->buf + sh->len, "%d ", v); }
static void do_line(char kind, char *line);

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    char kind = argv[1][0];
    FILE *in = fopen(argv[2], "r"), *o = fopen(argv[3], "w");
    if (!in || !o) return 2;
    static char *lines[1 << 21]; int n = 0; char *buf = NULL; size_t cap = 0; ssize_t len;
    while (n < 1 << 21 && (len = getline(&buf, &cap, in)) > 0) lines[n++] = strdup(buf);
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int at = 0, crashes = 0;
    while (at < n && crashes < 200) {
        int upto = at + 500 < n ? at + 500 : n;
        sh->line = at; sh->len = 0;
        pid_t c = fork();
        if (c == 0) {
            struct rlimit lim = {20, 21}; setrlimit(RLIMIT_CPU, &lim);
            int z = open("/dev/null", 1); dup2(z, 1); dup2(z, 2);
            for (int k = at; k < upto; k++) {
                sh->line = k;
                do_line(kind, lines[k]);
                sh->buf[sh->len++] = '\n';
            }
            sh->line = upto;
            _exit(0);
        }
        int st; waitpid(c, &st, 0);
        fwrite(sh->buf, 1, sh->len, o);
        if (sh->line < upto) { fprintf(o, "crash\n"); crashes++; at = sh->line + 1; } else at = upto;
    }
    fclose(o);
    return 0;
}
