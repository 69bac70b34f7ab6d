/* Initialise / use / finalise cycles in one process.
 * argv: cycle PLAN LIBDIR.  Each line of PLAN:
 *   heap threshold max init symhash conf? libpath? gcinterval tag FILE...
 * (conf? 0: storage configuration NULL).  The n-th cycle runs in directory c<tag>, where FILE's are.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/stat.h>
#include <errno.h>
#include <sigscheme/config.h>
#include <sigscheme/sigscheme.h>
#include "wrap.h"

extern unsigned long scm_verif_gc_interval, scm_verif_gc_seed;
extern unsigned long scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced, scm_verif_n_swept;
extern size_t scm_verif_n_heaps(void);
extern size_t scm_verif_collect(void);

static char *stack_base;
static unsigned long n_cycles;

static void stats(void)
{
    const char *f = getenv("VF_STATS");
    FILE *o;
    fflush(stdout);
    if (f && (o = fopen(f, "a"))) {
        fprintf(o, "allocs=%lu gcs=%lu forced=%lu swept=%lu cycles=%lu mallocs=%ld live=%ld\n",
                scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced, scm_verif_n_swept, n_cycles, n_mallocs, live_blocks);
        fclose(o);
    }
}
static void on_fatal(void)
{
    fputs("\n@@FATAL\n", stdout);
    fflush(stdout);
    stats();
    _exit(70);
}
static ScmObj vf_stack(void) { char h; long d = stack_base - &h; return SCM_MAKE_INT(d < 0 ? -d : d); }
static ScmObj vf_gc(void) { return SCM_MAKE_INT((scm_int_t)scm_verif_collect()); }
static ScmObj vf_gc_every(ScmObj i, ScmObj s)
{
    scm_verif_gc_interval = SCM_INT_VALUE(i);
    scm_verif_gc_seed = SCM_INT_VALUE(s);
    return SCM_UNDEF;
}
static ScmObj vf_flush(void) { fflush(stdout); return SCM_UNDEF; }
static ScmObj vf_tick(void) { return SCM_UNDEF; }
static void *reg(void *arg)
{
    scm_register_func("vf-tick", (ScmFuncType)vf_tick, SCM_PROCEDURE_FIXED_0);
    scm_register_func("vf-stack", (ScmFuncType)vf_stack, SCM_PROCEDURE_FIXED_0);
    scm_register_func("vf-gc", (ScmFuncType)vf_gc, SCM_PROCEDURE_FIXED_0);
    scm_register_func("vf-gc-every", (ScmFuncType)vf_gc_every, SCM_PROCEDURE_FIXED_2);
    scm_register_func("vf-flush", (ScmFuncType)vf_flush, SCM_PROCEDURE_FIXED_0);
    return NULL;
}

int main(int argc, char **argv)
{
    char here, line[4096], top[2048], dir[2100];
    FILE *plan;

    stack_base = &here;
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    if (argc < 3 || !(plan = fopen(argv[1], "r")) || !getcwd(top, sizeof top))
        return 98;
    scm_set_fatal_error_callback(on_fatal);
    while (fgets(line, sizeof line, plan)) {
        ScmStorageConf conf;
        const char *av[8];
        char *tok, **rest, *files[16];
        long v[10], before = live_blocks;
        int i, n = 0, fds = open_fds();

        for (i = 0, tok = strtok(line, " \n"); tok && i < 9; tok = strtok(NULL, " \n"))
            v[i++] = strtol(tok, NULL, 10);
        while (tok && n < 15) {
            files[n++] = tok;
            tok = strtok(NULL, " \n");
        }
        files[n] = NULL;
        sprintf(dir, "%s/c%ld", top, v[8]);
        if (chdir(dir))
            return 97;
        conf.heap_size = v[0];
        conf.heap_alloc_threshold = v[1];
        conf.n_heaps_max = v[2];
        conf.n_heaps_init = v[3];
        conf.symbol_hash_size = v[4];
        printf("\n@@CYCLE %ld\n", v[8]);
        i = 0;
        av[i++] = "cycle";
        av[i++] = "--system-load-path";
        av[i++] = argv[2];
        av[i] = NULL;
        rest = scm_initialize(v[5] ? &conf : NULL, av);
        if (rest && *rest)
            printf("@@BAD arguments left: %s\n", *rest);
        if (v[6] & 1)
            scm_set_lib_path(dir);
        scm_require_module("srfi-34");
        scm_call_with_gc_ready_stack(reg, NULL);
        scm_verif_gc_interval = v[7];
        scm_verif_gc_seed = v[8];
        for (i = 0; i < n; i++)
            scm_load(files[i]);
        scm_verif_gc_interval = 0;
        scm_finalize();
        fflush(stdout);
        n_cycles++;
        fds = open_fds() - fds;
        printf("\n@@FIN %ld live=%ld fds=%d\n", v[8], live_blocks - before, fds);
        if (fds)
            printf("@@FDS one moment %s\n@@FDS another %s\n", fd_names[0], fd_names[1]);
    }
    fclose(plan);
    fputs("\n@@DONE\n", stdout);
    stats();
    return 0;
}
