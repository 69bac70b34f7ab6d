/* Case driver: the interpreter of /repo with monitors around it.
 * Environment:
 *   VF_HEAP_SIZE VF_THRESH VF_HEAPS_MAX VF_HEAPS_INIT VF_SYMHASH  storage sizing
 *   VF_GC_INTERVAL VF_GC_SEED      forced collections (see storage-gc.c hooks)
 *   VF_FAIL_AT                     the Nth allocation from start-up fails
 *   VF_FAIL_STICKY                 ... and all later ones
 *   VF_STATS                       file that gets a line of counters at exit
 *   VF_LIBPATH                     make d1 and d2 in the working directory; the library path is d1:d2:.
 *   VF_CASE_CPU                    seconds of processor time a case may use (SIGPROF ends the process)
 *   VF_NOFIN                       do not finalise (default: finalise at the end)
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sigscheme/config.h>
#include <sigscheme/sigscheme.h>

extern unsigned long scm_verif_gc_interval, scm_verif_gc_seed;
extern unsigned long scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced, scm_verif_n_swept;
extern size_t scm_verif_n_heaps(void);
extern size_t scm_verif_collect(void);

static char *stack_base;
#include "wrap.h"

static void stats(void)
{
    const char *f = getenv("VF_STATS");
    FILE *o;
    fflush(stdout);
    if (f && (o = fopen(f, "a"))) {
        fprintf(o, "allocs=%lu gcs=%lu forced=%lu swept=%lu heaps=%lu mallocs=%ld live=%ld failed=%ld\n",
                scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced, scm_verif_n_swept,
                (unsigned long)scm_verif_n_heaps(), n_mallocs, live_blocks, n_failed);
        fclose(o);
    }
}

static void on_fatal(void)
{
    fputs("\n@@FATAL\n", stdout);
    fflush(stdout);
    stats();
    _exit(70);
}

static ScmObj vf_stack(void)
{
    char here;
    long d = stack_base - (char *)&here;
    return SCM_MAKE_INT(d < 0 ? -d : d);
}
static ScmObj vf_gc(void) { return SCM_MAKE_INT((scm_int_t)scm_verif_collect()); }
static ScmObj vf_stat(ScmObj which)
{
    long v = -1;
    switch (SCM_INT_VALUE(which)) {
    case 0: v = scm_verif_n_allocs; break;
    case 1: v = scm_verif_n_gcs; break;
    case 2: v = scm_verif_n_heaps(); break;
    case 3: v = live_blocks; break;
    case 4: v = n_mallocs; break;
    case 5: v = open_fds(); break;
    case 6: v = scm_verif_n_swept; break;
    }
    return SCM_MAKE_INT(v);
}
static ScmObj vf_gc_every(ScmObj interval, ScmObj seed)
{
    scm_verif_gc_interval = SCM_INT_VALUE(interval);
    scm_verif_gc_seed = SCM_INT_VALUE(seed);
    return SCM_UNDEF;
}
static ScmObj vf_fail_after(ScmObj n)
{
    fail_at = SCM_INT_VALUE(n) ? n_mallocs + SCM_INT_VALUE(n) : 0;
    return SCM_UNDEF;
}
static ScmObj vf_flush(void) { fflush(stdout); return SCM_UNDEF; }

static unsigned long env(const char *n, unsigned long dflt);
static ScmObj vf_tick(void)
{
    struct itimerval t;

    memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = env("VF_CASE_CPU", 0);
    setitimer(ITIMER_PROF, &t, NULL);
    return SCM_UNDEF;
}

static void *reg(void *arg)
{
    scm_register_func("vf-tick", (ScmFuncType)vf_tick, SCM_PROCEDURE_FIXED_0);
    scm_register_func("vf-stack", (ScmFuncType)vf_stack, SCM_PROCEDURE_FIXED_0);
    scm_register_func("vf-gc", (ScmFuncType)vf_gc, SCM_PROCEDURE_FIXED_0);
    scm_register_func("vf-stat", (ScmFuncType)vf_stat, SCM_PROCEDURE_FIXED_1);
    scm_register_func("vf-gc-every", (ScmFuncType)vf_gc_every, SCM_PROCEDURE_FIXED_2);
    scm_register_func("vf-fail-after", (ScmFuncType)vf_fail_after, SCM_PROCEDURE_FIXED_1);
    scm_register_func("vf-flush", (ScmFuncType)vf_flush, SCM_PROCEDURE_FIXED_0);
    return NULL;
}

static unsigned long env(const char *n, unsigned long dflt)
{
    const char *v = getenv(n);
    return v && *v ? strtoul(v, NULL, 0) : dflt;
}

int main(int argc, char **argv)
{
    char here, **rest;
    ScmStorageConf conf;

    stack_base = (char *)&here;
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    conf.heap_size = env("VF_HEAP_SIZE", 0x4000);
    conf.heap_alloc_threshold = env("VF_THRESH", conf.heap_size / 2);
    conf.n_heaps_max = env("VF_HEAPS_MAX", 1024);
    conf.n_heaps_init = env("VF_HEAPS_INIT", 1);
    conf.symbol_hash_size = env("VF_SYMHASH", 0x400);
    scm_set_fatal_error_callback(on_fatal);
    fail_at = env("VF_FAIL_AT", 0);
    fail_sticky = env("VF_FAIL_STICKY", 0);

    rest = scm_initialize(&conf, (const char *const *)argv);
    scm_set_fatal_error_callback(on_fatal);
    scm_require_module("srfi-34");
    scm_call_with_gc_ready_stack(reg, NULL);
    if (env("VF_LIBPATH", 0)) {
        char cwd[4096], *path;
        if (!getcwd(cwd, sizeof cwd) || (mkdir("d1", 0777) && errno != EEXIST) || (mkdir("d2", 0777) && errno != EEXIST))
            return 98;
        path = malloc(strlen(cwd) * 3 + 20);
        sprintf(path, "%s/d1:%s/d2:%s", cwd, cwd, cwd);
        scm_set_lib_path(path);
        free(path);
    }
    scm_verif_gc_interval = env("VF_GC_INTERVAL", 0);
    scm_verif_gc_seed = env("VF_GC_SEED", 0);
    for (; rest && *rest; rest++)
        scm_load(*rest);
    scm_verif_gc_interval = 0;
    fputs("\n@@DONE\n", stdout);
    fflush(stdout);
    if (!env("VF_NOFIN", 0))
        scm_finalize();
    stats();
    return 0;
}
