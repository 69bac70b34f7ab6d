/* Random use of the C interface, judged by a C-side model.
 * argv: api SEED ROUNDS LIBDIR.  VF_GC_INTERVAL forces collections.
 * Prints "@@BAD <part>: ..." for each disagreement and "@@PART <name> <n>" at the end.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <unistd.h>
#include <sigscheme/config.h>
#include <sigscheme/sigscheme.h>
#include "sigschemeinternal.h"
#include "scmport-config.h"
#include "scmport.h"
#include "scmport-str.h"
#include "wrap.h"

extern unsigned long scm_verif_gc_interval, scm_verif_gc_seed;
extern unsigned long scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced, scm_verif_n_swept;
extern size_t scm_verif_collect(void);

static uint64_t rs;
static uint64_t rnd(void)
{
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs * 2685821657736338717ULL;
}
static int rn(int n) { return (int)((rnd() >> 20) % (uint64_t)n); }

static const char *part = "start";
static long n_bad, n_part[64];
static const char *part_name[64];
static int n_parts, cur_part;
static void enter(const char *p)
{
    int i;
    part = p;
    for (i = 0; i < n_parts; i++)
        if (!strcmp(part_name[i], p)) break;
    if (i == n_parts) part_name[n_parts++] = p;
    cur_part = i;
    n_part[i]++;
}
static void bad(const char *fmt, ...)
{
    va_list va;
    if (n_bad++ > 20) return;
    printf("@@BAD %s: ", part);
    va_start(va, fmt);
    vprintf(fmt, va);
    va_end(va);
    printf("\n");
    fflush(stdout);
}
#define CK(c, ...) do { if (!(c)) bad(__VA_ARGS__); } while (0)
#define NOINLINE __attribute__((noinline))

static void on_fatal(void)
{
    printf("@@BAD %s: fatal error\n", part);
    fflush(stdout);
    _exit(70);
}
static char *stack_base;
static int collect_chance = 10;
static void maybe_gc(void) { if (rn(100) < collect_chance) scm_verif_collect(); }
static NOINLINE int scrub(int n) { volatile char b[2000]; memset((char *)b, 0, sizeof b); return n ? scrub(n - 1) + b[n] : b[0]; }

/* --- text ---------------------------------------------------------- */
static int put_utf8(char *p, unsigned c)
{
    if (c < 0x80) { p[0] = c; return 1; }
    if (c < 0x800) { p[0] = 0xc0 | c >> 6; p[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { p[0] = 0xe0 | c >> 12; p[1] = 0x80 | (c >> 6 & 63); p[2] = 0x80 | (c & 63); return 3; }
    p[0] = 0xf0 | c >> 18; p[1] = 0x80 | (c >> 12 & 63); p[2] = 0x80 | (c >> 6 & 63); p[3] = 0x80 | (c & 63);
    return 4;
}
static unsigned rchar(void)
{
    switch (rn(8)) {
    case 0: return 0xa0 + rn(0x700);
    case 1: return 0x3042 + rn(80);
    case 2: return 0x10000 + rn(0x10000);
    case 3: return "\"\\ ()'#;"[rn(8)];
    default: return 33 + rn(94);
    }
}
/* a random text of up to n characters; returns its length in characters */
static int rtext(char *buf, unsigned *cs, int n)
{
    int i, k = rn(n + 1);
    char *p = buf;
    for (i = 0; i < k; i++) {
        cs[i] = rchar();
        p += put_utf8(p, cs[i]);
    }
    *p = 0;
    return k;
}
static long rint_(void)
{
    switch (rn(6)) {
    case 0: return SCM_INT_MAX - rn(3);
    case 1: return SCM_INT_MIN + rn(3);
    case 2: return (long)(rnd() >> (5 + rn(50))) & SCM_INT_MAX;
    case 3: return -((long)(rnd() >> (5 + rn(50))) & SCM_INT_MAX);
    default: return rn(2000) - 1000;
    }
}

/* --- values and their model ------------------------------------------ */
enum kind { K_INT, K_CHAR, K_STR, K_SYM, K_TRUE, K_FALSE, K_NULL, K_PAIR, K_VEC, K_CPTR, K_CFUN, K_PORT, K_CLOS, K_MAX };
struct model {
    enum kind k;
    long i;                     /* int, char, port id, pair count */
    char *s;
    void *p;
    int n;
    struct model *kid[6];
};
#define MAXPORT 20000
static int fin_count[MAXPORT], n_ports;
static char dropped[MAXPORT], made[MAXPORT], owned[MAXPORT];
static long n_fin;
static void port_fin(char **str, scm_bool own, void **opaque)
{
    long id = (long)(intptr_t)*opaque;
    if (own) free(*str);
    if (id < 0 || id >= n_ports) { bad("finaliser with a wrong opaque value %ld", id); return; }
    if (!!own != !!owned[id]) bad("finaliser of port %ld is told ownership %d, not %d", id, (int)own, (int)owned[id]);
    n_fin++;
    if (++fin_count[id] > 1) bad("port %ld finalised twice", id);
}
static void f0(void) {} static void f1(void) { n_bad += 0; } static void f2(void) { rs += 0; }
static ScmCFunc cfuns[3] = {f0, f1, f2};

static ScmObj make(struct model *m);
static struct model *rmodel(int depth)
{
    struct model *m = calloc(1, sizeof *m);
    unsigned cs[40];
    char buf[200];
    int i;
    m->k = depth > 0 ? rn(K_MAX) : rn(K_PAIR);
    switch (m->k) {
    case K_INT: m->i = rint_(); break;
    case K_CHAR: m->i = rn(4) ? rchar() : (unsigned[]){0, 1, 0x7f, 0x10ffff, 0xd7ff, 0xe000}[rn(6)]; break;
    case K_STR: m->i = rtext(buf, cs, 12); m->s = strdup(buf); break;
    case K_SYM: sprintf(buf, "sym%d", rn(300)); m->s = strdup(buf); break;
    case K_PAIR: m->n = 2; m->kid[0] = rmodel(depth - 1); m->kid[1] = rmodel(depth - 1); break;
    case K_VEC: m->n = rn(6); for (i = 0; i < m->n; i++) m->kid[i] = rmodel(depth - 1); break;
    case K_CPTR: m->p = rn(3) ? (void *)(uintptr_t)rnd() : (void *)(uintptr_t)rn(3); break;
    case K_CFUN: m->i = rn(3); break;
    case K_PORT: if (n_ports < MAXPORT) { m->i = n_ports++; m->s = strdup("text of the port"); } else { m->k = K_NULL; } break;
    case K_CLOS: m->n = 1; m->kid[0] = rmodel(depth - 1); break;
    default: break;
    }
    return m;
}
static void free_model(struct model *m)
{
    int i;
    for (i = 0; i < m->n; i++) free_model(m->kid[i]);
    free(m->s);
    free(m);
}
static void drop(struct model *m)
{
    int i;
    if (m->k == K_PORT) dropped[m->i] = 1;
    for (i = 0; i < m->n; i++) drop(m->kid[i]);
}
static ScmObj mk_closure, empty_vec;       /* (lambda (x) (lambda () x)) */
static ScmObj make(struct model *m)
{
    ScmObj a, b;
    int i;
    switch (m->k) {
    case K_INT: return MAKE_INT(m->i);
    case K_CHAR: return MAKE_CHAR(m->i);
    case K_STR:
        switch (rn(4)) {
        case 0: return MAKE_STRING(scm_strdup(m->s), m->i);
        case 1: return MAKE_STRING(scm_strdup(m->s), STRLEN_UNKNOWN);
        case 2: return MAKE_STRING_COPYING(m->s, m->i);
        default: return CONST_STRING(m->s);
        }
    case K_SYM: return scm_intern(m->s);
    case K_TRUE: return SCM_TRUE;
    case K_FALSE: return SCM_FALSE;
    case K_NULL: return SCM_NULL;
    case K_PAIR:
        a = make(m->kid[0]);
        b = make(m->kid[1]);
        if (rn(4)) return CONS(a, b);
        a = CONS(SCM_NULL, SCM_NULL);
        SET_CDR(a, b);
        maybe_gc();
        SET_CAR(a, make(m->kid[0]));
        if (m->kid[0]->k == K_PORT || m->kid[0]->k >= K_PAIR) return CONS(CAR(a), CDR(a));
        return a;
    case K_VEC:
        {
            ScmObj elts[6], v, *vec;
            for (i = 0; i < m->n; i++) { elts[i] = make(m->kid[i]); maybe_gc(); }
            vec = scm_malloc(m->n ? m->n * sizeof(ScmObj) : 1);
            for (i = 0; i < m->n; i++) vec[i] = elts[i];
            v = MAKE_VECTOR(vec, m->n);
            return v;
        }
    case K_CPTR: return MAKE_C_POINTER(m->p);
    case K_CFUN: return MAKE_C_FUNCPOINTER(cfuns[m->i]);
    case K_PORT:
        {
            int how = rn(3);
            ScmBytePort *bp = how == 0 ? ScmInputStrPort_new_copying(m->s, port_fin)
                : how == 1 ? ScmInputStrPort_new_const(m->s, port_fin) : ScmInputStrPort_new(strdup(m->s), port_fin);
            owned[m->i] = how != 1;
            fin_count[m->i] = 0;
            made[m->i] = 1;
            *ScmInputStrPort_ref_opaque(bp) = (void *)(intptr_t)m->i;
            return MAKE_PORT(scm_make_char_port(bp), SCM_PORTFLAG_INPUT);
        }
    case K_CLOS:
        a = make(m->kid[0]);
        return scm_call(mk_closure, LIST_1(a));
    default: abort();
    }
}
/* a graph is made once per model: ports inside shared subterms would be made twice */
static ScmObj make_once(struct model *m) { return make(m); }

static int has_shared_port(struct model *m)
{
    /* make() of a pair may build its car twice */
    int i;
    if (m->k == K_PAIR && (m->kid[0]->k == K_PORT || m->kid[0]->k >= K_PAIR)) return 1;
    for (i = 0; i < m->n; i++) if (has_shared_port(m->kid[i])) return 1;
    return 0;
}

static const char *kname[] = {"int", "char", "str", "sym", "true", "false", "null", "pair", "vec", "cptr", "cfun", "port", "clos"};
static void agree(ScmObj o, struct model *m)
{
    int i;
    int is[K_MAX];
    memset(is, 0, sizeof is);
    is[K_INT] = INTP(o); is[K_CHAR] = CHARP(o); is[K_STR] = STRINGP(o); is[K_SYM] = SYMBOLP(o);
    is[K_TRUE] = EQ(o, SCM_TRUE); is[K_FALSE] = FALSEP(o); is[K_NULL] = NULLP(o); is[K_PAIR] = CONSP(o);
    is[K_VEC] = VECTORP(o); is[K_CPTR] = C_POINTERP(o); is[K_CFUN] = C_FUNCPOINTERP(o); is[K_PORT] = PORTP(o);
    is[K_CLOS] = CLOSUREP(o);
    for (i = 0; i < K_MAX; i++)
        if (!!is[i] != (i == (int)m->k)) {
            bad("%sP is %d of a %s", kname[i], is[i], kname[m->k]);
            return;
        }
    CK(!FUNCP(o) && !CONTINUATIONP(o) && !VALUEPACKETP(o) && !EOFP(o), "a %s is also something else", kname[m->k]);
    switch (m->k) {
    case K_INT: CK(SCM_INT_VALUE(o) == m->i, "integer %ld reads %ld", m->i, (long)SCM_INT_VALUE(o)); break;
    case K_CHAR: CK(SCM_CHAR_VALUE(o) == m->i, "character %lx reads %lx", m->i, (long)SCM_CHAR_VALUE(o)); break;
    case K_STR:
        CK(!strcmp(SCM_STRING_STR(o), m->s), "string %s reads %s", m->s, SCM_STRING_STR(o));
        CK(SCM_STRING_LEN(o) == m->i, "string %s has length %ld, not %ld", m->s, (long)SCM_STRING_LEN(o), m->i);
        break;
    case K_SYM:
        CK(!strcmp(SCM_SYMBOL_NAME(o), m->s), "symbol %s reads %s", m->s, SCM_SYMBOL_NAME(o));
        CK(EQ(o, scm_intern(m->s)), "symbol %s is not the one interned", m->s);
        break;
    case K_PAIR: agree(CAR(o), m->kid[0]); agree(CDR(o), m->kid[1]); break;
    case K_VEC:
        CK(SCM_VECTOR_LEN(o) == m->n, "vector of %d has length %ld", m->n, (long)SCM_VECTOR_LEN(o));
        for (i = 0; i < m->n && i < SCM_VECTOR_LEN(o); i++) agree(SCM_VECTOR_VEC(o)[i], m->kid[i]);
        break;
    case K_CPTR:
        CK(SCM_C_POINTER_VALUE(o) == m->p, "C pointer %p reads %p", m->p, SCM_C_POINTER_VALUE(o));
        if (C_POINTERP(o)) {
            CK(TRUEP(scm_p_equalp(o, MAKE_C_POINTER(m->p))), "C pointers of the same address are not equal?");
            CK(FALSEP(scm_p_equalp(o, MAKE_C_POINTER((void *)((uintptr_t)m->p ^ 8)))), "C pointers of different addresses are equal?");
        }
        break;
    case K_CFUN:
        CK(SCM_C_FUNCPOINTER_VALUE(o) == cfuns[m->i], "C function pointer %ld differs", m->i);
        if (C_FUNCPOINTERP(o)) {
            CK(TRUEP(scm_p_equalp(o, MAKE_C_FUNCPOINTER(cfuns[m->i]))), "C function pointers to the same function are not equal?");
            CK(FALSEP(scm_p_equalp(o, MAKE_C_FUNCPOINTER(cfuns[!m->i]))), "C function pointers to different functions are equal?");
            CK(FALSEP(scm_p_equalp(o, MAKE_C_POINTER(NULL))), "a C pointer and a C function pointer are equal?");
        }
        break;
    case K_PORT: CK(fin_count[m->i] == 0, "port %ld was finalised while referenced", m->i); break;
    case K_CLOS:
        {
            ScmObj v = scm_call(o, SCM_NULL);
            agree(v, m->kid[0]);
            break;
        }
    default: break;
    }
}

/* --- objects in protected variables ------------------------------------ */
#define SLOTS 40
static ScmObj slot[SLOTS];
static struct model *slot_m[SLOTS];
static char slot_prot[SLOTS];
static struct model *fresh(int d)
{
    struct model *m = rmodel(d);
    while (has_shared_port(m)) { drop(m); free_model(m); m = rmodel(d); }
    return m;
}
static NOINLINE void set_slot(int i)
{
    if (slot_m[i]) { drop(slot_m[i]); free_model(slot_m[i]); }
    slot_m[i] = fresh(3);
    slot[i] = make_once(slot_m[i]);
}
static NOINLINE void rooted(void)
{
    int i = rn(SLOTS), j;
    enter("rooted");
    if (!slot_prot[i]) {
        if (rn(2)) {
            scm_gc_protect_with_init(&slot[i], SCM_FALSE);
            CK(FALSEP(slot[i]), "protect_with_init does not initialise");
        } else {
            slot[i] = SCM_FALSE;
            scm_gc_protect(&slot[i]);
        }
        slot_prot[i] = 1;
        set_slot(i);
    } else if (rn(3) == 0) {
        scm_gc_unprotect(&slot[i]);
        slot_prot[i] = 0;
        slot[i] = SCM_FALSE;
        drop(slot_m[i]);
        free_model(slot_m[i]);
        slot_m[i] = NULL;
    } else {
        set_slot(i);
    }
    maybe_gc();
    for (j = 0; j < 3; j++) {
        i = rn(SLOTS);
        if (slot_m[i]) {
            agree(slot[i], slot_m[i]);
            if (rn(6) == 0) CK(scm_gc_protectedp(slot[i]), "a protected object is not scm_gc_protectedp");
        }
    }
}
/* protection withdrawn while the variable still refers: no longer kept alive */
static ScmObj weak[60];
static NOINLINE void fill_weak(int *first)
{
    int i;
    *first = n_ports;
    for (i = 0; i < 60 && n_ports < MAXPORT; i++) {
        struct model m;
        memset(&m, 0, sizeof m);
        m.k = K_PORT;
        m.i = n_ports++;
        m.s = "short";
        weak[i] = SCM_FALSE;
        scm_gc_protect(&weak[i]);
        weak[i] = make(&m);
    }
}
static NOINLINE void withdrawn(void)
{
    int first, i, n, got;
    if (n_ports > MAXPORT - 3000) return;
    enter("withdrawn");
    fill_weak(&first);
    n = n_ports - first;
    scrub(20);
    scm_verif_collect();
    for (i = 0; i < n; i++) CK(fin_count[first + i] == 0, "a protected port was finalised");
    for (i = 0; i < n; i++) scm_gc_unprotect(&weak[i]);
    scrub(20);
    scm_verif_collect();
    for (got = i = 0; i < n; i++) got += fin_count[first + i];
    CK(got >= n - 6, "of %d objects whose protection was withdrawn %d are still kept", n, n - got);
    for (i = 0; i < n; i++) { dropped[first + i] = 1; weak[i] = SCM_FALSE; }
    /* a variable protected again is kept again */
    scm_gc_protect_with_init(&weak[0], CONS(MAKE_INT(77), SCM_NULL));
    scrub(20);
    scm_verif_collect();
    CK(CONSP(weak[0]) && INTP(CAR(weak[0])) && SCM_INT_VALUE(CAR(weak[0])) == 77, "a variable protected anew lost its object");
    scm_gc_unprotect(&weak[0]);
    weak[0] = SCM_FALSE;
}

/* --- objects on the stack ------------------------------------------------ */
static NOINLINE void on_stack(int depth)
{
    struct model *m[4];
    ScmObj o[4];
    int i, n = 1 + rn(4);
    enter("stack");
    for (i = 0; i < n; i++) { m[i] = fresh(2); o[i] = make_once(m[i]); maybe_gc(); }
    if (depth > 0) on_stack(depth - 1);
    scm_verif_collect();
    for (i = 0; i < n; i++) agree(o[i], m[i]);
    for (i = 0; i < n; i++) { drop(m[i]); free_model(m[i]); }
}
static void *in_gate(void *arg)
{
    ScmObj o;
    struct model *m = arg;
    CK(scm_gc_protected_contextp(), "not a protected context inside scm_call_with_gc_ready_stack");
    o = make_once(m);
    scm_verif_collect();
    agree(o, m);
    if (rn(3)) on_stack(2);
    agree(o, m);
    return (void *)(uintptr_t)4711;
}
static NOINLINE void gate(void)
{
    struct model *m = fresh(3);
    enter("gate");
    CK((uintptr_t)scm_call_with_gc_ready_stack(in_gate, m) == 4711, "the gate does not return the function's value");
    drop(m);
    free_model(m);
}

/* --- lists ---------------------------------------------------------------- */
static ScmObj conv_to(void *p) { maybe_gc(); return CONS(MAKE_INT((long)(intptr_t)p), SCM_NULL); }
static void *conv_from(ScmObj o) { maybe_gc(); return (void *)(intptr_t)SCM_INT_VALUE(CAR(o)); }
static NOINLINE void lists(void)
{
    void *ary[60], **back;
    size_t n = rn(60), m = 12345, i;
    ScmObj l, t;
    long k;
    enter("list");
    for (i = 0; i < n; i++) ary[i] = (void *)(intptr_t)(rn(100000) - 50000);
    l = scm_array2list(ary, n, conv_to);
    CK(scm_length(l) == (scm_int_t)n, "array2list of %d gives length %ld", (int)n, (long)scm_length(l));
    for (t = l, i = 0; CONSP(t); t = CDR(t), i++)
        CK(SCM_INT_VALUE(CAR(CAR(t))) == (long)(intptr_t)ary[i], "array2list: element %d differs", (int)i);
    CK(NULLP(t) && i == n, "array2list: %d elements of %d", (int)i, (int)n);
    back = scm_list2array(l, &m, conv_from);
    CK(m == n, "list2array: length %d, not %d", (int)m, (int)n);
    for (i = 0; i < n && i < m; i++) CK(back[i] == ary[i], "list2array: element %d differs", (int)i);
    free(back);
    back = scm_list2array(l, &m, NULL);
    for (t = l, i = 0; i < m; i++, t = CDR(t)) CK(back[i] == (void *)CAR(t), "list2array without a conversion: element %d", (int)i);
    t = scm_array2list(back, m, NULL);
    CK(TRUEP(scm_p_equalp(t, l)), "array2list of list2array is a different list");
    free(back);
    k = rn((int)n + 1);
    t = scm_list_tail(l, k);
    CK(scm_length(t) == (scm_int_t)n - k, "list_tail %ld of %d has length %ld", k, (int)n, (long)scm_length(t));
    if (n) {
        ScmObj last = scm_list_tail(l, n - 1);
        SET_CDR(last, MAKE_INT(5));
        CK(SCM_LISTLEN_DOTTEDP(scm_length(l)) && SCM_LISTLEN_DOTTED(scm_length(l)) == (scm_int_t)n, "a dotted list of %d has length %ld", (int)n, (long)scm_length(l));
        SET_CDR(last, scm_list_tail(l, rn((int)n)));
        CK(SCM_LISTLEN_CIRCULARP(scm_length(l)), "a circular list of %d has length %ld", (int)n, (long)scm_length(l));
        SET_CDR(last, SCM_NULL);
        CK(scm_length(l) == (scm_int_t)n, "a list mended has length %ld", (long)scm_length(l));
    }
    l = LIST_5(MAKE_INT(1), MAKE_INT(2), MAKE_INT(3), MAKE_INT(4), MAKE_INT(5));
    CK(LIST_5_P(l) && !LIST_4_P(l) && !LIST_1_P(l), "LIST_n_P of a list of 5");
    CK(SCM_INT_VALUE(CADR(l)) == 2 && SCM_INT_VALUE(CAR(CDR(CDR(l)))) == 3, "CADR, CADDR");
    CK(scm_length(MAKE_INT(4)) == -1 && scm_length(SCM_NULL) == 0, "length of a non-list");
}

/* --- procedures of every kind --------------------------------------------- */
static int n_calls;
static ScmObj arr(int n, ScmObj *a)
{
    ScmObj l = SCM_NULL;
    n_calls++;
    while (n--) { l = CONS(a[n], l); maybe_gc(); }
    return l;
}
#define QUOTED(l) (st->ret_type = SCM_VALTYPE_NEED_EVAL, LIST_2(SCM_SYM_QUOTE, (l)))
#define A0
#define P1 ScmObj a
#define P2 P1, ScmObj b
#define P3 P2, ScmObj c
#define P4 P3, ScmObj d
#define P5 P4, ScmObj e
#define V1 a
#define V2 V1, b
#define V3 V2, c
#define V4 V3, d
#define V5 V4, e
#define ARR(n) ScmObj t[] = {V##n}; return arr(n, t)
#define PROCS(n) \
    static ScmObj pf##n(P##n) { ARR(n); } \
    static ScmObj pft##n(P##n, ScmEvalState *st) { ScmObj t[] = {V##n}; ScmObj l = arr(n, t); return QUOTED(l); } \
    static ScmObj pv##n(P##n, ScmObj rest) { ScmObj t[] = {V##n, rest}; return arr(n + 1, t); } \
    static ScmObj pvt##n(P##n, ScmObj rest, ScmEvalState *st) { ScmObj t[] = {V##n, rest}; ScmObj l = arr(n + 1, t); return QUOTED(l); } \
    static ScmObj sf##n(P##n, ScmObj env) { ARR(n); } \
    static ScmObj sft##n(P##n, ScmEvalState *st) { ScmObj t[] = {V##n}; ScmObj l = arr(n, t); return QUOTED(l); } \
    static ScmObj sv##n(P##n, ScmObj rest, ScmObj env) { ScmObj t[] = {V##n, rest}; return arr(n + 1, t); } \
    static ScmObj svt##n(P##n, ScmObj rest, ScmEvalState *st) { ScmObj t[] = {V##n, rest}; ScmObj l = arr(n + 1, t); return QUOTED(l); }
PROCS(1) PROCS(2) PROCS(3) PROCS(4) PROCS(5)
static ScmObj pf0(void) { return arr(0, NULL); }
static ScmObj pft0(ScmEvalState *st) { ScmObj l = arr(0, NULL); return QUOTED(l); }
static ScmObj pv0(ScmObj rest) { return arr(1, &rest); }
static ScmObj pvt0(ScmObj rest, ScmEvalState *st) { ScmObj l = arr(1, &rest); return QUOTED(l); }
static ScmObj sf0(ScmObj env) { return arr(0, NULL); }
static ScmObj sft0(ScmEvalState *st) { ScmObj l = arr(0, NULL); return QUOTED(l); }
static ScmObj sv0(ScmObj rest, ScmObj env) { return arr(1, &rest); }
static ScmObj svt0(ScmObj rest, ScmEvalState *st) { ScmObj l = arr(1, &rest); return QUOTED(l); }
#define ROW(p) {(ScmFuncType)p##0, (ScmFuncType)p##1, (ScmFuncType)p##2, (ScmFuncType)p##3, (ScmFuncType)p##4, (ScmFuncType)p##5}
static const struct { const char *n; int base; int syn, var; ScmFuncType f[6]; } kinds[] = {
    {"pf", SCM_PROCEDURE_FIXED_0, 0, 0, ROW(pf)}, {"pft", SCM_PROCEDURE_FIXED_TAILREC_0, 0, 0, ROW(pft)},
    {"pv", SCM_PROCEDURE_VARIADIC_0, 0, 1, ROW(pv)}, {"pvt", SCM_PROCEDURE_VARIADIC_TAILREC_0, 0, 1, ROW(pvt)},
    {"sf", SCM_SYNTAX_FIXED_0, 1, 0, ROW(sf)}, {"sft", SCM_SYNTAX_FIXED_TAILREC_0, 1, 0, ROW(sft)},
    {"sv", SCM_SYNTAX_VARIADIC_0, 1, 1, ROW(sv)}, {"svt", SCM_SYNTAX_VARIADIC_TAILREC_0, 1, 1, ROW(svt)}};

static char red_log[4000];
static ScmObj reducer(ScmObj l, ScmObj r, enum ScmReductionState *st)
{
    char *p = red_log + strlen(red_log);
    long a = *st == SCM_REDUCE_0 ? -1 : SCM_INT_VALUE(l), b = *st == SCM_REDUCE_0 ? -1 : SCM_INT_VALUE(r);
    sprintf(p, "%c:%ld,%ld;", "01pls"[*st], a, b);
    switch (*st) {
    case SCM_REDUCE_0: return MAKE_INT(-7);
    case SCM_REDUCE_1: return l;
    case SCM_REDUCE_PARTWAY:
    case SCM_REDUCE_LAST:
        if (b == 99) { *st = SCM_REDUCE_STOP; return MAKE_INT(a * 2 + 1); }
        return MAKE_INT((a * 7 + b) % 100000);
    default: return SCM_FALSE;
    }
}
static ScmObj s_evaluate(ScmObj x, ScmObj env) { maybe_gc(); return scm_eval(x, env); }
static ScmObj s_twice(ScmObj x, ScmEvalState *st)
{
    scm_eval(x, st->env);
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return x;
}
static ScmObj s_tail(ScmObj x, ScmEvalState *st) { st->ret_type = SCM_VALTYPE_NEED_EVAL; return x; }
static ScmObj c_call(ScmObj f, ScmObj args) { maybe_gc(); return scm_call(f, args); }
static ScmObj c_error(ScmObj which, ScmObj x)
{
    long w = SCM_INT_VALUE(which);
    maybe_gc();
    if (w == 0) scm_error("c_error", "reason zero ~D", 17);
    if (w == 1) scm_error_obj("c_error", "reason one", x);
    if (w == 2) scm_plain_error("reason ~S ~C", "two", (scm_ichar_t)'!');
    if (w == 3) scm_raise_error(scm_make_error_obj(CONST_STRING("reason three"), LIST_2(x, MAKE_INT(3))));
    return x;
}
static long depth_max;
/* every operation of the C port interface */
static ScmObj c_port_op(ScmObj port, ScmObj which)
{
    switch (SCM_INT_VALUE(which)) {
    case 0: scm_port_get_char(port); break;
    case 1: scm_port_peek_char(port); break;
    case 2: scm_port_char_readyp(port); break;
    case 3: scm_port_puts(port, "x"); break;
    case 4: scm_port_put_char(port, 'x'); break;
    case 5: scm_port_newline(port); break;
    case 6: scm_port_flush(port); break;
    case 7: free(scm_port_inspect(port)); break;
    case 8: scm_port_codec(port); break;
    case 9: scm_write(port, MAKE_INT(1)); break;
    case 10: scm_display(port, MAKE_INT(1)); break;
    default: scm_read(port); break;
    }
    return SCM_TRUE;
}
static NOINLINE void dead_port(ScmObj port)
{
    int k, i;
    ScmObj f = scm_eval_c_string("(lambda (p k) (guard (e ((%%error-object? e) 'refused)) (c-port-op p k)))");
    for (i = 0; i < 6; i++) {
        k = rn(12);
        maybe_gc();
        CK(EQ(scm_call(f, LIST_2(port, MAKE_INT(k))), scm_intern("refused")), "operation %d on a closed port", k);
    }
}
static ScmObj c_depth(void) { char h; long d = stack_base - &h; if (d < 0) d = -d; if (d > depth_max) depth_max = d; return MAKE_INT(d); }
static ScmObj c_gc(void) { scm_verif_collect(); return SCM_TRUE; }

static void *reg(void *arg)
{
    int i, n;
    char nm[40];
    for (i = 0; i < 8; i++)
        for (n = 0; n <= 5; n++) {
            ScmObj r;
            sprintf(nm, "%s%d", kinds[i].n, n);
            r = scm_register_func(nm, kinds[i].f[n], kinds[i].base | n);
            if (!TRUEP(r)) bad("scm_register_func %s says no", nm);
        }
    scm_register_func("red", (ScmFuncType)reducer, SCM_REDUCTION_OPERATOR);
    scm_register_func("s-evaluate", (ScmFuncType)s_evaluate, SCM_SYNTAX_FIXED_1);
    scm_register_func("s-twice", (ScmFuncType)s_twice, SCM_SYNTAX_FIXED_TAILREC_1);
    scm_register_func("s-tail", (ScmFuncType)s_tail, SCM_SYNTAX_FIXED_TAILREC_1);
    scm_register_func("c-call", (ScmFuncType)c_call, SCM_PROCEDURE_FIXED_2);
    scm_register_func("c-error", (ScmFuncType)c_error, SCM_PROCEDURE_FIXED_2);
    scm_register_func("c-port-op", (ScmFuncType)c_port_op, SCM_PROCEDURE_FIXED_2);
    scm_register_func("c-depth", (ScmFuncType)c_depth, SCM_PROCEDURE_FIXED_0);
    scm_register_func("c-gc", (ScmFuncType)c_gc, SCM_PROCEDURE_FIXED_0);
    scm_define_alias("c-call-alias", "c-call");
    scm_gc_protect_with_init(&mk_closure, SCM_FALSE);
    scm_gc_protect_with_init(&empty_vec, SCM_FALSE);
    mk_closure = scm_eval_c_string("(lambda (x) (lambda () x))");
    scm_eval_c_string("(define trace-log '())");
    scm_eval_c_string("(define (T i v) (set! trace-log (cons i trace-log)) v)");
    scm_eval_c_string("(define (to-s x) (let ((p (open-output-string))) (write x p) (get-output-string p)))");
    scm_eval_c_string("(define (tail-loop n) (if (= n 0) (begin (c-depth) 'done) (s-tail (tail-loop (- n 1)))))");
    return NULL;
}

/* evaluates text and compares what it writes */
static void expect(const char *text, const char *want)
{
    char *exp = malloc(strlen(text) + 100);
    ScmObj r;
    sprintf(exp, "(to-s (guard (e (#t (list 'err (if (%%%%error-object? e) (cadr e) e)))) %s))", text);
    /* the doubled percent signs */
    r = scm_eval_c_string(exp);
    if (!STRINGP(r)) bad("%s: not a string", exp);
    else if (strcmp(SCM_STRING_STR(r), want)) bad("%s\n   gives %s\n   not   %s", text, SCM_STRING_STR(r), want);
    free(exp);
}
static int failed(const char *text)
{
    char *exp = malloc(strlen(text) + 100);
    ScmObj r;
    sprintf(exp, "(guard (e ((%%%%error-object? e) 'failed)) %s)", text);
    r = scm_eval_c_string(exp);
    free(exp);
    return EQ(r, scm_intern("failed"));
}
static NOINLINE void calls(void)
{
    int i = rn(8), n = rn(6), argc = rn(4) ? n + (kinds[i].var ? rn(5) : 0) : rn(9), k, ok, before;
    char text[2000], want[2000], *p = text, *w = want;
    long v[12];
    int how = rn(kinds[i].syn ? 1 : 4);
    enter(kinds[i].n);
    ok = kinds[i].var ? argc >= n : argc == n;
    for (k = 0; k < argc; k++) v[k] = rn(2000) - 1000;
    scm_eval_c_string("(set! trace-log '())");
    if (how == 0 || how == 3)
        p += sprintf(p, "(%s%d", kinds[i].n, n);
    else if (how == 1)
        p += sprintf(p, "(apply %s%d%s", kinds[i].n, n, argc ? "" : " '()");
    else
        p += sprintf(p, "(c-call %s%d (list", kinds[i].n, n);
    for (k = 0; k < argc; k++) {
        if (how == 1 && k == argc - 1) p += sprintf(p, " (list (T %d %ld))", k, v[k]);
        else p += sprintf(p, " (T %d %ld)", k, v[k]);
    }
    p += sprintf(p, how == 2 ? "))" : ")");
    if (how == 3) {
        /* through map, one element each */
        char t2[2000];
        strcpy(t2, text);
        if (argc) {
            p = text;
            p += sprintf(p, "(car (map %s%d", kinds[i].n, n);
            for (k = 0; k < argc; k++) p += sprintf(p, " (list (T %d %ld))", k, v[k]);
            p += sprintf(p, "))");
        } else
            strcpy(text, t2);
    }
    before = n_calls;
    if (!ok) {
        CK(failed(text), "%s is accepted", text);
        CK(n_calls == before, "%s reaches the C function", text);
        return;
    }
    *w++ = '(';
    for (k = 0; k < n; k++)
        w += sprintf(w, kinds[i].syn ? "%s(T %d %ld)" : "%s%.0d%ld", k ? " " : "", kinds[i].syn ? k : 0, v[k]);
    if (kinds[i].var) {
        w += sprintf(w, "%s(", n ? " " : "");
        for (k = n; k < argc; k++)
            w += sprintf(w, kinds[i].syn ? "%s(T %d %ld)" : "%s%.0d%ld", k > n ? " " : "", kinds[i].syn ? k : 0, v[k]);
        *w++ = ')';
    }
    strcpy(w, ")");
    expect(text, want);
    CK(n_calls == before + 1, "%s: the C function is called %d times", text, n_calls - before);
    /* each argument of a procedure is evaluated once, those of a syntax not at all */
    {
        char wl[300], *q = wl;
        ScmObj r = scm_eval_c_string("(to-s (reverse trace-log))");
        *q++ = '(';
        if (!kinds[i].syn)
            for (k = 0; k < argc; k++) q += sprintf(q, "%s%d", k ? " " : "", k);
        strcpy(q, ")");
        CK(!strcmp(SCM_STRING_STR(r), wl), "%s: arguments evaluated: %s", text, SCM_STRING_STR(r));
    }
}
static NOINLINE void reductions(void)
{
    int n = rn(7), k;
    long v[8], acc;
    char text[600], want[60], log[1000], *p = text, *q = log;
    enter("reduction");
    for (k = 0; k < n; k++) v[k] = rn(8) ? rn(90) : 99;
    p += sprintf(p, rn(2) ? "(red" : "(apply red (list");
    for (k = 0; k < n; k++) p += sprintf(p, " %ld", v[k]);
    strcpy(p, text[1] == 'a' ? "))" : ")");
    *log = *red_log = 0;
    if (n == 0) { acc = -7; sprintf(log, "0:-1,-1;"); }
    else if (n == 1) { acc = v[0]; sprintf(log, "1:%ld,%ld;", v[0], v[0]); }
    else {
        acc = v[0];
        for (k = 1; k < n; k++) {
            q += sprintf(q, "%c:%ld,%ld;", k == n - 1 ? 'l' : 'p', acc, v[k]);
            if (v[k] == 99) { acc = acc * 2 + 1; break; }
            acc = (acc * 7 + v[k]) % 100000;
        }
    }
    sprintf(want, "%ld", acc);
    expect(text, want);
    CK(!strcmp(log, red_log), "%s: steps %s, not %s", text, red_log, log);
}
static NOINLINE void context(void)
{
    char text[300], want[100];
    int a = rn(100), b = rn(100);
    enter("environment");
    sprintf(text, "(let ((zz %d)) (s-evaluate (let ((yy %d)) (s-evaluate (list zz yy (s-tail zz))))))", a, b);
    sprintf(want, "(%d %d %d)", a, b, a);
    expect(text, want);
    sprintf(text, "(let ((n 0) (zz %d)) (s-twice (begin (set! n (+ n zz)) n)))", a);
    sprintf(want, "%d", 2 * a);
    expect(text, want);
    sprintf(text, "(let ((f (lambda x (c-gc) (reverse x)))) (c-call-alias f (list %d %d (c-call f '(1 2)))))", a, b);
    sprintf(want, "((2 1) %d %d)", b, a);
    expect(text, want);
    CK(failed("(apply s-evaluate (list 1))"), "a syntax can be applied");
    CK(failed("(apply (begin sf1) '(1))"), "a syntax can be applied");
}
static NOINLINE void tailcalls(void)
{
    enter("tail calls");
    depth_max = 0;
    scm_eval_c_string("(tail-loop 10)");
    {
        long d = depth_max;
        ScmObj r = scm_eval_c_string("(tail-loop 3000)");
        CK(EQ(r, scm_intern("done")), "the loop's value");
        CK(depth_max < d + 4000, "a loop through a tail-recursive syntax grows the stack: %ld, then %ld", d, depth_max);
    }
}
static NOINLINE void errors(void)
{
    char text[500], want[300];
    int w = rn(4), x = rn(1000);
    enter("errors");
    switch (w) {
    case 0: sprintf(want, "(\"in c_error: reason zero 17\" () end)"); break;
    case 1: sprintf(want, "(\"in c_error: reason one:\" (%d) end)", x); break;
    case 2: sprintf(want, "(\"reason two !\" () end)"); break;
    default: sprintf(want, "(\"reason three\" (%d 3) end)", x); break;
    }
    sprintf(text, "(let* ((log 'start) (r (guard (e ((%%%%%%%%error-object? e) (list (cadr e) (if (null? (cddr e)) '() (caddr e)))))"
            " (dynamic-wind (lambda () #t) (lambda () %s) (lambda () (set! log 'end)))))) (append r (list log)))",
            (const char *[]){"(c-error %d %d)", "(c-call c-error (list %d %d))", "(c-call (lambda (a b) (list (c-error a b))) (list %d %d))",
                             "(map (lambda (i) (c-error %d %d)) '(1 2))"}[rn(4)]);
    {
        char t2[700];
        snprintf(t2, sizeof t2, text, w, x);
        expect(t2, want);
    }
    sprintf(text, "(c-error 9 %d)", x);
    sprintf(want, "%d", x);
    expect(text, want);
    /* an escape and a raise through C frames */
    sprintf(text, "(call-with-current-continuation (lambda (k) (c-call (lambda (x) (k (list x))) (list %d)) 'not-here))", x);
    sprintf(want, "(%d)", x);
    expect(text, want);
    sprintf(text, "(guard (e ((symbol? e) (list 'got e))) (c-call (lambda (x) (raise 'sym)) (list %d)) 'not-here)", x);
    expect(text, "(got sym)");
}

/* --- symbols, features, text ---------------------------------------------- */
static NOINLINE void symbols(void)
{
    char nm[300], text[400], want[60];
    unsigned cs[40];
    ScmObj a, b;
    int x = rn(1000);
    enter("symbol");
    rtext(nm, cs, 30);
    a = scm_intern(nm);
    maybe_gc();
    b = scm_intern(nm);
    CK(EQ(a, b) && SYMBOLP(a) && !strcmp(SCM_SYMBOL_NAME(a), nm), "symbol %s", nm);
    sprintf(nm, "c-var%d", rn(50));
    SCM_SYMBOL_SET_VCELL(scm_intern(nm), CONS(MAKE_INT(x), SCM_NULL));
    maybe_gc();
    sprintf(text, "(let ((v (car %s))) (set! %s (+ v 1)) v)", nm, nm);
    sprintf(want, "%d", x);
    expect(text, want);
    a = scm_symbol_value(scm_intern(nm), SCM_INTERACTION_ENV);
    CK(INTP(a) && SCM_INT_VALUE(a) == x + 1, "symbol_value of a variable Scheme set");
    a = SCM_SYMBOL_VCELL(scm_intern(nm));
    CK(INTP(a) && SCM_INT_VALUE(a) == x + 1, "value cell of a variable Scheme set");
    {
        ScmObj v = CONS(MAKE_INT(x), SCM_NULL), s1;
        CK(FALSEP(scm_symbol_bound_to(v)), "a fresh object is bound to a symbol");
        sprintf(nm, "c-bound%d", rn(2000));
        s1 = scm_intern(nm);
        SCM_SYMBOL_SET_VCELL(s1, v);
        maybe_gc();
        CK(EQ(scm_symbol_bound_to(v), s1), "symbol_bound_to does not find %s", nm);
        SCM_SYMBOL_SET_VCELL(s1, MAKE_INT(0));
        CK(FALSEP(scm_symbol_bound_to(v)), "symbol_bound_to finds %s, which is bound to something else", nm);
        SCM_SYMBOL_SET_VCELL(s1, SCM_UNBOUND);
        CK(!SCM_SYMBOL_BOUNDP(s1), "%s is bound after it was unbound", nm);
    }
    sprintf(nm, "feature %d", rn(40));
    {
        static char known[40];
        int i = atoi(nm + 8);
        a = MAKE_STRING_COPYING(nm, STRLEN_UNKNOWN);
        CK(!!scm_providedp(a) == !!known[i], "providedp %s", nm);
        if (rn(2)) { scm_provide(a); known[i] = 1; CK(scm_providedp(CONST_STRING(nm)), "provide %s", nm); }
    }
    CK(scm_require_module("srfi-1") && scm_use("srfi-8") && !scm_require_module("no such module"), "modules");
}
static NOINLINE void strings(void)
{
    char buf[300], text[300], want[600], *q;
    unsigned cs[40];
    int n = rtext(buf, cs, 30), i;
    ScmObj s, r;
    enter("string");
    s = rn(2) ? MAKE_STRING_COPYING(buf, STRLEN_UNKNOWN) : MAKE_STRING(scm_strdup(buf), STRLEN_UNKNOWN);
    CK(SCM_STRING_LEN(s) == n, "length %ld, not %d, of %s", (long)SCM_STRING_LEN(s), n, buf);
    r = scm_call(scm_eval_c_string("(lambda (s) (map char->integer (string->list s)))"), LIST_1(s));
    for (i = 0; i < n && CONSP(r); i++, r = CDR(r))
        CK(SCM_INT_VALUE(CAR(r)) == (long)cs[i], "character %d of %s is %lx", i, buf, (long)SCM_INT_VALUE(CAR(r)));
    CK(i == n && NULLP(r), "characters of %s", buf);
    if (n) {
        unsigned c = rchar();
        int k = rn(n);
        char *p = want;
        scm_call(scm_eval_c_string("string-set!"), LIST_3(s, MAKE_INT(k), MAKE_CHAR(c)));
        cs[k] = c;
        for (i = 0; i < n; i++) p += put_utf8(p, cs[i]);
        *p = 0;
        CK(!strcmp(SCM_STRING_STR(s), want), "string-set! gives %s, not %s", SCM_STRING_STR(s), want);
    }
    (void)text; (void)q;
}
static NOINLINE void numbers(void)
{
    ScmValueFormat f;
    char want[300], fmt[40], *got;
    long v = rn(3) ? rint_() : (long)rnd();
    int w = rn(3) ? -1 : rn(128), zero = rn(2), radix = (int[]){2, 8, 10, 16}[rn(4)], sgn = rn(2), i, neg;
    unsigned long u;
    char dig[70];
    scm_bool err;
    enter("number text");
    SCM_VALUE_FORMAT_INIT4(f, w, -1, zero ? '0' : ' ', sgn);
    got = scm_int2string(f, (uintmax_t)v, radix);
    neg = sgn && v < 0;
    u = neg ? 0UL - (unsigned long)v : (unsigned long)v;
    i = 69; dig[i] = 0;
    do { dig[--i] = "0123456789abcdef"[u % radix]; u /= radix; } while (u);
    {
        int len = 69 - i + neg;
        char *p = want;
        if (zero && neg) *p++ = '-';
        for (; len < w; len++) *p++ = zero ? '0' : ' ';
        if (!zero && neg) *p++ = '-';
        strcpy(p, dig + i);
    }
    CK(!strcmp(got, want), "int2string %ld width %d pad %c radix %d signed %d gives %s, not %s", v, w, zero ? '0' : ' ', radix, sgn, got, want);
    free(got);
    if (v >= SCM_INT_MIN && v <= SCM_INT_MAX) {
        scm_int_t back;
        SCM_VALUE_FORMAT_INIT(f);
        got = scm_int2string(f, (uintmax_t)v, radix);
        back = scm_string2number(got, radix, &err);
        CK(!err && back == v, "string2number of %s radix %d gives %ld", got, radix, (long)back);
        free(got);
    }
    (void)fmt;
    CK((scm_string2number("12x", 10, &err), err), "string2number accepts 12x");
}
static ScmObj fmtv(const char *fmt, ...)
{
    va_list va;
    ScmObj r;
    va_start(va, fmt);
    r = scm_vformat(SCM_FALSE, SCM_FMT_RAW_C | SCM_FMT_SSCM, fmt, va);
    va_end(va);
    return r;
}
static void bin(char *out, unsigned long u, int w, int zero)
{
    char d[70];
    int i = 69, len;
    d[i] = 0;
    do { d[--i] = '0' + (u & 1); u >>= 1; } while (u);
    for (len = 69 - i; len < w; len++) *out++ = zero ? '0' : ' ';
    strcpy(out, d + i);
}
static NOINLINE void formats(void)
{
    char fmt[100], cfmt[100], want[1000], wid[10], pre[300], buf[300];
    unsigned cs[40];
    int w = rn(128), zero = rn(2), i, m = rn(8), sp = rn(5), n;
    uint64_t v = rn(3) ? (uint64_t)rint_() : rnd();
    ScmObj r = SCM_FALSE;
    const char spec = "DUXOB"[sp];
    enter("C format");
    n = rtext(pre, cs, 6);
    for (i = 0; pre[i]; i++) if (pre[i] == '~') pre[i] = '-';
    if (rn(3) == 0) { w = -1; zero = 0; strcpy(wid, ""); } else sprintf(wid, "%s%d", zero ? "0" : "", w);
    /* the C library is the model */
    sprintf(cfmt, "%%%s%s%s", zero ? "0" : "", "", "");
    if (w > 0) sprintf(cfmt + strlen(cfmt), "%d", w);
    if (w <= 0) strcpy(cfmt, "%");
    sprintf(fmt, "%s~%s%s%c|", pre, wid, (const char *[]){"", "W", "M", "L", "Q", "J", "T", "Z"}[m], spec);
    sprintf(cfmt + strlen(cfmt), "%s%c", m < 2 ? "" : "l", "duxo"[sp == 4 ? 0 : sp]);
    strcpy(want, pre);
    if (sp == 4) bin(want + strlen(want), m < 2 ? (uint32_t)v : v, w, zero);
    else if (m < 2) sprintf(want + strlen(want), cfmt, (int)v);
    else sprintf(want + strlen(want), cfmt, (long)v);
    strcat(want, "|");
    switch (m) {
    case 0: r = fmtv(fmt, (int)v); break;
    case 1: r = fmtv(fmt, (int32_t)v); break;
    case 2: r = fmtv(fmt, (scm_int_t)v); break;
    case 3: r = fmtv(fmt, (long)v); break;
    case 4: r = fmtv(fmt, (int64_t)v); break;
    case 5: r = fmtv(fmt, (intmax_t)v); break;
    case 6: r = fmtv(fmt, (ptrdiff_t)v); break;
    default: r = fmtv(fmt, (size_t)v); break;
    }
    CK(STRINGP(r) && !strcmp(SCM_STRING_STR(r), want), "format %s of %lx gives %s, not %s", fmt, (long)v, STRINGP(r) ? SCM_STRING_STR(r) : "?", want);
    n = rtext(buf, cs, 12);
    w = rn(20);
    r = fmtv("~C:~P:~a", (scm_ichar_t)0x3042, (void *)(uintptr_t)v, MAKE_INT(12));
    sprintf(want, "あ:0x%016lx:12", (unsigned long)v);
    CK(!strcmp(SCM_STRING_STR(r), want), "format ~C:~P:~a gives %s, not %s", SCM_STRING_STR(r), want);
    sprintf(fmt, "~%dS.~s", w);
    r = fmtv(fmt, buf, LIST_2(MAKE_INT(1), CONST_STRING("x")));
    *want = 0;
    for (i = n; i < w; i++) strcat(want, " ");
    strcat(want, buf);
    strcat(want, ".(1 \"x\")");
    CK(!strcmp(SCM_STRING_STR(r), want), "format %s of %s gives %s, not %s", fmt, buf, SCM_STRING_STR(r), want);
}
static NOINLINE void ports(void)
{
    FILE *f = tmpfile();
    ScmObj out, in;
    char all[4000], buf[300];
    unsigned cs[40], cc[600];
    int n = 0, i, k, parts = rn(12);
    long at;
    if (!f) return;
    enter("port");
    *all = 0;
    out = scm_make_shared_file_port(f, "a file", SCM_PORTFLAG_OUTPUT);
    for (i = 0; i < parts; i++) {
        k = rtext(buf, cs, 30);
        if (rn(2))
            scm_port_puts(out, buf);
        else {
            int j;
            for (j = 0; j < k; j++) scm_port_put_char(out, cs[j]);
        }
        strcat(all, buf);
        for (k = k, at = 0; at < k; at++) cc[n++] = cs[at];
        if (rn(4) == 0) { scm_port_newline(out); strcat(all, "\n"); cc[n++] = '\n'; }
        maybe_gc();
    }
    scm_port_flush(out);
    if (rn(2)) { scm_port_close(out); dead_port(out); }
    rewind(f);
    i = fread(buf, 1, 1, f);
    CK(i == (*all ? 1 : 0) && (!i || buf[0] == all[0]), "a shared file is unusable after its port");
    rewind(f);
    in = scm_make_shared_file_port(f, "a file", SCM_PORTFLAG_INPUT);
    for (i = 0; i < n; i++) {
        scm_ichar_t c;
        if (rn(3) == 0) {
            c = scm_port_peek_char(in);
            CK(c == (scm_ichar_t)cc[i], "peek %d gives %x, not %x", i, (int)c, cc[i]);
        }
        c = scm_port_get_char(in);
        CK(c == (scm_ichar_t)cc[i], "character %d reads %x, not %x", i, (int)c, cc[i]);
    }
    CK(scm_port_peek_char(in) == SCM_ICHAR_EOF && scm_port_get_char(in) == SCM_ICHAR_EOF && scm_port_get_char(in) == SCM_ICHAR_EOF, "end of file");
    scm_port_close(in);
    dead_port(in);
    CK(fclose(f) == 0, "the shared file was closed");
}
static int n_ofin, n_obad;
static void out_fin(char **str, size_t size, void **opaque)
{
    n_ofin++;
    if (*opaque != (void *)&n_ofin || (*str && strlen(*str) >= size)) n_obad++;
    free(*str);
}
static NOINLINE void out_ports(void)
{
    char want[4000];
    size_t len = 0;
    int k, n = rn(40), fins = n_ofin;
    ScmBytePort *ob = ScmOutputStrPort_new(out_fin);
    ScmObj out;
    enter("output string port");
    *ScmOutputStrPort_ref_opaque(ob) = (void *)&n_ofin;
    out = MAKE_PORT(scm_make_char_port(ob), SCM_PORTFLAG_OUTPUT);
    want[0] = 0;
    for (k = 0; k < n; k++) {
        char b[80];
        if (rn(3)) { int j, m = rn(60); for (j = 0; j < m; j++) b[j] = 'a' + rn(26); b[m] = 0; scm_port_puts(out, b); }
        else { b[0] = 'A' + rn(26); b[1] = 0; scm_port_put_char(out, b[0]); }
        strcat(want + len, b); len += strlen(b);
        maybe_gc();
        CK(ScmOutputStrPort_c_strlen(ob) == len, "length of an output string port: %d, not %d", (int)ScmOutputStrPort_c_strlen(ob), (int)len);
        CK(!len || !strcmp(ScmOutputStrPort_str(ob), want), "content of an output string port");
    }
    CK(*ScmOutputStrPort_ref_opaque(ob) == (void *)&n_ofin, "opaque value of an output string port");
    if (rn(2)) {
        fins = n_ofin;
        scm_port_close(out);
        CK(n_ofin == fins + 1, "closing an output string port ran its finaliser %d times", n_ofin - fins);
        dead_port(out);
    } else scm_port_flush(out);
    CK(!n_obad, "finaliser of an output string port with wrong arguments");
}
static NOINLINE void rw(void)
{
    /* write from C and read back from C */
    ScmBytePort *ob = ScmOutputStrPort_new(NULL);
    ScmObj out = MAKE_PORT(scm_make_char_port(ob), SCM_PORTFLAG_OUTPUT), in, back;
    struct model *m;
    char *text;
    enter("write and read");
    for (;;) {
        m = rmodel(3);
        if (m->k < K_CPTR && !has_shared_port(m)) {
            struct model *t = m;
            int okk = 1, i;
            /* only what has a text */
            struct model *st[200];
            int sp = 0;
            st[sp++] = t;
            while (sp) {
                t = st[--sp];
                if (t->k >= K_CPTR || (t->k == K_CHAR && (t->i == 0 || t->i == 1))) okk = 0;
                for (i = 0; i < t->n; i++) st[sp++] = t->kid[i];
            }
            if (okk) break;
        }
        drop(m);
        free_model(m);
    }
    scm_write(out, make(m));
    text = strdup(ScmOutputStrPort_str(ob) ? ScmOutputStrPort_str(ob) : "");
    in = MAKE_PORT(scm_make_char_port(ScmInputStrPort_new(text, NULL)), SCM_PORTFLAG_INPUT);
    maybe_gc();
    back = scm_read(in);
    agree(back, m);
    CK(EOFP(scm_read(in)), "text is left after the datum");
    drop(m);
    free_model(m);
}

static void *body(void *arg)
{
    long rounds = *(long *)arg, r;
    struct model *m;
    ScmObj o;
    for (r = 0; r < rounds; r++) {
        enter("value");
        m = fresh(3);
        o = make_once(m);
        maybe_gc();
        agree(o, m);
        drop(m);
        free_model(m);
        switch (rn(16)) {
        case 0: on_stack(rn(6)); break;
        case 1: gate(); break;
        case 2: lists(); break;
        case 3: case 4: case 5: case 6: calls(); break;
        case 7: reductions(); break;
        case 8: context(); break;
        case 9: errors(); break;
        case 10: symbols(); break;
        case 11: strings(); break;
        case 12: numbers(); break;
        case 13: formats(); break;
        case 14: ports(); break;
        default: rw(); out_ports(); break;
        }
        rooted();
        if (r % 400 == 5) tailcalls();
        if (r % 300 == 9) withdrawn();
        if (r % 7 == 0) calls(), formats(), numbers();
    }
    o = SCM_FALSE;
    return NULL;
}

static void *collect(void *arg)
{
    scrub(40);
    scm_verif_collect();
    return arg;
}

int main(int argc, char **argv)
{
    char here;
    long rounds, i, kept, drops;
    ScmStorageConf conf;
    const char *av[] = {"api", "--system-load-path", argv[3], NULL};
    const char *e;

    stack_base = &here;
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    rs = strtoul(argv[1], NULL, 10) * 2654435761UL + 88172645463325252UL;
    for (i = 0; i < 20; i++) rnd();
    rounds = strtol(argv[2], NULL, 10);
    conf.heap_size = (size_t[]){1000, 4096, 16384}[rn(3)];
    conf.heap_alloc_threshold = conf.heap_size / 2;
    conf.n_heaps_max = 1000;
    conf.n_heaps_init = 1 + rn(3);
    conf.symbol_hash_size = (size_t[]){1, 16, 1024}[rn(3)];
    collect_chance = (int[]){1, 5, 20}[rn(3)];
    scm_set_fatal_error_callback(on_fatal);
    scm_initialize(&conf, av);
    CK(!scm_gc_protected_contextp(), "a protected context outside scm_call_with_gc_ready_stack");
    scm_require_module("srfi-34");
    scm_require_module("srfi-6");
    scm_call_with_gc_ready_stack(reg, NULL);
    e = getenv("VF_GC_INTERVAL");
    scm_verif_gc_interval = e ? strtoul(e, NULL, 0) : 0;
    scm_verif_gc_seed = rn(1000);
    scm_call_with_gc_ready_stack(body, &rounds);
    scm_verif_gc_interval = 0;
    /* nothing of the stack is left: what was dropped is gone */
    part = "reclaim";
    scm_call_with_gc_ready_stack(collect, NULL);
    for (i = kept = drops = 0; i < n_ports; i++)
        if (dropped[i] && made[i]) { drops++; kept += !fin_count[i]; }
    for (i = 0; i < SLOTS; i++)
        if (slot_m[i]) {
            scm_gc_unprotect(&slot[i]);
            drop(slot_m[i]);
            free_model(slot_m[i]);
        }
    part = "finalise";
    scm_finalize();
    for (i = 0; i < n_ports; i++)
        if (fin_count[i] > 1) bad("port %ld finalised %d times", i, fin_count[i]);
    printf("@@STATS dropped=%ld kept=%ld ports=%d finalised=%ld allocs=%lu gcs=%lu forced=%lu swept=%lu\n", drops, kept, n_ports, n_fin,
           scm_verif_n_allocs, scm_verif_n_gcs, scm_verif_n_forced, scm_verif_n_swept);
    for (i = 0; i < n_parts; i++)
        printf("@@PART %s=%ld\n", part_name[i], n_part[i]);
    printf("@@LIVE %ld\n", live_blocks);
    printf("@@DONE\n");
    return 0;
}
