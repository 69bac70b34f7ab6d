"""E02: a call in tail position never grows the machine stack."""
from checks import common
from vlib.check import Case

CTX = """(if #t % 0)
(if #f 0 %)
(if #t %)
(cond (#t %))
(cond (#f 1) (else %))
(cond (#f 1) (else 1 %))
(cond (0 1 %) (else 2))
(cond (#f 1) (5 => (lambda (x) %)))
(cond ((assv 1 '((1 2))) => (lambda (x) 7 %)) (else 3))
(case 1 ((1) %))
(case 1 ((2) 1) (else %))
(case 'a ((b a) 1 %) (else 1))
(case 'z ((b a) 1) (else 3 %))
(and 1 %)
(and 1 2 3 %)
(or #f %)
(or #f (not 1) %)
(and %)
(or %)
(let ((x 1)) %)
(let () %)
(let ((x 1) (y 2)) 5 %)
(let* ((x 1) (y 2)) %)
(let* () %)
(letrec ((x 1)) %)
(letrec ((x (lambda () 1))) 5 %)
(let lp ((k 0)) %)
(let lp ((k 2)) (if (> k 0) (lp (- k 1)) %))
(begin 1 %)
(begin %)
(begin 1 2 (begin 3 %))
(do ((k 0 (+ k 1))) ((= k 2) 1 %))
(do () (#t %))
((lambda (x) %) 1)
((lambda x 1 %) 1 2)
((lambda (x . y) %) 1 2)
(apply (lambda (x) %) '(1))
(apply (lambda x %) 1 '(2 3))
(call-with-values (lambda () (values 1 2)) (lambda (a b) %))
(call-with-values (lambda () 1) (lambda (a) 1 %))
(receive (a b) (values 1 2) %)
(receive all (values 1 2) 3 %)
(let () (define q 1) %)
(let () (define (q) 1) (define r 2) (q) %)
((lambda (x) (define q 1) (begin (define r 2)) %) 1)
(and-let* ((q 1)) %)
(and-let* ((q 1) ((number? q)) (r 2)) 1 %)
(tm %)
(tm2 1 %)
(let-optionals* '(1) ((a 2)) %)""".split("\n")

PRE = common.PRE + """

(define-macro tm (lambda (x) (list 'begin 1 x)))
(define-macro tm2 (lambda (c x) (list 'if c x 0)))
"""


def nest(ctxs, inner):
    for c in ctxs:
        inner = c.replace("%", inner)
    return inner


def case(i, procs, tag, direct=True):
    """procs: list of context lists, procedure j calls j+1 mod n; stack compared at several depths."""
    n = len(procs)
    pre = []
    for j, cs in enumerate(procs):
        call = "(t%d-%d (- i 1))" % (i, (j + 1) % n)
        pre.append("(define (t%d-%d i) %s)" % (i, j, nest(cs, "(if (<= i 0) (vf-stack) %s)" % call)))
    m = [n * 2, n * 10, n * 60, n * 150]
    body = "(let* ((a (t{0}-0 {1})) (b (t{0}-0 {2})) (c (t{0}-0 {3})) (d (t{0}-0 {4}))) (if (and (= a b) (= b c) (= c d)) 'bounded (list a b c d)))".format(i, *m)
    return Case(body, ("ok", "bounded"), tag, "\n".join(pre))


def named(i, cs, tag):
    body = "(let ((f (lambda (n) (let loop ((i n)) %s)))) (let* ((a (f 3)) (b (f 50)) (c (f 400))) (if (= a b c) 'bounded (list a b c))))" % (
        nest(cs, "(if (<= i 0) (vf-stack) (loop (- i 1)))"))
    return Case(body, ("ok", "bounded"), tag)


def run(ctx):
    r = ctx.rng
    ctx.rule = ("a loop whose recursive call sits in a tail position built from nested syntactic contexts; the "
                "machine stack depth is sampled inside the interpreter at the end of loops of very different "
                "lengths and has to be equal; a case counts as distinct by the nesting")
    ctx.assume = ["call/cc, dynamic-wind, guard and with-exception-handler bodies are not tail positions here"]
    cs = [case(i, [[c]], "single") for i, c in enumerate(CTX)]
    k = len(cs)
    pairs = [(a, b) for a in CTX for b in CTX]
    r.shuffle(pairs)
    for a, b in pairs[:ctx.n(700, 5000)]:
        cs.append(case(k, [[a, b]], "pair"))
        k += 1
    for _ in range(ctx.n(300, 6000)):
        procs = [[r.choice(CTX) for _ in range(r.randint(1, 4))] for _ in range(r.randint(1, 4))]
        cs.append(case(k, procs, "mutual"))
        k += 1
    for c in CTX:
        cs.append(named(0, [c], "named-let"))
    for _ in range(ctx.n(150, 2000)):
        cs.append(named(0, [r.choice(CTX) for _ in range(r.randint(2, 5))], "named-let"))
    ctx.run("opt-compact", cs, PRE)
    sub = cs[:len(CTX)] + r.sample(cs[len(CTX):], ctx.n(200, 2000))
    ctx.run("san-compact", sub, PRE)
    if ctx.thorough:
        ctx.run("opt-fatty", sub, PRE)
    # long loops on a small stack
    long = [case(k + i, [[c]], "long") for i, c in enumerate(CTX)]
    n = ctx.n(20000, 300000)
    for i, c in enumerate(long):
        c.body = "(begin (t%d-0 %d) 'done)" % (k + i, n)
        c.exp = ("ok", "done")
    ctx.run("opt-compact", long, PRE, stack_mb=1)
    ctx.minimum = 1000
