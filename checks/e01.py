"""E01: programs over the core language evaluate to what the report says."""
from checks import common
from vlib.check import Case
from vlib.datum import parse_all
from vlib import interp

FIXED = r"""
(let loop ((loop 5)) loop) ==> 5
(let loop ((i 0) (acc '())) (if (< i 3) (loop (+ i 1) (cons (lambda () i) acc)) (map (lambda (p) (p)) acc)))
(do ((i 0 (+ i 1)) (acc '() (cons (lambda () i) acc))) ((= i 3) (map (lambda (p) (p)) acc)))
(letrec ((a (lambda () b)) (b 2)) (a))
(let () (define a 1) (begin (define b 2) (define (c) (+ a b))) (c))
(let ((x 1)) (let ((x 2) (y x)) (list x y)))
(let ((x 1)) (let* ((x 2) (y x)) (list x y)))
(let ((x 1)) (define (f) x) (let ((x 2)) (f)))
(let ((x 1)) ((lambda () (set! x 5) x)))
(let ((x 1)) (let ((f (lambda () x))) (set! x 9) (f)))
((lambda (a b . c) (list a b c)) 1 2 3 4)
((lambda (a b . c) (list a b c)) 1 2)
((lambda a a))
((lambda a a) 1 2)
(let ((f (lambda (x) (lambda (y) (lambda (z) (list x y z)))))) (((f 1) 2) 3))
(case (* 2 3) ((2 3 5 7) 'prime) ((1 4 6 8 9) 'composite))
(case (car '(c d)) ((a e i o u) 'vowel) ((w y) 'semivowel) (else 'consonant))
(case 3 ((1 2) 'a) ((3) 'b 'c) (else 'd))
(cond ((> 3 2) 'greater) ((< 3 2) 'less))
(cond ((assv 'b '((a 1) (b 2))) => cadr) (else #f))
(cond (#f 1) (else 2 3))
(cond (1))
(and 1 2 'c '(f g))
(and (T 1 #f) (T 2))
(or (T 1 #f) (T 2 2) (T 3))
(or (memq 'b '(a b c)) (quotient 3 0))
(and)
(or)
(if #f 1 2)
(if '() 1 2)
(if 0 1 2)
(let* () 1)
(let* ((x 1) (x (+ x 1)) (x (* x 5))) x)
(letrec ((even? (lambda (n) (if (= 0 n) #t (odd? (- n 1))))) (odd? (lambda (n) (if (= 0 n) #f (even? (- n 1)))))) (even? 88))
(do ((vec (make-vector 5)) (i 0 (+ i 1))) ((= i 5) vec) (vector-set! vec i i))
(let ((x '(1 3 5 7 9))) (do ((x x (cdr x)) (sum 0 (+ sum (car x)))) ((null? x) sum)))
(let loop ((numbers '(3 -2 1 6 -5)) (nonneg '()) (neg '())) (cond ((null? numbers) (list nonneg neg)) ((>= (car numbers) 0) (loop (cdr numbers) (cons (car numbers) nonneg) neg)) ((< (car numbers) 0) (loop (cdr numbers) nonneg (cons (car numbers) neg)))))
(let ((x 5)) (define foo (lambda (y) (bar x y))) (define bar (lambda (a b) (+ (* a b) a))) (foo (+ x 3)))
(let ((x 5)) (define foo 1) (define (bar) (set! foo (+ foo x)) foo) (bar) (bar))
((lambda (x) (define x 2) x) 1)
(let ((list (lambda x (cons 'mine x)))) (list 1 2))
(let ((+ *)) (+ 3 4))
(let ((if (lambda (a b c) (list a b c)))) (if 1 2 3))
(let ((quote -)) '5)
(define-f 1) ==> error
(begin (T 1) (T 2) (T 3 'x))
(let ((x 0)) (begin (set! x 5) (+ x 1)))
((if (T 1 #f) + *) (T 2 3) (T 3 4))
(+ (T 1 1) (T 2 2) (T 3 3))
((T 0 list) (T 1 1) (T 2 2))
(let ((a (T 1 1)) (b (T 2 2))) (+ a b))
(map (lambda (x y) (T x (+ x y))) '(1 2 3) '(10 20 30))
(for-each (lambda (x) (T x)) '(3 1 2)) ==> out:<3><1><2>
(let ((v (make-vector 5))) (for-each (lambda (i) (vector-set! v i (* i i))) '(0 1 2 3 4)) v)
(apply + (list 3 4))
(apply + 1 2 '(3 4))
(let ((compose (lambda (f g) (lambda args (f (apply g args)))))) ((compose - *) 12 7))
(let ((n 0)) (let ((f (lambda () (set! n (+ n 1)) n))) (list (f) (f) (f))))
(let ((mk (lambda () (let ((n 0)) (lambda () (set! n (+ n 1)) n))))) (let ((a (mk)) (b (mk))) (a) (a) (list (a) (b))))
(let ((x 'outer)) (let ((f (lambda () x)) (x 'inner)) (f)))
(let ((f (lambda (x) (if (< x 2) x (+ (T x 0) 1))))) (f 3))
(letrec ((fact (lambda (n) (if (= n 0) 1 (* n (fact (- n 1))))))) (fact 15))
(let fib ((n 15)) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))
(let tak ((x 9) (y 6) (z 3)) (if (not (< y x)) z (tak (tak (- x 1) y z) (tak (- y 1) z x) (tak (- z 1) x y))))
(letrec ((ack (lambda (m n) (cond ((= m 0) (+ n 1)) ((= n 0) (ack (- m 1) 1)) (else (ack (- m 1) (ack m (- n 1)))))))) (ack 2 4))
(let ((=> 5)) (cond (#f 1) (else =>)))
(let loop ((i 0)) (cond ((= i 3) => (lambda (x) (list x i))) (else (loop (+ i 1)))))
(case #\a ((#\b) 1) ((#\a) 2) (else 3))
(case '() ((()) 'nil) (else 'other))
(case "a" (("a") 1) (else 2))
(case 'a ((b) 1) ((a c) (T 1) 2) ((a) 3))
(let ((x 1) (y 2)) (let ((x y) (y x)) (list x y)))
(let* ((f (lambda (x) x)) (g (lambda (y) (f (f y))))) (g 5))
(let () (define (f . r) r) (f 1 2 3))
(let () (define (f a . r) (list a r)) (f 1 2 3))
(let () (define (f a b) (define c (lambda () (+ a b))) (c)) (f 1 2))
(let ((y 1)) (let ((f (lambda (x) (set! y x) y))) (f 10) (list y (f 3) y)))
(((lambda (x) (lambda () (set! x (+ x 1)) x)) 5))
(let ((r '())) (let loop ((i 0)) (if (< i 3) (begin (set! r (cons i r)) (loop (+ i 1))))) r)
(do ((i 0 (+ i 1)) (j 10)) ((= i 3) (list i j)) (set! j (- j i)))
(do () (#t 5))
(do ((i 0 (+ i 1))) ((= i 2) (T 1) (T 2) i) (T i))
(letrec* ((a 1)) a) ==> error
(let ((a 1)) (let () (define b a) (define c 3) (+ a b c)))
(let ((p (lambda (x . y) (if (null? y) x (car y))))) (list (p 1) (p 1 2)))
(eval '(+ 1 2) (interaction-environment))
(eval '(let ((x 1)) (let ((y 2)) (+ x y))) (scheme-report-environment 5) ) ==> 3
(let ((x 100)) (eval '(if (T 1 #t) 'yes 'no) (interaction-environment)))
"""


def top_programs(ctx, n):
    """Sequences of top-level definitions; names unique to the case."""
    cases = []
    r = ctx.rng
    from vlib.progen import Gen
    k = 0
    while len(cases) < n and k < 5 * n:
        k += 1
        g = Gen(r, (), 0.0, 60)
        p = "g%d-%d-" % (ctx.seed, k)
        sc = {}
        forms = []
        for i in range(r.randint(2, 7)):
            old = [v for v in sc if sc[v] == "int"]
            if old and r.random() < 0.25:
                v = r.choice(old)
                forms.append("(%s %s %s)" % (r.choice(["set!", "define"]), v, g.int(sc, 3)))
                continue
            v = p + "abcdefgh"[i]
            t = r.choice(["int", "p1", "p0", "list", "prest"])
            init = g.init(sc, t, 3)
            if t == "p1" and r.random() < 0.6 and init.startswith("(lambda ("):
                j = init.index(")")
                forms.append("(define (%s %s)%s" % (v, init[9:j], init[j + 1:]))
            elif t == "p0" and r.random() < 0.6:
                forms.append("(define (%s)%s" % (v, init[len("(lambda ()"):]))
            else:
                forms.append("(define %s %s)" % (v, init))
            sc[v] = t
            g.budget += 20
        if r.random() < 0.3 and len(forms) > 2:
            forms = ["(begin %s)" % " ".join(forms[:2])] + forms[2:]
        pre = "\n".join(forms)
        g.budget = 40
        body = g.any(sc, 4)
        res = interp.run_forms(parse_all(pre), limit=50000)
        if res is None or res[0] != "ok":
            continue
        full = interp.run_forms(parse_all(pre + "\n" + body), limit=50000)
        if full is None or "#<" in full[1] + full[2]:
            continue
        out = full[2][len(res[2]):]
        cases.append(Case(body, (full[0], full[1] if full[0] != "err" else None, out), "toplevel", pre))
    return cases


def shapes(ctx, n):
    """Frames of every shape: 1-7 nested scopes with 0-9 variables each, names repeated between (not within) them;
    every visible variable is read, some are assigned from the innermost scope and read again outside it."""
    r = ctx.rng
    cases = []
    for k in range(n):
        names = ["v%d" % i for i in range(r.choice([3, 6, 14]))]
        wrong = r.random() < 0.2
        cnt = [0]

        def frame(depth, vis):
            kind = r.choice(["lambda", "lambda", "rest", "apply", "let", "let*", "letrec", "named", "do", "define", "all"])
            m = r.randint(0, min(9, len(names)))
            vs = r.sample(names, m)
            if kind in ("rest", "all") and not vs:
                vs = r.sample(names, 1)
            if kind == "all":
                vs = vs[:1]
            seen = sorted(set(vis) | set(vs))
            if depth == 0:
                sets = " ".join("(set! %s (cons 's %s))" % (v, v) for v in r.sample(seen, min(len(seen), r.randint(0, 3))))
                inner = "(begin %s (list %s))" % (sets, " ".join(seen))
            else:
                inner = frame(depth - 1, seen)
                look = r.sample(seen, min(len(seen), r.randint(0, 4)))
                inner = "(let ((res %s)) (list res %s))" % (inner, " ".join(look)) if look else inner
            vals = []
            for _ in vs:
                cnt[0] += 1
                vals.append(str(cnt[0]) if not vis or r.random() < 0.7 else r.choice(list(vis)))
            a = " ".join(vals)
            b = " ".join("(%s %s)" % p for p in zip(vs, vals))
            if kind in ("rest", "all"):
                extra = [str(100 + i) for i in range(r.choice([0, 0, 1, 2, 7]))]
                if kind == "all":
                    return "((lambda %s %s) %s %s)" % (vs[0], inner, a, " ".join(extra))
                args = vals[:-1] + extra
                if wrong and len(vs) > 1 and r.random() < 0.7:
                    args = args[:r.randint(0, len(vs) - 2)]
                f = " ".join(vs[:-1])
                f = "(%s . %s)" % (f, vs[-1]) if f else vs[-1]
                if r.random() < 0.3:
                    return "(apply (lambda %s %s) (list %s))" % (f, inner, " ".join(args))
                return "((lambda %s %s) %s)" % (f, inner, " ".join(args))
            if kind in ("lambda", "apply"):
                args = list(vals)
                if wrong and r.random() < 0.5:
                    args = args[:-1] if args and r.random() < 0.5 else args + ["0"]
                f = "(lambda (%s) %s)" % (" ".join(vs), inner)
                if kind == "apply":
                    j = r.randint(0, len(args))
                    return "(apply %s %s (list %s))" % (f, " ".join(args[:j]), " ".join(args[j:]))
                return "(%s %s)" % (f, " ".join(args))
            if kind == "named":
                return "(let loop (%s) %s)" % (b, inner)
            if kind == "do":
                if not vs:
                    return "(do () (#t %s))" % inner
                b = " ".join("(%s %s%s)" % (v, x, r.choice(["", " " + v, " 7"])) for v, x in zip(vs, vals))
                return "(do (%s) (#t %s))" % (b, inner)
            if kind in ("define", "letrec"):
                # initialisers may only use outer names not rebound here
                out = [v for v in vis if v not in vs]
                vals2 = [x if x.isdigit() else (r.choice(out) if out else "0") for x in vals]
                if kind == "letrec":
                    return "(letrec (%s) %s)" % (" ".join("(%s %s)" % p for p in zip(vs, vals2)), inner)
                return "(let () %s %s)" % (" ".join("(define %s %s)" % p for p in zip(vs, vals2)), inner)
            return "(%s (%s) %s)" % (kind, b, inner)

        body = frame(r.randint(0, 6), ())
        res = interp.run_forms(parse_all(body), limit=50000)
        if res is None:
            continue
        cases.append(Case(body, (res[0], res[1] if res[0] != "err" else None, res[2]), "scopes"))
    return cases


def run(ctx):
    ctx.rule = ("type-directed random core-language programs with tracing side effects, top-level definition "
                "sequences, nests of scopes of every shape and a battery of report examples, run in the ASan/UBSan interpreter; value, kind of "
                "outcome and whole output compared with an independent reference interpreter; a case counts as "
                "distinct by its text")
    ctx.assume = ["argument, binding and body evaluation go left to right, as the interpreter documents by its tests"]
    ctx.run("san-compact", common.fixed(FIXED), common.PRE)
    for size in (15, 40, 90):
        ctx.run("san-compact", common.random_programs(ctx, ctx.n(4000, 60000), (), 0.02, size, "random-%d" % size),
                common.PRE)
    ctx.run("san-compact", top_programs(ctx, ctx.n(800, 8000)), common.PRE)
    ctx.run("san-compact", shapes(ctx, ctx.n(2500, 30000)), common.PRE)
    ctx.run("opt-compact", common.random_programs(ctx, ctx.n(1500, 30000), (), 0.02, 60, "random-optimised"), common.PRE)
    if ctx.thorough:
        ctx.run("san-fatty", common.random_programs(ctx, 30000, (), 0.02, 60, "random-fatty"), common.PRE)
    ctx.minimum = 1000
