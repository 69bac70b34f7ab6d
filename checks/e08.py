"""E08: raised objects reach exactly the right handler."""
from checks import common, e04
from vlib.check import Case

FIXED = r"""
(guard (e (#t e)) (raise 'boom))
(guard (e ((symbol? e) (list 'sym e)) ((string? e) (list 'str e))) (raise "s"))
(guard (e ((string? e) 1)) (raise 'unmatched)) ==> raise:unmatched
(guard (e ((symbol? e) (list 'outer e))) (guard (e2 ((string? e2) (list 'inner e2))) (raise 'x)))
(guard (e ((symbol? e) (list 'outer e))) (guard (e2 ((string? e2) (list 'inner e2))) (raise "x")))
(guard (e (else (list 'else e))) (raise 1))
(guard (e ((assq 'a e) => cdr) ((assq 'b e))) (raise (list (cons 'a 42))))
(guard (e ((assq 'a e) => cdr) ((assq 'b e))) (raise (list (cons 'b 23))))
(guard (e ((assq 'a e) => cdr) ((assq 'b e))) (raise (list (cons 'c 23)))) ==> raise:((c . 23))
(guard (e (#f 1)) (raise 2)) ==> raise:2
(guard (e) (raise 2)) ==> error
(guard (e (#t (T 1) (T 2 e))) (T 3) (raise 7) (T 4))
(guard (e (#t 1)) 5)
(guard (e (#t 1)) 5 6)
(call-with-values (lambda () (guard (e (#t 1)) (values 5 6))) list)
(call-with-values (lambda () (guard (e (#t (values 1 2 e))) (raise 3))) list)
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list 'exc e))) (lambda () (+ 1 (raise 'an-error))))))
(call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k (list 'h1 e))) (lambda () (with-exception-handler (lambda (e) (raise (list 'h2 e))) (lambda () (raise 1)))))))
(with-exception-handler (lambda (e) (T 1 0)) (lambda () (+ 1 (raise 'an-error)))) ==> error
(guard (e ((%%error-object? e) 'handler-returned)) (with-exception-handler (lambda (e) 0) (lambda () (+ 1 (raise 'an-error)))))
(guard (e (#t (list 'g e))) (with-exception-handler (lambda (e) (raise (list 'h e))) (lambda () (raise 1))))
(guard (e (#t (list 'g e))) (with-exception-handler (lambda (e) (car 5)) (lambda () (raise 1)))) ==> ok?
(guard (e ((%%error-object? e) 'err)) (with-exception-handler (lambda (e) (car 5)) (lambda () (raise 1))))
(with-exception-handler (lambda (e) 1) (lambda () 5))
(guard (e ((%%error-object? e) 'err)) (car 1))
(guard (e ((%%error-object? e) 'err)) (undefined-variable))
(guard (e ((%%error-object? e) 'err)) (error "msg" 1 2))
(guard (e ((%%error-object? e) 'err)) ((lambda (x) x)))
(guard (e ((%%error-object? e) 'err)) (5 5))
(guard (e ((symbol? e) 1)) (car 1)) ==> error
(guard (e ((symbol? e) 1) ((%%error-object? e) 2)) (guard (f ((number? f) 3)) (car 1)))
(guard (e (#t (list 'outer e))) (guard (f (#t (raise (list 'inner f)))) (raise 1)))
(guard (e (#t (list 'outer e))) (guard (f ((begin (T 1) #f) 1) ((begin (T 2) #f) 2)) (raise 5)))
(guard (e ((%%error-object? e) 'outer)) (guard (f ((car f) 1)) (raise 5)))
(let ((x (list 1 2))) (guard (e (#t (eq? e x))) (raise x)))
(let ((x "str")) (guard (e (#t (eq? e x))) (raise x)))
(let ((x (lambda () 9))) (guard (e (#t (e))) (raise x)))
(guard (e ((procedure? e) (e 1))) (raise (lambda (x) (list x x))))
(guard (e (#t e)) (raise '()))
(guard (e (#t (list e))) (raise #f))
(guard (e (e 'true) (else 'false)) (raise #f))
(guard (e (#t e)) (raise (if #f #f)))
(let ((e 1)) (guard (e2 (#t (list e e2))) (raise 2)))
(let ((e 1)) (list (guard (e (#t e)) (raise 2)) e))
(let ((x 1)) (guard (e (#t (set! x e))) (raise 5)) x)
(let ((x 1)) (guard (e (#t x)) (set! x 2) (raise 5)))
(+ 1 (guard (e (#t 10)) (+ 100 (raise 5))))
(list (guard (e (#t e)) (raise 1)) (guard (e (#t e)) (raise 2)))
(let loop ((i 0) (acc '())) (if (= i 5) acc (loop (+ i 1) (cons (guard (e (#t (* e e))) (raise i)) acc))))
(map (lambda (x) (guard (e (#t (list 'c e))) (if (odd? x) (raise x) x))) '(1 2 3 4))
(guard (e (#t (list 'c e))) (map (lambda (x) (if (= x 3) (raise x) (T x x))) '(1 2 3 4)))
(guard (e (#t (list 'c e))) (for-each (lambda (x) (if (= x 3) (raise x) (T x x))) '(1 2 3 4)))
(guard (e (#t (list 'c e))) (apply raise '(7)))
(guard (e (#t (list 'c e))) (dynamic-wind (lambda () (T 1)) (lambda () (raise 7)) (lambda () (T 2))))
(guard (e ((symbol? e) 1)) (dynamic-wind (lambda () (T 1)) (lambda () (raise 7)) (lambda () (T 2)))) ==> raise:7
(guard (o (#t (T 9 o))) (guard (e ((begin (T 5) #f) 1)) (dynamic-wind (lambda () (T 1)) (lambda () (raise 7)) (lambda () (T 2)))))
(guard (e (#t (list 'c e))) (force (delay (raise 7))))
(guard (e (#t (list 'c e))) (eval '(raise 7) (interaction-environment)))
(guard (e (#t (list 'c e))) (let ((x (raise 7))) x))
(guard (e (#t (list 'c e))) (if (raise 7) 1 2))
(guard (e (#t (list 'c e))) `(1 ,(raise 7)))
(guard (e (#t (list 'c e))) (call-with-values (lambda () (raise 7)) list))
(guard (e (#t (list 'c e))) (call-with-values (lambda () 7) raise))
(guard (e (#t (list 'c e))) (with-exception-handler (lambda (x) (raise (list 'w x))) (lambda () (guard (y ((string? y) y)) (raise 7)))))
(with-exception-handler (lambda (x) 1) 5) ==> error
(with-exception-handler 5 (lambda () 1)) ==> error
(with-exception-handler (lambda (e) e) (lambda (x) 1)) ==> error
(raise) ==> error
(raise 1 2) ==> error
(raise 'top) ==> raise:top
(raise (list 1 "a" #\b)) ==> raise:(1 "a" #\b)
(let ((raise list)) (guard (e ((string? e) 1)) (car 5))) ==> error
(let ((raise list) (quote -) (e 5)) (guard (x ((number? x) (+ x e))) (guard (y ((string? y) 1)) (%%raise-it)))) ==> error
(guard (e ((number? e) (list 'n e))) (let ((raise list) (error list)) (guard (y ((string? y) 1)) (vf-raise 5)))) ==> (n 5)
(guard (e (#t (guard (f (#t (list e f))) (raise 2)))) (raise 1))
(guard (e (#t (with-exception-handler (lambda (x) x) (lambda () e)))) (raise 1))
(guard (e ((number? e) (raise 'again))) (raise 1)) ==> raise:again
(let ((log '())) (with-exception-handler (lambda (e) (set! log (cons e log)) 1) (lambda () (guard (x (#t (set! log (cons 'g log)))) (raise 'r)))) log)
(letrec ((f (lambda (n) (guard (e ((eqv? e n) (list 'caught n))) (if (= n 0) (raise 3) (f (- n 1))))))) (f 6))
(letrec ((f (lambda (n) (if (= n 0) (raise 'deep) (+ 1 (f (- n 1))))))) (guard (e (#t e)) (f 1000)))
(letrec ((f (lambda (n) (guard (e ((string? e) 1)) (if (= n 0) (raise 'deep) (f (- n 1))))))) (guard (e (#t e)) (f 100)))
(let ((kk #f) (n 0)) (with-exception-handler (lambda (e) (T 1 e) (if (procedure? kk) (let ((j kk)) (set! kk #f) (j (list 'esc e))) 'returned)) (lambda () (T 2 (call-with-current-continuation (lambda (k) (set! kk k) (raise 1)))) (raise 2)))) ==> error
(guard (o (#t (list 'o o))) (let ((kk #f)) (with-exception-handler (lambda (e) (T 1 e) (if (procedure? kk) (let ((j kk)) (set! kk #f) (j (list 'esc e))) (raise (list 'h e)))) (lambda () (T 2 (call-with-current-continuation (lambda (k) (set! kk k) (raise 1)))) (raise 2)))))
(call-with-current-continuation (lambda (out) (let ((kk #f) (n 0)) (with-exception-handler (lambda (e) (set! n (+ n 1)) (T 1 n) (if (< n 4) (kk (list 'esc e)) (out (list 'done n)))) (lambda () (let loop ((i 0)) (T 2 (call-with-current-continuation (lambda (k) (set! kk k) (raise i)))) (loop (+ i 1))))))))
(call-with-current-continuation (lambda (k) (guard (e (#t (k (list 'out e)))) (raise 1)) 'no))
(call-with-current-continuation (lambda (k) (guard (e (#t 'no)) (k 'out))))
(guard (e (#t 'no)) (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k 'in)) (lambda () (raise 1))))))
"""

PROBE = ("(list (+ 1 2) (let loop ((i 0)) (if (< i 10) (loop (+ i 1)) i)) (map car '((a) (b))) (string-append \"a\" \"b\") "
         "(guard (x ((symbol? x) x)) (raise 'p)) (call-with-current-continuation (lambda (k) (k 'q))) "
         "(let ((p (open-output-string))) (write '(1 . 2) p) (get-output-string p)) "
         "(eq? (current-output-port) out0) (eq? (current-input-port) in0) (%%current-char-codec) "
         "(call-with-values (lambda () (values 1 2)) cons) (force (delay 5)) `(1 ,@(list 2 3)))")
PROBED = '(3 10 (a b) "ab" p q "(1 . 2)" #t #t "UTF-8" (1 . 2) 5 (1 2 3))'


class X:
    """dense exception programs"""

    def __init__(self, r, size):
        self.r, self.size, self.n, self.v = r, size, 0, 0

    def tag(self):
        self.n += 1
        return self.n

    def obj(self, es):
        r = self.r
        return r.choice(["'a", "'b", "1", "2", "\"s\"", "(list 'c 1)", "#f"] + ["(T %d 3)" % self.tag()] + es * 2)

    def raiser(self, es):
        r = self.r
        return r.choice(["(raise %s)" % self.obj(es)] * 4 + ["(error \"m\" %s)" % self.obj(es), "(car 5)", "(vector-ref (vector) 0)",
                         "(unbound-e08)", "((lambda (x) x))", "(3 4)", "(+ 'a 1)", "(string-ref \"a\" 7)", "(apply raise (list %s))" % self.obj(es)])

    def test(self, e):
        r = self.r
        return r.choice(["(symbol? %s)", "(eq? %s 'a)", "(number? %s)", "(string? %s)", "(%%%%error-object? %s)", "(and (not (%%%%error-object? %s)) (pair? %s))",
                         "(begin (T " + str(self.tag()) + ") (symbol? %s))", "(not %s)", "#f", "#t", "(memq %s '(a b))",
                         "(string-length %s)"]).replace("%s", e).replace("%%%%", "%%")

    def seq(self, es, ks, d):
        return " ".join(self.e(es, ks, d) for _ in range(self.r.choice([1, 1, 2])))

    def e(self, es, ks, d):
        r = self.r
        self.size -= 1
        c = r.random()
        if d <= 0 or self.size <= 0:
            if c < 0.4:
                return self.raiser(es)
            if ks and c < 0.5:
                return "(%s (T %d 'k))" % (r.choice(ks), self.tag())
            return "(T %d %s)" % (self.tag(), r.choice(["5", "'v"] + es))
        d -= 1
        if c < 0.42:
            self.v += 1
            e = r.choice(["e", "e%d" % self.v])
            cl = []
            for _ in range(r.randint(1, 3)):
                t = self.test(e)
                cc = r.random()
                if cc < 0.12:
                    cl.append("(%s => (lambda (q) (T %d) q))" % (t, self.tag()))
                elif cc < 0.2:
                    cl.append("(%s)" % t)
                else:
                    cl.append("(%s %s)" % (t, self.seq(es + [e], ks, d)))
            if r.random() < 0.35:
                cl.append("(else %s)" % self.seq(es + [e], ks, d))
            return "(guard (%s %s) %s)" % (e, " ".join(cl), self.seq(es, ks, d))
        if c < 0.56:
            self.v += 1
            k, x = "k%d" % self.v, "x%d" % self.v
            h = r.choice(["(%s (list 'h %s))" % (k, x), "(raise (list 'r %s))" % x, "(T %d 0)" % self.tag(),
                          "(begin (T %d) %s)" % (self.tag(), self.e(es + [x], ks + [k], min(d, 2)))])
            return "(call-with-current-continuation (lambda (%s) (with-exception-handler (lambda (%s) %s) (lambda () %s))))" % (
                k, x, h, self.seq(es, ks + [k], d))
        if c < 0.6:
            # the handler escapes to a point inside its own extent, where raising goes on
            self.v += 1
            x, k, j = "x%d" % self.v, "k%d" % self.v, "j%d" % self.v
            last = r.choice(["(raise (list 'last %s))" % x, "(T %d 0)" % self.tag(), "(raise %s)" % x, self.e(es + [x], ks, min(d, 1))])
            return ("(let ((%s #f)) (with-exception-handler (lambda (%s) (T %d) (if (procedure? %s) (let ((%s %s)) %s (%s (list 'in %s))) %s)) "
                    "(lambda () (T %d (call-with-current-continuation (lambda (q) (set! %s q) %s))) %s %s)))") % (
                k, x, self.tag(), k, j, k, "(set! %s #f)" % k, j, x, last,
                self.tag(), k, self.seq(es, ks, d), self.seq(es, ks, d), self.e(es, ks, d))
        if c < 0.66:
            self.v += 1
            x = "x%d" % self.v
            h = r.choice(["(raise %s)" % self.obj(es + [x]), "(raise %s)" % x, self.e(es + [x], ks, min(d, 2))])
            return "(with-exception-handler (lambda (%s) (T %d) %s) (lambda () %s))" % (x, self.tag(), h, self.seq(es, ks, d))
        if c < 0.72:
            return "(dynamic-wind (lambda () (T %d)) (lambda () %s) (lambda () (T %d)))" % (self.tag(), self.seq(es, ks, d), self.tag())
        if c < 0.8:
            return "(list %s %s)" % (self.e(es, ks, d), self.e(es, ks, d))
        if c < 0.86:
            return "(map (lambda (m) %s) '(1 2))" % self.e(es, ks, d)
        if c < 0.92:
            return "(let ((y %s)) (T %d y))" % (self.e(es, ks, d), self.tag())
        if c < 0.96:
            return "(if %s %s %s)" % (self.e(es, ks, d), self.e(es, ks, d), self.e(es, ks, d))
        return self.raiser(es)


def gen(rng, n, size):
    out = []
    tries = 0
    while len(out) < n and tries < 10 * n:
        tries += 1
        x = X(rng, rng.randint(6, size))
        t = x.e([], [], rng.randint(2, 7))
        if "guard" not in t and "handler" not in t or len(t) > 4000:
            continue
        r = common.expect(t)
        if r is None or "#<" in r[1] + r[2] or "((err" in r[1]:
            continue
        out.append((t,) + tuple(r))
    return out


def run(ctx):
    ctx.rule = ("random programs dense in guard, with-exception-handler, raise and built-in errors, with tracing; "
                "outcome compared with the reference interpreter; every kind of failing primitive call followed by a "
                "probe of the whole interpreter; objects distinct by program text")
    ctx.assume = ["guard clauses are evaluated before the guarded extent is unwound (implementation choice)"]
    fx = "\n".join(l for l in FIXED.strip().split("\n") if "ok?" not in l)
    ctx.run("san-compact", common.fixed(fx), common.PRE + "(define vf-raise raise)")
    for size in (12, 30, 70):
        cs = common.par(gen, ctx.n(3500, 60000), "%s/%d/%d" % (ctx.prop, ctx.seed, size), size)
        cases = [Case(b, (k, v if k != "err" else None, o), "exceptions-%d" % size) for b, k, v, o in cs]
        ctx.run("san-compact", cases, common.PRE)
        bare = [Case(b, (k, v, o), "no-handler-around-%d" % size) for b, k, v, o in cs if k == "ok"]
        ctx.run("opt-fatty" if size == 30 else "opt-compact", bare[:ctx.n(900, 20000)], common.PRE + common.BARE)
        if size == 30:
            ctx.run("opt-compact", cases[:ctx.n(1500, 30000)], common.PRE)
            ctx.run("san-compact", cases[:ctx.n(600, 10000)], common.PRE, env={"VF_GC_INTERVAL": "5", "VF_GC_SEED": ctx.seed})
    fixed = [c for c in common.fixed(fx) if c.exp[0] == "ok"]
    ctx.run("opt-compact", fixed, common.PRE + "(define vf-raise raise)" + common.BARE)
    ctx.run("san-compact", common.random_programs(ctx, ctx.n(1500, 20000), ("cont", "exc"), 0.1, 50, "typed", must=("guard",)), common.PRE)
    # any failing primitive, then the probe
    bad = []
    for name, kinds, good in e04.parse():
        for args, want, tag in e04.calls(name, kinds, good):
            if want == "err" and name not in e04.SRFI1:
                bad.append("(%s)" % " ".join([name] + args))
    cases = []
    r = ctx.rng
    for b in (bad if ctx.thorough else r.sample(bad, 2500)):
        how = r.randrange(4)
        if how == 0:
            body = "(begin (guard (e ((%%%%error-object? e) 'e)) %s) %s)" % (b, PROBE)
        elif how == 1:
            body = "(begin (call-with-current-continuation (lambda (k) (with-exception-handler (lambda (e) (k 1)) (lambda () %s)))) %s)" % (b, PROBE)
        elif how == 2:
            body = ("(begin (guard (o (#t 1)) (guard (e ((symbol? e) 'e)) (dynamic-wind (lambda () 1) (lambda () %s) (lambda () 2)))) %s)" % (b, PROBE))
        else:
            body = "(begin (let loop ((i 0)) (if (< i 20) (begin (guard (e (#t 1)) %s) (loop (+ i 1))))) %s)" % (b, PROBE)
        cases.append(Case(body.replace("%%%%", "%%"), ("ok", PROBED, ""), "aftermath"))
    ctx.run("san-compact", cases, e04.PRE + "(define out0 (current-output-port))(define in0 (current-input-port))")
    ctx.minimum = 4000
