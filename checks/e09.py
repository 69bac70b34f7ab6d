"""E09: multiple values reach their receivers intact."""
from checks import common
from vlib.check import Case

FIXED = r"""
(call-with-values (lambda () (values 4 5)) (lambda (a b) b))
(call-with-values * -)
(call-with-values (lambda () (values)) list)
(call-with-values (lambda () (values 1)) list)
(call-with-values (lambda () 1) list)
(call-with-values (lambda () (values 1 2 3)) list)
(call-with-values (lambda () (values 1 2 3)) (lambda (a . r) (list a r)))
(call-with-values (lambda () (values 1 2 3)) (lambda r r))
(call-with-values (lambda () (values 1 2)) (lambda (a) a))
(call-with-values (lambda () (values 1 2)) (lambda (a b c) a))
(call-with-values (lambda () (values)) (lambda (a) a))
(call-with-values (lambda () (values)) (lambda () 'none))
(call-with-values (lambda () 1) (lambda () 'none))
(call-with-values values list)
(call-with-values 1 list)
(call-with-values values 1)
(call-with-values)
(call-with-values (lambda () 1))
(call-with-values (lambda (x) 1) list)
(+ 1 (values 2))
(values 7)
(list (values 1) (values 2))
(+ 1 (values 1 2))
(+ 1 (values))
(list (values 1 2))
(list (values))
(if (values 1) 2 3)
(receive (a b) (values 1 2) (list a b))
(receive (a . r) (values 1 2 3) (list a r))
(receive all (values 1 2 3) all)
(receive all (values) all)
(receive all 5 all)
(receive (a) 5 a)
(receive (a b) 5 a)
(receive (a) (values 1 2) a)
(receive () (values) 'none)
(receive () (values 1) 'none)
(receive (a b) (values 1 2))
(receive (a b) (values 1 2) (define c 3) (list a b c))
(receive (a b) (receive (c d) (values 1 2) (values d c)) (list a b))
(receive (a b) (call-with-current-continuation (lambda (k) (k 1 2))) (list a b))
(receive (a b) (call-with-current-continuation (lambda (k) (+ 1 (k 1 2)))) (list a b))
(+ 1 (call-with-current-continuation (lambda (k) (k 1 2))))
(+ 1 (call-with-current-continuation (lambda (k) (k))))
(let ((x (values 1 2))) x)
(let ((x (values))) 1)
(let* ((x (values 1 2))) 1)
(letrec ((x (values 1 2))) 1)
(define vx (values 1 2))
(let ((x 1)) (set! x (values 1 2)) x)
((lambda (x) x) (values 1 2))
((lambda x x) (values 1 2))
((lambda x x) (values))
(vector (values 1 2))
(cons 1 (values 2 3))
(apply + (values '(1 2)))
(apply (values + -) '(1))
((values car) '(1))
(cond ((values 1 2) 1))
(case (values 1 2) ((1) 2))
(and (values 1 2) 1)
(and 1 (values 1 2))
(or (values 1 2) 1)
(call-with-values (lambda () (and 1 (values 1 2))) list)
(call-with-values (lambda () (or #f (values 1 2))) list)
(call-with-values (lambda () (cond (#t (values 1 2)))) list)
(call-with-values (lambda () (cond (1 => (lambda (x) (values x 2))))) list)
(call-with-values (lambda () (case 1 ((1) (values 1 2)))) list)
(call-with-values (lambda () (do ((i 0 (+ i 1))) ((= i 3) (values i i)))) list)
(call-with-values (lambda () (let loop ((i 0)) (if (= i 9) (values i 1) (loop (+ i 1))))) list)
(call-with-values (lambda () (apply values '(1 2 3))) list)
(call-with-values (lambda () (map values '(1 2 3))) list)
(call-with-values (lambda () (guard (e (#t (values e 2))) (raise 1))) list)
(call-with-values (lambda () (guard (e (#f 1)) (values 3 4))) list)
(call-with-values (lambda () (guard (e (#f 1)) (values))) list)
(call-with-values (lambda () (dynamic-wind (lambda () (values 1 2)) (lambda () (values 3 4)) (lambda () (values 5 6)))) list)
(call-with-values (lambda () (dynamic-wind (lambda () (values)) (lambda () (values)) (lambda () (values)))) list)
(call-with-values (lambda () (with-exception-handler (lambda (e) 1) (lambda () (values 1 2)))) list)
(call-with-values (lambda () (eval '(values 1 2) (interaction-environment))) list)
(call-with-values (lambda () (call-with-values (lambda () (values 1 2)) (lambda (a b) (values b a a)))) list)
(call-with-values (lambda () (force (delay 3))) list)
(vector-ref (values #(1 2)) 0) ==> error
"""


class V:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.size = r.randint(4, 28)

    def tag(self):
        self.n += 1
        return "(T %d)" % self.n

    def v(self, sc):
        r = self.r
        c = r.random()
        if sc and c < 0.4:
            return r.choice(sc)
        if c < 0.5:
            return "'%s" % r.choice(["a", "(1 2)", "()", "#(1)"])
        if c < 0.62:
            self.n += 1
            return "(T %d '%s)" % (self.n, r.choice(["x", "y", "9"]))
        if c < 0.7 and self.size > 0:
            return self.consume(sc, 2)
        return str(r.randrange(100))

    def produce(self, k, sc, d, ks):
        """an expression returning k values"""
        r = self.r
        self.size -= 1
        P = lambda s=None, q=None: self.produce(k, sc if s is None else s, d - 1, ks if q is None else q)
        vs = lambda: " ".join(self.v(sc) for _ in range(k))
        if d <= 0 or self.size <= 0 or r.random() < 0.14:
            if k == 1 and r.random() < 0.5:
                return self.v(sc)
            if ks and r.random() < 0.2:
                return "(%s %s)" % (r.choice(ks), vs())
            if r.random() < 0.3:
                return "(apply values (list %s))" % vs()
            return "(values %s)" % vs()
        c = r.randrange(23)
        x = "v%d" % self.n
        self.n += 1
        if c == 0:
            return "(begin %s %s)" % (self.tag(), P())
        if c == 1:
            return "(let ((%s %s)) %s)" % (x, self.v(sc), P(sc + [x]))
        if c == 2:
            return "(if %s %s %s)" % (r.choice(["#t", "#f", self.tag()]), P(), P())
        if c == 3:
            return "(call/cc (lambda (k%s) %s))" % (x, P(None, ks + ["k" + x]))
        if c == 4:
            return "(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))" % (self.tag(), P(), self.tag())
        if c == 5:
            return "(guard (e (#f 1)) %s)" % P()
        if c == 6:
            return "(guard (e (#t %s %s)) (raise %s))" % (self.tag(), P(sc + ["e"]), self.v(sc))
        if c == 7:
            return "(with-exception-handler (lambda (e) 1) (lambda () %s))" % P()
        if c == 8:
            return "(call-with-values (lambda () %s) values)" % P()
        if c == 9:
            return "(receive %s %s (apply values %s))" % (x, P(), x)
        if c == 10:
            j = r.choice([0, 1, 2, 3, 5])
            ns = ["%s-%d" % (x, i) for i in range(j)]
            return "(receive (%s) %s %s)" % (" ".join(ns), self.produce(j, sc, d - 1, ks), P(sc + ns))
        if c == 11:
            j = r.choice([0, 1, 2, 3])
            ns = ["%s-%d" % (x, i) for i in range(j)]
            return "(call-with-values (lambda () %s) (lambda (%s) %s))" % (self.produce(j, sc, d - 1, ks), " ".join(ns), P(sc + ns))
        if c == 12:
            return "(cond (#f 1) (%s %s))" % (r.choice(["else", "#t"]), P())
        if c == 13:
            return "(cond (%s => (lambda (%s) %s)) (else %s))" % (self.v(sc), x, P(sc + [x]), P())
        if c == 14:
            return "(case %d ((%d) %s) (else %s))" % (r.randrange(2), r.randrange(2), P(), P())
        if c == 15:
            return "(let loop ((%s %d)) (if (= %s 0) %s (loop (- %s 1))))" % (x, r.randrange(4), x, P(sc + [x]), x)
        if c == 16:
            return "(do ((%s 0 (+ %s 1))) ((= %s 2) %s))" % (x, x, x, P(sc + [x]))
        if c == 17:
            return "((lambda (%s) %s) %s)" % (x, P(sc + [x]), self.v(sc))
        if c == 18:
            return "(and #t %s)" % P()
        if c == 19:
            return "(or #f %s)" % P()
        if c == 20:
            return "(apply (lambda %s %s) (list %s))" % (x, P(), self.v(sc))
        if c == 21:
            return "(begin (values %s) %s)" % (self.v(sc), P())
        return "(let () (define (%s) %s) (%s))" % (x, P(), x)

    def consume(self, sc, d, ks=()):
        """an expression of one value out of multiple values"""
        r = self.r
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 7])
        p = self.produce(k, sc, d, list(ks))
        c = r.random()
        if c < 0.3:
            return "(call-with-values (lambda () %s) list)" % p
        j = k if r.random() < 0.9 else r.choice([0, 1, 2, 3])
        x = "w%d" % self.n
        self.n += 1
        ns = ["%s-%d" % (x, i) for i in range(j)]
        if r.random() < 0.3 and j:
            cut = r.randrange(j + 1)
            f, ns = ("(%s . %s)" % (" ".join(ns[:cut]), x) if cut else x), ns[:cut] + [x]
        else:
            f = "(%s)" % " ".join(ns)
        body = "%s(list %s)" % (r.choice(["", "(T 0)"]), " ".join(ns + [self.v(sc + ns)]))
        if c < 0.65:
            return "(receive %s %s %s)" % (f, p, body)
        if c < 0.95:
            return "(call-with-values (lambda () %s) (lambda %s %s))" % (p, f, body)
        return "(list %s %s)" % (self.v(sc), p)


def gen(r, n):
    out = []
    while len(out) < n:
        g = V(r)
        t = g.consume([], r.randint(2, 8))
        if len(t) < 40 or len(t) > 4000:
            continue
        x = common.expect(t)
        if x is None or "#<" in x[1] + x[2]:
            continue
        out.append((t,) + tuple(x))
    return out


def run(ctx):
    ctx.rule = ("random nests in which k values (0 to 7) are produced and passed through every kind of form, continuation, wind, handler and receiver, matching and "
                "mismatching formals; result and trace compared with the reference interpreter; distinct by program text")
    for lay in ("compact", "fatty"):
        ctx.run("san-" + lay, common.fixed(FIXED), common.PRE)
        ctx.run("san-" + lay, common.one_value(["(values 1 2)", "(values)", "(values 1 2 3 4)", "(apply values '(1 2))", "(let ((a 1)) (values a a))",
                                                "(call-with-current-continuation (lambda (k) (k 1 2)))", "(call-with-current-continuation (lambda (k) (values 1 2)))",
                                                "(call-with-values (lambda () (values 1 2)) values)", "((lambda a (apply values a)) 1 2)",
                                                "(dynamic-wind list (lambda () (values 1 2)) list)", "(guard (e (#t (values 1 2))) (raise 1))"]),
                common.PRE)
    cases = [Case(b, (k, v if k != "err" else None, o), "values") for b, k, v, o in common.par(gen, ctx.n(12000, 200000), "%s/%d" % (ctx.prop, ctx.seed))]
    h = len(cases) // 2
    ctx.run("san-compact", cases[:h], common.PRE)
    ctx.run("san-fatty", cases[h:], common.PRE)
    ctx.run("opt-compact", cases[h:], common.PRE)
    ctx.run("opt-fatty", cases[:h], common.PRE)
    ctx.run("san-compact", cases[: h // 6], common.PRE, env={"VF_GC_INTERVAL": "3", "VF_GC_SEED": ctx.seed})
    ctx.run("san-fatty", cases[: h // 6], common.PRE, env={"VF_GC_INTERVAL": "3", "VF_GC_SEED": ctx.seed})
    ctx.run("san-compact", common.random_programs(ctx, ctx.n(2000, 20000), ("cont", "values", "exc"), 0.05, 40, "typed", must=("values", "receive")), common.PRE)
    ctx.minimum = 10000
