"""E10: a promise is computed at most once, to the value completed first."""
from checks import common
from vlib.check import Case

FIXED = r"""
(force (delay (+ 1 2)))
(let ((p (delay (+ 1 2)))) (list (force p) (force p)))
(let ((p (delay (T 1 'v)))) (list (force p) (force p) (force p)))
(delay (car 1)) ==> ok?
(begin (delay (T 1)) 2)
(letrec ((a-stream (lambda (n) (cons n (delay (a-stream (+ n 1))))))) (let ((s (a-stream 0))) (car (force (cdr (force (cdr s)))))))
(let ((count 0) (x 5)) (letrec ((p (delay (begin (set! count (+ count 1)) (if (> count x) count (force p)))))) (let* ((a (force p)) (b (begin (set! x 10) (force p)))) (list a b count))))
(letrec ((q (let ((n 0)) (delay (begin (set! n (+ n 1)) (if (< n 3) (begin (force q) n) n)))))) (list (force q) (force q)))
(letrec ((p (delay (if c 3 (begin (set! c #t) (+ (force p) 1))))) (c #f)) (list (force p) (force p)))
(let ((x 1)) (let ((p (delay x))) (set! x 2) (list (force p) (begin (set! x 3) (force p)))))
(let ((p (let ((y 7)) (delay y))) (y 9)) (force p))
(let ((n 0)) (let ((p (delay (begin (set! n (+ n 1)) (if (= n 1) (raise 'first) n))))) (list (guard (e (#t e)) (force p)) (force p) (force p) n)))
(let ((n 0)) (let ((p (delay (begin (set! n (+ n 1)) (if (= n 1) (car 1) n))))) (list (guard (e ((%%error-object? e) 'err)) (force p)) (force p) (force p) n)))
(let ((n 0)) (let ((p (delay (begin (set! n (+ n 1)) (if (= n 1) (kk 'out) n)))) (kk #f)) (list (call-with-current-continuation (lambda (k) (set! kk k) (force p))) n)))
(let ((n 0) (kk #f)) (let ((p (delay (begin (set! n (+ n 1)) (if (= n 1) (kk 'out) n))))) (list (call-with-current-continuation (lambda (k) (set! kk k) (force p))) (force p) (force p) n)))
(let ((p (delay (delay (T 1 2))))) (list (force (force p)) (force (force p))))
(let* ((p (delay (T 1 2))) (q (delay (force p)))) (list (force q) (force p) (force q)))
(let ((p (delay '()))) (null? (force p)))
(let ((p (delay #f))) (list (force p) (force p)))
(let ((p (delay (T 1 #f)))) (list (force p) (force p)))
(let ((p (delay (T 1 '())))) (list (force p) (force p)))
(let ((p (delay (lambda (x) (* x 2))))) ((force p) 4))
(let ((p (delay (list 1 2)))) (eq? (force p) (force p)))
(force 1)
(force '())
(force '(1 2))
(force)
(force (delay 1) 2)
(delay)
(delay 1 2)
(force (delay (dynamic-wind (lambda () (T 1)) (lambda () (T 2 'x)) (lambda () (T 3)))))
(map force (list (delay 1) (delay 2)))
(let ((ps (map (lambda (i) (delay (T i (* i i)))) '(1 2 3)))) (list (map force (reverse ps)) (map force ps)))
(let loop ((i 0) (p (delay 0))) (if (= i 50) (force p) (loop (+ i 1) (let ((q p)) (delay (+ 1 (force q)))))))
(let ((x (delay (call-with-current-continuation (lambda (k) (k 5)))))) (list (force x) (force x)))
"""


class D:
    """random programs over a handful of promises that force, abandon and re-enter one another"""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.np = r.randint(1, 5)
        self.size = r.randint(6, 40)

    def tag(self, v=None):
        self.n += 1
        return "(T %d%s)" % (self.n, "" if v is None else " " + v)

    def val(self, ks, d):
        r = self.r
        self.size -= 1
        if d <= 0 or self.size <= 0 or r.random() < 0.15:
            return r.choice(["x0", "x1", "c0", str(r.randrange(50)), "'s", "'(1 2)", "#f", self.tag(str(r.randrange(50)))])
        c = r.random()
        V = lambda k=None: self.val(ks if k is None else k, d - 1)
        if c < 0.27:
            return "(force p%d)" % r.randrange(self.np)
        if c < 0.33:
            return "(begin %s %s)" % (self.step(ks, d - 1), V())
        if c < 0.45:
            i = r.randrange(3)
            return "(begin (set! c%d (+ c%d 1)) %s)" % (i, i, V())
        if c < 0.6:
            i = r.randrange(3)
            return "(if (< c%d %d) %s %s)" % (i, r.randrange(1, 6), V(), V())
        if c < 0.66:
            return "(list %s %s)" % (V(), V())
        if c < 0.72:
            x = "y%d" % self.n
            self.n += 1
            return "(let ((%s %s)) (force (delay (list %s %s))))" % (x, V(), x, V())
        if c < 0.78:
            k = "k%d" % self.n
            self.n += 1
            return "(call/cc (lambda (%s) %s))" % (k, V(ks + [k]))
        if c < 0.84 and ks:
            return "(%s %s)" % (r.choice(ks), V())
        if c < 0.89:
            return "(guard (e (#t %s)) %s)" % (r.choice(["e", V(), "'caught"]), V())
        if c < 0.93:
            return r.choice(["(raise %s)" % V(), "(car 1)"])
        if c < 0.96:
            return "(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))" % (self.tag(), V(), self.tag())
        return self.tag(V())

    def step(self, ks, d):
        r = self.r
        c = r.random()
        if c < 0.35:
            return "(set! x%d %s)" % (r.randrange(2), self.val(ks, d))
        if c < 0.6:
            i = r.randrange(self.np)
            return "(set! p%d %s)" % (i, self.delay(ks, d))
        if c < 0.7:
            return "(set! c%d 0)" % r.randrange(3)
        return self.val(ks, d)

    def delay(self, ks, d):
        if self.r.random() < 0.2:
            return "(let ((x0 %s)) (delay %s))" % (self.val(ks, 0), self.val(ks, d))
        return "(delay %s)" % self.val(ks, d)

    def program(self):
        r = self.r
        ps = " ".join("(p%d (delay %s))" % (i, self.val([], r.randint(1, 5))) for i in range(self.np))
        uses = " ".join("(guard (e ((%%%%error-object? e) 'err) (#t (list 'raised e))) %s)" % (r.choice(
            ["(force p%d)" % r.randrange(self.np)] * 3 + [self.val([], 3), "(begin %s 'ok)" % self.step([], 3)])) for _ in range(r.randrange(2, 8)))
        return "(let ((x0 'a) (x1 'b) (c0 0) (c1 0) (c2 0)) (letrec (%s) (list %s c0 c1 c2)))" % (ps, uses.replace("%%%%", "%%"))


def gen(r, n):
    out = []
    while len(out) < n:
        t = D(r).program()
        if len(t) > 4000:
            continue
        x = common.expect(t, limit=4000)
        if x is None or "#<" in x[1] + x[2]:
            continue
        out.append((t,) + tuple(x))
    return out


def stream(ctx):
    """lazy lists of many elements, with collections while they are built and read"""
    pre = ("(define (from n) (delay (begin (set! made (+ made 1)) (cons n (from (+ n 1))))))(define made 0)"
           "(define (ref s n) (if (= n 0) (car (force s)) (ref (cdr (force s)) (- n 1))))"
           "(define (filt f s) (delay (let loop ((s s)) (let ((c (force s))) (if (f (car c)) (cons (car c) (filt f (cdr c))) (loop (cdr c)))))))")
    out = []
    for n in [0, 1, 10, 300, 2000]:
        out.append(Case("(let ((s (from 5))) (set! made 0) (let* ((a (ref s %d)) (b (ref s %d)) (c (ref s %d))) (list a b c made)))" % (n, n, n // 2),
                        ("ok", "(%d %d %d %d)" % (n + 5, n + 5, n // 2 + 5, n + 1)), "stream"))
        out.append(Case("(let ((s (filt even? (filt (lambda (x) (> x 10)) (from 0))))) (list (ref s %d) (ref s %d)))" % (n, n // 3),
                        ("ok", "(%d %d)" % (12 + 2 * n, 12 + 2 * (n // 3))), "stream"))
    for lay in ("compact", "fatty"):
        ctx.run("san-" + lay, out, pre)
        ctx.run("san-" + lay, out, pre, env={"VF_GC_INTERVAL": "397", "VF_GC_SEED": ctx.seed})


def run(ctx):
    ctx.rule = ("random programs over up to five promises that force, redefine, re-enter and abandon (by error, raise, continuation) one another, with counters "
                "and traces; compared with the reference interpreter; lazy lists of up to 2000 cells; distinct by program text")
    fx = "\n".join(l for l in FIXED.strip().split("\n") if "ok?" not in l)
    for lay in ("compact", "fatty"):
        ctx.run("san-" + lay, common.fixed(fx), common.PRE)
    cases = [Case(b, (k, v if k != "err" else None, o), "promises") for b, k, v, o in common.par(gen, ctx.n(12000, 200000), "%s/%d" % (ctx.prop, ctx.seed))]
    h = len(cases) // 2
    ctx.run("san-compact", cases[:h], common.PRE)
    ctx.run("san-fatty", cases[h:], common.PRE)
    ctx.run("opt-compact", cases[h:], common.PRE)
    ctx.run("san-compact", cases[: h // 6], common.PRE, env={"VF_GC_INTERVAL": "3", "VF_GC_SEED": ctx.seed})
    ctx.run("san-fatty", cases[-h // 6:], common.PRE, env={"VF_GC_INTERVAL": "3", "VF_GC_SEED": ctx.seed})
    stream(ctx)
    ctx.minimum = 10000
