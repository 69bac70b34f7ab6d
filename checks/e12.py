"""E12: applying or mapping over a list never changes or depends on that list later."""
from checks import common
from vlib.check import Case


class Abandon(Exception):
    """a mutation was made for a call that is not kept"""


class P:
    __slots__ = ("a", "d")

    def __init__(self, a, d):
        self.a, self.d = a, d


class V:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def show(x):
    if isinstance(x, P):
        out = []
        while isinstance(x, P):
            out.append(show(x.a))
            x = x.d
        if x != ():
            out += [".", show(x)]
        return "(%s)" % " ".join(out)
    if isinstance(x, V):
        return "#(%s)" % " ".join(show(y) for y in x.e)
    return "()" if x == () else str(x)


def size(x, up=(), n=None):
    """tree size; None if circular or large"""
    n = n if n is not None else [0]

    def go(x, up):
        while True:
            n[0] += 1
            if n[0] > 400:
                return False
            if isinstance(x, P):
                if x in up:
                    return False
                up = up | {x}
                if not go(x.a, up):
                    return False
                x = x.d
            elif isinstance(x, V):
                if x in up:
                    return False
                return all(go(y, up | {x}) for y in x.e)
            else:
                return True
    return n[0] if go(x, frozenset()) else None


def items(x):
    """elements of a proper list, or None"""
    out = []
    while isinstance(x, P):
        out.append(x.a)
        x = x.d
        if len(out) > 60:
            return None
    return out if x == () else None


def mk(es, tail=()):
    for e in reversed(es):
        tail = P(e, tail)
    return tail


IDENT = ["(let ((x %s)) x)", "((lambda (x) x) %s)", "(force (delay %s))", "(car (list %s))", "(call-with-current-continuation (lambda (k) (k %s)))",
         "(guard (e (#t e)) (raise %s))", "(vector-ref (vector %s) 0)", "(call-with-values (lambda () %s) (lambda (x) x))", "(apply (lambda (x) x) (list %s))",
         "(car (map (lambda (x) x) (list %s)))", "(and #t %s)", "(cond (%s => (lambda (x) x)))", "(let loop ((i 0) (x %s)) (if (= i 3) x (loop (+ i 1) x)))",
         "(do ((i 0 (+ i 1)) (x %s x)) ((= i 2) x))", "(dynamic-wind (lambda () #f) (lambda () %s) (lambda () #f))", "(receive (x) %s x)", "(cdr (apply cons 1 (list %s)))",
         "(with-exception-handler (lambda (e) e) (lambda () %s))", "(let-optionals* (list %s) ((x 9)) x)", "(begin (set! t %s) t)", "(caddr (list 1 2 %s 3))",
         "(let ((b #f)) (for-each (lambda (x) (set! b x)) (list %s)) b)", "(eval 't (begin (set! t %s) (interaction-environment)))"]
# a list in, a new list with the same elements out
FRESH = ["(apply list %s)", "(apply (lambda r r) %s)", "(map (lambda (x) x) %s)", "(append %s '())", "(reverse (reverse %s))", "(vector->list (list->vector %s))",
         "(call-with-values (lambda () (apply values %s)) list)", "(call-with-values (lambda () (apply values %s)) (lambda r r))", "(receive r (apply values %s) r)",
         "(apply apply (list list %s))", "(apply apply list (list %s))", "(let ((a '())) (for-each (lambda (x) (set! a (cons x a))) %s) (reverse a))",
         "(apply map (list (lambda (x) x) %s))", "(call-with-values (lambda () (call-with-current-continuation (lambda (k) (apply k %s)))) list)",
         "(append %s '() '())", "(append '() %s '())", "(apply append (map list %s))", "(apply (lambda (a . r) r) 'z %s)",
         "(let loop ((l %s)) (if (pair? l) (cons (car l) (loop (cdr l))) '()))", "(receive (a . r) (apply values 1 %s) r)", "(apply vector->list (list (apply vector %s)))",
         "(apply (call-with-current-continuation (lambda (k) list)) %s)", "(force (delay (apply list %s)))", "(guard (e (#t e)) (raise (apply list %s)))",
         "(apply (lambda (a b . r) r) 1 2 %s)", "(apply map (lambda (x y) y) (list %s %s))", "(map (lambda (x y) x) %s %s)", "(apply for-collect (list %s))"]


class G:
    def __init__(self, r):
        self.r = r
        self.vars = []
        self.txt = []
        self.exp = []

    def atom(self):
        a = self.r.choice([1, 2, 3, "a", "b", "c", 10, ()])
        return ("'()" if a == () else "'%s" % a if isinstance(a, str) else str(a)), a

    def any(self):
        r = self.r
        if self.vars and r.random() < 0.5:
            i = r.randrange(len(self.vars))
            return "v%d" % i, self.vars[i]
        return self.atom()

    def lst(self, tail=True):
        r = self.r
        for _ in range(8):
            if not self.vars:
                break
            i = r.randrange(len(self.vars))
            if items(self.vars[i]) is not None:
                if isinstance(self.vars[i], P) and r.random() < 0.2:
                    return "(cdr v%d)" % i, self.vars[i].d
                return "v%d" % i, self.vars[i]
        es = [self.any() for _ in range(r.randrange(5))]
        return "(list %s)" % " ".join(e[0] for e in es), mk([e[1] for e in es])

    def pairvar(self):
        c = [i for i, v in enumerate(self.vars) if isinstance(v, P)]
        return self.r.choice(c) if c else None

    def mutation(self):
        """text of a mutation and a function doing it, or None; the function is undone if it makes a cycle"""
        r = self.r
        i = self.pairvar()
        if i is None:
            return None
        t, x = self.any()
        tgt, path = self.vars[i], "v%d" % i
        while isinstance(tgt.d, P) and r.random() < 0.45:
            tgt, path = tgt.d, "(cdr %s)" % path
        if r.random() < 0.55:
            old, tgt.a = tgt.a, x
            if not self.ok():
                tgt.a = old
                return None
            return "(set-car! %s %s)" % (path, t)
        old, tgt.d = tgt.d, x
        if not self.ok():
            tgt.d = old
            return None
        return "(set-cdr! %s %s)" % (path, t)

    def ok(self, extra=()):
        n = [0]
        return all(size(v, n=n) is not None for v in list(self.vars) + list(extra))

    def binding(self):
        """(text, value); mutations made while the call runs are applied to the model"""
        r = self.r
        c = r.random()
        if c < 0.12:
            es = [self.any() for _ in range(r.randrange(6))]
            t = " ".join(e[0] for e in es)
            return r.choice(["(list %s)", "((lambda r r) %s)", "(call-with-values (lambda () (values %s)) list)", "(apply list %s '())"]) % t, mk([e[1] for e in es])
        if c < 0.17:
            es = [self.any() for _ in range(r.randrange(4))]
            return "(vector %s)" % " ".join(e[0] for e in es), V([e[1] for e in es])
        if c < 0.25:
            a, b = self.any(), self.any()
            return "(cons %s %s)" % (a[0], b[0]), P(a[1], b[1])
        if c < 0.33:
            a = self.any()
            if a[1] is False:
                return None
            return r.choice(IDENT) % a[0], a[1]
        l, lv = self.lst()
        es = items(lv)
        if c < 0.53:
            f = r.choice(FRESH)
            return f.replace("%s", l), mk(list(es))
        if c < 0.58:
            a = [self.any() for _ in range(r.randrange(3))]
            return "(apply list %s %s)" % (" ".join(x[0] for x in a), l), mk([x[1] for x in a] + es)
        if c < 0.66:
            ls = [(l, lv)] + [self.lst() for _ in range(r.randrange(2))]
            last = self.any()
            v = last[1]
            for _, x in reversed(ls):
                v = mk(items(x), v)
            return "(append %s %s)" % (" ".join(x[0] for x in ls), last[0]), v
        if c < 0.71:
            l2, lv2 = self.lst()
            es2 = items(lv2)
            k = min(len(es), len(es2))
            if len(es) != len(es2):
                return None
            f = r.randrange(3)
            if f == 0:
                return "(map list %s %s)" % (l, l2), mk([mk([a, b]) for a, b in zip(es, es2)])
            if f == 1:
                return "(map cons %s %s)" % (l, l2), mk([P(a, b) for a, b in zip(es, es2)])
            return "(map (lambda r r) %s %s)" % (l, l2), mk([mk([a, b]) for a, b in zip(es, es2)])
        if c < 0.75:
            f = r.random() < 0.5
            return "(list->vector %s)" % l if f else "(apply vector %s)" % l, V(list(es))
        if c < 0.79:
            vs = [i for i, v in enumerate(self.vars) if isinstance(v, V)]
            if not vs:
                return None
            i = r.choice(vs)
            return "(vector->list v%d)" % i, mk(list(self.vars[i].e))
        if c < 0.82:
            return "(reverse %s)" % l, mk(es[::-1])
        if c < 0.86:
            k = r.randint(0, len(es))
            v = lv
            for _ in range(k):
                v = v.d
            return "(list-tail %s %d)" % (l, k), v
        if c < 0.92:
            # the activation keeps its own list while the caller's is changed
            res = mk(list(es))
            m = self.mutation()
            if m is None:
                return None
            if not self.ok([res]):
                raise Abandon
            return r.choice(["(apply (lambda r %s r) %s)", "(apply (lambda (q . r) %s r) 1 %s)"]) % (m, l), res
        # the activation changes its own list; the caller's stays
        res = mk(list(es))
        if not es:
            return None
        t, x = self.any()
        k = r.randrange(len(es))
        node, path = res, "r"
        for _ in range(k):
            node, path = node.d, "(cdr %s)" % path
        if r.random() < 0.5:
            node.a = x
            m = "(set-car! %s %s)" % (path, t)
        else:
            node.d = x
            m = "(set-cdr! %s %s)" % (path, t)
        if not self.ok([res]):
            return None
        return r.choice(["(apply (lambda r %s r) %s)", "(apply (lambda (q . r) %s r) 1 %s)", "(let ((r (apply list @2))) @1 r)", "(let ((r (map (lambda (x) x) @2))) @1 r)",
                         "(let ((r (append @2 '()))) @1 r)", "(receive r (apply values @2) @1 r)", "(let ((r (vector->list (list->vector @2)))) @1 r)"]).replace(
            "%s", "@1", 1).replace("%s", "@2", 1).replace("@1", m).replace("@2", l), res

    def program(self):
        r = self.r
        n = r.randint(3, 12)
        close = 0
        parts = []
        while len(self.vars) < n:
            b = self.binding()
            if b is None or not self.ok([b[1]]):
                if b is not None and "set-c" in b[0]:
                    raise Abandon
                continue
            parts.append("(let ((v%d %s)) " % (len(self.vars), b[0]))
            self.vars.append(b[1])
            close += 1
            if r.random() < 0.45 or len(self.vars) == n:
                for _ in range(r.randint(1, 3)):
                    m = self.mutation()
                    if m:
                        parts.append(m)
                parts.append("(out (list %s))" % " ".join("v%d" % i for i in range(len(self.vars))))
                self.exp.append(show(mk(list(self.vars))))
        return "".join(parts) + "#t" + ")" * close, "".join(self.exp)


def gen(r, n):
    out = []
    while len(out) < n:
        try:
            out.append(G(r).program())
        except Abandon:
            pass
    return out


PRE = """(use srfi-8)(use srfi-34)(use sscm-ext)
(define t #f)
(define (out x) (write x))
(define (for-collect l) (let ((a '())) (for-each (lambda (x) (set! a (cons x a))) l) (reverse a)))
"""

FIXED = r"""
((lambda args (set-cdr! args args) (let ((x 1)) (list x (car args) (eq? args (cdr args))))) 1 2) ==> (1 1 #t)
((lambda args (set-cdr! args 3) (let ((x 4)) (list x args))) 1 2) ==> (4 (1 . 3))
((lambda (a . args) (set-cdr! args 3) (let* ((x 1) (y 2)) (define z 3) (set! a 5) (list a args x y z))) 1 2 9) ==> (5 (2 . 3) 1 2 3)
((lambda (a . args) (set-cdr! args args) (let loop ((x 0)) (if (< x 3) (loop (+ x 1)) (do ((i 0 (+ i 1)) (l args (cdr l))) ((= i 5) (list a x i (car l))))))) 1 2 9) ==> (1 3 5 2)
(let* ((l (list 1 2 3)) (r (apply (lambda args args) l))) (set-car! r 'x) (list l r)) ==> ((1 2 3) (x 2 3))
(let* ((l (list 1 2 3)) (r (apply (lambda args args) l))) (set-car! l 'x) (list l r)) ==> ((x 2 3) (1 2 3))
(let* ((l (list 1 2 3)) (r (apply (lambda (a . b) b) l))) (set-cdr! (cdr l) '()) (list l r)) ==> ((1 2) (2 3))
(let* ((l (list 1 2)) (r (append l l))) (eq? l (cddr r))) ==> #t
(let* ((l (list 1 2)) (r (append l))) (eq? l r)) ==> #t
(let* ((l (list 1 2)) (f (lambda r (lambda () r))) (g (apply f l))) (set-car! l 'z) (g)) ==> (1 2)
(let* ((l (list 1 2 3)) (k #f)) (apply (lambda (a b c) (set-car! l 9) (set-cdr! l '()) (list a b c l)) l)) ==> (1 2 3 (9))
(let* ((l (list 1 2 3)) (m (map (lambda (x) (* x x)) l))) (set-car! m 'q) (list l m)) ==> ((1 2 3) (q 4 9))
(let* ((l (list 1 2 3)) (v (list->vector l))) (vector-set! v 0 'z) (set-car! (cdr l) 'y) (list l v)) ==> ((1 y 3) #(z 2 3))
(let* ((l (list 1 2 3)) (p (call-with-values (lambda () (apply values l)) list))) (set-car! l 'z) p) ==> (1 2 3)
(let* ((args (list 1 2)) (l (list 'list args))) (eval (list 'apply 'list (list 'quote args)) (interaction-environment)) args) ==> (1 2)
(let* ((code (list '+ 1 2)) (a (eval code (interaction-environment)))) (list a code)) ==> (3 (+ 1 2))
(let* ((code (list 'let (list (list 'x 1)) (list 'list 'x 'x))) (a (eval code (interaction-environment)))) (list a code (eval code (interaction-environment)))) ==> ((1 1) (let ((x 1)) (list x x)) (1 1))
(let* ((code (list 'lambda 'r (list 'set-car! 'r ''z) 'r)) (f (eval code (interaction-environment)))) (list (f 1 2) (f 3) code)) ==> ((z 2) (z) (lambda r (set-car! r (quote z)) r))
(let ((f (lambda r (set-car! r 'x) r)) (l (list 1 2))) (list (apply f l) (apply f l) l)) ==> ((x 2) (x 2) (1 2))
(let* ((f (lambda () (list 1 2))) (a (f)) (b (f))) (set-car! a 'x) (list a b)) ==> ((x 2) (1 2))
"""


def run(ctx):
    ctx.rule = ("random sequences of list-passing calls (apply, rest parameters, map, for-each, append, values, conversions) and mutations of callers' and callees' lists, "
                "every variable printed after each step and compared with a model of pairs with identity; distinct by program text")
    for lay in ("compact", "fatty"):
        ctx.run("san-" + lay, common.fixed("\n".join(l for l in FIXED.strip().split("\n") if "#!optional" not in l)), PRE)
    cases = [Case(b, ("ok", "#t", o), "sharing") for b, o in common.par(gen, ctx.n(16000, 300000), "%s/%d" % (ctx.prop, ctx.seed))]
    h = len(cases) // 2
    ctx.run("san-compact", cases[:h], PRE)
    ctx.run("san-fatty", cases[h:], PRE)
    ctx.run("opt-compact", cases[h:], PRE)
    ctx.run("san-compact", cases[:h // 8], PRE, env={"VF_GC_INTERVAL": "3", "VF_GC_SEED": ctx.seed})
    ctx.minimum = 10000
