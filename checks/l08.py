"""L08: unhygienic macros against the reference interpreter."""
from checks import common
from vlib import progen
from vlib.check import Case
from vlib.datum import NIL, Pair, Sym, parse_all, write

PRE = common.PRE

# computing macros: name, definition; the uses are below
POOL = r"""
(define-macro (m-or . xs) (if (null? xs) #f (if (null? (cdr xs)) (car xs) `(let ((t ,(car xs))) (if t t (m-or . ,(cdr xs)))))))
(define-macro m-and (lambda xs (cond ((null? xs) #t) ((null? (cdr xs)) (car xs)) (else (list 'if (car xs) (cons 'm-and (cdr xs)) #f)))))
(define-macro (m-let* bs . body) (if (null? bs) `(let () ,@body) `(let (,(car bs)) (m-let* ,(cdr bs) ,@body))))
(define-macro (m-swap! a b) `(let ((tmp ,a)) (set! ,a ,b) (set! ,b tmp)))
(define-macro (m-inc! v . by) `(set! ,v (+ ,v ,(if (null? by) 1 (car by)))))
(define-macro (m-aif c t e) `(let ((it ,c)) (if it ,t ,e)))
(define-macro (m-quote . x) `',x)
(define-macro (m-count . x) (length x))
(define-macro (m-rev x) (reverse x))
(define-macro (m-thread x . fs) (if (null? fs) x `(m-thread (,(caar fs) ,x ,@(cdar fs)) ,@(cdr fs))))
(define-macro (m-fn vs . body) `(lambda ,vs ,@body))
(define-macro (m-nth k . es) (list-ref es k))
(define-macro (m-seq . es) (cons 'begin es))
(define-macro (m-twice e) (list '+ e e))
(define-macro (m-times n v e) (let loop ((i (- n 1)) (acc ''())) (if (< i 0) acc (loop (- i 1) `(cons (let ((,v ,i)) ,e) ,acc)))))
(define-macro (m-case x . cl) `(let ((key ,x)) (cond ,@(map (lambda (c) (if (eq? (car c) 'else) c `((memv key '(,@(if (pair? (car c)) (car c) (list (car c))))) ,@(cdr c)))) cl))))
(define-macro (m-while c . body) `(let lp () (if ,c (begin ,@body (lp)) 'over)))
(define-macro (m-early e) (call-with-current-continuation (lambda (k) (k (list 'list e 1)) (car 5))))
(define-macro (m-odd? n) (if (= n 0) #f `(m-even? ,(- n 1))))
(define-macro (m-even? n) (if (= n 0) #t `(m-odd? ,(- n 1))))
(define-macro (m-depth n e) (if (= n 0) e `(let ((a (+ a 1))) (m-depth ,(- n 1) ,e))))
(define-macro (m-fail . x) (car x 5))
(define-macro (m-raise x) (raise x))
(define-macro (m-const) 42)
(define-macro (m-nil) ''())
(define-macro (m-op) '+)
(define-macro (m-name) 'a)
(define-macro (m-vec . xs) (list->vector xs))
(define-macro (m-qvec . xs) (list 'quote (list->vector xs)))
(define-macro (m-expands-to-mac k x) (list k x))
""".strip()

FIXED = r"""
(m-quote a (b . c) "s" #\x 5 (m-or 1 2)) ==> (a (b . c) "s" #\x 5 (m-or 1 2))
(m-quote) ==> ()
(m-quote . 5) ==> error
(m-quote 1 . 5) ==> error
(m-count (car 5) (T 1) unbound) ==> 3
(m-rev (5 2 -)) ==> -3
(m-rev ((T 1 5) (T 2 3) +)) ==> out:<2><1>|8
(list m-or) ==> error
(apply m-or '(1)) ==> error
(map m-twice '(1 2)) ==> error
(let ((x m-or)) 1) ==> error
(let ((m-or list)) (m-or 1 2)) ==> (1 2)
(let ((m-twice (lambda (x) (list x)))) (m-twice 3)) ==> (3)
((lambda (m-const) (m-const)) (lambda () 7)) ==> 7
(letrec ((m-or (lambda (x) (if (= x 0) 'z (m-or (- x 1)))))) (m-or 5)) ==> z
(let loop ((m-and list) (i 2)) (if (= i 0) (m-and 1 2) (loop vector (- i 1)))) ==> #(1 2)
(do ((m-const (lambda () 5) m-const) (i 0 (+ i 1))) ((= i 2) (m-const))) ==> 5
(let () (define (m-inc! x) (+ x 100)) (m-inc! 1)) ==> 101
(let () (define m-quote vector) (m-quote 1 2)) ==> #(1 2)
(m-nth 0) ==> error
(m-nth) ==> error
(m-swap! 1) ==> error
(m-swap! 1 2 3) ==> error
(m-fail 1) ==> error
(m-raise oops) ==> raise:oops
(guard (e ((symbol? e) (list 'got e))) (m-raise oops)) ==> (got oops)
(m-early (T 1 5)) ==> out:<1>|(5 1)
(list (m-const) (m-nil)) ==> (42 ())
((m-op) 1 2) ==> 3
(m-vec 1 2) ==> error
(m-qvec a 2) ==> #(a 2)
(let ((a 7)) (m-name)) ==> 7
(let ((a 7)) (set! (m-name) 5)) ==> error
(m-odd? 7) ==> #t
(m-even? 7) ==> #f
(let ((a 0)) (m-depth 40 a)) ==> 40
(let ((t 5)) (m-or #f t)) ==> #f
(let ((u 5)) (m-or #f u)) ==> 5
(let ((tmp 1) (b 2)) (m-swap! tmp b) (list tmp b)) ==> (1 2)
(let ((a 1) (b 2)) (m-swap! a b) (list a b)) ==> (2 1)
(let ((if list)) (m-or 1 2)) ==> (1 1 2)
(let ((list vector)) (m-early 5)) ==> #(5 1)
`(m-const ,(m-const) ,@(m-quote a b) (m-const)) ==> (m-const 42 a b (m-const))
'(m-const) ==> (m-const)
(let ((i 0)) (m-while (< i 3) (T i) (m-inc! i))) ==> out:<0><1><2>|over
(let ((n 100000)) (m-while (> n 0) (m-inc! n -1)) n) ==> 0
(let loop ((n 50000)) (m-or #f (if (= n 0) 'end (loop (- n 1))))) ==> end
(let loop ((n 50000)) (m-case n ((0) 'end) (else (m-let* ((k (- n 1))) (loop k))))) ==> end
(map (m-fn (x . r) (list x r)) '(1 2)) ==> ((1 ()) (2 ()))
(m-times 4 i (* i i)) ==> (0 1 4 9)
(m-thread 5 (- 3) (list 1) (cons 'x)) ==> ((2 1) . x)
(m-case 3 (1 'one) ((2 3) (T 5) 'few) (else 'many)) ==> out:<5>|few
(eval '(m-let* ((x 1) (y (+ x 1))) (list x y)) (interaction-environment)) ==> (1 2)
(let ((x 5)) (eval '(m-quote x) (interaction-environment))) ==> (x)
(m-aif (assv 2 '((1 . a) (2 . b))) (cdr it) 'none) ==> b
(m-aif (assv 3 '((1 . a) (2 . b))) (cdr it) 'none) ==> none
(let ((f (lambda (k) (m-expands-to-mac m-twice (T k k))))) (list (f 1) (f 2))) ==> out:<1><1><2><2>|(2 4)
(if (m-or) 1 (m-and)) ==> #t
(cond ((m-aif 5 it #f) => list) (else 2)) ==> (5)
(case (m-const) ((42) (m-nth 1 (T 1) (T 2 'b) (T 3))) (else 0)) ==> out:<2>|b
(let ((x (m-const)) (y 1)) (m-seq (m-inc! x) (m-inc! y x) (list x y))) ==> (43 44)
(let* ((v (m-const)) (w (m-twice v))) w) ==> 84
(delay (m-fail)) ==> any
(force (delay (m-twice 4))) ==> 8
"""

# definitions produced at the top level, seen afterwards
TOP = [
    ("(define-macro (d-pair%U a b v) `(begin (define ,a ,v) (define ,b (list ,a))))\n(d-pair%U pa%U pb%U (+ 1 2))", "(list pa%U pb%U)", "(3 (3))"),
    ("(define-macro (d-mac%U n . body) `(define-macro (,n x) ,@body))\n(d-mac%U dm%U (list '+ x 1))", "(dm%U 4)", "5"),
    ("(define-macro (d-acc%U n v) `(define (,n . s) (if (null? s) ,v (set! ,v (car s)))))\n(define av%U 1)\n(d-acc%U ac%U av%U)", "(begin (ac%U 9) (list (ac%U) av%U))", "(9 9)"),
    ("(define-macro (r%U) 1)\n(define r1%U (r%U))\n(define-macro (r%U) 2)\n(define r2%U (r%U))", "(list r1%U r2%U (r%U))", "(1 2 2)"),
    ("(define-macro (s%U x) `(list ,x))\n(define (s%U x) (vector x))", "(s%U 1)", "#(1)"),
    ("(define (u%U x) (vector x))\n(define-macro u%U (lambda (x) `(list ,x)))", "(u%U 1)", "(1)"),
    ("(define h%U (lambda (x) (list 'quote x)))\n(define-macro k%U (lambda (x) (h%U x)))", "(list (h%U 1) (k%U z))", "((quote 1) z)"),
    ("(define cnt%U 0)\n(define-macro (c%U) (set! cnt%U (+ cnt%U 1)) cnt%U)\n(define c1%U (c%U))\n(define c2%U (c%U))", "(list c1%U c2%U)", "(1 2)"),
    ("(define-macro (e%U . x) `(begin ,@x))\n(e%U (define x1%U 1) (define x2%U (+ x1%U 1)) (e%U (define x3%U 5)))", "(list x1%U x2%U x3%U)", "(1 2 5)"),
    ("(define-macro (f%U n) (if (= n 0) '(define z%U 'done) `(f%U ,(- n 1))))\n(f%U 20)", "z%U", "done"),
    ("(define-macro (w%U x) `(define x (list ',x)))", "(let ((r (guard (e (#t 'err)) (let () (w%U 1) x)))) r)", None),
]


def builder(d, params):
    """Text of an expression building datum d with the parameters put in."""
    if isinstance(d, Sym):
        return str(d.name) if d.name in params else "'" + write(d)
    if isinstance(d, Pair):
        if isinstance(d.car, Sym) and d.car.name == "%splice":
            return d.cdr.car.name
        if isinstance(d.car, Pair) and isinstance(d.car.car, Sym) and d.car.car.name == "%splice":
            return "(append %s %s)" % (d.car.cdr.car.name, builder(d.cdr, params))
        return "(cons %s %s)" % (builder(d.car, params), builder(d.cdr, params))
    if d is NIL:
        return "'()"
    return "'" + write(d)


def mentions(d, params):
    while isinstance(d, Pair):
        if mentions(d.car, params):
            return True
        d = d.cdr
    return isinstance(d, Sym) and d.name in params


def quasi(d, params):
    """Inside a quasiquotation."""
    if isinstance(d, Sym):
        return "," + d.name if d.name in params else write(d)
    if isinstance(d, Pair) and mentions(d, params):
        out = []
        while isinstance(d, Pair):
            out.append(quasi(d.car, params))
            d = d.cdr
        return "(" + " ".join(out) + ("" if d is NIL else " . " + quasi(d, params)) + ")"
    return write(d)


class Gen(progen.Gen):
    macros = ()
    rate = 0.12

    def use(self, sc, t, d):
        r = self.r
        ms = [m for m in self.macros if m[2] == t and all(sc.get(f) == "int" for f in m[3])]
        if ms and r.random() < 0.6:
            name, params, _, _ = r.choice(ms)
            args = [self.expr(sc, ty, d - 1) for ty in params]
            if r.random() < self.err:
                args = args[1:] or args + ["1"]
            return "(%s)" % " ".join([name] + args)
        e = lambda: self.expr(sc, t, d - 1)
        i = lambda: self.int(sc, d - 2)
        vs = self.vars(sc, "int")
        o = [lambda: "(m-or %s %s)" % (" ".join(r.choice(["#f", "(and #f %s)" % i(), "(T %s #f)" % self.tag()]) for _ in range(r.randint(0, 2))), e()),
             lambda: "(m-and %s %s)" % (" ".join("(T %s #t)" % self.tag() for _ in range(r.randint(0, 2))), e()),
             lambda: "(m-let* (%s) %s)" % self.mlet(sc, t, d),
             lambda: "(m-nth %d %s)" % ((lambda k: (k, " ".join("(car (T %s 5))" % self.tag() if j != k else e() for j in range(k + r.randint(1, 2)))))(r.randint(0, 3))),
             lambda: "(m-seq %s %s)" % (" ".join(self.stmt(sc, d - 1) for _ in range(r.randint(0, 2))), e()),
             lambda: "(m-aif %s %s %s)" % (r.choice(["#f", i()]), self.expr(self.ext(sc, "it", "int"), t, d - 1), e()),
             lambda: "(m-case %s (%d %s) ((%d %d) %s) (else %s))" % (i(), r.randint(0, 5), e(), r.randint(0, 5), r.randint(-3, 9), e(), e()),
             lambda: "(car (m-early %s))" % e()]
        if t == "int":
            o += [lambda: "(m-twice %s)" % i(), lambda: "(m-count %s)" % " ".join(i() for _ in range(r.randint(0, 4))), lambda: "(m-const)",
                  lambda: "(m-rev (%s %s -))" % (i(), i()), lambda: "(m-thread %s (+ %s) (- 1))" % (i(), i()),
                  lambda: "((m-fn (q) (+ q %s)) %s)" % (self.int(self.ext(sc, "q", "int"), d - 2), i()),
                  lambda: "(m-expands-to-mac m-twice %s)" % i()]
            if vs:
                o.append(lambda: "(begin (m-inc! %s %s) %s)" % (r.choice(vs), i(), i()))
                if len(vs) > 1:
                    o.append(lambda: "(begin (m-swap! %s %s) %s)" % (r.choice(vs), r.choice(vs), i()))
            if sc.get("a") == "int":
                o += [lambda: "(m-depth %d %s)" % (r.randint(0, 6), i()), lambda: "(m-name)"]
        if t == "list":
            o += [lambda: "(m-times %d i %s)" % (r.randint(0, 4), self.int(self.ext(sc, "i", "int"), d - 2)), lambda: "(m-nil)",
                  lambda: "(list (length (m-quote %s)))" % i()]
        if t == "bool":
            o += [lambda: "(m-odd? %d)" % r.randint(0, 9), lambda: "(m-even? %d)" % r.randint(0, 9)]
        return r.choice(o)()

    def mlet(self, sc, t, d):
        bs = []
        s2 = dict(sc)
        for _ in range(self.r.randint(0, 3)):
            ty, e = self.bind(s2, d - 2)
            v = self.var()
            bs.append("(%s %s)" % (v, e))
            s2[v] = ty
        return " ".join(bs), self.seq(s2, t, d - 1)

    def expr(self, sc, t, d):
        if d > 1 and t in ("int", "list", "bool") and self.budget > 0 and self.r.random() < self.rate * 2:
            self.budget -= 1
            return self.use(sc, t, d)
        return progen.Gen.expr(self, sc, t, d)

    def int(self, sc, d=6):
        if d > 2 and self.budget > 0 and self.r.random() < self.rate:
            self.budget -= 1
            # a local procedure that has the name of a macro
            if self.macros and self.r.random() < 0.08:
                m = self.r.choice(self.macros)
                saved = self.macros
                self.macros = [x for x in saved if x[0] != m[0]]
                s = "(let ((%s (lambda (x) (+ x %s)))) (+ (%s %s) %s))" % (m[0], self.int(self.ext(sc, "x", "int"), d - 3), m[0], self.int(sc, d - 3), self.int(sc, d - 2))
                self.macros = saved
                return s
            return self.use(sc, "int", d)
        return progen.Gen.int(self, sc, d)


def macros(r, uid):
    """Random macros whose expansions are random expressions: [(name, param types, type, free)], text."""
    ms, text = [], []
    for k in range(r.randint(1, 4)):
        name = "mac%d-%s" % (k, uid)
        types = [r.choice(["int", "int", "list"]) for _ in range(r.randint(0, 3))]
        params = ["mp%d" % i for i in range(len(types))]
        free = r.sample("abcxyz", r.choice([0, 0, 1, 2]))
        t = r.choice(["int", "int", "list", "bool"])
        g = Gen(r, ("exc", "cont") if r.random() < 0.4 else (), 0.01, r.randint(4, 20))
        g.macros = list(ms)
        g.nv = 50
        sc = {p: ty for p, ty in zip(params, types)}
        sc.update((f, "int") for f in free)
        body = g.expr(sc, t, 4)
        if any("(set! " + p in body or "! " + p in body for p in params):
            continue
        try:
            d = parse_all(body)[0]
        except Exception:
            continue
        style = r.random()
        if style < 0.5:
            form = "`" + quasi(d, params)
        else:
            form = builder(d, params)
        if r.random() < 0.5:
            text.append("(define-macro (%s) %s)" % (" ".join([name] + params), form))
        else:
            text.append("(define-macro %s (lambda (%s) %s))" % (name, " ".join(params), form))
        ms.append((name, types, t, free))
    return ms, "\n".join(text)


def programs(r, n):
    out = []
    tries = 0
    while len(out) < n and tries < 6 * n:
        tries += 1
        uid = "%06x" % r.randrange(1 << 24)
        ms, pre = macros(r, uid)
        g = Gen(r, r.choice([(), ("cont",), ("exc", "cont"), ("values", "delay")]), 0.03, r.randint(10, 45))
        g.macros = ms
        text = g.expr({}, r.choice(["int", "list", "any"]), 7)
        if not 15 < len(text) < 6000 or ("(m-" not in text and "(mac" not in text):
            continue
        if "mp" in text:
            continue
        try:
            got = common.expect(text, 60, 60000, POOL + "\n" + pre + "\n")
        except Exception:
            import sys
            sys.stderr.write("L08 generator: %s\n%s\n" % (pre, text))
            raise
        if got is None:
            continue
        kind, v, o = got
        if len(o) > 10000 or "#<" in v or "#<" in o:
            continue
        out.append((text, kind, v, o, pre + "\n"))
    return out


def run(ctx):
    ctx.rule = ("a case is a program using macros: a pool of computing macros (recursive, mutually recursive, capturing, defining) and "
                "macros with random templates defined for the case (quasiquoted or built by list operations, using one another); "
                "judged by a reference interpreter that substitutes the transformer's result for the use; distinct by program and macros")
    ctx.assume = ["how often the transformer runs for one use is not judged"]
    cs = [Case(t, (k, v if k != "err" else None, o), "random macros", pre) for t, k, v, o, pre in
          common.par(programs, ctx.n(2400, 30000), "L08/%d" % ctx.seed)]
    fx = [c for c in common.fixed(FIXED.replace("==> any", "==> raise:any"))]
    for c in fx:
        if c.exp == ("raise", "any"):
            c.exp = ("any",)
    tops = []
    for i in range(ctx.n(4, 40)):
        for pre, body, want in TOP:
            u = "-t%d" % i
            tops.append(Case(body.replace("%U", u), ("ok", want) if want else ("any",), "top level", pre.replace("%U", u) + "\n"))
    for variant in ("san-compact", "san-fatty", "san-hygienic", "opt-compact"):
        part = cs
        if variant == "san-hygienic":
            part = cs[::4]
        ctx.run(variant, part + fx + tops, PRE + POOL)
    ctx.minimum = 2000
