"""Random terminating programs.  Expressions are typed so that most programs
run to a value; some deliberately end in an error."""


class Gen:
    def __init__(self, rng, feats=(), err=0.02, size=40):
        self.r = rng
        self.feats = set(feats)
        self.err = err
        self.budget = size
        self.nv = 0
        self.nt = 0

    def var(self, p="v"):
        # a small pool makes shadowing common
        self.nv += 1
        if self.r.random() < 0.35:
            return self.r.choice("abcxyz")
        return "%s%d" % (p, self.nv)

    def tag(self):
        self.nt += 1
        return str(self.nt)

    def pick(self, opts):
        tot = sum(w for w, _ in opts)
        x = self.r.random() * tot
        for w, f in opts:
            x -= w
            if x <= 0:
                return f
        return opts[-1][1]

    def vars(self, sc, t):
        return [n for n, ty in sc.items() if ty == t]

    def small(self):
        self.budget -= 1
        return self.budget <= 0

    # ---- int -----------------------------------------------------------
    def int(self, sc, d=6):
        r = self.r
        if d <= 0 or self.small():
            vs = self.vars(sc, "int")
            if vs and r.random() < 0.7:
                return r.choice(vs)
            return str(r.randint(-9, 20))
        d -= 1
        o = [(2, lambda: "(T %s %s)" % (self.tag(), self.int(sc, d))),
             (2, lambda: "(%s %s %s)" % (r.choice("+-"), self.int(sc, d), self.int(sc, d))),
             (1, lambda: "(%s %s)" % (r.choice(["+", "-", "max", "min"]),
                                      " ".join(self.int(sc, d) for _ in range(r.randint(1, 4))))),
             (1, lambda: "(%s %s %s)" % (r.choice(["quotient", "remainder", "modulo"]), self.int(sc, d),
                                         r.choice(["2", "3", "-3", "7"]) if r.random() > self.err else "0")),
             (3, lambda: self.generic(sc, "int", d)),
             (1, lambda: "(length %s)" % self.list(sc, d)),
             (1, lambda: "(apply %s %s)" % (r.choice(["+", "max 1", "min 5"]), self.list(sc, d))),
             (1, lambda: "(vector-length %s)" % self.vec(sc, d)),
             (1, lambda: self.carof(sc, d)),
             (0.6, lambda: self.vecref(sc, d)),
             (0.7, lambda: "(cdr (assv %s '((1 . 10) (2 . 20) (3 . 30) (%d . %d))))" % (
                 r.choice(["1", "2", "3", "(if %s 1 3)" % self.bool(sc, d)]), r.randint(1, 5), r.randint(0, 50))),
             (0.5, lambda: "(let ((m (memv %s '(1 2 3 4 5)))) (if m (length m) %s))" % (
                 self.int(sc, d - 2), self.int(sc, d - 2)))]
        vs = self.vars(sc, "int")
        if vs:
            o.append((2, lambda: r.choice(vs)))
            o.append((1, lambda: self.setq(sc, r.choice(vs), d)))
        p = self.vars(sc, "p1")
        if p:
            o.append((3, lambda: "(%s %s)" % (r.choice(p), self.int(sc, d))))
        p0 = self.vars(sc, "p0")
        if p0:
            o.append((2, lambda: "(%s)" % r.choice(p0)))
        pr = self.vars(sc, "prest")
        if pr:
            o.append((2, lambda: "(%s %s)" % (r.choice(pr), " ".join(
                self.int(sc, d) for _ in range(r.randint(1, 4))))))
        if "cont" in self.feats:
            o.append((1.5, lambda: self.callcc(sc, "int", d)))
            ks = self.vars(sc, "k-int")
            if ks:
                o.append((2, lambda: "(%s %s)" % (r.choice(ks), self.int(sc, d))))
            o.append((1, lambda: self.wind(sc, "int", d)))
        if "exc" in self.feats:
            o.append((1.5, lambda: self.guard(sc, "int", d)))
            o.append((0.7, lambda: "(raise %s)" % r.choice([self.int(sc, d), "'%s" % r.choice("abc"),
                                                             "(list %s)" % self.int(sc, d)])))
            o.append((0.5, lambda: r.choice(["(car 5)", "(error \"e\" %s)" % self.int(sc, d), "(undefined-var)",
                                             "(vector-ref (vector 1) 9)", "((lambda (x) x))", "(5 5)"])))
            o.append((0.7, lambda: self.handler(sc, d)))
        if "values" in self.feats:
            o.append((1.5, lambda: self.cwv(sc, "int", d)))
        if "delay" in self.feats:
            o.append((1.2, lambda: "(force %s)" % self.promise(sc, d)))
        if "port" in self.feats:
            o.append((0.5, lambda: "(let ((p (open-output-string))) (write %s p) (display %s p) "
                                   "(string-length (get-output-string p)))" % (self.list(sc, d), self.int(sc, d))))
        if r.random() < self.err:
            o.append((3, lambda: r.choice(["(car '())", "(+ 'a 1)", "(vector-ref (vector 1 2) 2)", "(f-undefined 1)",
                                           "((lambda (a b) a) 1)", "(length '(1 . 2))", "(apply + 1)"])))
        return self.pick(o)()

    def carof(self, sc, d):
        r = self.r
        l = self.list(sc, d)
        if r.random() < self.err:
            return "(car %s)" % l
        return "(let ((l %s)) (if (pair? l) (%s l) %s))" % (l, r.choice(["car", "car", "apply +"]),
                                                           self.int(sc, d - 2))

    def vecref(self, sc, d):
        return "(let ((v %s)) (if (> (vector-length v) 1) (vector-ref v 1) %s))" % (self.vec(sc, d), self.int(sc, d - 2))

    def setq(self, sc, v, d):
        return self.r.choice(["(begin (set! %s %s) %s)", "(let ((o %s)) (set! %s o) %s)"][:1]) % (
            v, self.int(sc, d), v)

    # ---- forms common to all types -----------------------------------------
    def generic(self, sc, t, d):
        r = self.r
        e = lambda s=sc, dd=d: self.expr(s, t, dd)
        return self.pick([
            (3, lambda: "(if %s %s %s)" % (self.bool(sc, d), e(), e())),
            (3, lambda: self.let(sc, t, d)),
            (2, lambda: self.letstar(sc, t, d)),
            (2, lambda: self.letrec(sc, t, d)),
            (2, lambda: self.body(sc, t, d)),
            (2, lambda: "(begin %s %s)" % (" ".join(self.stmt(sc, d) for _ in range(r.randint(0, 2))), e())),
            (2, lambda: self.cond(sc, t, d)),
            (2, lambda: self.case(sc, t, d)),
            (2, lambda: self.lamcall(sc, t, d)),
            (2, lambda: self.namedlet(sc, t, d)),
            (1, lambda: self.do(sc, t, d)),
            (1, lambda: "(or %s %s)" % (r.choice(["#f", "(T %s #f)" % self.tag(), "(and %s #f)" % self.bool(sc, d)]), e())),
            (1, lambda: "(and %s %s)" % (r.choice(["#t", "(T %s 0)" % self.tag(), "(or #f %s 1)" % self.bool(sc, d)]), e())),
            (1, lambda: "((if %s (lambda () %s) (lambda () %s)))" % (self.bool(sc, d), e(), e())),
            (0.7, lambda: self.counter(sc, t, d)),
        ])()

    def expr(self, sc, t, d):
        return {"int": self.int, "bool": self.bool, "list": self.list, "vec": self.vec, "any": self.any}[t](sc, d)

    def bind(self, sc, d):
        """(type, init text)"""
        r = self.r
        t = r.choice(["int", "int", "int", "list", "p1", "p0", "prest", "vec", "bool"])
        return t, self.init(sc, t, d)

    def init(self, sc, t, d):
        if t == "p1":
            v = self.var("p")
            return "(lambda (%s) %s)" % (v, self.int(self.ext(sc, v, "int"), d))
        if t == "p0":
            return "(lambda () %s)" % self.int(sc, d)
        if t == "prest":
            a, b = self.fresh(2)
            s2 = self.ext(self.ext(sc, a, "int"), b, "list")
            return "(lambda (%s . %s) %s)" % (a, b, self.int(s2, d))
        return self.expr(sc, t, d)

    def ext(self, sc, v, t):
        s = dict(sc)
        s[v] = t
        return s

    def fresh(self, n):
        xs = []
        while len(xs) < n:
            v = self.var()
            if v not in xs:
                xs.append(v)
        return xs

    def let(self, sc, t, d):
        n = self.r.randint(0, 3)
        names = self.fresh(n)
        bs = [(v,) + self.bind(sc, d - 1) for v in names]
        s2 = dict(sc)
        for v, ty, _ in bs:
            s2[v] = ty
        return "(let (%s) %s)" % (" ".join("(%s %s)" % (v, i) for v, _, i in bs), self.seq(s2, t, d))

    def letstar(self, sc, t, d):
        s2 = dict(sc)
        bs = []
        for v in [self.var() for _ in range(self.r.randint(0, 3))]:
            ty, i = self.bind(s2, d - 1)
            bs.append("(%s %s)" % (v, i))
            s2[v] = ty
        return "(let* (%s) %s)" % (" ".join(bs), self.seq(s2, t, d))

    def recproc(self, sc, f, d):
        """A lambda of one int that recurs on a smaller one."""
        x = self.var("n")
        while x == f:
            x = self.var("n")
        s2 = self.ext(sc, x, "int")
        return "(lambda (%s) (if (> %s 4) %s (if (< %s 1) %s (+ (%s (- %s %d)) %s))))" % (
            x, x, self.int(self.without(s2, f), d - 2), x, self.int(self.without(s2, f), d - 2), f, x, self.r.randint(1, 2),
            self.int(self.without(s2, f), d - 2))

    def without(self, sc, f):
        s = dict(sc)
        s.pop(f, None)
        # procedures that might call f again are left out too
        return {k: v for k, v in s.items() if v not in ("p1", "p0", "prest")}

    def letrec(self, sc, t, d):
        n = self.r.randint(1, 3)
        names = self.fresh(n)
        s2 = dict(sc)
        for v in names:
            s2.pop(v, None)
        bs = []
        if n == 2 and self.r.random() < 0.5:
            a, b = names
            bs = ["(%s (lambda (n) (if (<= n 0) (T %s 0) (%s (- n 1)))))" % (a, self.tag(), b),
                  "(%s (lambda (n) (if (<= n 0) (T %s 1) (%s (- n 1)))))" % (b, self.tag(), a)]
            lim = self.r.randint(0, 7)
            s3 = dict(s2)
            return "(letrec (%s) (%s %d) %s)" % (" ".join(bs), self.r.choice(names), lim, self.seq(s3, t, d))
        for v in names:
            bs.append("(%s %s)" % (v, self.recproc(s2, v, d - 1)))
        s3 = dict(s2)
        for v in names:
            s3[v] = "p1"
        return "(letrec (%s) %s)" % (" ".join(bs), self.seq(s3, t, d))

    def body(self, sc, t, d):
        """internal definitions"""
        names = self.fresh(self.r.randint(1, 3))
        s1 = {k: v for k, v in sc.items() if k not in names}
        defs = []
        s2 = dict(s1)
        for v in names:
            ty = self.r.choice(["int", "p1", "p0", "list", "prest"])
            i = self.init(s1, ty, d - 1)
            if ty == "p1" and i.startswith("(lambda (") and self.r.random() < 0.7:
                j = i.index(")")
                defs.append("(define (%s %s)%s" % (v, i[9:j], i[j + 1:]))
            else:
                defs.append("(define %s %s)" % (v, i))
            s2[v] = ty
        if len(defs) > 1 and self.r.random() < 0.2:
            k = self.r.randint(1, len(defs))
            defs = ["(begin %s)" % " ".join(defs[:k])] + defs[k:]
        head = self.r.choice(["(let () %s %s)", "((lambda () %s %s))", "(let* () %s %s)", "(letrec () %s %s)"])
        return head % (" ".join(defs), self.seq(s2, t, d))

    def seq(self, sc, t, d):
        s = [self.stmt(sc, d - 1) for _ in range(self.r.choice([0, 0, 0, 1, 2]))]
        return " ".join(s + [self.expr(sc, t, d - 1)])

    def stmt(self, sc, d):
        r = self.r
        o = [(2, lambda: "(T %s)" % self.tag()), (1, lambda: "(display %s)" % self.any(sc, d - 1)),
             (1, lambda: self.int(sc, d - 1)),
             (1, lambda: "(if %s (T %s))" % (self.bool(sc, d - 1), self.tag())),
             (1, lambda: "(for-each (lambda (e) (T e)) %s)" % self.list(sc, d - 1))]
        vs = self.vars(sc, "int")
        if vs:
            o.append((2, lambda: "(set! %s %s)" % (r.choice(vs), self.int(sc, d - 1))))
        vv = self.vars(sc, "list")
        if vv:
            o.append((1, lambda: "(set! %s (cons %s %s))" % (vv[0], self.int(sc, d - 2), vv[0])))
        return self.pick(o)()

    def cond(self, sc, t, d):
        r = self.r
        cl = []
        for _ in range(r.randint(0, 3)):
            c = r.random()
            if c < 0.7:
                cl.append("(%s %s)" % (self.bool(sc, d - 1), self.seq(sc, t, d)))
            elif c < 0.85 and t == "int":
                cl.append("((assv %s '((1 5) (2 6))) => cadr)" % self.int(sc, d - 2))
            elif t == "int":
                cl.append("((T %s %s))" % (self.tag(), r.choice(["#f", self.int(sc, d - 2)])))
            else:
                cl.append("(#f (T %s))" % self.tag())
        cl.append("(else %s)" % self.seq(sc, t, d))
        return "(cond %s)" % " ".join(cl)

    def case(self, sc, t, d):
        r = self.r
        cl = []
        for _ in range(r.randint(1, 3)):
            cl.append("((%s) %s)" % (" ".join(r.choice([str(r.randint(-2, 9)), "a", "#\\b", "#t", "x"])
                                              for _ in range(r.randint(1, 4))), self.seq(sc, t, d)))
        cl.append("(else %s)" % self.seq(sc, t, d))
        key = r.choice([self.int(sc, d - 1), "'a", "#\\b", self.bool(sc, d - 2)])
        return "(case %s %s)" % (key, " ".join(cl))

    def lamcall(self, sc, t, d):
        n = self.r.randint(0, 3)
        names = self.fresh(n)
        bs = [self.bind(sc, d - 1) for _ in names]
        s2 = dict(sc)
        for v, (ty, _) in zip(names, bs):
            s2[v] = ty
        if self.r.random() < 0.25:
            rest = self.var("r")
            while rest in names:
                rest = self.var("r")
            s2[rest] = "list"
            extra = " ".join(self.int(sc, d - 2) for _ in range(self.r.randint(0, 3)))
            f = "(%s . %s)" % (" ".join(names), rest) if names else rest
            return "((lambda %s %s) %s %s)" % (f, self.seq(s2, t, d), " ".join(i for _, i in bs), extra)
        return "((lambda (%s) %s) %s)" % (" ".join(names), self.seq(s2, t, d), " ".join(i for _, i in bs))

    def namedlet(self, sc, t, d):
        f, i, acc = "loop%d" % self.nv, "i%d" % self.nv, "acc%d" % self.nv
        self.nv += 1
        n = self.r.randint(0, 4)
        s2 = self.ext(self.ext(sc, i, "int"), acc, t if t != "any" else "int")
        t2 = t if t != "any" else "int"
        return "(let %s ((%s 0) (%s %s)) (if (>= %s %d) %s (%s (+ %s 1) %s)))" % (
            f, i, acc, self.expr(sc, t2, d - 1), i, n, acc, f, i, self.expr(s2, t2, d - 2))

    def do(self, sc, t, d):
        i, acc = "i%d" % self.nv, "acc%d" % self.nv
        self.nv += 1
        n = self.r.randint(0, 4)
        t2 = t if t != "any" else "int"
        s2 = self.ext(self.ext(sc, i, "int"), acc, t2)
        return "(do ((%s 0 (+ %s 1)) (%s %s %s)) ((= %s %d) %s) %s)" % (
            i, i, acc, self.expr(sc, t2, d - 1), self.expr(s2, t2, d - 2), i, n, self.seq(s2, t2, d - 2),
            self.r.choice(["", self.stmt(self.noset(s2, i), d - 2)]))

    def noset(self, sc, v):
        s = dict(sc)
        s.pop(v)
        return s

    def counter(self, sc, t, d):
        """closures sharing a variable"""
        c, inc, get = "c%d" % self.nv, "inc%d" % self.nv, "get%d" % self.nv
        self.nv += 1
        s2 = self.ext(self.ext(sc, inc, "p1"), get, "p0")
        return ("(let* ((%s %s) (%s (lambda (d) (set! %s (+ %s d)) %s)) (%s (lambda () %s))) %s)"
                % (c, self.int(sc, d - 2), inc, c, c, c, get, c, self.seq(s2, t, d)))

    # ---- bool ---------------------------------------------------------------
    def bool(self, sc, d=4):
        r = self.r
        if d <= 0 or self.small():
            return r.choice(["#t", "#f"] + self.vars(sc, "bool"))
        d -= 1
        o = [(3, lambda: "(%s %s %s)" % (r.choice(["<", ">", "=", "<=", ">="]), self.int(sc, d), self.int(sc, d))),
             (1, lambda: "(%s %s)" % (r.choice(["<", ">", "=", "<=", ">="]), " ".join(
                 "(T %s %s)" % (self.tag(), self.int(sc, d - 1)) for _ in range(r.randint(3, 4))))),
             (1, lambda: "(not %s)" % self.bool(sc, d)),
             (1, lambda: "(null? %s)" % self.list(sc, d)),
             (1, lambda: "(%s %s)" % (r.choice(["zero?", "even?", "odd?", "negative?", "positive?"]), self.int(sc, d))),
             (1, lambda: "(and %s)" % " ".join(self.bool(sc, d) for _ in range(r.randint(0, 3)))),
             (1, lambda: "(or %s)" % " ".join(self.bool(sc, d) for _ in range(r.randint(0, 3)))),
             (1, lambda: "(equal? %s %s)" % (self.list(sc, d), self.list(sc, d))),
             (1, lambda: "(eq? '%s '%s)" % (r.choice("ab"), r.choice("ab"))),
             (1, lambda: "(T %s %s)" % (self.tag(), self.bool(sc, d))),
             (0.7, lambda: self.generic(sc, "bool", d))]
        return self.pick(o)()

    # ---- lists of ints --------------------------------------------------------
    def list(self, sc, d=4):
        r = self.r
        vs = self.vars(sc, "list")
        if d <= 0 or self.small():
            if vs and r.random() < 0.6:
                return r.choice(vs)
            return r.choice(["'()", "(list %d)" % r.randint(0, 9), "'(%d %d)" % (r.randint(0, 9), r.randint(0, 9))])
        d -= 1
        o = [(2, lambda: "(list %s)" % " ".join(self.int(sc, d) for _ in range(r.randint(0, 4)))),
             (2, lambda: "(cons %s %s)" % (self.int(sc, d), self.list(sc, d))),
             (1, lambda: "(append %s)" % " ".join(self.list(sc, d) for _ in range(r.randint(0, 3)))),
             (1, lambda: "(reverse %s)" % self.list(sc, d)),
             (1.5, lambda: self.map(sc, d)),
             (1.5, lambda: self.qq(sc, d)),
             (1, lambda: "(vector->list %s)" % self.vec(sc, d)),
             (1, lambda: "(let ((l %s)) (if (pair? l) (cdr l) l))" % self.list(sc, d)),
             (1.5, lambda: self.generic(sc, "list", d)),
             (0.7, lambda: "((lambda r r) %s)" % " ".join(self.int(sc, d) for _ in range(r.randint(0, 3)))),
             (0.5, lambda: "(apply list %s)" % self.list(sc, d))]
        if vs:
            o.append((2, lambda: r.choice(vs)))
        if "cont" in self.feats:
            o.append((0.7, lambda: self.callcc(sc, "list", d)))
            ks = self.vars(sc, "k-list")
            if ks:
                o.append((1, lambda: "(%s %s)" % (r.choice(ks), self.list(sc, d))))
        if "exc" in self.feats:
            o.append((0.7, lambda: self.guard(sc, "list", d)))
        if "values" in self.feats:
            o.append((1, lambda: self.cwv(sc, "list", d)))
        return self.pick(o)()

    def map(self, sc, d):
        r = self.r
        p = self.vars(sc, "p1")
        f = r.choice(p) if p and r.random() < 0.5 else self.init(sc, "p1", d - 1)
        if r.random() < 0.3:
            n = r.randint(0, 3)
            l1 = "(list %s)" % " ".join(self.int(sc, d - 2) for _ in range(n))
            l2 = "(list %s)" % " ".join(self.int(sc, d - 2) for _ in range(n))
            a, b = self.fresh(2)
            s2 = self.ext(self.ext(sc, a, "int"), b, "int")
            return "(map (lambda (%s %s) %s) %s %s)" % (a, b, self.int(s2, d - 1), l1, l2)
        return "(map %s %s)" % (f, self.list(sc, d))

    def qq(self, sc, d):
        r = self.r
        parts = []
        for _ in range(r.randint(0, 4)):
            c = r.random()
            if c < 0.4:
                parts.append("," + self.int(sc, d))
            elif c < 0.7:
                parts.append(",@" + self.list(sc, d))
            else:
                parts.append(str(r.randint(0, 9)))
        if parts and parts[-1][0] != "," and r.random() < 0.3:
            return "`(%s . ,%s)" % (" ".join(parts), self.list(sc, d))
        return "`(%s)" % " ".join(parts)

    def vec(self, sc, d=3):
        r = self.r
        vs = self.vars(sc, "vec")
        if d <= 0 or self.small():
            return r.choice(vs) if vs else "(vector 1 2 3)"
        d -= 1
        o = [(2, lambda: "(vector %s)" % " ".join(self.int(sc, d) for _ in range(r.randint(0, 4)))),
             (1, lambda: "(list->vector %s)" % self.list(sc, d)),
             (1, lambda: "(make-vector %d %s)" % (r.randint(0, 4), self.int(sc, d))),
             (1, lambda: "(let ((v %s)) (if (> (vector-length v) 0) (vector-set! v 0 %s)) v)" % (
                 "(vector %s)" % " ".join(self.int(sc, d) for _ in range(r.randint(0, 3))), self.int(sc, d))),
             (0.7, lambda: self.generic(sc, "vec", d))]
        if vs:
            o.append((2, lambda: r.choice(vs)))
        return self.pick(o)()

    def any(self, sc, d=4):
        r = self.r
        return self.pick([(3, lambda: self.int(sc, d)), (2, lambda: self.list(sc, d)), (1, lambda: self.bool(sc, d)),
                          (1, lambda: self.vec(sc, d - 1)), (0.5, lambda: "'(a (b . %d) #\\c \"s%d\")" % (
                              r.randint(0, 9), r.randint(0, 9)))])()

    # ---- control ---------------------------------------------------------------
    def callcc(self, sc, t, d):
        k = "k%d" % self.nv
        self.nv += 1
        s2 = self.ext(sc, k, "k-" + t)
        return "(%s (lambda (%s) %s))" % ("call-with-current-continuation", k, self.seq(s2, t, d))

    def wind(self, sc, t, d):
        a, b = self.tag(), self.tag()
        ex = ""
        if self.r.random() < 0.15:
            ex = " " + self.stmt(sc, d - 2)
        return "(dynamic-wind (lambda () (T %s)%s) (lambda () %s) (lambda () (T %s)%s))" % (
            a, "", self.seq(sc, t, d), b, ex)

    def guard(self, sc, t, d):
        r = self.r
        e = "e%d" % self.nv
        self.nv += 1
        s2 = self.ext(sc, e, "exn")
        cl = []
        for _ in range(r.randint(0, 3)):
            c = r.choice(["(integer? %s)" % e, "(symbol? %s)" % e, "(%%%%error-object? %s)" % e, "(and (pair? %s) (not (%%%%error-object? %s)))" % (e, e),
                          "(and (integer? %s) (> %s 3))" % (e, e), "(memv %s '(a b 1 2 3))" % e,
                          "(begin (T %s) #f)" % self.tag()])
            if t == "int" and r.random() < 0.2:
                cl.append("((and (integer? %s) %s) => (lambda (q) (T q q)))" % (e, e))
            elif t == "int" and r.random() < 0.1:
                cl.append("((and (integer? %s) %s))" % (e, e))
            else:
                cl.append("(%s %s)" % (c, self.seq(s2, t, d)))
        if not cl or r.random() < 0.5:
            cl.append("(else %s)" % self.seq(s2, t, d))
        return "(guard (%s %s) %s)" % (e, " ".join(cl), self.seq(sc, t, d))

    def handler(self, sc, d):
        k = "k%d" % self.nv
        self.nv += 1
        h = "e%d" % self.nv
        s2 = self.ext(sc, k, "k-int")
        body = self.r.choice([
            "(%s (begin (T %s) (if (integer? %s) %s -1)))" % (k, self.tag(), h, h),
            "(begin (T %s) (raise (if (integer? %s) (- %s 1) %s)))" % (self.tag(), h, h, h),
            "(T %s 0)" % self.tag()])
        return ("(call-with-current-continuation (lambda (%s) (with-exception-handler (lambda (%s) %s) "
                "(lambda () %s))))" % (k, h, body, self.seq(s2, "int", d)))

    def vals(self, sc, n, d):
        r = self.r
        xs = " ".join(self.int(sc, d - 1) for _ in range(n))
        v = "(values %s)" % xs
        c = r.random()
        if c < 0.15:
            return "(apply values (list %s))" % xs
        if c < 0.3 and "cont" in self.feats:
            return "(call-with-current-continuation (lambda (kk) (kk %s)))" % xs
        if c < 0.4 and "cont" in self.feats:
            return "(dynamic-wind (lambda () (T %s)) (lambda () %s) (lambda () (T %s)))" % (self.tag(), v, self.tag())
        if c < 0.5:
            return "(if %s %s %s)" % (self.bool(sc, d - 2), v, v)
        if c < 0.6:
            return "(let ((q 1)) (T q) %s)" % v
        if c < 0.7 and "exc" in self.feats:
            return "(guard (ee (#t %s)) %s)" % (v, self.r.choice([v, "(raise 1)"]))
        return v

    def cwv(self, sc, t, d):
        r = self.r
        n = r.randint(0, 4)
        names = self.fresh(n)
        s2 = dict(sc)
        for v in names:
            s2[v] = "int"
        f = "(%s)" % " ".join(names)
        if r.random() < 0.3:
            rest = self.var("r")
            while rest in names:
                rest = self.var("r")
            k = r.randint(0, n)
            for v in names[k:]:
                s2.pop(v, None)
                if v in sc:
                    s2[v] = sc[v]
            s2[rest] = "list"
            f = "(%s . %s)" % (" ".join(names[:k]), rest) if k else rest
        nn = n if r.random() > self.err else n + r.choice([-1, 1])
        v = self.vals(sc, max(nn, 0), d)
        if r.random() < 0.5:
            return "(call-with-values (lambda () %s) (lambda %s %s))" % (v, f, self.seq(s2, t, d))
        return "(receive %s %s %s)" % (f, v, self.seq(s2, t, d))

    def promise(self, sc, d):
        r = self.r
        c = r.random()
        if c < 0.5:
            return "(delay %s)" % self.int(sc, d)
        if c < 0.75:
            p = "pr%d" % self.nv
            self.nv += 1
            return "(let ((%s (delay (T %s %s)))) (force %s) (force %s) %s)" % (p, self.tag(), self.int(sc, d), p, p, p)
        p, n = "pr%d" % self.nv, "n%d" % self.nv
        self.nv += 1
        return ("(letrec ((%s (delay (begin (set! %s (+ %s 1)) (if (> %s %d) (T %s %s) (force %s))))) (%s 0)) %s)"
                % (p, n, n, n, r.randint(0, 3), self.tag(), n, p, n, p))


PRELUDE = '''
(define T (lambda (tag . v) (display "<") (display tag) (display ">") (if (null? v) #f (car v))))
'''


def program(rng, feats, err=0.02, size=40, t=None):
    g = Gen(rng, feats, err, size)
    t = t or rng.choice(["int", "any", "list"])
    return g.expr({}, t, 7)
