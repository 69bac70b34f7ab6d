"""E05: quasiquotation."""
from checks import common
from vlib.check import Case

FIXED = r"""
`(list ,(+ 1 2) 4)
(let ((name 'a)) `(list ,name ',name))
`(a ,(+ 1 2) ,@(map abs '(4 -5 6)) b)
`((foo ,(- 10 3)) ,@(cdr '(c)) . ,(car '(cons)))
`#(10 5 ,(abs -2) ,@(map abs '(4 -3)) 8)
`(a `(b ,(c ,(+ 1 2))))
`(a `(b ,(foo ,(+ 1 3) d) e) f)
(let ((name1 'x) (name2 'y)) `(a `(b ,,name1 ,',name2 d) e))
(quasiquote (list (unquote (+ 1 2)) 4))
'(quasiquote (list (unquote (+ 1 2)) 4))
`,(+ 1 2)
`,@'(1 2) ==> error
`(,@'())
`(,@'() . 5)
`(1 ,@'() . 5)
`(1 ,@'(2 3))
`(,@'(1 2) ,@'(3 4))
`(,@'(1 2) . ,'x)
`(1 . ,(list 2 3))
`(1 ,@5)
`(1 ,@'(2 . 3))
`(,@5)
`(,@5 1) ==> error
`(,@'(1 . 2) 3) ==> error
`(1 ,@'(2 . 3) 4) ==> error
`#(,@'(1 2))
`#(,@'())
`#()
`#(1 ,@'(2 . 3)) ==> error
`#(,@5) ==> error
`()
`5
`"s"
`#\a
`a
`(1 . 2)
`((1 . ,(+ 1 1)) . 3)
`(1 `(2 ,(3 ,@(list 4 5))))
`(1 `(2 ,@(3 ,@(list 4 5))))
`(1 `(2 ,(3 ,(4 ,5))))
`(1 ```,,@,,@(list (+ 1 2)) 4)
`(1 `,@(,@(list 1 2)))
`(unquote (+ 1 2))
`(1 unquote (+ 1 2))
`(1 unquote-splicing (list 2 3)) ==> error
`(quasiquote (unquote (unquote (+ 1 2))))
`(1 ,@(list 2 3) . ,(+ 4 0))
(let ((l (list 1 2 3))) (let ((r `(0 ,@l))) (set-cdr! r '()) l))
(let ((l (list 1 2 3))) `(,@l 4) l)
(let ((l (list 1 2 3))) `(,@l . 4) l)
(let ((l (list 1 2 3))) `#(,@l 4) l)
(let ((l (list 1 2 3)) (m (list 4 5))) (list `(,@l ,@m ,@l) l m))
(let ((f (lambda (x) `(a ,x b ,@x c)))) (list (f '(1)) (f '(2 3)) (f '())))
(let ((f (lambda (x) `(a (b (c ,x)) d)))) (list (f 1) (f 2)))
(let ((f (lambda (x) `#(a ,x #(b ,@x))))) (list (f '(1)) (f '(2 3))))
(let ((f (lambda (x) `((a ,@x) . b)))) (list (f '(1)) (f '(2 3)) (f '())))
(let ((unquote list)) `(1 ,(+ 1 2)))
(let ((x 5)) `(x ,x ',x `(,x ,,x)))
`(,(T 1 1) ,@(T 2 '(2)) #(,(T 3 3)) (,(T 4 4) . ,(T 5 5)))
`(1 2 . (3 ,(+ 2 2)))
`((,@'(1)) (,@'()) ,@'() ((,@'(2 3))))
""".strip()


class Q:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def expr(self):
        r = self.r
        self.n += 1
        k = str(self.n)
        return r.choice(["x", "y", "(T %s x)" % k, "(T %s y)" % k, "(+ x %s)" % k, "(list x y)", "'%s" % r.choice("abc"),
                         "lst", "(T %s lst)" % k, "`(q ,x)", "\"s\"", "vec"])

    def lexpr(self):
        r = self.r
        self.n += 1
        k = str(self.n)
        return r.choice(["lst", "emp", "(T %s lst)" % k, "(T %s emp)" % k, "(list x %s)" % k, "'(p q)", "(cons 1 lst)", "(map - lst)",
                         "`(,x ,@lst)"])

    def tmpl(self, lev, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.14:
            return r.choice(["1", "a", "b", "\"t\"", "#\\c", "#t", "()", "-5", "x"])
        if c < 0.36:
            return self.unq(lev, d)
        if c < 0.42 and lev < 4:
            return self.form("quasiquote", "`", self.tmpl(lev + 1, d - 1))
        if c < 0.56:
            return "#(%s)" % " ".join(self.items(lev, d, r.randint(0, 4)))
        if c < 0.60:
            return "'" + self.tmpl(lev, d - 1)
        return self.list(lev, d)

    def form(self, long, short, x):
        return "(%s %s)" % (long, x) if self.r.random() < 0.15 else short + x

    def unq(self, lev, d):
        if lev == 1:
            return self.form("unquote", ",", self.expr())
        return self.form("unquote", ",", self.inner(lev - 1, d - 1))

    def inner(self, lev, d):
        # the operand of an unquote at a deeper level may itself be a splice (of one element or several)
        if self.r.random() < 0.3:
            if lev == 1:
                return self.form("unquote-splicing", ",@", self.lexpr())
            return self.form("unquote-splicing", ",@", self.inner(lev - 1, d - 1))
        return self.tmpl(lev, d)

    def items(self, lev, d, n):
        out = []
        for _ in range(n):
            c = self.r.random()
            if c < 0.25:
                if lev == 1:
                    out.append(self.form("unquote-splicing", ",@", self.lexpr()))
                else:
                    out.append(self.form("unquote-splicing", ",@", self.inner(lev - 1, d - 1)))
            else:
                out.append(self.tmpl(lev, d - 1))
        return out

    def list(self, lev, d):
        r = self.r
        xs = self.items(lev, d, r.randint(0, 5))
        if xs and r.random() < 0.25:
            t = r.choice([self.unq(lev, d), "z", "5", self.tmpl(lev, d - 1)])
            return "(%s . %s)" % (" ".join(xs), t)
        return "(%s)" % " ".join(xs)


WRAP = ["(let ((x 10) (y 'why) (lst (list 1 2 3)) (emp '()) (vec (vector 7 8))) %s)"]


def gen(rng, n):
    out = []
    while len(out) < n:
        q = Q(rng)
        t = "`" + q.tmpl(1, rng.randint(2, 5))
        if len(t) > 1500 or "," not in t:
            continue
        form = rng.random()
        if form < 0.4:
            b = WRAP[0] % t
        elif form < 0.7:
            # evaluated twice with different values: the template itself must not change
            b = ("(let ((f (lambda (x y lst emp vec) %s))) (let* ((a (f 10 'why (list 1 2 3) '() (vector 7 8))) (b (f 20 'zed (list 4) '() (vector 9)))"
                 " (c (f 10 'why (list 1 2 3) '() (vector 7 8)))) (list a b c)))" % t)
        else:
            # operands stay as they were
            b = WRAP[0] % ("(let ((r %s)) (list r x y lst emp vec))" % t)
        r = common.expect(b)
        if r is None or "#<" in r[1]:
            continue
        out.append((b,) + tuple(r))
    return out


def run(ctx):
    ctx.rule = ("random quasiquote templates (nested levels, splicing, dotted tails, vectors, long and short forms) "
                "with traced unquoted expressions, evaluated repeatedly and together with the operands; result and "
                "evaluation trace compared with the reference interpreter")
    ctx.run("san-compact", common.fixed(FIXED), common.PRE)
    cs = common.par(gen, ctx.n(8000, 150000), "%s/%d" % (ctx.prop, ctx.seed))
    cases = [Case(b, (k, v if k != "err" else None, o), "template") for b, k, v, o in cs]
    ctx.run("san-compact", cases, common.PRE)
    ctx.run("san-compact", cases[:ctx.n(1500, 20000)], common.PRE, env={"VF_GC_INTERVAL": "3", "VF_GC_SEED": ctx.seed})
    ctx.minimum = 2000
