"""E11: eq?, eqv? and equal? are coherent equivalences; lookups built on them."""
import itertools
from checks import common
from vlib.check import Case

INTS = ["0", "1", "-1", "7", "255", "-256", "1000000", "576460752303423487", "-576460752303423488", "(- 8 1)", "(+ 500000 500000)", "(quotient 7 7)"]
VAL = {"(- 8 1)": 7, "(+ 500000 500000)": 1000000, "(quotient 7 7)": 1}
CHARS = ["#\\a", "#\\A", "#\\0", "#\\space", "#\\x41", "#\\x3042", "#\\x1f600", "(integer->char 97)", "(string-ref \"xay\" 1)"]
CVAL = {"#\\a": 97, "#\\A": 65, "#\\0": 48, "#\\space": 32, "#\\x41": 65, "#\\x3042": 0x3042, "#\\x1f600": 0x1f600, "(integer->char 97)": 97, "(string-ref \"xay\" 1)": 97}
STRS = ["", "a", "A", "b", "ab", "aB", "a\\\\", "あ", "あい", "ab ", "aab", "abc", "abd", "x" * 40, "x" * 40 + "y"] + ["q" * k + c for k in (31, 63, 127, 254, 255, 511) for c in "ab"]
SYMS = ["a", "A", "b", "ab", "nil", "sym", "lambda", "..."] + ["q" * k + c for k in (31, 63, 127, 254, 255, 511) for c in "ab"]


class O:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v


def eqv(a, b):
    if a is b:
        return True
    return a.k == b.k and a.k in ("int", "char", "sym", "const") and a.v == b.v


def equal(a, b):
    while a.k == "pair" and b.k == "pair" and a is not b:
        if not equal(a.v[0], b.v[0]):
            return False
        a, b = a.v[1], b.v[1]
    if eqv(a, b):
        return True
    if a.k != b.k:
        return False
    if a.k == "str":
        return a.v == b.v
    if a.k == "vec":
        return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    return False


def depth_ok(o, seen=()):
    """finite and shallow enough, as a tree"""
    n = [0]

    def go(x, up, d):
        n[0] += 1
        if n[0] > 4000 or d > 300 or x in up:
            return False
        if x.k == "pair":
            return go(x.v[0], up | {x}, d + 1) and go(x.v[1], up | {x}, d + 1)
        if x.k == "vec":
            return all(go(y, up | {x}, d + 1) for y in x.v)
        return True
    return go(o, frozenset(), 0)


class G:
    """a pool of objects held in variables o0..; later ones refer to earlier ones"""

    def __init__(self, r):
        self.r, self.objs, self.forms = r, [], []

    def atom(self):
        r = self.r
        c = r.random()
        if c < 0.25:
            t = r.choice(INTS)
            return t, O("int", VAL[t] if t in VAL else int(t))
        if c < 0.42:
            t = r.choice(CHARS)
            return t, O("char", CVAL[t])
        if c < 0.66:
            s = r.choice(STRS)
            v = s.replace("\\\\", "\\")
            f = r.choice(['"%s"', '(string-copy "%s")', '(string-append "%s" "")'])
            if r.random() < 0.2 and "\\" not in s:
                return "(symbol->string (string->symbol \"%s\"))" % s, O("str", v)
            return f % s, O("str", v)
        if c < 0.82:
            s = r.choice(SYMS)
            return r.choice(["'%s", "(string->symbol \"%s\")"]) % s, O("sym", s)
        t = r.choice(["#t", "#f", "'()", "(eof)", "(lambda (x) x)", "car", "cdr", "(if #f #f)", "(current-output-port)", "(list 'quote)"])
        if t == "(lambda (x) x)":
            return t, O("proc", None)
        if t == "(list 'quote)":
            return t, O("pair", [O("sym", "quote"), O("const", "'()")])
        return t, O("const", t)

    def ref(self):
        r = self.r
        if self.objs and r.random() < 0.75:
            i = r.randrange(len(self.objs))
            return "o%d" % i, self.objs[i]
        return self.atom()

    def obj(self):
        r = self.r
        c = r.random()
        if c < 0.3 or not self.objs:
            return self.atom()
        if c < 0.38:
            return self.ref()
        if c < 0.58:
            a, b = self.ref(), self.ref()
            return "(cons %s %s)" % (a[0], b[0]), O("pair", [a[1], b[1]])
        if c < 0.78:
            es = [self.ref() for _ in range(r.randrange(5))]
            o = O("const", "'()")
            if r.random() < 0.25 and es:
                o = es[-1][1]
                for e in reversed(es[:-1]):
                    o = O("pair", [e[1], o])
                return "(apply list* (list %s))" % " ".join(e[0] for e in es), o
            for e in reversed(es):
                o = O("pair", [e[1], o])
            return "(list %s)" % " ".join(e[0] for e in es), o
        if c < 0.9:
            es = [self.ref() for _ in range(r.randrange(4))]
            return "(vector %s)" % " ".join(e[0] for e in es), O("vec", [e[1] for e in es])
        # rebuild an earlier object part by part: equal?, not eqv?
        i = r.randrange(len(self.objs))
        if r.random() < 0.5:
            return "(clone o%d)" % i, self.clone(self.objs[i])
        return "(copy-top o%d)" % i, self.top(self.objs[i])

    def clone(self, o):
        if o.k == "pair":
            return O("pair", [self.clone(o.v[0]), self.clone(o.v[1])])
        if o.k == "vec":
            return O("vec", [self.clone(x) for x in o.v])
        if o.k == "str":
            return O("str", o.v)
        return o

    def top(self, o):
        if o.k in ("pair", "vec"):
            return O(o.k, list(o.v))
        if o.k == "str":
            return O("str", o.v)
        return o

    def build(self, n):
        while len(self.objs) < n:
            t, o = self.obj()
            if not depth_ok(o):
                continue
            self.forms.append("(o%d %s)" % (len(self.objs), t))
            self.objs.append(o)

    def mutate(self):
        """a set-car!, set-cdr! or vector-set! that keeps everything finite"""
        r = self.r
        if not hasattr(self, "init"):
            # objects met through a literal or shared part may be constant: only top-level cons/list/vector are changed
            self.init = [i for i, f in enumerate(self.forms) if f.split(" ", 1)[1].startswith(("(cons", "(vector", "(list "))]
        for _ in range(10):
            if not self.init:
                return None
            i = r.choice(self.init)
            o = self.objs[i]
            if not o.v or o.k not in ("pair", "vec"):
                continue
            t, x = self.ref()
            k = r.randrange(len(o.v))
            old = o.v[k]
            o.v[k] = x
            if not all(depth_ok(y) for y in self.objs):
                o.v[k] = old
                continue
            if o.k == "pair":
                return "(%s o%d %s)" % (("set-car!", "set-cdr!")[k], i, t)
            return "(vector-set! o%d %d %s)" % (i, k, t)
        return None


PRE = r"""(use srfi-6)(use srfi-34)
(define (eof) (read-char (open-input-string "")))
(define (list* a . r) (if (null? r) a (cons a (apply list* r))))
(define (clone x) (cond ((pair? x) (cons (clone (car x)) (clone (cdr x)))) ((vector? x) (list->vector (map clone (vector->list x)))) ((string? x) (string-copy x)) (else x)))
(define (copy-top x) (cond ((pair? x) (cons (car x) (cdr x))) ((vector? x) (list->vector (vector->list x))) ((string? x) (string-copy x)) (else x)))
(define (bit f a b) (let ((r (f a b))) (cond ((eq? r #t) "1") ((eq? r #f) "0") (else "?"))))
(define (matrix f l) (for-each (lambda (a) (for-each (lambda (b) (display (bit f a b))) l) (display "|")) l))
(define (index l x) (let loop ((l l) (i 0)) (cond ((not (pair? l)) #f) ((eq? l x) i) (else (loop (cdr l) (+ i 1))))))
(define (aindex l x) (if x (let loop ((l l) (i 0)) (if (eq? (car l) x) i (loop (cdr l) (+ i 1)))) #f))
"""


def rows(out):
    ms = out.split("\n")
    return [[x for x in m.split("|") if x] for m in ms if m]


def matrix_case(r):
    g = G(r)
    n = r.randint(4, 11)
    g.build(n)
    body, exps = [], []
    names = " ".join("o%d" % i for i in range(n))
    stages = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if stages:
            m = [x for x in (g.mutate() for _ in range(r.randint(1, 3))) if x]
            body += m
        body.append("(matrix eq? (list %s)) (newline) (matrix eqv? (list %s)) (newline) (matrix equal? (list %s)) (newline)" % ((names,) * 3))
        o = g.objs
        stages.append(([[None if o[i].k in ("int", "char") and o[j].k == o[i].k and eqv(o[i], o[j]) else ambiguous(o[i], o[j], eqv(o[i], o[j])) for j in range(n)] for i in range(n)],
                       [[ambiguous(o[i], o[j], eqv(o[i], o[j])) for j in range(n)] for i in range(n)],
                       [[equal(o[i], o[j]) for j in range(n)] for i in range(n)]))
    return "(let* (%s) %s #t)" % (" ".join(g.forms), " ".join(body)), stages


def ambiguous(a, b, v):
    """whether two empty strings or vectors are the same object is unspecified"""
    if a is not b and a.k == b.k and a.k in ("str", "vec") and not a.v and not b.v:
        return None
    return v


def judge(stages, n):
    def f(res):
        if res.kind != "ok":
            return "expected a value"
        ms = rows(res.out)
        if len(ms) != 3 * len(stages):
            return "expected %d matrices" % (3 * len(stages))
        for s, st in enumerate(stages):
            obs = ms[3 * s:3 * s + 3]
            for w in range(3):
                m = obs[w]
                if len(m) != n or any(len(x) != n or x.strip("01") for x in m):
                    return "malformed matrix (a value other than #t or #f?)"
                what = ("eq?", "eqv?", "equal?")[w]
                for i in range(n):
                    if m[i][i] != "1":
                        # an object is itself (numbers and characters under eq? are unspecified)
                        if st[w][i][i] is not None:
                            return "stage %d: (%s o%d o%d) is false" % (s, what, i, i)
                    for j in range(n):
                        if m[i][j] != m[j][i]:
                            return "stage %d: %s is not symmetric on o%d o%d" % (s, what, i, j)
                        if w and obs[w - 1][i][j] == "1" and m[i][j] != "1":
                            return "stage %d: o%d o%d are equal in a finer predicate but not in %s" % (s, i, j, what)
                        e = st[w][i][j]
                        if e is not None and (m[i][j] == "1") != e:
                            return "stage %d: (%s o%d o%d): expected %s" % (s, what, i, j, e)
        return None
    return f


def lookup_case(r):
    g = G(r)
    g.build(r.randint(3, 8))
    k = r.randrange(7)
    n = len(g.objs)
    ids = [r.randrange(n) for _ in range(r.randint(0, 9))]
    t, key = (("o%d" % (i := r.randrange(n)), g.objs[i]) if r.random() < 0.7 else g.atom())
    tail = r.random() < 0.12
    lets = " ".join(g.forms)
    name = ("memv", "member", "assv", "assoc", "memq", "assq", "member")[k]
    cmp = equal if name in ("member", "assoc") else eqv
    if name in ("memq", "assq") and (key.k in ("int", "char")):
        name = name[:3] + "v"
    amb = cmp is eqv and key.k in ("str", "vec") and not key.v
    hits = [p for p, i in enumerate(ids) if cmp(key, g.objs[i])]
    if amb:
        return None
    if name.startswith("m"):
        l = "(append (list %s) %s)" % (" ".join("o%d" % i for i in ids), "'z" if tail else "'()")
        body = "(let* (%s (l %s)) (index l (%s %s l)))" % (lets, l, name, t)
        want = str(hits[0]) if hits else ("err" if tail else "#f")
    else:
        es = ["(cons o%d %d)" % (i, p) for p, i in enumerate(ids)]
        bad = len(es)
        if r.random() < 0.12:
            bad = r.randint(0, len(es))
            es.insert(bad, r.choice(["'()", "5", "'x", '"s"', "(vector 1)"]))
        l = "(append (list %s) %s)" % (" ".join(es), "'z" if tail else "'()")
        body = "(let* (%s (l %s) (x (%s %s l))) (and x (list (if (memq x l) 'same 'other) (cdr x))))" % (lets, l, name, t)
        if hits and hits[0] < bad:
            want = "(same %d)" % hits[0]
        elif bad < len(ids) or len(es) > len(ids) or tail:
            want = "err"
        else:
            want = "#f"
    return body, want


def case_case(r):
    """case: first clause whose data contain an eqv? datum"""
    atoms = [("%d" % i, O("int", i)) for i in (0, 1, -1, 7, 255, 1000000)] + [("#\\a", O("char", 97)), ("#\\A", O("char", 65)), ("#\\x3042", O("char", 0x3042)),
             ("a", O("sym", "a")), ("b", O("sym", "b")), ("else", O("sym", "else")), ("=>", O("sym", "=>")), ("()", O("const", "'()")), ("#t", O("const", "#t")), ("#f", O("const", "#f")),
             ('"a"', O("str", "a")), ("(a)", O("pair", [O("sym", "a"), O("const", "'()")]))]
    t, key = r.choice(atoms)
    cl, want = [], None
    for c in range(r.randint(1, 5)):
        ds = [r.choice(atoms) for _ in range(r.randint(1, 4))]
        cl.append("((%s) (display %d) 'c%d)" % (" ".join(d[0] for d in ds), c, c))
        if want is None and key.k not in ("str", "pair") and any(eqv(key, d[1]) for d in ds):
            want = "c%d" % c
    els = r.random() < 0.8
    if els:
        cl.append("(else 'no)")
    elif want is None:
        return None
    return "(case '%s %s)" % (t, " ".join(cl)), want or "no"


def gen(r, n):
    out = []
    while len(out) < n:
        c = r.random()
        if c < 0.55:
            b, st = matrix_case(r)
            out.append(("m", b, st))
        elif c < 0.85:
            x = lookup_case(r)
            if x:
                out.append(("l", x[0], x[1]))
        else:
            x = case_case(r)
            if x:
                out.append(("c", x[0], x[1]))
        for _ in range(3):
            out.append(("c",) + near(r))
    return out


def near(r):
    """two separately built structures, the same or different in one place: equal? tells which"""
    def leaf():
        c = r.random()
        if c < 0.3:
            return r.choice(["1", "0", "-1", "2", "536870911", "-536870912", "99999999999"])
        if c < 0.45:
            return "'" + r.choice(["a", "b", "abc", "A"])
        if c < 0.6:
            return r.choice(['"a"', '"b"', '""', '"abc"', '"\u3042"'])
        if c < 0.75:
            return r.choice(["#\\a", "#\\b", "#\\A", "#\\0"])
        return r.choice(["'()", "#t", "#f", "(vector)", "car", "cdr"])

    def build(d):
        c = r.random()
        if d == 0 or c < 0.15:
            return leaf()
        if c < 0.45:
            return ["cons", build(d - 1), build(d - 1)]
        if c < 0.7:
            return ["vector"] + [build(d - 1) for _ in range(r.randint(1, 5))]
        return ["list*"] + [build(d - 1) for _ in range(r.randint(2, 6))]

    def places(t, path=()):
        yield path
        if isinstance(t, list):
            for i in range(1, len(t)):
                yield from places(t[i], path + (i,))

    def put(t, path, x):
        if not path:
            return x
        t = list(t)
        t[path[0]] = put(t[path[0]], path[1:], x)
        return t

    def get(t, path):
        for i in path:
            t = t[i]
        return t

    def value(t):
        if not isinstance(t, list):
            return ("v",) if t == "(vector)" else t
        k = [value(x) for x in t[1:]]
        if t[0] == "vector":
            return ("v",) + tuple(k)
        x = k[-1]
        for y in reversed(k[:-1]):
            x = ("p", y, x)
        return x

    def text(t):
        return t if not isinstance(t, list) else "(%s %s)" % (t[0], " ".join(text(x) for x in t[1:]))
    a = build(r.randint(1, 5))
    ps = [p for p in places(a) if p]
    b = a
    if ps and r.random() < 0.8:
        p = r.choice(ps)
        o = get(a, p)
        c = r.random()
        if isinstance(o, list) and c < 0.3:
            n = build(1)
        elif isinstance(o, list) and c < 0.6 and o[0] == "vector":
            n = o + [leaf()] if r.random() < 0.5 else ["list*"] + o[1:] + ["'()"]
        else:
            n = leaf()
        b = put(a, p, n)
    same = value(a) == value(b)
    w = "#t" if same else "#f"
    return "(let ((a %s) (b %s)) (list (equal? a b) (equal? b a) (equal? (list 1 a) (list 1 b)) (equal? (cons 1 a) (cons 1 b)) (equal? (vector a 1) (vector b 1)) (if (member a (list 'none b)) #t #f)))" % (text(a), text(b)), "(%s)" % " ".join([w] * 6)


FIXED = r"""
(equal? (cons 1 (vector 1)) (cons 1 (vector 2))) ==> #f
(equal? (cons 1 (vector 1)) (cons 1 (vector 1))) ==> #t
(equal? (cons 1 "ab") (cons 1 "ab")) ==> #t
(equal? (cons 1 "ab") (cons 1 "ac")) ==> #f
(eqv? 2 2) ==> #t
(eqv? 100000000 100000000) ==> #t
(eqv? '() '()) ==> #t
(eqv? (cons 1 2) (cons 1 2)) ==> #f
(eqv? (lambda () 1) (lambda () 2)) ==> #f
(eqv? #f '()) ==> #f
(let ((p (lambda (x) x))) (eqv? p p)) ==> #t
(equal? 'a 'a) ==> #t
(equal? '(a (b) c) '(a (b) c)) ==> #t
(equal? (make-vector 5 'a) (make-vector 5 'a)) ==> #t
(equal? '(a . b) '(a . c)) ==> #f
(equal? '(a b) '(a b . c)) ==> #f
(equal? '(a b . c) '(a b . c)) ==> #t
(equal? '(a b) '(a b c)) ==> #f
(equal? '(a b c) '(a b)) ==> #f
(equal? "abc" 'abc) ==> #f
(equal? '(1 2 3) '#(1 2 3)) ==> #f
(equal? "" "") ==> #t
(equal? (vector) '#()) ==> #t
(equal? '(()) '()) ==> #f
(equal? '#(1 "x" #\a) (vector 1 (string #\x) #\a)) ==> #t
(eq? 'abc 'ABC) ==> #f
(eq? (string->symbol "a b") (string->symbol "a b")) ==> #t
(eq? "" 'a) ==> #f
(eqv? 1 #\x1) ==> #f
(equal? 97 #\a) ==> #f
(let ((l (iota* 100000)) (m (iota* 100000))) (list (equal? l m) (begin (set-car! (list-tail m 99999) 'x) (equal? l m)))) ==> (#t #f)
(let ((l (vector->list (make-vector 70000 "ab")))) (list (equal? l (map string-copy l)) (member (list "q") l))) ==> (#t #f)
(eq?) ==> error
(eq? 1) ==> error
(eqv? 1 2 3) ==> error
(equal? 1) ==> error
(memq 'a 'b) ==> error
(memq 'a '(a . b)) ==> (a . b)
(memq 'c '(a . b)) ==> error
(memv 101 '(100 101 102)) ==> (101 102)
(memq (list 'a) '(b (a) c)) ==> #f
(member (list 'a) '(b (a) c)) ==> ((a) c)
(assq (list 'a) '(((a)) ((b)) ((c)))) ==> #f
(assoc (list 'a) '(((a)) ((b)) ((c)))) ==> ((a))
(assv 5 '((2 3) (5 7) (11 13))) ==> (5 7)
(assq 'c '((a 1) b (c 2))) ==> error
(assq 'a '((a 1) b (c 2))) ==> (a 1)
(assq 'z '((a 1) . 5)) ==> error
(assoc "x" '()) ==> #f
"""


def run(ctx):
    ctx.rule = ("all pairs of pools of up to 11 objects built from one another (shared parts, clones, mutation between rounds) under each predicate, and memq..assoc and case over them; "
                "coherence judged on the observed matrices, results against the definition; distinct by program text")
    pre = PRE + "(define (iota* n) (let loop ((i n) (a '())) (if (= i 0) a (loop (- i 1) (cons i a)))))"
    for lay in ("compact", "fatty"):
        ctx.run("san-" + lay, common.fixed(FIXED), pre)
    raw = common.par(gen, ctx.n(12000, 200000), "%s/%d" % (ctx.prop, ctx.seed))
    cases = []
    for k, b, e in raw:
        if k == "m":
            cases.append(Case(b, judge(e, len(e[0][0])), "matrix"))
        else:
            cases.append(Case(b, (lambda want: lambda res: None if (res.kind == "err" if want == "err" else res.kind == "ok" and res.text == want) else "expected %s" % want)(e), "lookup" if k == "l" else "case"))
    h = len(cases) // 2
    ctx.run("san-compact", cases[:h], pre)
    ctx.run("san-fatty", cases[h:], pre)
    ctx.run("opt-fatty", cases[:h], pre)
    ctx.run("san-fatty", cases[:h // 4], pre, env={"VF_GC_INTERVAL": "5", "VF_GC_SEED": ctx.seed})
    ctx.minimum = 10000
