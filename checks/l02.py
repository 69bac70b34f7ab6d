"""L02: vector operations against their definitions (R5RS 6.3.6, SRFI-43)."""
from checks import common


class V:
    """a vector"""

    def __init__(self, es):
        self.es = list(es)


def show(v):
    if v is True:
        return "#t"
    if v is False:
        return "#f"
    if isinstance(v, (list, tuple)):
        return "(%s)" % " ".join(show(x) for x in v)
    if isinstance(v, V):
        return "#(%s)" % " ".join(show(x) for x in v.es)
    return str(v)


def lit(v):
    """an expression that makes a new value"""
    if isinstance(v, list):
        return "(list %s)" % " ".join(lit(x) for x in v) if v else "'()"
    if isinstance(v, V):
        return "(vector %s)" % " ".join(lit(x) for x in v.es)
    if isinstance(v, str):
        return v if v[0] == '"' or v[0] == "#" else "'" + v
    return show(v)


PREDS = [("odd?", lambda x: x % 2 == 1), ("even?", lambda x: x % 2 == 0), ("(lambda (x) (> x 3))", lambda x: x > 3), ("zero?", lambda x: x == 0),
         ("(lambda (x) #t)", lambda x: True), ("(lambda (x) #f)", lambda x: False), ("(lambda (x) (= x 5))", lambda x: x == 5)]
EQS = [("=", lambda a, b: a == b), ("eqv?", lambda a, b: a == b), ("equal?", lambda a, b: a == b),
       ("(lambda (a b) (= (modulo a 3) (modulo b 3)))", lambda a, b: a % 3 == b % 3)]


class G:
    def __init__(self, r):
        self.r = r

    def n(self, lo=0, hi=7):
        r = self.r
        return r.randint(lo, hi) if r.random() < 0.95 else r.randint(lo, 60)

    def ints(self, lo=0, hi=7):
        r = self.r
        m = r.choice([3, 6, 20])
        return [r.randint(0, m) for _ in range(self.n(lo, hi))]

    def val(self):
        return self.r.choice([1, 2, 3, -7, "a", "b", '"s"', [], [1], ["a", [2]], True, False, V([1, "q"]), "#\\x"])

    def vals(self, lo=0, hi=6):
        return [self.val() for _ in range(self.n(lo, hi))]

    def vecs(self, k):
        """k vectors of numbers, and the length they share"""
        r = self.r
        m = r.choice([3, 6, 20])
        vs = [self.ints(0, 6) for _ in range(k)]
        return vs, min(len(x) for x in vs)

    def range(self, n, need=True):
        """optional start and end arguments within 0..n (start < n): text, start, end"""
        r = self.r
        if n == 0:
            return "", 0, 0
        z = r.random()
        if z < 0.25:
            return "", 0, n
        s = r.randrange(n)
        if z < 0.55:
            return " %d" % s, s, n
        e = r.randint(s, n)
        return " %d %d" % (s, e), s, e

    def badrange(self, n):
        r = self.r
        return r.choice([" -1", " %d" % (n + 1), " 0 %d" % (n + 1), " %d %d" % (n + 1, n + 2), " 1 0", " 'a", " 0 'b", " 0 -1", " -1 0", " \"0\"", " 0 %d 0 0" % n, " 10000000000", " 0 10000000000"])


OPS = {}


def op(*names):
    def f(fn):
        for n in names:
            OPS[n] = fn
        return fn
    return f


@op("vector", "make-vector", "vector-length", "vector-ref", "vector-set!", "vector?", "vector-fill!/core", "vector->list/core", "list->vector/core")
def _(g, nm):
    r = g.r
    a = g.vals()
    v = V(a)
    n = len(a)
    bad = r.random() < 0.15
    if nm == "vector":
        return lit(v), v, []
    if nm == "make-vector":
        k = g.n(0, 9)
        x = g.val()
        if bad:
            return "(make-vector %s)" % r.choice(["-1", "'a", "-1 0", "#f 1", "2 3 4", ""]), "err", []
        if r.random() < 0.2:
            return "(vector-length (make-vector %d))" % k, k, []
        return "(let ((v (make-vector %d %s))) (list v (vector-length v)))" % (k, lit(x)), [V([x] * k), k], []
    if nm == "vector-length":
        if bad:
            return "(vector-length %s)" % r.choice(["'(1 2)", "\"ab\"", "5", "", "v v"]), "err", [("v", v)]
        return "(vector-length v)", n, [("v", v)]
    if nm == "vector-ref":
        if bad or not n:
            return "(vector-ref v %s)" % r.choice(["-1", str(n), str(n + 1), "'a", "#f", "", "0 0", "1000000000000", "-1000000000000", "4294967296", "-4294967296", "576460752303423487"]), "err", [("v", v)]
        i = r.randrange(n)
        return "(vector-ref v %d)" % i, a[i], [("v", v)]
    if nm == "vector-set!":
        if bad or not n:
            return "(vector-set! v %s)" % r.choice(["-1 0", "%d 0" % n, "%d 0" % (n + 1), "'a 0", "#f 0", "0", "0 0 0", "1000000000000 0", "4294967296 0"]), "err", [("v", v)]
        i = r.randrange(n)
        x = g.val()
        b = list(a)
        b[i] = x
        return "(begin (vector-set! v %d %s) #t)" % (i, lit(x)), True, [("v", None, lit(v), V(b))]
    if nm == "vector?":
        x = r.choice(["v", "'(1)", "\"a\"", "car", "'()", "(cons v v)", "1", "(vector)"])
        return "(vector? %s)" % x, x in ("v", "(vector)"), [("v", v)]
    if nm == "vector-fill!/core":
        x = g.val()
        return "(begin (vector-fill! v %s) #t)" % lit(x), True, [("v", None, lit(v), V([x] * n))]
    if nm == "vector->list/core":
        if bad:
            return "(vector->list %s)" % r.choice(["'(1)", "1", "\"a\"", "'()"]), "err", []
        return "(vector->list v)", a, [("v", v)]
    if bad:
        return "(list->vector %s)" % r.choice(["'(1 . 2)", "1", "#\\a", "v"]), "err", [("v", v)]
    return "(list->vector l)", v, [("l", a)]


@op("vector-unfold", "vector-unfold-right")
def _(g, nm):
    r = g.r
    k = g.n(0, 8)
    z = r.randrange(4)
    right = nm.endswith("right")
    order = list(range(k))
    if right:
        order.reverse()
    if r.random() < 0.1:
        return "(%s %s)" % (nm, r.choice(["5 5", "(lambda (i) i) -1", "(lambda (i) i) 'a", "(lambda (i) i) 3 0", "car"])), "err", []
    res = [None] * k
    if z == 0:
        for i in order:
            res[i] = i * 3
        return "(let ((v (%s (lambda (i) (set! log (cons i log)) (* 3 i)) %d))) (list v (reverse log)))" % (nm, k), [V(res), order], []
    if z == 1:
        s = r.randint(-3, 9)
        x = s
        for i in order:
            res[i] = [i, x]
            x = (x * 2 + i) % 9973
        return "(%s (lambda (i x) (values (list i x) (modulo (+ i (* 2 x)) 9973))) %d %d)" % (nm, k, s), V(res), []
    if z == 2:
        s, t = r.randint(-3, 9), r.randint(0, 5)
        x, y = s, t
        for i in order:
            res[i] = x - y
            x, y = y, x + i
        return "(%s (lambda (i x y) (values (- x y) y (+ x i))) %d %d %d)" % (nm, k, s, t), V(res), []
    x, y, w = 1, 2, 3
    for i in order:
        res[i] = [x, y, w]
        x, y, w = y, w, x + i
    return "(%s (lambda (i x y w) (values (list x y w) y w (+ x i))) %d 1 2 3)" % (nm, k), V(res), []


@op("vector-copy", "vector-reverse-copy", "vector->list", "reverse-vector->list")
def _(g, nm):
    r = g.r
    a = g.vals()
    n = len(a)
    v = V(a)
    if r.random() < 0.12:
        t = g.badrange(n)
        if nm == "vector-copy" and (t.startswith(" 0 ") and t[3:].isdigit()):
            t = " -1"
        return "(%s v%s)" % (nm, t), "err", [("v", v)]
    if r.random() < 0.04:
        return "(%s %s)" % (nm, r.choice(["'(1)", "\"abc\"", "", "7"])), "err", []
    if nm == "vector-copy" and n and r.random() < 0.35:
        s = r.randrange(n)
        e = r.randint(s, n + 5)
        x = g.val()
        b = a[s:min(e, n)]
        return "(vector-copy v %d %d %s)" % (s, e, lit(x)), V(b + [x] * (e - s - len(b))), [("v", v)]
    t, s, e = g.range(n)
    b = a[s:e]
    if nm.startswith("reverse") or "reverse" in nm:
        b.reverse()
    if nm.endswith("list"):
        return "(%s v%s)" % (nm, t), b, [("v", v)]
    if b and r.random() < 0.4:
        # the copy is a different vector
        return "(let ((c (%s v%s))) (vector-set! c 0 'new) (list c (eq? c v)))" % (nm, t), [V(["new"] + b[1:]), False], [("v", v)]
    return "(%s v%s)" % (nm, t), V(b), [("v", v)]


@op("vector-append", "vector-concatenate")
def _(g, nm):
    r = g.r
    k = r.randint(0, 4)
    vs = [g.vals(0, 4) for _ in range(k)]
    args = [("v%d" % i, V(x)) for i, x in enumerate(vs)]
    names = [x[0] for x in args]
    if k and r.random() < 0.2:
        names.append(names[0])
        vs.append(vs[0])
    if r.random() < 0.08:
        names.insert(r.randint(0, len(names)), r.choice(["'(1)", "1", "\"a\"", "'()"]))
        return ("(vector-append %s)" if nm == "vector-append" else "(vector-concatenate (list %s))") % " ".join(names), "err", args
    e = ("(vector-append %s)" if nm == "vector-append" else "(vector-concatenate (list %s))") % " ".join(names)
    tot = sum(vs, [])
    if tot and r.random() < 0.3:
        return "(let ((c %s)) (vector-set! c 0 'new) c)" % e, V(["new"] + tot[1:]), args
    return e, V(tot), args


@op("vector-empty?", "vector=")
def _(g, nm):
    r = g.r
    a = g.ints(0, 4)
    if nm == "vector-empty?":
        if r.random() < 0.1:
            return "(vector-empty? %s)" % r.choice(["'()", "\"\"", "0"]), "err", []
        return "(vector-empty? v)", not a, [("v", V(a))]
    k = r.randint(0, 4)
    t, f = r.choice(EQS)
    vs = []
    for i in range(k):
        b = list(a)
        z = r.random()
        if z < 0.2 and b:
            b[r.randrange(len(b))] += r.choice([1, 3])
        elif z < 0.27:
            b.append(1)
        elif z < 0.34 and b:
            b.pop()
        vs.append(b)
    ok = all(len(x) == len(y) and all(f(p, q) for p, q in zip(x, y)) for x, y in zip(vs, vs[1:]))
    args = [("v%d" % i, V(x)) for i, x in enumerate(vs)]
    return "(vector= %s%s)" % (t, "".join(" " + x[0] for x in args)), ok, args


def logged(k, body="i", idx=True):
    xs = ["x%d" % i for i in range(k)]
    return "(lambda (%s%s) (set! log (cons (list %s%s) log)) %s)" % ("i " if idx else "", " ".join(xs), "i " if idx else "", " ".join(xs), body)


@op("vector-fold", "vector-fold-right", "vector-for-each", "vector-map", "vector-map!", "vector-count")
def _(g, nm):
    r = g.r
    k = r.choice([1, 1, 2, 3])
    vs, n = g.vecs(k)
    args = [("v%d" % i, V(x)) for i, x in enumerate(vs)]
    vn = " ".join(x[0] for x in args)
    xs = " ".join("x%d" % i for i in range(k))
    cols = [[i] + [v[i] for v in vs] for i in range(n)]
    if r.random() < 0.07:
        bad = r.choice(["'(1 2)", "\"ab\"", "7", "#f"])
        if nm.startswith("vector-fold"):
            return "(%s %s)" % (nm, r.choice(["5 0 v0", "list 0 " + bad, "list 0", "list 0 v0 " + bad])), "err", args
        return "(%s %s)" % (nm, r.choice(["5 v0", "list " + bad, "list", "list v0 " + bad])), "err", args
    if nm.startswith("vector-fold"):
        acc = []
        for c in (cols if nm == "vector-fold" else cols[::-1]):
            acc = [c[0], acc] + c[1:]
        return "(%s list '() %s)" % (nm, vn), acc, args
    if nm == "vector-for-each":
        return "(begin (vector-for-each %s %s) (reverse log))" % (logged(k), vn), cols, args
    if nm == "vector-map":
        # the order of the calls is not specified
        return "(let ((w (vector-map (lambda (i %s) (set! log (cons i log)) (list i %s)) %s))) (list w (apply + log) (length log)))" % (xs, xs, vn), \
            [V(cols), sum(range(n)), n], args
    if nm == "vector-map!":
        new = cols + vs[0][n:]
        return "(begin (vector-map! (lambda (i %s) (list i %s)) %s) #t)" % (xs, xs, vn), True, [("v0", None, lit(V(vs[0])), V(new))] + args[1:]
    m = r.choice([2, 3])
    return "(let ((c (vector-count (lambda (i %s) (set! log (cons (list i %s) log)) (= 0 (modulo (+ i %s) %d))) %s))) (list c (reverse log)))" % (xs, xs, xs, m, vn), \
        [sum(1 for c in cols if sum(c) % m == 0), cols], args


@op("vector-index", "vector-index-right", "vector-skip", "vector-skip-right", "vector-any", "vector-every")
def _(g, nm):
    r = g.r
    k = r.choice([1, 1, 2, 3])
    vs, n = g.vecs(k)
    if nm.endswith("right") and k > 1:
        # of one length, as SRFI-43 demands
        vs = [v[:n] for v in vs]
    args = [("v%d" % i, V(x)) for i, x in enumerate(vs)]
    vn = " ".join(x[0] for x in args)
    cols = [tuple(v[i] for v in vs) for i in range(n)]
    if r.random() < 0.07:
        bad = r.choice(["'(1 2)", "\"ab\"", "7", "#f"])
        return "(%s %s)" % (nm, r.choice(["5 v0" if n else "odd? 1", "list " + bad, "list", "list v0 " + bad])), "err", args
    m = r.choice([1, 2, 3, 4, 7])
    xs = " ".join("x%d" % i for i in range(k))
    log, res = [], None

    def hit(c):
        log.append(list(c))
        return sum(c) % m == 0
    if nm in ("vector-any", "vector-every"):
        f = "(lambda (%s) (set! log (cons (list %s) log)) (and (= 0 (modulo (+ %s) %d)) (list 'r %s)))" % (xs, xs, xs, m, xs)
        if nm == "vector-any":
            res = False
            for c in cols:
                if hit(c):
                    res = ["r"] + list(c)
                    break
        else:
            res = True
            for c in cols:
                if not hit(c):
                    res = False
                    break
                res = ["r"] + list(c)
    else:
        f = "(lambda (%s) (set! log (cons (list %s) log)) (= 0 (modulo (+ %s) %d)))" % (xs, xs, xs, m)
        res = False
        it = range(n) if not nm.endswith("right") else range(n - 1, -1, -1)
        for i in it:
            if hit(cols[i]) == ("index" in nm):
                res = i
                break
    return "(let ((c (%s %s %s))) (list c (reverse log)))" % (nm, f, vn), [res, log], args


@op("vector-binary-search")
def _(g, nm):
    r = g.r
    a = sorted(set(g.ints(0, 12)))
    v = V(a)
    x = r.choice(a) if a and r.random() < 0.6 else r.randint(-1, 22)
    if r.random() < 0.06:
        return "(vector-binary-search %s)" % r.choice(["v", "v 1", "'(1) 1 -", "v 1 5", "v 1 - -1", "v 1 - 0 %d" % (len(a) + 1)]), "err", [("v", v)]
    t, s, e = g.range(len(a))
    return "(vector-binary-search v %d %s%s)" % (x, r.choice(["-", "(lambda (e k) (cond ((= e k) 0) ((< e k) -1) (else 1)))"]), t), (s + a[s:e].index(x)) if x in a[s:e] else False, [("v", v)]


@op("vector-swap!", "vector-fill!", "vector-reverse!")
def _(g, nm):
    r = g.r
    a = g.vals(1)
    n = len(a)
    v = V(a)
    if nm == "vector-swap!":
        i, j = r.randrange(n), r.randrange(n)
        if r.random() < 0.12:
            i = r.choice([-1, n, n + 1])
            if r.random() < 0.5:
                i, j = j, i
            return "(vector-swap! v %d %d)" % (i, j), "err", [("v", v)]
        b = list(a)
        b[i], b[j] = b[j], b[i]
        return "(begin (vector-swap! v %d %d) #t)" % (i, j), True, [("v", None, lit(v), V(b))]
    x = g.val()
    y = " " + lit(x) if nm == "vector-fill!" else ""
    if r.random() < 0.12:
        # rejected, and nothing changed
        return "(list (guard (e (#t 'err)) (%s v%s%s)) v)" % (nm, y, g.badrange(n)), ["err", v], [("v", v)]
    t, s, e = g.range(n)
    b = list(a)
    b[s:e] = [x] * (e - s) if y else b[s:e][::-1]
    return "(begin (%s v%s%s) #t)" % (nm, y, t), True, [("v", None, lit(v), V(b))]


@op("vector-copy!", "vector-reverse-copy!")
def _(g, nm):
    r = g.r
    a = g.vals(1, 8)
    n = len(a)
    v = V(a)
    same = r.random() < 0.5
    b = a if same else g.vals(1, 8)
    m = len(b)
    rev = nm != "vector-copy!"
    if r.random() < 0.15:
        z = r.randrange(3)
        if z == 0:
            t = r.choice(["v -1 w", "v %d w" % (n + 1), "v 'a w", "'(1 2) 0 w", "v 0 '(1 2)", "v 0", "v", "v 0 w" + g.badrange(m)])
        elif z == 1 and n - 1 + m > n:
            t = "v %d w" % (n - 1)
            if m < 2:
                return None
        else:
            t = "v %d w" % r.randint(max(0, n - m + 1), n) if m else "v -1 w"
        if same:
            t = t.replace(" w", " v")
            if rev and t == "v 0 v":
                return None
        return "(%s %s)" % (nm, t), "err", [("v", None, lit(v), None)] + ([] if same else [("w", V(b))])
    t, s, e = g.range(m)
    k = e - s
    if k > n:
        return None
    ts = r.randint(0, n - k)
    if ts == n:
        return None
    c = b[s:e]
    if rev:
        c = c[::-1]
        if same and s != ts and k and s < ts + k and ts < e:
            # overlap: an error
            return None
    res = list(a)
    res[ts:ts + k] = c
    return "(begin (%s v %d %s%s) #t)" % (nm, ts, "v" if same else "w", t), True, [("v", None, lit(v), V(res))] + ([] if same else [("w", V(b))])


@op("list->vector", "reverse-list->vector")
def _(g, nm):
    r = g.r
    a = g.vals()
    n = len(a)
    if r.random() < 0.12:
        return "(%s %s)" % (nm, r.choice(["'(1 . 2)", "5", "l -1", "l %d" % (n + 1), "l 0 %d" % (n + 1), "l 1 0", "l 'a", "l 0 'a", "'(1 2 . 3) 0 3", "#f 0 1"])), "err", [("l", a)]
    t, s, e = "", 0, n
    if r.random() < 0.7:
        s = r.randint(0, n)
        t = " %d" % s
        if r.random() < 0.6:
            e = r.randint(s, n)
            t += " %d" % e
    b = a[s:e]
    if nm != "list->vector":
        b.reverse()
    return "(%s l%s)" % (nm, t), V(b), [("l", a)]


def gen(r, n, names):
    out = []
    g = G(r)
    while len(out) < n:
        nm = r.choice(names)
        x = OPS[nm](g, nm)
        if x is None:
            continue
        e, v, bs = x
        bt, after, av = [], [], []
        for b in bs:
            bt.append("(%s %s)" % (b[0], lit(b[1]) if len(b) == 2 or b[1] is not None else b[2]))
            if len(b) == 2:
                after.append(b[0])
                av.append(b[1])
            elif b[3] is not None:
                after.append(b[0])
                av.append(b[3])
        if isinstance(v, str) and v == "err":
            # an error, and the other arguments are as before
            out.append(("(let* ((log '()) %s) (let ((res (guard (e (#t 'err)) %s))) (list res %s)))" % (" ".join(bt), e, " ".join(after)), show(["err"] + av)))
            continue
        out.append(("(let* ((log '()) %s) (let ((res %s)) (list res %s)))" % (" ".join(bt), e, " ".join(after)), show([v] + av)))
    return out


PRE = "(use srfi-34)(use srfi-8)(require-extension (srfi 43))\n"
CORE = [n for n in OPS if n.endswith("/core")] + ["vector", "make-vector", "vector-length", "vector-ref", "vector-set!", "vector?"]


def run(ctx):
    names = sorted(n for n in OPS if not n.endswith("/core"))
    ctx.rule = ("%d vector procedures, random arguments and ranges (valid, invalid, overlapping), results, callback arguments in order, and the arguments "
                "afterwards compared with a model; distinct by call text" % len(OPS))
    items = common.par(gen, ctx.n(50000, 800000), "%s/%d" % (ctx.prop, ctx.seed), names)
    h = len(items) // 2
    common.bulk(ctx, "san-compact", items[:h], PRE, "vector")
    common.bulk(ctx, "san-fatty", items[h:], PRE, "vector")
    core = [(e.replace("/core", ""), w) for e, w in common.par(gen, ctx.n(12000, 150000), "%s/%d/core" % (ctx.prop, ctx.seed), CORE)]
    # without the vector library: the built-in procedures only
    h = len(core) // 2
    common.bulk(ctx, "san-compact", core[:h], "(use srfi-34)", "core-vector")
    common.bulk(ctx, "san-fatty", core[h:], "(use srfi-34)", "core-vector")
    common.bulk(ctx, "san-compact", items[:len(items) // 16], PRE, "vector-gc", env={"VF_GC_INTERVAL": "7", "VF_GC_SEED": ctx.seed})
    ctx.extra["procedures"] = len(OPS)
    ctx.minimum = 30000
