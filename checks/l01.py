"""L01: list operations against their definitions (R5RS 6.3.2, SRFI-1)."""
from checks import common


class Dot:
    def __init__(self, es, tail):
        self.es, self.tail = es, tail


def show(v):
    if v is True:
        return "#t"
    if v is False:
        return "#f"
    if isinstance(v, (list, tuple)):
        return "(%s)" % " ".join(show(x) for x in v)
    if isinstance(v, Dot):
        return "(%s . %s)" % (" ".join(show(x) for x in v.es), show(v.tail)) if v.es else show(v.tail)
    return str(v)


def dot(es, tail):
    """a list of es ending in tail"""
    if isinstance(tail, list):
        return list(es) + tail
    if isinstance(tail, Dot):
        return Dot(list(es) + tail.es, tail.tail)
    return Dot(list(es), tail) if es else tail


def lit(v):
    """an expression that makes a new value"""
    if isinstance(v, list):
        return "(list %s)" % " ".join(lit(x) for x in v) if v else "'()"
    if isinstance(v, Dot):
        return "(append (list %s) %s)" % (" ".join(lit(x) for x in v.es), lit(v.tail)) if v.es else lit(v.tail)
    if isinstance(v, str):
        return v if v[0] == '"' else "'" + v
    return show(v)


PREDS = [("odd?", lambda x: x % 2 == 1), ("even?", lambda x: x % 2 == 0), ("(lambda (x) (> x 3))", lambda x: x > 3), ("zero?", lambda x: x == 0), ("negative?", lambda x: x < 0),
         ("(lambda (x) #t)", lambda x: True), ("(lambda (x) #f)", lambda x: False), ("(lambda (x) (= (modulo x 3) 1))", lambda x: x % 3 == 1)]
EQS = [("=", lambda a, b: a == b), ("eqv?", lambda a, b: a == b), ("equal?", lambda a, b: a == b), ("(lambda (a b) (= (modulo a 3) (modulo b 3)))", lambda a, b: a % 3 == b % 3),
       ("(lambda (a b) (= (abs a) (abs b)))", lambda a, b: abs(a) == abs(b))]
RELS = EQS + [("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("(lambda (a b) (= b (+ a 1)))", lambda a, b: b == a + 1)]


class G:
    def __init__(self, r):
        self.r = r

    def n(self, lo=0, hi=7):
        r = self.r
        return r.randint(lo, hi) if r.random() < 0.95 else r.randint(lo, 40)

    def ints(self, lo=0, hi=7):
        r = self.r
        m = r.choice([3, 6, 20])
        return [r.randint(-2 if r.random() < 0.3 else 0, m) for _ in range(self.n(lo, hi))]

    def vals(self, lo=0, hi=6):
        r = self.r
        return [r.choice([1, 2, 3, "a", "b", "c", '"s"', [], [1], ["a", [2]], True, False, 0]) for _ in range(self.n(lo, hi))]

    def lists(self, k=None, lo=0):
        r = self.r
        k = k or r.randint(1, 3)
        if r.random() < 0.5:
            n = self.n(lo, 5)
            return [[r.randint(0, 9) for _ in range(n)] for _ in range(k)]
        return [self.ints(lo, 6) for _ in range(k)]

    def circ(self, ls):
        """texts for ls (elements as given), some made circular when another is finite"""
        r = self.r
        out, lens = [], []
        fin = r.randrange(len(ls))
        for i, l in enumerate(ls):
            if i != fin and l and r.random() < 0.25:
                out.append("(circular-list %s)" % " ".join(show(x) for x in l))
                lens.append(None)
            else:
                out.append(lit(l))
                lens.append(len(l))
        n = min(x for x in lens if x is not None)
        return out, [[l[i % len(l)] for i in range(n)] for l in ls], n


# every entry: function(G) -> (expression or (bindings, expression), value); the bound lists are shown afterwards
# a dictionary of all operations
OPS = {}


def op(*names):
    def f(fn):
        for n in names:
            OPS[n] = fn
        return fn
    return f


def lets(**kw):
    """non-destructive call: the arguments are shown again afterwards"""
    return kw


@op("cons", "xcons", "list", "cons*", "make-list", "list-tabulate", "iota", "list-copy")
def _(g, nm):
    r = g.r
    a = g.vals()
    if nm == "cons":
        x = g.vals(1, 1)[0]
        t = r.choice([a, Dot(a, 9)])
        return "(cons %s l)" % lit(x), dot([x], t), [("l", t)]
    if nm == "xcons":
        x = g.vals(1, 1)[0]
        return "(xcons l %s)" % lit(x), [x] + a, [("l", a)]
    if nm == "list":
        return "(list %s)" % " ".join(lit(x) for x in a), a, []
    if nm == "cons*":
        b = g.vals(1)
        t = b.pop() if r.random() < 0.4 else a
        return "(cons* %s t)" % " ".join(lit(x) for x in b), dot(b, t), [("t", t)]
    if nm == "make-list":
        k = g.n(0, 9)
        x = g.vals(1, 1)[0]
        if r.random() < 0.2:
            return "(length (make-list %d))" % k, k, []
        return "(make-list %d %s)" % (k, lit(x)), [x] * k, []
    if nm == "list-tabulate":
        k = g.n(0, 9)
        return "(list-tabulate %d (lambda (i) (* i i)))" % k, [i * i for i in range(k)], []
    if nm == "iota":
        k, s, d = g.n(0, 9), r.randint(-5, 5), r.randint(-3, 4)
        z = r.random()
        if z < 0.3:
            return "(iota %d)" % k, list(range(k)), []
        if z < 0.6:
            return "(iota %d %d)" % (k, s), [s + i for i in range(k)], []
        return "(iota %d %d %d)" % (k, s, d), [s + i * d for i in range(k)], []
    t = r.choice([a, Dot(a, 9)])
    return "(let ((c (list-copy l))) (list c (and (pair? l) (eq? c l))))", [dot(t.es, t.tail) if isinstance(t, Dot) else t, False], [("l", t)]


@op("proper-list?", "dotted-list?", "circular-list?", "not-pair?", "null-list?", "list?", "length+", "length", "pair?", "null?")
def _(g, nm):
    r = g.r
    a = g.vals()
    k = r.randrange(4)
    if k == 0:
        e, kind, n = lit(a), "p", len(a)
    elif k == 1:
        e, kind, n = lit(Dot(a, r.choice([9, "z", '"t"']))), "d", len(a)
    elif k == 2 and a:
        # circular after a prefix
        b = g.vals()
        e, kind, n = "(append (list %s) (circular-list %s))" % (" ".join(lit(x) for x in b), " ".join(lit(x) for x in a)), "c", 0
    else:
        x = r.choice([9, "z", '"t"', [], True])
        e, kind, n = lit(x), "p" if x == [] else "d", 0
    pair = kind == "c" or n > 0
    null = kind == "p" and n == 0
    if nm in ("proper-list?", "list?"):
        v = kind == "p"
    elif nm == "dotted-list?":
        v = kind == "d"
    elif nm == "circular-list?":
        v = kind == "c"
    elif nm == "not-pair?":
        v = not pair
    elif nm == "pair?":
        v = pair
    elif nm == "null?":
        v = null
    elif nm == "null-list?":
        if not pair and not null:
            return None
        v = null
    elif nm == "length+":
        if kind == "d":
            return None
        v = False if kind == "c" else n
    else:
        v = n if kind == "p" else "err"
    return "(%s %s)" % (nm, e), v, []


@op("list=")
def _(g, nm):
    r = g.r
    a = g.ints()
    ls = []
    for _ in range(r.randint(0, 3)):
        b = list(a)
        z = r.random()
        if z < 0.15 and b:
            b[r.randrange(len(b))] += r.choice([1, 3])
        elif z < 0.25:
            b = b + [1]
        elif z < 0.35:
            b = b[:-1]
        ls.append(b)
    n, f = r.choice(EQS)
    v = all(len(x) == len(y) and all(f(p, q) for p, q in zip(x, y)) for x, y in zip(ls, ls[1:]))
    return "(list= %s %s)" % (n, " ".join(lit(x) for x in ls)), v, []


@op("car", "cdr", "first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth", "list-ref", "list-tail", "caar", "cadr", "cdar", "cddr", "caddr", "cdddr",
    "cadddr", "cddddr", "cadar", "caadr", "cddar", "cdadr", "caaar", "cdaar", "caddar", "cdaddr", "cadaddr"[:0] or "caadar")
def _(g, nm):
    r = g.r
    if nm[0] == "c" and nm[-1] == "r" and set(nm[1:-1]) <= set("ad"):
        def tree(d):
            if d == 0 or r.random() < 0.12:
                return r.choice([1, 2, "a", "b"])
            return (tree(d - 1), tree(d - 1))
        t = tree(6)

        def txt(x):
            return "(cons %s %s)" % (txt(x[0]), txt(x[1])) if isinstance(x, tuple) else lit(x)

        def val(x):
            return dot([val(x[0])], val(x[1])) if isinstance(x, tuple) else x
        v = t
        for c in reversed(nm[1:-1]):
            if not isinstance(v, tuple):
                return "(%s t)" % nm, "err", [("t", None, txt(t), val(t))]
            v = v[0] if c == "a" else v[1]
        return "(%s t)" % nm, val(v), [("t", None, txt(t), val(t))]
    a = g.vals(0, 12)
    ords = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"]
    if nm in ords:
        i = ords.index(nm)
        return "(%s l)" % nm, a[i] if i < len(a) else "err", [("l", a)]
    k = r.randint(-1, len(a) + 1)
    if nm == "list-ref":
        return "(list-ref l %d)" % k, a[k] if 0 <= k < len(a) else "err", [("l", a)]
    return "(list-tail l %d)" % k, a[k:] if 0 <= k <= len(a) else "err", [("l", a)]


@op("take", "drop", "take-right", "drop-right", "take!", "drop-right!", "split-at", "split-at!", "last", "last-pair", "car+cdr")
def _(g, nm):
    r = g.r
    a = g.vals()
    n = len(a)
    k = r.randint(0, n)
    d = r.random() < 0.3
    t = Dot(a, 9) if d else a
    tail = 9 if d else []
    if nm in ("take", "take!"):
        if r.random() < 0.1 and a and nm == "take":
            k = r.randint(0, 20)
            return "(take (circular-list %s) %d)" % (" ".join(lit(x) for x in a), k), [a[i % n] for i in range(k)], []
        if r.random() < 0.07:
            return "(%s %s %d)" % (nm, lit(a), n + r.randint(1, 3)), "err", []
        return "(%s l %d)" % (nm, k), a[:k], [("l", t)] if nm == "take" else [("l", t, None, None)]
    if nm == "drop":
        if r.random() < 0.07:
            return "(drop %s %d)" % (lit(a), n + r.randint(1, 3)), "err", []
        return "(let ((d (drop l %d))) (list d (eq? d (list-tail l %d))))" % (k, k), [dot(a[k:], tail), True], [("l", t)]
    if nm == "take-right":
        return "(let ((d (take-right l %d))) (list d (eq? d (list-tail l %d))))" % (k, n - k), [dot(a[n - k:], tail), True], [("l", t)]
    if nm in ("drop-right", "drop-right!"):
        return "(%s l %d)" % (nm, k), a[:n - k], [("l", t)] if nm == "drop-right" else [("l", t, None, None)]
    if nm in ("split-at", "split-at!"):
        return "(call-with-values (lambda () (%s l %d)) list)" % (nm, k), [a[:k], dot(a[k:], tail)], [("l", t)] if nm == "split-at" else [("l", t, None, None)]
    if not a:
        return "(%s '())" % nm, "err", []
    if nm == "last":
        return "(last l)", a[-1], [("l", t)]
    if nm == "last-pair":
        return "(last-pair l)", dot(a[-1:], tail), [("l", t)]
    return "(call-with-values (lambda () (car+cdr l)) list)", [a[0], dot(a[1:], tail)], [("l", t)]


@op("append", "append!", "concatenate", "concatenate!", "reverse", "reverse!", "append-reverse", "append-reverse!", "zip", "unzip1", "unzip2", "unzip3", "unzip4", "unzip5")
def _(g, nm):
    r = g.r
    if nm.startswith("unzip"):
        k = int(nm[-1])
        rows = [g.vals(k, k)[:k] + g.vals(0, 2) for _ in range(g.n(0, 4))]
        if any(len(x) < k for x in rows):
            return None
        v = [[x[i] for x in rows] for i in range(k)]
        return ("(unzip1 l)" if k == 1 else "(call-with-values (lambda () (%s l)) list)" % nm), v[0] if k == 1 else v, [("l", rows)]
    if nm == "zip":
        ts, ls, n = g.circ(g.lists())
        return "(zip %s)" % " ".join(ts), [list(x) for x in zip(*ls)], []
    if nm in ("reverse", "reverse!"):
        a = g.vals()
        return "(%s l)" % nm, a[::-1], [("l", a)] if nm == "reverse" else [("l", a, None, None)]
    if nm.startswith("append-rev"):
        a, t = g.vals(), g.vals()
        t = r.choice([t, 5, Dot(t, 6)])
        return "(%s l t)" % nm, dot(a[::-1], t), [("l", a), ("t", t)] if nm[-1] != "!" else [("l", a, None, None), ("t", t)]
    ls = [g.vals(0, 4) for _ in range(r.randint(0, 4))]
    tail = r.choice([[], g.vals(), 7, Dot(g.vals(), 8)])
    v = tail if ls else tail
    for x in reversed(ls):
        v = dot(x, v)
    names = ["l%d" % i for i in range(len(ls))]
    b = [(m, x) if nm[-1] != "!" else (m, x, None, None) for m, x in zip(names, ls)] + [("t", tail)]
    args = " ".join(names + ["t"])
    if r.random() < 0.08:
        return "(%s %s)" % (nm, "" if nm.startswith("app") else "'()"), [], []
    return ("(%s %s)" if nm.startswith("app") else "(%s (list %s))") % (nm, args), v, b


@op("count", "any", "every", "list-index", "filter-map", "append-map", "append-map!", "map", "map-in-order", "for-each", "pair-for-each", "map!")
def _(g, nm):
    r = g.r
    ls0 = g.lists(lo=0)
    if nm == "map!":
        # the first list decides the length
        n = len(ls0[0])
        ls0 = [ls0[0]] + [l + [1] * max(0, n - len(l)) for l in ls0[1:]]
        f = "(lambda a (set! log (cons a log)) (apply + a))"
        return "(map! %s %s)" % (f, " ".join(lit(x) for x in ls0)), [sum(x) for x in zip(*ls0)], []
    ts, ls, n = g.circ(ls0)
    k = len(ls)
    cols = list(zip(*ls))
    args = " ".join(ts)
    if nm in ("count", "any", "every", "list-index"):
        m = r.randint(1, 12)
        if r.random() < 0.5:
            f, p = "(lambda a (set! log (cons a log)) (> (apply + a) %d))" % m, lambda c: sum(c) > m
        else:
            f, p = "(lambda a (set! log (cons a log)) (and (odd? (apply + a)) (list (apply + a))))", lambda c: [sum(c)] if sum(c) % 2 else False
        if nm == "count":
            return "(count %s %s)" % (f, args), sum(1 for c in cols if p(c)), []
        seen, v = [], {"any": False, "every": True, "list-index": False}[nm]
        for i, c in enumerate(cols):
            seen.append(list(c))
            x = p(c)
            if nm == "any" and x:
                v = x
                break
            if nm == "list-index" and x:
                v = i
                break
            if nm == "every":
                v = x
                if not x:
                    break
        return "(let ((v (%s %s %s))) (list v (reverse log)))" % (nm, f, args), [v, seen], []
    if nm == "filter-map":
        return "(filter-map (lambda a (and (odd? (apply + a)) a)) %s)" % args, [list(c) for c in cols if sum(c) % 2], []
    if nm in ("append-map", "append-map!"):
        z = r.randint(1, 3)
        return "(%s (lambda a (if (= 0 (modulo (apply + a) %d)) '() (apply list a))) %s)" % (nm, z, args), [x for c in cols if sum(c) % z for x in c], []
    if nm in ("map", "map-in-order", "for-each"):
        if nm == "for-each":
            return "(begin (for-each (lambda a (set! log (cons a log))) %s) (reverse log))" % args, [list(c) for c in cols], []
        v = [sum(c) for c in cols]
        if nm == "map":
            return "(map (lambda a (apply + a)) %s)" % args, v, []
        return "(let ((v (map-in-order (lambda a (set! log (cons a log)) (apply + a)) %s))) (list v (reverse log)))" % args, [v, [list(c) for c in cols]], []
    return "(begin (pair-for-each (lambda a (set! log (cons (map car a) log))) %s) (reverse log))" % args, [list(c) for c in cols], []


@op("fold", "fold-right", "pair-fold", "pair-fold-right", "reduce", "reduce-right", "unfold", "unfold-right")
def _(g, nm):
    r = g.r
    if nm.startswith("reduce"):
        a = g.ints()
        f = "(lambda (x acc) (set! log (cons (list x acc) log)) (list x acc))"
        if not a:
            return "(%s %s 'none '())" % (nm, f), "none", []
        log = []
        if nm == "reduce":
            v = a[0]
            for x in a[1:]:
                log.append([x, v])
                v = [x, v]
        else:
            v = a[-1]
            for x in reversed(a[:-1]):
                log.append([x, v])
                v = [x, v]
        return "(let ((v (%s %s 'none l))) (list v (reverse log)))" % (nm, f), [v, log], [("l", a)]
    if nm.startswith("unfold"):
        lo, hi, d = r.randint(-3, 3), r.randint(-3, 10), r.randint(1, 3)
        seeds = list(range(lo, hi, d)) if lo < hi else []
        end = seeds[-1] + d if seeds else lo
        base = "(%s (lambda (x) (>= x %d)) (lambda (x) (* x x)) (lambda (x) (+ x %d)) %d" % (nm, hi, d, lo)
        v = [x * x for x in seeds]
        if nm == "unfold":
            if r.random() < 0.5:
                return base + ")", v, []
            return base + " (lambda (x) (list 'tail x)))", v + ["tail", end], []
        t = g.vals()
        if r.random() < 0.5:
            return base + ")", v[::-1], []
        return base + " t)", v[::-1] + t, [("t", t)]
    ts, ls, n = g.circ(g.lists())
    if "right" in nm:
        # a circular argument would never end where the order is from the right
        ts, n = [lit(l) for l in ls], n
    cols = list(zip(*ls))
    k = len(ls)
    args = " ".join(ts)
    log = []
    if nm in ("fold", "fold-right"):
        v = ["e"]
        for c in (cols if nm == "fold" else cols[::-1]):
            log.append(list(c))
            v = list(c) + v
        f = "(lambda a (set! log (cons (take a %d) log)) (append (take a %d) (last a)))" % (k, k)
        return "(let ((v (%s %s '(e) %s))) (list v (reverse log)))" % (nm, f, args), [v, log], []
    v = ["e"]
    if nm == "pair-fold":
        for c in cols:
            v = list(c) + v
            log.append(list(c))
        f = "(lambda a (set! log (cons (map car (take a %d)) log)) (append (map car (take a %d)) (last a)))" % (k, k)
        return "(let ((v (pair-fold %s '(e) %s))) (list v (reverse log)))" % (f, args), [v, log], []
    for i in range(n - 1, -1, -1):
        v = [len(l) - i for l in ls] + v
    f = "(lambda a (append (map length (take a %d)) (last a)))" % k
    return "(pair-fold-right %s '(e) %s)" % (f, args), v, []


@op("filter", "remove", "partition", "filter!", "remove!", "partition!", "find", "find-tail", "take-while", "take-while!", "drop-while", "span", "span!", "break", "break!")
def _(g, nm):
    r = g.r
    a = g.ints()
    pn, p = r.choice(PREDS)
    b = [("l", a)] if nm[-1] != "!" else [("l", a, None, None)]
    f = "(lambda (x) (set! log (cons x log)) (%s x))" % pn
    base = nm.rstrip("!")
    if base == "filter":
        return "(%s %s l)" % (nm, pn), [x for x in a if p(x)], b
    if base == "remove":
        return "(%s %s l)" % (nm, pn), [x for x in a if not p(x)], b
    if base == "partition":
        return "(call-with-values (lambda () (%s %s l)) list)" % (nm, pn), [[x for x in a if p(x)], [x for x in a if not p(x)]], b
    q = p if base != "take-while" and base != "drop-while" and base != "span" else (lambda x: not p(x))
    i = next((i for i, x in enumerate(a) if q(x)), None)
    seen = a if i is None else a[:i + 1]
    j = len(a) if i is None else i
    if nm == "find":
        v = False if i is None else a[i]
    elif nm == "find-tail":
        v = False if i is None else a[i:]
        return "(let ((v (find-tail %s l))) (list v (reverse log) (or (not v) (eq? v (list-tail l %d)))))" % (f, j), [v, seen, True], b
    elif base == "take-while":
        v = a[:j]
    elif base == "drop-while":
        v = a[j:]
    else:
        return "(let ((v (call-with-values (lambda () (%s %s l)) list))) (list v (reverse log)))" % (nm, f), [[a[:j], a[j:]], seen], b
    return "(let ((v (%s %s l))) (list v (reverse log)))" % (nm, f), [v, seen], b


@op("delete", "delete!", "delete-duplicates", "delete-duplicates!", "member", "assoc", "alist-cons", "alist-copy", "alist-delete", "alist-delete!")
def _(g, nm):
    r = g.r
    a = g.ints(0, 9)
    x = r.randint(0, 6)
    b = [("l", a)] if nm[-1] != "!" else [("l", a, None, None)]
    base = nm.rstrip("!")
    en, e = r.choice(RELS)
    dflt = r.random() < 0.25
    if dflt:
        en, e = "", EQS[0][1]
    if base == "delete":
        return "(%s %d l %s)" % (nm, x, en), [y for y in a if not e(x, y)], b
    if base == "delete-duplicates":
        if not dflt:
            en, e = r.choice(EQS)
        v = []
        for y in a:
            if not any(e(z, y) for z in v):
                v.append(y)
        return "(%s l %s)" % (nm, en), v, b
    if base == "member":
        i = next((i for i, y in enumerate(a) if e(x, y)), None)
        return "(member %d l %s)" % (x, en), False if i is None else a[i:], b
    al = [[k, g.r.choice(["u", "v", "w"])] for k in a]
    alt = "(list %s)" % " ".join("(cons %d '%s)" % (k, s) for k, s in al)
    D = [Dot([k], s) for k, s in al]
    bb = [("l", None, alt, D)] if nm[-1] != "!" else [("l", None, alt, None)]
    if base == "assoc":
        i = next((i for i, y in enumerate(a) if e(x, y)), None)
        return "(assoc %d l %s)" % (x, en), False if i is None else D[i], bb
    if base == "alist-cons":
        return "(alist-cons %d 'z l)" % x, [Dot([x], "z")] + D, bb
    if base == "alist-copy":
        return "(let ((c (alist-copy l))) (for-each (lambda (p) (set-cdr! p 'q)) c) c)", [Dot([k], "q") for k, s in al], bb
    return "(%s %d l %s)" % (nm, x, en), [Dot([k], s) for k, s in al if not e(x, k)], bb


@op("lset<=", "lset=", "lset-adjoin", "lset-union", "lset-union!", "lset-intersection", "lset-intersection!", "lset-difference", "lset-difference!", "lset-xor", "lset-xor!",
    "lset-diff+intersection", "lset-diff+intersection!")
def _(g, nm):
    r = g.r
    en, e = r.choice(EQS)
    # sets: no element twice under the equivalence
    def mkset():
        v = []
        for x in [r.randint(0, 7) for _ in range(r.randint(0, 6))]:
            if not any(e(x, y) for y in v):
                v.append(x)
        return v
    ls = [mkset() for _ in range(r.randint(1, 4))]
    if r.random() < 0.25:
        z = list(ls[0])
        r.shuffle(z)
        ls.append(z)
    base = nm.rstrip("!")
    names = ["l%d" % i for i in range(len(ls))]
    b = [(m, x) if nm[-1] != "!" else (m, x, None, None) for m, x in zip(names, ls)]
    if r.random() < 0.12 and nm[-1] != "!":
        names.append("l0")
        ls.append(ls[0])
    has = lambda s, x: any(e(y, x) for y in s)
    call = "(%s %s %s)" % (nm, en, " ".join(names))
    sub = lambda s, t: all(has(t, x) for x in s)
    if base == "lset<=":
        return call, all(sub(x, y) for x, y in zip(ls, ls[1:])), b
    if base == "lset=":
        return call, all(sub(x, y) and sub(y, x) for x, y in zip(ls, ls[1:])), b
    if base == "lset-adjoin":
        es = [r.randint(0, 7) for _ in range(r.randint(0, 5))]
        v = list(ls[0])
        for x in es:
            if not has(v, x):
                v = [x] + v
        return "(lset-adjoin %s l0 %s)" % (en, " ".join(map(str, es))), v, b[:1]
    if base == "lset-union":
        v = list(ls[0])
        for l in ls[1:]:
            if not v:
                v = list(l)
                continue
            for x in l:
                if not has(v, x):
                    v = [x] + v
        return call, v, b
    if base == "lset-intersection":
        return call, [x for x in ls[0] if all(has(l, x) for l in ls[1:])], b
    if base == "lset-difference":
        return call, [x for x in ls[0] if not any(has(l, x) for l in ls[1:])], b
    if base == "lset-diff+intersection":
        i = [x for x in ls[0] if any(has(l, x) for l in ls[1:])]
        return "(call-with-values (lambda () %s) list)" % call, [[x for x in ls[0] if x not in i], i], b
    # xor: the order is unspecified, so the result is put in order; representatives only for =
    en = "="
    v = []
    for l in ls:
        v = [x for x in v if x not in l] + [x for x in l if x not in v]
    return "(sort-ints (%s = %s))" % (nm, " ".join(names)), sorted(v), b


def gen(r, n, names):
    out = []
    g = G(r)
    while len(out) < n:
        nm = r.choice(names)
        x = OPS[nm](g, nm)
        if x is None:
            continue
        e, v, bs = x
        if v == "err" and isinstance(v, str):
            out.append(("(let* ((log '()) %s) %s)" % (" ".join("(%s %s)" % (b[0], lit(b[1]) if b[1] is not None or len(b) == 2 else b[2]) for b in bs), e), "err"))
            continue
        bt, after, av = [], [], []
        for b in bs:
            bt.append("(%s %s)" % (b[0], lit(b[1]) if len(b) == 2 or b[1] is not None else b[2]))
            if len(b) == 2:
                after.append(b[0])
                av.append(b[1])
            elif b[3] is not None:
                after.append(b[0])
                av.append(b[3])
        out.append(("(let* ((log '()) %s) (let ((res %s)) (list res %s)))" % (" ".join(bt), e, " ".join(after)), show([v] + av)))
    return out


PRE = r"""(use srfi-34)(use srfi-8)(require-extension (srfi 1))
(define (sort-ints l) (let loop ((l l) (a '())) (if (null? l) a (loop (cdr l) (let ins ((x (car l)) (s a)) (if (or (null? s) (<= x (car s))) (cons x s) (cons (car s) (ins x (cdr s)))))))))
"""
CORE = ["cons", "list", "car", "cdr", "caar", "cadr", "cdar", "cddr", "caddr", "cdddr", "cadddr", "cddddr", "cadar", "caadr", "cddar", "cdadr", "caaar", "cdaar", "caddar", "cdaddr", "caadar",
        "list?", "length", "append", "reverse", "list-tail", "list-ref", "pair?", "null?"]


def run(ctx):
    names = sorted(OPS)
    ctx.rule = ("%d list procedures, random arguments (proper, dotted, circular where allowed, of unequal length, sharing), results, callback arguments in order, and the arguments "
                "afterwards compared with a model; distinct by call text" % len(names))
    items = common.par(gen, ctx.n(60000, 900000), "%s/%d" % (ctx.prop, ctx.seed), names)
    h = len(items) // 2
    common.bulk(ctx, "san-compact", items[:h], PRE, "list")
    common.bulk(ctx, "san-fatty", items[h:], PRE, "list")
    core = common.par(gen, ctx.n(8000, 100000), "%s/%d/core" % (ctx.prop, ctx.seed), CORE)
    core = [x for x in core if "circular" not in x[0]]
    # without the list library: the built-in procedures only
    common.bulk(ctx, "san-compact", core, "(use srfi-34)", "core-list")
    common.bulk(ctx, "opt-fatty", core, "(use srfi-34)", "core-list")
    common.bulk(ctx, "san-compact", items[:h // 8], PRE, "list-gc", env={"VF_GC_INTERVAL": "7", "VF_GC_SEED": ctx.seed})
    ctx.extra["procedures"] = len(names)
    ctx.minimum = 40000
