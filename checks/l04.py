"""L04: sorting and merging (SRFI-95) against a stable sort."""
import functools

from checks import common

PRE = r"""(use srfi-34)(require-extension (srfi 95))
(define (mod7< a b) (< (modulo a 7) (modulo b 7)))
(define (never a b) #f)
(define (car< a b) (< (car a) (car b)))
(define (len< a b) (< (length a) (length b)))
(define calls 0)
(define (counting f) (lambda args (set! calls (+ calls 1)) (apply f args)))
"""

# text of the element, comparison key; less?; python less
NUM = [("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("mod7<", lambda a, b: a % 7 < b % 7), ("never", lambda a, b: False),
       ("(lambda (a b) (< (abs a) (abs b)))", lambda a, b: abs(a) < abs(b)), ("(lambda (a b) (and (odd? a) (even? b)))", lambda a, b: a % 2 == 1 and b % 2 == 0)]


def show(v):
    if isinstance(v, (list, tuple)):
        return "(%s)" % " ".join(show(x) for x in v)
    return "#t" if v is True else "#f" if v is False else str(v)


def sorted_by(l, lt):
    return sorted(l, key=functools.cmp_to_key(lambda a, b: -1 if lt(a, b) else 1 if lt(b, a) else 0))


def elements(r, n):
    """n elements: values with a tag to tell equal ones apart; (values, less text, key text or None, python less on elements)"""
    z = r.randrange(6)
    m = r.choice([1, 3, 8, 1000])
    t, f = r.choice(NUM)
    if z == 0:
        return [r.randint(-m, m) for _ in range(n)], t, None, f
    if z == 1:
        return [(r.randint(-m, m), i) for i in range(n)], t, "car", lambda a, b: f(a[0], b[0])
    if z == 2:
        return [(i, r.randint(-m, m)) for i in range(n)], "(lambda (a b) (%s (cadr a) (cadr b)))" % t, None, lambda a, b: f(a[1], b[1])
    if z == 3:
        ss = ["".join(r.choice("abAB") for _ in range(r.randint(0, 3))) for _ in range(n)]
        g = r.choice([("string<?", lambda a, b: a < b), ("string>?", lambda a, b: a > b), ("string-ci<?", lambda a, b: a.lower() < b.lower())])
        return [(('"%s"' % s), i) for i, s in enumerate(ss)], g[0], "car", lambda a, b: g[1](a[0], b[0])
    if z == 4:
        cs = [r.choice("abcxyzABC") for _ in range(n)]
        g = r.choice([("char<?", lambda a, b: a < b), ("char>?", lambda a, b: a > b), ("char-ci<?", lambda a, b: a.lower() < b.lower())])
        return [("#\\" + c, i) for i, c in enumerate(cs)], g[0], "(lambda (e) (car e))", lambda a, b: g[1](a[0], b[0])
    return [(r.randint(-m, m), i) for i in range(n)], t, "(lambda (e) (- (car e)))", lambda a, b: f(-a[0], -b[0])


def gen(r, n):
    res = []
    while len(res) < n:
        k = r.choice([0, 1, 2, 3]) if r.random() < 0.15 else r.randint(2, 24) if r.random() < 0.93 else r.randint(25, 300)
        es, lt, key, f = elements(r, k)
        z = r.randrange(12)
        ks = " " + key if key else ""
        if z < 6 and r.random() < 0.3:
            es = sorted_by(es, f) if r.random() < 0.5 else sorted_by(es, f)[::-1]
        lst = "(list %s)" % " ".join(("'" if isinstance(e, tuple) else "") + show(e) for e in es)
        if z < 4:
            res.append(("(let* ((l %s) (c (append l '())) (s (sort l %s%s))) (list s (equal? l c)))" % (lst, lt, ks), show([sorted_by(es, f), True])))
        elif z < 6:
            # the pair that was the first stays the first
            res.append(("(let* ((l %s) (s (sort! l %s%s))) (list s (eq? s l)))" % (lst, lt, ks), show([sorted_by(es, f), True])))
        elif z < 8:
            if r.random() < 0.5:
                es = sorted_by(es, f)
                if len(es) > 1 and r.random() < 0.4:
                    i = r.randrange(len(es) - 1)
                    es[i], es[i + 1] = es[i + 1], es[i]
            ok = not any(f(b, a) for a, b in zip(es, es[1:]))
            lst = "(list %s)" % " ".join(("'" if isinstance(e, tuple) else "") + show(e) for e in es)
            res.append(("(let ((l %s)) (list (sorted? l %s%s) l))" % (lst, lt, ks), show([ok, es])))
        elif z < 11:
            a, b = [], []
            for e in es:
                (a if r.random() < 0.5 else b).append(e)
            a, b = sorted_by(a, f), sorted_by(b, f)
            la, lb = ["(list %s)" % " ".join(("'" if isinstance(e, tuple) else "") + show(e) for e in x) for x in (a, b)]
            m = sorted_by(a + b, f)
            if z < 10:
                res.append(("(let* ((a %s) (b %s) (m (merge a b %s%s))) (list m a b))" % (la, lb, lt, ks), show([m, a, b])))
            else:
                res.append(("(merge! %s %s %s%s)" % (la, lb, lt, ks), show(m)))
        else:
            y = r.randrange(5)
            if y == 0 and k > 1:
                # an error or an escape from the comparison leaves the list as it was
                res.append(("(let* ((n 0) (l %s) (c (append l '()))) (let ((v (guard (e (#t e)) (sort l (lambda (a b) (set! n (+ n 1)) (if (> n %d) (raise 'out) #f)))))) (list (or (eq? v 'out) (equal? v c)) (equal? l c))))" % (lst, r.randint(0, k)), "(#t #t)"))
            elif y == 1 and k > 1:
                res.append(("(let* ((l %s) (c (append l '())) (v (call-with-current-continuation (lambda (k) (sort l (lambda (a b) (k 'esc))))))) (list v (equal? l c) (sort l never)))" % lst, show(["esc", True, es])))
            elif y == 2:
                res.append(("(%s)" % r.choice(["sort 5 <", "sort '(2 1) 5", "sort '(1 . 2) <", "sort '(1 a) <", "sort '(2 1)", "sort", "merge '(1) '(2)", "sorted? '(1 2)", "merge 5 '(1) <", "sorted? '(2 1) 7",
                                               "sort '(1 2) < 5", "sort '(2 1) < cdr", "sort! '(2 1)", "sorted? 5 <", "merge '(1) '(2) 3", "sort '(2 1) <  car"]), "err"))
            elif y == 3:
                res.append(("(let* ((l %s) (a (sort l %s%s)) (b (sort a %s%s)) (c (sort (reverse l) %s%s))) (list (equal? a b) (sorted? a %s%s) (sorted? c %s%s) (= (length a) (length c))))" % (
                    (lst,) + (lt, ks) * 5), "(#t #t #t #t)"))
            else:
                res.append(("(let* ((l %s) (a (sort l %s%s))) (if (pair? a) (set-car! a 'changed)) l)" % (lst, lt, ks), show(es)))
    return res


def run(ctx):
    ctx.rule = ("sort, sort!, merge, merge!, sorted? on random lists of 0 to 300 elements (many equal, presorted, reversed; numbers, strings, characters, tagged pairs; %d orders, with and without key), "
                "compared with a stable sort, inputs shown afterwards; distinct by call text" % len(NUM))
    items = common.par(gen, ctx.n(20000, 300000), "%s/%d" % (ctx.prop, ctx.seed))
    h = len(items) // 3
    common.bulk(ctx, "san-compact", items[:h], PRE, "sort", per=20)
    common.bulk(ctx, "san-fatty", items[h:2 * h], PRE, "sort", per=20)
    common.bulk(ctx, "opt-compact", items[2 * h:], PRE, "sort", per=20)
    common.bulk(ctx, "san-fatty", items[:len(items) // 40], PRE, "sort-gc", per=5, env={"VF_GC_INTERVAL": "11", "VF_GC_SEED": ctx.seed})
    ctx.minimum = 15000
