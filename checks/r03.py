"""R03: labelled output of shared and circular structure."""
import sys
from checks import common
from vlib import dgen
from vlib.check import Case

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)(use srfi-38)
(define (ws x) (let ((p (open-output-string))) (write-with-shared-structure x p) (get-output-string p)))
(define (ws2 x) (let ((p (open-output-string))) (write/ss x p) (get-output-string p)))
(define (wr x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
(define (ds x) (let ((p (open-output-string))) (display x p) (get-output-string p)))
;; an error while a labelled structure is being written
(define (broken x)
  (let ((c (%%current-char-codec)))
    (let ((p (begin (%%set-current-char-codec! "ISO-8859-1") (open-output-file "junk"))))
      (%%set-current-char-codec! c)
      (let ((r (guard (e (#t 'failed)) (write/ss x p) 'written)))
        (guard (e (#t #f)) (close-output-port p))
        r))))
;; a graph from its description: #(p car cdr), #(v children ...), #(s text); a child is #(index) or a leaf
(define (mk descs)
  (let* ((ns (list->vector (map (lambda (d)
                                  (case (vector-ref d 0)
                                    ((p) (cons 0 0))
                                    ((v) (make-vector (- (vector-length d) 1) 0))
                                    (else (string-copy (vector-ref d 1))))) descs)))
         (ch (lambda (c) (if (vector? c) (vector-ref ns (vector-ref c 0)) c))))
    (let loop ((ds descs) (i 0))
      (if (pair? ds)
          (let ((d (car ds)) (n (vector-ref ns i)))
            (case (vector-ref d 0)
              ((p) (set-car! n (ch (vector-ref d 1))) (set-cdr! n (ch (vector-ref d 2))))
              ((v) (let fill ((j 1)) (if (< j (vector-length d)) (begin (vector-set! n (- j 1) (ch (vector-ref d j))) (fill (+ j 1)))))))
            (loop (cdr ds) (+ i 1)))
          (vector-ref ns 0)))))
;; written by way of an error object
(define (es . args) (guard (e (#t (ws e))) (apply error "msg" args)))
"""
LEAF = ["0", "7", "-12", "#t", "#f", "()", "a", "foo", "#\\a", "#\\space", "\"\""]


def graph(r, n, cyc):
    """nodes: list of ["p", a, d] | ["v", [..]] | ["s", text]; a child is ("n", i) or a leaf text"""
    nodes = []
    for i in range(n):
        c = r.random()
        nodes.append(["p", None, None] if c < 0.65 else ["v", [None] * r.choice([0, 1, 2, 3])] if c < 0.85 else ["s", r.choice(["s", "xy", "q\"", "é"]) * r.randint(1, 2)])

    def child(i, tail=False):
        c = r.random()
        if c < (0.25 if not tail else 0.2):
            return r.choice(LEAF) if not tail or r.random() < 0.3 else "()"
        if c < (0.6 if cyc else 0.75):
            return ("n", min(n - 1, i + 1) if i + 1 < n else r.randrange(n)) if cyc or i + 1 < n else "()"
        if cyc:
            return ("n", r.randrange(n))
        return ("n", r.randrange(i + 1, n)) if i + 1 < n else "()"
    for i, x in enumerate(nodes):
        if x[0] == "p":
            x[1], x[2] = child(i), child(i, True)
        elif x[0] == "v":
            x[1] = [child(i) for _ in x[1]]
    return nodes


def build(nodes, use):
    """expression with the nodes bound to n0.. around use"""
    b, s = [], []
    q = lambda c: "n%d" % c[1] if isinstance(c, tuple) else ("'" + c)
    for i, x in enumerate(nodes):
        if x[0] == "p":
            b.append("(n%d (cons 0 0))" % i)
            s.append("(set-car! n%d %s)(set-cdr! n%d %s)" % (i, q(x[1]), i, q(x[2])))
        elif x[0] == "v":
            b.append("(n%d (make-vector %d 0))" % (i, len(x[1])))
            s += ["(vector-set! n%d %d %s)" % (i, j, q(c)) for j, c in enumerate(x[1])]
        else:
            b.append('(n%d (string-copy %s))' % (i, lit(x[1])))
    return "(let* (%s) %s %s)" % (" ".join(b), "".join(s), use)


def descs(nodes):
    q = lambda c: "#(%d)" % c[1] if isinstance(c, tuple) else c
    return "(" + " ".join("#(%s)" % (x[0] + " " + (" ".join(map(q, x[1:])) if x[0] == "p" else " ".join(map(q, x[1])) if x[0] == "v" else lit(x[1])))
                          for x in nodes) + ")"


def lit(s):
    return "".join(map(chr, dgen.wstring([ord(c) for c in s])))


def labelled(nodes, root):
    seen, multi = set(), set()
    stack = [root]
    while stack:
        c = stack.pop()
        if not isinstance(c, tuple):
            continue
        i = c[1]
        if i in seen:
            multi.add(i)
            continue
        seen.add(i)
        x = nodes[i]
        if x[0] == "p":
            stack += [x[1], x[2]]
        elif x[0] == "v":
            stack += x[1]
    lab = {}

    def head(i):
        """(text of the label or reference, whether it was a reference)"""
        if i in lab:
            return "#%d#" % lab[i], True
        if i in multi:
            lab[i] = len(lab) + 1
            return "#%d=" % lab[i], False
        return "", False

    def out(c):
        if not isinstance(c, tuple):
            return c
        t, ref = head(c[1])
        return t if ref else t + body(c[1])

    def body(i):
        x = nodes[i]
        if x[0] == "s":
            return lit(x[1])
        if x[0] == "v":
            return "#(" + " ".join([out(c) for c in x[1]]) + ")"
        s = "(" + out(x[1])
        close = ")"
        d = x[2]
        while True:
            if d == "()":
                break
            if isinstance(d, tuple) and nodes[d[1]][0] == "p":
                t, ref = head(d[1])
                if ref:
                    s += " . " + t
                    break
                if t:
                    s += " . " + t + "(" + out(nodes[d[1]][1])
                    close += ")"
                else:
                    s += " " + out(nodes[d[1]][1])
                d = nodes[d[1]][2]
                continue
            s += " . " + out(d)
            break
        return s + close
    return out(root), len(seen), len(multi)


def gen(r, n):
    sys.setrecursionlimit(20000)
    res = []
    while len(res) < n:
        k = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30])
        cyc = r.random() < 0.7
        nodes = graph(r, k, cyc)
        t, seen, multi = labelled(nodes, ("n", 0))
        if len(t) > 3000:
            continue
        c = r.random()
        if c < 0.6:
            res.append((build(nodes, "(%s n0)" % r.choice(["ws", "ws2"])), lit(t)))
        elif c < 0.75:
            # twice in a row, and another root in between
            o = r.randrange(k)
            t2 = labelled(nodes, ("n", o))[0]
            if len(t2) < 3000:
                res.append((build(nodes, "(let* ((a (ws n0)) (b (ws n%d)) (c (ws n0))) (list a b (string=? a c)))" % o),
                            "(%s %s #t)" % (lit(t), lit(t2))))
        elif c < 0.87:
            # plain output before and after is never labelled
            res.append((build(nodes, "(let* ((x (list 1 2)) (y (list x x)) (a (wr y)) (s (ws n0)) (b (wr y))) (list a s b (ds y)))"),
                        '("((1 2) (1 2))" %s "((1 2) (1 2))" "((1 2) (1 2))")' % lit(t)))
        else:
            bad = "(list n0 (vector n0 (integer->char 12354)) n0)"
            res.append((build(nodes, "(let* ((x (list 1 2)) (y (list x x)) (f (broken %s)) (a (wr y)) (s (ws n0)) (b (ws y))) (list f a s b))" % bad),
                        '(failed "((1 2) (1 2))" %s "(#1=(1 2) #1#)")' % lit(t)))
    return res


FIXED = r"""
(ws 5) ==> "5"
(ws '()) ==> "()"
(ws "") ==> "\"\""
(let ((s (string))) (ws (list s s))) ==> "(\"\" \"\")"
(let ((s (string #\a))) (ws (list s s))) ==> "(#1=\"a\" #1#)"
(ws (list 'a 'a 1 1 #\b #\b #t #t)) ==> "(a a 1 1 #\\b #\\b #t #t)"
(let ((x (list 1))) (set-cdr! x x) (ws x)) ==> "#1=(1 . #1#)"
(let ((x (list 1 2 3))) (set-cdr! (cddr x) x) (ws x)) ==> "#1=(1 2 3 . #1#)"
(let ((x (list 1 2 3))) (set-cdr! (cddr x) (cdr x)) (ws x)) ==> "(1 . #1=(2 3 . #1#))"
(let ((x (list 1 2 3))) (set-car! x x) (ws x)) ==> "#1=(#1# 2 3)"
(let ((v (vector 1 2))) (vector-set! v 0 v) (ws v)) ==> "#1=#(#1# 2)"
(let ((v (vector 1 2))) (vector-set! v 0 v) (vector-set! v 1 v) (ws v)) ==> "#1=#(#1# #1#)"
(let ((x (list 1 2))) (ws (cons x x))) ==> "(#1=(1 2) . #1#)"
(let ((x (list 1 2))) (ws (list x x (cdr x)))) ==> "(#1=(1 . #2=(2)) #1# #2#)"
(let* ((a (list 'a)) (b (list 'b a)) (c (vector a b a))) (ws (list c b))) ==> "(#(#1=(a) #2=(b #1#) #1#) #2#)"
(call-with-output-file "g" (lambda (p) (let ((x (list 1))) (write/ss (list x x) p) (write/ss x p)))) ==> ?
(call-with-input-file "g" (lambda (p) (read-char p) (read-char p))) ==> ?
(write/ss) ==> error
(write/ss 1 2) ==> error
(let ((e (guard (e (#t e)) (car 5)))) (string? (ws e))) ==> #t
(let ((x (list 1 2))) (string=? (ws (lambda () x)) (ws (lambda () x)))) ==> #t
"""


def big(r):
    """many nodes: the table of seen nodes grows"""
    out = []
    for n in (10, 31, 50, 100, 300, 700, 1500, 4000):
        # a list of n fresh strings, then some of them again
        again = sorted(r.sample(range(n), min(n, 5)))
        pos = {i: k + 1 for k, i in enumerate(again)}
        t = "(" + " ".join(("#%d=" % pos[i] if i in pos else "") + '"s"' for i in range(n)) + " " + " ".join("#%d#" % pos[i] for i in again) + ")"
        out.append(("(let loop ((i 0) (l '())) (if (< i %d) (loop (+ i 1) (cons (string #\\s) l)) (ws (append l (map (lambda (k) (list-ref l k)) '(%s))))))"
                    % (n, " ".join(map(str, again))), lit(t)))
        # circular list of n pairs, a vector of n shared pairs
        out.append(("(let* ((l (let loop ((i 0) (l '())) (if (< i %d) (loop (+ i 1) (cons i l)) l)))) (set-cdr! (list-tail l %d) l) (ws l))" % (n, n - 1),
                    lit("#1=(" + " ".join(str(i) for i in range(n - 1, -1, -1)) + " . #1#)")))
        out.append(("(let ((v (make-vector %d 0)) (p (list 0))) (let loop ((i 0)) (if (< i %d) (begin (vector-set! v i (if (odd? i) p (list i))) (loop (+ i 1))))) (ws v))" % (n, n),
                    lit("#(" + " ".join(("#1=(0)" if i == 1 else "#1#") if i % 2 else "(%d)" % i for i in range(n)) + ")")))
        # all tails shared
        if n <= 1500:
            m = n
            t = "#((0 . " + "".join("#%d=(%d%s" % (i, i, " . " if i < m - 1 else "") for i in range(1, m)) + ")" * m
            t += "".join(" #%d#" % i for i in range(1, m)) + ")"
            out.append(("(let* ((l (let loop ((i %d) (l '())) (if (< i 0) l (loop (- i 1) (cons i l)))))) (ws (list->vector (let loop ((l l)) (if (null? l) '() (cons l (loop (cdr l))))))))" % (m - 1),
                        lit(t)))
    return out


def many(r, n):
    """large random graphs with sharing discovered early and late"""
    sys.setrecursionlimit(100000)
    out = []
    while len(out) < n:
        k = r.choice([60, 120, 180, 250, 400, 700, 1200])
        nodes = graph(r, k, r.random() < 0.5)
        # a vector of all of them, so that they are reached in this order; early nodes again and again
        vs = [("n", i) for i in range(1, k)]
        if r.random() < 0.5:
            r.shuffle(vs)
        for _ in range(r.choice([0, 3, 30])):
            vs.insert(r.randrange(len(vs) + 1), ("n", r.randrange(1, min(k, r.choice([5, 40, k])))))
        nodes[0] = ["v", vs]
        t, seen, multi = labelled(nodes, ("n", 0))
        if len(t) > 40000:
            continue
        out.append(("(ws (mk '%s))" % descs(nodes), lit(t)))
    return out


def generr(r, n):
    """the irritants of an error object share structure with each other"""
    out = []
    while len(out) < n:
        k = r.choice([1, 2, 3, 4, 6, 10])
        nodes = graph(r, k, r.random() < 0.6)
        roots = [("n", r.randrange(k)) if r.random() < 0.85 else r.choice(LEAF) for _ in range(r.randint(1, 4))]
        # the irritants as a list of their own: its pairs are not shared
        sp = [["p", c, ("n", k + i + 1) if i + 1 < len(roots) else "()"] for i, c in enumerate(roots)]
        t, _, _ = labelled(nodes + sp, ("n", k))
        if len(t) > 3000:
            continue
        q = lambda c: "n%d" % c[1] if isinstance(c, tuple) else ("'" + c)
        out.append((build(nodes, "(es %s)" % " ".join(map(q, roots))), lit('#<error "msg" ' + t[1:-1] + ">")))
    return out


def run(ctx):
    ctx.rule = ("random object graphs of pairs, vectors and strings with sharing and cycles; expected text from a model that labels exactly "
                "the nodes reachable twice; interleaved with plain output and with outputs that fail part-way; distinct by graph")
    for lay in ("compact", "fatty"):
        items = common.par(gen, ctx.n(9000, 200000), "%s/%d/%s" % (ctx.prop, ctx.seed, lay))
        common.bulk(ctx, "san-" + lay, items, PRE, "graph-" + lay, per=8)
        common.bulk(ctx, "opt-" + lay, items[::3], PRE, "graph-" + lay, per=8)
        common.bulk(ctx, "san-" + lay, items[:1500 if not ctx.thorough else 20000], PRE, "graph-gc-" + lay, per=8,
                    env={"VF_GC_INTERVAL": 97, "VF_GC_SEED": ctx.seed})
        common.bulk(ctx, "san-" + lay, big(ctx.rng), PRE, "large-" + lay, per=1)
        common.bulk(ctx, "san-" + lay, common.par(many, ctx.n(120, 3000), "%s/%d/m%s" % (ctx.prop, ctx.seed, lay)), PRE, "many-" + lay, per=4)
        common.bulk(ctx, "san-" + lay, common.par(generr, ctx.n(800, 20000), "%s/%d/e%s" % (ctx.prop, ctx.seed, lay)), PRE, "error-object-" + lay, per=8)
        cs = []
        for l in FIXED.strip().split("\n"):
            e, w = l.rsplit(" ==> ", 1)
            cs.append(Case(e, ("err",) if w == "error" else ("ok", None) if w == "?" else ("ok", w), "fixed-" + lay))
        ctx.run("san-" + lay, cs, PRE)
    ctx.minimum = 8000
