"""C01: the compact and the fatty builds run the same language: differential runs."""
import re

from checks import common, e04
from checks.r02 import soup, mutate, tlit
from vlib import dgen, libgen, runner as R
from vlib.check import Case

# what the two layouts legitimately differ in: fixnum width, identity of small integers,
# mutability of quoted pairs
SKIP = re.compile(r"fixnum|pair-mutable|eq\?|memq|assq|hash-by-identity|delq|\(hash |string-hash|sscm-version|vf-stat|set-c[ad]r!|append!|reverse!|"
                  r"(sort|merge|concatenate|filter|remove|partition|take|drop-right|split-at|delete|delete-duplicates|append-reverse|append-map|map|span|break|take-while|unfold|"
                  r"alist-delete|lset-\w+)!|current-environment|hash-table-fold")
BIG = re.compile(r"\d{18,}|[0-9a-f]{14,}|[01]{50,}|[0-7]{19,}")

# more data of every type in every position
MORE = r"""
(write-to-str %s)
(list (equal? %s %s) (eqv? %s '()))
(list-copy (list %s %s))
(vector %s (list %s) %s)
`(%s ,%s #(a ,%s) ,@(list %s))
(let ((x %s)) (cond ((pair? x) 'pair) ((vector? x) 'vec) ((string? x) (string-length x)) ((symbol? x) 'sym) ((char? x) (char->integer x)) ((procedure? x) 'proc) ((null? x) 'null) ((boolean? x) x) ((number? x) (* 2 x)) (else 'other)))
(map (lambda (p) (if (p %s) 1 0)) (list pair? null? list? vector? string? symbol? char? number? integer? boolean? procedure? eof-object? %%error-object?))
(apply (lambda (a . r) (list r a)) %s (list %s %s))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () #t) (lambda () (k %s)) (lambda () #f))))
(guard (e (#t (list 'caught e))) (raise %s))
(guard (e ((%%error-object? e) (list 'reason (cadr e) (cddr e)))) (error "the reason" %s %s))
(call-with-values (lambda () (values %s %s)) cons)
(let ((v (make-vector 3 %s))) (vector-set! v 1 %s) v)
(force (delay %s))
(let loop ((i 0) (acc %s)) (if (< i 3) (loop (+ i 1) (list acc i)) acc))
(read (open-input-string (write-to-str %s)))
(let ((l (list %s %s))) (list (member %s l) (assoc %s (list (cons %s 1))) (list-tail l 1) (length l)))
"""
OBJ = ["1", "-1", "0", "576460752303423487", "-576460752303423488", "'()", "'a", "'|x|" if False else "'xyz", "\"\"", "\"abc\"", "\"日本é\"",
       "#\\a", "#\\x10ffff", "#\\newline", "#t", "#f", "'(1 2)", "'(1 . 2)", "'#()", "'#(1 #(2) \"s\")", "'(quote x)", "''x", "'`(a ,b ,@c)",
       "(if #f #f)", "(cons 1 (cons 2 3))", "(list (list) (vector))", "(make-string 2 #\\z)", "(string->symbol \"A b\")", "(string->symbol \"\")",
       "(integer->char 955)", "(vector)", "(list 'a \"b\" #\\c 4)", "1000000007", "(string #\\\" #\\\\)"]
PRE = libgen.PRE + """
(define (write-to-str x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
"""


def shapes(r, n):
    ts = MORE.strip().split("\n")
    out = []
    for _ in range(n):
        t = r.choice(ts)
        while "%s" in t:
            t = t.replace("%s", r.choice(OBJ), 1)
        out.append(t.replace("%%", "%") if "%%e" not in t else t)
    return out


def texts(r, n):
    out = []
    while len(out) < n:
        if r.random() < 0.5:
            cs = soup(r)
        else:
            g = dgen.G(r, lambda r: r.choice([r.randint(1, 126), r.randint(0xa0, 0x2ff), r.randint(0x3040, 0x30ff), r.randint(0x10000, 0x1ffff)]))
            cs = mutate(r, dgen.text(r, g.datum(3)))
        t = tlit(r, [c for c in cs if c])
        if t and not BIG.search("".join(chr(c) for c in cs)):
            out.append("(let ((p (open-input-string %s))) (let loop ((l '())) (let ((x (read p))) (if (eof-object? x) (reverse l) (loop (cons x l))))))" % t)
    return out


def compare(ctx, tag, exprs, pre, a="compact", b="fatty", mode="san", batch=60):
    ids = [(i + 1, e) for i, e in enumerate(exprs)]
    ra = R.run_cases("%s-%s" % (mode, a), ids, pre, stats=ctx.stats, batch=batch)
    rb = R.run_cases("%s-%s" % (mode, b), ids, pre, stats=ctx.stats, batch=batch)
    for i, e in ids:
        x, y = ra[i], rb[i]
        if "skipped" in (x.kind, y.kind):
            ctx.skipped += 1
            continue
        k = lambda z: (z.kind, z.text, z.out, z.msg if z.kind == "err" else "")
        s = " ".join((x.text, x.out, x.msg, y.text, y.out, y.msg))
        if BIG.search(s) or "#<" in s:
            ctx.count(tag + " (not comparable)", e, False)
            continue
        ctx.count(tag, e)
        ctx.kinds[x.kind] = ctx.kinds.get(x.kind, 0) + 1
        if k(x) != k(y) or x.kind in ("crash", "hang"):
            c = Case(e, ("any",), tag)
            c.id = i
            ctx.violation("%s:%s" % (tag, e[:60]), "%s: the layouts differ\n  in:      %s\n  %s: %r\n  %s: %r" % (tag, e[:1500], a, x, b, y), ctx.script(pre, [c], {}))
    if exprs:
        e = ctx.rng.choice(exprs)
        ctx.sample("%s: %s => %r" % (tag, e[:300], ra[exprs.index(e) + 1]))


def run(ctx):
    ctx.rule = ("the same generated program run by the compact and the fatty ASan+UBSan builds: result, output, raised object and "
                "the error's reason must be equal; programs showing integers beyond 56 bits or unreadable objects are not compared; "
                "distinct by program text")
    ctx.assume = ["eq? on numbers, fixnum limits and mutation of quoted pairs are outside the common language"]
    es = [e for e in common.par(libgen.exprs, ctx.n(9000, 200000), "C01/%d/lib" % ctx.seed, 30) if not SKIP.search(e)]
    compare(ctx, "library", es, PRE, batch=40)
    compare(ctx, "shapes", shapes(ctx.rng, ctx.n(4000, 40000)), PRE)
    compare(ctx, "texts", texts(ctx.rng, ctx.n(3000, 60000)), PRE)
    calls = []
    for name, kinds, good in e04.parse():
        if SKIP.search(name) or "environment" in name:
            continue
        for args, want, why in e04.calls(name, kinds, good):
            s = "(%s)" % " ".join([name] + list(args))
            if not SKIP.search(s):
                calls.append(s)
    if not ctx.thorough:
        calls = calls[ctx.seed % 3::3]
    compare(ctx, "calls", calls, e04.PRE)
    ps = common.random_programs(ctx, ctx.n(1500, 40000), ("cont", "exc", "values", "delay", "port", "delta"), 0.08, 60, "typed")
    ps = [p.body for p in ps if "eq?" not in p.body and "memq" not in p.body and "assq" not in p.body]
    compare(ctx, "programs", ps, common.PRE)
    compare(ctx, "programs -O2", ps[::3], common.PRE, mode="opt")
    ctx.minimum = 8000
