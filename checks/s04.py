"""S04: constants keep their contents, fresh objects are mutable and independent; symbols are unique."""
from checks import common
from vlib import dgen

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)(use srfi-1)(use srfi-43)
(define-macro T (lambda (e) (list 'guard '(e% (#t 'err)) (list 'begin e ''ok))))
(define (rd s) (read (open-input-string s)))
(define (ostr s) (let ((p (open-output-string))) (display s p) (get-output-string p)))
(define ch integer->char)
"""

# expression templates of an object with the given contents, and whether it is mutable:
# True | False | None (not specified)
W = lambda s: '"%s"' % s


def strings(r, s):
    q = W(s)
    n = len(s)
    yield q, False
    yield "(car '(%s 1))" % q, False
    yield "(vector-ref '#(1 %s) 1)" % q, False
    yield "(car `(%s ,(+ 1 1)))" % q, False
    yield "((lambda () %s))" % q, False
    yield "(let ((f (lambda () %s))) (f) (f))" % q, False
    yield "(rd (string-append \"\\\"\" %s \"\\\"\"))" % q, False
    yield "(symbol->string (string->symbol %s))" % q, False
    yield "(symbol->string (string->symbol (string-copy %s)))" % q, False
    yield "(if #t %s 1)" % q, False
    yield "(values %s)" % q, False
    yield "(force (delay %s))" % q, False
    yield "(guard (e (#t e)) (raise %s))" % q, False
    yield "(vector-ref (vector %s) 0)" % q, False
    yield "(car (list %s))" % q, False
    yield "(cadr (apply list 1 (list %s)))" % q, False
    yield "(cadr (car '((1 %s) 2)))" % q, False
    yield "(vector-ref (car '(#(%s))) 0)" % q, False
    yield "(car (vector-ref '#((%s)) 0))" % q, False
    yield "(case 1 ((1) %s) (else 2))" % q, False
    yield "(cdr (assv 2 '((1 . 2) (2 . %s))))" % q, False
    yield "(let loop ((i 0) (s #f)) (if (= i 3) s (loop (+ i 1) %s)))" % q, False
    yield "(call/cc (lambda (k) (k %s)))" % q, False
    yield "(do ((s %s s) (i 0 (+ i 1))) ((= i 2) s))" % q, False
    yield "(eval '(car '(%s)) (interaction-environment))" % q, False
    yield "(eval (list 'quote %s) (interaction-environment))" % q, False
    yield "(cond (%s => (lambda (x) x)))" % q, False
    yield "(or #f %s)" % q, False
    yield "(car (rd (string-append \"(\\\"\" %s \"\\\" 1)\")))" % q, False
    yield "(string-copy (string-copy %s))" % q, True
    yield "(eval (list 'string-copy %s) (interaction-environment))" % q, True
    yield "(symbol->string (string->symbol %s))" % q, False
    yield "(string-copy (symbol->string (string->symbol %s)))" % q, True
    yield "(string-copy %s)" % q, True
    yield "(substring %s 0 %d)" % (q, n), True
    yield "(substring (string-append \"xy\" %s \"z\") 2 %d)" % (q, n + 2), True
    yield "(string-append %s)" % q, True
    yield "(string-append %s \"\")" % q, True
    yield "(string-append \"\" %s)" % q, True
    yield "(string-append %s %s)" % (W(s[:n // 2]), W(s[n // 2:])), True
    yield "(list->string (string->list %s))" % q, True
    yield "(list->string (reverse (reverse (string->list %s))))" % q, True
    yield "(apply string (string->list %s))" % q, True
    yield "(ostr %s)" % q, True
    if n and s == s[0] * n:
        yield "(make-string %d #\\%s)" % (n, s[0]), True
    if s.isdigit() and (s == "0" or s[0] != "0"):
        yield "(number->string %s)" % s, True


def vectors(r, v):
    b = " ".join(map(str, v))
    n = len(v)
    yield "'#(%s)" % b, False
    yield "((lambda () '#(%s)))" % b, False
    yield "(car '(#(%s)))" % b, False
    yield "(vector-ref '#(#(%s)) 0)" % b, False
    yield "(let ((f (lambda () '#(%s)))) (f) (f))" % b, False
    yield "(rd \"#(%s)\")" % b, False
    yield "(cadr (rd \"(1 #(%s))\"))" % b, False
    yield "(car `(#(%s) ,(+ 1 1)))" % b, False
    yield "(vector-ref (rd \"#(1 #(%s))\") 1)" % b, False
    yield "(cadr (vector-ref '#((1 #(%s))) 0))" % b, False
    yield "(case 1 ((1) '#(%s)) (else 2))" % b, False
    yield "(cdr (assv 2 '((1 . 2) (2 . #(%s)))))" % b, False
    yield "(let loop ((i 0) (s #f)) (if (= i 3) s (loop (+ i 1) '#(%s))))" % b, False
    yield "(eval '(car '(#(%s))) (interaction-environment))" % b, False
    yield "(or #f '#(%s))" % b, False
    yield "(vector %s)" % b, True
    yield "(list->vector (list %s))" % b, True
    yield "(list->vector '(%s))" % b, True
    yield "(list->vector (vector->list '#(%s)))" % b, True
    yield "(vector-copy '#(%s))" % b, True
    yield "(vector-copy '#(9 %s 9) 1 %d)" % (b, n + 1), True
    yield "(vector-append '#(%s) '#())" % b, True
    yield "(vector-map (lambda (i x) x) '#(%s))" % b, True
    yield "(vector-unfold (lambda (i) (vector-ref '#(%s) i)) %d)" % (b, n), True
    if n:
        yield "`#(,(+ 0 %d)%s)" % (v[0], "".join(" %s" % x for x in v[1:])), True
        yield "`#(,@(list %s))" % b, True
    if n and v == [v[0]] * n:
        yield "(make-vector %d %d)" % (n, v[0]), True


def lists(r, v):
    b = " ".join(map(str, v))
    yield "'(%s)" % b, False
    yield "((lambda () '(%s)))" % b, False
    yield "(car '((%s)))" % b, False
    yield "(vector-ref '#((%s)) 0)" % b, False
    yield "(rd \"(%s)\")" % b, False
    yield "(cdr '(9 %s))" % b, False
    yield "(list %s)" % b, True
    yield "(cons %d (list%s))" % (v[0], "".join(" %s" % x for x in v[1:])), True
    yield "(vector->list '#(%s))" % b, True
    yield "(vector->list (vector %s))" % b, True
    yield "(append '(%s) '())" % b, True
    yield "(append '(%s) (list))" % b, True
    yield "(reverse (reverse '(%s)))" % b, True
    yield "(map (lambda (x) x) '(%s))" % b, True
    yield "(list-copy '(%s))" % b, True
    yield "(apply (lambda x x) '(%s))" % b if len(v) < 1 else "((lambda x x) %s)" % b, True
    yield "(apply list (append '(%s) '()))" % b, True
    yield "(iota %d %d %d)" % (len(v), v[0], 0) if v == [v[0]] * len(v) else "(list-tail (list 9 %s) 1)" % b, True


def gen(r, n, fatty):
    out = []
    while len(out) < n:
        kind = r.choice("ssvvl")
        if kind == "s":
            s = r.choice(["", "a", "ab", "aaa", "hello", "12", "305", "x" * 40, "y" * r.choice([63, 64, 127, 128, 255, 256, 257, 700]), "".join(r.choice("abcdefghij") for _ in range(r.randrange(1, 20)))])
            src, m = r.choice(list(strings(r, s)))
            body = "(let* ((x %s)) (list (string-copy x) " % src
            want, cur = [W(s)], s
            for _ in range(r.choice([1, 2, 3])):
                k = r.randrange(3)
                if k == 0 and cur:
                    i = r.randrange(len(cur))
                    c = r.choice("QRSTé")
                    if m:
                        nxt = cur[:i] + c + cur[i + 1:]
                    op, ok = "(string-set! x %d #\\%s)" % (i, c), True
                elif k == 1:
                    c = r.choice("QRST")
                    nxt = c * len(cur)
                    op, ok = "(string-fill! x #\\%s)" % c, True
                elif k == 2:
                    i = r.choice([-1, len(cur), len(cur) + 1, 1 << 30])
                    nxt = cur
                    op, ok = "(string-set! x %d #\\Z)" % i, False
                else:
                    continue
                body += "(T %s) (string-copy x) " % op
                if m and ok:
                    cur = nxt
                want += ["ok" if m and ok else "err", W(cur)]
            out.append((body + "))", "(%s)" % " ".join(want)))
        elif kind == "v":
            v = [r.randrange(9) for _ in range(r.choice([1, 1, 2, 3, 5, 9, 16, r.randrange(1, 40)]))]
            if r.random() < 0.01:
                v = [r.randrange(9) for _ in range(r.choice([128, 256, 600]))]
            if r.random() < 0.15:
                v = [v[0]] * len(v)
            src, m = r.choice(list(vectors(r, v)))
            body = "(let* ((x %s)) (list (vector->list x) " % src
            show = lambda c: "(%s)" % " ".join(map(str, c))
            want, cur = [show(v)], list(v)
            for _ in range(r.choice([1, 2, 3])):
                k = r.randrange(4)
                i = r.randrange(len(cur))
                ok = True
                nxt = list(cur)
                if k == 0:
                    nxt[i] = 77
                    op = "(vector-set! x %d 77)" % i
                elif k == 1:
                    nxt = [66] * len(cur)
                    op = "(vector-fill! x 66)"
                elif k == 2:
                    op, ok = "(vector-set! x %d 55)" % r.choice([-1, len(cur), len(cur) + 1, 1 << 30]), False
                else:
                    j = r.randrange(len(cur))
                    if not m and i == j:
                        continue
                    nxt[i], nxt[j] = nxt[j], nxt[i]
                    op = "(vector-swap! x %d %d)" % (i, j)
                body += "(T %s) (vector->list x) " % op
                if m and ok:
                    cur = nxt
                want += ["ok" if m and ok else "err", show(cur)]
            out.append((body + "))", "(%s)" % " ".join(want)))
        else:
            v = [r.randrange(9) for _ in range(r.choice([1, 1, 2, 3, 5, 8, r.randrange(1, 40)]))]
            src, m = r.choice(list(lists(r, v)))
            if not fatty:
                m = True        # this layout has no constant pairs (documented)
            body = "(let* ((x %s)) (list (append x '()) " % src
            show = lambda c: "(%s)" % " ".join(map(str, c)) if not isinstance(c, tuple) else "(%s . %d)" % (" ".join(map(str, c[0])), c[1])
            want, cur = [show(v)], list(v)
            for _ in range(r.choice([1, 2, 3])):
                i = r.randrange(len(cur))
                if r.random() < 0.6:
                    nxt = cur[:i] + [88] + cur[i + 1:]
                    op = "(set-car! (list-tail x %d) 88)" % i
                else:
                    nxt = cur[:i + 1] + [4, 4]
                    op = "(set-cdr! (list-tail x %d) (list 4 4))" % i
                body += "(T %s) (append x '()) " % op
                if m:
                    cur = nxt
                want += ["ok" if m else "err", show(cur)]
            out.append((body + "))", "(%s)" % " ".join(want)))
    return out


def indep(r, n):
    """a fresh object and its source do not affect each other"""
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.4:
            s = "".join(r.choice("abcdefgh") for _ in range(r.randrange(1, 12)))
            i = r.randrange(len(s))
            t = s[:i] + "Q" + s[i + 1:]
            cp = r.choice(["(string-copy a)", "(substring a 0 (string-length a))", "(string-append a)", "(string-append a \"\")", "(string-append \"\" a)",
                           "(list->string (string->list a))", "(symbol->string (string->symbol a))", "(ostr a)", "(apply string (string->list a))"])
            sym = "symbol" in cp
            a2, b2 = r.choice([(t, s), (s, t)])
            if sym:
                a2, b2 = t, s
            tgt = "a" if a2 != s else "b"
            out.append(('(let* ((a (string-append "%s")) (b %s)) (string-set! %s %d #\\Q) (list a b))' % (s, cp, tgt, i), '("%s" "%s")' % (a2, b2)))
        elif k < 0.7:
            v = [r.randrange(9) for _ in range(r.randrange(1, 8))]
            i = r.randrange(len(v))
            t = v[:i] + [77] + v[i + 1:]
            f = lambda x: "#(%s)" % " ".join(map(str, x))
            cp = r.choice(["(vector-copy a)", "(list->vector (vector->list a))", "(vector-append a '#())", "(vector-map (lambda (i x) x) a)", "(apply vector (vector->list a))"])
            tgt = r.choice("ab")
            out.append(("(let* ((a (vector %s)) (b %s)) (vector-set! %s %d 77) (list a b))" % (" ".join(map(str, v)), cp, tgt, i),
                        "(%s %s)" % (f(t if tgt == "a" else v), f(t if tgt == "b" else v))))
        else:
            v = [r.randrange(9) for _ in range(r.randrange(1, 8))]
            i = r.randrange(len(v))
            t = v[:i] + [77] + v[i + 1:]
            f = lambda x: "(%s)" % " ".join(map(str, x))
            cp = r.choice(["(list-copy a)", "(append a '())", "(map (lambda (x) x) a)", "(reverse (reverse a))", "(vector->list (list->vector a))", "(apply list a)",
                           "(apply (lambda x x) a)", "(apply (lambda (x . r) (cons x r)) a)"])
            tgt = r.choice("ab")
            out.append(("(let* ((a (list %s)) (b %s)) (set-car! (list-tail %s %d) 77) (list a b))" % (" ".join(map(str, v)), cp, tgt, i),
                        "(%s %s)" % (f(t if tgt == "a" else v), f(t if tgt == "b" else v))))
    return out


def symbols(r, n):
    out = []
    for _ in range(n):
        c = r.random()
        alpha = r.choice(["ab", "abcdefghijklmnopqrstuvwxyz0123456789!$%&*+-./:<=>?@^_~", "aA", "あいa"])
        s = "".join(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 3, 8, 30, r.randrange(1, 200)])))
        t = r.choice([s, s + "x", s[:-1] or "y", s.swapcase(), "".join(r.choice(alpha) for _ in s)])
        gc = r.choice(["", "", "(vf-gc)"])
        if c < 0.5:
            out.append(('(let* ((a (string->symbol "%s"))) %s (list (eq? a (string->symbol (string-copy "%s"))) (eq? a (string->symbol "%s")) (string=? "%s" (symbol->string a)) (symbol? a)))'
                        % (s, gc, s, t, s), "(#t %s #t #t)" % ("#t" if s == t else "#f")))
        elif c < 0.7:
            # interned from a string that is changed afterwards
            out.append(('(let* ((n (string-copy "%s")) (a (string->symbol n))) (string-fill! n #\\Z) %s (list (symbol->string a) (eq? a (string->symbol "%s"))))' % (s, gc, s),
                        '("%s" #t)' % s))
        elif c < 0.85 and s[0].isalpha() and all(x.isalnum() for x in s):
            out.append(("(let* ((a '%s)) %s (list (eq? a (string->symbol \"%s\")) (eq? a (rd \"%s\")) (eq? '%s a) (memq a '(1 %s 2))))" % (s, gc, s, s, s, s),
                        "(#t #t #t (%s 2))" % s))
        else:
            # a name that no longer is referenced comes back as a symbol of the same name
            k = r.randrange(1 << 30)
            out.append(('(let loop ((i 0)) (if (< i 60) (begin (string->symbol (string-append "t%d-" (number->string i))) (loop (+ i 1))))) (vf-gc) (let ((a (string->symbol "t%d-7"))) (list (symbol->string a) (eq? a (string->symbol "t%d-7"))))'
                        % (k, k, k), '("t%d-7" #t)' % k))
    return [("(begin %s)" % e, w) for e, w in out]


def run(ctx):
    ctx.rule = ("objects from every kind of constant and every constructor, random mutations (valid and not) with all contents compared after each; copies against "
                "their sources; symbols from equal and nearly equal names with collections between; distinct by text")
    ctx.assume = ["pairs in program text are constant only in the build that provides constant pairs (fatty)", "strings produced by reading are constant"]
    for k, lay in enumerate(("compact", "fatty")):
        common.bulk(ctx, "san-" + lay, common.par(gen, ctx.n(8000, 200000), "%s/%d/%d" % (ctx.prop, ctx.seed, k), lay == "fatty"), PRE, "mutate-" + lay)
        common.bulk(ctx, "opt-" + lay, gen(ctx.rng, ctx.n(1500, 20000), lay == "fatty"), PRE, "mutate-opt-" + lay)
        common.bulk(ctx, "san-" + lay, indep(ctx.rng, ctx.n(2500, 40000)), PRE, "copy-" + lay)
        common.bulk(ctx, "san-" + lay, symbols(ctx.rng, ctx.n(2000, 30000)), PRE, "symbol-" + lay, env={"VF_SYMHASH": [1, 7, 1024][(ctx.seed + k) % 3]}, per=10)
    ctx.minimum = 10000
