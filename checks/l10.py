"""L10: the unit test library counts and reports every failing assertion, and only those."""
from concurrent.futures import ThreadPoolExecutor

from checks import common
from checks.c03 import launch
from vlib import build as B, runner as R

# expression, how it is written, truth
VALS = [("1", "1"), ("-7", "-7"), ("(- 1 0)", "1"), ("#t", "#t"), ("#f", "#f"), ("'()", "()"), ("'a", "a"), ("'b", "b"), ("(string->symbol \"a\")", "a"), ("\"s\"", '"s"'),
        ("(string-append \"s\" \"\")", '"s"'), ("#\\a", "#\\a"), ("'(1 2)", "(1 2)"), ("(list 1 2)", "(1 2)"), ("(cons 1 2)", "(1 . 2)"), ("(vector 1 \"q\")", '#(1 "q")'),
        ("'#(1 \"q\")", '#(1 "q")'), ("(call/cc (lambda (k) (k 'a)))", "a"), ("(guard (e (#t e)) (raise 'b))", "b"), ("(not 5)", "#f"), ("(list (list))", "(())"),
        ("(let loop ((i 0)) (if (< i 5) (loop (- i -1)) 'b))", "b"), ("(memq 'z '(a b))", "#f"), ("(assq 'a '((a . 1)))", "(a . 1)"), ("\"\"", '""'), ("0", "0")]
SIMPLE = [v for v in VALS if v[1] in ("#t", "#f", "()", "a", "b")]       # identity is certain
EQV = SIMPLE + [v for v in VALS if v[1] in ("1", "-7", "0", "#\\a")]
FRESH = [("(list 1 2)", "(1 2)"), ("(string-append \"s\" \"\")", '"s"'), ("(vector 1 \"q\")", '#(1 "q")')]
RAISING = ["(car 1)", "(error \"why\" 1)", "(raise 'x)", "(raise #f)", "(undefined-thing)", "(vector-ref (vector) 0)", "(let ((f (lambda (x) x))) (f))", "(raise '())", "(begin 1 (raise 5) 2)", "(if)", "(let ((x)) x)"]
PLAIN = ["1", "#f", "(guard (e (#t 3)) (raise 5))", "'()", "(list (car '(1)))", "(with-exception-handler (lambda (e) 1) (lambda () 2))"]
PARSE_BAD = ["(1", ")", "#\\\\nosuch", "\\\"abc", "(1 . )", "#(1", "(a . b c)", "'"]
PARSE_OK = ["1", "(1 2)", "abc", "", "()", "#t", "'a", "#(1 2)", "\\\"abc\\\"", "(a . b)", "#\\\\a", "1 2", "  ", "; c"]


def script(r):
    """-> text, standard output, status, assertions, failures"""
    text = ["(require-extension (unittest))"]
    out = []
    st = {"name": "anonymous test", "serial": 0, "n": 0, "f": 0, "track": False}

    def auto():
        st["serial"] += 1
        return "%s #%d" % (st["name"], st["serial"])

    def one(tname, ok, msg=None, diff=None):
        st["n"] += 1
        if st["track"]:
            out.append("done: %s\n" % tname)
        if not ok:
            st["f"] += 1
            out.append("failed: %s\n" % (msg or tname))
            if diff:
                out.append(" expected: <%s>\n   actual: <%s>\n" % diff)

    def nm(always=False):
        if always or r.random() < 0.5:
            n = r.choice(["t", "some name", "x-%d" % r.randrange(99), "R5RS: 4.1", "a (b"])
            return n, '"%s" ' % n
        return None, ""

    def two(vs):
        a = r.choice(vs)
        same = [v for v in vs if v[1] == a[1]]
        return a, r.choice(same) if r.random() < 0.5 else r.choice(vs)

    for _ in range(r.choice([3, 6, 12, 30])):
        k = r.randrange(20)
        if k == 0:
            n = r.choice(["suite", "other suite", "s %d" % r.randrange(9)])
            text.append('(test-begin "%s"%s)' % (n, r.choice(["", " 5"])) if r.random() < 0.7 else '(test-name "%s")' % n)
            st["name"], st["serial"] = n, 0
        elif k == 1:
            text.append(r.choice(["(test-end)", '(test-end "suite")']))
        elif k == 2:
            st["track"] = not st["track"]
            text.append("(set! *test-track-progress* %s)" % ("#t" if st["track"] else "#f"))
        elif k == 3:
            text.append(r.choice(["(set! + -)", "(define + (lambda x 0))", "(set! zero? (lambda (x) (= x 0)))", "(define + (lambda x (apply - x)))"]))
        elif k == 4:
            text.append("(test-display-result)")
            out.append("%s1 tests, %d assertions, %d successes, %d failures, 0 errors\n" % ("FAILED: " if st["f"] else "OK: ", st["n"], st["n"] - st["f"], st["f"]))
        elif k in (5, 6):
            f = r.choice(["test-assert", "test-true", "assert-true"])
            n, t = nm(f == "assert-true")
            v = r.choice(VALS)
            text.append("(%s %s%s)" % (f, t, v[0]))
            one(n or auto(), v[1] != "#f")
        elif k in (7, 8):
            f = r.choice(["test-false", "assert-false"])
            n, t = nm(f == "assert-false")
            v = r.choice([("#f", "#f")] + VALS)
            text.append("(%s %s%s)" % (f, t, v[0]))
            one(n or auto(), v[1] == "#f")
        elif k in (9, 10, 11):
            f = r.choice(["test-equal", "assert-equal?", "test-equal"])
            n, t = nm(f == "assert-equal?")
            a, b = two(VALS)
            text.append("(%s %s%s %s)" % (f, t, a[0], b[0]))
            one(n or auto(), a[1] == b[1], None, (a[1], b[1]))
        elif k == 12:
            f = r.choice(["test-eqv", "test-eq", "assert-eq?"])
            n, t = nm(f == "assert-eq?")
            a, b = two(EQV if f == "test-eqv" else SIMPLE)
            ok = a[1] == b[1]
            if r.random() < 0.25:
                a = b = r.choice(FRESH)
                ok = False
            text.append("(%s %s%s %s)" % (f, t, a[0], b[0]))
            one(n or auto(), ok, None, (a[1], b[1]))
        elif k in (13, 14):
            bad = r.random() < 0.5
            e = r.choice(RAISING if bad else PLAIN)
            if r.random() < 0.5:
                n, t = nm(True)
                text.append("(assert-error %s(lambda () %s))" % (t, e))
            else:
                n, t = nm()
                if n and r.random() < 0.5:
                    t += "#t "
                elif n:
                    t = "%s #t " % t
                text.append("(test-error %s%s)" % (t, e))
                n = n or auto()
            one(n, bad, "no error has occurred in test " + n)
        elif k == 15:
            bad = r.random() < 0.5
            n, t = nm(True)
            text.append('(assert-parse-error %s"%s")' % (t, r.choice(PARSE_BAD if bad else PARSE_OK)))
            one(n, bad, "no error has occurred in test " + n)
        elif k == 16:
            bad = r.random() < 0.5
            n, t = nm(True)
            text.append('(assert-parseable %s"%s")' % (t, r.choice(PARSE_BAD if bad else PARSE_OK)))
            one(n, not bad)
        elif k == 17:
            xs = [r.choice([1, 2, 3]) for _ in range(r.randrange(5))]
            text.append("(for-each (lambda (x) (test-equal 2 x)) '(%s))" % " ".join(map(str, xs)))
            for x in xs:
                one(auto(), x == 2, None, ("2", str(x)))
        elif k == 18:
            c = r.randrange(4)
            if c == 0:
                text.append('(write (assert-true "w" %s))' % r.choice(["1", "#t"]))
                one("w", True)
                out.append("#t")
            elif c == 1:
                text.append('(write (assert-fail "w" "the message"))')
                one("w", False, "the message")
                out.append("#f")
            elif c == 2:
                text.append('(write (assert "w" "msg" (memv 2 \'(1 2))))')
                one("w", True)
                out.append("#t")
            else:
                text.append("(write (test-name))")
                out.append('"%s"' % auto())
        else:
            v = r.choice(VALS)
            s = v[0].replace("\\", "\\\\").replace('"', '\\"')
            c = r.random()
            if c < 0.5:
                text.append('(test-equal %s (test-read-eval-string "%s"))' % (v[0], s))
                one(auto(), True)
            elif c < 0.7:
                text.append('(test-equal %s (string-eval "%s"))' % (v[0], s))
                one(auto(), True)
            elif c < 0.85:
                e = r.choice(["%s %s" % (s, s), "", "%s)" % s, "1 2", " "])
                text.append('(test-error (test-read-eval-string "%s"))' % e)
                one(auto(), True)
            else:
                text.append("(write (obj->literal %s))" % v[0])
                out.append('"%s"' % v[1].replace("\\", "\\\\").replace('"', '\\"'))
    end = r.randrange(8)
    line = "%s1 tests, %d assertions, %d successes, %d failures, 0 errors\n" % ("FAILED: " if st["f"] else "OK: ", st["n"], st["n"] - st["f"], st["f"])
    code = 0
    if end < 6:
        text.append(r.choice(["(total-report)", "(test-report-result)"]) + '(display "not reached")')
        out.append(line)
        code = 70 if st["f"] else 0
    elif end == 6:
        text.append('(test-skip "no such feature")(display "not reached")')
        out.append("SKIP: no such feature\n")
        code = 77
    return "\n".join(text) + "\n", "".join(out), code, st["n"], st["f"]


def gen(r, n):
    return [script(r) for _ in range(n)]


def run(ctx):
    ctx.rule = ("a case is a test script run by sscm: 3-30 random assertions of every kind with known outcome (also in loops, with names given or numbered, with `+` rebound by the script, with "
                "progress shown), then a report, a skip or nothing; the whole output and the exit status are compared with what the assertions must give; distinct by text")
    variants = ("san-compact", "san-fatty", "san-hygienic", "opt-compact")
    dirs = {v: B.build(v, ()) for v in variants}
    cases = common.par(gen, ctx.n(1600, 20000), "L10/%d" % ctx.seed)

    def one(i, c):
        v = variants[i % len(variants)]
        return v, c, launch(dirs[v], ["a.scm"], b"", {"a.scm": c[0].encode()})
    with ThreadPoolExecutor(R.NPROC) as ex:
        for v, (text, out, st, n, f), p in ex.map(lambda a: one(*a), enumerate(cases)):
            ctx.count("script", text)
            ctx.stats["assertions"] = ctx.stats.get("assertions", 0) + n
            ctx.stats["failing assertions"] = ctx.stats.get("failing assertions", 0) + f
            got = p.out.decode("utf-8", "surrogateescape")
            san = R.san_summary(p.err)
            d = None
            if p.timeout or p.cpu:
                d = "did not end"
            elif san:
                d = san
            elif p.rc != st:
                d = "exit status %d instead of %d" % (p.rc, st)
            elif got != out:
                d = "output differs"
            elif p.err:
                d = "standard error is not empty"
            if d:
                ctx.violation("script:" + d[:60], "%s: %s\nwanted %d %r\ngot %d %r\nstderr %r" % (v, d, st, out, p.rc, got, p.err[-300:]), text)
            else:
                k = "status%d" % st
                ctx.kinds[k] = ctx.kinds.get(k, 0) + 1
                ctx.sample("%d assertions, %d failing => status %d" % (n, f, st))
    ctx.minimum = 300
