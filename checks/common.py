"""Random programs judged by the reference interpreter, and text helpers."""
import os
import random

from vlib import interp, progen
from vlib.check import Case
from vlib.datum import parse_all

# no exception handler of the driver around the cases: only for programs that end normally
BARE = ("(define vf-case (lambda (id thunk) (vf-tick) (display \"\\n@@B \") (display id) (newline) (let ((v (thunk))) "
        "(display \"\\n@@R ok \") (vf-show v)) (display \"\\n@@E \") (display id) (newline)))")
PRE = "(use srfi-6)(use srfi-8)(use srfi-23)(use srfi-34)(use srfi-2)" + progen.PRELUDE


def expect(text, bits=60, limit=100000, pre=""):
    return interp.run_forms(parse_all(pre + text), bits, limit)


def par(fn, n, seed, *args):
    """fn(rng, count, *args) -> list of picklable; run in parallel processes."""
    k = os.cpu_count() or 4
    if n < 64:
        return fn(random.Random("%s/0" % seed), n, *args)
    share = (n + k - 1) // k
    fds = []
    import pickle
    for i in range(k):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                res = fn(random.Random("%s/%d" % (seed, i)), share, *args)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(res, fh)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            os._exit(code)
        os.close(w)
        fds.append((pid, r))
    out = []
    bad = False
    for pid, r in fds:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, st = os.waitpid(pid, 0)
        if st:
            bad = True
        else:
            out += pickle.loads(data)
    if bad:
        raise RuntimeError("a generator process failed")
    return out


def _programs(rng, n, feats, err, size, maxlen, must):
    got = []
    tries = 0
    while len(got) < n and tries < n * 6:
        tries += 1
        text = progen.program(rng, feats, err, rng.randint(size // 3, size))
        if len(text) > maxlen or len(text) < 12 or (must and not any(m in text for m in must)):
            continue
        r = expect(text)
        if r is None:
            continue
        kind, v, out = r
        if len(out) > 20000 or "#<" in v or "#<" in out:
            continue
        got.append((text, kind, v, out))
    return got


def random_programs(ctx, n, feats, err=0.02, size=40, tag="random", maxlen=6000, must=None):
    res = par(_programs, n, "%s/%d/%s/%d" % (ctx.prop, ctx.seed, tag, size), feats, err, size, maxlen, must)
    return [Case(t, (k, v if k != "err" else None, o), tag) for t, k, v, o in res]


def fixed(text, tag="fixed", prelude=""):
    """Lines 'expr' judged by the reference interpreter; 'expr ==> text' by the text given
    ('error' for an error)."""
    cases = []
    for l in text.strip().split("\n"):
        l = l.strip()
        if not l or l.startswith(";;"):
            continue
        if " ==> " in l:
            e, want = l.rsplit(" ==> ", 1)
            if want == "error":
                cases.append(Case(e, ("err",), tag))
            elif want.startswith("out:"):
                w = want[4:]
                o, _, v = w.partition("|")
                cases.append(Case(e, ("ok", v if v else None, o), tag))
            elif want.startswith("raise:"):
                cases.append(Case(e, ("raise", want[6:]), tag))
            else:
                cases.append(Case(e, ("ok", want), tag))
        else:
            r = expect(l, pre=prelude)
            assert r is not None, l
            cases.append(Case(l, (r[0], r[1] if r[0] != "err" else None, r[2]), tag))
    return cases


def numbered(case, n):
    case.id = n
    return case


# forms that need exactly one ordinary value at %
ONE = ["(let ((x %)) 1)", "(let ((y 1) (x %)) 1)", "(let* ((x %)) 1)", "(let* ((y 1) (x %)) 1)", "(letrec ((x %)) 1)", "(letrec ((x 1) (y %)) 1)",
       "(let l ((x %)) 1)", "(let l ((y 1) (x %)) 1)", "(do ((x % 1)) (#t 1))", "(do ((i 0 %) (k 0 (+ k 1))) ((= k 1) 1))",
       "(let-optionals* '() ((x %)) 1)", "(let-optionals* '(1) (y (x %)) 1)", "(let-optionals* '() ((y 1) (x %) . z) 1)",
       "(let-optionals* % ((x 1)) 1)", "(let ((x 0)) (set! x %) 1)", "((lambda (x) 1) %)", "((lambda (x y) 1) 1 %)", "((lambda x 1) %)",
       "((lambda (y . x) 1) 1 2 %)", "(car %)", "(+ 1 %)", "(+ % 1)", "(list %)", "(list 1 %)", "(vector 1 % 2)", "(cons % 1)", "(cons 1 %)", "(eq? % 1)",
       "(< 1 %)", "(number->string 1 %)", "(if % 1 2)", "(cond (% 1) (else 2))", "(cond (%) (else 2))", "(cond (#f 1) (% => list))",
       "(case % ((1) 1) (else 2))", "(and % 1)", "(and 1 % 1)", "(or % 1)", "(or #f % 1)", "(and-let* ((x %)) 1)", "(and-let* ((y 1) (x %)) 1)",
       "(apply + %)", "(apply + 1 %)", "(apply car (list %))", "(let () (define y %) 1)", "(let () (define z 1) (define y %) 1)", "(raise %)",
       "(force (delay %))", "(values 1 %)", "(string-append %)", "(call-with-values % list)", "(dynamic-wind % (lambda () 1) (lambda () 1))",
       "(list (begin 1 %))", "(list (let ((a 1)) %))", "(list ((lambda () %)))", "(list (if #t % 1))", "(list (cond (#t %)))", "(list (case 1 ((1) %)))",
       "(list (and 1 %))", "(list (or #f %))", "(list (let* ((a 1)) %))", "(list (letrec ((a 1)) %))", "(list (let loop ((a 1)) %))", "(list (do () (#t %)))",
       "(list (let-optionals* '() ((a 1)) %))", "(list (receive (a) 1 %))", "(list (and-let* ((a 1)) %))"]


def one_value(bads):
    return [Case(c.replace("%", b), ("err", None, ""), "one-value") for c in ONE for b in bads]


def bulk(ctx, variant, items, prelude, tag, per=30, **kw):
    """items: (expression, expected text; 'err' for an error).  Many expressions per case;
    a differing group is run again one expression at a time."""
    from vlib import runner as R
    groups = [items[i:i + per] for i in range(0, len(items), per)]
    if "batch" not in kw:
        kw["batch"] = max(4, min(60, len(groups) // (R.NPROC * 2) + 1))

    def body(g):
        return "(list %s)" % " ".join("(guard (e%% (#t 'err)) %s)" % e for e, _ in g)
    res = R.run_cases(variant, [(i + 1, body(g)) for i, g in enumerate(groups)], prelude, stats=ctx.stats, **kw)
    bad = []
    for i, g in enumerate(groups):
        r = res[i + 1]
        if r.kind == "skipped":
            ctx.skipped += len(g)
            continue
        if r.kind == "ok" and r.text == "(%s)" % " ".join(w for _, w in g):
            for e, w in g:
                ctx.count(tag, e)
                ctx.kinds["err" if w == "err" else "ok"] = ctx.kinds.get("err" if w == "err" else "ok", 0) + 1
        else:
            bad.append((g, r))
    for cid, x in res.items():
        if cid < 0:
            ctx.violation("finalise:" + x.msg[:80], "%s: %s" % (variant, x.msg), prelude)
    if items:
        ctx.sample("%s: %s => %s" % ((tag,) + tuple(items[ctx.rng.randrange(len(items))])))
    k = dict(kw)
    k.pop("batch")
    for g, r in bad[:20]:
        n = len(ctx.viol)
        ctx.run(variant, [Case("(guard (e%% (#t 'err)) %s)" % e, ("ok", w), tag) for e, w in g], prelude, **k)
        if len(ctx.viol) == n:
            ctx.run(variant, [Case(body(g), ("ok", "(%s)" % " ".join(w for _, w in g)), tag + "-group")], prelude, **k)
        if len(ctx.viol) == n:
            # only after what ran before it in the same interpreter
            at = groups.index(g)
            start = at - at % kw["batch"]
            ctx.violation("%s:state:%d" % (tag, at), "%s %s: wrong only after the cases before it\n  got: %r\n  in:  %s\n  expected: (%s)" % (
                variant, tag, r, body(g)[:1500], " ".join(w for _, w in g)),
                ctx.script(prelude, [numbered(Case(body(x), ("any",), tag), start + i + 1) for i, x in enumerate(groups[start:at + 1])], kw))
    return len(bad)
