"""L06: record types (SRFI-9) against a model of tagged instances."""
from checks import common
from vlib.check import Case

PRE = r"""(use srfi-34)(use srfi-9)
(define out '())
(define (A x) (set! out (cons x out)))
(define-syntax-rule-dummy #f)
(define (others x) (list (vector? x) (pair? x) (null? x) (procedure? x) (symbol? x) (string? x) (char? x) (boolean? x) (number? x) (eof-object? x)))
""".replace("(define-syntax-rule-dummy #f)\n", "")
NONE = "(#f #f #f #f #f #f #f #f #f #f)"
JUNK = ["5", "'a", '"s"', "'()", "#f", "car", "(lambda (x) x)", "(vector)", "(vector 1 2 3)", "(vector (vector 1) 2 3 4)", "'(1 2)", "#\\a", "(make-vector 4 #f)", "(current-output-port)", "(delay 1)"]
FIELDS = ["x", "y", "z", "w", "name", "next", "car", "type", "a1", "b2"]


class T:
    pass


def deftype(r, i, uid, tyname=None):
    t = T()
    n = r.randint(0, 5)
    t.fields = r.sample(FIELDS, n)
    k = r.randint(0, n)
    t.ctags = r.sample(t.fields, k)
    t.name = tyname or ":%s-t%d" % (uid, i)
    t.ctor, t.pred = "%s-make%d" % (uid, i), "%s-p%d?" % (uid, i)
    t.acc = {f: "%s-t%d-%s" % (uid, i, f) for f in t.fields}
    t.mod = {f: "%s-set-t%d-%s!" % (uid, i, f) for f in t.fields if r.random() < 0.75}
    t.text = "(define-record-type %s (%s) %s%s)" % (t.name, " ".join([t.ctor] + t.ctags), t.pred, "".join(
        " (%s %s%s)" % (f, t.acc[f], " " + t.mod[f] if f in t.mod else "") for f in t.fields))
    return t


def gen(r, n):
    res = []
    serial = 0
    while len(res) < n:
        serial += 1
        uid = "r%d%c%c" % (serial, r.choice("abcdefghijklmnopqrstuvwxyz"), r.choice("abcdefghijklmnopqrstuvwxyz")) + str(r.randrange(10 ** 6))
        types = []
        for i in range(r.randint(1, 4)):
            # the same type name again makes a new type all the same
            types.append(deftype(r, i, uid, r.choice(types).name if types and r.random() < 0.2 else None))
        ops, exp = [], []
        inst = []            # (type, {field: value text})
        cnt = 0

        def val():
            return r.choice(["%d" % cnt, "sym%d" % cnt, '"s%d"' % cnt, "(l %d)" % cnt, "#t", "#f", "()", "#(v %d)" % cnt])
        for _ in range(r.randint(4, 40)):
            cnt += 1
            z = r.random()
            t = r.choice(types)
            if (z < 0.25 or not inst) and len(inst) < 8:
                vs = [val() for _ in t.ctags]
                ops.append("(set! i%d (%s%s))" % (len(inst), t.ctor, "".join(" '" + v for v in vs)))
                inst.append((t, dict(zip(t.ctags, vs))))
            elif not inst:
                continue
            elif z < 0.32:
                k = len(t.ctags) + r.choice([-1, 1, 2])
                if k >= 0:
                    ops.append("(A (guard (e (#t 'err)) (%s%s) 'made))" % (t.ctor, " 1" * k))
                    exp.append("err")
            elif z < 0.42:
                k = r.randrange(len(inst))
                ops.append("(A (list %s))" % " ".join("(%s i%d)" % (x.pred, k) for x in types))
                exp.append("(%s)" % " ".join("#t" if x is inst[k][0] else "#f" for x in types))
            elif z < 0.47:
                ops.append("(A (%s %s))" % (t.pred, r.choice(JUNK + [t.acc[f] for f in t.fields] + [t.name])))
                exp.append("#f")
            elif z < 0.5:
                ops.append("(A (others i%d))" % r.randrange(len(inst)))
                exp.append(NONE)
            elif z < 0.75:
                k = r.randrange(len(inst))
                it, d = inst[k]
                ok = r.random() < 0.75
                if ok and d:
                    f = r.choice(sorted(d))
                    ops.append("(A (%s i%d))" % (it.acc[f], k))
                    exp.append(d[f])
                elif t.fields:
                    f = r.choice(t.fields)
                    if r.random() < 0.6:
                        if it is t:
                            continue
                        x = "i%d" % k
                    else:
                        x = r.choice(JUNK + [t.name])
                    ops.append("(A (guard (e (#t 'err)) (%s %s) 'got))" % (t.acc[f], x))
                    exp.append("err")
            elif z < 0.95:
                k = r.randrange(len(inst))
                it, d = inst[k]
                v = val()
                if r.random() < 0.75:
                    if it.mod:
                        f = r.choice(sorted(it.mod))
                        if r.random() < 0.1:
                            # an instance may hold instances, itself included
                            j = r.randrange(len(inst))
                            ops.append("(%s i%d i%d)" % (it.mod[f], k, j))
                            ops.append("(A (eq? (%s i%d) i%d))" % (it.acc[f], k, j))
                            exp.append("#t")
                        ops.append("(%s i%d '%s)" % (it.mod[f], k, v))
                        d[f] = v
                elif t.mod:
                    f = r.choice(sorted(t.mod))
                    if r.random() < 0.6:
                        if it is t:
                            continue
                        x = "i%d" % k
                    else:
                        x = r.choice(JUNK)
                    ops.append("(A (guard (e (#t 'err)) (%s %s 'bad) 'set))" % (t.mod[f], x))
                    exp.append("err")
            elif len(inst) > 1:
                a, b = r.randrange(len(inst)), r.randrange(len(inst))
                ops.append("(A (list (eq? i%d i%d) (eqv? i%d i%d)))" % (a, b, a, b))
                exp.append("(#t #t)" if a == b else "(#f #f)")
        # everything every instance holds
        for k, (it, d) in enumerate(inst):
            fs = sorted(d)
            ops.append("(A (list (%s i%d)%s))" % (it.pred, k, "".join(" (%s i%d)" % (it.acc[f], k) for f in fs)))
            exp.append("(%s)" % " ".join(["#t"] + [d[f] for f in fs]))
        body = "(let (%s) (set! out '()) %s (reverse out))" % (" ".join("(i%d #f)" % i for i in range(8)), " ".join(ops))
        res.append(("\n".join(t.text for t in types), body, "(%s)" % " ".join(exp)))
    return res


BROKEN = """
(define-record-type)
(define-record-type p)
(define-record-type p (mk))
(define-record-type 5 (mk) p?)
(define-record-type p mk p?)
(define-record-type p (mk) 5)
(define-record-type p (mk x) p?)
(define-record-type p (mk x y) p? (x px))
(define-record-type p (mk) p? x)
(define-record-type p (mk) p? (x))
(define-record-type p (mk) p? (5 px))
(define-record-type p (mk) p? (x 5))
(define-record-type p (mk) p? (x px 5))
(define-record-type p (mk) p? (x px spx z))
(define-record-type p (mk) p? (x px . spx))
(define-record-type p (mk) p? (x px) . y)
(define-record-type p (mk . x) p? (x px))
(define-record-type "p" (mk) p? (x px))
"""


def run(ctx):
    ctx.rule = "random families of one to four record types (fields, constructor fields in any order, equal type names) and up to 40 operations on their instances and on other objects; distinct by program"
    items = common.par(gen, ctx.n(4000, 60000), "%s/%d" % (ctx.prop, ctx.seed))
    cases = [Case(b, ("ok", w, ""), "records", pre=p) for p, b, w in items]
    h = len(cases) // 2
    ctx.run("san-compact", cases[:h], PRE)
    ctx.run("san-fatty", cases[h:], PRE)
    ctx.run("san-compact", [Case(b, ("ok", w, ""), "records-gc", pre=p) for p, b, w in items[:len(items) // 20]], PRE, env={"VF_GC_INTERVAL": "9", "VF_GC_SEED": ctx.seed})
    # rebinding the names the library is made of, then collecting, changes nothing
    names = "make-record-type record-constructor record-predicate record-accessor record-modifier".split()
    reb = "(use srfi-34)(use srfi-9)\n" + "".join("(define %s 'mine)\n" % n for n in names) + "(define out '())\n(define (A x) (set! out (cons x out)))\n(define (others x) (list #f #f #f #f #f #f #f #f #f #f))\n(vf-gc)\n(define (churn n) (if (> n 0) (begin (list n (lambda () n)) (churn (- n 1)))))\n(churn 20000)\n"
    for v in ("san-compact", "san-fatty"):
        ctx.run(v, [Case(b, ("ok", w, ""), "records-rebound", pre=p) for p, b, w in items[:80]], reb)
        bad = [Case("(guard (e (#t 'err)) (eval '%s (interaction-environment)) 'accepted)" % l, ("ok", "err"), "malformed") for l in BROKEN.strip().split("\n")]
        bad += [Case("(guard (e (#t 'err)) (let () (define-record-type p (mk) p? (x px)) 1))", ("ok", "err"), "misplaced")]
        ctx.run(v, bad, PRE)
    ctx.extra["record_operations"] = sum(b.count("-t") for _, b, _ in items)
    ctx.minimum = 3000
