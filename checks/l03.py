"""L03: hash tables (SRFI-69) against a finite map."""
from checks import common

PRE = r"""(use srfi-34)(use srfi-8)(require-extension (srfi 69))
(define out '())
(define (A x) (set! out (cons x out)))
(define (canon al univ eqv)
  (cons (length al)
    (map (lambda (k)
           (let loop ((l al) (n 0) (v '-))
             (cond ((null? l) (list n v))
                   ((eqv k (caar l)) (loop (cdr l) (+ n 1) (cdar l)))
                   (else (loop (cdr l) n v)))))
         univ)))
(define (occurs l univ eqv)
  (cons (length l) (map (lambda (k) (let loop ((l l) (n 0)) (cond ((null? l) n) ((eqv k (car l)) (loop (cdr l) (+ n 1))) (else (loop (cdr l) n))))) univ)))
(define (walked t) (let ((r '())) (hash-table-walk t (lambda (k v) (set! r (cons (cons k v) r)))) r))
(define (mod10= a b) (= (modulo a 10) (modulo b 10)))
(define (mod10-hash k b) (modulo (modulo k 10) b))
(define (bad-hash k b) 0)
(define (bad-hash1 k b) (- b 1))
"""

INTS = ["0", "1", "-1", "2", "63", "64", "65", "128", "-64", "1000", "536870909", "536870910", "-536870909", "1073741823", "100000000000", "-100000000001", "576460752303423487", "7", "8", "9", "10", "11", "12", "13"]
SYMS = ["a", "b", "c", "foo", "bar", "list", "if", "x1", "x2", "x3", "x4", "x5", "x6", "hello-world!", "A", "B"]
STRS = ['""', '"a"', '"b"', '"ab"', '"ba"', '"aa"', '"hello world"', '"日本"', '"本日"', '"é"', '"a\\\\b"', '"abcdefghijklmnopqrstuvwxyz"', '"A"', '"Ab"', '"x1"', '"x2"', '"x3"']
CHARS = ["#\\a", "#\\b", "#\\A", "#\\space", "#\\日", "#\\0"]
LISTS = ["()", "(1)", "(1 2)", "(2 1)", "((1) 2)", "(1 . 2)", "(a b c)", '("a" b)', "(1 (2 (3 (4))))", "(-5 -6)"]
VECS = ["#()", "#(1)", "#(1 2)", "#(a #(b))", '#("x" #\\y)', "#(-1 -2 -3)"]
BOOLS = ["#t", "#f"]
CI = ['"abc"', '"ABC"', '"Abc"', '"x"', '"X"', '"hello"', '"HELLO"', '"hellO"', '""', '"a1"', '"A1"', '"z"', '"Z"', '"[a"', '"{A"', '"@"', '"`"']


def ci(k):
    return "".join(c.lower() if c.isascii() else c for c in k)


def kinds(bits):
    I = INTS
    return {
        # name: (constructors, keys, equivalence text, class of a key)
        "equal": (["(make-hash-table)", "(make-hash-table equal?)", "(make-hash-table equal? hash)", "(make-hash-table equal? hash %d)", "(make-hash-table equal? bad-hash %d)", "(make-hash-table equal? bad-hash1 %d)"],
                  I + SYMS + STRS + CHARS + LISTS + VECS + BOOLS, "equal?", lambda k: k),
        "eqv": (["(make-hash-table eqv?)", "(make-hash-table eqv? hash %d)"], I + SYMS + CHARS + BOOLS + ["()"], "eqv?", lambda k: k),
        "eq": (["(make-hash-table eq?)", "(make-hash-table eq? hash-by-identity %d)", "(make-symbol-hash-table)"], SYMS, "eq?", lambda k: k),
        "string": (["(make-string-hash-table)", "(make-hash-table string=?)", "(make-hash-table string=? string-hash %d)"], STRS, "string=?", lambda k: k),
        "ci": (["(make-string-ci-hash-table)", "(make-hash-table string-ci=?)", "(make-hash-table string-ci=? string-ci-hash %d)"], CI, "string-ci=?", ci),
        "int": (["(make-integer-hash-table)", "(make-hash-table = modulo %d)", "(make-hash-table =)"], I, "=", lambda k: k),
        "mod": (["(make-hash-table mod10= mod10-hash)", "(make-hash-table mod10= mod10-hash %d)"], [str(i) for i in range(0, 45)], "mod10=", lambda k: int(k) % 10),
        "many": (["(make-hash-table)", "(make-hash-table equal? hash %d)", "(make-integer-hash-table)", "(make-hash-table = modulo %d)"], [str(i * 7 - 100) for i in range(150)], "=", lambda k: k),
    }


KINDS = kinds(60)


class Model:
    def __init__(self, cls):
        self.cls = cls
        self.d = {}        # class -> value

    def copy(self):
        m = Model(self.cls)
        m.d = dict(self.d)
        return m


def q(k):
    return k if k[0] in '"#-0123456789' and not k.startswith("#(") and k != "-" else "'" + k


def fresh(k):
    """a key expression; strings, lists and vectors sometimes newly made"""
    if k[0] == '"':
        return "(string-copy %s)" % k
    if k[0] == "(" and k != "()" and " . " not in k:
        return "(append '%s '())" % k
    return q(k)


def gen(r, n):
    res = []
    while len(res) < n:
        kind = r.choice(list(KINDS))
        cons, univ, eqv, cls = KINDS[kind]
        size = r.randint(4, 40) if kind != "many" else r.randint(60, 200)
        if kind != "many":
            univ = r.sample(univ, min(len(univ), r.randint(2, 24)))
        mk = lambda: (lambda c: c % r.choice([1, 2, 3, 5, 8, 64]) if "%d" in c else c)(r.choice(cons))
        tabs = [Model(cls) for _ in range(r.randint(1, 3))]
        binds = " ".join("(t%d %s)" % (i, mk()) for i in range(len(tabs)))
        ops, exp = [], []
        uq = "'(%s)" % " ".join(univ)

        def dump(i):
            m = tabs[i]
            z = r.randrange(5)
            src = ["(hash-table->alist t%d)" % i, "(walked t%d)" % i, "(hash-table-fold t%d (lambda (k v a) (cons (cons k v) a)) '())" % i]
            if z < 3:
                ops.append("(A (canon %s univ eqv))" % src[z])
                exp.append("(%s)" % " ".join([str(len(m.d))] + ["(%s)" % ("1 %s" % m.d[cls(k)] if cls(k) in m.d else "0 -") for k in univ]))
            elif z == 3:
                ops.append("(A (occurs (hash-table-keys t%d) univ eqv))" % i)
                exp.append("(%s)" % " ".join([str(len(m.d))] + ["1" if cls(k) in m.d else "0" for k in univ]))
            else:
                vs = list(m.d.values())
                vu = sorted(set(vs))[:12]
                ops.append("(A (occurs (hash-table-values t%d) '(%s) =))" % (i, " ".join(str(x) for x in vu)))
                exp.append("(%s)" % " ".join([str(len(vs))] + [str(vs.count(x)) for x in vu]))
        cnt = 0
        for _ in range(size):
            i = r.randrange(len(tabs))
            m = tabs[i]
            k = r.choice(univ)
            ke = fresh(k) if r.random() < 0.6 else q(k)
            if kind in ("eq",):
                ke = q(k)
            c = cls(k)
            cnt += 1
            z = r.random()
            if z < 0.36:
                ops.append("(hash-table-set! t%d %s %d)" % (i, ke, cnt))
                m.d[c] = cnt
            elif z < 0.44:
                if r.random() < 0.5:
                    ops.append("(hash-table-update!/default t%d %s (lambda (x) (+ x %d)) 1000)" % (i, ke, cnt))
                else:
                    ops.append("(hash-table-update! t%d %s (lambda (x) (+ x %d)) (lambda () 1000))" % (i, ke, cnt))
                m.d[c] = m.d.get(c, 1000) + cnt
            elif z < 0.48:
                ops.append("(A (guard (e (#t 'err)) (hash-table-update! t%d %s (lambda (x) (* x 2))) 'done))" % (i, ke))
                if c in m.d:
                    m.d[c] *= 2
                    exp.append("done")
                    if m.d[c] > 10 ** 12:
                        m.d[c] = 5
                        ops.append("(hash-table-set! t%d %s 5)" % (i, ke))
                else:
                    exp.append("err")
            elif z < 0.64:
                ops.append("(hash-table-delete! t%d %s)" % (i, ke))
                m.d.pop(c, None)
            elif z < 0.7:
                ops.append("(A (hash-table-exists? t%d %s))" % (i, ke))
                exp.append("#t" if c in m.d else "#f")
            elif z < 0.76:
                ops.append("(A (hash-table-ref/default t%d %s 'no))" % (i, ke))
                exp.append(str(m.d.get(c, "no")))
            elif z < 0.8:
                ops.append("(A (guard (e (#t 'err)) (hash-table-ref t%d %s)))" % (i, ke))
                exp.append(str(m.d.get(c, "err")))
            elif z < 0.83:
                ops.append("(A (hash-table-ref t%d %s (lambda () 'none)))" % (i, ke))
                exp.append(str(m.d.get(c, "none")))
            elif z < 0.88:
                ops.append("(A (hash-table-size t%d))" % i)
                exp.append(str(len(m.d)))
            elif z < 0.94:
                dump(i)
            elif z < 0.96 and len(tabs) < 5:
                ops.append("(set! t%d (hash-table-copy t%d))" % (len(tabs), i))
                tabs.append(m.copy())
            elif z < 0.975:
                j = r.randrange(len(tabs))
                if j != i:
                    ops.append("(A (eq? t%d (hash-table-merge! t%d t%d)))" % (i, i, j))
                    exp.append("#t")
                    m.d.update(tabs[j].d)
            elif len(tabs) < 5:
                ks = [r.choice(univ) for _ in range(r.randint(0, 8))]
                al = []
                nm = Model(cls)
                for x in ks:
                    cnt += 1
                    al.append("(%s . %d)" % (x, cnt))
                    nm.d.setdefault(cls(x), cnt)
                extra = {"equal": "", "many": "", "mod": " mod10= mod10-hash", "int": " = modulo", "ci": " string-ci=?", "string": " string=?", "eq": " eq?", "eqv": " eqv?"}[kind]
                if kind == "mod":
                    extra += r.choice(["", " 1", " 7"])
                ops.append("(set! t%d (alist->hash-table '(%s)%s))" % (len(tabs), " ".join(al), extra))
                tabs.append(nm)
        for i in range(len(tabs)):
            dump(i)
            ops.append("(A (hash-table-size t%d))" % i)
            exp.append(str(len(tabs[i].d)))
        for i in range(len(binds.split("(t")) - 1, 5):
            binds += " (t%d #f)" % i
        res.append(("(let ((univ %s) (eqv %s) %s) (set! out '()) %s (reverse out))" % (uq, eqv, binds, " ".join(ops)), "(%s)" % " ".join(exp)))
    return res


def misc(r, n):
    res = []
    allk = INTS + SYMS + STRS + CHARS + LISTS + VECS + BOOLS
    while len(res) < n:
        z = r.randrange(9)
        b = r.choice([1, 2, 3, 7, 64, 1000, 536870909])
        if z < 3:
            k = r.choice(allk) if z else "(%s)" % " ".join(r.choice(allk) for _ in range(r.randint(1, 6)))
            if z == 2:
                k = "#" + "(%s)" % " ".join(r.choice(allk) for _ in range(r.randint(0, 6)))
            bb = " %d" % b if r.random() < 0.7 else ""
            res.append(("(let ((h (hash %s%s)) (h2 (hash %s%s))) (list (= h h2) (<= 0 h) (< h %s)))" % (q(k), bb, fresh(k), bb, b if bb else "(+ 536870909 0)"), "(#t #t #t)"))
        elif z == 3:
            k = r.choice(STRS)
            res.append(("(let ((h (string-hash %s %d))) (list (= h (string-hash (string-copy %s) %d)) (<= 0 h) (< h %d)))" % (k, b, k, b, b), "(#t #t #t)"))
        elif z == 4:
            k = r.choice(CI)
            k2 = "".join(c.upper() if r.random() < 0.5 else c.lower() for c in k)
            res.append(("(let ((h (string-ci-hash %s %d))) (list (= h (string-ci-hash %s %d)) (<= 0 h) (< h %d)))" % (k, b, k2, b, b), "(#t #t #t)"))
        elif z == 5:
            k = r.choice(SYMS)
            res.append(("(let ((h (hash-by-identity '%s %d))) (list (= h (hash-by-identity (string->symbol (symbol->string '%s)) %d)) (<= 0 h) (< h %d)))" % (k, b, k, b, b), "(#t #t #t)"))
        elif z == 6:
            x = r.choice(["1", "'()", "'(1)", "(vector 1 2 3 4 5)", "(vector)", "\"a\"", "car", "'a", "#t"])
            res.append(("(hash-table? %s)" % x, "#f"))
        elif z == 7:
            f = r.choice(["hash-table-set! X 1 2", "hash-table-ref/default X 1 2", "hash-table-delete! X 1", "hash-table-exists? X 1", "hash-table-size X", "hash-table-keys X", "hash-table-copy X",
                          "hash-table->alist X", "hash-table-walk X list", "hash-table-update! X 1 list", "hash-table-fold X list 1", "hash-table-merge! (make-hash-table) X"])
            res.append(("(%s)" % f.replace("X", r.choice(["1", "'()", "(vector 1 2 3 4 5 6)", "\"a\"", "car", "'a"])), "err"))
        else:
            res.append((r.choice(["(let ((t (make-hash-table))) (list (hash-table? t) (vector? t) (pair? t) (procedure? t) (hash-table-size t)))",
                                  "(let ((t (make-hash-table eq?))) (list (hash-table? t) (vector? t) (eq? eq? (hash-table-equivalence-function t)) (eq? hash-by-identity (hash-table-hash-function t)) 0))",
                                  "(let ((t (make-hash-table string=? string-hash 7))) (list (eq? string=? (hash-table-equivalence-function t)) #f (not (eq? string-hash (hash-table-hash-function t))) #f (hash-table-size t)))"]),
                        "(#t #f #f #f 0)"))
            if "eq? eq?" in res[-1][0]:
                res[-1] = (res[-1][0], "(#t #f #t #t 0)")
    return res


def run(ctx):
    ctx.rule = ("random histories of 4 to 200 operations over one to five tables of every kind (eq?, eqv?, equal?, string, case-insensitive, integer, user equivalence; one bucket to 64; colliding hash functions), "
                "every answer and the full contents compared with a finite map; hash functions on equal keys; distinct by program text")
    items = common.par(gen, ctx.n(2400, 40000), "%s/%d" % (ctx.prop, ctx.seed))
    h = len(items) // 2
    common.bulk(ctx, "san-compact", items[:h // 2], PRE, "table", per=3)
    common.bulk(ctx, "san-fatty", items[h // 2:h], PRE, "table", per=3)
    common.bulk(ctx, "opt-compact", items[h:], PRE, "table", per=3)
    ms = common.par(misc, ctx.n(4000, 40000), "%s/%d/misc" % (ctx.prop, ctx.seed))
    common.bulk(ctx, "san-compact", ms[:len(ms) // 2], PRE, "hash")
    common.bulk(ctx, "san-fatty", ms[len(ms) // 2:], PRE, "hash")
    common.bulk(ctx, "san-compact", items[:len(items) // 40], PRE, "table-gc", per=3, env={"VF_GC_INTERVAL": "23", "VF_GC_SEED": ctx.seed})
    ctx.extra["table_operations"] = sum(e.count("(hash-table-") for e, _ in items)
    ctx.minimum = 3000
