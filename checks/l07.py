"""L07: and-let*, receive, let-optionals*, cond-expand, module loading and require against models."""
import concurrent.futures
import os
import random
import shutil

from checks import common
from vlib import build as B, runner as R
from vlib.check import Case

PRE = "(use srfi-2)(use srfi-8)(use srfi-34)(use sscm-ext)(define (t k v) (display k) (display \",\") v)\n"
MODEL = "(define (t k v) (display k) (display \",\") v)\n"


# --- binding forms ------------------------------------------------------------
class G:
    def __init__(self, r):
        self.r, self.k, self.nv = r, 0, 0

    def tr(self, e):
        self.k += 1
        return "(t %d %s)" % (self.k, e)

    def var(self, vs):
        if vs and self.r.random() < 0.3:
            return self.r.choice(vs)          # shadows
        self.nv += 1
        return "v%d" % self.nv

    def atom(self, vs):
        r = self.r
        if vs and r.random() < 0.6:
            return r.choice(vs)
        return r.choice(["%d" % r.randint(-9, 99), "#t", "#f", "'s", "'()", '"q"', "#\\c", "(list 1 2)"])

    def body(self, vs, d):
        r = self.r
        out = []
        vs = list(vs)
        if r.random() < 0.15:
            v = self.var([])
            out.append("(define %s %s)" % (v, self.e(vs, d - 1)))
            vs.append(v)
            if r.random() < 0.4:
                f = self.var([])
                out.append("(define (%s x) (cons x %s))" % (f, v))
                out.append("(%s %s)" % (f, self.e(vs, d - 1)))
        while r.random() < 0.25:
            if vs and r.random() < 0.5:
                out.append("(set! %s %s)" % (r.choice(vs), self.e(vs, d - 1)))
            else:
                out.append(self.e(vs, d - 1))
        out.append(self.e(vs, d - 1))
        return " ".join(out)

    def claws(self, vs, d):
        r = self.r
        vs = list(vs)
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            z = r.random()
            if z < 0.5:
                e = self.tr(self.e(vs, d - 1))
                v = self.var(vs)
                out.append("(%s %s)" % (v, e))
                vs.append(v)
            elif z < 0.8 or not vs:
                out.append("(%s)" % self.tr(self.e(vs, d - 1)))
            else:
                out.append(r.choice(vs))
        return "(%s)" % " ".join(out), vs

    def vals(self, vs, d, n):
        r = self.r
        es = " ".join(self.tr(self.e(vs, d - 1)) for _ in range(n))
        z = r.random()
        if n == 1 and z < 0.5:
            return es
        if z < 0.6:
            return "(values%s)" % (" " + es if es else "")
        if z < 0.75:
            return "(apply values (list %s))" % es
        if z < 0.85:
            return "(call-with-values (lambda () (values %s)) values)" % es
        return "(call-with-current-continuation (lambda (k) (k %s)))" % es if n else "(values)"

    def e(self, vs, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.atom(vs)
        z = r.random()
        if z < 0.25:
            c, vs2 = self.claws(vs, d)
            b = self.body(vs2, d) if r.random() < 0.85 else ""
            return "(and-let* %s%s)" % (c, " " + b if b else "")
        if z < 0.45:
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            k = r.choice([0, n, n, max(0, n - 1)]) if r.random() < 0.6 else n
            names = []
            while len(names) < k:
                v = self.var(vs)
                if v not in names:
                    names.append(v)
            rest = None
            if k < n or (k <= n and r.random() < 0.3):
                rest = self.var([])
            give = n
            if r.random() < 0.06:
                give = r.randint(0, 5)
            f = " ".join(names) + (" . " + rest if rest and names else "")
            f = rest if rest and not names else "(%s)" % f
            return "(receive %s %s %s)" % (f, self.vals(vs, d, give), self.body(vs + names + ([rest] if rest else []), d))
        if z < 0.7:
            n = r.randint(0, 4)
            given = [self.tr(self.e(vs, d - 1)) for _ in range(r.randint(0, 4))]
            args = "(list %s)" % " ".join(given) if given or r.random() < 0.5 else "'()"
            if r.random() < 0.03:
                args = r.choice(["5", "#\\a", "#t", '"l"'])
            bs = []
            vs2 = list(vs)
            for i in range(n):
                v = self.var(vs2)
                if i < len(given) and r.random() < 0.2:
                    bs.append(v)
                else:
                    bs.append("(%s %s)" % (v, self.tr(self.e(vs2, d - 1))))
                vs2.append(v)
            if r.random() < 0.35:
                v = self.var(vs2)
                b = "(%s . %s)" % (" ".join(bs), v) if bs else v
                vs2.append(v)
            else:
                b = "(%s)" % " ".join(bs)
            return "(let-optionals* %s %s %s)" % (args, b, self.body(vs2, d))
        if z < 0.78:
            v = self.var(vs)
            return "(let ((%s %s)) %s)" % (v, self.e(vs, d - 1), self.body(vs + [v], d))
        if z < 0.84:
            return "(if %s %s %s)" % (self.e(vs, d - 1), self.e(vs, d - 1), self.e(vs, d - 1))
        if z < 0.9:
            return "(cons %s %s)" % (self.tr(self.e(vs, d - 1)), self.e(vs, d - 1))
        if z < 0.94:
            v = self.var(vs)
            return "((lambda (f) (list (f) (f))) (lambda () %s))" % self.body(vs, d)
        if z < 0.97:
            return "(guard (e (#t (list 'caught %s))) %s)" % (self.e(vs, d - 2), r.choice(["(raise %s)" % self.e(vs, d - 2), self.e(vs, d - 1), "(car %s)" % self.e(vs, d - 2)]))
        k = self.var([])
        return "(call-with-current-continuation (lambda (%s) %s))" % (k, self.body(vs, d).replace("'s", "(%s 'left)" % k, 1))


def forms(rng, n):
    out = []
    tries = 0
    while len(out) < n and tries < n * 5:
        tries += 1
        text = G(rng).e([], rng.randint(3, 5))
        if not 20 < len(text) < 5000 or not ("and-let*" in text or "receive" in text or "let-opt" in text):
            continue
        got = common.expect(text, 60, 60000, MODEL)
        if got is None:
            continue
        kind, v, o = got
        if len(o) > 6000 or "#<" in v or "#<" in o:
            continue
        out.append((text, kind, v, o))
    return out


FIXED = r"""
(and-let* ()) ==> #t
(and-let* () 1 2) ==> 2
(and-let* ((x 1) (y (+ x 1)) ((> y x)) y) (list x y)) ==> (1 2)
(and-let* ((x 1) (#f) (y (t 9 1))) y) ==> #f
(and-let* ((1 2)) 3) ==> error
(and-let* ((x 1 2)) x) ==> error
(and-let* ((x . 1)) x) ==> error
(and-let* (5) 1) ==> error
(and-let* ("x") 1) ==> error
(and-let* 5 1) ==> error
(and-let* x 1) ==> error
(and-let* ((x 1) . y) 1) ==> error
(and-let*) ==> error
(and-let* (nosuch) 1) ==> error
(and-let* ((x (values))) 1) ==> error
(let ((x 5)) (and-let* (x) (define y x) (+ y 1))) ==> 6
(let ((x #f)) (and-let* (x) (car 5))) ==> #f
(let ((l '())) (and-let* ((x 1) (l (begin (set! l 2) l))) l)) ==> 2
(receive x (values 1 2) x) ==> (1 2)
(receive x (values) x) ==> ()
(receive x 5 x) ==> (5)
(receive () (values) 7) ==> 7
(receive (a) 5 a) ==> 5
(receive (a b . c) (values 1 2 3 4) (list a b c)) ==> (1 2 (3 4))
(receive (a b . c) (values 1) a) ==> error
(receive (a) (values 1 2) a) ==> error
(receive (a) (values) 1) ==> error
(receive (5) (values 1) 1) ==> error
(receive 5 (values 1) 1) ==> error
(receive "x" 1 1) ==> error
(receive (a . 5) (values 1) 1) ==> error
(receive (a) 1) ==> error
(receive (a)) ==> error
(receive) ==> error
(let-optionals* '(1) ((a 10) (b 20) (c (+ a b))) (list a b c)) ==> (1 20 21)
(let-optionals* '(1 2 3 4) ((a 10) (b 20)) (list a b)) ==> (1 2)
(let-optionals* '(1 2 3 4) ((a 10) (b 20) . c) (list a b c)) ==> (1 2 (3 4))
(let-optionals* '() ((a 10) . c) (list a c)) ==> (10 ())
(let-optionals* '(1 2) c c) ==> (1 2)
(let-optionals* '() c c) ==> ()
(let-optionals* '(1) (a) a) ==> 1
(let-optionals* '(1 2) () 3) ==> 3
(let-optionals* '(#f) ((a (car 5))) a) ==> #f
(let-optionals* '() ((a (car 5))) a) ==> error
(let-optionals* 5 ((a 1)) a) ==> error
(let-optionals* "abc" ((a 1)) a) ==> error
(let-optionals* '(1 . 2) ((a 1) (b 2)) b) ==> error
(let-optionals* '(1) ((1 2)) 3) ==> error
(let-optionals* '(1) ((x)) 3) ==> error
(let-optionals* '(1) ((x 1 2)) 3) ==> error
(let-optionals* '(1) ("x") 3) ==> error
(let-optionals* '(1) ((x 1) . 5) 3) ==> error
(let-optionals* '(1) 5 3) ==> error
(let-optionals* '(1) ((x 1))) ==> error
(let-optionals* '(1)) ==> error
(let-optionals*) ==> error
(let loop ((n 100000)) (and-let* ((m n) ((> m 0))) (loop (- m 1)))) ==> #f
(let loop ((n 100000)) (receive (m . r) (values n 2 3) (if (= m 0) r (loop (- m 1))))) ==> (2 3)
(let loop ((n 100000) (l '(1))) (let-optionals* l ((a 1) (b (- n 1))) (if (= b 0) a (loop b l)))) ==> 1
"""

# --- cond-expand ---------------------------------------------------------------
HAVE = ["srfi-0", "srfi-2", "srfi-6", "srfi-8", "srfi-23", "srfi-34", "srfi-55", "sscm-ext", "sigscheme", "l07-own"]
LACK = ["srfi-1000", "nosuch", "l07-other", "l07-ow", "srfi", "l07-own2", "else2", "and"]


class FErr(Exception):
    pass


def feature(r, d):
    """(text, thunk of the model)"""
    z = r.random()
    if d <= 0 or z < 0.35:
        z = r.random()
        if z < 0.06:
            return "else", lambda: True
        f = r.choice(HAVE if z < 0.55 else LACK)
        return f, lambda: f in HAVE

    def err():
        raise FErr()
    if z < 0.58:
        xs = [feature(r, d - 1) for _ in range(r.randint(0, 3))]
        return "(and%s)" % "".join(" " + x for x, _ in xs), lambda: all([f() for _, f in xs])
    if z < 0.8:
        xs = [feature(r, d - 1) for _ in range(r.randint(0, 3))]
        return "(or%s)" % "".join(" " + x for x, _ in xs), lambda: any([f() for _, f in xs])
    if z < 0.98:
        x, f = feature(r, d - 1)
        return "(not %s)" % x, lambda: not f()
    return r.choice(["(not)", "(not srfi-0 srfi-2)", "(xor srfi-0)", "(srfi-0)"]), err


def cond(r, d, k):
    """(text, list of trace items and the value, or FErr)"""
    cl = []
    for _ in range(r.randint(1, 4)):
        req = feature(r, r.randint(0, 3))
        if r.random() < 0.06:
            req = ("else", lambda: True)
        body = []
        for _ in range(r.randint(1, 3)):
            if d and r.random() < 0.3:
                body.append(cond(r, d - 1, k))
            else:
                k[0] += 1
                n = k[0]
                body.append(("(t %d %d)" % (n, n * 3), lambda n=n: ([n], "%d" % (n * 3))))
        cl.append((req, body))
    text = "(cond-expand%s)" % "".join(" (%s %s)" % (q, " ".join(b for b, _ in bs)) for (q, _), bs in cl)

    def model():
        for (_, f), bs in cl:
            if f():
                tr = []
                v = None
                for _, b in bs:
                    try:
                        t, v = b()
                    except FErr as e:
                        e.args = (tr + (e.args[0] if e.args else []),)
                        raise
                    tr += t
                return tr, v
        raise FErr()
    return text, model


def conds(r, n):
    out = []
    while len(out) < n:
        text, m = cond(r, r.randint(0, 2), [0])
        if len(text) > 3000:
            continue
        try:
            tr, v = m()
            exp = ("ok", v, "".join("%d," % x for x in tr))
        except FErr as e:
            exp = ("err", None, "".join("%d," % x for x in (e.args[0] if e.args else [])))
        out.append(("(eval '%s (interaction-environment))" % text, exp))
    return out


# --- modules --------------------------------------------------------------------
# name: (needs, names it defines, features it provides besides its own)
MODS = {
    "srfi-1": (["srfi-8", "srfi-23"], ["iota", "reduce", "first", "unfold"], []),
    "srfi-2": ([], ["and-let*"], []),
    "srfi-8": ([], ["receive"], []),
    "srfi-9": (["srfi-23"], ["define-record-type"], []),
    "srfi-28": ([], ["format"], []),
    "srfi-38": ([], ["write/ss", "write-with-shared-structure"], []),
    "srfi-43": (["srfi-8", "srfi-23", "sscm-ext"], ["vector-map", "vector-index", "vector-count"], []),
    "srfi-48": ([], ["format", "pretty-print"], ["srfi-28"]),
    "srfi-60": ([], ["logand", "bitwise-and"], []),
}
FILES = {  # loaded from the system load path, by require-extension alone
    "srfi-69": (["srfi-9", "srfi-23"], ["make-hash-table", "hash-table-ref"], []),
    "srfi-95": ([], ["sorted?"], []),
}
EXTS = ["ext-a", "ext-b", "ext-c"]
NAMES = sorted({n for m in (MODS, FILES) for v in m.values() for n in v[1]})
SAFE = [n for n in NAMES if n not in ("define-record-type", "receive", "and-let*")]


class World:
    def __init__(self):
        self.val = {}                 # name -> "bound" or text of the user's value
        self.feat = {"srfi-23", "srfi-34", "srfi-6", "srfi-55", "sscm-ext", "srfi-0", "sigscheme"}
        self.log = []

    def use(self, m):
        """False if there is no such C module."""
        if m in self.feat and m not in MODS:
            return m != "srfi-0" and m != "sigscheme" and not m.startswith("f-") and m not in FILES and m not in EXTS
        if m not in MODS:
            return False
        if m not in self.feat:
            need, names, also = MODS[m]
            for x in need:
                self.use(x)
            for n in names:
                self.val[n] = "bound"
            self.feat.update(also)
            self.feat.add(m)
        return True

    def ext(self, m):
        if self.use(m) or m in self.feat:
            return
        if m in FILES:
            for x in FILES[m][0]:
                self.ext(x)
            for n in FILES[m][1]:
                self.val[n] = "bound"
        elif m in EXTS:
            self.log.append(m)
            if m == "ext-b":
                self.ext("ext-a")
                self.log.append("b2")
        else:
            raise FErr()
        self.feat.add(m)


def modules(r, n):
    out = []
    for _ in range(n):
        w = World()
        ops = []

        def probe():
            names = r.sample(NAMES, 6)
            feats = r.sample(sorted(MODS) + sorted(FILES) + EXTS + ["f-1", "f-2", "f-3", "*@L/a.scm-loaded*", "*@L/b.scm-loaded*", "nosuch"], 6)
            mine = [x for x in NAMES if w.val.get(x, "bound") != "bound"]
            bound = [x for x in names if x in w.val]
            ops.append(("(list (map symbol-bound? '(%s)) (map provided? '(%s)) (list %s) (map (lambda (x) (if (memq x (list 'mine)) x 'b)) (list %s)) (reverse the-log))" % (
                " ".join(names), " ".join('"%s"' % f for f in feats), " ".join(mine), " ".join("'b" if x in ("define-record-type", "receive", "and-let*") else "(if (pair? %s) 'b 'b)" % x for x in bound)),
                "((%s) (%s) (%s) (%s) (%s))" % (" ".join("#t" if x in w.val else "#f" for x in names),
                                                " ".join("#t" if f in w.feat else "#f" for f in feats),
                                                " ".join(w.val[x] for x in mine), " ".join("b" for _ in bound),
                                                " ".join(w.log))))
        for i in range(r.randint(4, 25)):
            z = r.random()
            m = r.choice(sorted(MODS) + ["srfi-23", "sscm-ext", "srfi-34"])
            if z < 0.2:
                if r.random() < 0.08:
                    m = r.choice(["srfi-1000", "nosuch", "srfi"])
                op = r.choice(["(use %s)", '(%%%%require-module "%s")', "(eval '(use %s) (interaction-environment))"]) % m
                ops.append((op, "#t" if w.use(m) else "#f"))
            elif z < 0.38:
                ms = r.sample(sorted(MODS) + sorted(FILES), r.randint(1, 3))
                for x in ms:
                    w.ext(x)
                ops.append(("(begin (require-extension (srfi %s)) 'e)" % " ".join(x[5:] for x in ms), "e"))
            elif z < 0.48:
                ms = r.sample(EXTS[:2] + ["srfi-60", "srfi-95"], r.randint(1, 2))
                bad = r.random() < 0.1
                for x in ms:
                    w.ext(x)
                ops.append(("(guard (e (#t 'err)) (require-extension %s%s) 'e)" % (" ".join("(%s)" % x for x in ms), " (no-such-ext)" if bad else ""), "err" if bad else "e"))
            elif z < 0.56:
                x = r.choice(SAFE)
                w.val[x] = "mine%d" % i
                ops.append(("(begin (eval '(define %s 'mine%d) (interaction-environment)) 'd)" % (x, i), "d"))
            elif z < 0.66:
                x = r.choice("ab")
                k = "*@L/%s.scm-loaded*" % x
                if k not in w.feat:
                    w.log.append(x)
                    if x == "b":
                        if "*@L/a.scm-loaded*" not in w.feat:
                            w.log.append("a")
                            w.feat.add("*@L/a.scm-loaded*")
                        w.log.append("b2")
                    w.feat.add(k)
                ops.append(('(require "@L/%s.scm")' % x, "#t"))
            elif z < 0.72:
                x = r.choice("ac")
                w.log.append(x)
                ops.append(('(begin (load "@L/%s.scm") \'l)' % x, "l"))
            elif z < 0.77:
                w.log.append("bad")
                ops.append(("(guard (e (#t 'err)) (require \"@L/bad.scm\"))", "err"))
            elif z < 0.85:
                f = r.choice(["f-1", "f-2", "f-3", "ext-c", "srfi-60", "srfi-8", "srfi-95", "*@L/b.scm-loaded*"])
                w.feat.add(f)
                ops.append(('(begin (provide "%s") \'p)' % f, "p"))
            else:
                fs = [r.choice(["f-1", "f-2", "srfi-1", "srfi-95", "srfi-28", "srfi-60", "ext-a", "nosuch"]) for _ in range(3)]
                ops.append(("(eval '(cond-expand ((and %s (not %s)) 1) (%s 2) (else 3)) (interaction-environment))" % tuple(fs),
                            "1" if fs[0] in w.feat and fs[1] not in w.feat else "2" if fs[2] in w.feat else "3"))
            if r.random() < 0.4:
                probe()
        probe()
        out.append(ops)
    return out


def libdir(d):
    lib = os.path.join(d, "lib")
    os.mkdir(lib)
    for f in os.listdir(os.path.join(B.REPO, "lib")):
        if f.endswith(".scm"):
            shutil.copy(os.path.join(B.REPO, "lib", f), lib)
    for name, text in (("ext-a.scm", "(set! the-log (cons 'ext-a the-log))"), ("ext-c.scm", "(set! the-log (cons 'ext-c the-log))"),
                       ("ext-b.scm", "(set! the-log (cons 'ext-b the-log)) (require-extension (ext-a)) (set! the-log (cons 'b2 the-log))"),
                       ("a.scm", "(set! the-log (cons 'a the-log))"), ("c.scm", "(set! the-log (cons 'c the-log))"),
                       ("b.scm", "(set! the-log (cons 'b the-log)) (require \"@L/a.scm\") (set! the-log (cons 'b2 the-log))"),
                       ("bad.scm", "(set! the-log (cons 'bad the-log)) (car 5) (set! the-log (cons 'not-here the-log))")):
        with open(os.path.join(lib, name), "w") as fh:
            fh.write(text.replace("@L", lib) + "\n")
    return lib


def sequence(a):
    bdir, lib, ops, i = a
    text = "(define the-log '())\n" + "".join("(begin (write (guard (e%% (#t (list 'unexpected e%%))) %s)) (newline))\n" % o for o, _ in ops).replace("@L", lib)
    f = os.path.join(lib, "..", "seq%d.scm" % i)
    with open(f, "w") as fh:
        fh.write(text)
    p = R.run_proc([os.path.join(bdir, "sscm"), "--system-load-path", lib, f], cpu=30, wall=100)
    os.unlink(f)
    return text.replace(lib, "@L"), p


def run(ctx):
    ctx.rule = ("a case is an expression of nested binding forms, a cond-expand form, or a sequence of module operations in a fresh process; "
                "distinct by text; judged by models written for this (value, trace of evaluations, names bound, features, files evaluated)")
    n = ctx.n(2400, 30000)
    cs = [Case(t, (k, v if k != "err" else None, o), "binding form") for t, k, v, o in common.par(forms, n, "L07/%d" % ctx.seed)]
    cs += common.fixed(FIXED)
    ces = [Case(t, e, "cond-expand") for t, e in common.par(conds, ctx.n(1200, 12000), "L07/ce/%d" % ctx.seed)]
    for variant in ("san-compact", "san-fatty", "san-hygienic") + (("opt-compact",) if ctx.thorough else ()):
        part = cs if variant != "san-hygienic" else cs[::3]
        ctx.run(variant, part, PRE, opts=())
        ctx.run(variant, ces, PRE + '(provide "l07-own")')
    seqs = common.par(modules, ctx.n(320, 4000), "L07/mod/%d" % ctx.seed)
    for variant in ("opt-compact", "san-compact") + (("opt-fatty", "san-fatty", "san-hygienic") if ctx.thorough else ("opt-fatty",)):
        bdir = B.build(variant)
        with R.Scratch() as d, concurrent.futures.ThreadPoolExecutor(R.NPROC) as ex:
            lib = libdir(d)
            for ops, (text, p) in zip(seqs, ex.map(sequence, [(bdir, lib, s, i) for i, s in enumerate(seqs)])):
                got = p.out.decode("utf-8", "replace").split("\n")
                ctx.count("module sequence " + variant, text)
                ctx.kinds["module operation"] = ctx.kinds.get("module operation", 0) + len(ops)
                for j, (op, want) in enumerate(ops):
                    g = got[j] if j < len(got) else "(nothing)"
                    if g != want:
                        ctx.violation("module:%s:%s" % (variant, op.split()[0]), "%s: operation %d of a module sequence, %s, gives %s, not %s" % (
                            variant, j, op[:200], g[:300], want[:300]), ";; sscm --system-load-path LIB FILE\n" + text)
                        break
                else:
                    if p.rc != 0:
                        ctx.violation("module-end:%s" % variant, "%s: a module sequence ends with %s: %s" % (
                            variant, p.rc, R.san_summary(p.err) or p.out[-300:]), text)
    ctx.minimum = 2000
