"""L09: hygienic macros (hygienic build): matching and instantiation against a model of the
pattern language, hygiene against the expansion in which every introduced name is fresh."""
import random

from checks import common
from vlib.check import Case
from vlib.datum import NIL, Pair, Sym, Vec, Str, Char, equal, parse_all, write

PRE = "(use srfi-6)(use srfi-8)(use srfi-23)(use srfi-34)"
VARIANTS = ("san-hygienic", "opt-hygienic")


# ---------------------------------------------------------------- patterns

class Skip(Exception):
    pass


LITS = ["=>", "to", "else", "lit", "with"]
PV = ["a", "b", "c", "x", "y", "z", "list", "if", "e1", "e2", "body", "rest", "tmp"]
CONST = ["1", "2", "-7", '"s"', '""', "#\\a", "#t", "#f", "1"]


def gen_pat(r, st, depth, level, top=False):
    """st: dict name -> level of the pattern variables used so far"""
    k = r.random()
    if not top and (depth <= 0 or k < 0.5):
        if k < 0.06:
            return ("lit", r.choice(st["lits"])) if st["lits"] else ("k", r.choice(CONST))
        if k < 0.1:
            return ("k", r.choice(CONST))
        free = [p for p in PV if p not in st["vars"] and p not in st["lits"]]
        if not free:
            return ("k", r.choice(CONST))
        n = r.choice(free)
        st["vars"][n] = level
        return ("v", n)
    kind = "list" if top or k < 0.88 else "vec"
    items = [gen_pat(r, st, depth - 1, level) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
    ell = tail = None
    q = r.random()
    if q < 0.45:
        ell = gen_pat(r, st, depth - 1, level + 1)
    elif q < 0.6 and kind == "list" and items:
        tail = gen_pat(r, st, 0, level)
        if tail[0] == "seq":
            tail = None
    if kind == "vec" and ell is None and not items:
        items = [("k", "1")]
    return ("seq", items, ell, tail, kind)


def show_pat(p):
    if p[0] != "seq":
        return p[1]
    _, items, ell, tail, kind = p
    xs = [show_pat(i) for i in items]
    if ell is not None:
        xs += [show_pat(ell), "..."]
    if tail is not None:
        xs += [".", show_pat(tail)]
    return ("#(" if kind == "vec" else "(") + " ".join(xs) + ")"


def plain(x):
    return [y for y in x] if isinstance(x, list) else x


def match(p, f, lits, out):
    if p[0] == "v":
        out[p[1]] = f
        return True
    if p[0] == "k":
        return equal(parse_all(p[1])[0], f)
    if p[0] == "lit":
        return isinstance(f, Sym) and f.name == p[1] and p[1] in lits
    _, items, ell, tail, kind = p
    if kind == "vec":
        if not isinstance(f, Vec):
            return False
        xs, end = list(f.v), NIL
    else:
        xs = []
        while isinstance(f, Pair):
            xs.append(f.car)
            f = f.cdr
        end = f
    if len(xs) < len(items):
        return False
    for i, x in zip(items, xs):
        if not match(i, x, lits, out):
            return False
    rest = xs[len(items):]
    if ell is not None:
        if end is not NIL:
            return False
        subs = []
        for x in rest:
            o = {}
            if not match(ell, x, lits, o):
                return False
            subs.append(o)
        for n in names(ell):
            out[n] = [o[n] for o in subs]
        return True
    if tail is not None:
        t = end
        for x in reversed(rest):
            t = Pair(x, t)
        return match(tail, t, lits, out)
    return not rest and end is NIL


def names(p):
    if p[0] == "v":
        return [p[1]]
    if p[0] != "seq":
        return []
    out = []
    for i in p[1] + [q for q in p[2:4] if q is not None]:
        out += names(i)
    return out


# templates: ('v', n) ('s', name) ('k', text) ('seq', [(node, ellipsis?)], tail, kind)

def gen_tmpl(r, vs, depth, level):
    """vs: name -> level.  A subtemplate below an ellipsis needs a variable of its level."""
    here = [n for n in vs if vs[n] == level]
    k = r.random()
    if here and k < 0.55:
        return ("v", r.choice(here))
    if depth <= 0 or k < 0.68:
        return ("s", r.choice([s for s in ["foo", "bar", "quote", "let", "if2", "t"] if s not in vs])) if r.random() < 0.6 else ("k", r.choice(CONST))
    items = []
    for _ in range(r.choice([0, 1, 2, 2, 3])):
        deeper = [n for n in vs if vs[n] > level]
        if deeper and r.random() < 0.55:
            t = gen_tmpl(r, vs, depth - 1, level + 1)
            if has_level(t, vs, level + 1):
                items.append((t, True))
                continue
        items.append((gen_tmpl(r, vs, depth - 1, level), False))
    kind = "vec" if r.random() < 0.15 else "list"
    tail = None
    if kind == "list" and items and r.random() < 0.15:
        tail = gen_tmpl(r, vs, 0, level)
    return ("seq", items, tail, kind)


def has_level(t, vs, level):
    if t[0] == "v":
        return vs[t[1]] >= level
    if t[0] == "seq":
        return any(has_level(i, vs, level) for i, e in t[1]) or (t[2] is not None and has_level(t[2], vs, level))
    return False


def show_tmpl(t):
    if t[0] != "seq":
        return t[1]
    xs = []
    for i, e in t[1]:
        xs.append(show_tmpl(i))
        if e:
            xs.append("...")
    if t[2] is not None:
        xs += [".", show_tmpl(t[2])]
    return ("#(" if t[3] == "vec" else "(") + " ".join(xs) + ")"


def tvars(t):
    if t[0] == "v":
        return [t[1]]
    if t[0] != "seq":
        return []
    return [n for i, e in t[1] for n in tvars(i)] + (tvars(t[2]) if t[2] is not None else [])


def inst(t, sub):
    if t[0] == "v":
        return sub[t[1]]
    if t[0] == "s":
        return Sym(t[1])
    if t[0] == "k":
        return parse_all(t[1])[0]
    _, items, tail, kind = t
    xs = []
    for i, e in items:
        if not e:
            xs.append(inst(i, sub))
            continue
        ns = [n for n in set(tvars(i)) if isinstance(sub[n], list)]
        lens = set(len(sub[n]) for n in ns)
        if len(lens) != 1:
            raise Skip()
        for k in range(lens.pop()):
            s = dict(sub)
            for n in ns:
                s[n] = sub[n][k]
            xs.append(inst(i, s))
    if kind == "vec":
        return Vec(xs)
    t = inst(tail, sub) if tail is not None else NIL
    for x in reversed(xs):
        t = Pair(x, t)
    return t


def gen_datum(r, d):
    k = r.random()
    if d <= 0 or k < 0.6:
        return r.choice(CONST + ["p", "q", "list", "a", "=>", "to", "else", "lit", "foo"])
    xs = [gen_datum(r, d - 1) for _ in range(r.randrange(4))]
    if k < 0.68:
        return "#(" + " ".join(xs) + ")"
    if xs and k < 0.74:
        return "(" + " ".join(xs) + " . " + gen_datum(r, 0) + ")"
    return "(" + " ".join(xs) + ")"


def form_for(r, p, noise):
    if r.random() < noise:
        return gen_datum(r, 2)
    if p[0] == "v":
        return gen_datum(r, 2)
    if p[0] != "seq":
        return p[1]
    _, items, ell, tail, kind = p
    xs = [form_for(r, i, noise) for i in items]
    if r.random() < noise:
        if xs and r.random() < 0.5:
            xs.pop()
        else:
            xs.append(gen_datum(r, 1))
    if ell is not None:
        xs += [form_for(r, ell, noise) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    end = ""
    if tail is not None:
        if tail[0] == "v" and r.random() < 0.5:
            xs += [gen_datum(r, 1) for _ in range(r.randrange(3))]
        elif xs:
            e = form_for(r, tail, 0)
            end = " . " + e
    elif kind == "list" and xs and r.random() < noise:
        end = " . " + gen_datum(r, 0)
    return ("#(" if kind == "vec" else "(") + " ".join(xs) + end + ")"


def matching(r, n):
    out = []
    while len(out) < n:
        lits = r.sample(LITS, r.choice([0, 0, 1, 2]))
        rules = []
        for k in range(r.choice([1, 2, 3])):
            st = {"vars": {}, "lits": lits}
            p = gen_pat(r, st, r.choice([1, 2, 3, 3]), 0, True)
            vs = {v: l for v, l in st["vars"].items() if v in names(p)}
            t = gen_tmpl(r, vs, 3, 0)
            if any(w in vs for w in ("quote",)):
                continue
            if bad_levels(t, vs, 0):
                continue
            rules.append((p, t))
        if not rules:
            continue
        uid = "%05x" % r.randrange(1 << 20)
        name = "sr-" + uid
        sr = "(syntax-rules (%s) %s)" % (" ".join(lits), " ".join(
            "((_ . %s) '(r%d %s))" % (show_pat(p), k, show_tmpl(t)) if False else
            "((%s%s) '(r%d %s))" % (r.choice(["_", name, "m"]), rest_of(show_pat(p)), k, show_tmpl(t)) for k, (p, t) in enumerate(rules)))
        where = r.random()
        uses, want, err = [], [], False
        for _ in range(r.choice([1, 2, 3, 4])):
            p = r.choice(rules)[0]
            f = form_for(r, p, r.choice([0, 0, 0.05, 0.2]))
            shadow = [l for l in lits if l != "else" and r.random() < 0.15]
            if f.startswith("#"):
                continue
            if not f.startswith("("):
                f = "(" + f + ")"
            d = parse_all(f)[0]
            try:
                w = None
                for k, (p, t) in enumerate(rules):
                    o = {}
                    if match(p, d, [l for l in lits if l not in shadow], o):
                        w = "(r%d %s)" % (k, write(inst(t, o)))
                        break
            except Skip:
                continue
            use = "(%s%s)" % (name, rest_of(f))
            if r.random() < 0.1:
                # the expansion itself; quoting it strips the marks of the template's symbols
                use = "(cadr (eval (list 'quote (expand-macro %s%s)) (interaction-environment)))" % (name, rest_of(f))
            if shadow:
                use = "(let (%s) %s)" % (" ".join("(%s 1)" % s for s in shadow), use)
            uses.append("(guard (e%%%% (#t 'no-match)) (list %s))" % use)
            want.append("no-match" if w is None else "(%s)" % w)
        if not uses:
            continue
        body = "(list %s)" % " ".join(uses)
        pre = ""
        if where < 0.5:
            pre = "(define-syntax %s %s)\n" % (name, sr)
        elif where < 0.75:
            body = "(let-syntax ((%s %s)) %s)" % (name, sr, body)
        else:
            body = "(letrec-syntax ((%s %s)) %s)" % (name, sr, body)
        out.append((body, "(%s)" % " ".join(want), pre))
    return out


def deepell(r, n):
    """one chain of many nested ellipses, and wide patterns with many variables"""
    out = []
    while len(out) < n:
        if r.random() < 0.6:
            lv = r.choice([2, 4, 8, 12, 15, 16, 17, 18, 20, 31, 32, 33, 34, 40])
            cut = r.randrange(lv)
            vs, p = {}, ("v", "x")
            for k in range(lv):
                pre = []
                if k in (cut, 3) and r.random() < 0.6:
                    pre = [("v", "a" if k == cut else "b")]
                p = ("seq", pre, p, None, "vec" if r.random() < 0.04 else "list")
            order = [q for q in names(p)]
            lev = {}

            def walk(q, l):
                if q[0] == "v":
                    lev[q[1]] = l
                    return
                for i in q[1]:
                    walk(i, l)
                walk(q[2], l + 1)
            walk(p, 0)
            ts = []
            for v in order:
                t = ("v", v)
                for _ in range(lev[v]):
                    t = ("seq", [(t, True)], None, "list")
                # the outermost list is the pattern itself: splice
                ts.append((t, False))
            t = ("seq", ts, None, "list")

            def form(q, budget):
                if q[0] == "v":
                    return r.choice(["1", "p", "q", '"s"', "2"])
                xs = [form(i, 1) for i in q[1]]
                w = r.choice([1] * 12 + [0, 2, 2]) if budget > 1 else 1
                for _ in range(w):
                    xs.append(form(q[2], budget // max(w, 1)))
                return ("#(" if q[4] == "vec" else "(") + " ".join(xs) + ")"
            f = form(p, 40)
        else:
            m = r.randrange(8, 60)
            vs = ["v%d" % i for i in range(m)]
            e = r.randrange(m + 1) if r.random() < 0.8 else None
            items = [("v", v) for v in (vs if e is None else vs[:e])]
            ell = None
            if e is not None and e < m:
                sub = [("v", v) for v in vs[e:]]
                ell = ("seq", sub, None, None, "list") if len(sub) > 1 or r.random() < 0.5 else sub[0]
            p = ("seq", items, ell, None, "list")
            ts = [(("v", v[1]), False) for v in r.sample(items, len(items))]
            for v in r.sample(vs[e:], len(vs[e:])) if ell is not None else []:
                ts.insert(r.randrange(len(ts) + 1), (("v", v), True))
            t = ("seq", ts, None, "list")
            f = form_for(r, p, 0)
        if p[4] == "vec" or not f.startswith("("):
            continue
        d = parse_all(f)[0]
        o = {}
        if not match(p, d, [], o):
            continue
        try:
            w = "(r %s)" % write(inst(t, o))
        except Skip:
            continue
        out.append(("(let-syntax ((m (syntax-rules () ((_%s) '(r %s))))) (m%s))" % (rest_of(show_pat(p)), show_tmpl(t), rest_of(f)), w, ""))
    return out


def matchform(r, n):
    """the match form: the clauses in order, with the variables bound to what they matched"""
    out = []
    while len(out) < n:
        cl, model = [], []
        for k in range(r.choice([1, 2, 3])):
            st = {"vars": {"list": 0, "if": 0}, "lits": []}
            p = gen_pat(r, st, r.choice([0, 1, 2, 3, 3]), 0, r.random() < 0.8)
            ns = sorted(set(names(p)))
            r.shuffle(ns)
            pad = r.choice(["", "", "'skip ", "(set! cnt (+ cnt 1)) "])
            cl.append("(%s %s(list 'r%d %s))" % (show_pat(p), pad, k, " ".join(ns)))
            model.append((p, k, ns))
        p = r.choice(model)[0]
        f = form_for(r, p, r.choice([0, 0, 0.05, 0.2]))
        d = parse_all(f)[0]
        w = "other"
        for p, k, ns in model:
            o = {}
            if match(p, d, [], o):
                def lst(x):
                    if not isinstance(x, list):
                        return x
                    t = NIL
                    for y in reversed(x):
                        t = Pair(lst(y), t)
                    return t
                t = NIL
                for v in reversed([lst(o[v]) for v in ns]):
                    t = Pair(v, t)
                w = write(Pair(Sym("r%d" % k), t))
                break
        e = "(let ((cnt 0)) (match %s %s (other 'other)))" % (r.choice(["'%s", "(car '(%s))", "(car (cons '%s 1))"]) % f, " ".join(cl))
        if r.random() < 0.3:
            e = "(let f ((i 2)) (if (= i 0) %s (f (- i 1))))" % e
        out.append((e, w, ""))
    return out


def malformed(r, n):
    """definitions that must be refused, next to ones that must not"""
    out = []
    while len(out) < n:
        lits = r.sample(LITS, r.choice([0, 0, 1]))
        st = {"vars": {}, "lits": lits}
        p = gen_pat(r, st, r.choice([1, 2, 3, 4]), 0, True)
        vs = {v: l for v, l in st["vars"].items() if v in names(p)}
        if "quote" in vs:
            continue
        pt = rest_of(show_pat(p))
        k = r.randrange(6)
        w = "err"
        if k == 0:          # a variable twice
            if len(vs) < 2:
                continue
            a, b = r.sample(sorted(vs), 2)

            def ren(q):
                if q == ("v", b):
                    return ("v", a)
                if q[0] != "seq":
                    return q
                return ("seq", [ren(i) for i in q[1]], q[2] and ren(q[2]), q[3] and ren(q[3]), q[4])
            pt = rest_of(show_pat(ren(p)))
            tt = "1"
        elif k in (1, 2):   # a variable at another depth than the pattern's
            t = gen_tmpl(r, {v: max(0, l + r.choice([0, 0, -1, 1])) for v, l in vs.items()}, 4, 0)
            tt = show_tmpl(t)
            if not bad_levels(t, vs, 0):
                w = "fine"
        elif k == 5:        # right at its first use, wrong at a later one
            t = gen_tmpl(r, vs, 3, 0)
            u = gen_tmpl(r, {v: max(0, l + r.choice([0, 0, 0, -1, 1])) for v, l in vs.items()}, 3, 0)
            if bad_levels(t, vs, 0):
                continue
            tt = "(%s %s)" % (show_tmpl(t), show_tmpl(u))
            if not bad_levels(u, vs, 0):
                w = "fine"
        elif k == 3:        # something behind an ellipsis, or two of them
            if "..." not in pt or "#(" in pt:
                continue
            i = r.choice([i for i in range(len(pt)) if pt.startswith("...", i)])
            pt = pt[:i + 3] + r.choice([" new", " 1", " ...", " (new)", " . new"]) + pt[i + 3:]
            tt = "1"
        else:
            t = gen_tmpl(r, vs, 4, 0)
            if bad_levels(t, vs, 0):
                continue
            tt, w = show_tmpl(t), "fine"
        rule = "((_%s) '(r %s))" % (pt, tt)
        more = ["((_ zz zz2 zz3 . zz4) '%d)" % r.randrange(9)] * r.randrange(2)
        rules = [rule] + more
        r.shuffle(rules)
        body = "(guard (e (#t 'err)) (let-syntax ((m (syntax-rules (%s) %s))) 'fine))" % (" ".join(lits), " ".join(rules))
        out.append((body, w, ""))
    return out


def rest_of(s):
    """'(a b)' -> ' a b)' without the last parenthesis"""
    s = s[1:-1]
    return " " + s if s else ""


def bad_levels(t, vs, level):
    if t[0] == "v":
        return vs[t[1]] != level
    if t[0] != "seq":
        return False
    return any(bad_levels(i, vs, level + (1 if e else 0)) or (e and not tvars(i)) for i, e in t[1]) or (
        t[2] is not None and bad_levels(t[2], vs, level))


# ---------------------------------------------------------------- hygiene

class Clash(Exception):
    pass


class B:
    """A variable somebody binds."""
    __slots__ = ("name", "fn")

    def __init__(self, fn=False):
        self.name, self.fn = None, fn


class P:
    """A pattern variable.  kind: e expression, id identifier, rest expressions."""
    __slots__ = ("name", "kind", "of")

    def __init__(self, kind, of=None):
        self.name, self.kind, self.of = None, kind, of


class M:
    __slots__ = ("name", "shape", "params", "tmpl", "binders", "rec")

    def __init__(self):
        self.name = None
        self.binders = []


POOLN = ["x", "y", "t", "tmp", "i", "f", "list", "if", "let", "begin", "+", "-", "lambda", "loop", "or", "cond", "set!", "r", "v",
         "let*", "letrec", "do", "write", "<", "and", "case", "quasiquote", "force", "delay", "guard", "raise", "receive", "values", "=>", "m1", "m2", "m3", "m4", "l1", "l2"]


class Gen:
    def __init__(self, r, macros):
        self.r = r
        self.macros = macros
        self.bs = []
        self.k = 0
        self.inside = False     # a template

    def new(self, fn=False):
        b = B(fn)
        self.bs.append(b)
        return b

    def pick(self, sc):
        vs = [v for v in sc if isinstance(v, B) and not v.fn or isinstance(v, P) and v.kind in ("e", "idref")]
        return self.r.choice(vs) if vs else None

    def expr(self, sc, d):
        """sc: visible variables (B), pattern variables (P), and local macros (M)."""
        r = self.r
        k = r.random()
        v = self.pick(sc)
        if d <= 0 or k < 0.2:
            if v is not None and r.random() < 0.8:
                return ("ref", v)
            return ("k", str(r.randint(0, 9)))
        d -= 1
        if k < 0.28:
            return ("g", r.choice(["+", "-"]), [self.expr(sc, d), self.expr(sc, d)])
        if k < 0.34:
            return ("if", self.test(sc, d), self.expr(sc, d), self.expr(sc, d))
        if k < 0.42:
            n = r.choice([1, 1, 2])
            bs = [self.new() for _ in range(n)]
            es = [self.expr(sc, d) for _ in bs]
            return (r.choice(["let", "let", "app"]), bs, es, self.body(sc + bs, d))
        if k < 0.46:
            bs, es, s = [], [], list(sc)
            for _ in range(r.choice([1, 2])):
                es.append(self.expr(s, d))
                b = self.new()
                bs.append(b)
                s = s + [b]
            return ("let*", bs, es, self.body(s, d))
        if k < 0.5:
            f, a = self.new(True), self.new()
            fb = self.expr(sc + [a], d)
            return (r.choice(["letrec", "idef", "letf"]), f, a, fb, self.body(sc + [f], d))
        if k < 0.55:
            fs = [x for x in sc if isinstance(x, B) and x.fn]
            if fs:
                return ("call", r.choice(fs), self.expr(sc, d))
        if k < 0.6:
            s = [x for x in sc if isinstance(x, B) and not x.fn or isinstance(x, P) and x.kind == "idref"]
            if s:
                return ("begin", [("set", r.choice(s), self.expr(sc, d)), self.expr(sc, d)])
        if k < 0.65:
            self.k += 1
            return ("tr", self.k, self.expr(sc, d))
        if k < 0.69:
            return (r.choice(["or", "and"]), [self.expr(sc, d) for _ in range(r.choice([1, 2, 3]))])
        if k < 0.73:
            return ("cond", [(self.test(sc, d), self.expr(sc, d)) for _ in range(r.choice([1, 2]))], self.expr(sc, d))
        if k < 0.76:
            l, i, a = self.new(True), self.new(), self.new()
            return ("loop", l, i, a, str(r.randint(1, 3)), self.expr(sc, d), self.expr(sc + [i, a], d - 1))
        if k < 0.79:
            i, a = self.new(), self.new()
            return ("do", i, a, str(r.randint(1, 3)), self.expr(sc, d), self.expr(sc + [i, a], d - 1), self.expr(sc + [i, a], d - 1))
        if k < 0.81:
            return ("case", self.expr(sc, d), [(str(r.randint(0, 4)), self.expr(sc, d)), (str(r.randint(5, 9)), self.expr(sc, d))], self.expr(sc, d))
        if k < 0.83:
            return ("force", self.expr(sc, d))
        if k < 0.87:
            b = self.new()
            return (r.choice(["arrow", "guard", "receive"]), self.expr(sc, d), b, self.expr(sc + [b], d), self.expr(sc, d - 1))
        if k < 0.89:
            return ("qq", r.choice(["sym", "foo"]), self.expr(sc, d), self.expr(sc, d))
        ms = [x for x in sc if isinstance(x, M)] + self.macros
        if ms:
            m = r.choice(ms[-4:] if r.random() < 0.5 else ms)
            return self.use(m, sc, d)
        return self.expr(sc, d)

    def test(self, sc, d):
        return ("g", "<", [self.expr(sc, d - 1), self.expr(sc, d - 1)])

    def body(self, sc, d):
        if self.r.random() < 0.12 and d > 0 and not self.inside:
            return self.letsyn(sc, d)
        return self.expr(sc, d)

    def letsyn(self, sc, d):
        r = self.r
        rec = r.random() < 0.5
        ms = []
        s = list(sc)
        for _ in range(r.choice([1, 1, 2])):
            vis = [x for x in sc if not isinstance(x, P)]
            if rec:
                vis = vis + ms
            m = self.macro(vis, d)
            ms.append(m)
        return ("letsyn", rec, ms, self.expr(s + ms, d))

    def macro(self, vis, d):
        r = self.r
        m = M()
        m.shape = r.choice(["simple", "simple", "rest", "bind", "binds"])
        outer, self.bs = self.bs, []
        self.inside = True
        if m.shape == "simple":
            m.params = [P("e") for _ in range(r.choice([0, 1, 2, 3]))]
            m.tmpl = self.expr(vis + m.params, d + 1)
        elif m.shape == "rest":
            m.params = [P("e") for _ in range(r.choice([0, 1]))] + [P("rest")]
            s = vis + m.params[:-1]
            k = r.random()
            e = self.expr(s, d)
            if k < 0.35:
                m.tmpl = ("ell", "+", e, m.params[-1])
            elif k < 0.6:
                b = self.new()
                m.tmpl = ("let", [b], [e], ("ell", "+", ("ref", b), m.params[-1]))
            else:
                b = self.new()
                m.tmpl = ("let", [b], [e], ("ellbegin", ("set", b, self.expr(s + [b], d)), m.params[-1], self.expr(s + [b], d)))
        elif m.shape == "bind":
            i = P("id")
            m.params = [i, P("e"), P("body", i)]
            inner = P("e")
            # the body may use the identifier; the template may too
            ref = P("idref", i)
            b = self.new()
            wrap = r.random()
            core = self.expr(vis + [ref, P("e", m.params[2]), b], d)
            core = subst_body(core, m.params[2])
            if wrap < 0.5:
                m.tmpl = ("let", [b], [("ref", m.params[1])], ("let", [i], [("ref", b)], ("g", "+", [core, ("ref", m.params[2])])))
            else:
                m.tmpl = ("let", [i], [("ref", m.params[1])], ("let", [b], [self.expr(vis + [ref], d - 1)], ("g", "-", [("ref", m.params[2]), core])))
        else:
            i = P("id")
            m.params = [i, P("e"), P("body", i)]
            m.tmpl = ("binds", i, m.params[1], self.pre_expr(vis, d), m.params[2])
        m.binders, self.bs = self.bs, outer
        self.inside = False
        return m

    def pre_expr(self, vis, d):
        b = self.new()
        return (b, self.expr(vis, d))

    def use(self, m, sc, d):
        r = self.r
        if m.shape == "simple":
            return ("use", m, [self.expr(sc, d) for _ in m.params])
        if m.shape == "rest":
            n = r.choice([0, 1, 2, 3]) if m.tmpl[0] != "ellbegin" else r.choice([1, 2])
            return ("use", m, [self.expr(sc, d) for _ in m.params[:-1]], [self.expr(sc, d - 1) for _ in range(n)])
        n = 1 if m.shape == "bind" else r.choice([0, 1, 2, 3])
        bs = [self.new() for _ in range(n)]
        return ("use", m, bs, [self.expr(sc, d) for _ in bs], self.expr(sc + bs, d))


def subst_body(e, p):
    """Uses of the placeholder P('e', of=p) become uses of p."""
    if isinstance(e, tuple):
        return tuple(subst_body(x, p) for x in e)
    if isinstance(e, list):
        return [subst_body(x, p) for x in e]
    if isinstance(e, P) and e.kind == "e" and e.of is p:
        return p
    return e


# --- printing with the chosen names; Clash if a name would not mean what it should

class Printer:
    def __init__(self):
        self.n = 0

    def kw(self, name, env):
        if env.get(name) is not None:
            raise Clash()
        return name

    def bind(self, b, env):
        """A binder in binding position."""
        if isinstance(b, P):
            return self.ref(b, env)
        if isinstance(env.get(b.name), P):
            raise Clash()
        return b.name

    def ref(self, v, env):
        if isinstance(v, P) and v.kind == "idref":
            v = v.of
        if env.get(v.name) is not v:
            raise Clash()
        return v.name

    def ext(self, env, bs):
        e = dict(env)
        seen = set()
        for b in bs:
            if isinstance(b, P):
                continue
            if b.name in seen:
                raise Clash()
            seen.add(b.name)
            e[b.name] = b
        return e

    def p(self, e, env):
        kw, p = self.kw, self.p
        t = e[0]
        if t == "k":
            return e[1]
        if t == "ref":
            return self.ref(e[1], env)
        if t == "g":
            return "(%s %s)" % (kw(e[1], env), " ".join(p(x, env) for x in e[2]))
        if t == "if":
            return "(%s %s %s %s)" % (kw("if", env), p(e[1], env), p(e[2], env), p(e[3], env))
        if t in ("let", "app"):
            vals = [p(x, env) for x in e[2]]
            names = [self.bind(b, env) for b in e[1]]
            body = p(e[3], self.ext(env, e[1]))
            if t == "let":
                return "(%s (%s) %s)" % (kw("let", env), " ".join("(%s %s)" % z for z in zip(names, vals)), body)
            return "((%s (%s) %s) %s)" % (kw("lambda", env), " ".join(names), body, " ".join(vals))
        if t == "let*":
            kw("let*", env)
            out = []
            en = env
            for b, x in zip(e[1], e[2]):
                out.append("(%s %s)" % (self.bind(b, en), p(x, en)))
                en = self.ext(en, [b])
            return "(let* (%s) %s)" % (" ".join(out), p(e[3], en))
        if t in ("letrec", "idef", "letf"):
            _, f, a, fb, body = e
            ef = self.ext(env, [f])
            fn = self.bind(f, env)
            fe = ef if t != "letf" else env
            kw("lambda", fe)
            lam = "(lambda (%s) %s)" % (self.bind(a, fe), p(fb, self.ext(fe, [a])))
            bt = p(body, ef)
            if t == "idef":
                kw("let", env)
                kw("define", ef)
                return "(let () (define %s %s) %s)" % (fn, lam, bt)
            return "(%s ((%s %s)) %s)" % (kw({"letrec": "letrec", "letf": "let"}[t], env), fn, lam, bt)
        if t == "call":
            return "(%s %s)" % (self.ref(e[1], env), p(e[2], env))
        if t == "begin":
            return "(%s %s)" % (kw("begin", env), " ".join(p(x, env) for x in e[1]))
        if t == "set":
            return "(%s %s %s)" % (kw("set!", env), self.ref(e[1], env), p(e[2], env))
        if t == "tr":
            kw("begin", env)
            kw("write", env)
            return "(begin (write %d) %s)" % (e[1], p(e[2], env))
        if t in ("or", "and"):
            return "(%s %s)" % (kw(t, env), " ".join(p(x, env) for x in e[1]))
        if t == "cond":
            kw("cond", env)
            return "(cond %s (else %s))" % (" ".join("(%s %s)" % (p(a, env), p(b, env)) for a, b in e[1]), p(e[2], env))
        if t == "loop":
            _, l, i, a, n, init, step = e
            kw("let", env)
            e1 = self.ext(env, [l])
            e2 = self.ext(e1, [i, a])
            for g in ("if", "<", "-"):
                kw(g, e2)
            return "(let %s ((%s %s) (%s %s)) (if (< %s 1) %s (%s (- %s 1) %s)))" % (
                self.bind(l, env), self.bind(i, env), n, self.bind(a, env), p(init, env), self.ref(i, e2), self.ref(a, e2),
                self.ref(l, e2), self.ref(i, e2), p(step, e2))
        if t == "do":
            _, i, a, n, init, step, res = e
            kw("do", env)
            e2 = self.ext(env, [i, a])
            kw("<", e2)
            kw("-", e2)
            return "(do ((%s %s (- %s 1)) (%s %s %s)) ((< %s 1) %s))" % (
                self.bind(i, env), n, self.ref(i, e2), self.bind(a, env), p(init, env), p(step, e2), self.ref(i, e2), p(res, e2))
        if t == "case":
            kw("case", env)
            return "(case %s %s (else %s))" % (p(e[1], env), " ".join("((%s) %s)" % (k, p(x, env)) for k, x in e[2]), p(e[3], env))
        if t == "force":
            kw("force", env)
            kw("delay", env)
            return "(force (delay %s))" % p(e[1], env)
        if t == "qq":
            for g in ("quasiquote", "unquote", "cadr"):
                kw(g, env)
            if isinstance(env.get(e[1]), P):
                raise Clash()
            return "(cadr `(%s ,%s ,@(list %s)))" % (e[1], p(e[2], env), p(e[3], env) if not kw("list", env) is None else "")
        if t in ("arrow", "guard", "receive"):
            _, a, b, body, other = e
            eb = self.ext(env, [b])
            if t == "arrow":
                kw("cond", env)
                kw("=>", env)
                kw("lambda", env)
                return "(cond ((< %s 0) 1) (%s => (lambda (%s) %s)) (else %s))" % (
                    p(other, env), p(a, env), self.bind(b, env), p(body, eb), p(other, env)) if kw("<", env) else ""
            if t == "guard":
                kw("guard", env)
                kw("raise", env)
                kw("<", eb)
                return "(guard (%s ((< 3 %s) %s) (else 7)) (raise %s))" % (self.bind(b, env), self.ref(b, eb), p(body, eb), p(a, env))
            kw("receive", env)
            kw("values", env)
            return "(receive (%s . zz) (values %s) %s)" % (self.bind(b, env), p(a, env), p(body, eb))
        if t == "ell":
            return "(%s %s %s ...)" % (kw(e[1], env), p(e[2], env), self.ref(e[3], env))
        if t == "ellbegin":
            return "(%s %s %s ... %s)" % (kw("begin", env), p(e[1], env), self.ref(e[2], env), p(e[3], env))
        if t == "binds":
            _, i, x, (b, pre), body = e
            kw("let", env)
            e1 = self.ext(env, [b])
            kw("let", e1)
            kw("+", e1)
            return "(let ((%s %s)) (let ((%s %s) ...) (+ %s %s)))" % (
                self.bind(b, env), p(pre, env), self.ref(i, e1), self.ref(x, e1), self.ref(b, e1), self.ref(body, e1))
        if t == "use":
            m = e[1]
            n = self.ref(m, env)
            if m.shape == "simple":
                return "(%s)" % " ".join([n] + [p(x, env) for x in e[2]])
            if m.shape == "rest":
                return "(%s)" % " ".join([n] + [p(x, env) for x in e[2] + e[3]])
            ns = [self.bind(b, env) for b in e[2]]
            vals = [p(x, env) for x in e[3]]
            body = p(e[4], self.ext(env, e[2]))
            bl = " ".join("(%s %s)" % z for z in zip(ns, vals))
            return "(%s %s %s)" % (n, bl if m.shape == "bind" else "(%s)" % bl, body)
        if t == "letsyn":
            _, rec, ms, body = e
            e1 = self.ext(env, ms)
            k = kw("letrec-syntax" if rec else "let-syntax", env)
            return "(%s (%s) %s)" % (k, " ".join("(%s %s)" % (m.name, self.rules(m, e1 if rec else env)) for m in ms), p(body, e1))
        raise AssertionError(t)

    def rules(self, m, env):
        self.kw("syntax-rules", env)
        pn = [q.name for q in m.params]
        if len(set(pn)) != len(pn):
            raise Clash()
        if m.shape == "simple":
            pat = " ".join(pn)
        elif m.shape == "rest":
            pat = " ".join(pn + ["..."])
        elif m.shape == "bind":
            pat = "(%s %s) %s" % tuple(pn)
        else:
            pat = "((%s %s) ...) %s" % tuple(pn)
        en = dict(env)
        for q in m.params:
            en[q.name] = q
        return "(syntax-rules () ((_ %s) %s))" % (pat, self.p(m.tmpl, en))


# --- the expansion: every binder fresh

class Expander:
    def __init__(self):
        self.n = 0

    def fresh(self, bs, env):
        e = dict(env)
        for b in bs:
            if isinstance(b, P):
                continue
            self.n += 1
            e[b] = "%%v%d" % self.n
        return e

    def x(self, e, env):
        x = self.x
        t = e[0]
        if t == "k":
            return e[1]
        if t == "ref":
            return self.var(e[1], env)
        if t == "g":
            return "(%s %s)" % (e[1], " ".join(x(y, env) for y in e[2]))
        if t == "if":
            return "(if %s %s %s)" % (x(e[1], env), x(e[2], env), x(e[3], env))
        if t in ("let", "app"):
            vals = [x(y, env) for y in e[2]]
            en = self.fresh(e[1], env)
            return "(let (%s) %s)" % (" ".join("(%s %s)" % (self.var(b, en), v) for b, v in zip(e[1], vals)), x(e[3], en))
        if t == "let*":
            out, close = "", ""
            en = env
            for b, y in zip(e[1], e[2]):
                v = x(y, en)
                en = self.fresh([b], en)
                out += "(let ((%s %s)) " % (self.var(b, en), v)
                close += ")"
            return out + x(e[3], en) + close
        if t in ("letrec", "idef", "letf"):
            _, f, a, fb, body = e
            ef = self.fresh([f], env)
            ea = self.fresh([a], env if t == "letf" else ef)
            return "(letrec ((%s (lambda (%s) %s))) %s)" % (ef[f], ea[a], x(fb, ea), x(body, ef))
        if t == "call":
            return "(%s %s)" % (self.var(e[1], env), x(e[2], env))
        if t == "begin":
            return "(begin %s)" % " ".join(x(y, env) for y in e[1])
        if t == "set":
            return "(set! %s %s)" % (self.var(e[1], env), x(e[2], env))
        if t == "tr":
            return "(begin (write %d) %s)" % (e[1], x(e[2], env))
        if t in ("or", "and"):
            return "(%s %s)" % (t, " ".join(x(y, env) for y in e[1]))
        if t == "cond":
            return "(cond %s (else %s))" % (" ".join("(%s %s)" % (x(a, env), x(b, env)) for a, b in e[1]), x(e[2], env))
        if t == "loop":
            _, l, i, a, n, init, step = e
            v = x(init, env)
            en = self.fresh([l, i, a], env)
            return "(let %s ((%s %s) (%s %s)) (if (< %s 1) %s (%s (- %s 1) %s)))" % (
                en[l], en[i], n, en[a], v, en[i], en[a], en[l], en[i], x(step, en))
        if t == "do":
            _, i, a, n, init, step, res = e
            v = x(init, env)
            en = self.fresh([i, a], env)
            return "(do ((%s %s (- %s 1)) (%s %s %s)) ((< %s 1) %s))" % (en[i], n, en[i], en[a], v, x(step, en), en[i], x(res, en))
        if t == "case":
            return "(case %s %s (else %s))" % (x(e[1], env), " ".join("((%s) %s)" % (k, x(y, env)) for k, y in e[2]), x(e[3], env))
        if t == "force":
            return "(force (delay %s))" % x(e[1], env)
        if t == "qq":
            return "(cadr (list '%s %s %s))" % (e[1], x(e[2], env), x(e[3], env))
        if t in ("arrow", "guard", "receive"):
            _, a, b, body, other = e
            eb = self.fresh([b], env)
            if t == "arrow":
                return "(cond ((< %s 0) 1) (%s => (lambda (%s) %s)) (else %s))" % (
                    x(other, env), x(a, env), eb[b], x(body, eb), x(other, env))
            if t == "guard":
                return "(guard (%s ((< 3 %s) %s) (else 7)) (raise %s))" % (eb[b], eb[b], x(body, eb), x(a, env))
            return "(receive (%s . %%zz) (values %s) %s)" % (eb[b], x(a, env), x(body, eb))
        if t == "ell":
            return "(%s %s %s)" % (e[1], x(e[2], env), " ".join(env[e[3]]))
        if t == "ellbegin":
            return "(begin %s %s %s)" % (x(e[1], env), " ".join(env[e[2]]), x(e[3], env))
        if t == "binds":
            _, i, v, (b, pre), body = e
            pv = x(pre, env)
            en = self.fresh([b], env)
            return "(let ((%s %s)) (let (%s) (+ %s %s)))" % (
                en[b], pv, " ".join("(%s %s)" % z for z in zip(env[i], env[v])), en[b], env[body])
        if t == "use":
            m = e[1]
            # the macro's free variables mean what they mean where it was defined
            en = dict(env[m]) if m in env else {}
            if m.shape in ("simple", "rest"):
                for q, y in zip(m.params, e[2]):
                    en[q] = x(y, env)
                if m.shape == "rest":
                    en[m.params[-1]] = [x(y, env) for y in e[3]]
                return x(m.tmpl, en)
            bs, vals = e[2], [x(y, env) for y in e[3]]
            eb = self.fresh(bs, env)
            body = x(e[4], eb)
            i, v, bd = m.params
            if m.shape == "bind":
                en[i], en[v] = eb[bs[0]], vals[0]
            else:
                en[i], en[v] = [eb[b] for b in bs], vals
            en[bd] = body
            return x(m.tmpl, en)
        if t == "letsyn":
            _, rec, ms, body = e
            en = dict(env)
            for m in ms:
                en[m] = env
            if rec:
                # templates of letrec-syntax see the macros defined before them
                d = dict(env)
                for m in ms:
                    en[m] = d
                    d = dict(d)
                    d[m] = en[m]
            return x(body, en)
        raise AssertionError(t)

    def var(self, v, env):
        if isinstance(v, P) and v.kind == "idref":
            v = v.of
        return env[v]


def binders_of(e, out):
    if isinstance(e, (tuple, list)):
        for x in e:
            binders_of(x, out)
    elif isinstance(e, M):
        if e not in out:
            out.append(e)
            for b in e.params:
                out.append(b)
            binders_of(e.tmpl, out)
    elif isinstance(e, (B, P)) and e not in out:
        out.append(e)


def choose(r, things, share):
    used = set()
    for k, b in enumerate(things):
        if isinstance(b, M):
            continue
        b.name = r.choice(POOLN) if r.random() < share else "u%d" % k


def hygiene(r, n):
    out = []
    tries = 0
    while len(out) < n and tries < 12 * n:
        tries += 1
        uid = "%04x" % r.randrange(1 << 16)
        g = Gen(r, [])
        tops = []
        for _ in range(r.choice([1, 2, 3])):
            m = g.macro([], r.choice([1, 2, 2, 3]))
            g.macros = g.macros + [m]
            tops.append(m)
        main = [g.use(g.r.choice(tops), [], 3)] if r.random() < 0.2 else [g.expr([], r.choice([3, 4, 5])) for _ in range(r.choice([1, 2]))]
        everything = []
        binders_of([tops, main], everything)
        if not any(isinstance(x, M) for x in everything):
            continue
        for k, m in enumerate(tops):
            m.name = "gm%d-%s" % (k + 1, uid)
        local = [x for x in everything if isinstance(x, M) and x not in tops]
        ex = Expander()
        try:
            text = "(list %s)" % " ".join(ex.x(e, {}) for e in main)
        except RecursionError:
            continue
        if len(text) > 5000:
            continue
        base = {m.name: m for m in tops}
        done = None
        share = 0.95
        for attempt in range(40):
            choose(r, everything, share)
            for k, m in enumerate(local):
                m.name = r.choice(["m1", "m2", "if", "list", "t", "x", "lm%d" % k]) if r.random() < share else "lm%d" % k
            pr = Printer()
            try:
                seen = {}
                defs = []
                for m in tops:
                    defs.append("(define-syntax %s %s)" % (m.name, pr.rules(m, seen)))
                    seen[m.name] = m
                body = "(list %s)" % " ".join(pr.p(e, base) for e in main)
                done = "\n".join(defs), body
                break
            except Clash:
                share *= 0.93
        if done is None:
            continue
        if not any(isinstance(x, M) for x in everything) or "%s" % done[1] == text:
            continue
        got = common.expect(text, 60, 60000, "")
        if got is None:
            continue
        kind, v, o = got
        if kind != "ok" or len(o) > 3000 or "#<" in v:
            continue
        out.append((done[1], v, o, done[0] + "\n", text))
    return out


POOL = r"""
(define-syntax my-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or r ...))))))
(define-syntax my-and (syntax-rules () ((_) #t) ((_ e) e) ((_ e r ...) (if e (my-and r ...) #f))))
(define-syntax my-let* (syntax-rules () ((_ () . b) (let () . b)) ((_ ((x v) r ...) . b) (let ((x v)) (my-let* (r ...) . b)))))
(define-syntax swap! (syntax-rules () ((_ a b) (let ((tmp a)) (set! a b) (set! b tmp)))))
(define-syntax while (syntax-rules () ((_ c . b) (let lp () (if c (begin (let () . b) (lp)) 'over)))))
(define-syntax my-cond (syntax-rules (else =>) ((_ (else . b)) (begin . b)) ((_ (t => f) . r) (let ((v t)) (if v (f v) (my-cond . r)))) ((_ (t) . r) (my-or t (my-cond . r))) ((_ (t . b) . r) (if t (begin . b) (my-cond . r))) ((_) 'none)))
(define-syntax for (syntax-rules (in from to) ((_ x in l . b) (map (lambda (x) . b) l)) ((_ x from a to e . b) (let loop ((x a) (acc '())) (if (< e x) (reverse acc) (loop (+ x 1) (cons (let () . b) acc)))))))
(define-syntax my-let (syntax-rules () ((_ ((n v) ...) . b) ((lambda (n ...) . b) v ...)) ((_ tag ((n v) ...) . b) ((letrec ((tag (lambda (n ...) . b))) tag) v ...))))
(define-syntax ev? (syntax-rules () ((_) #t) ((_ x . r) (od? . r))))
(define-syntax od? (syntax-rules () ((_) #f) ((_ x . r) (ev? . r))))
(define-syntax rev-q (syntax-rules () ((_ () a) 'a) ((_ (x . r) (y ...)) (rev-q r (x y ...)))))
(define-syntax my-letrec (syntax-rules () ((_ ((n v) ...) . b) (my-letrec "tmp" (n ...) () ((n v) ...) . b)) ((_ "tmp" () (t ...) ((n v) ...) . b) (let ((n #f) ...) (let ((t v) ...) (set! n t) ... (let () . b)))) ((_ "tmp" (x y ...) (t ...) bs . b) (my-letrec "tmp" (y ...) (newt t ...) bs . b))))
(define-syntax def (syntax-rules () ((_ n v) (define n v))))
(define-syntax deff (syntax-rules () ((_ (n . a) . b) (define (n . a) . b))))
(define-syntax q (syntax-rules () ((_ . x) 'x)))
(define-syntax m-kw (syntax-rules () ((_ a b) (let ((quote -) (if list)) (list (q a) (if 1 2 3) b)))))
(define g-count 0)
(define-syntax bump! (syntax-rules () ((_) (set! g-count (+ g-count 1))) ((_ n) (begin (set! g-count (+ g-count n)) g-count))))
(define-syntax nested (syntax-rules () ((_ (k (a b ...) ...) ...) '((k a ...) ... ((b ...) ... ) ...))))
(define-syntax vecs (syntax-rules () ((_ #(a #(b ...) ...) . r) '(#(a #(b ... end) ...) . r))))
(def top-made 41)
(deff (top-fn x . r) (list x r))
""".strip()

FIXED = r"""
(let ((t 5)) (my-or #f t)) ==> 5
(let ((if list) (let 7)) (my-or #f let)) ==> 7
(my-or) ==> #f
(my-or #f #f 3 (car 5)) ==> 3
(my-and 1 2 #f (car 5)) ==> #f
(my-and 1 2 3) ==> 3
(let ((x 1)) (my-let* ((x (+ x 1)) (y (* x 10)) (x y)) (list x y))) ==> (20 20)
(let ((tmp 1) (b 2)) (swap! tmp b) (list tmp b)) ==> (2 1)
(let ((set! list) (tmp 1) (let 2)) (swap! tmp let) (set! tmp let)) ==> (2 1)
(let ((lp 3) (acc '())) (while (< 0 lp) (set! acc (cons lp acc)) (set! lp (- lp 1))) acc) ==> (1 2 3)
(my-cond (#f 1) ((assv 2 '((1 . 2) (2 . 3))) => cdr) (else 9)) ==> 3
(my-cond (#f 1) (else 9 8)) ==> 8
(let ((v 4)) (my-cond (#f 1) (5 => (lambda (x) (+ x v))))) ==> 9
(my-cond (#f) (7) (else 8)) ==> 7
(my-cond) ==> none
(let ((=> #f)) (my-cond (#t => 'ok))) ==> ok
(let ((else #f)) (my-cond (else 1) (#t 2))) ==> 2
(for x in '(1 2 3) (* x x)) ==> (1 4 9)
(for x from 1 to 4 (define y (* x x)) y) ==> (1 4 9 16)
(let ((loop 10) (acc 20)) (for x from 1 to 2 (+ x loop acc))) ==> (31 32)
(let ((in 1)) (guard (e (#t 'no)) (for x in '(1 2) x))) ==> no
(my-let ((a 1) (b 2)) (list a b)) ==> (1 2)
(my-let lp ((a 3) (acc '())) (if (= a 0) acc (lp (- a 1) (cons a acc)))) ==> (1 2 3)
(list (ev? 1 2 3 4) (od? 1 2 3 4) (ev? 1)) ==> (#t #f #f)
(rev-q (1 (2 3) "x" #\y) ()) ==> (#\y "x" (2 3) 1)
(my-letrec ((e? (lambda (n) (if (= n 0) #t (o? (- n 1))))) (o? (lambda (n) (if (= n 0) #f (e? (- n 1)))))) (list (e? 10) (o? 10))) ==> (#t #f)
(list top-made (top-fn 1 2 3)) ==> (41 (1 (2 3)))
(q a (b . c) #(d "e") . f) ==> (a (b . c) #(d "e") . f)
(q) ==> ()
(let ((a 1) (b 2)) (m-kw a b)) ==> ((a) (1 2 3) 2)
(let ((g-count 5)) (bump!) g-count) ==> 5
(let ((before (bump! 0))) (let ((+ list)) (bump!) (bump! 2)) (- (bump! 0) before)) ==> 3
(nested (x (1 2 3) (4)) (y) (z (5 6))) ==> ((x 1 4) (y) (z 5) ((2 3) ()) () ((6)))
(vecs #(a #(1 2) #()) 5 6) ==> (#(a #(1 2 end) #(end)) 5 6)
(guard (e (#t 'none)) (my-or . 5)) ==> none
(guard (e (#t 'none)) (swap! a)) ==> none
(guard (e (#t 'none)) (swap! a b c)) ==> none
(let-syntax ((foo (syntax-rules () ((_) 1)))) (let-syntax ((foo (syntax-rules () ((_ x) (list x (foo)))))) (foo 2))) ==> (2 1)
(let ((x 'outer)) (let-syntax ((m (syntax-rules () ((m) x)))) (let ((x 'inner)) (m)))) ==> outer
(letrec-syntax ((my-or2 (syntax-rules () ((_) #f) ((_ e) e) ((_ e1 e2 ...) (let ((temp e1)) (if temp temp (my-or2 e2 ...))))))) (let ((x #f) (y 7) (temp 8) (let odd?) (if even?)) (my-or2 x (let temp) (if y) y))) ==> 7
(let ((=> #f)) (cond (#t => 'ok))) ==> any
(let-syntax ((m (syntax-rules () ((_ x) (let loop ((i 0) (acc '())) (if (< i 3) (loop (+ i 1) (cons x acc)) acc)))))) (let ((i 'i) (acc 'acc) (loop 'loop)) (m (list i acc loop)))) ==> ((i acc loop) (i acc loop) (i acc loop))
(let-syntax ((m (syntax-rules () ((_ f x ...) (f (lambda (k) (list k x)) ...))))) (map (lambda (g) (g 1)) (m list 2 3 4))) ==> ((1 2) (1 3) (1 4))
(let-syntax ((m (syntax-rules () ((_ x) `(x ,x ,@(list x 'x) #(x ,x)))))) (let ((y 5)) (m y))) ==> (y 5 5 y #(y 5))
(let-syntax ((m (syntax-rules () ((_ x) (let () (define t 1) (define (f t) (list t x)) (f (+ t 1))))))) (let ((t 9) (f 8)) (list (m t) (m f)))) ==> ((2 9) (2 8))
(syntax-rules) ==> error
(let-syntax ((m (syntax-rules () ((_ x x) 1)))) (m 1 2)) ==> error
(let-syntax ((m (syntax-rules () ((_ x ... y) 1)))) (m 1 2)) ==> error
(let-syntax ((m (syntax-rules () ((_ ... x) 1)))) (m 1 2)) ==> error
(let-syntax ((m (syntax-rules () ((_ x) (x ...))))) (m 1)) ==> error
(let-syntax ((m (syntax-rules () ((_ x ...) x)))) (m 1)) ==> error
(let-syntax ((m (syntax-rules () ((_ x) (1 ...))))) (m 1)) ==> error
(let-syntax ((m (syntax-rules (1) ((_ x) 1)))) (m 1)) ==> error
(let-syntax ((m (syntax-rules () (_ 1)))) (m 1)) ==> error
(let-syntax ((m (syntax-rules () ((_ x))))) (m 1)) ==> error
"""


def run(ctx):
    ctx.rule = ("matching: a case is a macro of 1-3 random rules (nested ellipses, dotted tails, vectors, literals) with templates that quote "
                "what they build, and 1-4 uses, some not matching; hygiene: macros with random templates (binding forms, loops, local macros, "
                "macros binding names given at the use) and programs using them, names chosen so that as many as possible coincide with "
                "others' binders, syntactic keywords and globals; distinct by definitions and program")
    ctx.assume = ["ellipsis last in a pattern; pattern variables used at exactly their ellipsis level; variables repeated together have equal lengths"]
    ms = [Case(b, ("ok", w), "matching", pre) for b, w, pre in common.par(matching, ctx.n(3000, 40000), "L09m/%d" % ctx.seed)]
    ms += [Case(b, ("ok", w), "ellipsis", pre) for b, w, pre in common.par(deepell, ctx.n(800, 10000), "L09d/%d" % ctx.seed)]
    ms += [Case(b, ("ok", w), "definition", pre) for b, w, pre in common.par(malformed, ctx.n(1500, 20000), "L09x/%d" % ctx.seed)]
    ms += [Case(b, ("ok", w), "match-form", pre) for b, w, pre in common.par(matchform, ctx.n(2000, 30000), "L09f/%d" % ctx.seed)]
    hs = [Case(b, ("ok", v, o), "hygiene", pre) for b, v, o, pre, _ in common.par(hygiene, ctx.n(3000, 40000), "L09h/%d" % ctx.seed)]
    fx = common.fixed(FIXED.replace("\\\\", "\\").replace("==> any", "==> raise:any"))
    for c in fx:
        if c.exp == ("raise", "any"):
            c.exp = ("any",)
    for v in VARIANTS:
        ctx.run(v, ms + hs + fx, PRE + POOL)
    # the same under frequent collections
    ctx.run("san-hygienic", ms[::12] + hs[::12] + fx, PRE + POOL, env={"VF_GC_INTERVAL": "37"})
    ctx.minimum = 2000
