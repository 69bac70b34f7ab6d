"""A reference interpreter for the core language, written from the language
report (nested/escape-only continuations, SRFI-34 exceptions as SigScheme
specifies them).  It shares no code with the interpreter under test."""
import sys
import threading

from .datum import (NIL, UNDEF, EOF, Char, ErrObj, Pair, ParseError, Str, Sym, Vec, equal, eqv, lst,
                    parse_all, unlist, unlist2, write)


class Limit(BaseException):
    """The program is too long to be used as a test."""


class ContInvoke(BaseException):
    def __init__(self, k, val):
        self.k, self.val = k, val


class TopError(BaseException):
    def __init__(self, obj):
        self.obj = obj


class Env:
    __slots__ = ("v", "up")

    def __init__(self, v, up):
        self.v, self.up = v, up


class Closure:
    __slots__ = ("req", "rest", "body", "env", "name")

    def __init__(self, req, rest, body, env):
        self.req, self.rest, self.body, self.env = req, rest, body, env


class Prim:
    __slots__ = ("f", "lo", "hi", "name")

    def __init__(self, f, lo, hi, name):
        self.f, self.lo, self.hi, self.name = f, lo, hi, name


class Macro:
    __slots__ = ("proc",)

    def __init__(self, proc):
        self.proc = proc


class Cont:
    __slots__ = ("winds", "dead")

    def __init__(self, winds):
        self.winds, self.dead = winds, False


class Values:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = list(vals)


class Promise:
    __slots__ = ("val", "done", "thunk")

    def __init__(self, thunk):
        self.thunk, self.done, self.val = thunk, False, None


class Record:
    __slots__ = ("type", "f")

    def __init__(self, t, f):
        self.type, self.f = t, f


class RType:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n


class OPort:
    __slots__ = ("buf",)

    def __init__(self):
        self.buf = []


class IPort:
    __slots__ = ("s", "i")

    def __init__(self, s):
        self.s, self.i = s, 0


UNBOUND = object()
MISSING = object()
S = Sym
_else, _arrow, _define, _begin = S("else"), S("=>"), S("define"), S("begin")
_unquote, _splice, _qq = S("unquote"), S("unquote-splicing"), S("quasiquote")
_defvals = S("define-values")


COMPARES = {"=", "<", ">", "<=", ">="}
FOLDS = COMPARES | {"+", "-", "*", "max", "min"}


def is_proc(x):
    return isinstance(x, (Closure, Prim, Cont))


class Interp:
    def __init__(self, bits=60, limit=200000):
        self.out = []
        self.port = None            # current output port, None = stdout
        self.handlers = None        # linked (h, rest)
        self.winds = None           # linked (frame, rest)
        self.conts = []
        self.steps = 0
        self.limit = limit
        self.min, self.max = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.bits = bits
        self.g = {}
        self.forms = {S(n[2:].replace("_star", "*").replace("_bang", "!").replace("_", "-")): getattr(self, n)
                      for n in dir(self) if n.startswith("s_")}
        self.forms[S("and-let*")] = self.s_and_let_star
        self.forms[S("let-optionals*")] = self.f_let_optionals
        for n in dir(self):
            if n.startswith("p_"):
                f = getattr(self, n)
                spec = f.__doc__.split()
                hi = None if spec[2] == "*" else int(spec[2])
                self.g[S(spec[0])] = Prim(f, int(spec[1]), hi, spec[0])
        self._prims()

    # -- running ------------------------------------------------------------
    def toplevel(self, forms):
        """Evaluates top-level forms; returns (kind, text)."""
        def base(obj):
            raise TopError(obj)
        self.handlers = (Prim(base, 1, 1, "base"), None)
        self.winds = None
        try:
            v = UNDEF
            for f in forms:
                v = self.top(f)
            if isinstance(v, Values):
                self.base_error("multiple values")
            return "ok", v
        except TopError as e:
            obj = e.obj
            # the driver's guard unwinds after choosing its clause
            self.pop_conts(None)
            try:
                self.exit_winds(None)
            except (TopError, ContInvoke):
                raise Limit()
            return ("err" if isinstance(obj, ErrObj) else "raise"), obj
        except ContInvoke:
            raise AssertionError("escape past top level")

    def base_error(self, m):
        raise TopError(ErrObj(m, []))

    def top(self, f):
        while isinstance(f, Pair) and isinstance(f.car, Sym) and isinstance(self.g.get(f.car), Macro):
            f = self.apply(self.g[f.car].proc, self.args_of(f))
        if isinstance(f, Pair) and f.car is _define:
            self.top_define(f)
            return UNDEF
        if isinstance(f, Pair) and f.car is S("define-macro"):
            return self.s_define_macro(f, None)
        if isinstance(f, Pair) and f.car is _begin and isinstance(f.cdr, Pair):
            v = UNDEF
            for x in unlist(f.cdr):
                v = self.top(x)
            return v
        if isinstance(f, Pair) and f.car is S("define-record-type"):
            return self.s_define_record_type(f, None)
        return self.ev(f, None)

    def top_define(self, f):
        name, val = self.parse_define(f)
        self.g[name] = self.single(self.ev(val, None))

    def parse_define(self, f):
        try:
            xs, tail = unlist2(f.cdr)
        except Exception:
            xs, tail = [], None
        if tail is not NIL or not xs:
            self.error("bad define")
        if isinstance(xs[0], Sym):
            if len(xs) != 2:
                self.error("bad define")
            return xs[0], xs[1]
        if isinstance(xs[0], Pair) and isinstance(xs[0].car, Sym) and len(xs) >= 2:
            return xs[0].car, Pair(S("lambda"), Pair(xs[0].cdr, f.cdr.cdr))
        self.error("bad define")

    def error(self, msg, *objs):
        self.raise_obj(ErrObj(msg, list(objs)))

    def raise_obj(self, obj):
        h, rest = self.handlers

        def thunk():
            self.apply(h, [obj])
            self.error("handler returned", h, obj)
        self.with_handlers(rest, thunk)
        raise AssertionError

    def with_handlers(self, new, thunk):
        old = self.handlers
        return self.wind(lambda: setattr(self, "handlers", new), thunk,
                         lambda: setattr(self, "handlers", old))

    def call(self, f, args=()):
        if callable(f):
            return f(*args)
        return self.apply(f, list(args))

    def wind(self, before, thunk, after):
        self.call(before)
        self.winds = ((before, after), self.winds)
        r = self.call(thunk)
        self.winds = self.winds[1]
        self.call(after)
        return r

    def exit_winds(self, dest):
        while self.winds is not None and self.winds is not dest:
            fr, self.winds = self.winds
            self.call(fr[1])

    def pop_conts(self, k):
        while self.conts:
            c = self.conts.pop()
            c.dead = True
            if c is k:
                return True
        return False

    def call_cont(self, k, val):
        if k.dead:
            self.error("expired continuation", k)
        while self.conts and self.conts[-1] is not k:
            self.conts.pop().dead = True
        self.exit_winds(k.winds)
        self.pop_conts(k)
        raise ContInvoke(k, val)

    def callcc(self, f):
        k = Cont(self.winds)
        self.conts.append(k)
        try:
            r = self.call(f, [k])
        except ContInvoke as c:
            if c.k is k:
                return c.val
            raise
        self.pop_conts(k)
        return r

    def single(self, v):
        if isinstance(v, Values):
            self.error("multiple values are not allowed here")
        return v

    # -- evaluation -----------------------------------------------------------
    def lookup(self, s, env):
        while env is not None:
            if s in env.v:
                v = env.v[s]
                if v is UNBOUND:
                    self.error("unbound variable", s)
                return v
            env = env.up
        v = self.g.get(s, UNBOUND)
        if v is UNBOUND:
            self.error("unbound variable", s)
        return v

    def is_local(self, s, env):
        while env is not None:
            if s in env.v:
                return True
            env = env.up
        return False

    def ev(self, x, env):
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Limit()
            if isinstance(x, Sym):
                if x in self.forms and not self.is_local(x, env) and x not in self.g:
                    self.error("syntactic keyword as value")
                return self.lookup(x, env)
            if not isinstance(x, Pair):
                if x is NIL or isinstance(x, Vec):
                    self.error("unquoted constant")
                return x
            op = x.car
            if isinstance(op, Sym) and not self.is_local(op, env) and op not in self.g:
                form = self.forms.get(op)
                if form is not None:
                    r = form(x, env)
                    if type(r) is tuple:        # tail
                        x, env = r
                        continue
                    return r
            if isinstance(op, Sym):
                m = self.find_macro(op, env)
                if m is not None:
                    x = self.apply(m.proc, self.args_of(x))
                    continue
            f = self.ev(op, env)
            if type(f) is Prim and f.name in FOLDS and x.cdr is not NIL and isinstance(x.cdr, Pair) and x.cdr.cdr is not NIL:
                return self.fold(f, self.args_of(x), env)
            args = [self.single(self.ev(a, env)) for a in self.args_of(x)]
            if isinstance(f, Closure):
                env = self.bind(f, args)
                r = self.body(f.body, env)
                if type(r) is tuple:
                    x, env = r
                    continue
                return r
            return self.apply(f, args)

    def fold(self, f, xs, env):
        """Arithmetic takes its operands one after another, and complains as soon as it can; after a
        comparison that fails the operands left are evaluated but not checked."""
        acc = self.single(self.ev(xs[0], env))
        compare = f.name in COMPARES
        result = None
        for x in xs[1:]:
            v = self.single(self.ev(x, env))
            if not compare:
                acc = f.f(acc, v)
            elif result is not False:
                result = f.f(acc, v)
                acc = v
        return result if compare else acc

    def find_macro(self, s, env):
        while env is not None:
            if s in env.v:
                return None
            env = env.up
        v = self.g.get(s)
        return v if isinstance(v, Macro) else None

    def args_of(self, x):
        try:
            return unlist(x.cdr)
        except ValueError:
            self.error("improper argument list")

    def bind(self, f, args):
        n = len(f.req)
        if len(args) < n or (len(args) > n and f.rest is None):
            self.error("wrong number of arguments")
        d = dict(zip(f.req, args))
        if f.rest is not None:
            d[f.rest] = lst(args[n:])
        return Env(d, f.env)

    def apply(self, f, args):
        if isinstance(f, Prim):
            if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                self.error("wrong number of arguments", f.name)
            return f.f(*args)
        if isinstance(f, Closure):
            env = self.bind(f, args)
            r = self.body(f.body, env)
            if type(r) is tuple:
                return self.ev(*r)
            return r
        if isinstance(f, Cont):
            self.call_cont(f, args[0] if len(args) == 1 else Values(args))
        self.error("not a procedure", f)

    def seq(self, xs, env):
        for x in xs[:-1]:
            self.ev(x, env)
        return xs[-1], env

    def is_definition(self, x, env):
        return (isinstance(x, Pair) and x.car is _define and not self.is_local(_define, env))

    def collect(self, body, env):
        """Splits a body into definitions and expressions."""
        defs = []
        i = 0
        while i < len(body):
            x = body[i]
            if self.is_definition(x, env):
                defs.append(self.parse_define(x))
            elif isinstance(x, Pair) and x.car is _begin and not self.is_local(_begin, env):
                sub = unlist(x.cdr)
                if sub and all(self.is_definition(y, env) for y in sub):
                    defs += [self.parse_define(y) for y in sub]
                else:
                    break
            else:
                break
            i += 1
        return defs, body[i:]

    def body(self, body, env):
        defs, exprs = self.collect(body, env)
        if not exprs:
            self.error("expression required")
        if defs:
            env = Env({n: UNBOUND for n, _ in defs}, env)
            vals = [self.single(self.ev(v, env)) for _, v in defs]
            for (n, _), v in zip(defs, vals):
                env.v[n] = v
        return self.seq(exprs, env)

    # -- special forms: return a value or a (expr, env) tail ---------------------
    def s_quote(self, x, env):
        xs = self.args_of(x)
        if len(xs) != 1:
            self.error("bad quote")
        return xs[0]

    def s_if(self, x, env):
        xs = self.args_of(x)
        if len(xs) not in (2, 3):
            self.error("bad if")
        if self.single(self.ev(xs[0], env)) is not False:
            return xs[1], env
        return (xs[2], env) if len(xs) == 3 else UNDEF

    def mklambda(self, formals, body, env):
        req, rest = unlist2(formals) if isinstance(formals, Pair) else ([], formals)
        if rest is NIL:
            rest = None
        allv = req + ([rest] if rest is not None else [])
        if not all(isinstance(v, Sym) for v in allv) or len(set(allv)) != len(allv):
            self.error("bad formals")
        if not body:
            self.error("no body")
        return Closure(req, rest, body, env)

    def s_lambda(self, x, env):
        xs = self.args_of(x)
        if not xs:
            self.error("bad lambda")
        return self.mklambda(xs[0], xs[1:], env)

    def s_define(self, x, env):
        self.error("definition in expression context")

    def s_set_bang(self, x, env):
        xs = self.args_of(x)
        if len(xs) != 2 or not isinstance(xs[0], Sym):
            self.error("bad set!")
        v = self.single(self.ev(xs[1], env))
        e = env
        while e is not None:
            if xs[0] in e.v:
                e.v[xs[0]] = v
                return v
            e = e.up
        if xs[0] not in self.g:
            self.error("unbound variable")
        self.g[xs[0]] = v
        return v

    def bindings(self, b, uniq=True):
        r = []
        xs, tail = unlist2(b)
        if tail is not NIL:
            self.error("bad bindings")
        return xs

    def check_binding(self, b, seen):
        ok = isinstance(b, Pair) and isinstance(b.cdr, Pair) and b.cdr.cdr is NIL and isinstance(b.car, Sym)
        if not ok or (seen is not None and b.car in seen):
            self.error("invalid binding")
        return b.car, b.cdr.car

    def s_let(self, x, env):
        xs = self.args_of(x)
        name = None
        if xs and isinstance(xs[0], Sym):
            name, xs = xs[0], xs[1:]
        if not xs:
            self.error("bad let")
        names, vals = [], []
        bs, tail = unlist2(xs[0])
        for b in bs:
            n, e = self.check_binding(b, names)
            vals.append(self.single(self.ev(e, env)))
            names.append(n)
        if tail is not NIL or len(xs) < 2:
            self.error("bad let")
        if name is not None:
            env = Env({name: None}, env)
            env.v[name] = Closure(names, None, xs[1:], env)
        return self.body(xs[1:], Env(dict(zip(names, vals)), env))

    def s_let_star(self, x, env):
        xs = self.args_of(x)
        if len(xs) < 2:
            self.error("bad let*")
        bs, tail = unlist2(xs[0])
        for b in bs:
            n, e = self.check_binding(b, None)
            env = Env({n: self.single(self.ev(e, env))}, env)
        if tail is not NIL:
            self.error("bad let*")
        return self.body(xs[1:], env)

    def s_letrec(self, x, env):
        xs = self.args_of(x)
        if len(xs) < 2:
            self.error("bad letrec")
        bs, tail = unlist2(xs[0])
        names, exps = [], []
        for b in bs:
            n, e = self.check_binding(b, names)
            names.append(n)
            exps.append(e)
        if tail is not NIL:
            self.error("bad letrec")
        env = Env({n: UNBOUND for n in names}, env)
        vals = [self.single(self.ev(e, env)) for e in exps]
        env.v.update(zip(names, vals))
        return self.body(xs[1:], env)

    def s_begin(self, x, env):
        xs = self.args_of(x)
        if not xs:
            self.error("bad begin")
        return self.seq(xs, env)

    def cond_clauses(self, clauses, env):
        """MISSING, a value or a tail."""
        if not clauses:
            self.error("clause required")
        for i, c in enumerate(clauses):
            if not isinstance(c, Pair):
                self.error("bad clause")
            exps = unlist(c.cdr)
            if c.car is _else:
                if i != len(clauses) - 1 or not exps:
                    self.error("bad else")
                return self.seq(exps, env)
            t = self.single(self.ev(c.car, env))
            if t is not False:
                if not exps:
                    return t
                if exps[0] is _arrow:
                    if len(exps) != 2:
                        self.error("bad =>")
                    f = self.single(self.ev(exps[1], env))
                    if not is_proc(f):
                        self.error("exp after => is not a procedure")
                    return self.apply(f, [t])
                return self.seq(exps, env)
        return MISSING

    def s_cond(self, x, env):
        r = self.cond_clauses(self.args_of(x), env)
        return UNDEF if r is MISSING else r

    def s_case(self, x, env):
        xs = self.args_of(x)
        if len(xs) < 2:
            self.error("bad case")
        key = self.single(self.ev(xs[0], env))
        for i, c in enumerate(xs[1:]):
            if not isinstance(c, Pair):
                self.error("bad clause")
            if c.car is _else:
                if i != len(xs) - 2:
                    self.error("bad else")
                hit = True
            else:
                hit = any(eqv(key, d) for d in unlist(c.car))
            if hit:
                exps = unlist(c.cdr)
                if not exps:
                    self.error("bad clause")
                return self.seq(exps, env)
        return UNDEF

    def s_and(self, x, env):
        xs = self.args_of(x)
        if not xs:
            return True
        for e in xs[:-1]:
            if self.single(self.ev(e, env)) is False:
                return False
        return xs[-1], env

    def s_or(self, x, env):
        xs = self.args_of(x)
        if not xs:
            return False
        for e in xs[:-1]:
            v = self.single(self.ev(e, env))
            if v is not False:
                return v
        return xs[-1], env

    def s_do(self, x, env):
        xs = self.args_of(x)
        if len(xs) < 2:
            self.error("bad do")
        bs, tail = unlist2(xs[0])
        names, steps, vals = [], [], []
        for b in bs:
            p = unlist(b)
            if len(p) not in (2, 3) or not isinstance(p[0], Sym) or p[0] in names:
                self.error("bad do binding")
            vals.append(self.single(self.ev(p[1], env)))
            names.append(p[0])
            steps.append(p[2] if len(p) == 3 else p[0])
        test = unlist(xs[1])
        if not test:
            self.error("bad do")
        e = Env(dict(zip(names, vals)), env)
        while self.single(self.ev(test[0], e)) is False:
            for c in xs[2:]:
                self.ev(c, e)
            vals = [self.single(self.ev(s, e)) for s in steps]
            e = Env(dict(zip(names, vals)), env)
        if len(test) == 1:
            return UNDEF
        return self.seq(test[1:], e)

    def s_delay(self, x, env):
        xs = self.args_of(x)
        if len(xs) != 1:
            self.error("bad delay")
        return Promise(self.mklambda(NIL, xs, env))

    def s_quasiquote(self, x, env):
        xs = self.args_of(x)
        if len(xs) != 1:
            self.error("bad quasiquote")
        return self.qq(xs[0], 1, env)

    def qq(self, t, depth, env):
        if isinstance(t, Vec):
            r = self.qq(lst(t.v), depth, env)
            return Vec(unlist(r))
        if not isinstance(t, Pair):
            return t
        if t.car is _qq and isinstance(t.cdr, Pair) and t.cdr.cdr is NIL:
            return Pair(_qq, self.qq(t.cdr, depth + 1, env))
        if t.car is _unquote and isinstance(t.cdr, Pair) and t.cdr.cdr is NIL:
            if depth == 1:
                return self.single(self.ev(t.cdr.car, env))
            return Pair(_unquote, self.qq(t.cdr, depth - 1, env))
        h = t.car
        if (isinstance(h, Pair) and h.car is _splice and isinstance(h.cdr, Pair) and h.cdr.cdr is NIL):
            if depth == 1:
                v = self.single(self.ev(h.cdr.car, env))
                self.plist(v)
                rest = self.qq(t.cdr, depth, env)
                if rest is NIL:
                    return v
                return lst(self.plist(v), rest)
            a = Pair(_splice, self.qq(h.cdr, depth - 1, env))
        else:
            a = self.qq(h, depth, env)
        return Pair(a, self.qq(t.cdr, depth, env))

    def s_define_macro(self, x, env):
        xs = self.args_of(x)
        if isinstance(xs[0], Pair):
            name, f = xs[0].car, self.mklambda(xs[0].cdr, xs[1:], None)
        else:
            name, f = xs[0], self.ev(xs[1], env)
        self.g[name] = Macro(f)
        return name

    def s_guard(self, x, env):
        xs = self.args_of(x)
        spec = unlist(xs[0])
        var, clauses, body = spec[0], spec[1:], xs[1:]

        def with_gk(gk):
            def handler(cond):
                def with_hk(hk):
                    cenv = Env({var: cond}, env)
                    r = self.cond_clauses(clauses, cenv)
                    if r is MISSING:
                        self.call_cont(hk, MISSING)
                    if type(r) is tuple:
                        r = self.ev(*r)
                    self.call_cont(gk, r)
                self.callcc(with_hk)
                self.raise_obj(cond)

            def run():
                r = self.body(body, env)
                if type(r) is tuple:
                    r = self.ev(*r)
                self.call_cont(gk, r)
            return self.with_handlers((Prim(handler, 1, 1, "guard-handler"), self.handlers), run)
        return self.callcc(with_gk)

    def s_receive(self, x, env):
        xs = self.args_of(x)
        if len(xs) < 3:
            self.error("bad receive")
        f = self.mklambda(xs[0], xs[2:], env)
        v = self.ev(xs[1], env)
        e = self.bind(f, v.vals if isinstance(v, Values) else [v])
        return self.body(f.body, e)

    def s_and_let_star(self, x, env):
        xs = self.args_of(x)
        v = True
        for c in unlist(xs[0]):
            if isinstance(c, Sym):
                v = self.single(self.ev(c, env))
            elif c.cdr is NIL:
                v = self.single(self.ev(c.car, env))
            else:
                v = self.single(self.ev(c.cdr.car, env))
                env = Env({c.car: v}, env)
            if v is False:
                return False
        if len(xs) == 1:
            return v
        return self.body(xs[1:], env)

    def f_let_optionals(self, x, env):
        xs = self.args_of(x)
        if len(xs) < 3:
            self.error("bad let-optionals*")
        a = self.single(self.ev(xs[0], env))
        try:
            args = unlist(a)
        except Exception:
            self.error("list required")
        bs, rest = unlist2(xs[1]) if isinstance(xs[1], Pair) else ([], xs[1])
        for i, b in enumerate(bs):
            var, exp = (b.car, b.cdr.car) if isinstance(b, Pair) else (b, UNDEF)
            if i < len(args):
                v = args[i]
            else:
                v = self.single(self.ev(exp, env))
            env = Env({var: v}, env)
        if rest is not NIL:
            env = Env({rest: lst(args[len(bs):])}, env)
        return self.body(xs[2:], env)

    def s_define_record_type(self, x, env):
        xs = self.args_of(x)
        t = RType(xs[0].name)
        self.g[xs[0]] = t
        fields = [unlist(f) for f in xs[3:]]
        names = [f[0] for f in fields]
        ctor = unlist(xs[1])
        cf = ctor[1:]

        def make(*a):
            f = {n: UNDEF for n in names}
            f.update(zip(cf, a))
            return Record(t, f)
        self.g[ctor[0]] = Prim(make, len(cf), len(cf), "ctor")
        self.g[xs[2]] = Prim(lambda o: isinstance(o, Record) and o.type is t, 1, 1, "pred")

        def acc(n):
            def get(o):
                if not (isinstance(o, Record) and o.type is t):
                    self.error("wrong record type")
                return o.f[n]
            return get

        def mod(n):
            def put(o, v):
                if not (isinstance(o, Record) and o.type is t):
                    self.error("wrong record type")
                o.f[n] = v
                return UNDEF
            return put
        for f in fields:
            if len(f) > 1:
                self.g[f[1]] = Prim(acc(f[0]), 1, 1, "acc")
            if len(f) > 2:
                self.g[f[2]] = Prim(mod(f[0]), 2, 2, "mod")
        return UNDEF

    # -- primitives -----------------------------------------------------------
    def plist(self, x):
        xs, tail = unlist2(x)
        if tail is not NIL:
            self.error("proper list required", x)
        return xs

    def num(self, x):
        if isinstance(x, bool) or not isinstance(x, int):
            self.error("integer required", x)
        return x

    def fix(self, n):
        if not self.min <= n <= self.max:
            self.error("fixnum overflow")
        return n

    def pair(self, x):
        if not isinstance(x, Pair):
            self.error("pair required", x)
        return x

    def emit(self, s):
        (self.out if self.port is None else self.port.buf).append(s)

    def p_values(self, *a):
        "values 0 *"
        return a[0] if len(a) == 1 else Values(a)

    def p_cwv(self, producer, consumer):
        "call-with-values 2 2"
        if not is_proc(producer) or not is_proc(consumer):
            self.error("procedure required")
        v = self.apply(producer, [])
        return self.apply(consumer, v.vals if isinstance(v, Values) else [v])

    def p_callcc(self, f):
        "call-with-current-continuation 1 1"
        if not is_proc(f):
            self.error("procedure required")
        return self.callcc(f)

    def p_callcc2(self, f):
        "call/cc 1 1"
        if not is_proc(f):
            self.error("procedure required")
        return self.callcc(f)

    def p_dw(self, a, b, c):
        "dynamic-wind 3 3"
        for p in (a, b, c):
            if not is_proc(p):
                self.error("procedure required")
        return self.wind(a, b, c)

    def p_weh(self, h, t):
        "with-exception-handler 2 2"
        if not is_proc(h) or not is_proc(t):
            self.error("procedure required")
        return self.with_handlers((h, self.handlers), t)

    def p_raise(self, o):
        "raise 1 1"
        self.raise_obj(o)

    def p_error(self, m, *objs):
        "error 1 *"
        self.raise_obj(ErrObj(m, list(objs)))

    def p_errorp(self, o):
        "%%error-object? 1 1"
        return isinstance(o, ErrObj)

    def p_force(self, p):
        "force 1 1"
        if not isinstance(p, Promise):
            self.error("promise required")
        if not p.done:
            v = self.apply(p.thunk, [])
            if not p.done:
                p.done, p.val = True, v
        return p.val

    def p_apply(self, f, *a):
        "apply 2 *"
        if not is_proc(f):
            self.error("procedure required")
        args = list(a[:-1]) + self.plist(a[-1])
        return self.apply(f, args)

    def p_map(self, f, *ls):
        "map 2 *"
        r = []
        for tup in self.zip(ls):
            r.append(self.single(self.apply(f, list(tup))))
        return lst(r)

    def zip(self, ls):
        ls = list(ls)
        if len(ls) == 1:
            p = ls[0]
            while isinstance(p, Pair):
                yield (p.car,)
                p = p.cdr
            if p is not NIL:
                self.error("proper list required")
            return
        while all(isinstance(p, Pair) for p in ls):
            yield tuple(p.car for p in ls)
            ls = [p.cdr for p in ls]
        if not all(p is NIL for p in ls):
            self.error("unequal-length or dotted lists are passed as arguments")

    def p_foreach(self, f, *ls):
        "for-each 2 *"
        for tup in self.zip(ls):
            self.apply(f, list(tup))
        return UNDEF

    def p_eval(self, x, env):
        "eval 2 2"
        return self.top(x)

    def p_display(self, x, port=None):
        "display 1 2"
        self.emit_to(port, write(x, True))
        return UNDEF

    def p_write(self, x, port=None):
        "write 1 2"
        self.emit_to(port, write(x))
        return UNDEF

    def p_newline(self, port=None):
        "newline 0 1"
        self.emit_to(port, "\n")
        return UNDEF

    def emit_to(self, port, s):
        if port is None:
            self.emit(s)
        else:
            port.buf.append(s)

    def p_oos(self):
        "open-output-string 0 0"
        return OPort()

    def p_gos(self, p):
        "get-output-string 1 1"
        return Str("".join(p.buf))

    def p_T(self, tag, v=False):
        "T 1 2"
        self.emit("<%s>" % write(tag, True))
        return v

    # arithmetic
    def p_add(self, *a):
        "+ 0 *"
        r = 0
        for x in a:
            r = self.fix(r + self.num(x))
        return r

    def p_mul(self, *a):
        "* 0 *"
        r = 1
        for x in a:
            r = r * self.num(x)
            m = 1 << self.bits
            r = (r + (m >> 1)) % m - (m >> 1)
        return r

    def p_sub(self, *a):
        "- 1 *"
        if len(a) == 1:
            return self.fix(-self.num(a[0]))
        r = self.num(a[0])
        for x in a[1:]:
            r = self.fix(r - self.num(x))
        return r

    def div(self, a, b):
        if self.num(b) == 0 or self.num(a) is None:
            self.error("division by zero")
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def p_quotient(self, a, b):
        "quotient 2 2"
        return self.fix(self.div(self.num(a), b))

    def p_remainder(self, a, b):
        "remainder 2 2"
        return self.num(a) - self.div(a, b) * b

    def p_modulo(self, a, b):
        "modulo 2 2"
        self.num(a)
        if self.num(b) == 0:
            self.error("division by zero")
        return a % b

    def cmp(self, op, a):
        for x in a[:2]:
            self.num(x)
        for i in range(len(a) - 1):
            self.num(a[i + 1])
            if not op(a[i], a[i + 1]):
                return False
        return True

    def p_eqn(self, *a):
        "= 2 *"
        return self.cmp(lambda x, y: x == y, a)

    def p_lt(self, *a):
        "< 2 *"
        return self.cmp(lambda x, y: x < y, a)

    def p_gt(self, *a):
        "> 2 *"
        return self.cmp(lambda x, y: x > y, a)

    def p_le(self, *a):
        "<= 2 *"
        return self.cmp(lambda x, y: x <= y, a)

    def p_ge(self, *a):
        ">= 2 *"
        return self.cmp(lambda x, y: x >= y, a)

    # pairs
    def p_setcar(self, p, v):
        "set-car! 2 2"
        if self.pair(p).const:
            self.error("immutable")
        p.car = v
        return UNDEF

    def p_setcdr(self, p, v):
        "set-cdr! 2 2"
        if self.pair(p).const:
            self.error("immutable")
        p.cdr = v
        return UNDEF

    def p_append(self, *a):
        "append 0 *"
        if not a:
            return NIL
        r = a[-1]
        for x in reversed(a[:-1]):
            r = lst(self.plist(x), r)
        return r

    def mem(self, x, l, same):
        while isinstance(l, Pair):
            if same(x, l.car):
                return l
            l = l.cdr
        if l is not NIL:
            self.error("improper list")
        return False

    def ass(self, x, l, same):
        while isinstance(l, Pair):
            if same(x, self.pair(l.car).car):
                return l.car
            l = l.cdr
        if l is not NIL:
            self.error("improper list")
        return False

    def p_vecref(self, v, i):
        "vector-ref 2 2"
        return self.vec(v).v[self.index(i, len(v.v))]

    def p_vecset(self, v, i, x):
        "vector-set! 3 3"
        if self.vec(v).const:
            self.error("immutable")
        v.v[self.index(i, len(v.v))] = x
        return UNDEF

    def vec(self, v):
        if not isinstance(v, Vec):
            self.error("vector required")
        return v

    def index(self, i, n):
        if not 0 <= self.num(i) < n:
            self.error("out of range")
        return i

    def p_makevec(self, n, x=UNDEF):
        "make-vector 1 2"
        if self.num(n) < 0:
            self.error("negative")
        return Vec([x] * n)

    def p_stringappend(self, *a):
        "string-append 0 *"
        for s in a:
            if not isinstance(s, Str):
                self.error("string required")
        return Str("".join(s.s for s in a))

    def p_ns(self, n):
        "number->string 1 1"
        return Str(str(self.num(n)))

    def p_strlen(self, s):
        "string-length 1 1"
        if not isinstance(s, Str):
            self.error("string required")
        return len(s.s)

    def p_s2s(self, s):
        "string->symbol 1 1"
        return Sym(s.s)

    def p_sy2s(self, s):
        "symbol->string 1 1"
        if not isinstance(s, Sym):
            self.error("symbol required")
        return Str(s.name, True)

    def _prims(self):
        def reg(name, lo, hi, f):
            self.g[S(name)] = Prim(f, lo, hi, name)
        reg("cons", 2, 2, Pair)
        reg("car", 1, 1, lambda p: self.pair(p).car)
        reg("cdr", 1, 1, lambda p: self.pair(p).cdr)

        def cxr(path):
            def f(p):
                for c in reversed(path):
                    p = self.pair(p).car if c == "a" else self.pair(p).cdr
                return p
            return f
        import itertools
        for n in (2, 3, 4):
            for t in itertools.product("ad", repeat=n):
                reg("c%sr" % "".join(t), 1, 1, cxr(t))
        reg("list", 0, None, lambda *a: lst(a))
        reg("vector", 0, None, lambda *a: Vec(a))
        reg("length", 1, 1, lambda l: len(self.plist(l)))
        reg("reverse", 1, 1, lambda l: lst(reversed(self.plist(l))))
        reg("list->vector", 1, 1, lambda l: Vec(self.plist(l)))
        reg("vector->list", 1, 1, lambda v: lst(self.vec(v).v))
        reg("vector-length", 1, 1, lambda v: len(self.vec(v).v))
        reg("memq", 2, 2, lambda x, l: self.mem(x, l, eqv))
        reg("memv", 2, 2, lambda x, l: self.mem(x, l, eqv))
        reg("member", 2, 2, lambda x, l: self.mem(x, l, equal))
        reg("assq", 2, 2, lambda x, l: self.ass(x, l, eqv))
        reg("assv", 2, 2, lambda x, l: self.ass(x, l, eqv))
        reg("assoc", 2, 2, lambda x, l: self.ass(x, l, equal))
        reg("eq?", 2, 2, eqv)
        reg("eqv?", 2, 2, eqv)
        reg("equal?", 2, 2, equal)
        reg("not", 1, 1, lambda x: x is False)
        reg("null?", 1, 1, lambda x: x is NIL)
        reg("pair?", 1, 1, lambda x: isinstance(x, Pair))

        def islist(x):
            while isinstance(x, Pair):
                x = x.cdr
            return x is NIL
        reg("list?", 1, 1, islist)
        reg("symbol?", 1, 1, lambda x: isinstance(x, Sym))
        reg("string?", 1, 1, lambda x: isinstance(x, Str))
        reg("char?", 1, 1, lambda x: isinstance(x, Char))
        reg("vector?", 1, 1, lambda x: isinstance(x, Vec))
        reg("boolean?", 1, 1, lambda x: isinstance(x, bool))
        reg("procedure?", 1, 1, is_proc)
        isnum = lambda x: isinstance(x, int) and not isinstance(x, bool)
        for n in ("number?", "integer?"):
            reg(n, 1, 1, isnum)
        reg("zero?", 1, 1, lambda x: self.num(x) == 0)
        reg("positive?", 1, 1, lambda x: self.num(x) > 0)
        reg("negative?", 1, 1, lambda x: self.num(x) < 0)
        reg("even?", 1, 1, lambda x: self.num(x) % 2 == 0)
        reg("odd?", 1, 1, lambda x: self.num(x) % 2 == 1)
        reg("abs", 1, 1, lambda x: self.fix(abs(self.num(x))))
        reg("max", 1, None, lambda *a: max(self.num(x) for x in a))
        reg("min", 1, None, lambda *a: min(self.num(x) for x in a))
        reg("interaction-environment", 0, 0, lambda: UNDEF)

        def list_tail(l, k):
            for _ in range(self.num(k)):
                l = self.pair(l).cdr
            return l
        reg("list-tail", 2, 2, list_tail)
        reg("list-ref", 2, 2, lambda l, k: self.pair(list_tail(l, k)).car)
        reg("string", 0, None, lambda *a: Str("".join(chr(c.c) for c in a)))


# T is available to programs on both sides
T_PRELUDE = """
(define (T tag . v) (display "<") (display tag) (display ">") (if (null? v) #f (car v)))
"""


def run_text(text, bits=60, limit=200000):
    """(kind, text, out) of program text, or None if it is too long."""
    return run_forms(parse_all(text), bits, limit)


def run_forms(forms, bits=60, limit=200000, setup=None):
    it = Interp(bits, limit)
    if setup:
        setup(it)
    try:
        kind, v = it.toplevel(forms)
        return kind, (write(v) if kind != "err" else ""), "".join(it.out)
    except (Limit, RecursionError):
        return None


def big_stack(f, *a):
    """Runs f with a large Python stack."""
    box = []

    def go():
        try:
            box.append((True, f(*a)))
        except BaseException as e:
            box.append((False, e))
    sys.setrecursionlimit(60000)
    old = threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    threading.stack_size(old)
    ok, v = box[0]
    if not ok:
        raise v
    return v
