"""C03: the sscm command: scripts, interactive sessions, options and exit status."""
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

from checks import common
from vlib import build as B, interp, progen, runner as R
from vlib.datum import ErrObj, parse_all, write

PRELUDE = "(define T (lambda (tag . v) (display \"<\") (display tag) (display \">\") (if (null? v) #f (car v))))"
SETUP = "(begin (use srfi-2) (use srfi-8) %s)" % PRELUDE
LINE = object()      # one line of unspecified text
PROMPT = "sscm> "


class Form:
    """text; out: printed; res: text of the result, LINE for unspecified, None when it does not return;
    err: exact text after 'Error: ', LINE for an error of the system, None; status: of an exit;
    eats: how many of the following data it reads; unwinds: an after thunk runs when unwound"""
    __slots__ = ("text", "out", "res", "err", "status", "eats", "unwound")

    def __init__(self, text, out="", res=None, err=None, status=None, eats=None, unwound=""):
        self.text, self.out, self.res, self.err, self.status, self.eats, self.unwound = text, out, res, err, status, eats, unwound


STRS = [("abc", '"abc"'), ('q"uo\\te', '"q\\"uo\\\\te"'), ("日本語", '"日本語"'), ("two\nlines", '"two\\nlines"'), ("", '""'), ("sscm> ", '"sscm> "')]
DATA = ["(a b)", "42", "-7", "#t", "sym", "(1 . 2)", "#(1 2)", '"str"', "#\\a", "()", "(quote x)", "((1) (2 (3)))"]
BAD = ["(car 5)", "(vector-ref (vector 1 2) 2)", "undefined-thing", "(undefined-proc 1)", "((lambda (x) x))", "((lambda (x) x) 1 2)", "(if)", "(let ((x 1)))",
       "(5 5)", "(string-ref \"abc\" 3)", "(exit 'a)", "(exit 1 2)", "(exit \"1\")", "(exit 1.5)", "(load 5)", "(let ((x 1 2)) x)", "(set! never-defined 1)", "(+ 1 'a)",
       "(raise)", "(integer->char -1)", "(string->symbol 5)", "(apply + 1)", "(exact->inexact 1)", "(lambda)", "(quotient 1 0)", "(symbol->string \"a\")", "(list-tail '(1 2) 3)",
       "(open-input-file \"no/such/file\")", "(load \"no/such/file.scm\")", "(hash-table-ref 1 2)", "(with-input-from-file \"no/such\" read)",
       "(length '(1 . 2))", "(vector-set! #(1) 0 1)", "(let loop ((i 0)) (if (< i 100) (loop (+ i 1)) (car i)))", "(for-each (lambda (x) (car x)) '((1) 2))", "(eval '(car 1) (interaction-environment))",
       "(define x)", "(define)", "(define 5 5)", "(begin (car 1) (display 2))", "(display 1 2)", "(string-append \"a\" 5)", "(length 5)", "(force)", "(values . 1)", "(let ((car 5)) (car 5))"]
BAD = [b for b in BAD if b not in ("(exit 1.5)", "(exact->inexact 1)", "(vector-set! #(1) 0 1)", "(hash-table-ref 1 2)")]


class Session:
    """Builds a session form by form with a model of the top level."""

    def __init__(self, rng, interactive):
        self.r = rng
        self.repl = interactive
        self.it = interp.Interp(60, 60000)
        self.it.toplevel(parse_all(PRELUDE))
        self.ints = []
        self.n = 0
        self.forms = []
        self.dead = False

    def name(self):
        self.n += 1
        return "top%d" % self.n

    def model(self, text, res=None):
        """A form whose outcome the reference interpreter gives; None when unusable."""
        o = len(self.it.out)
        g = dict(self.it.g)
        try:
            kind, v = self.it.toplevel(parse_all(text))
        except (interp.Limit, RecursionError):
            return None
        out = "".join(self.it.out[o:])
        if kind == "ok":
            t = write(v)
            if res is None:
                res = t
            if res is not LINE and ("#<" in t or "\n" in t):
                res = LINE if "\n" not in t and len(t) < 200 else None
                if res is None:
                    return None
            if len(t) > 3000:
                return None
            return Form(text, out, res)
        if "#<" in out:
            return None
        if kind == "err":
            if not self.repl and "dynamic-wind" in text:
                return None
            return Form(text, out, None, LINE)
        if not self.repl and "dynamic-wind" in text:
            return None
        t = write(v)
        if "#<" in t or "\n" in t:
            return None
        return Form(text, out, None, "unhandled exception: " + t)

    def random_expr(self, err):
        r = self.r
        g = progen.Gen(r, r.choice([(), ("cont",), ("exc",), ("cont", "exc", "values", "delay")]), err, r.randint(6, 30))
        for _ in range(8):
            sc = {n: "int" for n in self.ints}
            if r.random() < 0.35:
                n = self.name()
                t = "(define %s %s)" % (n, g.expr(sc, "int", 5))
                f = self.guarded(t, LINE)
                if f and f.err is None and f.status is None:
                    self.ints.append(n)
                if f:
                    return f
            elif r.random() < 0.15 and self.ints:
                f = self.guarded("(set! %s %s)" % (r.choice(self.ints), g.expr(sc, "int", 4)), LINE)
            else:
                f = self.guarded(g.expr(sc, r.choice(["int", "any", "list", "bool"]), 6))
            if f:
                return f
        return Form("17", "", "17")

    def guarded(self, text, res=None):
        """Runs the model; an unusable form must not leave definitions behind."""
        if len(text) > 3000:
            return None
        save = dict(self.it.g)
        f = self.model(text, res)
        if f is None:
            self.it.g.clear()
            self.it.g.update(save)
        return f

    def simple(self):
        """Forms with an outcome known by construction."""
        r = self.r
        k = r.randrange(18)
        n = r.randint(-50, 50)
        s, w = r.choice(STRS)
        if k >= 16:
            return Form(r.choice(["(with-input-from-file \"/dev/null\" read)", "(call-with-input-file \"/dev/null\" read-char)", "(current-output-port)", "car", "(lambda (x) x)",
                                  "(delay 1)", "(make-vector 0)", "(interaction-environment)", "(string->symbol \"\")", "(cons (if #f #f) car)", "(guard (e (#t e)) (car 1))",
                                  "(call-with-current-continuation (lambda (k) k))", "(list (delay (car 1)))", "'#f", "(if #f #f)", "(let loop () 1)"]), "", LINE)
        if k == 0:
            return Form("(display %s)" % w, s, LINE)
        if k == 1:
            return Form("(begin (write %s) (newline) %d)" % (w, n), w + "\n", str(n))
        if k == 2:
            return Form(w, "", w)
        if k == 3:
            d = r.choice(DATA[:-1])
            return Form("'" + d, "", d)
        if k == 4:
            return Form("(begin (for-each display '(1 2 3)) (write-char #\\x))", "123x", LINE)
        if k == 5:
            return Form("(let loop ((i 0)) (if (< i %d) (begin (display i) (loop (+ i 1))) 'end))" % abs(n), "".join(str(i) for i in range(abs(n))), "end")
        if k == 6:
            return Form("(guard (e (#t (list 'caught e))) (display 'in) (raise '(%d)))" % n, "in", "(caught (%d))" % n)
        if k == 7:
            return Form("(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (display 1)) (lambda () (k %d)) (lambda () (display 2)))))" % n, "12", str(n))
        if k == 8:
            return Form("(with-output-to-file \"side.txt\" (lambda () (display %d) 'aside))" % n, "", "aside")
        if k == 9:
            return Form("(begin (call-with-output-file \"f.txt\" (lambda (p) (write '(%d) p))) (call-with-input-file \"f.txt\" read))" % n, "", "(%d)" % n)
        if k == 10:
            return Form("(make-string 5000 #\\a)", "", '"' + "a" * 5000 + '"')
        if k == 11:
            return Form("#t", "", "#t")
        if k == 12:
            return Form("(list #t #f '() #\\a #\\space 'Sym %s (vector))" % w, "", "(#t #f () #\\a #\\space Sym %s #())" % w)
        if k == 13:
            return Form("(eval '(begin (display %d) (* 2 %d)) (interaction-environment))" % (n, n), str(n), str(2 * n))
        if k == 14:
            return Form("(if #f #f)", "", LINE)
        return Form("(quote %s)" % r.choice("abc"), "", None)

    def failing(self):
        r = self.r
        k = r.randrange(9)
        n = r.randint(-50, 50)
        s, w = r.choice(STRS)
        if k <= 2:
            return Form(r.choice(BAD), "", None, LINE)
        if k == 3:
            t = r.choice(['"reason"', '"日本:"', '"a b c"', '""'])
            objs = [r.choice(DATA[:9] + [x[1] for x in STRS[:4]]) for _ in range(r.randrange(4))]
            return Form("(error %s %s)" % (t, " ".join("'" + o for o in objs)), "", None, " ".join([t[1:-1]] + objs))
        if k == 4:
            d = r.choice(DATA[:9])
            return Form("(begin (display %d) (raise '%s) (display 2))" % (n, d), str(n), None, "unhandled exception: " + d)
        if k == 5:
            return Form("(let ((f (lambda (x) (display \"f\") (error \"deep\" x)))) (display (+ 1 (f '(%d)))))" % n, "f", None, "deep (%d)" % n)
        if k == 6 and self.repl:
            return Form("(dynamic-wind (lambda () (display \"[\")) (lambda () (raise %d)) (lambda () (display \"]\")))" % n, "[]", None, "unhandled exception: %d" % n)
        if k == 7 and self.repl:
            return Form("(with-output-to-file \"side2.txt\" (lambda () (display %d) (car %d)))" % (n, n), "", None, LINE)
        if k == 8:
            return Form("(guard (e ((string? e) 'no)) (display 1) (raise %d))" % n, "1", None, "unhandled exception: %d" % n)
        return Form("(raise %s)" % w, "", None, "unhandled exception: " + w)

    def leaving(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 42, 127, 128, 255, 256, 257, 300, 511, -1, -2, 65536 + 7])
        k = r.randrange(8)
        if k == 0:
            return Form("(exit)", "", None, None, 0)
        if k == 1:
            return Form("(begin (display \"bye\") (exit %d) (display \"no\"))" % n, "bye", None, None, n & 255)
        if k == 2:
            return Form("(for-each (lambda (x) (write-char #\\o) (if (= x 3) (exit %d))) '(1 2 3 4 5))" % n, "ooo", None, None, n & 255)
        if k == 3:
            return Form("(guard (e (#t (display \"caught\"))) (exit %d))" % n, "", None, None, n & 255)
        if k == 4:
            return Form("(let ((p (open-output-file \"left.txt\"))) (display \"kept\" p) (exit %d))" % n, "", None, None, n & 255)
        if k == 5:
            return Form("(call-with-current-continuation (lambda (k) (exit %d) (k 1)))" % n, "", None, None, n & 255)
        if k == 6:
            return Form("(apply exit '(%d))" % n, "", None, None, n & 255)
        return Form("(exit %d)" % n, "", None, None, n & 255)

    def build(self, n, perr, pexit):
        r = self.r
        while len(self.forms) < n and not self.dead:
            x = r.random()
            if x < perr:
                f = self.failing()
            elif x < perr + pexit:
                f = self.leaving()
            elif x < perr + pexit + 0.35:
                f = self.simple()
            elif x < perr + pexit + 0.42 and self.repl:
                d = r.choice(DATA)
                if r.random() < 0.5:
                    d2 = r.choice(DATA)
                    f = Form("(let* ((a (read)) (b (read))) (list b a))", "", "(%s %s)" % (d2, d), eats=[d, d2])
                else:
                    f = Form("(list (read))", "", "(%s)" % d, eats=[d])
                f.res = re.sub(r"\(quote x\)", lambda m: "'x" if QUOTED else m.group(0), f.res)
            else:
                f = self.random_expr(0.03 if self.repl else 0.01)
            if f.text.startswith("(quote "):
                f.res = f.text[7:-1]
            self.forms.append(f)
            if f.status is not None or (f.err is not None and not self.repl):
                self.dead = True
        return self


QUOTED = False
SEPS = ["\n", " ", "\n\n", "  ; comment (car\n", "\n;; note ) \" \n", "\t", "\r\n", "\n #;\n"][:7]


def expected(s):
    """(regex of stdout, regex of stderr, status)"""
    out, err, st = [], [], 0
    for f in s.forms:
        if s.repl:
            out.append(re.escape(PROMPT))
        out.append(re.escape(f.out))
        if f.err is not None:
            err.append("Error: " + ("[^\n]+" if f.err is LINE else re.escape(f.err).replace("unhandled\\ exception:", "unhandled exception:?")) + "\n")
            if not s.repl:
                st = 1
                break
        elif f.status is not None:
            st = f.status
            break
        elif s.repl:
            out.append(("[^\n]*" if f.res is LINE else re.escape(f.res)) + "\n")
    else:
        if s.repl:
            out.append(re.escape(PROMPT))
    return "".join(out), "".join(err), st


def text_of(s):
    r = s.r
    t = r.choice(["", "", "\n", " ; start\n"])
    # a symbol or a number needs a delimiter
    for f in s.forms:
        t += f.text + r.choice(SEPS)
        for d in f.eats or []:
            t += r.choice(["", " ", "\n"]) + d + r.choice(["\n", " "])
    if r.random() < 0.2:
        t = t.rstrip() if ";" not in t.rsplit("\n", 2)[-1] and ";" not in t[-40:] else t
    return t


def launch(bdir, args, stdin, files, env=None):
    """-> Proc with .st: the files written"""
    with R.Scratch() as sd:
        for n, b in files.items():
            p = os.path.join(sd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(b)
        p = R.run_proc([os.path.join(bdir, "sscm"), "--system-load-path", R.LIB] + [a.replace("%D", sd) for a in args], stdin=stdin, cwd=sd,
                       env=env, cpu=20, asan_extra=":detect_leaks=0")
        p.st = {}
        for n in ("left.txt", "side.txt"):
            try:
                with open(os.path.join(sd, n), "rb") as fh:
                    p.st[n] = fh.read()
            except OSError:
                pass
    return p


def differs(p, out, err, st):
    if p.timeout or p.cpu:
        return "did not end"
    san = R.san_summary(p.err)
    if san:
        return san
    o = p.out.decode("utf-8", "surrogateescape")
    e = p.err.decode("utf-8", "surrogateescape")
    if p.rc != st:
        return "exit status %d instead of %d; stderr ...%r" % (p.rc, st, e[-200:])
    if not re.fullmatch(out, o):
        # the first place where it goes wrong
        i = 0
        for m in re.finditer(r"sscm> ", o):
            i = m.start()
        return "standard output differs: ...%r" % o[-300:]
    if not re.fullmatch(err, e):
        return "standard error differs: %r" % e[-400:]
    return None


def sessions(rng, n, repl):
    res = []
    for _ in range(n):
        k = rng.choice([3, 8, 15, 30])
        s = Session(rng, repl)
        s.build(k, 0.3 if repl else 0.06, 0.03)
        res.append((text_of(s), expected(s), sum(1 for f in s.forms if f.err is not None), len(s.forms), [f.text for f in s.forms]))
    return res


# option handling and things that are about one particular situation: name, args, stdin, files, stdout, stderr, status
def ok(b):
    return re.escape(b)


E1 = "Error: [^\n]+\n"
WRITE1 = b"(display \"one\")(write (+ 1 1))\n"


def situations():
    S = []

    def add(name, args, out, err="", st=0, stdin=b"", **files):
        S.append((name, args, stdin, {k.replace("__", "/").replace("_scm", ".scm"): (v.encode() if isinstance(v, str) else v) for k, v in files.items()}, out, err, st))
    add("script", ["%D/a.scm"], "one2", a_scm=WRITE1)
    add("script named relative to the working directory", ["a.scm"], "one2", a_scm=WRITE1)
    add("script in a subdirectory", ["d/a.scm"], "one2", d__a_scm=WRITE1)
    add("stdin is not read by a script", ["a.scm"], "one2", stdin=b"(display 5)(exit 9)", a_scm=WRITE1)
    add("a script reads the standard input", ["a.scm"], r"\(\(x y\) 7 #\\z #t\)", stdin=b"(x y) 7z", a_scm="(write (let* ((a (read)) (b (read)) (c (read-char)) (d (eof-object? (read-char)))) (list a b c d)))".replace("(b (read)) ", "(b (begin (read-char) (- (char->integer (read-char)) 48))) "))
    add("words behind the script are not options", ["a.scm", "-C", "nonsense", "--bad", "b.scm"], "one2", a_scm=WRITE1, b_scm="(display \"no\")")
    add("empty script", ["a.scm"], "", a_scm="")
    add("script of comments", ["a.scm"], "", a_scm="; nothing\n\n;; at all")
    add("missing script", ["nothere.scm"], "", E1, 1)
    add("script is a directory", ["d"], "", E1, 1, d__a_scm="1")
    for a in (["-x"], ["-"], ["--"], ["-C"], ["--system-load-path"], ["-C", "no-such-encoding", "a.scm"], ["-C", "", "a.scm"], ["--system-load-path", "rel", "a.scm"],
              ["-c", "UTF-8", "a.scm"], ["--help"], ["-C", "UTF-8", "-x", "a.scm"], ["-CUTF-8", "a.scm"], ["--system-load-path", "", "a.scm"]):
        add("options " + " ".join(a), a, "", E1, 1, a_scm=WRITE1)
    for enc, text, n in (("UTF-8", "日本語é", 4), ("EUC-JP", "日本語", 3), ("Shift_JIS", "日本語", 3), ("EUC-KR", "한국어", 3), ("EUC-CN", "汉语", 2), ("ISO-8859-1", "é à", 3)):
        py = {"EUC-CN": "gb2312"}.get(enc, enc)
        b = text.encode(py)
        disp = ok(b.decode("utf-8", "surrogateescape"))
        src = b'(display "' + b + b'") (write (string-length "' + b + b'")) (write (car (string->list "' + b + b'")))'
        first = text[0].encode(py)
        add("script in " + enc, ["-C", enc, "a.scm"], disp + str(n) + ok("#\\" + first.decode("utf-8", "surrogateescape")), a_scm=src)
        add("session in " + enc, ["-C", enc], ok(PROMPT) + disp + "[^\n]*\n" + ok(PROMPT) + str(n) + "[^\n]*\n" + ok(PROMPT) + ok("#\\" + first.decode("utf-8", "surrogateescape")) + "[^\n]*\n" + ok(PROMPT), stdin=src)
        add("the last encoding counts: " + enc, ["-C", "ISO-8859-1" if enc != "ISO-8859-1" else "UTF-8", "-C", enc, "a.scm"], str(n), a_scm=b'(write (string-length "' + b + b'"))')
        add("encoding of a nested file: " + enc, ["-C", enc, "a.scm"], str(n), a_scm='(load "b.scm")', b_scm=b'(write (string-length "' + b + b'"))')
        add("encoding by the first line: " + enc, ["a.scm"], "%d%d" % (n, len("é")), a_scm='(load "b.scm")(write (string-length "é"))', b_scm=b'#! /usr/bin/env sscm -C ' + enc.encode() + b'\n(write (string-length "' + b + b'"))')
        add("first line over the command line: " + enc, ["-C", "ISO-8859-1", "b.scm"], "%d" % n, b_scm=b'#! /usr/bin/env sscm -C ' + enc.encode() + b'\n(write (string-length "' + b + b'"))')
    add("first line without options", ["a.scm"], "one2", a_scm=b"#! /usr/bin/env sscm\n" + WRITE1)
    add("first line with a bad encoding", ["a.scm"], "", E1, 1, a_scm=b"#! /usr/bin/env sscm -C nonsense\n" + WRITE1)
    add("first line with a bad option", ["a.scm"], "", E1, 1, a_scm=b"#! /usr/bin/env sscm -x\n" + WRITE1)
    add("nested load", ["a.scm"], "acb", a_scm='(display "a")(load "%s")(display "b")' % "c.scm", c_scm='(display "c")')
    add("nested load defines", ["a.scm"], "12", a_scm='(load "c.scm")(write c)(set! c 2)(write c)', c_scm='(define c 1)')
    add("error in a nested file ends the script", ["a.scm"], "ac", E1, 1, a_scm='(display "a")(load "c.scm")(display "b")', c_scm='(display "c")(car 1)(display "d")')
    add("caught error in a nested file", ["a.scm"], "ac!b", a_scm='(display "a")(guard (e (#t (display "!"))) (load "c.scm"))(display "b")', c_scm='(display "c")(car 1)(display "d")')
    add("exit in a nested file", ["a.scm"], "ac", st=6, a_scm='(display "a")(load "c.scm")(display "b")', c_scm='(display "c")(exit 6)(display "d")')
    add("raise in a nested file", ["a.scm"], "ac", "Error: unhandled exception:? oops\n", 1, a_scm='(display "a")(load "c.scm")(display "b")', c_scm='(display "c")(raise \'oops)(display "d")')
    add("nested load in a session", [], ok(PROMPT) + "c[^\n]*\n" + ok(PROMPT) + "7\n" + ok(PROMPT), stdin=b'(load "c.scm") x', c_scm='(display "c")(define x 7)')
    add("failing nested load in a session", [], ok(PROMPT) + "c" + ok(PROMPT) + "7\n" + ok(PROMPT) + ok(PROMPT) + "8\n" + ok(PROMPT), E1 * 2, stdin=b'(load "c.scm") x y 8', c_scm='(display "c")(define x 7)(car 5)(define y 8)')
    add("unreadable nested file in a session", [], ok(PROMPT) + "c" + ok(PROMPT) + "7\n" + ok(PROMPT), E1, stdin=b'(load "c.scm") 7', c_scm='(display "c")(car')
    add("input of a session taken by with-input-from-file", [], ok(PROMPT) + ok("(in file)\n") + ok(PROMPT) + "4\n" + ok(PROMPT), stdin=b'(with-input-from-file "in" read) (+ 2 2)', **{"in": "(in file)"})
    add("error while the input is redirected", [], ok(PROMPT) + ok(PROMPT) + "4\n" + ok(PROMPT), E1, stdin=b'(with-input-from-file "in" (lambda () (car (read-char)))) (+ 2 2)', **{"in": "(in file)"})
    add("error while the output is redirected", [], ok(PROMPT) + ok(PROMPT) + "4\n" + ok(PROMPT), E1, stdin=b'(with-output-to-file "out" (lambda () (display 1) (raise 2))) (+ 2 2)')
    for k, body in enumerate(("(foo", ")", "\"abc", "#\\nosuch", "#<x>", "'", "(1 . )", "#(1 2", "(a . b c)", "#:x")):
        add("unreadable script text " + body, ["a.scm"], "one2", E1, 1, a_scm=WRITE1 + b"\n" + body.encode())
    for name, val in (("guard", "5"), ("eval", "5"), ("read", "car"), ("write", "5"), ("display", "(lambda x 1)"), ("interaction-environment", "5"), ("newline", "5"),
                      ("else", "5"), ("list", "5"), ("err", "5"), ("current-output-port", "5"), ("car", "cdr"), ("raise", "5"), ("with-exception-handler", "5"), ("dynamic-wind", "5"),
                      ("call-with-current-continuation", "5"), ("reverse", "5"), ("load", "5"), ("begin", "5"), ("lambda", "5"), ("if", "5")):
        add("a session where %s is redefined" % name, [], ok(PROMPT) + "[^\n]*\n" + ok(PROMPT) + "12\n" + ok(PROMPT) + ok(PROMPT) + "13\n" + ok(PROMPT),
            "Error: [^\n]+\n", stdin=("(define %s %s) (+ 5 7) (vector-ref 5 5) (+ 6 7)" % (name, val)).encode())
    add("an escape kept beyond its form", [], (ok(PROMPT) + "[^\n]*\n") * 2 + ok(PROMPT) + ok(PROMPT) + "5\n" + ok(PROMPT), E1,
        stdin=b"(define k #f) (+ 1 (call-with-current-continuation (lambda (c) (set! k c) 1))) (k 4) 5")
    add("a handler that returns", [], (ok(PROMPT)) * 2 + "5\n" + ok(PROMPT), E1, stdin=b"(with-exception-handler (lambda (e) 1) (lambda () (raise 2))) 5")
    add("an uncaught error inside a handler", [], ok(PROMPT) * 2 + "5\n" + ok(PROMPT), "Error: unhandled exception:? 3\n", stdin=b"(with-exception-handler (lambda (e) (raise 3)) (lambda () (raise 2))) 5")
    add("no input", [], ok(PROMPT))
    add("only blanks", [], ok(PROMPT), stdin=b" \n\t; x\n")
    add("circular vector shown", [], (ok(PROMPT) + "[^\n]*\n") * 3 + ok(PROMPT) + ok("#1=#(1 #1#)\n") + ok(PROMPT), stdin=b"(require-extension (srfi 38)) (define l (vector 1 2)) (vector-set! l 1 l) l")
    add("shared vectors shown", [], (ok(PROMPT) + "[^\n]*\n") * 2 + ok(PROMPT) + ok("#(#1=(5) #1#)\n") + ok(PROMPT), stdin=b"(require-extension (srfi 38)) (define l (list 5)) (vector l l)")
    add("shared structure shown", [], (ok(PROMPT) + "[^\n]*\n") * 3 + ok(PROMPT) + ok("#1=(1 2 . #1#)\n") + ok(PROMPT), stdin=b"(require-extension (srfi 38)) (define l (list 1 2)) (set-cdr! (cdr l) l) l")
    add("circular object raised", [], (ok(PROMPT) + "[^\n]*\n") * 3 + ok(PROMPT) + ok(PROMPT) + "3\n" + ok(PROMPT), "Error: unhandled exception:? " + ok("#1=(1 2 . #1#)\n"), stdin=b"(require-extension (srfi 38)) (define l (list 1 2)) (set-cdr! (cdr l) l) (raise l) 3")
    add("unread text at the end of a session", [], ok(PROMPT) + "3\n" + ok(PROMPT) + "(.|\n)*", "Error: (.|\n)+", None, stdin=b"(+ 1 2) (foo")
    add("a thousand errors", [], ok(PROMPT) * 1001, E1 * 1000, stdin=b"(car 1)\n" * 1000)
    add("fatal error procedure", ["a.scm"], "1", E1, 1, a_scm="(display 1)(guard (e (#t (%%fatal-error e))) (car 1))(display 2)")
    add("inspecting an error", ["a.scm"], "12", "Error: why 5\nError: unhandled exception:? x\n", 0, a_scm="(display 1)(guard (e (#t (%%inspect-error e))) (error \"why\" 5))(%%inspect-error 'x)(display 2)")
    return S


def run(ctx):
    ctx.rule = ("a case is one run of sscm: a session (3-30 forms on the standard input) or script with random expressions, definitions carried from form to form, errors, raised objects, "
                "reads from the session's own input, exits with any status at random positions; or one of the fixed situations (options, encodings, prelude line, nested load, redefined names)")
    ctx.assume = ["text the reader rejects ends an interactive session (a limitation the code documents); only the report is judged",
                  "the wording of a system error is not judged, only that there is one line of it", "after thunks of an uncaught error in a script are not judged"]
    variants = ("san-compact", "san-fatty", "san-hygienic")
    dirs = {v: B.build(v, ()) for v in variants}
    n = ctx.n(480, 12000)
    jobs = []
    for repl in (True, False):
        cases = common.par(sessions, n if repl else n // 2, "C03/%d/%d" % (ctx.seed, repl), repl)
        for i, (text, (out, err, st), errs, nf, forms) in enumerate(cases):
            v = variants[i % 3]
            if repl:
                jobs.append(("session", v, [], (SETUP + "\n" + text).encode(), {}, ok(PROMPT) + "[^\n]*\n" + out, err, st, errs, nf))
            else:
                jobs.append(("script", v, ["%D/a.scm"], b"(exit 99)", {"a.scm": (SETUP + "\n" + text).encode()}, out, err, st, errs, nf))
    for v in variants:
        for name, args, stdin, files, out, err, st in situations():
            if v == "san-hygienic" and name == "circular object raised":
                continue        # quote walks the object in that build
            jobs.append((name, v, args, stdin, files, out, err, st, None, None))
    with ThreadPoolExecutor(R.NPROC) as ex:
        fs = [(j, ex.submit(launch, dirs[j[1]], j[2], j[3], j[4])) for j in jobs]
        for j, f in fs:
            name, v, args, stdin, files, out, err, st, errs, nf = j
            p = f.result()
            ctx.count("session" if name == "session" else "script" if name == "script" else "situation", "%s/%s/%r/%r" % (name, v, stdin, files))
            d = differs(p, out, err, p.rc if st is None and p.rc in (0, 1) else st)
            if d is None and p.st.get("left.txt") not in (None, b"kept"):
                d = "what was written to a port left open at exit is lost"
            if d:
                ctx.violation("%s:%s" % (name, d[:60]), "%s %s: %s\nwanted status %r, output %s\nstderr %s" % (v, name, d, st, out[-1500:], err[-500:]),
                              "sscm %s\n--- stdin\n%s\n--- files\n%s" % (args, stdin.decode("utf-8", "replace"), "\n".join("%s:\n%s" % (k, b.decode("utf-8", "replace")) for k, b in files.items())))
                continue
            k = "status%d" % min(p.rc, 2)
            ctx.kinds[k] = ctx.kinds.get(k, 0) + 1
            if errs is not None:
                ctx.stats["forms"] = ctx.stats.get("forms", 0) + nf
                ctx.stats["errors reported"] = ctx.stats.get("errors reported", 0) + errs
            else:
                ctx.sample("%s => status %d, out %r" % (name, p.rc, p.out[:60]))
    ctx.minimum = 500
