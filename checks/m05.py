"""M05: initialise/finalise cycles are independent of one another and leave nothing behind."""
import os
import re

from checks import common, m02, m03
from vlib import build as B, libgen, runner as R
from vlib.check import Case

# text that leaves every kind of state behind at finalisation
LEAVE = r"""
(define car cdr)
(define (map . x) 'not-map)
(define if 5)
(define m05-left (open-input-file "left.txt"))
(define m05-left-out (open-output-file "left-out.txt"))
(begin (define m05-o (open-output-file "left-out2.txt")) (display "partial" m05-o))
(define m05-str (open-output-string))
(define m05-ring (let ((l (list 1 2 3))) (set-cdr! (cddr l) l) l))
(define m05-k #f)
(call-with-current-continuation (lambda (k) (set! m05-k k)))
(define m05-promise (delay (list 1 2)))
(begin (define m05-promise2 (delay 3)) (force m05-promise2))
(define-macro m05-mac (lambda (x) (list 'list x x)))
(define-macro list (lambda x ''listed))
(use srfi-1)
(require-extension (srfi 43))
(require-extension (srfi 69))
(require-extension (srfi 95))
(use srfi-9)
(use srfi-48)
(use srfi-38)
(use srfi-60)
(use sscm-ext)
(begin (use sscm-ext) (provide "m05-feature"))
(begin (use sscm-ext) (require "req.scm"))
(begin (load "req.scm") m05-req)
(define m05-big (make-vector 5000 "x"))
(define m05-strs (let loop ((i 0) (l '())) (if (< i 300) (loop (+ i 1) (cons (make-string 20 #\a) l)) l)))
(define m05-syms (let loop ((i 0) (l '())) (if (< i 300) (loop (+ i 1) (cons (string->symbol (number->string i)) l)) l)))
(guard (e (#t (set! m05-err e))) (car 1))
(define m05-err (guard (e (#t e)) (error "kept" (list 1))))
(with-exception-handler (lambda (e) 1) (lambda () 2))
(guard (e (#t e)) (with-output-to-file "left3.txt" (lambda () (display 1) (raise 'out))))
(guard (e (#t e)) (with-input-from-file "left.txt" (lambda () (read) (car 2))))
(guard (e (#t e)) (with-char-codec "ISO-8859-1" (lambda () (raise 'x))))
(guard (e (#t e)) (with-char-codec "EUC-JP" (lambda () (string->symbol "abc"))))
(guard (e (#t e)) (dynamic-wind (lambda () (set! m05-in 1)) (lambda () (raise 1)) (lambda () (set! m05-out 1))))
(begin (call-with-current-continuation (lambda (k) (dynamic-wind (lambda () #f) (lambda () (k 1)) (lambda () #f)))) 1)
(guard (e (#t e)) (read (open-input-string "(1 2")))
(guard (e (#t e)) (load "nosuch.scm"))
(guard (e (#t e)) (load "bad.scm"))
(guard (e (#t e)) (eval '(if) (interaction-environment)))
(begin (use srfi-9) (define-record-type m05-rec (make-m05 a) m05? (a m05-a)))
(begin (require-extension (srfi 69)) (define m05-h (make-hash-table)) (hash-table-set! m05-h 'a 1))
(close-input-port (open-input-file "left.txt"))
(let ((p (open-input-file "left.txt"))) (read-char p) (read-char p))
(begin (vf-gc) 1)
"""

# what a cycle can see of the one before it
PROBE = r"""
(list (guard (e (#t 'unbound)) m05-left) (guard (e (#t 'unbound)) m05-k) (guard (e (#t 'unbound)) m05-big) (guard (e (#t 'unbound)) m05-req))
(list (guard (e (#t 'err)) (car '(1 2))) (guard (e (#t 'err)) (map + '(1) '(2))) (guard (e (#t 'err)) (if #t 1 2)))
(guard (e (#t 'err)) (m05-mac 1))
(guard (e (#t 'err)) (list 1 2))
(guard (e (#t 'err)) (reduce + 0 '(1 2 3)))
(guard (e (#t 'err)) (iota 3))
(guard (e (#t 'err)) (vector-map (lambda (i x) x) (vector 1)))
(guard (e (#t 'err)) (hash-table? 1))
(guard (e (#t 'err)) (format "~a~~" 1))
(guard (e (#t 'err)) (make-m05 1))
(guard (e (#t 'err)) (provided? "m05-feature"))
(guard (e (#t 'err)) (begin (use sscm-ext) (list (provided? "m05-feature") (provided? "srfi-1") (provided? "srfi-34") (provided? "*req.scm-loaded*") (provided? "sigscheme"))))
(guard (e (#t 'err)) (begin (use sscm-ext) (map symbol-bound? '(m05-left m05-mac m05-err m05-in m05-rec srfi-1 map))))
(string->list (list->string (list #\a (integer->char 26085) #\b)))
(list (string-length "日本語") (char->integer #\é) (symbol->string 'Abc) (eq? 'abc (string->symbol "abc")))
(let ((p (open-output-string))) (write '(a "b\n" #\space #(1)) p) (get-output-string p))
(list (input-port? (current-input-port)) (output-port? (current-output-port)))
(let ((p (open-input-file "left.txt"))) (let* ((a (read p)) (b (read p))) (close-input-port p) (list a (eof-object? b))))
(begin (load "req.scm") m05-req)
(guard (e (#t 'caught)) (raise 'x))
(guard (e ((%%error-object? e) (cadr e))) (car 1))
(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () (display "in ")) (lambda () (k 'out)) (lambda () (display "out ")))))
(let loop ((i 0) (l '())) (if (< i 500) (loop (+ i 1) (cons (number->string i) l)) (length l)))
(force (delay (+ 1 2)))
"""


def script(r, lib, progs, hyg):
    body = ["(load %s)" % R.quote(R.PRELUDE)]
    k = 0

    def case(e):
        nonlocal k
        k += 1
        body.append("(vf-case %d (lambda () %s))" % (k, e))
    probes = [l for l in PROBE.strip().split("\n") if not (hyg and "hash-table" in l)]
    for l in r.sample(probes, r.randint(4, len(probes))):
        case(l)
    z = r.random()
    if z < 0.3 and not hyg:
        body.append(libgen.PRE)
        for _ in range(r.randint(1, 12)):
            case(lib[r.randrange(len(lib))])
    elif z < 0.6:
        body.append(common.PRE)
        for _ in range(r.randint(1, 8)):
            case(progs[r.randrange(len(progs))])
    elif z < 0.7 and not hyg:
        body.append(m03.PRE + m02.SETUP)
        ks = [x for x in m02.KINDS.strip().split("\n") if x]
        for _ in range(r.randint(1, 20)):
            case("(begin (guard (e%% (#t #f)) (let ((r%% %s)) #f)) 'done)" % r.choice(ks))
    leave = [l for l in LEAVE.strip().split("\n") if not (hyg and re.search("srfi-9|srfi (69|95)", l))]
    n = r.choice([0, 1, 2, 5, 10])
    for l in r.sample(leave, n):
        # once a name is taken the next lines may fail: all of them are guarded
        body.append(l if l.startswith("(define") or "(define " in l else "(guard (e% (#t #f)) (let ((r% " + l + ")) #f))")
        if re.match(r"\(define (car|if|\(map|list)|\(define-macro list", l):
            break
    return "\n".join(body) + "\n"


def sizing(r):
    if r.random() < 0.15:
        return (0, 0, 0, 0, 0, 0)
    h = r.choice([64, 300, 1000, 1000, 4096, 16384, 30000])
    return (h, r.choice([1, h // 2, h // 10 + 1]), 1000000 // h + 2, r.choice([1, 1, 2, 5]), r.choice([1, 2, 7, 64, 1024, 5000]), 1)


def process(bdir, cycles, tag0):
    """cycles: list of (sizing, libpath, interval, text).  Returns {index: (output, live, fds)} or a Res."""
    with R.Scratch() as sd:
        plan = []
        for i, (sz, lp, gi, text) in enumerate(cycles):
            d = os.path.join(sd, "c%d" % i)
            os.mkdir(d)
            for f, s in (("left.txt", "(some datum 1)\n"), ("req.scm", "(define m05-req '(loaded))\n"), ("bad.scm", "(define zz 1) (car 1)\n"), ("run.scm", text)):
                with open(os.path.join(d, f), "w", encoding="utf-8", errors="surrogateescape") as fh:
                    fh.write(s)
            plan.append("%d %d %d %d %d %d %d %d %d %s" % (sz + (lp, gi, i, os.path.join(d, "run.scm"))))
        with open(os.path.join(sd, "plan"), "w") as fh:
            fh.write("\n".join(plan) + "\n")
        p = R.run_proc([os.path.join(bdir, "cycle"), os.path.join(sd, "plan"), R.LIB], env={"VF_STATS": os.path.join(sd, "stats")}, cwd=sd, cpu=120)
        st = {}
        try:
            for kv in open(os.path.join(sd, "stats")).read().split():
                k, v = kv.split("=")
                st[k] = int(v)
        except OSError:
            pass
        top = sd.encode()
    out = {}
    for m in re.finditer(rb"\n@@CYCLE (\d+)\n(.*?)\n@@FIN \1 live=(-?\d+) fds=(-?\d+)\n", p.out, re.S):
        out[int(m.group(1))] = (m.group(2).replace(top, b"TOP").replace(b"/c%d/" % int(m.group(1)), b"/cN/"), int(m.group(3)), int(m.group(4)),
                                "; ".join(x.decode("utf-8", "replace") for x in re.findall(rb"@@FDS (.*)", p.out)))
    bad = None
    if b"\n@@DONE\n" not in p.out or p.rc:
        bad = "the process ended early (status %s): %s" % (p.rc, R.san_summary(p.err) or p.err.decode("utf-8", "replace")[-400:])
    return out, bad, st


def run(ctx):
    ctx.rule = ("sequences of initialise (random storage sizing, library path, forced collections) / run a generated script / finalise in "
                "one process; the output of each cycle must equal that of the same script as the only cycle of a fresh process with default "
                "sizing, and after each finalisation the balance of malloc blocks and of descriptors must be what it was before; "
                "distinct by script text")
    ctx.assume = ["scripts end without an uncaught error (that ends the process by design)"]
    r = ctx.rng
    import concurrent.futures
    for variant in ("san-compact", "san-fatty", "opt-compact") + (("opt-fatty", "san-hygienic", "clo-fatty") if ctx.thorough else ("san-hygienic",)):
        hyg = variant.endswith("hygienic")
        nproc = ctx.n(60 if not hyg else 24, 600)
        lib = common.par(libgen.exprs, 400, "M05/%d/%s" % (ctx.seed, variant), 25)
        lib = [e for e in lib if not (hyg and re.search(r"hash|pt|sort|merge", e))]
        progs = [c.body for c in common.random_programs(ctx, 200, ("cont", "exc", "values", "delay", "port"), 0.1, 50, "typed" + variant)]
        ctx.evals  # programs are counted below, per cycle
        bdir = B.build(variant, ("cycle",))
        seqs = []
        for _ in range(nproc):
            ts = [script(r, lib, progs, hyg) for _ in range(r.randint(2, 8))]
            # scripts come again in the same process, too
            cyc = [(sizing(r), r.randint(0, 1), r.choice([0, 0, 0, 97, 700]), r.choice(ts)) for _ in range(r.randint(3, 14))]
            seqs.append(cyc)
        with concurrent.futures.ThreadPoolExecutor(R.NPROC) as ex:
            got = list(ex.map(lambda c: process(bdir, c, 0), seqs))
            alone = sorted({(c[3], c[1]) for s in seqs for c in s})
            base = dict(zip(alone, ex.map(lambda t: process(bdir, [((0, 0, 0, 0, 0, 0), t[1], 0, t[0])], 0), alone)))
        for s, (out, bad, st) in zip(seqs, got):
            for k, v in st.items():
                ctx.stats[k] = ctx.stats.get(k, 0) + v
            hist = ";; cycles (sizing, library path, collection interval):\n" + "\n".join(
                ";; %d: %s %d %d\n%s" % ((i,) + c[:3] + (";;   " + c[3].replace("\n", "\n;;   "),)) for i, c in enumerate(s))
            for i, c in enumerate(s):
                b, bb, _ = base[(c[3], c[1])]
                if 0 not in b:
                    ctx.violation("alone:%s" % variant, "%s: a script as the only cycle: %s" % (variant, bb), c[3])
                    continue
                if i not in out:
                    break
                ctx.count("cycle " + variant, c[3])
                ctx.kinds["cycle"] = ctx.kinds.get("cycle", 0) + 1
                if out[i][0] != b[0][0]:
                    x, y = out[i][0].split(b"\n"), b[0][0].split(b"\n")
                    j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                    ctx.violation("differs:%s" % variant, "%s: cycle %d (%s) differs from the same script in a fresh process\n  got:   %r\n  fresh: %r" % (
                        variant, i, c[:3], x[max(0, j - 2):j + 2], y[max(0, j - 2):j + 2]), hist)
                for nm, v in (("malloc blocks", out[i][1]), ("descriptors", out[i][2])):
                    if v:
                        ctx.violation("left:%s:%s" % (nm, variant), "%s: cycle %d leaves %d %s after finalisation%s" % (
                            variant, i, v, nm, "; descriptors at " + out[i][3] if nm == "descriptors" else ""), hist)
            if bad:
                ctx.violation("ended:%s" % variant, "%s: cycle %d: %s" % (variant, len(out), bad), hist)
        ctx.sample("%s: %d processes, cycles %s" % (variant, len(seqs), [c[:3] for c in seqs[0]][:6]))
    ctx.minimum = 200
