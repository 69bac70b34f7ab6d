"""S02: character codecs."""
from checks import common
from vlib import codec
from vlib.check import Case

PRE = r"""(use srfi-6)(use srfi-23)(use srfi-34)
(define ch integer->char)
(define (codes s) (map char->integer (string->list s)))
(define (in codec thunk)
  (let ((old (%%current-char-codec)))
    (%%set-current-char-codec! codec)
    (let ((r (guard (e (#t (%%set-current-char-codec! old) (raise e))) (thunk))))
      (%%set-current-char-codec! old) r)))
(define (put-bytes file bytes)
  (in "ISO-8859-1" (lambda () (call-with-output-file file (lambda (p) (for-each (lambda (b) (write-char (ch b) p)) bytes))))))
(define (get-bytes file)
  (in "ISO-8859-1" (lambda () (call-with-input-file file (lambda (p) (let loop ((r '())) (let ((c (read-char p))) (if (eof-object? c) (reverse r) (loop (cons (char->integer c) r))))))))))
(define (read-codes p)
  (let loop ((r '()))
    (let ((c (guard (e ((%%error-object? e) 'bad)) (read-char p))))
      (cond ((eq? c 'bad) (reverse (cons 'bad r)))
            ((eof-object? c) (reverse r))
            (else (loop (cons (char->integer c) r)))))))
;; reads on after errors: must come to an end
(define (drain p n)
  (if (< n 0) 'endless
    (let ((c (guard (e ((%%error-object? e) 'bad)) (read-char p))))
      (if (eof-object? c) 'end (drain p (- n 1))))))
(define (decode codec bytes) (put-bytes "b" bytes) (in codec (lambda () (call-with-input-file "b" read-codes))))
(define (peeks codec bytes) (put-bytes "b" bytes)
  (in codec (lambda () (call-with-input-file "b" (lambda (p)
    (let loop ((r '())) (let* ((a (peek-char p)) (b (peek-char p)) (c (read-char p))) (if (eof-object? c) (reverse r) (loop (cons (if (and (eqv? a c) (eqv? b c)) (char->integer c) 'peek) r))))))))))
; a port left by an error is flushed whenever it is collected: every file is used once
(define cn 0)
(define (cfile) (set! cn (+ cn 1)) (string-append "c" (number->string cn)))
(define (encode codec cs) (let ((f (cfile))) (in codec (lambda () (call-with-output-file f (lambda (p) (for-each (lambda (c) (write-char (ch c) p)) cs))))) (get-bytes f)))
(define (encode2 codec cs) (let ((f (cfile))) (in codec (lambda () (let ((s (list->string (map ch cs)))) (call-with-output-file f (lambda (p) (display s p)))))) (get-bytes f)))
(define (strip codec bytes) (put-bytes "b" bytes)
  (in codec (lambda () (let ((s (list->string (call-with-input-file "b" (lambda (p) (let loop ((r '())) (let ((c (read-char p))) (if (eof-object? c) (reverse r) (loop (cons c r))))))))))
     (list (string-length s) (codes s))))))
(define (raw-string bytes) (in "ISO-8859-1" (lambda () (list->string (map ch bytes)))))
"""


def L(x):
    return "(%s)" % " ".join(map(str, x)) if x else "()"


def prefix(name, bs):
    """codes of the valid prefix, and 'all' | 'bad' | 'unsure' for what follows"""
    out, i = [], 0
    while i < len(bs):
        for n in (1, 2, 3, 4):
            b = bytes(bs[i:i + n])
            if len(b) < n:
                continue
            if name == "UTF-8":
                try:
                    s = b.decode("utf-8")
                    if len(s) == 1:
                        out.append(ord(s))
                        i += n
                        break
                except UnicodeDecodeError:
                    continue
            else:
                code = int.from_bytes(b, "big")
                if (n == 1 or b[0]) and codec.valid(name, code) and len(codec.encode(name, code)) == n:
                    out.append(code)
                    i += n
                    break
        else:
            b0 = bs[i]
            # corners the codecs define loosely: G1 space and delete in the second byte, 96-sets
            if name.startswith("EUC") and (any(x in (0xa0, 0xff) or 0xe0 <= x for x in bs[i + 1:i + 3]) and b0 in (0x8e, 0x8f) or 0xa1 <= b0 <= 0xfe and i + 1 < len(bs) and bs[i + 1] in (0xa0, 0xff)):
                return out, "unsure"
            if name == "EUC-JP" and b0 == 0x8e:
                return out, "unsure" if i + 1 >= len(bs) or bs[i + 1] >= 0xa0 else "bad"
            if name == "Shift_JIS" and b0 in (0x80, 0xa0, 0xfd, 0xfe, 0xff):
                return out, "unsure"
            # an incomplete character at the very end may be dropped
            if name == "UTF-8":
                need = 2 if 0xc0 <= b0 < 0xe0 else 3 if 0xe0 <= b0 < 0xf0 else 4 if 0xf0 <= b0 < 0xf8 else 1
            else:
                need = 3 if b0 == 0x8f and name == "EUC-JP" else 2
            return out, "unsure" if len(bs) - i < need else "bad"
    return out, "all"


def gen(r, n, name):
    out = []
    g = codec.GEN[name]
    while len(out) < n:
        c = r.random()
        cs = [g(r) if r.random() < 0.97 else r.randrange(0, 32) for _ in range(r.choice([0, 1, 2, 3, 8, 20, r.randrange(60)]))]
        bs = b"".join(codec.encode(name, x) for x in cs)
        nz = [x for x in cs if x]
        nzb = b"".join(codec.encode(name, x) for x in nz)
        if c < 0.25:
            out.append(('(decode "%s" \'%s)' % (name, L(bs)), L(cs)))
        elif c < 0.32:
            out.append(('(peeks "%s" \'%s)' % (name, L(bs)), L(cs)))
        elif c < 0.45:
            out.append(('(encode "%s" \'%s)' % (name, L(cs)), L(bs)))
        elif c < 0.55:
            out.append(('(encode2 "%s" \'%s)' % (name, L(nz)), L(nzb)))
        elif c < 0.65:
            out.append(('(strip "%s" \'%s)' % (name, L(nzb)), "(%d %s)" % (len(nz), L(nz))))
        elif c < 0.72:
            # a string keeps its bytes while the codec is switched back and forth
            o = r.choice([x for x in codec.NAMES if x != name])
            out.append(('(let* ((s (in "%s" (lambda () (list->string (map ch \'%s))))) (a (in "%s" (lambda () (guard (e (#t 0)) (string-length s))))) (b (in "%s" (lambda () (codes s)))))'
                        ' (in "ISO-8859-1" (lambda () (call-with-output-file "d" (lambda (p) (display s p))))) (list b (get-bytes "d")))'
                        % (name, L(nz), o, name), "(%s %s)" % (L(nz), L(nzb))))
        elif c < 0.78:
            out.append(('(in "%s" (lambda () (map (lambda (n) (char->integer (ch n))) \'%s)))' % (name, L(cs)), L(cs)))
        else:
            # spoiled text
            b = bytearray(bs or b"a")
            for _ in range(r.choice([1, 1, 2, 4])):
                k = r.random()
                i = r.randrange(len(b)) if b else 0
                if k < 0.3 and b:
                    del b[i]
                elif k < 0.6 and b:
                    b[i] = r.choice([0x80, 0x8e, 0x8f, 0xa0, 0xa1, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xf8, 0xfe, 0xff, r.randrange(256)])
                elif k < 0.85:
                    b.insert(i, r.choice([0x80, 0x8e, 0x8f, 0xa1, 0xc2, 0xe3, 0xf0, 0xff, r.randrange(256)]))
                else:
                    del b[i:]
                    b.append(r.choice([0x8e, 0x8f, 0xa1, 0xc2, 0xe3, 0xf0, 0x81, 0xe0]))
            p, what = prefix(name, b)
            if what == "all":
                out.append(('(decode "%s" \'%s)' % (name, L(b)), L(p)))
            elif what == "bad":
                out.append(('(decode "%s" \'%s)' % (name, L(b)), L(p + ["bad"])))
            else:
                out.append(('(let ((r (decode "%s" \'%s)) (w \'%s)) (let loop ((r r) (w w)) (or (null? w) (and (pair? r) (eqv? (car r) (car w)) (loop (cdr r) (cdr w))))))'
                            % (name, L(b), L(p)), "#t"))
            out.append(('(begin (put-bytes "b" \'%s) (in "%s" (lambda () (call-with-input-file "b" (lambda (p) (drain p 400))))))' % (L(b), name), "end"))
    return out


def soup(r, n):
    """strings with any bytes, used under any codec: only survival is judged"""
    out = []
    for _ in range(n):
        bs = [r.choice([0x41, 0x80, 0x8e, 0x8f, 0xa1, 0xc3, 0xe3, 0x81, 0x82, 0xf0, 0x9f, 0xff, 0xfe, 0x5c, 0x7e, r.randrange(1, 256)]) for _ in range(r.randrange(1, 12))]
        if r.random() < 0.4:
            bs = list(b"".join(codec.encode("UTF-8", codec.GEN["UTF-8"](r)) for _ in range(4)))
        a = r.choice(codec.NAMES)
        ops = ["(string-length s)", "(string->list s)", "(string-ref s %d)" % r.randrange(12), "(string-set! s %d (ch %d))" % (r.randrange(12), r.choice([65, 0xa1, 0x3042])),
               "(substring s %d %d)" % tuple(sorted([r.randrange(12), r.randrange(12)])), "(string-append s s)", "(string-fill! s #\\a)",
               "(string->symbol s)", "(string<? s s)", "(string-ci=? s s)", "(let ((p (open-output-string))) (write s p) (get-output-string p))",
               "(let ((p (open-input-string s))) (drain p 60))", "(guard (e (#t 'e)) (read (open-input-string s)))", "(string-copy s)", "(display s)", "(write s)",
               "(let ((p (open-output-string))) (write-char (string-ref s 0) p) (get-output-string p))",
               "(string->number s)", "(list->string (string->list s))"]
        body = " ".join("(guard (e (#t 'e)) %s)" % r.choice(ops) for _ in range(5))
        out.append('(let ((s (raw-string \'%s))) (in "%s" (lambda () %s)) (string-length (in "%s" (lambda () (guard (e (#t "")) (string-copy s))))) #t)'
                   % (L(bs), a, body, r.choice(codec.NAMES)))
    return out


FIXED = [('(%%current-char-codec)', '"UTF-8"'), ('(%%set-current-char-codec! "EUC-JP")', '"EUC-JP"'), ('(%%current-char-codec)', '"EUC-JP"'),
         ('(%%set-current-char-codec! "EUC-KR")', '"EUC-KR"'), ('(%%set-current-char-codec! "EUC-CN")', '"EUC-CN"'), ('(%%set-current-char-codec! "Shift_JIS")', '"Shift_JIS"'),
         ('(%%set-current-char-codec! "ISO-8859-1")', '"ISO-8859-1"'), ('(%%set-current-char-codec! "bogus")', "err"), ('(%%current-char-codec)', '"ISO-8859-1"'),
         ('(%%set-current-char-codec! \'UTF-8)', "err"), ('(%%set-current-char-codec! "UTF-8")', '"UTF-8"'),
         ('(with-char-codec "EUC-JP" (lambda () (%%current-char-codec)))', '"EUC-JP"'), ('(%%current-char-codec)', '"UTF-8"'),
         ('(begin (guard (e (#t 1)) (with-char-codec "EUC-JP" (lambda () (raise 1)))) (%%current-char-codec))', '"UTF-8"'),
         ('(call-with-current-continuation (lambda (k) (with-char-codec "EUC-JP" (lambda () (k (%%current-char-codec))))))', '"EUC-JP"'), ('(%%current-char-codec)', '"UTF-8"'),
         ('(with-char-codec "EUC-JP" (lambda () (with-char-codec "ISO-8859-1" (lambda () (%%current-char-codec)))))', '"ISO-8859-1"'),
         ('(with-char-codec "EUC-JP" (lambda () (with-char-codec "ISO-8859-1" (lambda () 1)) (%%current-char-codec)))', '"EUC-JP"'),
         ('(%%current-char-codec)', '"UTF-8"'), ('(with-char-codec "bogus" (lambda () 1))', "err"), ('(%%current-char-codec)', '"UTF-8"')]


def sweep(name, r, every):
    out = []
    cand = list(range(0, 0x300)) + list(range(0x300, 0x10000, every)) + [0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff,
                                                                        0x8fa1a1, 0x8ffefe, 0x8fa0a1, 0x8fa1a0, 0x8ea1a1, 0x90a1a1, 0x1000000, 0x7fffffff, -1]
    loose = lambda c: (name.startswith("EUC") and c > 0xff and (c & 0xff in (0xa0, 0xff) or (c >> 8) == 0x8e or (c >> 8) & 0xff in (0xa0, 0xff)) or
                       name == "Shift_JIS" and c in (0x80, 0xa0, 0xfd, 0xfe, 0xff) or
                       name == "Shift_JIS" and (c >> 8) in (0x80, 0xa0, 0xfd, 0xfe, 0xff))
    cand = [c for c in cand if not loose(c)]
    for i in range(0, len(cand), 24):
        cs = cand[i:i + 24]
        out.append(('(in "%s" (lambda () (map (lambda (n) (guard (e (#t #f)) (char->integer (ch n)))) \'%s)))' % (name, L(cs)),
                    L(c if codec.valid(name, c) else "#f" for c in cs)))
        v = [c for c in cs if codec.valid(name, c)]
        if v:
            out.append(('(encode "%s" \'%s)' % (name, L(v)), L(b"".join(codec.encode(name, c) for c in v))))
            out.append(('(decode "%s" \'%s)' % (name, L(b"".join(codec.encode(name, c) for c in v))), L(v)))
    return out


SECOND = {"UTF-8": [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xe3, 0xff],
          "Shift_JIS": [0x20, 0x3f, 0x40, 0x5c, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xe0, 0xef, 0xf0, 0xfc, 0xfd, 0xff]}
EUC2 = [0x20, 0x41, 0x7f, 0x80, 0x8e, 0x8f, 0xa0, 0xa1, 0xb0, 0xdf, 0xe0, 0xfe, 0xff]


def edges(name):
    """every lead byte with the second (and third) bytes at the edges, between two letters"""
    out = []
    for lead in range(0x80, 0x100):
        for b2 in SECOND.get(name, EUC2):
            tails = [[], [0x80], [0xbf, 0x80], [0x80, 0x41], [0x41]] if name == "UTF-8" else [[], [0xa1], [0xfe], [0x41], [0x80]] if lead in (0x8f, 0x8e) else [[]]
            for t in tails:
                b = [0x61, lead, b2] + t + [0x62, 0x63, 0x64]
                p, what = prefix(name, b)
                if what == "unsure":
                    continue
                out.append(('(decode "%s" \'%s)' % (name, L(b)), L(p + (["bad"] if what == "bad" else []))))
    return out


def unsure(name, c):
    """the code leaves the edges of the sets open: not judged"""
    if name == "ISO-8859-1" or c < 0x80:
        return False
    b = codec.encode(name, c)
    if name == "Shift_JIS":
        return len(b) == 1 and not codec.valid(name, c)
    return any(x in (0xa0, 0xff) for x in b) or b[0] in (0x8e, 0x8f) and not codec.valid(name, c) or len(b) == 1


def foreign(r, n):
    """characters put into ports of another encoding: what it has arrives, what it has not is refused and leaves nothing"""
    out = []
    names = [x for x in codec.NAMES if x != "UTF-8"]
    while len(out) < n:
        name = r.choice(names)
        cs = []
        for _ in range(r.randint(1, 12)):
            k = r.random()
            c = r.randrange(32, 127) if k < 0.3 else codec.GEN[name](r) if k < 0.6 else r.choice([0xe9, 0x3042, 0x3b1, 0x8140, 0xa1a1, 0xb0a1, 0x1f600, 0x10ffff, 0x100, 0x17f, 0x8ea1, 0xdf]) if k < 0.8 else r.randrange(0x80, 0x10ffff)
            if codec.valid("UTF-8", c) and not unsure(name, c):
                cs.append(c)
        if not cs:
            continue
        ok = [codec.valid(name, c) for c in cs]
        how = r.choice(["write-char", "write-char", "display"])
        put = "(lambda (c) (guard (e ((%%%%error-object? e) 'err)) (%s %s p) 'w))" % (how, "c")
        want = L(["w" if o else "err" for o in ok])
        kept = [c for c, o in zip(cs, ok) if o]
        body = "(let ((cs (map ch '%s))) " % L(cs)
        if r.random() < 0.5:
            body += "(let* ((p (in \"%s\" (lambda () (open-output-string)))) (r (map %s cs))) (list r (in \"%s\" (lambda () (codes (get-output-string p)))))))" % (name, put, name)
            out.append((body, "(%s %s)" % (want, L(kept))))
        else:
            bs = [b for c in kept for b in codec.encode(name, c)]
            body += "(let* ((f (cfile)) (p (in \"%s\" (lambda () (open-output-file f)))) (r (map %s cs))) (close-output-port p) (list r (get-bytes f))))" % (name, put)
            out.append((body, "(%s %s)" % (want, L(bs))))
    return out


def run(ctx):
    ctx.rule = ("per codec: random valid texts decoded from and encoded to bytes through ports and strings, spoiled texts (valid prefix exact, "
                "then an error, then end of file), a sweep of code values, strings of arbitrary bytes used under any codec with sanitizers; distinct by text")
    ctx.assume = ["byte pairs at the edges of the 94-character sets (A0 and FF) and undefined single Shift_JIS bytes may be taken either way"]
    for k, name in enumerate(codec.NAMES):
        lay = ["compact", "fatty"][(ctx.seed + k) % 2]
        items = common.par(gen, ctx.n(3000, 60000), "%s/%d/%s" % (ctx.prop, ctx.seed, name), name)
        common.bulk(ctx, "san-" + lay, items, PRE, "text-" + name, per=10)
        common.bulk(ctx, "san-" + lay, edges(name), PRE, "edges-" + name, per=20)
        common.bulk(ctx, "opt-" + lay, items[::4], PRE, "text-" + name, per=10)
        common.bulk(ctx, "san-" + lay, sweep(name, ctx.rng, ctx.n(61 if name != "UTF-8" else 331, 1)), PRE, "sweep-" + name, per=5)
    for lay in ("compact", "fatty"):
        common.bulk(ctx, "san-" + lay, FIXED, PRE, "switch-" + lay, per=100)
        common.bulk(ctx, "san-" + lay, common.par(foreign, ctx.n(1500, 30000), "%s/%d/foreign%s" % (ctx.prop, ctx.seed, lay)), PRE, "foreign-" + lay, per=20)
        ctx.run("san-" + lay, [Case(e, ("any",), "soup-" + lay) for e in soup(ctx.rng, ctx.n(1500, 40000))], PRE)
    ctx.minimum = 10000
