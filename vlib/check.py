"""What every check shares: running cases, judging, known findings, evidence."""
import hashlib
import json
import os
import random
import re
import sys
import time

from . import build as B
from . import runner as R

OUT = os.path.join(B.VERIF, "out")
KNOWN = os.path.join(B.VERIF, "known_findings.txt")
BAD = ("crash", "hang", "fatal", "exit", "unreadable")


class Case:
    """body: expression text run inside a thunk; exp: what the oracle expects:
       ("ok", text[, out]) | ("err",[, None, out]) | ("raise", text[, out]) | ("any",) | callable(Res)->msg|None
    pre: top-level text placed before the case (never fails on a correct tree)."""
    __slots__ = ("body", "exp", "tag", "id", "pre")

    def __init__(self, body, exp, tag="", pre=""):
        self.body, self.exp, self.tag, self.pre = body, exp, tag, pre


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.tags = {}
        self.kinds = {}
        self.samples = []
        self.stats = {}
        self.viol = []
        self.known_hit = []
        self.level = "exploration"
        self.rule = ""
        self.assume = []
        self.extra = {}
        self.known = self.load_known()
        self.minimum = 1
        self.skipped = 0

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough if thorough is not None else quick * 10)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def load_known(self):
        r = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN, encoding="utf-8"):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3).strip()))
        return r

    # ------------------------------------------------------------------
    def count(self, tag, key=None, nontrivial=True, n=1):
        self.evals += n
        self.tags[tag] = self.tags.get(tag, 0) + n
        if nontrivial:
            self.distinct.add(hashlib.md5(("%s|%s" % (tag, key if key is not None else self.evals)).encode(
                "utf-8", "surrogateescape")).digest())

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s if len(str(s)) < 600 else str(s)[:600])

    def violation(self, key, msg, replay):
        """key identifies what fails; replay is the text of the replay file."""
        for k, d in self.known:
            if k == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.viol.append((key, msg))
        if len(self.viol) > int(os.environ.get("VERIF_MAXV", "5")):
            return
        os.makedirs(OUT, exist_ok=True)
        f = os.path.join(OUT, "%s-%d.txt" % (self.prop, len(self.viol)))
        with open(f, "w", encoding="utf-8", errors="surrogateescape") as fh:
            fh.write(";; property %s, tier %s, seed %d\n;; key %s\n" % (self.prop, self.tier, self.seed, key))
            for l in msg.split("\n"):
                fh.write(";; %s\n" % l)
            fh.write(replay + "\n")
        print("VIOLATION property=%s replay=%s" % (self.prop, f))
        print("  %s" % msg[:1500].encode("utf-8", "replace").decode())
        sys.stdout.flush()

    # ------------------------------------------------------------------
    def judge(self, case, res):
        """None if the result is as expected, else a message."""
        if res.kind == "skipped":
            return None
        if callable(case.exp):
            return case.exp(res)
        e = case.exp
        if e[0] == "any":
            return None if res.kind not in BAD else "the interpreter did not survive"
        if res.kind != e[0]:
            return "expected %s" % (e,)
        if e[0] in ("ok", "raise") and e[1] is not None and res.text != e[1]:
            return "expected %s" % (e,)
        if len(e) > 2 and e[2] is not None and res.out != e[2]:
            return "expected %s" % (e,)
        return None

    def run(self, variant, cases, prelude="", nontrivial=None, tagv=True, **kw):
        """Runs and judges; returns the results in order."""
        cases = list(cases)
        if not cases:
            return []
        for i, c in enumerate(cases):
            c.id = i + 1
        if self.viol and self.elapsed() > 60 and not self.thorough:
            # the answer is known; what is left is not worth minutes of hangs
            self.skipped += len(cases)
            return [R.Res("skipped") for _ in cases]
        if "batch" not in kw:
            kw["batch"] = max(10, min(200, len(cases) // (R.NPROC * 2) + 1))
        res = R.run_cases(variant, [(c.id, c.body, c.pre) for c in cases], prelude, stats=self.stats, **kw)
        r = []
        for c in cases:
            x = res[c.id]
            r.append(x)
            if x.kind == "skipped":
                self.skipped += 1
                continue
            self.kinds[x.kind] = self.kinds.get(x.kind, 0) + 1
            self.count(c.tag, c.body, nontrivial(c, x) if nontrivial else True)
            m = self.judge(c, x)
            if m is not None:
                self.report(variant, c, x, m, prelude, kw, cases)
        for cid, x in res.items():
            if cid < 0:
                self.violation("finalise:" + x.msg[:80], "%s: %s" % (variant, x.msg),
                               self.script(prelude, cases, kw))
        if cases:
            c = cases[self.rng.randrange(len(cases))]
            self.sample("%s: %s => %r" % (c.tag, c.body[:300], res[c.id]))
        return r

    def script(self, prelude, cases, kw):
        return (";; env: %s\n(load %s)\n%s\n" % (kw.get("env"), R.quote(R.PRELUDE), prelude)
                + "\n".join("%s(vf-case %d (lambda () %s))" % (c.pre and c.pre + "\n", c.id, c.body) for c in cases))

    def report(self, variant, c, x, m, prelude, kw, cases):
        key = "%s:%s" % (c.tag or "case", hashlib.md5((c.body).encode("utf-8", "surrogateescape")).hexdigest()[:12])
        msg = "%s %s: %s\n  in:  %s\n  got: %r" % (variant, c.tag, m, c.body[:1500], x)
        i = cases.index(c)
        b = kw["batch"]
        start = i - i % b
        self.violation(key, msg, "%s\n;; alone:\n%s" % (
            ";; the batch up to the failing case (state left by earlier cases may matter):\n"
            + self.script(prelude, cases[start:i + 1], kw), ";; " + (c.pre + "\n" + c.body).replace("\n", "\n;; ")))

    # ------------------------------------------------------------------
    def finish(self):
        for k in self.known:
            # every listed finding is announced, whether or not this run met it
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k[1], "" if k[0] in self.known_hit else
                                                       " (not reproduced by this run)"))
        if not self.viol and (self.evals < self.minimum or len(self.distinct) < 1):
            raise R.HarnessError("nothing observed: %d evaluations" % self.evals)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples[:12] or ["(none)"],
                           "by_kind_of_case": self.tags, "outcomes": self.kinds,
                           "monitor_counters": self.stats, "skipped_after_failures": self.skipped},
              "assumptions": self.assume, "wall_s": round(self.elapsed(), 2), "violations": len(self.viol)}
        ev["coverage"].update(self.extra)
        d = os.path.join(B.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        with open(tmp, "w", encoding="utf-8") as fh:
            s = json.dumps(ev, indent=1, ensure_ascii=True)
            fh.write(s + "\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs" % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), len(self.viol), self.elapsed()))
        return 1 if self.viol else 0
