"""Runs Scheme cases in an instrumented interpreter and records what happened."""
import concurrent.futures
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile

from . import build as B

NPROC = os.cpu_count() or 4
LIB = os.path.join(B.REPO, "lib")
PRELUDE = os.path.join(B.VERIF, "vlib", "prelude.scm")
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:hard_rss_limit_mb=3000:max_allocation_size_mb=3000:"
        "handle_abort=1:print_scariness=0:symbolize=%d")
MSAN = "exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3000:max_allocation_size_mb=3000:handle_abort=1:symbolize=%d"
UBSAN = "print_stacktrace=1:exitcode=99"


class HarnessError(Exception):
    pass


class Proc:
    __slots__ = ("rc", "out", "err", "timeout", "cpu", "st")


def _limits(cpu, stack_mb, as_mb):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        s = stack_mb * 1024 * 1024
        resource.setrlimit(resource.RLIMIT_STACK, (s, s))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if as_mb:
            resource.setrlimit(resource.RLIMIT_AS, (as_mb << 20, as_mb << 20))
    return f


def run_proc(cmd, stdin=b"", env=None, cwd=None, cpu=60, wall=600, stack_mb=256, as_mb=0,
             symbolize=1, limit_out=64 << 20, asan_extra=""):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C",
         "ASAN_OPTIONS": ASAN % symbolize + asan_extra, "MSAN_OPTIONS": MSAN % symbolize, "UBSAN_OPTIONS": UBSAN + ":symbolize=%d" % symbolize,
         "HOME": "/nonexistent"}
    if env:
        e.update({k: str(v) for k, v in env.items()})
    r = Proc()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, preexec_fn=_limits(cpu, stack_mb, as_mb), start_new_session=True)
    try:
        r.out, r.err = p.communicate(stdin, timeout=wall)
        r.timeout = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.cpu = r.rc in (-signal.SIGXCPU, -signal.SIGPROF, -signal.SIGKILL) and not r.timeout
    return r


def san_summary(err):
    """A short stable description of a sanitizer report, or None."""
    t = err.decode("utf-8", "replace")
    m = re.search(r"runtime error: (.*)", t)
    kind = None
    if m:
        kind = "UBSan: " + re.sub(r"0x[0-9a-f]+", "0x", m.group(1))
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", t)
    if m and not kind:
        kind = "ASan: " + m.group(1)
    m = re.search(r"ERROR: LeakSanitizer: (.*)", t)
    if m and not kind:
        kind = "LSan: " + m.group(1)
    m = re.search(r"WARNING: MemorySanitizer: (\S+)", t)
    if m and not kind:
        kind = "MSan: " + m.group(1)
    if not kind:
        return None
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", t)
    fr = [f for f in fr if not f.startswith("__") and f not in ("main",)][:4]
    return kind + " at " + "<".join(fr)


class Res:
    """kind: ok | err | raise | crash | hang | fatal | skipped; text; out; msg"""
    __slots__ = ("kind", "text", "out", "msg")

    def __init__(self, kind, text="", out="", msg=""):
        self.kind, self.text, self.out, self.msg = kind, text, out, msg

    def key(self):
        return (self.kind, self.text if self.kind in ("ok", "raise") else "", self.out)

    def __repr__(self):
        return "%s[%s]%s%s" % (self.kind, self.text, " out=%r" % self.out if self.out else "",
                               " msg=" + self.msg if self.msg else "")


class Scratch:
    """A scratch directory, removed afterwards."""

    def __init__(self):
        self.dir = None

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        return self.dir

    def __exit__(self, *a):
        if self.dir and self.dir.startswith(tempfile.gettempdir() + "/vf-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def render(cases, prelude):
    parts = ["(load %s)\n" % quote(PRELUDE), prelude, "\n"]
    for c in cases:
        if len(c) > 2 and c[2]:
            parts.append(c[2] + "\n")
        parts.append("(vf-case %d (lambda () %s))\n" % (c[0], c[1]))
    return "".join(parts).encode("utf-8", "surrogateescape")


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


_RX = re.compile(rb"\n@@B (\d+)\n(.*?)\n@@R (ok|err|raise) (.*?)\n@@E \1\n", re.S)


def parse(out):
    res = {}
    for m in _RX.finditer(out):
        dec = lambda b: b.decode("utf-8", "surrogateescape")
        kind = dec(m.group(3))
        text = dec(m.group(4))
        if kind == "err":
            res[int(m.group(1))] = Res(kind, "", dec(m.group(2)), text)
        else:
            res[int(m.group(1))] = Res(kind, text, dec(m.group(2)))
    return res


def _batch(bdir, cases, prelude, env, cwd, cpu, binary, stack_mb, opts, hangs):
    """Runs one batch; after a crash continues behind the crashing case."""
    res = {}
    if len(hangs) >= 4:
        return {c[0]: Res("skipped") for c in cases}, {}
    todo = list(cases)
    crashes = unread = 0
    stats = {}
    while todo:
        with Scratch() as sd:
            f = os.path.join(sd, "cases.scm")
            with open(f, "wb") as fh:
                fh.write(render(todo, prelude))
            e = dict(env)
            # a case gets a part of the batch's time
            e.setdefault("VF_CASE_CPU", max(10, cpu // 4))
            e["VF_STATS"] = os.path.join(sd, "stats")
            p = run_proc([os.path.join(bdir, binary)] + opts + ["--system-load-path", LIB, f], env=e,
                         cwd=cwd or sd, cpu=cpu, stack_mb=stack_mb)
            try:
                for kv in open(os.path.join(sd, "stats")).read().split():
                    k, v = kv.split("=")
                    stats[k] = stats.get(k, 0) + int(v)
            except OSError:
                pass
        res.update(parse(p.out))
        if p.timeout:
            raise HarnessError("a batch ran out of wall time")
        done = b"\n@@DONE\n" in p.out
        if done and p.rc == 0:
            break
        begun = [int(x) for x in re.findall(rb"\n@@B (\d+)\n", p.out)]
        ended = set(res)
        san = san_summary(p.err)
        if b"hard rss limit" in p.err:
            kind, msg = "fatal", "rss limit"
        elif san:
            kind, msg = "crash", san
        elif p.cpu:
            kind, msg = "hang", "cpu limit %ds" % cpu
        elif b"\n@@FATAL\n" in p.out:
            kind, msg = "fatal", p.err.decode("utf-8", "replace").strip().split("\n")[-1][:300]
        elif p.rc < 0 or p.rc == 99:
            kind, msg = "crash", "signal/exit %d: %s" % (p.rc, p.err.decode("utf-8", "replace")[:300])
        else:
            kind, msg = "exit", "exit %d: %s" % (p.rc, p.err.decode("utf-8", "replace")[-300:])
        ids = [c[0] for c in todo]
        if done:
            # the failure is in finalisation: attribute to the batch
            res[-1 - ids[0]] = Res("crash" if kind == "crash" else kind, "", "", "at finalisation: " + msg)
            break
        last = begun[-1] if begun else None
        if last is None or last in ended:
            # between cases only the text of the next case is read
            nxt = 0 if last is None else ids.index(last) + 1
            if nxt >= len(ids):
                nxt = len(ids) - 1
            if kind in ("fatal", "exit"):
                kind = "unreadable"
            last = ids[nxt]
            res[last] = Res(kind, "", "", "while reading the case: " + msg)
        else:
            m = re.search(rb"\n@@B %d\n(.*)" % last, p.out, re.S)
            res[last] = Res(kind, "", m.group(1).decode("utf-8", "surrogateescape")[:2000], msg)
        if kind == "unreadable":
            unread += 1
        else:
            crashes += 1
        if kind == "hang" or msg == "rss limit":
            hangs.append(last)
        i = ids.index(last)
        todo = todo[i + 1:]
        if crashes >= 6 or unread >= 30 or len(hangs) >= 4 or kind == "hang":
            for c in todo:
                res[c[0]] = Res("skipped")
            break
    return res, stats


def run_cases(variant, cases, prelude="", env=None, batch=200, cpu=60, cwd=None, binary="drv",
              stack_mb=256, opts=(), nproc=None, stats=None):
    """cases: list of (int id, scheme body text). Returns {id: Res}."""
    bdir = B.build(variant, (binary,) if binary != "sscm" else ())
    cases = list(cases)
    chunks = [cases[i:i + batch] for i in range(0, len(cases), batch)]
    res = {}
    hangs = []
    with concurrent.futures.ThreadPoolExecutor(nproc or NPROC) as ex:
        for r, st in ex.map(lambda c: _batch(bdir, c, prelude, env or {}, cwd, cpu, binary, stack_mb,
                                             list(opts), hangs), chunks):
            res.update(r)
            if stats is not None:
                for k, v in st.items():
                    stats[k] = stats.get(k, 0) + v
    # a hang is reported only if the case alone hangs again
    again = 0
    for c in cases:
        cid, body = c[0], c[1]
        if cid in res and res[cid].kind == "hang":
            again += 1
            if again > 2:
                res[cid] = Res("skipped")
                continue
            r, _ = _batch(bdir, [c], prelude, env or {}, cwd, cpu, binary, stack_mb, list(opts), [])
            res[cid] = r.get(cid, res[cid])
        if cid not in res:
            raise HarnessError("case %d left no result: %s" % (cid, body[:300]))
    return res
