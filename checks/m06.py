"""M06: an embedding C program gets from the C interface what its documentation says."""
import concurrent.futures
import os
import re

from vlib import build as B, runner as R


def process(bdir, seed, rounds, gc):
    with R.Scratch() as d:
        env = {"VF_GC_INTERVAL": str(gc)}
        p = R.run_proc([os.path.join(bdir, "api"), str(seed), str(rounds), os.path.join(B.REPO, "lib")],
                                  cpu=100, wall=200, env=env, cwd=d)
    return (None if p.timeout or p.cpu else p.rc), p.out, p.err


def run(ctx):
    ctx.rule = ("one process is one C client making random API calls; each object it makes has a model in plain C data, compared with what "
                "the accessors, the Scheme side and the write/read pair say after collections were forced at random points; distinct by "
                "client (seed, collection interval, build)")
    ctx.assume = ["the client is itself the oracle: what it registers, protects, withdraws and passes is known to it"]
    r = ctx.rng
    for variant in ("san-compact", "san-fatty", "opt-compact", "opt-fatty") + (("clo-compact", "gos-fatty") if ctx.thorough else ()):
        bdir = B.build(variant, ("api",))
        san = variant.startswith("san")
        jobs = []
        for _ in range(ctx.n(150 if san else 300, 3000)):
            gc = r.choice([0, 0, 50, 211, 1009])
            jobs.append((r.randint(1, 10**8), r.randint(60, 250) if not gc else r.randint(30, 80), gc))
        with concurrent.futures.ThreadPoolExecutor(R.NPROC) as ex:
            res = list(ex.map(lambda j: process(bdir, *j), jobs))
        for (seed, rounds, gc), (rc, out, err) in zip(jobs, res):
            out = out.decode("utf-8", "replace")
            summ = R.san_summary(err)
            err = err.decode("utf-8", "replace")
            what = "%s: client seed %d, %d rounds, collections every %d" % (variant, seed, rounds, gc)
            replay = "VF_GC_INTERVAL=%d %s/api %d %d %s/lib\n(built by vlib.build.build(%r, ('api',)))\n\n%s\n%s" % (
                gc, bdir, seed, rounds, B.REPO, variant, out[-3000:], err[-3000:])
            bad = re.findall(r"^@@BAD ([^:\n]+): (.*)", out, re.M)
            for part, text in bad[:3]:
                ctx.violation("%s:%s" % (part, variant), "%s: %s: %s" % (what, part, text[:600]), replay)
            if rc is None:
                if not bad:
                    ctx.violation("hang:%s" % variant, what + ": does not end", replay)
                continue
            if rc != 0 or "@@DONE" not in out:
                ctx.violation("ended:%s" % variant, "%s: ended with %s\n%s" % (what, rc, summ or (out + err)[-600:]), replay)
                continue
            st = dict((k, int(v)) for k, v in re.findall(r"(\w+)=(\d+)", re.search(r"@@STATS (.*)", out).group(1)))
            live = int(re.search(r"@@LIVE (-?\d+)", out).group(1))
            if live:
                ctx.violation("live:%s" % variant, "%s: %d malloc blocks are left after scm_finalize" % (what, live), replay)
            if st["kept"] > 3 + st["dropped"] // 20:
                ctx.violation("kept:%s" % variant, "%s: of %d objects no longer referenced %d are kept by a collection" % (
                    what, st["dropped"], st["kept"]), replay)
            ctx.count("client " + variant, "%s %d %d %d" % (variant, seed, rounds, gc))
            for k in ("ports", "finalised", "allocs", "gcs", "swept", "dropped"):
                ctx.stats[k] = ctx.stats.get(k, 0) + st[k]
            for part, k in re.findall(r"^@@PART (.*)=(\d+)$", out, re.M):
                ctx.kinds[part] = ctx.kinds.get(part, 0) + int(k)
        ctx.sample("%s: %d clients, e.g. %s" % (variant, len(jobs), jobs[0]))
    ctx.minimum = 400
