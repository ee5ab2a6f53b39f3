"""Check of the store of Coulomb elements (C14)."""
import random

from common import CheckError
from two_checks import judge, parallel

INV = "InvResult InvWhole InvKnown InvReuse InvOff"


def cfg(procs, sizes, atomic, acts, emit, inv, view=None):
    return ("SPECIFICATION Spec\nCONSTANTS\n Procs = {%s}\n Sizes = {%s}\n Atomic = %s\n MaxActs = %d\n EmitAt = %d\n%s%s%s\nCHECK_DEADLOCK FALSE\n" % (
        procs, sizes, atomic, acts, emit, "VIEW %s\n" % view if view else "", "INVARIANTS " + inv, "" if emit else "\nPROPERTIES Stable"))


def check(ctx):
    # all behaviours of the protocol (the view forgets the number of actions, so the bound is never reached)
    ctx.model("Cache", cfg("1,2,3" if ctx.thorough else "1,2", "1,2", "TRUE", 1000000, 0, INV, "ViewUnbounded"), "store protocol, any number of calls, crashes and failures",
              timeout=2500, heap="12g")
    # the protocol without renaming must be rejected, otherwise the invariants say nothing
    r = ctx.tlc("Cache", cfg("1,2", "1", "FALSE", 1000000, 0, "InvResult", "ViewUnbounded"))
    if "Invariant InvResult is violated" not in r.out:
        raise CheckError("the model does not reject writing in place: " + r.tail())
    rng = random.Random(ctx.seed)
    hists = []
    for k, (length, num) in enumerate(((8, 30), (14, 50), (24, 40)) if not ctx.thorough else ((8, 300), (14, 500), (24, 500), (40, 200))):
        r = ctx.tlc("Cache", cfg("1,2,3" if k else "1,2", "1,2,3", "TRUE", length, length, "Emit"), simulate=num, depth=length + 2, seed=ctx.seed * 100 + k)
        seen = {}
        for h in r.lines("HIST "):
            seen.setdefault(str(h[:-1]), []).append(h)
        h = [rng.choice(v) for v in seen.values()]
        if not r.ok or len(h) < num // 2:
            raise CheckError("history generation: " + r.tail())
        hists += h[:num]
    # a disk that is full after a number of bytes, or on which the process dies there
    lim = []
    for how in ("kill", "ignore"):
        for b in (0, 1, 60, 128, 129, 500, 2000, 4100, 5100) if not ctx.thorough else tuple(range(0, 5200, 40)):
            lim.append([{"a": "limit", "p": 4, "l": l, "on": True, "how": how, "bytes": b} for l in (2, 3, 5)] + [{"a": "call", "p": 4, "l": l, "on": True} for l in (5, 3, 2)])
    # sizes whose names and contents could be confused
    many = []
    for k in range(4 if not ctx.thorough else 30):
        s = [rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(8)]
        ops = []
        for l in s:
            ops.append({"a": "call", "p": 4, "l": l, "on": rng.random() < 0.8})
            if rng.random() < 0.3:
                ops.append({"a": "mark", "p": 4, "l": l})
        many.append(ops)
    many.append([{"a": "call", "p": 4, "l": l, "on": True} for l in (1, 10, 11, 1, 10, 11)] if ctx.thorough else [{"a": "call", "p": 4, "l": l, "on": True} for l in (6, 3, 1, 2, 6, 5)])
    traces = [{"id": "C14_%d" % k, "ops": h} for k, h in enumerate(hists + lim + many)]
    rng.shuffle(traces)
    rec, err = parallel(ctx, "cachedrive.py", traces, jobs=8, timeout=2500 if ctx.thorough else 600)
    if err:
        ctx.violation("recording failed: " + err)
        return
    # sessions of one process: many sizes (one and two digits), caching on and off, directly and through a system
    sess = []
    for k in range(60 if ctx.thorough else 12):
        pool = rng.sample([1, 2, 3, 4, 5, 6, 10, 11, 12, 13], 4)
        n = rng.choice([6, 10, 14])
        sess.append({"id": "C14_s%d" % k, "calls": [{"l": rng.choice([q for q in pool if q < 7] or [2]) if v == "system" else rng.choice(pool), "on": rng.random() < 0.75,
                                                     "via": v, "value": rng.choice(["1", "1", "0", "yes", "."])}
                                                    for v in (rng.choice(["call", "call", "call", "verbose", "system"]) for _ in range(n))]})
    more, err = parallel(ctx, "cachesess.py", sess, jobs=2, timeout=1500 if ctx.thorough else 500)
    if err:
        ctx.violation("recording failed: " + err)
        return
    rec += more
    c = ctx.cov["requests"] = {}
    for t in rec:
        for e in t["ev"]:
            k = e["op"] + ":" + e.get("out", e.get("point", ""))
            c[k] = c.get(k, 0) + 1
    ctx.cov["samples"] = hists[:2]
    judge(ctx, "CacheTrace", rec)
