"""Check of sample collectors (C20)."""
import random

from common import CheckError
from two_checks import judge, parallel

INV = "InvOnce InvAdded InvDump InvFile"


def cfg(n, emit, inv, few=False):
    return "SPECIFICATION Spec\nCONSTANTS\n MaxOps = %d\n EmitAt = %d\n Few = %s\n%sINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
        n, emit, "TRUE" if few else "FALSE", "" if emit else "VIEW View\n", inv)


def check(ctx):
    n = 3 if not ctx.thorough else 4
    ctx.model("SamplerMC", cfg(n, 0, INV), "collector, %d operations" % n, timeout=2500, heap="10g")
    hists = []
    for k, (length, few) in enumerate(((4, False), (7, False), (10, False), (6, True), (12, True))):
        num = 60 if not ctx.thorough else 900
        r = ctx.tlc("SamplerMC", cfg(length, length, "Emit", few), simulate=num, depth=length + 2, seed=ctx.seed * 100 + k)
        h = r.lines("HIST ")
        if not r.ok or len(h) < num // 2:
            raise CheckError("history generation: " + r.tail())
        hists += random.Random(ctx.seed + k).sample(h, min(len(h), 100 if not ctx.thorough else 3000))
    traces = [dict(h, id="C20_%d" % k, salt=k * 7 + ctx.seed) for k, h in enumerate(hists)]
    rec, err = parallel(ctx, "sampledrive.py", traces)
    if err:
        ctx.violation("recording failed: " + err)
        return
    ctx.cov["requests"] = {}
    for t in rec:
        for e in t["ev"]:
            ctx.cov["requests"][e["op"] + ":" + e["out"]] = ctx.cov["requests"].get(e["op"] + ":" + e["out"], 0) + 1
    ctx.cov["containers"] = sorted({t["kind"] for t in rec})
    ctx.cov["samples"] = hists[:2]
    judge(ctx, "SamplerTrace", rec)
