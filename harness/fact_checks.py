"""Check of construction as a function of the arguments (C25)."""
import random
from concurrent.futures import ThreadPoolExecutor

from common import CheckError
from two_checks import judge, parallel

USES = ["change", "double", "tilt", "anti", "gos", "teo", "cast", "energy", "density", "set"]
# recipes that share code or parameters: mixed within one history
GROUPS = [["qd_ho", "qd_ho_fine", "qd_ho2", "qd_dw", "g_qd"], ["qd_ho", "qd_alpha", "qd_a", "qd_beta", "qd_len"], ["qd_def", "qd_ho2", "qd_sy", "qd_ga", "qd_at", "s_qd"],
          ["odho", "odho_w", "odho_a", "qd_def", "odho_len"], ["dvr2", "dvr4", "dvr_ga", "g_dvr", "s_dvr", "g_dvr_raw"], ["dvr2", "dvr_alpha", "dvr_dw", "dvr_len", "dvr4", "dvr_len4"],
          ["td", "td6", "td_w", "td_m", "td_g"], ["td", "dw0", "dw1", "dw_b", "u3"], ["b1", "b_strong", "b_0", "b_neg"], ["b_6", "b_neg6", "b1"], ["td_w", "td_w2", "td", "td_def2", "dw_b", "dw_b2"], ["td", "u3", "u6", "h6", "td6", "s_td"],
          ["plain", "s_plain", "g_plain", "g_plain_raw", "g_tilt"], ["g_td", "g_td_raw", "td_w", "s_td"], ["mol_rhf", "mol_far", "mol_ao", "mol_631"], ["mol_ao", "mol_ao2", "mol_ang"],
          ["g_plain", "g_tilt", "g_dvr", "g_qd", "mol_rhf"]]


def cfg(recipes, uses, n, objs, memo, emit, inv):
    s = lambda xs: "{%s}" % ",".join('"%s"' % x for x in xs)  # noqa: E731
    return ("SPECIFICATION Spec\nCONSTANTS\n Recipes = %s\n Uses = %s\n MaxOps = %d\n MaxObjs = %d\n Memo = %s\n EmitAt = %d\n%sINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
            % (s(recipes), s(uses), n, objs, memo, emit, "" if emit else "VIEW View\n", inv))


def check(ctx):
    big = ctx.thorough
    ctx.model("FactoryMC", cfg("ab", "u", 7 if big else 5, 4, "FALSE", 0, "Pure Frame"), "building and using systems", timeout=2000)
    # the model can tell: a memory of earlier results breaks both laws
    r = ctx.tlc("FactoryMC", cfg("ab", "u", 5, 4, "TRUE", 0, "Pure"))
    if r.ok:
        raise CheckError("the model with shared results was not rejected")
    rng = random.Random(ctx.seed)
    traces = []
    def gen(a):
        g, L, num = a
        return ctx.tlc("FactoryMC", cfg(GROUPS[g], USES, L, 5, "FALSE", L, "Emit"), simulate=num * (5 if big else 1), depth=L + 2, seed=ctx.seed * 1000 + g, heap="1g")

    jobs = [(g, L, 20) for g in range(len(GROUPS)) for L in (5, 9)]
    with ThreadPoolExecutor(6) as ex:
        runs = dict(zip(jobs, ex.map(gen, jobs)))
    for g, group in enumerate(GROUPS):
        for L in (5, 9):
            r = runs[g, L, 20]
            hs = r.lines("HIST ")
            if not r.ok or not hs:
                raise CheckError("history generation: " + r.tail())
            # histories that build something again after something happened
            good = [h for h in hs if sum(o["op"] == "Build" for o in h["ops"]) >= 2] or hs
            traces += [dict(h, id="C25_%d_%d_%d" % (g, L, k), salt=rng.randrange(10 ** 6))
                       for k, h in enumerate(rng.sample(good, min(len(good), 40 if big else 3)))]
        # every recipe twice, the first one written to and used in between; and each after each other of its group
        for k, r1 in enumerate(group):
            B = lambda r, sh=True: {"op": "Build", "r": r, "sh": sh, "i": 0, "u": ""}  # noqa: E731
            T = lambda i, u: {"op": "Use" if u else "Write", "r": "", "sh": False, "i": i, "u": u}  # noqa: E731
            traces.append({"id": "C25_%d_p%d" % (g, k), "salt": k, "ops": [B(r1), T(1, ""), B(r1), T(1, USES[(g + k) % len(USES)]), T(2, "change"), B(group[(k + 1) % len(group)]), B(r1)]})
    rec, err = parallel(ctx, "factdrive.py", traces, jobs=7, timeout=3000 if big else 600, key=lambda t: int(t["id"].split("_")[1]))
    if err:
        ctx.violation("recording failed: " + err)
        return
    ctx.cov["recipes"] = len({o["r"] for t in traces for o in t["ops"] if o["r"]})
    ctx.cov["requests"] = {}
    for t in rec:
        for e in t["ev"]:
            k = e["op"] + ":" + e["u"] + ":" + e["out"]
            ctx.cov["requests"][k] = ctx.cov["requests"].get(k, 0) + 1
    ctx.cov["samples"] = [{"ops": t["ops"]} for t in traces[:2]]
    judge(ctx, "FactoryTrace", rec, timeout=1500)
