"""Checks of the properties about basis sets and systems (lifecycle histories)."""
import json
import os
import subprocess

from common import CheckError, run_code

BUILD = ["Double", "Anti", "Change", "CopyB", "NewSpas", "NewGos", "MkGos", "CopyS", "SysChange"]
SYS = [["NewSpas", "NewGos"]]
SP = [["NewSpas"]]

# Per property: invariants of the design model, and batches of histories
#   (operations, how a history begins, length, number quick, number thorough, replay profile)
P = {
    "C01": dict(inv="InvSizes", batches=[
        (BUILD + ["New", "SetSize", "SetTeo"], [], 8, 40, 400, {}),
        (["Change", "SysChange", "MkGos", "CopyS", "SetSize", "NewGos", "SetRepr"], SP, 6, 20, 300, {"cycle": {"kind": ["plain", "dvr"]}}),
        (BUILD, [], 5, 4, 60, {"lmin": 3, "lmax": 4, "lcap": 9})]),
    "C02": dict(inv="InvCovariant InvHermitian", batches=[
        (["Double", "Anti", "Change", "NewSpas", "NewGos", "MkGos", "SysChange", "GetT", "XfS", "New", "ReadBra", "CopyB", "Set"], [], 8, 36, 400, {}),
        (["Change", "GetT", "ReadBra", "Double"], [], 6, 24, 300, {"optional": 0.5, "lmax": 4}),
        (["Change", "ReadBra", "Double", "SysChange"], [["Change", "NewSpas"]], 4, 24, 200, {"observe_bra": 0, "spf": 1}),
        (["Change", "SysChange", "XfS"], [["Double"], ["Change"]], 5, 10, 200, {"s": 1, "spf": 1, "dip": 1}),
        (["Change", "Double"], [], 3, 4, 60, {"lmin": 3, "lmax": 4, "lcap": 8})]),
    "C03": dict(inv="InvHermitian InvExch", batches=[
        (["Double", "Change", "NewGos", "NewSpas", "MkGos", "New", "SysChange", "CopyB", "ReadBra"], [], 7, 36, 400, {"s": 1}),
        (["Double", "MkGos", "ReadBra"], [["Change", "New", "NewSpas"]], 5, 30, 300, {"s": 1, "optional": 0.6, "lmax": 4})]),
    "C04": dict(inv="InvAnti InvExch", batches=[
        (["Double", "Anti", "Change", "NewGos", "NewSpas", "MkGos", "CopyB", "CopyS", "New", "SysChange"], [], 8, 40, 400, {"s": 1}),
        (["Double", "Anti", "NewGos", "CopyB", "Change"], [["New"]], 7, 24, 300, {"s": 1}),
        (["Anti", "NewGos", "Double", "MkGos", "CopyS", "SetRepr"], [["Double", "NewSpas", "NewGos"]], 6, 16, 300, {"s": 1, "kind": "dvr"})]),
    "C05": dict(inv="InvSpin", batches=[
        (["Double", "Anti", "Change", "NewGos", "NewSpas", "MkGos", "New", "SysChange"], [["Double", "NewGos", "NewSpas"]], 6, 40, 400, {"s": 1}),
        (["Anti", "MkGos", "NewGos", "Change", "Double"], [["Double", "NewGos", "Change"]], 4, 30, 300, {"s": 1, "lmax": 4})]),
    "C06": dict(inv="InvEnergy InvFock", batches=[
        (["Double", "Change", "NewSpas", "NewGos", "MkGos", "SysChange", "Energy", "Fock", "SetSize", "CopyS"], SYS, 8, 36, 400, {"s": 1}),
        (["MkGos", "SysChange", "Energy", "Fock", "SetSize"], SP + [["MkGos", "SysChange"]], 7, 30, 400, {"s": 1, "lmax": 4})]),
    "C07": dict(inv="InvSizes", batches=[
        (BUILD + ["Poke", "SetTeo", "Ht", "Ut", "Set", "SetSize", "ModB", "ModS", "Cast"], [["CopyB", "NewSpas", "NewGos"]], 8, 36, 400, {"s": 1}),
        (["Poke", "SetTeo", "Ht", "Ut", "SysChange", "CopyS", "MkGos"], SYS + [["SetTeo"], ["CopyS", "MkGos"]], 8, 24, 300, {"s": 1, "dip": 1, "lmax": 2, "pokes": 2}),
        (["Poke", "Change", "Double", "CopyB", "Anti"], [["CopyB"]], 6, 16, 200, {"pokes": 11, "maxev": 60, "s": 1, "observe_bra": 0.8}),
        (BUILD + ["Poke", "SetTeo", "Ht", "Ut", "Cast"], [["CopyB", "NewSpas", "NewGos"], ["CopyB", "CopyS", "MkGos"]], 7, 32, 320,
         {"kind": "other", "opaque": True, "pokes": 11, "maxev": 60, "observe_bra": 0.5,
          "cycle": {"which": ["odqd", "odho", "tdho", "dvr", "dvr2", "random", "gauss", "dw", "hob"]}}),
        (BUILD + ["Poke", "SetRepr"], [["CopyB", "NewSpas"], ["CopyB", "CopyS", "MkGos"]], 6, 10, 150, {"kind": "dvr"}),
        (["CopyB", "CopyS", "MkGos", "Poke"], [["ModB", "Cast"], ["CopyB", "NewSpas", "NewGos"]], 6, 16, 150,
         {"kind": "other", "opaque": True, "cycle": {"which": ["gauss", "dvr", "odqd", "dvr2", "dw", "random", "odho", "hob"]}})]),
    "C08": dict(inv="InvTeo", batches=[
        (["NewSpas", "NewGos", "MkGos", "CopyS", "SysChange", "SetTeo", "Ht", "Ut", "Poke"], SYS + [["SetTeo"]], 9, 40, 400, {"s": 1, "dip": 0.9}),
        (["SysChange", "SetTeo", "Ht", "Ut", "MkGos", "CopyS"], SP + [["SetTeo"], ["Ht", "Ut", "MkGos"]], 8, 40, 400, {"s": 1, "dip": 1, "lmax": 2}),
        (["SetTeo", "Ht", "Ut", "SysChange"], SP + [["SetTeo"], ["New"], ["NewSpas", "NewGos"], ["SetTeo"], ["Ht", "Ut"], ["Ht", "Ut"]], 11, 36, 400,
         {"s": 1, "dip": 1, "lmax": 2, "share": 0.8})]),
    "C09": dict(inv="InvDensity InvBra", batches=[
        (["Double", "Change", "NewSpas", "NewGos", "MkGos", "SysChange", "Density", "DensityB", "ReadBra", "New"], [], 8, 36, 400, {"spf": 1, "s": 1}),
        (["Density", "DensityB", "Change", "SysChange", "ReadBra"], [["Change", "Double", "NewSpas"]], 6, 40, 400, {"spf": 1, "s": 1, "lmax": 4}),
        (["Set", "DensityB", "ReadBra", "Double", "CopyB", "Change", "Cast"], [["DensityB", "ReadBra", "Cast", "Set"], ["Set"]], 7, 40, 400,
         {"spf": 1, "s": 1, "setf": 1, "cycle": {"kind": ["plain", "dvr"]}})]),
    "C10": dict(inv="InvSizes", batches=[
        (["Double", "Anti", "Change", "NewSpas", "NewGos", "MkGos", "SysChange", "New", "BadSet", "BadSpinSet", "BadSpas", "BadGos",
          "BadPair", "BadChange", "BadSysChange", "BadSize", "BadMkGos", "BadRepr"], [], 10, 40, 400, {"s": 1}),
        (["BadSet", "BadSpinSet", "BadSpas", "BadGos", "BadPair", "BadChange", "Double", "Change", "Anti"], [], 8, 40, 400, {"optional": 0.6, "lmax": 4}),
        (["BadSysChange", "BadSize", "BadMkGos", "SysChange", "BadSet", "BadGos", "BadSpas"], SYS, 8, 40, 400, {"s": 1, "lmin": 2, "lmax": 4}),
        (["BadRepr", "BadSet", "SetRepr", "BadChange", "Change", "Double"], [], 6, 10, 150, {"kind": "dvr"}),
        (["BadRepr", "CopyB", "NewSpas", "NewGos"], [], 5, 8, 80, {"optional": 0.2, "s": 1})]),
    "C11": dict(inv="InvSizes", batches=[
        (["Double", "Change", "NewSpas", "NewGos", "MkGos", "CopyB", "CopyS", "Cast", "ModB", "ModS", "New"], [], 8, 40, 400, {"s": 1}),
        (["Cast", "ModB", "ModS", "CopyB", "CopyS", "MkGos", "Change", "SysChange"], [["NewSpas", "NewGos", "ModB"]], 7, 40, 400, {"optional": 0.5, "s": 0.7}),
        (["Cast", "ModB", "ModS", "CopyB", "CopyS", "MkGos"], [["Cast", "ModB"]], 5, 18, 200,
         {"kind": "other", "opaque": True, "cycle": {"which": ["odqd", "odho", "tdho", "dvr", "hob", "random", "gauss", "dw", "dvr2"]}}),
        (["Cast", "ModB", "ModS", "CopyB", "CopyS", "MkGos", "SetRepr", "Change", "NewSpas", "NewGos", "Double"], [["ModB", "Cast", "NewSpas"], ["ModB", "ModS"]], 7, 24, 200,
         {"kind": "dvr", "s": 1})]),
    "C26": dict(inv="InvSizes", batches=[
        (BUILD + ["Set", "SetTeo", "Ht", "Ut", "SetSize", "Cast", "ModB", "ModS", "New", "Energy", "Fock", "Density", "DensityB", "GetT", "XfS", "Poke"],
         [], 11, 36, 400, {"held": 1, "s": 1, "spf": 1, "dip": 1, "maxev": 60}),
        (["Fock", "Density", "DensityB", "GetT", "XfS", "Ht", "Ut", "SetTeo", "Help", "Energy", "SysChange"], SYS + [["SetTeo"]], 10, 30, 300,
         {"held": 1, "s": 1, "spf": 1, "dip": 1, "maxev": 60, "observe_bra": 0.9}),
        (BUILD + ["Ht", "Ut", "Cast", "ModB", "ModS", "SetTeo", "Density", "DensityB"], [["CopyB", "NewSpas", "NewGos"]], 8, 27, 320,
         {"held": 1, "kind": "other", "opaque": True, "maxev": 60, "cycle": {"which": ["odqd", "odho", "tdho", "dvr", "dvr2", "random", "gauss", "dw", "hob"]}}),
        (BUILD + ["SetRepr", "Energy", "Cast", "GetT", "XfS"], [["CopyB", "NewSpas", "NewGos"]], 7, 16, 200, {"held": 1, "kind": "dvr", "maxev": 60}),
        (["Change", "SysChange", "NewSpas", "CopyB"], [["Change", "NewSpas"]], 3, 16, 200, {"held": 1, "spf": 1, "observe_bra": 0})]),
    "C27": dict(inv="InvCovariant InvSpin", batches=[
        (["Help", "Change", "Double"], [["Help"]], 10, 40, 400, {"helps": 4, "held": 1, "lhelp": 3, "maxev": 90}),
        (["Help", "SetRepr", "Anti"], [["Help"]], 9, 24, 300, {"helps": 4, "held": 1, "lhelp": 3, "kind": "dvr", "maxev": 90}),
        (["Help", "CopyB", "New"], [["Help"]], 7, 8, 80, {"helps": 5, "lhelp": 5, "maxev": 60})]),
    "C24": dict(inv="InvSizes", batches=[
        (BUILD + ["Poke", "Set", "SetTeo", "Ht", "ModB", "ModS", "Cast", "SetSize", "Energy", "Fock"], [["NewSpas", "NewGos"]], 9, 40, 400, {"s": 1, "spf": 1, "observe_bra": 1, "setf": 2}),
        (["Change", "SysChange", "Double", "Anti", "MkGos", "CopyS", "Poke", "Set", "ReadBra"], [["NewGos", "NewSpas", "Double"], ["NewGos", "MkGos", "CopyS"]], 7, 36, 300, {"optional": 0.6, "s": 0.7, "setf": 2}),
        (["Set", "ModS"], [["NewGos", "Double"], ["NewGos", "MkGos"]], 8, 14, 150, {"s": 1, "setf": 2, "lmax": 2}),
        (["Change", "SysChange", "MkGos", "CopyS", "Poke"], [["NewSpas", "NewGos"]], 5, 12, 150, {"kind": "other", "opaque": True})]),
}


# Large basis sets (QSWide): operations, how a history begins, length, number quick, number thorough, profile
SPAT = dict(lmin=18, lmax=40, lcap=40, ldouble=0)
SPIN = dict(lmin=9, lmax=16, lcap=34, ldouble=16)
DVR = dict(lmin=8, lmax=14, lcap=28, ldouble=14, kind="dvr")
WIDE = {
    "C01": [(["Change", "SysChange", "CopyS", "CopyB", "NewSpas"], [["Change", "CopyB"], ["NewSpas", "Change"]], 5, 4, 30, SPAT),
            (["Double", "NewGos", "MkGos", "SysChange", "NewSpas", "Change"], [["Change", "NewSpas"]], 5, 4, 30, SPIN)],
    "C02": [(["Change", "GetT", "SysChange", "NewSpas"], [["Change"]], 3, 5, 40, SPAT),
            (["Change", "SysChange", "GetT", "Anti"], [["Double", "NewGos"], ["Change", "SysChange"]], 4, 4, 30, SPIN),
            (["Change", "SysChange", "NewGos"], [["Change", "NewSpas"]], 3, 3, 20, DVR)],
    "C03": [(["Double", "NewGos", "MkGos", "SysChange"], [["Change", "NewSpas"], ["Double", "NewGos", "MkGos"]], 4, 6, 40, SPIN),
            (["Double", "NewGos", "MkGos"], [["NewSpas", "Double"], ["NewGos", "MkGos"]], 2, 3, 20, DVR)],
    "C04": [(["Anti", "Double", "NewGos", "MkGos", "CopyB"], [["Double", "NewSpas", "Anti"], ["NewGos", "MkGos", "Anti"]], 5, 5, 40, SPIN),
            (["Anti", "Change"], [["Anti", "Change"]], 3, 3, 20, SPAT)],
    "C05": [(["Anti", "Change", "SysChange", "MkGos"], [["Double", "NewGos", "NewSpas"], ["Change", "SysChange", "MkGos"]], 4, 6, 40, SPIN)],
    "C06": [(["Energy", "Fock", "SysChange"], [["NewSpas"], ["Energy", "Fock"]], 5, 5, 40, SPAT),
            (["Energy", "Fock", "MkGos", "SysChange"], [["NewSpas", "NewGos"], ["MkGos", "Energy"], ["Fock"]], 6, 5, 40, SPIN),
            (["Energy", "Fock", "SysChange"], [["NewGos"], ["Fock"], ["Energy", "SysChange"], ["Fock", "Energy"]], 4, 6, 40, SPIN),
            (["Energy", "Fock"], [["NewGos"], ["Fock"], ["Energy"]], 3, 2, 20, DVR)],
    "C07": [(["Change", "SysChange", "CopyS", "Anti"], [["CopyB", "NewSpas"], ["Change", "CopyS"]], 4, 3, 20, SPAT),
            (["SysChange", "Double", "Anti"], [["NewSpas", "CopyB"], ["MkGos", "CopyS", "CopyB"]], 4, 3, 20, SPIN)],
    "C09": [(["Density", "DensityB", "Change", "NewSpas"], [["DensityB", "Change"]], 5, 5, 40, SPAT),
            (["Density", "DensityB", "Change"], [["Double", "Change"], ["Double", "NewGos"], ["DensityB"]], 5, 4, 40, SPIN)],
    "C27": [(["Help", "GetT", "CopyB"], [["Help"]], 5, 4, 40, SPAT), (["Help", "CopyB"], [["Help"]], 6, 4, 40, SPIN)],
}


def model_cfg(inv, maxlen, start, extra="Frame RefinesLife"):
    return ("SPECIFICATION Spec\nCONSTANTS\n MaxB = 2\n MaxS = 2\n MaxLen = %d\n Start = {%s}\nVIEW View\nINVARIANTS %s\nPROPERTIES %s\n"
            "CHECK_DEADLOCK FALSE\n" % (maxlen, start, inv, extra))


def check(ctx):
    """One of C01..C11."""
    spec = P[ctx.prop]
    if ctx.thorough:
        ctx.model("QSMC", model_cfg(spec["inv"], 3, "1,2,3"), "design model, 3 operations", timeout=3000, heap="12g")
    else:
        ctx.model("QSMC", model_cfg(spec["inv"], 2, "1"), "design model, 2 operations", timeout=600)
    if ctx.prop == "C26":
        c = "SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n MaxOps = %d\n MaxObjs = 2\nVIEW View\nPROPERTIES Untouched NotKept\nCHECK_DEADLOCK FALSE\n"
        ctx.model("HeldMC", c % ("fresh", 6 if ctx.thorough else 5), "arrays handed out and lent", timeout=2000)
        for mode in ("inplace", "buffer", "lazy"):      # the model can tell these designs
            if ctx.tlc("HeldMC", c % (mode, 4)).ok:
                raise CheckError("the model did not reject design " + mode)
    if ctx.prop in WIDE:
        ctx.model("QSWideMC", "SPECIFICATION Spec\nCONSTANTS\n MaxLen = %d\nINVARIANTS Refines SameValues\nCHECK_DEADLOCK FALSE\n" % (3 if ctx.thorough else 2),
                  "large basis sets stand for those of QS", timeout=1200)
        for k, (ops, prefix, length, nq, nt, prof) in enumerate(WIDE[ctx.prop]):
            wide(ctx, k, ops, prefix, length, nt if ctx.thorough else nq, prof)
    for k, (ops, prefix, length, nq, nt, prof) in enumerate(spec["batches"]):
        n = nt if ctx.thorough else nq
        for c in range(0, n, 60):
            batch(ctx, ops, prof, min(60, n - c), length, "%s%d_%d_" % (ctx.prop, k, c), prefix=prefix, seed=ctx.seed * 1000 + k * 100 + c // 60 + 1)


def wide(ctx, k, ops, prefix, length, n, prof):
    for c in range(0, n, 10):
        tag = "%sw%d_%d_" % (ctx.prop, k, c)
        hists = gen_histories(ctx, ops, min(10, n - c), length, 2, 2, ctx.seed * 1000 + 500 + k * 50 + c, prefix)
        jp, op = ctx.path(tag + "job.json"), ctx.path(tag + "out.json")
        json.dump({"seed": ctx.seed, "profile": prof, "histories": [{"id": tag + str(j), "salt": j * 31 + sum(map(ord, tag)), "ops": h} for j, h in enumerate(hists)]}, open(jp, "w"))
        p = run_code(ctx, "widedrive.py", [jp, op], timeout=400)
        if p is None or p.returncode != 0:
            ctx.violation("large basis sets: " + ("the library did not return within 400 s" if p is None else p.stderr[-1500:]))
            return
        traces = json.load(open(op))
        os.unlink(op)
        by = {t["id"]: t for t in traces}
        for t in traces:
            for e in t["ev"]:
                ctx.cov.setdefault("requests_large", {}).setdefault(e["op"], 0)
                ctx.cov["requests_large"][e["op"]] += 1
        for m in ctx.validate("QSWideTrace", traces):
            if ctx.prop in m["props"]:
                ctx.violation("%s (event %d of trace %s)" % (m["what"], m["event"], m["trace"]),
                              {"requests": [{a: e[a] for a in e if a in ("op", "b", "s", "l", "n", "N", "anti", "fn", "out")} for e in by[m["trace"]]["ev"][:m["event"]]]})
            elif os.environ.get("VERIF_DEBUG"):
                print("  other:", m)


def tset(ops):
    return "{%s}" % ",".join('"%s"' % o for o in ops)


def gen_histories(ctx, ops, num, length, maxb=3, maxs=3, seed=None, prefix=()):
    # sequences cannot be written in a configuration file: a small module supplies the constants
    body = "---- MODULE QSGenX ----\nEXTENDS QSGen\ncOps == %s\ncPrefix == <<%s>>\n====\n" % (tset(ops), ",".join(map(tset, prefix)))
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n MaxB = %d\n MaxS = %d\n EmitAt = %d\n Ops <- cOps\n Prefix <- cPrefix\n"
           "INVARIANTS Inv\nCHECK_DEADLOCK FALSE\n" % (maxb, maxs, length))
    r = ctx.tlc("QSGenX", cfg, source=body, simulate=num, depth=length + 3, seed=seed or ctx.seed)
    h = []
    for x in r.lines("HIST "):
        if not h or h[-1] != x:
            h.append(x)
    if not r.ok or len(h) < num // 2:
        raise CheckError("history generation: " + r.tail())
    return h[:num]


def drive(ctx, hists, profile, tag):
    job = {"seed": ctx.seed, "profile": profile,
           "histories": [{"id": "%s%d" % (tag, k), "salt": k * 31 + sum(map(ord, tag)), "ops": h} for k, h in enumerate(hists)]}
    jp, op = ctx.path(tag + "_job.json"), ctx.path(tag + "_out.json")
    json.dump(job, open(jp, "w"))
    p = run_code(ctx, "qsdrive.py", [jp, op], timeout=300)
    if p is None:
        return None, "the library did not return within 300 s"
    if p.returncode != 0:
        return None, "replay failed: " + p.stderr[-1500:]
    tr = json.load(open(op))
    os.unlink(op)
    return tr, None


def brief(tr, k):
    def short(e):
        return {a: (b if not isinstance(b, dict) or len(json.dumps(b)) < 400 else "...") for a, b in e.items() if a not in ("cb", "cs")}
    return [short(e) for e in tr["ev"][:k]]


def batch(ctx, ops, profile, num, length, tag, maxb=3, maxs=3, seed=None, prop=None, prefix=()):
    """Histories -> real code -> trace validation; reports mismatches that belong to the property."""
    hists = gen_histories(ctx, ops, num, length, maxb, maxs, seed, prefix)
    traces, err = drive(ctx, hists, profile, tag)
    if err:
        ctx.violation(err)
        return
    judge(ctx, traces, prop)
    if traces and len(ctx.cov["samples"]) < 3:
        ctx.cov["samples"].append({"history": hists[0], "trace_events": [e["op"] for e in traces[0]["ev"]]})


def judge(ctx, traces, prop=None):
    prop = prop or {ctx.prop}      # clauses that count
    mm = ctx.validate("QSTrace", traces)
    by = {t["id"]: t for t in traces}
    ops = ctx.cov.setdefault("requests", {})
    for t in traces:
        for e in t["ev"]:
            key = e["op"] + ("" if e["out"] == "ok" else "!")
            ops[key] = ops.get(key, 0) + 1
    for m in mm:
        if prop & set(m["props"]):
            ctx.violation("%s (event %d of trace %s)" % (m["what"], m["event"], m["trace"]),
                          {"requests": brief(by[m["trace"]], m["event"]), "what": m["what"]})
    other = [m for m in mm if not prop & set(m["props"])]
    if other:
        if os.environ.get("VERIF_DEBUG"):
            for m in other:
                print("  other:", m)
        ctx.cov["disagreements_of_other_properties"] = ctx.cov.get("disagreements_of_other_properties", 0) + len(other)
    return mm
