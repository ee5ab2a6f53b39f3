"""Replays histories of spec/SamplerMC.tla into sample collectors and records what happens.

usage: sampledrive.py JOB.json OUT.json
"""
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, "/repo")
import numpy as np  # noqa: E402
from quantum_systems.sampler import SampleCollector, Sampler  # noqa: E402


class Solver:
    system = "the system"


LOG = []


class Snoop(Sampler):
    def __init__(self, i, key, fresh):
        super().__init__(Solver(), 5, np)
        self.i, self.key, self.fresh, self.got = i, key, fresh, []

    def sample(self, step):
        LOG.append({"op": "sample", "i": self.i, "step": num(step), "keys": []})
        self.got.append(num(step))

    def dump(self, samples):
        LOG.append({"op": "dump", "i": self.i, "step": 0, "keys": sorted(samples)})
        if self.fresh:
            samples = dict(samples)
        samples[self.key] = np.array(self.got, dtype=int)
        return samples


class Mine(SampleCollector):
    pass


def num(x):
    try:
        return int(round(float(x) * 4))
    except Exception:
        return -99


def enc(d):
    try:
        return sorted([k, [int(x) for x in np.atleast_1d(v)]] for k, v in d.items())
    except Exception:
        return [["unreadable", [0]]]


def tree(root):
    dirs, obst, files = [], [], []
    for base, ds, fs in os.walk(root):
        rel = [] if base == root else os.path.relpath(base, root).split(os.sep)
        for d in ds:
            dirs.append(rel + [d])
        for f in fs:
            p = os.path.join(base, f)
            if f == "f0":
                obst.append(rel + [f])
                continue
            try:
                d = enc(np.load(p, allow_pickle=True).item())
            except Exception:
                d = [["unreadable", [0]]]
            files.append([rel, f, d])
    return {"dirs": sorted(dirs), "obst": sorted(obst), "files": sorted(files)}


def container(kind, items):
    return {"list": list, "tuple": tuple, "set": set, "gen": lambda x: (y for y in x), "iter": iter,
            "dict": lambda x: dict.fromkeys(x).keys(), "map": lambda x: map(lambda y: y, x)}[kind](items)


def run(h):
    root = tempfile.mkdtemp(prefix="samp_", dir=os.getcwd())
    old = os.getcwd()
    os.mkdir(os.path.join(root, "d2"))
    open(os.path.join(root, "f0"), "w").close()
    os.chdir(root)
    try:
        salt = h["salt"]
        sm = [Snoop(i + 1, h["key"][i], (salt >> i) & 1) for i in range(3)]
        kinds = ["set"] if h["any"] else ["list", "tuple", "gen", "iter", "dict", "map"]
        kind = kinds[salt % len(kinds)]
        cls = Mine if h["cls"] == "Mine" else SampleCollector
        tr = {"id": h["id"], "ord": h["ord"], "any": h["any"], "cls": h["cls"], "key": h["key"], "start": tree(root), "kind": kind, "ev": []}
        del LOG[:]
        c = cls(container(kind, [sm[i - 1] for i in h["ord"]]), np)
        for op in h["ops"]:
            e = dict(op, out="ok", ret=[])
            del LOG[:]
            try:
                if op["op"] == "Sample":
                    c.sample([op["step"] / 4, np.float64(op["step"] / 4)][salt % 2])
                elif op["op"] == "Add":
                    c.add_sample(op["key"], np.array(op["val"]))
                elif op["op"] == "Get":
                    e["ret"] = enc(c.get_samples())
                elif op["op"] == "Dump":
                    kw = {"exist_ok": op["existok"], "save_samples": op["save"]}
                    if op["file"]:
                        # numpy appends the extension when it is missing
                        kw["filename"] = op["file"] if salt % 3 else op["file"][:-4]
                    p = os.path.join(*op["path"])
                    if op["path"] != ["dump"] or salt % 2:
                        kw["path"] = os.path.join(root, p) if salt % 5 == 0 else p
                    if op["existok"] and salt % 4 == 1:
                        del kw["exist_ok"]
                    if op["save"] and salt % 4 == 2:
                        del kw["save_samples"]
                    e["ret"] = enc(c.dump(**kw))
            except Exception as x:
                e["out"], e["why"] = "err", "%s: %s" % (type(x).__name__, x)
            e["log"] = list(LOG)
            e["ex"] = enc(c.get_samples())
            e.update(tree(root))
            tr["ev"].append(e)
        return tr
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


job = json.load(open(sys.argv[1]))
json.dump([run(h) for h in job["traces"]], open(sys.argv[2], "w"))
