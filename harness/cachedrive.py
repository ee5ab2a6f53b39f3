"""Replays schedules of spec/Cache.tla with real processes that share one storage directory.

usage: cachedrive.py JOB.json OUT.json

Every call runs in its own forked process that stops before each access of a stored file (and in the
middle of every write) until this controller lets it go on, makes the access fail, or kills it.
"""
import builtins
import errno
import io
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time

os.environ["NUMBA_DISABLE_JIT"] = "1"
sys.path.insert(0, "/repo")
import numpy as np  # noqa: E402
import quantum_systems.quantum_dots.two_dim.two_dim_helper as helper  # noqa: E402

REF = {}
TIMEOUT = 60


def reference(l):
    """Elements computed without caching, before any history."""
    if l not in REF:
        os.environ.pop("QS_CACHE_TDHO", None)
        REF[l] = np.array(helper.get_coulomb_elements(l))
    return REF[l]


def classify(u, l):
    try:
        u = np.asarray(u)
        if u.shape != REF[l].shape:
            return "wrong"
        if np.allclose(u, REF[l], rtol=1e-10, atol=1e-13):
            return "right"
        if np.allclose(u, 2 * REF[l], rtol=1e-10, atol=1e-13):
            return "double"
    except Exception:
        pass
    return "wrong"


# ------------------------------------------------------------------ the process making a call
class Half:
    """A file that stops in the middle of every write."""

    def __init__(self, f, point):
        self._f, self._point = f, point

    def write(self, b):
        n = len(b) // 2
        if n:
            self._f.write(bytes(b)[:n])
            self._f.flush()
            self._point("mid")
        return n + self._f.write(bytes(b)[n:])

    def __getattr__(self, a):
        return getattr(self._f, a)

    def __enter__(self):
        return self

    def __exit__(self, *x):
        self._f.close()


def child(root, l, on, rd, wr, limit):
    n = {"reads": 0, "writes": 0}
    inside = [False]

    def send(m):
        os.write(wr, (json.dumps(m) + "\n").encode())

    def point(kind):
        inside[0] = True
        send({"point": kind})
        m = os.read(rd, 1)
        inside[0] = False
        if m == b"f":
            raise OSError(errno.ENOSPC, "No space left on device")

    def in_root(p):
        try:
            return os.path.realpath(os.fsdecode(p)).startswith(root + os.sep)
        except Exception:
            return False

    def audit(ev, args):
        if inside[0] or ev not in ("open", "os.rename", "os.remove", "os.link", "os.truncate", "shutil.move"):
            return
        if not in_root(args[0]) and not (len(args) > 1 and isinstance(args[1], str) and in_root(args[1])):
            return
        if ev == "open":
            mode, flags = args[1], args[2] if len(args) > 2 else 0
            w = any(c in (mode or "") for c in "wax+") or bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            n["writes" if w else "reads"] += 1
            point("open" if w else "read")
        else:
            n["writes"] += 1
            if ev != "os.remove":
                point(ev)

    real = builtins.open

    def opn(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        if isinstance(file, (str, bytes, os.PathLike)) and "b" in mode and any(c in mode for c in "wax+") and in_root(file):
            return Half(f, point)
        return f

    out = {"out": "ok", "eq": "none", "why": ""}
    try:
        os.environ.pop("QS_CACHE_TDHO", None)
        if on:
            os.environ["QS_CACHE_TDHO"] = "1"
        os.chdir(root)
        sys.path.insert(0, root)
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if limit[0] == "kill" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit[1], limit[1]))
        else:
            builtins.open = io.open = opn
        sys.addaudithook(audit)
        send({"point": "start"})
        os.read(rd, 1)
        u = helper.get_coulomb_elements(l)
        inside[0] = True
        out["eq"] = classify(u, l)
        # what the caller does with its elements must not reach anyone else
        try:
            u *= 0
            first = dict(n)
            inside[0] = False
            v = helper.get_coulomb_elements(l)
            inside[0] = True
            if classify(v, l) != out["eq"]:
                out["eq"] = "wrong"
            n.update(first)
        except ValueError:
            pass
    except BaseException as x:
        out.update(out="err", why="%s: %s" % (type(x).__name__, str(x)[:120]))
    inside[0] = True
    send(dict(out, done=True, **n))
    os._exit(0)


class Proc:
    def __init__(self, root, l, on, limit=None):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1), os.close(r2)
            try:
                child(root, l, on, r1, w2, limit)
            finally:
                os._exit(99)
        os.close(r1), os.close(w2)
        self.w, self.r, self.buf = w1, r2, b""
        self.last = self.recv()

    def recv(self):
        end = time.time() + TIMEOUT
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                self.kill()
                return {"done": True, "out": "err", "why": "no answer", "eq": "none", "reads": 0, "writes": 0}
            d = os.read(self.r, 65536)
            if not d:
                return {"dead": True}
            self.buf += d
        a, self.buf = self.buf.split(b"\n", 1)
        return json.loads(a)

    def go(self, m=b"g"):
        try:
            os.write(self.w, m)
        except OSError:
            pass
        self.last = self.recv()
        return self.last

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def close(self):
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for f in (self.w, self.r):
            try:
                os.close(f)
            except OSError:
                pass


def snapshot(root):
    s = []
    for b, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(b, f)
            try:
                s.append((os.path.relpath(p, root), open(p, "rb").read()))
            except OSError:
                pass
    return sorted(s)


class Run:
    def __init__(self, h):
        self.h, self.ev, self.procs = h, [], {}
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="cache_", dir=os.getcwd()))

    def begin(self, p, l, on, limit=None):
        reference(l)
        self.ev.append({"op": "begin", "p": p, "l": l, "on": on})
        self.procs[p] = Proc(self.root, l, on, limit)

    def after(self, p):
        q = self.procs[p]
        if q.last.get("done"):
            d = q.last
            self.ev.append({"op": "end", "p": p, "out": d["out"], "eq": d["eq"], "why": d["why"], "reads": d["reads"], "writes": d["writes"]})
            q.close()
            del self.procs[p]
        elif q.last.get("dead"):
            self.ev.append({"op": "crash", "p": p, "point": "died"})
            q.close()
            del self.procs[p]

    def step(self, p):
        if p in self.procs:
            pt = self.procs[p].last.get("point", "")
            self.ev.append({"op": "step", "p": p, "point": pt})
            self.procs[p].go()
            self.after(p)

    def fail(self, p):
        if p in self.procs:
            pt = self.procs[p].last.get("point", "")
            if pt in ("start", "read"):
                return self.step(p)
            self.ev.append({"op": "fail", "p": p, "point": pt})
            self.procs[p].go(b"f")
            self.after(p)

    def crash(self, p):
        if p in self.procs:
            self.ev.append({"op": "crash", "p": p, "point": self.procs[p].last.get("point", "")})
            self.procs[p].kill()
            self.procs[p].close()
            del self.procs[p]

    def finish(self, p):
        for _ in range(60):
            if p not in self.procs:
                return
            self.step(p)
        self.crash(p)

    def call(self, l, on, limit=None):
        if limit:
            self.begin(4, l, on, limit)
            self.ev.append({"op": "fail", "p": 4, "point": "limit"})
        else:
            self.begin(4, l, on)
        self.finish(4)

    def mark(self, l):
        """Double the stored elements of size l, wherever they are."""
        done = False
        for b, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(b, f)
                try:
                    a = np.load(p)
                except Exception:
                    continue
                if getattr(a, "shape", None) == (l,) * 4 and classify(a, l) == "right":
                    with open(p, "wb") as g:
                        np.save(g, 2 * a)
                    done = True
        if done:
            self.ev.append({"op": "mark", "l": l})
        return done

    def unmark(self, keep):
        for n, d in keep:
            with open(os.path.join(self.root, n), "wb") as g:
                g.write(d)
        self.ev.append({"op": "unmark"})

    def run(self):
        try:
            off_before = None
            for a in self.h["ops"]:
                p = a["p"]
                if a["a"] == "begin":
                    if p in self.procs:
                        self.finish(p)
                    self.begin(p, a["l"], a["on"])
                elif a["a"] == "limit":
                    self.call(a["l"], a["on"], (a["how"], a["bytes"]))
                elif a["a"] == "call":
                    self.call(a["l"], a["on"])
                elif a["a"] == "mark":
                    keep = snapshot(self.root)
                    if self.mark(a["l"]):
                        self.call(a["l"], True)
                        self.call(a["l"], False)
                        self.unmark(keep)
                else:
                    getattr(self, a["a"])(p)
            for p in sorted(self.procs):
                self.finish(p)
            # afterwards every call works
            sizes = sorted({a["l"] for a in self.h["ops"] if a.get("l")})
            for l in sizes:
                off_before = snapshot(self.root)
                self.call(l, False)
                if snapshot(self.root) != off_before:
                    self.ev[-1]["writes"] += 1
                self.call(l, True)
                self.call(l, True)
            if sizes:
                keep = snapshot(self.root)
                if self.mark(sizes[-1]):
                    self.call(sizes[-1], True)
                    self.call(sizes[-1], False)
                    self.unmark(keep)
            return {"id": self.h["id"], "ev": self.ev}
        finally:
            for p in list(self.procs):
                self.procs[p].kill()
                self.procs[p].close()
            shutil.rmtree(self.root, ignore_errors=True)


job = json.load(open(sys.argv[1]))
for l in (1, 2, 3, 4):
    reference(l)
json.dump([Run(h).run() for h in job["traces"]], open(sys.argv[2], "w"))
