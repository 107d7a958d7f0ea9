"""C08: every single failure of every file operation of disk-backed histories is
injected into the real native library, plus every torn-write position (file size limit
in bytes), every truncation of every snapshot file between the passes, deletions, and
descriptor exhaustion at every open. After each: an exception or the fault-free results,
then a fault-free propagation with the right results."""
import ctypes
import errno
import gc
import itertools
import os
import resource
from pathlib import Path

import torch

from checks.c05 import layout2
from vlib import grad as G
from vlib.impl import F64, Cfg, call

LEVEL = "fault_enumeration"
FLAVOUR = "io"
RULE = "distinct (history, operation, failure kind, reaction) combinations"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x compression on/off x histories (forward-backward, repeated backward on a "
             "retained graph, chunked by callbacks, scalar double backward), up to 3 steps, 2 shots, 1 and 2 threads; "
             "every operation index x {error, zero, short by one, half, persistent from there, delayed until close}; "
             "every file size limit 0..size; every truncation length; every deletion; every descriptor limit",
    "thorough": "as quick with up to 5 steps, 3 shots, all accuracies, sampling intervals 1-3",
}
ASSUMPTIONS = ["one fault per history (persistent faults: one onset)",
               "a call that recovers by itself and returns the fault-free results is accepted"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
SHAPES = {1: ([4], [1, 0]), 2: ([3, 4], [0, 1, 1, 0]), 3: ([3, 3, 3], [0, 0, 1, 0, 0, 0])}
OPS = ("open", "close", "read", "write", "seek", "tell", "flush", "other")
FAIL, SHORT1, HALF, STICKY, LATE, ZERO = 1, 2, 3, 4, 5, 6
KINDS = {"open": (FAIL, STICKY), "close": (FAIL, STICKY), "read": (FAIL, SHORT1, HALF, ZERO, STICKY),
         "write": (FAIL, SHORT1, HALF, LATE, ZERO, STICKY), "seek": (FAIL, STICKY), "tell": (FAIL,),
         "flush": (FAIL,), "other": (FAIL,)}
NAMES = {1: "error", 2: "short by one", 3: "half", 4: "error from there on", 5: "lost at close", 6: "nothing done"}


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde, nd, comp in itertools.product(PDES, (1, 2, 3), (False, True)):
        n, p = SHAPES[nd]
        for acc in (2, 4, 6, 8) if th else (2,):
            for nt, S, iv in ([(3, 2, 1), (4, 1, 2), (5, 2, 3), (2, 3, 1)] if th else
                              [(3, 2, 1)] if nd < 3 else [(2, 1, 1)]):
                b = dict(pde=pde, n=n, pml=p, acc=acc, comp=comp, nt=nt, S=S, interval=iv)
                hs = ["fb", "fbb", "chunk"] if nd < 3 or th else ["fb"]
                if pde == "scalar" and (nd < 3 or th):
                    hs.append("second")
                for h in hs:
                    out.append(dict(b, kind="ops", history=h, threads=1))
                    if S > 1 and h in ("fb", "second"):
                        out.append(dict(b, kind="ops", history=h, threads=2))
                for h in ("fb", "second") if pde == "scalar" and nd == 1 else ("fb",):
                    out.append(dict(b, kind="torn", history=h, threads=1))
                    out.append(dict(b, kind="between", history=h, threads=1))
                    out.append(dict(b, kind="descriptors", history=h, threads=1))
    return out


class Shim:
    def __init__(self):
        from deepwave.backend_utils import dll
        self.d = dll
        dll.iof_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]

    def log(self):
        op, idx, size = ctypes.c_int(), ctypes.c_int(), ctypes.c_long()
        b = ctypes.create_string_buffer(64)
        out = []
        for i in range(self.d.iof_count()):
            self.d.iof_entry(i, ctypes.byref(op), b, ctypes.byref(idx), ctypes.byref(size))
            out.append((b.value.decode(), idx.value, OPS[op.value], size.value))
        return out


class History:
    """A fixed disk-backed history; run() returns the results of each phase."""

    def __init__(self, t):
        self.t = t
        self.cfg = cfg = Cfg({k: t[k] for k in ("pde", "n", "pml", "acc")})
        self.nt, self.S = t["nt"], t["S"]
        self.inp = G.setup(cfg, self.S, self.nt, nsrc=1, rmax=3)
        m, amps, slocs, rl, ini = self.inp
        self.lay = G.out_layout(cfg, rl, self.nt)
        self.cot = G.cot_dense(self.lay, self.S, 3.0, cfg.dtype)
        self.cot2 = {(g, k): c for (g, k), c in G.cot_dense(
            [x for x in layout2(m, amps, ini) if x[0] != "model"], self.S, 7.0, cfg.dtype).items()}
        for k, v in m.items():
            self.cot2["model", k] = G.dense(tuple(v.shape), 11.0)

    def extra(self, mode="disk"):
        e = dict(storage_mode=mode, storage_compression=self.t["comp"], storage_path=self.t["_scratch"] + "/store",
                 model_gradient_sampling_interval=self.t["interval"])
        if self.t["history"] == "chunk":
            e.update(forward_callback=lambda s: None, backward_callback=lambda s: None,
                     callback_frequency=max(1, self.t["interval"]))
        return e

    def run(self, mode="disk", phase=lambda i: None):
        """Yields ("what", {key: tensor}) per phase; an exception ends that phase."""
        m, amps, slocs, rl, ini = self.inp
        lv = G.leaves(m, amps, ini, None, lambda x: x.to(self.cfg.dtype))
        mm, aa, ii = G.split(lv)
        out = []
        try:
            phase(0)
            f, rec = call(self.cfg, mm, self.nt, aa, slocs, rl, ii, **self.extra(mode))
        except Exception as e:  # noqa: BLE001
            return [("forward", e)]
        o = G.outs(f, rec)
        out.append(("forward", {k: v.detach().clone() for k, v in o.items()}))
        keys = list(lv)
        ks = [k for k in self.cot if o[k].requires_grad]
        if self.t["history"] == "second":
            cl = {k: self.cot[k].to(self.cfg.dtype).requires_grad_() for k in ks}
            try:
                phase(1)
                g = dict(zip(keys, torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [cl[k] for k in ks],
                                                       create_graph=True, allow_unused=True)))
            except Exception as e:  # noqa: BLE001
                return [*out, ("backward", e)]
            out.append(("backward", {k: v.detach().clone() for k, v in g.items() if v is not None}))
            k2 = [k for k in keys if g[k] is not None and g[k].requires_grad and k in self.cot2]
            try:
                phase(2)
                h = torch.autograd.grad([g[k] for k in k2], [lv[k] for k in keys] + [cl[k] for k in ks],
                                        [self.cot2[k].to(self.cfg.dtype) for k in k2], allow_unused=True)
            except Exception as e:  # noqa: BLE001
                return [*out, ("double backward", e)]
            nm = [("d", k) for k in keys] + [("c", k) for k in ks]
            out.append(("double backward", {k: v for k, v in zip(nm, h) if v is not None}))
            return out
        reps = 3 if self.t["history"] == "fbb" else 1
        for i in range(reps):
            try:
                phase(i + 1)
                g = torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [self.cot[k].to(self.cfg.dtype) for k in ks],
                                        allow_unused=True, retain_graph=i + 1 < reps)
                out.append((f"backward {i + 1}", {k: v for k, v in zip(keys, g) if v is not None}))
            except Exception as e:  # noqa: BLE001
                out.append((f"backward {i + 1}", e))
        return out


class Judge:
    def __init__(self, r, h):
        self.r, self.h = r, h
        self.base = h.run("device")
        want = h.run("disk")
        self.nphases = len(want)
        self.check(want, "no fault", False)

    def check(self, got, what, may_fail=True, expect_raise=False, **d):
        r = self.r
        raised = None
        for (ph, x), (_, w) in zip(got, self.base):
            if isinstance(x, Exception):
                raised = raised or (ph, x)
                if not may_fail:
                    r.violate("spurious", f"{what}: {ph} raised {type(x).__name__}: {x}", task=self.h.t, **d)
                continue
            key = f"{self.h.cfg.pde}:{self.h.cfg.ndim}d:{self.h.t['history']}:{ph}"
            if set(x) != set(w):
                r.violate(key, f"{what}: {ph} returned {sorted(map(str, x))}", **d)
                continue
            sc = {}
            for k in w:
                sc[k] = max(float(w[k].abs().max()), 1e-30)
                r.close(key + f":{k}", x[k], w[k], 1e-9, f"{what}: {ph} returned a wrong {k}", scale=sc[k],
                        cfg=self.h.cfg.d, nt=self.h.nt, **d)
        r.evaluations += 1
        r.traces += 1
        r.states += 1
        r.transitions += len(got)
        r.outcome((self.h.cfg.d, self.h.t["history"], self.h.t["comp"], what,
                   (raised[0], type(raised[1]).__name__) if raised else "recovered or unaffected"))
        n = "raised" if raised else "unaffected"
        r.notes["faults_" + n] = r.notes.get("faults_" + n, 0) + (1 if may_fail else 0)
        return raised

    def after(self, what):
        """A later fault-free propagation is unaffected."""
        self.check(self.h.run("disk"), "fault-free run after " + what, False)


def cleanup(store):
    gc.collect()
    import shutil
    shutil.rmtree(store, ignore_errors=True)


def ops(t, r):
    h = History(t)
    shim = Shim()
    torch.set_num_threads(t["threads"])
    j = Judge(r, h)
    shim.d.iof_reset()
    h.run("disk")
    log = shim.log()
    points = sorted({(b, i, o) for b, i, o, _ in log})
    r.notes["fault_points"] = r.notes.get("fault_points", 0) + len(points)
    r.notes["file_operations"] = r.notes.get("file_operations", 0) + len(log)
    r.sample = {"operations": log[:12]}
    for n, (b, i, o) in enumerate(points):
        for kind in KINDS[o]:
            shim.d.iof_reset()
            shim.d.iof_arm(b.encode(), i, kind, (errno.EIO, errno.ENOSPC, errno.EMFILE)[n % 3])
            got = h.run("disk")
            fired = shim.d.iof_fired()
            shim.d.iof_reset()
            what = f"{o} #{i} of {b}: {NAMES[kind]}"
            if not fired:
                r.notes["faults_not_reached"] = r.notes.get("faults_not_reached", 0) + 1
            j.check(got, what, operation=[b, i, o], fault=NAMES[kind])
            if kind == FAIL and n % 3 == 0 or kind == STICKY and n % 5 == 0:
                j.after(what)
        if r.violations:
            return
    del got
    gc.collect()


def torn(t, r):
    """Every size limit in bytes for the files of the process (kernel-enforced)."""
    h = History(t)
    j = Judge(r, h)
    sizes = []
    h.run("disk", lambda i: sizes.append(max([p.stat().st_size for p in Path(t["_scratch"]).rglob("*.bin")], default=0)))
    top = max(sizes) + 1
    limits = range(top) if top <= 400 else sorted(set(range(0, top, max(1, top // 300))) | set(range(8))
                                                 | set(range(top - 8, top)))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for k in limits:
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            got = h.run("disk")
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        j.check(got, f"files limited to {k} bytes", limit=k)
        if k % 16 == 0:
            j.after(f"files limited to {k} bytes")
        if r.violations:
            return
    r.notes["torn_write_positions"] = r.notes.get("torn_write_positions", 0) + len(limits)


def between(t, r):
    """Every snapshot file truncated to every length, or removed, before each backward pass."""
    h = History(t)
    j = Judge(r, h)
    root = Path(t["_scratch"])
    for ph in range(1, j.nphases):
        seen = []
        h.run("disk", lambda i: seen.extend((p.name, p.stat().st_size) for p in files(root)) if i == ph else None)
        for fi, (name, size) in enumerate(seen):
            step = max(1, size // 60)
            for length in [None, *range(0, size, step), *(range(size - step, size) if step > 1 else ())]:
                def hit(i, fi=fi, length=length):
                    if i == ph:
                        p = files(root)[fi]
                        if length is None:
                            p.unlink()
                        else:
                            os.truncate(p, length)
                what = f"file {fi} " + ("removed" if length is None else f"cut to {length} of {size} bytes") + f" before phase {ph}"
                j.check(h.run("disk", hit), what, file=fi, length=length, phase=ph)
                if length is None or length == 0:
                    j.after(what)
                if r.violations:
                    return
        r.notes["truncated_files"] = r.notes.get("truncated_files", 0) + len(seen)

        def gone(i):
            if i == ph:
                for p in files(root):
                    p.unlink()
                for d in {p for p in root.rglob("*") if p.is_dir()}:
                    try:
                        d.rmdir()
                    except OSError:
                        pass
        j.check(h.run("disk", gone), f"all files removed before phase {ph}")
        j.after("all files removed")


def files(root):
    return sorted((p for p in root.rglob("*") if p.is_file()), key=lambda p: (p.stat().st_ctime_ns, str(p)))


def descriptors(t, r):
    """The process runs out of file descriptors at every possible open."""
    h = History(t)
    j = Judge(r, h)
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    used = max(int(x) for x in os.listdir("/proc/self/fd"))
    for extra in range(0, 14):
        for ph in range(j.nphases):
            def hit(i, ph=ph, extra=extra):
                resource.setrlimit(resource.RLIMIT_NOFILE, (used + extra if i == ph else soft, hard))
            try:
                got = h.run("disk", hit)
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
            what = f"at most {extra} more descriptors in phase {ph}"
            j.check(got, what, extra=extra, phase=ph)
            j.after(what)
    # storage directory cannot be created
    p = Path(t["_scratch"]) / "plain_file"
    p.write_text("x")
    old = h.extra

    def bad(mode="disk"):
        e = old(mode)
        e["storage_path"] = str(p)
        return e
    h.extra = bad
    j.check(h.run("disk"), "storage path is not a directory")
    h.extra = old
    j.after("storage path is not a directory")
    if p.read_text() != "x":
        r.violate("clobbered", "a file in place of the storage directory was changed")


def run(t, r, tier, seed):
    {"ops": ops, "torn": torn, "between": between, "descriptors": descriptors}[t["kind"]](t, r)
