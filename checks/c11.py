"""C11: the native parallel regions under our own scheduler. The library is built with
the compiler's memory-access instrumentation and our OpenMP run time; every access of every
team member is logged, so that the independence of the members (hence the equivalence of
all interleavings) is decided for every region, and every team order, round-robin
interleavings and every single-preemption schedule are executed as well."""
import ctypes
import itertools
import os
import subprocess

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import IGNORE, Cfg, call

LEVEL = "model_checking"
FLAVOUR = "sched"
BUILD = dict(accs=(2, 4))
RULE = "distinct (configuration, team size, schedule) triples executed"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x every subset of models differentiated x every subset of models given per shot x "
             "storage (device, cpu, disk, compressed, disk compressed) x 2-3 shots x teams of 2-3 (every member order, "
             "round robin with 1 and 13 accesses per slice; race monitor on every access) x sampling 1-2; every single-"
             "preemption schedule of 1-D histories",
    "thorough": "as quick with full products in 3-D, 4 shots, teams up to 4, single precision, accuracy 4, all single "
                "preemptions in 2-D",
}
ASSUMPTIONS = ["instrumentation is the compiler's (-fsanitize=thread, gcc -O0); registers and a member's own stack are "
               "private; file contents are compared through the results",
               "absence of conflicting accesses between the members of a team makes all its interleavings one "
               "Mazurkiewicz trace, so one execution per team size and configuration decides them all"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
SHAPES = {1: ([4], [1, 1]), 2: ([3, 4], [0, 1, 1, 0]), 3: ([3, 2, 3], [0, 0, 1, 0, 0, 1])}
NM = {"scalar": 1, "scalar_born": 2, "acoustic": 2, "elastic": 3}
STORE = [("device", False), ("cpu", False), ("disk", False), ("device", True), ("disk", True), ("none", False)]
COMBINED = compose.plan(compose.teams, quick=dict(t=2, salt=5), acc=2, size="small")


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde in PDES:
        M = NM[pde]
        subs = list(itertools.product([0, 1], repeat=M))
        for nd in (1, 2, 3):
            n, p = SHAPES[nd]
            for gi, g in enumerate(subs):
                for bi, b in enumerate(subs):
                    full = th or nd < 3
                    if not full and not (sum(g) in (0, M) or sum(b) in (0, M)):
                        continue
                    d = dict(pde=pde, n=n, pml=p, acc=2, grads=g, batched=b)
                    sts = STORE if (th or sum(g) == M and nd < 3) else [STORE[(gi + bi) % 5]]
                    for st in sts:
                        teams = [(2, 2), (3, 2), (3, 3)] if nd < 3 or th else [(2, 2), (3, 2)]
                        if th:
                            teams += [(4, 3), (4, 4)]
                        for dt, acc in ([("double", 2), ("float", 2), ("double", 4)] if th else
                                        [("float" if (gi + bi) % 5 == 4 else "double", 2)]):
                            out.append(dict(d, kind="teams", store=st, dtype=dt, acc=acc, teams=teams,
                                            interval=1 + (gi + bi) % 2))
        # every single preemption, forward and backward
        parts = 8
        for st, b in (((("device", True), 0), (("disk", False), 1)) if not th else
                      [(s, x) for s in STORE[:5] for x in (0, 1)]):
            for part in range(parts):
                out.append(dict(pde=pde, n=[2], pml=[1, 0], acc=2, kind="preempt", store=st, dtype="double",
                                grads=[1] * M, batched=[b] * M, interval=1, nt=2 if th else 1, part=part, parts=parts))
            if th:
                for part in range(parts):
                    out.append(dict(pde=pde, n=[2, 2], pml=[0, 0, 1, 0], acc=2, kind="preempt", store=st,
                                    dtype="double", grads=[1] * M, batched=[b] * M, interval=1, nt=1, part=part,
                                    parts=parts))
    return out


class Sched:
    def __init__(self):
        from deepwave.backend_utils import dll, USE_OPENMP
        assert USE_OPENMP
        self.d = dll
        dll.sched_reset.argtypes = [ctypes.c_void_p, ctypes.c_ulonglong, ctypes.c_int, ctypes.c_ulonglong,
                                    ctypes.c_int, ctypes.c_int]
        dll.sched_region_accesses.restype = ctypes.c_ulonglong
        self.path = dll._name

    def reset(self, order=(), quantum=0, pre=(-1, 0, -1), log=0):
        o = list(order) + [i for i in range(8) if i not in order]
        a = (ctypes.c_int * 8)(*o)
        self.d.sched_reset(a, quantum, pre[0], pre[1], pre[2], log)

    def stats(self):
        a = (ctypes.c_ulonglong * 6)()
        self.d.sched_stats(a)
        return dict(zip(("regions", "accesses", "granules", "switches", "barriers", "races"), a))

    def races(self):
        out, a = [], (ctypes.c_ulonglong * 7)()
        i = 0
        while self.d.sched_race(i, a):
            out.append(dict(address=hex(a[0]), where=self.line(a[1]), other=self.line(a[2]), members=(a[3], a[4]),
                            kind="write" if a[5] else "read", region=int(a[6])))
            i += 1
        return out

    def line(self, pc):
        try:
            o = subprocess.run(["addr2line", "-e", self.path, hex(pc - 1)], capture_output=True, text=True, timeout=60)
            return os.path.basename(o.stdout.strip()) or hex(pc)
        except Exception:  # noqa: BLE001
            return hex(pc)


def setup(cfg, t, S, nt):
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, nsrc=2, rmax=4)
    full = cfg.models(batch=S)
    m = {k: (full[k] if b else full[k][0]) for (k, b) in zip(m, t["batched"])}
    for d in (slocs, rl):  # every shot its own locations; one ignored source and receiver
        for k in d:
            x = d[k].clone()
            kind = {"bg": ""}.get(k, k)
            loc = cfg.all_locs(kind)
            L = len(loc)
            for s in range(S):
                idx = [(int((loc == y).all(1).nonzero()[0, 0]) + s) % L for y in x[s]]
                x[s] = loc[idx]
            if x.shape[1] > 1:
                x[0, -1] = IGNORE
            d[k] = x
    return m, amps, slocs, rl, ini


def once(cfg, t, inp, cot, want, nt):
    m, amps, slocs, rl, ini = inp
    lv = G.leaves(m, amps, ini, want, lambda x: x.to(cfg.dtype))
    mm, aa, ii = G.split(lv)
    mode, comp = t["store"]
    f, rec = call(cfg, mm, nt, aa, slocs, rl, ii, storage_mode=mode, storage_compression=comp,
                  storage_path=t["_scratch"] + "/s", model_gradient_sampling_interval=t["interval"])
    o = G.outs(f, rec)
    res = {("out", *k): v.detach().clone() for k, v in o.items()}
    keys = [k for k in lv if k in want]
    if t["store"][0] == "none":
        return res
    ks = [k for k in cot if o[k].requires_grad]
    if keys and ks:
        g = torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [cot[k].to(cfg.dtype) for k in ks],
                                allow_unused=True)
        res.update({("grad", *k): x for k, x in zip(keys, g) if x is not None})
    return res


def same(r, key, got, ref, what, shared=(), tol=0.0, **detail):
    if set(got) != set(ref):
        r.violate(key, f"{what}: results {sorted(set(got) ^ set(ref))} missing", **detail)
        return
    for k in ref:
        if k in shared and tol:
            r.close(key, got[k], ref[k], tol, f"{what}: {k}", **detail)
        elif not torch.equal(got[k], ref[k]):
            i = (got[k] != ref[k]).nonzero()
            r.violate(key, f"{what}: {k} differs in {len(i)} of {got[k].numel()} entries"
                           + (f", first at {i[0].tolist()}" if len(i) else " (NaN)"), **detail)


def run(t, r, tier, seed):
    cfg = Cfg({k: t[k] for k in ("pde", "n", "pml", "acc", "dtype")})
    sc = Sched()
    nt = t.get("nt", 3)
    names = list(cfg.models())
    shared = {("grad", "model", k) for k, b in zip(names, t["batched"]) if not b}
    tol = 1e-12 if t["dtype"] == "double" else 2e-5
    teams = t["teams"] if t["kind"] == "teams" else [(2, 2)]
    for S, T in teams:
        inp = setup(cfg, t, S, nt)
        m, amps, slocs, rl, ini = inp
        lay = G.out_layout(cfg, rl, nt)
        cot = G.cot_dense(lay, S, 3.0, cfg.dtype)
        want = {("model", k) for k, g in zip(names, t["grads"]) if g}
        if t["store"][0] != "none" or not want:
            want |= {("amp", k) for k in amps} | {("init", k) for k in ini}
        go = lambda: once(cfg, t, inp, cot, want, nt)  # noqa: E731
        torch.set_num_threads(1)
        sc.reset()
        base = go()
        torch.set_num_threads(T)
        sc.reset(range(T), log=1)
        first = go()
        st = sc.stats()
        r.evaluations += 2
        r.states += st["granules"]
        r.transitions += st["accesses"]
        for k in ("regions", "barriers"):
            r.notes[k] = r.notes.get(k, 0) + st[k]
        for x in sc.races():
            r.violate("race", f"members {x['members']} of a team of {T} ({S} shots): {x['kind']} at {x['where']} conflicts "
                              f"with an unordered access at {x['other']}", **x)
        same(r, "threads", first, base, f"{T} threads instead of 1 ({S} shots)", shared, tol)
        R = st["regions"]
        per = {(g, i): sc.d.sched_region_accesses(g, i) for g in range(R) for i in range(T)}
        if t["kind"] == "teams":
            scheds = [dict(order=o) for o in itertools.permutations(range(T))][1:]
            scheds += [dict(order=range(T), quantum=13), dict(order=list(reversed(range(T))),
                                                              quantum=1 if len(t["n"]) < 3 else 101)]
        else:
            allp = [dict(order=[i, 1 - i], pre=(i, j, g)) for (g, i), c in sorted(per.items())
                    for j in range(1, c + 1)]
            r.notes["preemption points"] = r.notes.get("preemption points", 0) + len(allp)
            scheds = allp[t["part"]::t["parts"]]
        for s in scheds:
            sc.reset(**s)
            got = go()
            st = sc.stats()
            r.evaluations += 1
            r.traces += 1
            r.outcome((S, T, str(s), t["kind"], str({k: v for k, v in t.items() if k != "_scratch"})))
            r.notes["switches"] = r.notes.get("switches", 0) + st["switches"]
            same(r, "schedule", got, first, f"{S} shots, team of {T}, schedule {s}", order=str(s))
            if r.violations:
                return
