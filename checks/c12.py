"""C12: the native library built with the address sanitizer, every allocation of the
process filled with a chosen byte. Every small configuration that the Python interface
accepts is run forward, backward and (scalar) double backward under two fill bytes: no
sanitizer report, no crash, and bitwise the same finite results."""
import ctypes
import itertools
import os
import subprocess

import torch

from checks.c05 import layout2
from vlib import compose
from vlib import grad as G
from vlib.impl import IGNORE, Cfg, call, dense

LEVEL = "model_checking"
FLAVOUR = "asan"
RULE = "distinct (configuration, accepted or kind of rejection) pairs"
BOUNDS = {
    "quick": "4 propagators; shapes: every 1-D size 1-4 and block boundaries (8, 9, 16, 17) x every pair of layer widths "
             "0-2 and wider than the stencil x 4 accuracies x 0-3 steps, every 2-D size in {1,2,3}^2 (and 8, 9) x 16 "
             "one-sided layer patterns, 3-D sizes in {1,2}^3 x 12 patterns; storage (5 modes) x sampling 1-5 x steps 0-4 x "
             "chunking; every number of sources and receivers 0-2 per kind, ignored and absent ones; shots 1-3 x shared "
             "or per-shot models x threads; survey padding and extents; resampled, tapered and padded amplitudes; partial "
             "initial fields; two fill patterns",
    "thorough": "as quick with all layer width pairs to 5 in 1-D, all 2-D sizes to 4, 27 3-D sizes x 64 patterns, both "
                "precisions everywhere",
}
ASSUMPTIONS = ["overruns into another valid tensor of the same allocation are not visible to the sanitizer (values are "
               "compared with the reference equations by C01-C06)",
               "freed or fresh blocks above 64 KiB are not refilled (no configuration here allocates one)"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
STORE = [("device", False), ("disk", True), ("cpu", True), ("disk", False), ("device", True), ("none", False)]


def crash_detail(pid):
    p = os.path.join(os.environ["VERIF_SCRATCH"], f"asan.{pid}")
    try:
        with open(p) as f:
            lines = f.read().splitlines()
        return "| " + " | ".join(x.strip() for x in lines if "ERROR" in x or x.strip().startswith("#"))[:900]
    except OSError:
        return ""


def reexec(stage):
    lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    env = dict(os.environ, VERIF_ASAN=str(stage), LD_PRELOAD=lib, PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:symbolize=1:fast_unwind_on_malloc=1:"
                            "malloc_context_size=2:quarantine_size_mb=16:allocator_may_return_null=1:log_path="
                            + os.path.join(os.environ["VERIF_SCRATCH"], "asan"))
    code = ("import sys,json,os,time;sys.path[:0]=[os.environ['VERIF_ASAN'],%r];import warnings;warnings.simplefilter('ignore');"
            "import importlib,torch;torch.set_num_threads(1);import deepwave;from vlib import core;"
            "mod=importlib.import_module('checks.c12');a=json.loads(sys.argv[1]);"
            "sys.exit(core._explore(*a[:1],mod,*a[1:]))" % str(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    return code, env
COMBINED = compose.plan(compose.memory, quick=dict(t=2, salt=6))


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pi, pde in enumerate(PDES):
        # shapes
        for acc in (2, 4, 6, 8):
            for n in (1, 2, 3, 4, 8, 9, 16, 17):
                out.append(dict(kind="shape1", pde=pde, acc=acc, n=n, widths=[0, 1, 2, 3, 4, 5] if th else [0, 1, acc // 2 + 2],
                                nts=[0, 1, 2, 3] if th or n < 5 else [2]))
            ns = [1, 2, 3, 4] if th else [1, 2, 3]
            for n in itertools.product(ns, ns):
                if th or acc in (2, 8) and sum(n) % 2 == (acc == 2) or acc == 4:
                    out.append(dict(kind="shape2", pde=pde, acc=acc, n=n, ws=[1, 3] if th else [1 + sum(n) % 3]))
            for n in [(8, 3), (3, 9), (9, 9)] if th else [(9, 3), (3, 8)]:
                out.append(dict(kind="shape2", pde=pde, acc=acc, n=n, ws=[2]))
            for n in itertools.product([1, 2, 3] if th else [1, 2], repeat=3):
                if th or (sum(n) + acc // 2) % 2:
                    out.append(dict(kind="shape3", pde=pde, acc=acc, n=n, all=th))
        for nd in (1, 2, 3):
            out.append(dict(kind="store", pde=pde, nd=nd, acc=4 if nd < 3 else 2, full=th))
            out.append(dict(kind="counts", pde=pde, nd=nd, acc=2, full=th))
            out.append(dict(kind="shots", pde=pde, nd=nd, acc=2, full=th))
            out.append(dict(kind="survey", pde=pde, nd=nd, acc=4 if nd < 3 else 2, full=th))
            out.append(dict(kind="signal", pde=pde, nd=nd, acc=2, full=th))
            out.append(dict(kind="fields", pde=pde, nd=nd, acc=4 if nd < 3 else 2, full=th))
    out.sort(key=lambda d: {"counts": 0, "shots": 1, "store": 2, "signal": 3, "survey": 3}.get(d["kind"], 9))
    return out


class Runner:
    def __init__(self, r, t):
        from deepwave.backend_utils import dll
        self.r, self.t, self.dll = r, t, dll
        assert dll.fill_install() >= 0
        self.k = 0

    def go(self, cfg, nt, S=1, batched=None, store=("device", False), interval=1, nsrc=2, rmax=3, skinds=None, rkinds=None,
           fields=None, second=False, edit=None, **extra):
        """Both fill patterns; compares."""
        r = self.r
        d = dict(cfg=cfg.d, nt=nt, S=S, batched=batched, store=store, interval=interval, nsrc=nsrc, rmax=rmax,
                 skinds=skinds, rkinds=rkinds, fields=fields, second=second, extra={k: str(v) for k, v in extra.items()})
        self.k += 1
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, nsrc=max(nsrc, 1), rmax=rmax)
        if batched:
            full = cfg.models(batch=S)
            m = {k: (full[k] if b else full[k][0]) for k, b in zip(m, batched)}
        if nsrc == 0:
            slocs, amps = {}, {}
        if skinds is not None:
            slocs = {k: v for k, v in slocs.items() if k in skinds}
            amps = {k: v for k, v in amps.items() if k in skinds}
        if rkinds is not None:
            rl = {k: v for k, v in rl.items() if k in rkinds}
        if fields is not None:
            ini = {k: v for k, v in ini.items() if k in fields}
        if edit:
            m, amps, slocs, rl, ini = edit(m, amps, slocs, rl, ini)
        mode, comp = store
        extra = dict(extra, storage_mode=mode, storage_compression=comp, storage_path=self.t["_scratch"] + "/s",
                     model_gradient_sampling_interval=interval)
        res = []
        for b in (0xFF, 0x3F):
            self.dll.fill_set(b)
            try:
                res.append(self.once(cfg, nt, S, m, amps, slocs, rl, ini, mode, second, extra))
            except Exception as e:  # noqa: BLE001
                res.append(e)
            finally:
                self.dll.fill_set(-1)
            r.evaluations += 1
        a, b = res
        r.states += 1
        r.transitions += 2 * nt * S
        r.traces += 1
        if isinstance(a, Exception) or isinstance(b, Exception):
            if type(a) is not type(b):
                r.violate("unset", f"outcome depends on unset memory: {a!r:.200} / {b!r:.200}", **d)
                return
            r.outcome((str(d), type(a).__name__))
            r.notes["rejected"] = r.notes.get("rejected", 0) + 1
            k = "rejected: " + str(a)[:60]
            if os.environ.get("C12_SHOW"):
                r.notes[k] = r.notes.get(k, 0) + 1
            return
        r.outcome((str(d), "accepted"))
        r.notes["accepted"] = r.notes.get("accepted", 0) + 1
        if set(a) != set(b):
            r.violate("unset", f"set of results depends on unset memory: {sorted(map(str, set(a) ^ set(b)))}", **d)
            return
        for k in a:
            if not torch.isfinite(a[k]).all():
                r.violate("nan", f"{k} is not finite when fresh memory is filled with NaN", **d)
                return
            if not torch.equal(a[k], b[k]):
                r.violate("unset", f"{k} depends on the contents of fresh memory", **d)
                return

    def once(self, cfg, nt, S, m, amps, slocs, rl, ini, mode, second, extra):
        lv = G.leaves(m, amps, ini, None, lambda x: x.to(cfg.dtype))
        mm, aa, ii = G.split(lv)
        f, rec = call(cfg, mm, nt, aa, slocs, rl, ii, **extra)
        o = G.outs(f, rec)
        res = {("out", *k): v.detach().clone() for k, v in o.items()}
        if mode == "none":
            return res
        ks = [k for k in o if o[k].requires_grad and o[k].numel()]
        if not ks:
            return res
        cot = {k: dense(tuple(o[k].shape), i + 3.0).to(cfg.dtype) for i, k in enumerate(ks)}
        keys = list(lv)
        if second:
            cot = {k: v.requires_grad_() for k, v in cot.items()}
        g = torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [cot[k] for k in ks], allow_unused=True,
                                create_graph=second)
        res.update({("grad", *k): x.detach().clone() for k, x in zip(keys, g) if x is not None})
        if second:
            k2 = [(k, x) for k, x in zip(keys, g) if x is not None and x.requires_grad]
            h = torch.autograd.grad([x for _, x in k2], [lv[k] for k in keys] + [cot[k] for k in ks],
                                    [dense(tuple(x.shape), i + 9.0).to(cfg.dtype) for i, (_, x) in enumerate(k2)],
                                    allow_unused=True)
            res.update({("second", i): x for i, x in enumerate(h) if x is not None})
        return res


def base(t, nd):
    n, p = {1: ([5], [1, 2]), 2: ([3, 4], [0, 1, 2, 0]), 3: ([3, 2, 3], [0, 0, 1, 0, 0, 1])}[nd]
    return Cfg(dict(pde=t["pde"], n=n, pml=p, acc=t["acc"], dtype=t.get("dtype", "double")))


def run(t, r, tier, seed):
    R = Runner(r, t)
    pde = t["pde"]
    sec = pde == "scalar"
    M = {"scalar": 1, "scalar_born": 2, "acoustic": 2, "elastic": 3}[pde]
    th = tier == "thorough"
    i = 0
    if t["kind"] == "shape1":
        for p in itertools.product(t["widths"], repeat=2):
            for nt in t["nts"]:
                for dt in ("double", "float") if th else ("double" if i % 3 else "float",):
                    cfg = Cfg(dict(pde=pde, n=[t["n"]], pml=p, acc=t["acc"], dtype=dt))
                    R.go(cfg, nt, store=STORE[i % 5], second=sec and i % 2 == 0)
                    i += 1
    elif t["kind"] == "shape2":
        for p in itertools.product([0, 1], repeat=4):
            for w in t["ws"]:
                for dt in ("double", "float") if th else ("double" if i % 3 else "float",):
                    cfg = Cfg(dict(pde=pde, n=t["n"], pml=[w * x for x in p], acc=t["acc"], dtype=dt))
                    R.go(cfg, 2, store=STORE[i % 5], second=sec and i % 2 == 0)
                    i += 1
    elif t["kind"] == "shape3":
        ps = [p for p in itertools.product([0, 1], repeat=6) if t["all"] or sum(p) in (0, 1, 6)
              or p in ((0, 1, 0, 1, 0, 1), (1, 0, 1, 0, 1, 0), (1, 1, 0, 0, 1, 0), (0, 0, 1, 1, 0, 1))]
        for p in ps:
            cfg = Cfg(dict(pde=pde, n=t["n"], pml=p, acc=t["acc"], dtype="double" if i % 3 else "float"))
            R.go(cfg, 2, store=STORE[i % 5], second=sec and i % 2 == 0)
            i += 1
    elif t["kind"] == "store":
        cfg = base(t, t["nd"])
        for st in STORE:
            for iv in (1, 2, 3, 5):
                for nt in range(5) if t["nd"] < 3 or th else (0, 1, 3):
                    for cb in (None, 1, 2, 4):
                        if cb and (not th and (iv + nt + cb) % 2):
                            continue
                        ex = dict(forward_callback=lambda s: None, backward_callback=lambda s: None,
                                  callback_frequency=cb) if cb else {}
                        R.go(cfg, nt, S=2, store=st, interval=iv, second=sec and not cb and iv < 3, **ex)
        if th:
            cfg = Cfg(dict(cfg.d, dtype="float"))
            for st in STORE:
                for nt in range(5):
                    R.go(cfg, nt, S=2, store=st, interval=2)
    elif t["kind"] == "counts":
        cfg = base(t, t["nd"])
        sk, rk = cfg.skinds(), cfg.rkinds()
        for a in itertools.product([0, 1], repeat=len(sk)):
            for b in itertools.product([0, 1], repeat=len(rk)):
                if t["nd"] == 3 and not th and sum(a) not in (0, 1, len(sk)) and sum(b) not in (0, 1, len(rk)):
                    continue
                for ns in (1, 2):
                    R.go(cfg, 2, S=2 if i % 2 else 1, nsrc=ns, rmax=3 - ns, skinds=[k for k, x in zip(sk, a) if x],
                         rkinds=[k for k, x in zip(rk, b) if x], store=STORE[i % 5], second=sec and i % 3 == 0)
                    i += 1
        ign = lambda d: {k: torch.full_like(v, IGNORE) for k, v in d.items()}  # noqa: E731
        zero = lambda d: {k: v[:, :0] for k, v in d.items()}  # noqa: E731
        for st in STORE[:5]:
            R.go(cfg, 2, store=st, edit=lambda m, a, s, q, x: (m, a, ign(s), q, x))
            R.go(cfg, 2, store=st, edit=lambda m, a, s, q, x: (m, a, s, ign(q), x))
            R.go(cfg, 2, store=st, edit=lambda m, a, s, q, x: (m, a, ign(s), ign(q), {}))
            R.go(cfg, 2, store=st, edit=lambda m, a, s, q, x: (m, zero(a), zero(s), q, x))
            R.go(cfg, 2, store=st, edit=lambda m, a, s, q, x: (m, a, s, zero(q), x))
            R.go(cfg, 2, store=st, edit=lambda m, a, s, q, x: (m, {k: v[..., :0] for k, v in a.items()}, s, q, x))

            def some(m, a, s, q, x):
                for d in (s, q):
                    for k in d:
                        d[k] = d[k].clone()
                        d[k][0, 0] = IGNORE
                return m, a, s, q, x
            R.go(cfg, 2, S=2, store=st, edit=some, second=sec)
    elif t["kind"] == "shots":
        cfg = base(t, t["nd"])
        for S in (1, 2, 3):
            for b in itertools.product([0, 1], repeat=M):
                for T in (1, 2, 3):
                    if T > S:
                        continue
                    torch.set_num_threads(T)
                    R.go(cfg, 3 if t["nd"] < 3 else 2, S=S, batched=b, store=STORE[i % 5], interval=1 + i % 2,
                         second=sec and i % 2 == 0)
                    i += 1
        torch.set_num_threads(1)
    elif t["kind"] == "survey":
        cfg = base(t, t["nd"])
        pads = [0, 1, None]
        combos = itertools.product(pads, repeat=2 * t["nd"])
        if t["nd"] == 3 and not th:
            combos = [c for c in combos if sum(x is None for x in c) in (0, 5, 6)]
        for c in combos:
            R.go(cfg, 2, nsrc=1, rmax=1, fields=[], survey_pad=list(c), store=STORE[i % 5], second=sec and i % 2 == 0)
            i += 1
        for o in itertools.product(range(2), repeat=t["nd"]):
            for s in itertools.product((1, 2), repeat=t["nd"]):
                def cut(m, a, sl, q, x, o=o, s=s):
                    n = [k + cfg.pml[2 * j] + cfg.pml[2 * j + 1] for j, k in enumerate(s)]
                    x = {k: dense((1, *n), 3.0 + j) for j, k in enumerate(x)}
                    lo = torch.tensor(o)
                    return m, {k: v[:, :1] for k, v in a.items()}, {k: lo.reshape(1, 1, -1) for k in sl}, \
                        {k: lo.reshape(1, 1, -1) for k in q}, x
                R.go(cfg, 2, edit=cut, origin=list(o), store=STORE[i % 5])
                i += 1
    elif t["kind"] == "signal":
        for ratio in (1, 2, 3):
            cfg = base(t, t["nd"])
            cfg = Cfg(dict(cfg.d, dt=cfg.dt * (ratio - 0.05)))
            for nt in (0, 1, 2, 3, 5):
                for ft, tp in ((0.0, 0.0), (0.25, 0.0), (0.0, 0.5), (1.0, 1.0)):
                    R.go(cfg, nt, store=STORE[i % 5], freq_taper_frac=ft, time_pad_frac=tp, time_taper=bool(i % 2),
                         second=sec and i % 3 == 0, interval=1 + i % 3)
                    i += 1
    elif t["kind"] == "fields":
        cfg = base(t, t["nd"])
        names = list(cfg.names())
        subs = [[]] + [[k] for k in names] + [[k for k in names if k != x] for x in names]
        for sub in subs:
            for nt in (0, 2):
                R.go(cfg, nt, fields=sub, store=STORE[i % 5], nsrc=i % 2, second=sec and i % 2 == 0)
                i += 1
        for keep in ([], names):  # no sources, no receivers
            for nt in (0, 1, 2):
                R.go(cfg, nt, S=2, fields=keep, skinds=[], rkinds=[], store=STORE[i % 5])
                i += 1
