"""C19: the transition operator of the real propagators at the largest admissible time
step is built exactly (every basis state of the full state space is one shot), and its
powers up to 2^22 (2^12 with layers) are examined by repeated squaring: every state, over
every horizon, stays bounded; pulses leave through wide layers."""
import itertools
import math

import torch

from vlib import ref as R
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct (configuration, power-norm profile) digests"
BOUNDS = {
    "quick": "4 propagators, 4 accuracies; 1-D grids to 14 cells, 2-D to 6x7, 3-D to 4x3x3 with no, partial and full "
             "layers; spacing ratios 1, 4 and 20; 8 kinds of model (uniform, irregular, high contrasts, checkerboard, isolated "
             "cells, fluid cells, empty cells, shear waves faster than pressure waves); time step exactly at the bound and 1.3, 1.45, 1.6, 1.9, 2.4 and 10.3 times it (internally divided), "
             "automatic and explicit maximum velocity, forward and backward in time; horizons 2^0..2^22 steps (2^12 with layers); boundary "
             "frequency 0 to 5 x Nyquist",
    "thorough": "as quick on larger grids and with all layer patterns",
}
ASSUMPTIONS = ["the step is linear and time invariant (C01), so the matrix describes every state and horizon"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
RATE = 2e-3  # known late-time growth of thin or strongly heterogeneous layers, per step
MODELS = ("uniform", "irregular", "contrast", "checker", "isolated", "fluid", "empty", "shear")


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde, acc in itertools.product(PDES, (2, 4, 6, 8)):
        for mod in MODELS:
            if mod in ("fluid", "shear") and pde != "elastic":
                continue
            for nd in (1, 2, 3):
                if nd == 3 and (acc in (4, 6) or mod in ("uniform", "empty")) and not th:
                    continue
                n = [[12], [5, 6], [3, 3, 3]][nd - 1]
                if th:
                    n = [[25], [7, 8], [4, 4, 3]][nd - 1]
                pats = [[0] * (2 * nd)]
                if nd == 1:
                    pats += [[3, 4], [5, 0]]
                elif nd == 2:
                    pats += [[2, 2, 3, 2]] + ([[0, 2, 0, 0]] if acc == 4 or th else [])
                    if th:
                        pats += [list(p) for p in itertools.product((0, 2), repeat=4)]
                elif acc == 2 or th:
                    pats += [[0, 2, 0, 0, 0, 0]] if pde == "elastic" and not th else [[2, 0, 0, 2, 0, 0]]
                for p in pats:
                    if any(p) and nd > 1 and mod in ("checker", "isolated", "contrast", "shear"):
                        continue
                    out.append(dict(pde=pde, acc=acc, n=n, pml=p, model=mod, kind="power", full=th))
    for pde in PDES:
        for sign in (1, -1):
            out.append(dict(pde=pde, acc=4, n=[40], pml=[20, 20], kind="absorb", sign=sign))
            out.append(dict(pde=pde, acc=4, n=[16, 18], pml=[20] * 4, kind="absorb", sign=sign))
        for n, p in (([12], [3, 4]), ([4, 5], [6, 6, 5, 7]), ([3, 3, 3], [0] * 6)):
            out.append(dict(pde=pde, acc=2, n=n, pml=p, kind="long", dtype="float"))
            out.append(dict(pde=pde, acc=4, n=n, pml=p, kind="long", dtype="double"))
    return out


def make(pde, kind, sh):
    """Model values with maximum wave speed exactly 2."""
    idx = torch.stack(torch.meshgrid(*[torch.arange(x) for x in sh], indexing="ij")).sum(0)
    par = (idx % 2).to(F64)
    x = dense(sh, 1.0, 0.0, 1.0)
    iso = torch.zeros(sh, dtype=F64)
    iso.reshape(-1)[iso.numel() // 2] = 1
    if kind == "uniform":
        v, rho, nu = torch.full(sh, 2.0, dtype=F64), torch.ones(sh, dtype=F64), torch.full(sh, 0.5, dtype=F64)
    elif kind == "irregular":
        v, rho, nu = 1 + x, 0.5 + dense(sh, 2.0, 0.0, 2.0), dense(sh, 3.0, 0.05, 0.7)
    elif kind == "contrast":
        v = torch.where(x > 0.5, 2.0, 0.02)
        rho = torch.where(dense(sh, 2.0, 0, 1) > 0.5, 3.0, 0.3)
        nu = torch.where(dense(sh, 3.0, 0, 1) > 0.5, 0.7, 0.01)
    elif kind == "checker":
        v, rho, nu = torch.full(sh, 2.0, dtype=F64), torch.where(par > 0, 4.0, 0.4), torch.where(par > 0, 0.7, 0.001)
    elif kind == "isolated":
        v, rho, nu = 0.1 + 1.9 * iso, torch.where(iso > 0, 0.5, 5.0), torch.where(iso > 0, 0.7, 0.1)
    elif kind == "shear":  # shear waves faster than pressure waves
        v, rho, nu = torch.full(sh, 0.8, dtype=F64), torch.ones(sh, dtype=F64), torch.full(sh, 2.5, dtype=F64)
    elif kind == "fluid":
        v, rho, nu = 1 + x, 0.5 + x, torch.where(par > 0, 0.6, 0.0)
    else:  # cells without material
        v, rho, nu = torch.where(x > 0.7, 0.0, 2.0), torch.where(x > 0.7, 0.0, 1.0), torch.full(sh, 0.5, dtype=F64)
    v = v * (2.0 / (v * nu.clamp(min=1) if kind == "shear" else v).max())
    if pde == "scalar":
        return {"v": v}
    if pde == "scalar_born":
        return {"v": v, "scatter": dense(sh, 4.0)}
    if pde == "acoustic":
        return {"v": v, "rho": rho}
    # vp = v, vs = nu * v
    buo = torch.where(rho > 0, 1 / rho.clamp(min=1e-12), torch.zeros_like(rho))
    mu = rho * (nu * v) ** 2
    return {"lamb": rho * v**2 - 2 * mu, "mu": mu, "buoyancy": buo}


def matrix(cfg, m, r, **extra):
    """One user step as a matrix over all cells of all fields that can be non-zero."""
    # Born: the scattered field responds (possibly resonantly) to the background with the
    # background's own operator, whose coupling is C16's, so only the background is taken.
    names = [k for k in cfg.names() if "_sc_" not in k]
    rf = cfg.ref()
    cells = math.prod(cfg.n)
    idx = [(k, j) for k in names for j in rf.mask(k).reshape(-1).nonzero().flatten().tolist()]
    N = len(idx)
    ini = {k: torch.zeros(N, cells, dtype=F64) for k in names}
    for q, (k, j) in enumerate(idx):
        ini[k][q, j] = 1
    f, _ = call(cfg, m, 1, {}, {}, {}, {k: v.reshape(N, *cfg.n) for k, v in ini.items()}, **extra)
    f = {k: f[k].to(F64).reshape(N, cells) for k in names}
    r.states += N
    r.transitions += N
    r.evaluations += 1
    r.traces += N
    return torch.stack([f[k][:, j] for k, j in idx])


def power(t, r):
    d = {k: t[k] for k in ("pde", "n", "pml", "acc")}
    nd = len(t["n"])
    layers = any(t["pml"])
    # very unequal spacings only without layers, and every layer at least 2 cells wide
    hs = [[1.0] * nd, [1.0, 2.0 if layers else 4.0, 2.0][:nd]] + ([] if layers else [[20.0, 1.0, 3.0][:nd]])
    n_of = lambda p: tuple(t["n"])  # noqa: E731
    variants = []
    for hi, h in enumerate(hs):
        if nd == 1 and hi:
            continue
        if nd == 3 and hi == 1 and not t["full"]:
            continue
        cfl = 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / 2.0
        variants.append((h, cfl * (1 - 1e-12), None, 0.3))
        if hi == 0:
            for f in (1.3, 1.45, 1.6, 1.9, 2.4, 10.3) if not layers and nd < 3 or t["model"] == "uniform" else (10.3,):
                variants.append((h, cfl * f, None, 0.3))
            variants.append((h, -cfl * (1 - 1e-12), 2.0, 0.3))
            if layers and nd == 1:
                for pf in (0.0, 1e-6, 0.05, 0.5 / cfl, 2.5 / cfl):
                    variants.append((h, cfl * (1 - 1e-12), 2.0, pf))
    if nd == 3 and layers:
        variants = variants[:1]
    for h, dt, mv, pf in variants:
        cfg = Cfg(dict(d, h=h, dt=dt, pml_freq=pf))
        m = make(t["pde"], t["model"], n_of(cfg))
        # equilibrate units so that norms compare like with like
        M = matrix(cfg, m, r, max_vel=mv)
        what = dict(cfg=cfg.d, model=t["model"], max_vel=mv)
        key = f"{t['pde']}:{nd}d"
        if not torch.isfinite(M).all():
            r.violate(key + ":nonfinite", "one step from a unit state gives a non-finite value", **what)
            continue
        P, norms = M, []
        top = 12 if layers else 22
        for j in range(top + 1):
            norms.append(float(torch.linalg.matrix_norm(P)))
            if not math.isfinite(norms[-1]) or norms[-1] > 1e60:
                break
            P = P @ P
        # Bounded without layers; at most the linear drift of static states where material
        # has no stiffness, and inside layers (see DESIGN.md for their known slow growth).
        drift = layers or t["model"] in ("fluid", "empty")
        mark = 6 if layers else 14
        early = max(norms[:mark + 1])
        ratio = math.ceil(abs(dt) / (0.6 / math.sqrt(sum(1 / x**2 for x in h)) / 2.0))
        lim = [2 * early if not drift else 4 * early * 2.0 ** max(j - mark, 0) for j in range(top + 1)]
        if layers:
            lim = [x * math.exp(RATE * ratio * 2.0**j) for j, x in enumerate(lim)]
        if len(norms) <= top or not all(x <= y for x, y in zip(norms, lim)):
            r.violate(key + ":unstable", f"the step operator is not power bounded: norm of its powers 2^0.. = "
                      f"{[float(f'{x:.3g}') for x in norms]}", **what)
            continue
        r.outcome([cfg.d, t["model"]] + [round(math.log10(x + 1e-300), 3) for x in norms[:12]])
    r.sample = {"norms": norms}


def absorb(t, r):
    """Smooth pulses of every position are gone after crossing the layers."""
    h = [1.0] * len(t["n"])
    cfg = Cfg(dict(pde=t["pde"], n=t["n"], pml=t["pml"], acc=t["acc"], h=h, pml_freq=0.1))
    cfg.dt *= t["sign"]
    m = make(t["pde"], "uniform", cfg.inner)
    grid = torch.meshgrid(*[torch.arange(x).to(F64) for x in cfg.n], indexing="ij")
    pos = list(itertools.product(*[range(cfg.pml[2 * i], cfg.n[i] - cfg.pml[2 * i + 1], 6) for i in range(cfg.ndim)]))
    g = torch.stack([torch.exp(-sum(((x - p) / 2.5) ** 2 for x, p in zip(grid, q))) for q in pos])
    names = cfg.names()
    main = {"scalar": ["wavefield_0", "wavefield_m1"], "scalar_born": ["wavefield_0", "wavefield_m1"],
            "acoustic": ["pressure_0"],
            # (a pulse of stress has static parts)
            "elastic": [k for k in names if k in ("vx_0", "vy_0")]}[t["pde"]]
    ini = {k: g for k in main}
    inner = tuple(slice(cfg.pml[2 * i], cfg.n[i] - cfg.pml[2 * i + 1]) for i in range(cfg.ndim))
    cross = int(max(cfg.n) * 1.5 / (2.0 * abs(cfg.dt))) + 1
    f, _ = call(cfg, m, cross, {}, {}, {}, ini)
    k = main[0]
    left = f[k].abs()[(slice(None), *inner)].amax()
    r.states += len(pos)
    r.traces += len(pos)
    r.transitions += len(pos) * cross
    r.evaluations += 1
    r.outcome((t, f"{float(left):.3e}"))
    r.sample = {"left": float(left)}
    lim = {1: 0.02, 2: 0.05}[cfg.ndim]
    if not float(left) <= lim:
        r.violate(f"{t['pde']}:absorb", f"a pulse of amplitude 1 leaves {float(left):.3e} of it inside", cfg=cfg.d)


def long(t, r):
    """Direct long runs from a dense state, in the given precision."""
    nd = len(t["n"])
    h = [1.0, 1.5, 1.25][:nd]
    cfl = 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / 2.0
    for mod in MODELS:
        if mod in ("fluid", "shear") and t["pde"] != "elastic":
            continue
        for pml in ([0] * (2 * nd), t["pml"]):
            if any(pml) and mod not in ("uniform", "irregular"):
                continue
            cfg = Cfg(dict(pde=t["pde"], n=t["n"], pml=pml, acc=t["acc"], h=h, dt=cfl, dtype=t["dtype"]))
            m = {k: v.to(cfg.dtype).to(F64) for k, v in make(t["pde"], mod, cfg.inner).items()}
            if t["pde"] == "scalar_born":
                m["scatter"] = torch.zeros_like(m["v"])
            ini = {k: dense((1, *cfg.n), i) for i, k in enumerate(cfg.names())}
            mx = []
            for _ in range(12):
                f, _ = call(cfg, m, 500, {}, {}, {}, ini, max_vel=None)
                ini = {k: v.to(F64) for k, v in f.items()}
                mx.append(max(float(v.abs().max()) for v in f.values()))
                r.transitions += 500
                r.evaluations += 1
            r.traces += 1
            r.states += 1
            r.outcome((t, mod, pml, round(mx[-1], 6)))
            if not max(mx) <= 50 * max(max(mx[:4]), 1e-3):
                r.violate(f"{t['pde']}:{nd}d:long", f"maxima after every 500 steps {mx}", cfg=cfg.d, model=mod)


def run(t, r, tier, seed):
    {"power": power, "absorb": absorb, "long": long}[t["kind"]](t, r)
