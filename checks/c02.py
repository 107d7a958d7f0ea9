"""C02: the Python backend (eager, scripted) and the compiled backend run as two
implementations of one transition system over an enumerated lattice of calls; outputs
and all first-order gradients are compared."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, IGNORE, Cfg

LEVEL = "model_checking"
RULE = "distinct digests of outputs and gradients"
BOUNDS = {
    "quick": "4 propagators x 1-3 D x 4 accuracies x 4 layer patterns x {tiny, > two stencils} x {shared, per-shot, "
             "mixed models} x both dtypes, dense cotangents; 1-D/2-D: every subset of source kinds x every subset of "
             "receiver kinds x initial fields {none, all, each alone}; 3-D singletons and complements; ignored "
             "locations; scripted backend for every propagator x dimension; all mode sequences of length 3; internal "
             "sub-steps 1..3 and sampling intervals 1..3 (outputs, source and field gradients)",
    "thorough": "as quick with all on/off layer patterns in 1-D/2-D and 14 in 3-D, every receiver subset in 3-D, longer runs",
}
ASSUMPTIONS = ["torch.compile mode is not exercised (same step function as eager)"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.backends, salt=1)


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, acc, nd in itertools.product(PDES, ACCS, (1, 2, 3)):
        R = acc // 2
        pats = [[0] * (2 * nd), [2, 1, 0, 3, 1, 2][: 2 * nd], [0, 2, 3, 0, 2, 0][: 2 * nd], [1, 0, 1, 1, 0, 1][: 2 * nd]]
        if th:
            allp = [[2 * b for b in p] for p in itertools.product([0, 1], repeat=2 * nd)]
            pats += allp if nd < 3 else allp[1::6]
        for n in ([3, 4, 2][:nd], [2 * R + 5, 2 * R + 4, 2 * R + 3][:nd]):
            out.append(dict(kind="dense", pde=pde, acc=acc, n=n, pats=pats, nt=(8 if th else 5) if nd < 3 else 4))
    for pde, nd in itertools.product(PDES, (1, 2, 3)):
        n = [5, 4, 3][:nd]
        p = [1, 2, 0, 1, 1, 0][: 2 * nd]
        out.append(dict(kind="args", pde=pde, acc=4, n=n, pml=p, nt=3, full=th or nd < 3))
        out.append(dict(kind="substep", pde=pde, acc=2, n=n, pml=p, nt=4))
        out.append(dict(kind="jit", pde=pde, acc=4, n=n, pml=p, nt=3))
    return out


def both(r, cfg, key, nt, a, mode="eager", groups=None, tol=None, b=None, **extra):
    """a: (models, amps, slocs, rl, ini, cot)"""
    m, amps, slocs, rl, ini, cot = a
    o1, g1 = b or G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, **extra)
    o2, g2 = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, python_backend=mode, **extra)
    S = next(iter(o1.values())).shape[0]
    r.states += S
    r.traces += S
    r.transitions += 4 * S * nt
    r.evaluations += 2
    for k in o1:
        if k in o2 or o1[k].numel():
            r.close(f"{key}:out:{k}", o2[k], o1[k], tol or cfg.tol, f"{mode} backend, output {k}", cfg=cfg.d,
                    extra=str(extra))
    G.compare(r, cfg, f"{key}:grad", g2, g1, tol=tol or (3e-3 if cfg.dtype != F64 else None),
              what=f"{mode} backend: ", groups=groups, extra=str(extra))
    r.outcome([cfg.d, key, str(extra)] + [round(float(x.double().norm()), 6) for x in list(o1.values()) +
                                          [x for x in g1.values() if x is not None]])
    return o1, g1


def run(t, r, tier, seed):
    nt = t["nt"]
    if t["kind"] == "dense":
        for p in t["pats"]:
            for dtype, batch in (("double", None), ("double", 2), ("float", None), ("double", "mix"), ("double", 1)):
                cfg = Cfg(dict(pde=t["pde"], acc=t["acc"], n=t["n"], pml=p, dtype=dtype))
                S = 2
                m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=1, batch=2 if batch == "mix" else batch, rmax=20)
                if batch == "mix":
                    k0 = list(m)[-1]
                    m = {k: (v if k == k0 else v[0]) for k, v in m.items()}
                cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 5)
                both(r, cfg, f"dense:{batch}:{dtype}", nt, (m, amps, slocs, rl, ini, cot))
        r.sample = {"cfg": cfg.d, "patterns": len(t["pats"])}
        return
    cfg = Cfg(t)
    S = 2
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=2, rmax=5)
    cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 7)
    if t["kind"] == "args":
        def subsets(keys, full):
            keys = list(keys)
            if full:
                return [set(c) for i in range(len(keys) + 1) for c in itertools.combinations(keys, i)]
            return [set()] + [{k} for k in keys] + [set(keys) - {k} for k in keys] + [set(keys)]
        inis = [set(), set(ini)] + [{k} for k in ini]
        for ss in subsets(amps, t["full"]):
            for rs in subsets(rl, t["full"]):
                for ii in inis if rs in (set(), set(rl)) else inis[:2]:
                    c = {k: v for k, v in cot.items() if k[0] == "field" or k[1] in rs}
                    both(r, cfg, f"args:{sorted(ss)}:{sorted(rs)}:{sorted(ii)}", nt,
                         (m, {k: amps[k] for k in ss}, {k: slocs[k] for k in ss}, {k: rl[k] for k in rs},
                          {k: ini[k] for k in ii}, c)) if (ss or ii) else None
        # ignored locations in every position
        for kind in list(slocs):
            for pos in range(slocs[kind].shape[1]):
                for shot in range(S):
                    s2 = {k: v.clone() for k, v in slocs.items()}
                    s2[kind][shot, pos] = IGNORE
                    both(r, cfg, f"ignore-source:{kind}", nt, (m, amps, s2, rl, ini, cot))
        for kind in list(rl):
            for pos in range(rl[kind].shape[1]):
                r2 = {k: v.clone() for k, v in rl.items()}
                r2[kind][pos % S, pos] = IGNORE
                both(r, cfg, f"ignore-receiver:{kind}", nt, (m, amps, slocs, r2, ini, cot))
    elif t["kind"] == "substep":
        for ratio in (1, 2, 3):
            for iv in (1, 2, 3):
                cfg = Cfg(dict(t, dt=Cfg(t).dt * ratio))
                for fl in ({}, {"freq_taper_frac": 0.5}, {"time_pad_frac": 0.5}, {"time_taper": True}) if iv == 1 else ({},):
                    both(r, cfg, f"substep:{ratio}:{iv}:{sorted(fl)}", nt, (m, amps, slocs, rl, ini, cot),
                         groups=("amp", "init") if ratio * iv > 1 else None,
                         model_gradient_sampling_interval=iv, **fl)
    else:
        b = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot)
        for seq in itertools.product(("eager", "jit"), repeat=3):
            for mode in seq:
                both(r, cfg, f"mode:{mode}", nt, (m, amps, slocs, rl, ini, cot), mode=mode, b=b)
        both(r, cfg, "jit:nothing", nt, (m, {}, {}, rl, ini, cot), mode="jit")
        both(r, cfg, "jit:noinit", nt, (m, amps, slocs, rl, {}, cot), mode="jit")
    r.sample = {"cfg": cfg.d, "executions": r.evaluations}
