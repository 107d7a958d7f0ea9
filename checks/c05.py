"""C05: the Hessian-vector products of the real scalar propagator, one basis state of
the second-order cotangent per shot, against second-order differentiation of the
reference transition system."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct digests of second-order results"
BOUNDS = {
    "quick": "every basis state of the cotangents of all first-order gradients (wavespeed cells, source samples, "
             "initial-field cells): 1-D 5 layer patterns x 4 accuracies x nt 1..4, 2-D 4 patterns, 3-D 2; pairs of "
             "basis states (both cotangents) 1-D; dense cotangents on grids larger than two stencils, shared/per-shot "
             "models, 1/2/3 threads, both dtypes, every single first-order gradient, storage on device/host/disk",
    "thorough": "as quick, 16 layer patterns 2-D, 8 in 3-D, nt to 7, pair bases for nt 1..3 and all layer patterns",
}
ASSUMPTIONS = ["second-order maps are bilinear in the two cotangents"]
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.second_order, pdes=("scalar",))


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for acc in ACCS:
        R = acc // 2
        for p in ([0, 0], [2, 3], [0, 2], [3, 0], [1, 1]):
            for n, nts in ((3, (1, 2, 3, 4)), (2 * R + 3, (3, 4, 5, 6, 7) if th else (3, 4))):
                out.append(dict(kind="hess", acc=acc, n=[n], pml=p, nts=list(nts)))
        p2 = [[0] * 4, [1, 2, 2, 0], [0, 1, 0, 2], [2, 0, 0, 0]]
        if th:
            p2 += [[2 * x for x in p] for p in itertools.product([0, 1], repeat=4)]
        for p in p2:
            for n in ([3, 4], [2 * R + 2, 2 * R + 3]):
                out.append(dict(kind="hess", acc=acc, n=n, pml=p, nts=[2, 3]))
        p3 = [[1, 0, 0, 1, 0, 0], [0, 1, 1, 0, 0, 1]]
        if th:
            p3 += [[0] * 6, [1] * 6, [1, 0, 1, 0, 1, 0], [0, 1, 0, 1, 0, 1], [2, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 2]]
        for p in p3:
            out.append(dict(kind="hess", acc=acc, n=[2, 2, 3], pml=p, nts=[2, 3]))
        for p in ([0, 0], [2, 1], [0, 2]) + (([3, 0], [1, 1]) if th else ()):
            for nt in (2, 3) if not th else (1, 2, 3):
                out.append(dict(kind="pairs", acc=acc, n=[3], pml=p, nt=nt))
        for nd in (1, 2, 3):
            n = [2 * R + 5, 2 * R + 6, 2 * R + 4][:nd]
            for p in ([2, 1, 0, 3, 1, 2][: 2 * nd], [0, 2, 3, 0, 2, 0][: 2 * nd], [0] * (2 * nd)):
                for nt in (5, 6) if nd < 3 else (3,):
                    out.append(dict(kind="dense", acc=acc, n=n, pml=p, nt=nt))
    for nd, n, p in ((1, [5], [2, 1]), (2, [4, 3], [1, 0, 0, 2]), (3, [3, 3, 3], [0, 1, 1, 0, 1, 0])):
        for nt in (3, 4):
            out.append(dict(kind="subset", acc=4, n=n, pml=p, nt=nt))
    for t in out:
        t["pde"] = "scalar"
    return out


def second(cfg, who, S, m, nt, amps, slocs, rl, ini, cot, cot2, want=None, conv=None, **extra):
    """Gradients of <cot2, first-order gradients> with respect to everything."""
    conv = conv or ((lambda x: x.to(cfg.dtype)) if who != "ref" else (lambda x: x.to(F64)))
    lv = G.leaves(m, amps, ini, want, conv)
    mm, aa, ii = G.split(lv)
    if who == "ref":
        f, rec = cfg.ref().run(mm, nt, S, aa, slocs, rl, ii)
    else:
        f, rec = call(cfg, mm, nt, aa, slocs, rl, ii, **extra)
    o = G.outs(f, rec)
    cl = {k: conv(c.clone()).requires_grad_() for k, c in cot.items()}
    keys = [k for k in lv if want is None or k in want]
    ks = [k for k in cl if o[k].requires_grad]
    g = dict(zip(keys, torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [cl[k] for k in ks],
                                           create_graph=True, allow_unused=True)))
    k2 = [k for k in cot2 if g.get(k) is not None and g[k].requires_grad]
    if not k2:
        return g, {}
    names = [("d", *k) for k in keys] + [("c", *k) for k in ks]
    h = torch.autograd.grad([g[k] for k in k2], [lv[k] for k in keys] + [cl[k] for k in ks],
                            [conv(cot2[k]) for k in k2], allow_unused=True)
    return g, dict(zip(names, h))


def cmp2(r, cfg, key, a, b, what, tol=None, **d):
    (g, h), (w, hw) = a, b
    G.compare(r, cfg, key + "-first", g, {k: v.detach() if v is not None else None for k, v in w.items()}, what=what,
              tol=tol, **d)
    sc = max([1.0] + [float(x.abs().max()) for x in hw.values() if x is not None])
    for k, x in hw.items():
        y = h.get(k)
        if x is None and y is None:
            continue
        x = torch.zeros_like(y) if x is None else x
        y = torch.zeros_like(x) if y is None else y
        r.close(f"{key}:{k}", y, x, tol or cfg.tol, f"{what}second derivative w.r.t. {k}", scale=sc, cfg=cfg.d, **d)
    r.outcome([cfg.d, key, d.get("nt")] + [round(float(x.norm()), 6) for x in hw.values() if x is not None])


def layout2(m, amps, ini):
    return ([("model", k, tuple(v.shape)) for k, v in m.items()] + [("amp", k, tuple(v.shape[1:])) for k, v in amps.items()]
            + [("init", k, tuple(v.shape[1:])) for k, v in ini.items()])


def run(t, r, tier, seed):
    cfg = Cfg(t)
    ex = lambda d, S: {k: v.expand(S, *v.shape[1:]).contiguous() for k, v in d.items()}  # noqa: E731
    if t["kind"] == "hess":
        for nt in t["nts"]:
            m1, amps, slocs, rl, ini = G.setup(cfg, 1, nt, rmax=20)
            lay = G.out_layout(cfg, rl, nt)
            ins = layout2(m1, amps, ini)
            N = G.out_size(ins)
            for lo in range(0, N, 600):
                S = min(600, N - lo)
                m = {k: v[None].expand(S, *v.shape).contiguous() for k, v in m1.items()}
                cot = ex(G.cot_dense(lay, 1, 3), S)
                cot2 = G.cot_basis(ins, lo, lo + S)
                a = (S, m, nt, ex(amps, S), ex(slocs, S), ex(rl, S), ex(ini, S), cot, cot2)
                cmp2(r, cfg, "hess", second(cfg, "impl", *a), second(cfg, "ref", *a), f"nt={nt}: ", nt=nt)
                r.states += S
                r.traces += S
                r.transitions += 4 * S * nt
                r.evaluations += 1
        r.sample = {"cfg": cfg.d, "basis": N}
    elif t["kind"] == "pairs":
        nt = t["nt"]
        m1, amps, slocs, rl, ini = G.setup(cfg, 1, nt, nsrc=1)
        lay = G.out_layout(cfg, rl, nt)
        ins = layout2(m1, amps, ini)
        N, M = G.out_size(ins), G.out_size(lay)
        for c in range(M):
            m = {k: v[None].expand(N, *v.shape).contiguous() for k, v in m1.items()}
            cot = ex(G.cot_basis(lay, c, c + 1), N)
            a = (N, m, nt, ex(amps, N), ex(slocs, N), ex(rl, N), ex(ini, N), cot, G.cot_basis(ins))
            cmp2(r, cfg, "pairs", second(cfg, "impl", *a), second(cfg, "ref", *a), f"cotangent {c}: ", nt=nt)
            r.states += N
            r.traces += N
            r.transitions += 4 * N * nt
            r.evaluations += 1
        r.sample = {"cfg": cfg.d, "pairs": N * M}
    elif t["kind"] == "dense":
        nt, S = t["nt"], 3
        for dtype, batch, threads, extra in (("double", None, 1, {}), ("double", None, 3, {}), ("double", None, 2, {}),
                                             ("double", 3, 3, {}), ("double", 1, 2, {}), ("float", None, 1, {}),
                                             ("double", None, 1, {"storage_mode": "cpu"}),
                                             ("double", None, 2, {"storage_mode": "disk", "storage_path": t["_scratch"]})):
            cfg = Cfg(dict(t, dtype=dtype))
            if dtype == "float":
                cfg.tol = 3e-3
            torch.set_num_threads(threads)
            m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=1, batch=batch, rmax=12)
            cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 5)
            cot2 = {(g, k): dense(tuple(d[k].shape), i) for g, d in (("model", m), ("amp", amps), ("init", ini))
                    for i, k in enumerate(d)}
            a = (S, m, nt, amps, slocs, rl, ini, cot, cot2)
            cmp2(r, cfg, f"dense:{batch}:{sorted(extra)}", second(cfg, "impl", *a, **extra), second(cfg, "ref", *a),
                 f"{batch} models {threads} threads {extra}: ")
            r.states += S
            r.traces += S
            r.transitions += 4 * S * nt
            r.evaluations += 1
        r.sample = {"cfg": cfg.d}
    else:
        nt, S = t["nt"], 2
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=2, rmax=6)
        cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 7)
        ins = layout2(m, amps, ini)
        keys = [(g, k) for g, k, _ in ins]
        c2 = {(g, k): dense((S, *s) if g != "model" else s, i) for i, (g, k, s) in enumerate(ins)}
        for sub in [set(keys)] + [{k} for k in keys] + [set(keys) - {k} for k in keys] + [
                set(p) for p in itertools.combinations(keys, 2)]:
            for outs in [sub] + ([{k} for k in sub] if len(sub) == len(keys) else []):
                a = (S, m, nt, amps, slocs, rl, ini, cot, {k: c2[k] for k in outs}, sub)
                cmp2(r, cfg, "subset", second(cfg, "impl", *a), second(cfg, "ref", *a),
                     f"requires_grad {sorted(sub)}, second cotangents {sorted(outs)}: ")
                r.states += 1
                r.traces += 1
                r.transitions += 4 * nt
                r.evaluations += 1
        for q in list(cot):
            a = (S, m, nt, amps, slocs, rl, ini, {q: cot[q]}, c2)
            cmp2(r, cfg, "one-output", second(cfg, "impl", *a), second(cfg, "ref", *a), f"only output {q}: ")
            r.states += 1
            r.traces += 1
            r.evaluations += 1
        # no source / no receiver / no initial field
        for drop in ("amps", "rec", "init", "amps+rec"):
            a2, s2 = ({}, {}) if "amps" in drop else (amps, slocs)
            rl2 = {} if "rec" in drop else rl
            i2 = {} if drop == "init" else ini
            cc = {k: c for k, c in cot.items() if k[0] == "field" or k[1] in rl2}
            d2 = {k: c for k, c in c2.items() if not (k[0] == "amp" and not a2) and not (k[0] == "init" and not i2)}
            a = (S, m, nt, a2, s2, rl2, i2, cc, d2)
            cmp2(r, cfg, "omit", second(cfg, "impl", *a), second(cfg, "ref", *a), f"without {drop}: ")
            r.states += 1
            r.traces += 1
            r.evaluations += 1
        r.sample = {"cfg": cfg.d}
