"""C04: the full Jacobian of the real propagators with respect to every model
parameter, row by row (one output basis cotangent per shot), against autograd on
the reference model; and every gradient sampling interval."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg

LEVEL = "model_checking"
RULE = "distinct digests of gradient norms over configurations"
BOUNDS = {
    "quick": "full Jacobian (every output component incl. boundary-layer memory): 1-D nt 1..4 with 5 layer patterns x "
             "4 accuracies, 2-D 3 patterns, 3-D 1; dense cotangents on grids larger than two stencils, shared/per-shot/"
             "mixed models, 1 and 3 threads, both dtypes; sampling intervals 1..nt+1 for nt 1..7",
    "thorough": "as quick with all on/off layer patterns in 2-D and 3-D, nt to 6, intervals 1..10 x nt 1..10",
}
ASSUMPTIONS = ["linearity of backpropagation in the cotangent; models bounded away from zero (the derivative at exactly "
               "zero density/shear modulus is not part of the property)"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.reference(("model",), False), salt=1, comp=False)


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, acc in itertools.product(PDES, ACCS):
        R = acc // 2
        for p in ([0, 0], [2, 3], [0, 2], [3, 0], [1, 1]):
            for n, nts in ((3, (1, 2, 3)), (2 * R + 3, (4, 5) if th else (4,))):
                out.append(dict(kind="jac", pde=pde, acc=acc, n=[n], pml=p, nts=list(nts)))
        p2 = [[0] * 4, [1, 2, 2, 0], [0, 1, 0, 2]]
        if th:
            p2 += [[2 * x for x in p] for p in itertools.product([0, 1], repeat=4)]
        for p in p2:
            out.append(dict(kind="jac", pde=pde, acc=acc, n=[3, 4], pml=p, nts=[2, 3] if th else [2]))
        p3 = [[1, 0, 0, 1, 0, 0]]
        if th:
            p3 += [[0] * 6, [0, 1, 1, 0, 1, 1]]
        for p in p3:
            out.append(dict(kind="jac", pde=pde, acc=acc, n=[2, 2, 3] if not th else [2, 3, 3], pml=p, nts=[2]))
        for nd in (1, 2, 3):
            n = [2 * R + 5, 2 * R + 6, 2 * R + 4][:nd]
            pats = [[2, 1, 0, 3, 1, 2][: 2 * nd], [0, 2, 3, 0, 2, 0][: 2 * nd]]
            if th:
                pats += [[2 * b for b in p] for p in itertools.product([0, 1], repeat=2 * nd)]
            for p in pats:
                out.append(dict(kind="dense", pde=pde, acc=acc, n=n, pml=p, nt=6 if nd < 3 else 4))
    for pde in PDES:
        for nd, n, p in ((1, [5], [1, 2]), (2, [4, 3], [1, 0, 0, 2]), (3, [2, 3, 3], [0, 1, 1, 0, 1, 0])):
            out.append(dict(kind="interval", pde=pde, acc=4, n=n, pml=p,
                            nts=list(range(1, 11 if th else 8 if nd < 3 else 4))))
    return out


def jac(r, cfg, nt, chunk=1500):
    m1, amps, slocs, rl, ini = G.setup(cfg, 1, nt)
    lay = G.out_layout(cfg, rl, nt)
    N = G.out_size(lay)
    for lo in range(0, N, chunk):
        S = min(chunk, N - lo)
        m = {k: v[None].expand(S, *v.shape).contiguous() for k, v in m1.items()}
        ex = lambda d: {k: v.expand(S, *v.shape[1:]).contiguous() for k, v in d.items()}  # noqa: E731
        cot = G.cot_basis(lay, lo, lo + S)
        want = {("model", k) for k in m}
        a = (ex(amps), ex(slocs), ex(rl), ex(ini), cot, want)
        _, g = G.impl(cfg, m, nt, *a)
        _, w = G.reference(cfg, m, nt, S, *a)
        r.states += S
        r.transitions += S * nt
        r.traces += S
        r.evaluations += 1
        G.compare(r, cfg, "jacobian", g, w, what="Jacobian rows: ", nt=nt)
        r.outcome([cfg.d, nt, lo] + [round(float(x.norm()), 9) for x in w.values()])
    r.sample = {"cfg": cfg.d, "nt": nt, "outputs": N,
                "jacobian_norms": {k[1]: float(v.norm()) for k, v in w.items()}}


def run(t, r, tier, seed):
    cfg = Cfg(t)
    if t["kind"] == "jac":
        for nt in t["nts"]:
            jac(r, cfg, nt)
        return
    if t["kind"] == "dense":
        nt = t["nt"]
        for dtype, batch, threads in (("double", None, 1), ("double", None, 3), ("double", 3, 3), ("float", None, 2),
                                      ("double", "mix", 1), ("double", "one", 2)):
            cfg = Cfg(dict(t, dtype=dtype))
            if dtype == "float":
                cfg.tol = 3e-3
            S = 3
            torch.set_num_threads(threads)
            m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=1, batch=3 if batch in (3, "mix") else 1 if batch == "one"
                                              else None, rmax=12)
            if batch == "mix":  # one model per shot for the first, shared for the others
                k0 = list(m)[0]
                m = {k: (v if k == k0 else v[0]) for k, v in m.items()}
            cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 5)
            want = {("model", k) for k in m}
            _, w = G.reference(cfg, m, nt, S, amps, slocs, rl, ini, cot, want)
            _, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, want)
            r.states += S
            r.transitions += S * nt
            r.traces += S
            r.evaluations += 1
            G.compare(r, cfg, f"dense:{batch}", g, w, what=f"{batch} models, {threads} threads: ")
            r.outcome([cfg.d, batch] + [round(float(x.norm()), 6) for x in w.values()])
            # every proper subset of models requiring gradients
            if dtype == "double" and len(m) > 1 and batch is None and threads == 1:
                names = list(m)
                for bits in range(1, 2 ** len(names) - 1):
                    sub = {("model", k) for i, k in enumerate(names) if bits >> i & 1}
                    _, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, sub)
                    G.compare(r, cfg, "subset", g, {k: w[k] for k in sub}, what=f"only {sorted(sub)}: ")
                    r.evaluations += 1
        return
    for nt in t["nts"]:
        S = 2
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=2, rmax=8)
        cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 7)
        o1, g1 = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot)
        for iv in range(1, nt + 2):
            o, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, model_gradient_sampling_interval=iv)
            _, w = G.reference(cfg, m, nt, S, amps, slocs, rl, ini, cot, interval=iv)
            r.states += S
            r.transitions += S * nt
            r.traces += S
            r.evaluations += 1
            for k in o:
                r.close(f"interval-output:{k[0]}:{k[1]}", o[k], o1[k], 1e-12,
                        f"output {k} changed by sampling interval {iv} (nt={nt})", cfg=cfg.d)
            G.compare(r, cfg, "interval-linear", g, g1, what=f"interval {iv} nt {nt}: ", groups=("amp", "init"))
            G.compare(r, cfg, "interval", g, w, what=f"interval {iv} nt {nt}: ", groups=("model",))
            r.outcome([cfg.d, nt, iv] + [round(float(x.norm()), 9) for x in w.values()])
    r.sample = {"cfg": cfg.d, "nt": nt, "intervals": nt + 1}
