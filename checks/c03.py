"""C03: for the real propagators, the matrix of (initial fields, source samples) ->
(final fields, recordings) obtained by running every input basis state forward is
compared entry by entry with the transpose obtained by backpropagating every output
basis state; and every (bounded) subset of inputs that need gradients / outputs that
carry cotangents gives the same entries."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg, call

LEVEL = "model_checking"
RULE = "distinct digests of the transfer matrices"
BOUNDS = {
    "quick": "full transfer matrix: 1-D 5 layer patterns x 4 accuracies, nt 1..3; 2-D 4 patterns; 3-D 2 (grids with "
             "1 and >2 stencil widths by dense cotangents); subsets: all singletons, pairs and complements of inputs "
             "needing gradients, every single output carrying the cotangent; both dtypes; 1 and 3 threads",
    "thorough": "as quick with all on/off layer patterns in 2-D, 10 in 3-D, nt to 5, all triples of inputs",
}
ASSUMPTIONS = ["CPU backend"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.reference(("amp", "init"), False))


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, acc in itertools.product(PDES, ACCS):
        R = acc // 2
        for p in ([0, 0], [2, 3], [0, 2], [3, 0], [1, 1]):
            for n, nts in ((3, (1, 2, 3)), (2 * R + 3, (4, 5) if th else (3,))):
                out.append(dict(kind="full", pde=pde, acc=acc, n=[n], pml=p, nts=list(nts)))
        p2 = [[0] * 4, [1, 2, 2, 0], [0, 1, 0, 2], [2, 0, 0, 0]]
        if th:
            p2 += [[2 * x for x in p] for p in itertools.product([0, 1], repeat=4)]
        for p in p2:
            out.append(dict(kind="full", pde=pde, acc=acc, n=[3, 4], pml=p, nts=[2, 3] if th else [2]))
        p3 = [[1, 0, 0, 1, 0, 0], [0, 1, 0, 0, 1, 1]]
        if th:
            p3 += [[0] * 6, [0, 1, 1, 0, 1, 1], [1, 0, 1, 0, 1, 0], [1] * 6]
        for p in p3:
            out.append(dict(kind="full", pde=pde, acc=acc, n=[2, 2, 3], pml=p, nts=[2]))
        for nd in (1, 2, 3):
            n = [2 * R + 5, 2 * R + 6, 2 * R + 4][:nd]
            for p in ([2, 1, 0, 3, 1, 2][: 2 * nd], [0, 2, 3, 0, 2, 0][: 2 * nd]):
                out.append(dict(kind="dense", pde=pde, acc=acc, n=n, pml=p, nt=7 if nd < 3 else 5))
    for pde in PDES:
        for nd, n, p in ((1, [5], [1, 2]), (2, [4, 3], [1, 0, 0, 2]), (3, [3, 3, 3], [0, 1, 1, 0, 1, 0])):
            out.append(dict(kind="subset", pde=pde, acc=4, n=n, pml=p, nt=4, triples=th))
    return out


def full(r, cfg, nt, chunk=1200):
    m, amps, slocs, rl, ini = G.setup(cfg, 1, nt, nsrc=2)
    lay = G.out_layout(cfg, rl, nt)
    # inputs
    ins = [("init", k, tuple(cfg.n)) for k in ini] + [("amp", k, tuple(a.shape[1:])) for k, a in amps.items()]
    Nin, Nout = G.out_size(ins), G.out_size(lay)
    J = torch.zeros(Nout, Nin, dtype=F64)
    for lo in range(0, Nin, chunk):
        b = G.cot_basis(ins, lo, lo + chunk)
        S = min(chunk, Nin - lo)
        ex = lambda d: {k: v.expand(S, *v.shape[1:]).contiguous() for k, v in d.items()}  # noqa: E731
        f, rec = call(cfg, m, nt, {k: v for (g, k), v in b.items() if g == "amp"}, ex(slocs), ex(rl),
                      {k: v for (g, k), v in b.items() if g == "init"})
        o = G.outs(f, rec)
        J[:, lo:lo + S] = torch.cat([o[g, k].double().reshape(S, -1) for g, k, _ in lay], 1).T
        r.evaluations += 1
        r.states += S
        r.transitions += S * nt
    A = torch.zeros(Nout, Nin, dtype=F64)
    # gradients must not depend on the values of the linear inputs: use dense ones
    for lo in range(0, Nout, chunk):
        S = min(chunk, Nout - lo)
        ex = lambda d: {k: v.expand(S, *v.shape[1:]).contiguous() for k, v in d.items()}  # noqa: E731
        cot = G.cot_basis(lay, lo, lo + S)
        _, g = G.impl(cfg, m, nt, ex(amps), ex(slocs), ex(rl), ex(ini), cot, {(q, k) for q, k, _ in ins})
        A[lo:lo + S] = torch.cat([(torch.zeros(S, *s, dtype=F64) if g[q, k] is None else g[q, k].double()).reshape(S, -1)
                                  for q, k, s in ins], 1)
        r.evaluations += 1
        r.states += S
        r.traces += S
        r.transitions += S * nt
    sc = max(1.0, float(J.abs().max()))
    io, oo = 0, 0
    for q, k, s in ins:
        L = G.math.prod(s)
        oo = 0
        for q2, k2, s2 in lay:
            L2 = G.math.prod(s2)
            r.close(f"adjoint:{q}:{k}:{q2}:{k2}", A[oo:oo + L2, io:io + L], J[oo:oo + L2, io:io + L], cfg.tol,
                    f"entry (output {q2} {k2}, input {q} {k}), nt={nt}", scale=sc, cfg=cfg.d)
            oo += L2
        io += L
    r.outcome([cfg.d, nt, round(float(J.norm()), 9)])
    r.sample = {"cfg": cfg.d, "nt": nt, "inputs": Nin, "outputs": Nout, "nonzero": int((J.abs() > 1e-12).sum())}


def run(t, r, tier, seed):
    cfg = Cfg(t)
    if t["kind"] == "full":
        for nt in t["nts"]:
            full(r, cfg, nt)
        return
    nt = t["nt"]
    if t["kind"] == "dense":
        for dtype, batch, threads in (("double", None, 1), ("double", 3, 3), ("float", None, 2), ("double", 1, 2)):
            cfg = Cfg(dict(t, dtype=dtype))
            if dtype == "float":
                cfg.tol = 3e-3
            S = 3
            torch.set_num_threads(threads)
            m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=1, batch=batch, rmax=15)
            lay = G.out_layout(cfg, rl, nt)
            cot = G.cot_dense(lay, S, 5)
            want = {("amp", k) for k in amps} | {("init", k) for k in ini}
            o, w = G.reference(cfg, m, nt, S, amps, slocs, rl, ini, cot, want)
            o2, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, want)
            r.states += S
            r.transitions += 2 * S * nt
            r.traces += S
            r.evaluations += 1
            G.compare(r, cfg, f"dense:{batch}", g, w, what=f"{batch} models, {threads} threads: ")
            # dot-product identity on the implementation alone
            lhs = sum(float((cot[k].double() * o2[k].double()).sum()) for k in cot)
            rhs = sum(float((g[k].double() * d[k[1]]).sum()) for d, q in ((amps, "amp"), (ini, "init"))
                      for k in want if k[0] == q and g[k] is not None)
            sc = sum(float((cot[k].double() * o2[k].double()).abs().sum()) for k in cot)
            r.close("dot", torch.tensor(rhs), torch.tensor(lhs), 1e-10 if dtype == "double" else 1e-3,
                    "dot-product identity", scale=max(sc, 1), cfg=cfg.d)
            r.outcome([cfg.d, batch] + [round(float(x.norm()), 6) for x in w.values()])
        r.sample = {"cfg": cfg.d, "dot": lhs}
        return
    # subsets of the inputs needing gradients and outputs carrying cotangents
    S = 2
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=2, rmax=6)
    lay = G.out_layout(cfg, rl, nt)
    cot = G.cot_dense(lay, S, 7)
    keys = [("model", k) for k in m] + [("amp", k) for k in amps] + [("init", k) for k in ini]
    _, w = G.reference(cfg, m, nt, S, amps, slocs, rl, ini, cot, set(keys))
    subs = [set(keys)] + [{k} for k in keys] + [set(keys) - {k} for k in keys]
    pairs = list(itertools.combinations(keys, 2))
    subs += [set(p) for p in pairs]
    for g1 in ("model", "amp", "init"):
        subs += [{k for k in keys if k[0] == g1}, {k for k in keys if k[0] != g1}]
    if t["triples"]:
        subs += [set(p) for p in itertools.combinations(keys, 3)][:600]
    for sub in subs:
        _, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, sub)
        G.compare(r, cfg, "subset", g, {k: w[k] for k in sub}, what=f"gradients of {sorted(sub)}: ")
        r.evaluations += 1
        r.states += 1
        r.traces += 1
        r.transitions += 2 * nt
        r.outcome([cfg.d, sorted(sub)])
    # one output at a time
    for k in cot:
        c = {k: cot[k]}
        _, w1 = G.reference(cfg, m, nt, S, amps, slocs, rl, ini, c, set(keys))
        _, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, c, set(keys))
        G.compare(r, cfg, "one-output", g, w1, what=f"cotangent of {k} only: ")
        r.evaluations += 1
        r.states += 1
        r.traces += 1
        r.outcome([cfg.d, "out", k])
    # omitting inputs: each initial field/source alone
    for k in keys:
        if k[0] == "model":
            continue
        a2 = {q: v for q, v in amps.items() if k == ("amp", q)}
        i2 = {q: v for q, v in ini.items() if k == ("init", q)}
        s2 = {q: v for q, v in slocs.items() if q in a2}
        sub = {k} | {("model", q) for q in m}
        _, w1 = G.reference(cfg, m, nt, S, a2, s2, rl, i2, cot, sub)
        _, g = G.impl(cfg, m, nt, a2, s2, rl, i2, cot, sub)
        G.compare(r, cfg, "only-input", g, w1, what=f"{k} the only input: ")
        r.evaluations += 1
        r.states += 1
        r.traces += 1
    r.sample = {"cfg": cfg.d, "subsets": len(subs)}
