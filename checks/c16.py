"""C16: the real Born propagator against the real scalar propagator's Jacobian, every
scattering-potential basis state against every output basis state."""
import itertools

import torch

from checks.c05 import second
from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct digests of the scattering matrices"
BOUNDS = {
    "quick": "every potential cell (not replicated into a layer) x every output (final fields incl. memory, all "
             "receiver cells and steps): 1-D 5 layer patterns x 4 accuracies x nt 1..4, 2-D 5 patterns, 3-D 3; all "
             "source cells; superposition of all pairs; adjoint and second-order identities with scalar gradients; "
             "compiled and Python Born",
    "thorough": "as quick with all on/off patterns in 2-D, 8 in 3-D, nt to 6",
}
ASSUMPTIONS = ["potential cells on an edge next to a layer are compared with the reference model in C01 (the wavespeed is "
               "replicated into the layer, the potential is zero there)"]
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.background, pdes=("scalar",))


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for acc in ACCS:
        R = acc // 2
        for p in ([0, 0], [2, 3], [0, 2], [3, 0], [1, 1]):
            for n in (3, 2 * R + 3):
                out.append(dict(acc=acc, n=[n], pml=p, nts=[1, 2, 3, 4, 5, 6] if th else [1, 2, 3, 4]))
        p2 = [[0] * 4, [1, 2, 2, 0], [0, 1, 0, 2], [2, 0, 0, 0], [0, 0, 0, 1]]
        if th:
            p2 += [[2 * x for x in p] for p in itertools.product([0, 1], repeat=4)]
        for p in p2:
            out.append(dict(acc=acc, n=[4, 5], pml=p, nts=[2, 3]))
        p3 = [[0] * 6, [1, 0, 0, 1, 0, 0], [0, 1, 1, 0, 0, 1]]
        if th:
            p3 += [[1] * 6, [1, 0, 1, 0, 1, 0], [0, 1, 0, 1, 0, 1], [2, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 2]]
        for p in p3:
            out.append(dict(acc=acc, n=[3, 3, 4], pml=p, nts=[2, 3]))
    return out


def inner_mask(cfg):
    ok = torch.ones(cfg.inner, dtype=torch.bool)
    for d in range(cfg.ndim):
        if cfg.pml[2 * d]:
            ok.select(d, 0).fill_(False)
        if cfg.pml[2 * d + 1]:
            ok.select(d, cfg.inner[d] - 1).fill_(False)
    return ok


def run(t, r, tier, seed):
    cs, cb = Cfg(dict(t, pde="scalar")), Cfg(dict(t, pde="scalar_born"))
    ok = inner_mask(cs).reshape(-1)
    cells = torch.nonzero(ok)[:, 0].tolist()
    NV = ok.numel()
    ex = lambda d, S: {k: v.expand(S, *v.shape[1:]).contiguous() for k, v in d.items()}  # noqa: E731
    tol = cs.tol
    for nt in t["nts"]:
        m, amps, slocs, rl, ini = G.setup(cs, 1, nt, rmax=16)
        v = m["v"]
        lay = G.out_layout(cs, rl, nt)
        N = G.out_size(lay)
        # rows of the scalar Jacobian
        J = torch.zeros(N, NV, dtype=F64)
        for lo in range(0, N, 1500):
            S = min(1500, N - lo)
            mm = {"v": v[None].expand(S, *v.shape).contiguous()}
            o, g = G.impl(cs, mm, nt, ex(amps, S), ex(slocs, S), ex(rl, S), ex(ini, S), G.cot_basis(lay, lo, lo + S),
                          {("model", "v")})
            J[lo:lo + S] = g["model", "v"].reshape(S, -1)
            r.evaluations += 1
            r.states += S
            r.transitions += 2 * S * nt
        if not cells:
            continue
        # columns from the Born propagator
        S = len(cells)
        sc = torch.zeros(S, NV, dtype=F64)
        sc[range(S), cells] = 1
        mm = {"v": v[None].expand(S, *v.shape).contiguous(), "scatter": sc.view(S, *v.shape)}
        brl = {"": ex(rl, S)[""], "bg": ex(rl, S)[""]}
        binit = {k: x for k, x in ex(ini, S).items()}
        scale = max(1.0, float(J.abs().max()))
        o0 = {k: x[:1].detach() for k, x in o.items()}
        for be in (False, "eager") if t["acc"] in (2, 4) else (False,):
            f, rec = call(cb, mm, nt, {"": ex(amps, S)[""]}, {"": ex(slocs, S)[""]}, brl, binit, python_backend=be)
            r.evaluations += 1
            r.states += S
            r.traces += S
            r.transitions += S * nt
            for k in cs.names():
                r.close(f"background:{k}", f[k], o0["field", k].expand_as(f[k]), 1e-12, f"background {k} ({be})", cfg=cb.d, nt=nt)
            r.close("background:rec", rec["bg"], o0["rec", ""].expand_as(rec["bg"]), 1e-12,
                    f"background recordings ({be})", cfg=cb.d, nt=nt)
            off = 0
            for q, k, s in lay:
                L = G.math.prod(s)
                got = rec[""] if q == "rec" else f[scname(k)]
                r.close(f"scattered:{q}:{k}", got.reshape(S, L), J[off:off + L, cells].T, tol,
                        f"scattered {q} {k} against the Jacobian ({be}), nt={nt}", scale=scale, cfg=cb.d)
                off += L
        # superposition over all pairs of cells, with scattered initial fields
        sini = {scname(k): dense((1, *cb.n), 9 + i) for i, k in enumerate(ini)}
        pairs = list(itertools.combinations(cells[:8], 2))
        a = {"": amps[""]}, {"": slocs[""]}

        def born(scs, with_ini):
            S2 = scs.shape[0]
            i2 = {**ex(ini, S2), **(ex(sini, S2) if with_ini else {})}
            return call(cb, {"v": v, "scatter": scs}, nt, ex(a[0], S2), ex(a[1], S2),
                        {"": ex(rl, S2)[""]}, i2)
        if pairs:
            z = torch.zeros(len(pairs), NV, dtype=F64)
            for i, (x, y) in enumerate(pairs):
                z[i, x], z[i, y] = 0.7, -1.3
            fz, rz = born(z.view(-1, *v.shape), True)
            f0, r0 = born(torch.zeros(1, *v.shape, dtype=F64), True)
            for i, (x, y) in enumerate(pairs):
                ix, iy = cells.index(x), cells.index(y)
                for k in cs.names():
                    k = scname(k)
                    w = f0[k][0] + 0.7 * f[k][ix] - 1.3 * f[k][iy]
                    r.close(f"linear:{k}", fz[k][i], w, 1e-10, f"superposition of potentials {x},{y}", cfg=cb.d,
                            scale=max(1.0, float(w.abs().max())))
                r.close("linear:rec", rz[""][i], r0[""][0] + 0.7 * rec[""][ix] - 1.3 * rec[""][iy], 1e-10,
                        f"superposition of potentials {x},{y}", cfg=cb.d)
            r.states += len(pairs)
            r.evaluations += 2
            r.traces += len(pairs)
        # adjoint: potential gradient = wavespeed gradient; second order: Born wavespeed gradient
        s = dense(v.shape, 2) * inner_mask(cs)
        cot = G.cot_dense(lay, 1, 4)
        g1, h = second(cs, "impl", 1, m, nt, amps, slocs, rl, ini, cot, {("model", "v"): s})
        bcot = {(q, scname(k) if q == "field" else k): c for (q, k), c in cot.items()}
        _, gb = G.impl(cb, {"v": v, "scatter": s}, nt, amps, slocs, {"": rl[""]}, ini, bcot)
        r.evaluations += 2
        r.states += 1
        r.close("adjoint", gb["model", "scatter"].reshape(-1)[cells], g1["model", "v"].detach().reshape(-1)[cells], 1e-10,
                "gradient w.r.t. the potential against the scalar wavespeed gradient", cfg=cb.d, nt=nt)
        for kb, ks in [(("model", "v"), ("d", "model", "v")), (("amp", ""), ("d", "amp", ""))] + [
                (("init", k), ("d", "init", k)) for k in ini]:
            w = h.get(ks)
            got = gb.get(kb)
            if w is None and got is None:
                continue
            w = torch.zeros_like(got) if w is None else w
            got = torch.zeros_like(w) if got is None else got
            r.close(f"second:{kb}", got, w, 1e-9, f"Born gradient of {kb} against the scalar Hessian-vector product",
                    cfg=cb.d, nt=nt, scale=max(1.0, float(w.abs().max())))
        r.outcome([cb.d, nt, round(float(J.norm()), 9)])
    r.sample = {"cfg": cb.d, "jacobian": [N, NV], "compared_columns": len(cells)}


def scname(k):
    b, s = k.rsplit("_", 1)
    return f"{b}_sc_{s}"
