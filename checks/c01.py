"""C01: every transition of the real propagators is compared with the documented
matrices.  States: every basis vector of the full state space (all fields, all
cells) of each bounded configuration, every source sample and every receiver
cell; plus long dense traces."""
import itertools

import torch

from vlib import compose
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = ("a case is non-trivial when the implementation's output state differs from all other "
        "configurations' (digest of the output norm)")
BOUNDS = {
    "quick": "1-D: layer widths {0,1,2,3,5}^2 x 6 sizes x 4 accuracies, nt<=3, every basis state; 2-D: 6 layer "
             "patterns x 4 accuracies, every basis state, nt=2; 3-D: small grids every basis state nt=1; sources: "
             "every kind x cell x step (nt=4); traces: nt<=17, both dtypes, +dt/-dt, shared/batched/zero models",
    "thorough": "as quick plus 2-D: all 16 layer patterns x 3 sizes, nt<=3; 3-D: all 64 on/off layer patterns for "
                "traces and 12 for basis states; traces up to nt=41",
}
ASSUMPTIONS = ["states are generated by basis vectors because the step is linear in (fields, sources) "
               "(checked by the dense traces); accuracy >2 in 3-D basis exploration uses grids smaller than two stencils",
               "CUDA backend not built here"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.reference(()), want="init")


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde in PDES:
        for acc in ACCS:
            out.append(dict(kind="basis1d", pde=pde, acc=acc))
            # 2-D
            r = acc // 2
            pats = [[0, 0, 0, 0], [2, 3, 1, 2], [0, 2, 2, 0], [2, 0, 0, 1], [0, 0, 2, 2], [1, 1, 0, 0]]
            if th:
                pats = [list(p) for p in itertools.product([0, 2], repeat=4)] + pats
            sizes = [[2 * r + 2, 2 * r + 3]] + ([[3, 2], [2 * r + 5, 1]] if th else [])
            for p in pats:
                for n in sizes:
                    out.append(dict(kind="basis", pde=pde, acc=acc, n=n, pml=p, nts=[1, 2, 3] if th else [2]))
            # 3-D
            pats = [[0] * 6, [1, 0, 0, 1, 1, 0], [0, 1, 1, 0, 0, 1], [1, 1, 1, 1, 1, 1]]
            if th:
                pats += [[1 if i == j else 0 for i in range(6)] for j in range(6)] + [[2, 0, 2, 0, 2, 0], [0, 2, 0, 2, 0, 2]]
            for p in pats:
                out.append(dict(kind="basis", pde=pde, acc=acc, n=[3, 2, 4], pml=p, nts=[1, 2] if th else [1]))
            for nd, n, p in ((1, [7], [2, 0]), (2, [4, 5], [1, 0, 0, 2]), (3, [2, 3, 3], [0, 1, 1, 0, 2, 0])):
                out.append(dict(kind="source", pde=pde, acc=acc, n=n, pml=p, nt=4))
            # traces
            for nd in (1, 2, 3):
                big = [2 * r + 7, 2 * r + 6, 2 * r + 8][:nd]
                small = [3, 4, 2][:nd]
                pats = [[0] * (2 * nd), [2, 3, 1, 2, 3, 1][: 2 * nd], [3, 0, 0, 2, 1, 0][: 2 * nd],
                        [0, 2, 3, 0, 0, 1][: 2 * nd]]
                if th:
                    pats += [[2 * b for b in p] for p in itertools.product([0, 1], repeat=2 * nd)]
                for n in (big, small):
                    out.append(dict(kind="trace", pde=pde, acc=acc, n=n, pats=pats,
                                    nt=41 if th else 17 if nd < 3 else 9))
    return out


def compare(r, cfg, key, got, want, S, nt, scale=None, **d):
    (f, rec), (f2, rec2) = got, want
    r.states += S
    r.transitions += S * nt
    r.traces += S
    r.evaluations += 1
    ok = True
    for k in f2:
        if k in f:
            ok &= r.close(f"{key}:{k}", f[k], f2[k], cfg.tol, f"final {k}", scale=scale, cfg=cfg.d, **d)
    for k in rec2:
        ok &= r.close(f"{key}:rec{k}", rec[k], rec2[k], cfg.tol, f"receiver {k or 'main'}", scale=scale, cfg=cfg.d, **d)
    r.outcome([round(float(x.double().norm()), 9) for x in f.values()] + [cfg.d])
    return ok


def rec_all(cfg, S):
    return {k: cfg.all_locs(k)[None].expand(S, -1, -1).contiguous() for k in cfg.rkinds() if len(cfg.all_locs(k))}


def basis(r, cfg, nts, key):
    """Every basis state of every field."""
    ref = cfg.ref()
    m = cfg.models()
    N = 1
    for x in cfg.n:
        N *= x
    eye = torch.eye(N, dtype=F64).view(N, *cfg.n)
    rl = rec_all(cfg, N)
    for nt in nts:
        for name in cfg.names():
            got = call(cfg, m, nt, None, None, rl, {name: eye})
            want = ref.run(m, nt, N, None, None, rl, {name: eye})
            compare(r, cfg, f"{key}:{name}", got, want, N, nt, scale=max(
                1.0, max(float(x.abs().max()) for x in want[0].values())), steps=nt, perturbed=name)


def run(t, r, tier, seed):
    k = t["kind"]
    if k == "basis1d":
        for n in (1, 2, 3, 6, 2 * (t["acc"] // 2) + 2, 4 * (t["acc"] // 2) + 3):
            for p in itertools.product((0, 1, 2, 3, 5), repeat=2):
                cfg = Cfg(dict(pde=t["pde"], n=[n], acc=t["acc"], pml=list(p)))
                basis(r, cfg, (1, 2, 3) if n in (1, 6) else (2,), "basis")
        r.sample = {"last": cfg.d, "states": r.states}
    elif k == "basis":
        cfg = Cfg(t)
        basis(r, cfg, t["nts"], "basis")
    elif k == "source":
        cfg = Cfg(t)
        ref = cfg.ref()
        m = cfg.models(salt=1)
        nt = t["nt"]
        for kind in cfg.skinds():
            loc = cfg.all_locs(kind)
            L = len(loc)
            S = L * nt
            slocs = {kind: loc.repeat_interleave(nt, 0)[:, None]}
            a = torch.eye(nt, dtype=F64).repeat(L, 1)[:, None]
            rl = rec_all(cfg, S)
            got = call(cfg, m, nt, {kind: a}, slocs, rl)
            want = ref.run(m, nt, S, {kind: a}, slocs, rl)
            compare(r, cfg, f"source:{kind}", got, want, S, nt)
        r.sample = {"source": t, "distinct": S}
    else:
        for ip, p in enumerate(t["pats"]):
            for dtype in ("double", "float"):
                for variant in (("shared", 1), ("batched", 1), ("zeros", -1), ("m1", 1)):
                    if variant[0] != "shared" and (dtype == "float") != (ip % 2 == 1):
                        continue
                    c = dict(t, pml=p, dtype=dtype)
                    c.pop("pats")
                    cfg = Cfg(c)
                    if variant[1] < 0:
                        c["dt"] = -cfg.dt
                        cfg = Cfg(c)
                    S, nt = 3, t["nt"]
                    ref = cfg.ref()
                    m = cfg.models(salt=2, batch={"batched": S, "m1": 1}.get(variant[0]), zeros=variant[0] == "zeros")
                    q = lambda x: x.to(cfg.dtype).to(F64)  # noqa: E731
                    init = {k2: q(dense((S, *cfg.n), i)) for i, k2 in enumerate(cfg.names())}
                    locs = {k2: cfg.all_locs(k2) for k2 in cfg.skinds()}
                    slocs, amps = {}, {}
                    for i, (k2, l) in enumerate(locs.items()):
                        if len(l) == 0:
                            continue
                        pick = torch.stack([torch.tensor([(s * 5 + i) % len(l), (s * 3 + i + 1 + len(l) // 2) % len(l)])
                                            for s in range(S)])
                        pick = pick[:, : 1 if bool((pick[:, 0] == pick[:, 1]).any()) else 2]
                        slocs[k2] = l[pick]
                        amps[k2] = q(dense((S, pick.shape[1], nt), 20 + i))
                    rl = rec_all(cfg, S)
                    compare(r, cfg, f"trace:{variant[0]}", call(cfg, m, nt, amps, slocs, rl, init),
                            ref.run(m, nt, S, amps, slocs, rl, init), S, nt, variant=variant[0])
        r.sample = {"trace": t["n"], "steps": t["nt"]}
