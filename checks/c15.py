"""C15: every way to split a propagation into consecutive parts (all split points, all
pairs, all singles), run on the real code in both backends and mixed, against the
unsplit propagation: recordings, final state and all gradients."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg, call

LEVEL = "model_checking"
RULE = "distinct digests of (split, outputs)"
BOUNDS = {
    "quick": "4 propagators x 1-3 D x 4 accuracies x 4 layer patterns, nt=5 (4 in 3-D): every split into 2 parts "
             "including empty ones, every split into 3 non-empty parts, all single steps; compiled, Python and "
             "alternating backends; per-part sources or none; internal sub-steps 2 and 3 without sources (final state)",
    "thorough": "as quick, nt=8, all 2^(nt-1) compositions, all on/off layer patterns in 1-D and 2-D",
}
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.splits, quick=dict(t=2, salt=3))


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, nd, acc in itertools.product(PDES, (1, 2, 3), ACCS):
        R = acc // 2
        pats = [[0] * (2 * nd), [2, 1, 0, 3, 1, 2][: 2 * nd], [0, 2, 3, 0, 2, 0][: 2 * nd], [1] * (2 * nd)]
        if th and nd < 3:
            pats += [[2 * b for b in p] for p in itertools.product([0, 1], repeat=2 * nd)]
        for i, p in enumerate(pats):
            n = [3, 4, 2][:nd] if i % 2 else [2 * R + 4, 2 * R + 3, R + 3][:nd]
            nt = 4 if nd == 3 else (7 if th else 5)
            modes = ["c", "mixed"] if i < 2 else ["c"]
            if acc == 4:
                modes = ["c", "py", "mixed"]
            out.append(dict(pde=pde, acc=acc, n=n, pml=p, nt=nt, modes=modes, comp=th and nd < 3))
    return out


def splits(nt, every):
    if every:
        for bits in itertools.product([0, 1], repeat=nt - 1):
            yield [0] + [i + 1 for i, b in enumerate(bits) if b] + [nt]
    else:
        for k in range(1, nt):
            yield [0, k, nt]
        for k, j in itertools.combinations(range(1, nt), 2):
            yield [0, k, j, nt]
        yield list(range(nt + 1))
    yield [0, 0, nt]
    yield [0, nt, nt]


def chain(cfg, lv, nt, cuts, slocs, rl, mode, nosrc_zero=False):
    m, a, st = G.split(lv)
    recs = {k: [] for k in rl}
    for i, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
        ex = {"python_backend": "eager"} if mode == "py" or (mode == "mixed" and i % 2) else {}
        seg = {k: v[..., lo:hi] for k, v in a.items()}
        if hi == lo:
            seg = {}
        sl = {k: slocs[k] for k in seg}
        if st:
            f, rec = call(cfg, m, hi - lo, seg, sl, rl, st, **ex)
        else:
            f, rec = call(cfg, m, hi - lo, seg, sl, rl, None, **ex)
        st = f
        for k in rl:
            if hi > lo:
                recs[k].append(rec[k])
    return G.outs(st, {k: torch.cat(v, -1) for k, v in recs.items()})


def run(t, r, tier, seed):
    cfg = Cfg(t)
    nt, S = t["nt"], 2
    for variant in ("full", "noinit", "nosrc"):
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=4, rmax=6)
        if variant == "noinit":
            ini = {}
        if variant == "nosrc":
            amps, slocs = {}, {}
        cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 6)
        o0, g0 = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot)
        for mode in t["modes"] if variant == "full" else ["c"]:
            for cuts in splits(nt, t["comp"] and mode == "c" and variant == "full"):
                if variant == "noinit" and cuts[1] == 0:
                    continue  # an empty propagation from nothing has no inputs
                lv = G.leaves(m, amps, ini, None, lambda x: x.to(cfg.dtype))
                o = chain(cfg, lv, nt, cuts, slocs, rl, mode)
                g = G.vjp(lv, o, cot, None)
                r.states += S
                r.traces += S
                r.transitions += 4 * S * nt
                r.evaluations += len(cuts) - 1
                for k, v in o0.items():
                    r.close(f"split-output:{k}", o[k], v, cfg.tol, f"{k} split at {cuts} ({mode}, {variant})", cfg=cfg.d)
                G.compare(r, cfg, f"split-grad", g, g0, what=f"split at {cuts} ({mode}, {variant}): ")
                r.outcome([cfg.d, variant, mode, cuts])
    # internal sub-steps: exact for the state when there is no source
    for ratio in (2, 3):
        c2 = Cfg(dict(t, dt=cfg.dt * ratio))
        m, _, _, _, ini = G.setup(c2, S, nt, salt=4, sources=False)
        f0, _ = call(c2, m, nt, None, None, None, ini)
        for k in range(1, nt):
            f, _ = call(c2, m, k, None, None, None, ini)
            f, _ = call(c2, m, nt - k, None, None, None, f)
            r.states += S
            r.traces += S
            r.transitions += S * nt * ratio
            r.evaluations += 2
            for q, v in f0.items():
                r.close(f"substep-output:{q}", f[q], v, cfg.tol, f"{q} split at {k} with {ratio} sub-steps", cfg=c2.d)
    r.sample = {"cfg": cfg.d, "evaluations": r.evaluations}
