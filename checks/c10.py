"""C10: all arrangements of a batch of shots, all permutations of sources and receivers
and all patterns of ignored locations, against the shots run alone."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, IGNORE, Cfg, dense

LEVEL = "model_checking"
RULE = "distinct digests of (arrangement, outputs)"
BOUNDS = {
    "quick": "4 propagators x 1-3 D x {shared, per-shot} models x 1 and 3 threads x compiled/Python: all 15 ordered "
             "arrangements of 3 shots; all permutations of up to 3 sources and of up to 3 receivers per kind (another number for every kind); all ignore "
             "patterns of 2 shots x up to 3 sources and x up to 3 receivers per kind (outputs and gradients)",
    "thorough": "as quick with 4 shots (64 arrangements), all accuracies, 24 permutations of 4, 256 ignore patterns",
}
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
COMBINED = compose.plan(compose.shots, quick=dict(t=2, salt=2))


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, nd, be in itertools.product(PDES, (1, 2, 3), (False, "eager")):
        for acc in (2, 4, 6, 8) if th else ((4,) if be else (2, 6)):
            n = [7, 4, 4][:nd] if nd < 3 else [3, 4, 3]
            p = [1, 2, 2, 0, 0, 1][: 2 * nd]
            for kind in ("shots", "ignore"):
                for batch in (None, "all", "mix"):
                    if batch == "mix" and pde == "scalar":
                        continue
                    if not th and kind == "ignore" and (acc == 6 or batch == "mix" or ((be or nd == 3) and batch)):
                        continue
                    out.append(dict(kind=kind, pde=pde, acc=acc, n=n, pml=p, nt=4, be=be, batch=batch,
                                    k=4 if th else 3))
    return out


def inputs(cfg, S, nt, k, batch):
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=3, nsrc=k, batch=S if batch else None, rmax=k)
    if batch == "mix":
        k0 = list(m)[0]
        m = {q: v if q == k0 else v[0] for q, v in m.items()}
    # another number of sources and receivers for every kind
    for d in (amps, slocs), (rl,):
        for i, q in enumerate(list(d[0])):
            for x in d:
                x[q] = x[q][:, : max(1, k - i % k)]
    # different locations in every shot
    for d, off in ((slocs, 1), (rl, 2)):
        for q in d:
            loc = cfg.all_locs(q)
            c = d[q].shape[1]
            st = max(1, len(loc) // c)
            d[q] = torch.stack([loc[[(off * s + j * st) % len(loc) for j in range(c)]] for s in range(S)])
    cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 5)
    return m, amps, slocs, rl, ini, cot


def pick(d, idx):
    return {k: v[idx] for k, v in d.items()}


def run(t, r, tier, seed):
    cfg = Cfg(t)
    nt, k = t["nt"], t["k"]
    S = k if t["kind"] == "shots" else 2
    extra = {"python_backend": t["be"]} if t["be"] else {}
    m, amps, slocs, rl, ini, cot = inputs(cfg, S, nt, k, t["batch"])
    batched = {q for q, v in m.items() if v.ndim == cfg.ndim + 1}

    def go(idx, perm_s=None, perm_r=None):
        idx = list(idx)
        a = (pick(amps, idx), pick(slocs, idx), pick(rl, idx), pick(ini, idx), pick(cot, idx))
        mm = {q: v[idx] if q in batched else v for q, v in m.items()}
        return G.impl(cfg, mm, nt, *a, **extra)

    def count(n=1):
        r.states += n
        r.traces += n
        r.transitions += 4 * n * nt
        r.evaluations += 1

    if t["kind"] == "shots":
        alone = [go([s]) for s in range(S)]
        count(S)
        arrangements = [a for c in range(1, S + 1) for a in itertools.permutations(range(S), c)]
        for threads in (1, 3) if not t["be"] else (1,):
            torch.set_num_threads(threads)
            for arr in arrangements:
                o, g = go(arr)
                count(len(arr))
                for j, s in enumerate(arr):
                    for q, v in alone[s][0].items():
                        r.close(f"shot-output:{q}", o[q][j], v[0], 1e-12, f"{q} of shot {s} in batch {arr}", cfg=cfg.d)
                    for q, v in alone[s][1].items():
                        if q[0] == "model" and q[1] not in batched:
                            continue
                        if v is None and g[q] is None:
                            continue
                        r.close(f"shot-grad:{q}", g[q][j], v[0], 1e-12, f"gradient {q} of shot {s} in batch {arr}",
                                cfg=cfg.d)
                for q in m:
                    if q not in batched:
                        r.close(f"shared-grad:{q}", g["model", q], sum(alone[s][1]["model", q] for s in arr), 1e-11,
                                f"gradient of shared {q} in batch {arr}", cfg=cfg.d)
                r.outcome([cfg.d, threads, arr] + [round(float(x.norm()), 9) for x in o.values()])
        torch.set_num_threads(1)
        # permutations of sources and receivers
        o0, g0 = go(range(S))
        for kind, d, isrc in [(q, slocs, True) for q in slocs] + [(q, rl, False) for q in rl]:
            c = d[kind].shape[1]
            for perm in itertools.permutations(range(c)):
                perm = list(perm)
                d2 = dict(d)
                d2[kind] = d[kind][:, perm]
                a2, c2 = dict(amps), dict(cot)
                if isrc:
                    a2[kind] = amps[kind][:, perm]
                else:
                    c2["rec", kind] = cot["rec", kind][:, perm]
                o, g = G.impl(cfg, m, nt, a2, d2 if isrc else slocs, rl if isrc else d2, ini, c2, **extra)
                count(S)
                for q, v in o0.items():
                    if q == ("rec", kind) and not isrc:
                        v = v[:, perm]
                    r.close(f"perm-output:{q}", o[q], v, 1e-12, f"{q} with {'sources' if isrc else 'receivers'} {kind} "
                            f"permuted by {perm}", cfg=cfg.d)
                for q, v in g0.items():
                    if v is None and g[q] is None:
                        continue
                    if q == ("amp", kind) and isrc:
                        v = v[:, perm]
                    r.close(f"perm-grad:{q}", g[q], v, 1e-11, f"gradient {q} with {'sources' if isrc else 'receivers'} "
                            f"{kind} permuted by {perm}", cfg=cfg.d)
                r.outcome([cfg.d, kind, isrc, perm])
        r.sample = {"cfg": cfg.d, "arrangements": len(arrangements)}
        return
    for kind, d, isrc in [(q, slocs, True) for q in slocs] + [(q, rl, False) for q in rl]:
        c = d[kind].shape[1]
        for pat in itertools.product((False, True), repeat=S * c):
            ign = torch.tensor(pat).view(S, c)
            d2 = dict(d)
            d2[kind] = torch.where(ign[..., None], torch.full_like(d[kind], IGNORE), d[kind])
            a2, c2 = dict(amps), dict(cot)
            keep = (~ign)[..., None].to(F64)
            if isrc:
                a2[kind] = amps[kind] * keep
            else:
                c2["rec", kind] = cot["rec", kind] * keep
            # expected: the same call without ignoring, the ignored ones silenced
            we, wg = G.impl(cfg, m, nt, a2, slocs, rl, ini, c2, **extra)
            o, g = G.impl(cfg, m, nt, amps, d2 if isrc else slocs, rl if isrc else d2, ini, cot, **extra)
            count(S)
            for q, v in we.items():
                if q == ("rec", kind) and not isrc:
                    v = v * keep
                r.close(f"ignore-output:{q}", o[q], v, 1e-12, f"{q}, {'sources' if isrc else 'receivers'} {kind} "
                        f"ignored {pat}", cfg=cfg.d)
            for q, v in wg.items():
                if v is None and g[q] is None:
                    continue
                if q == ("amp", kind) and isrc:
                    v = v * keep
                r.close(f"ignore-grad:{q}", g[q], v, 1e-11, f"gradient {q}, {'sources' if isrc else 'receivers'} {kind} "
                        f"ignored {pat}", cfg=cfg.d)
            r.outcome([cfg.d, kind, isrc, pat])
    r.sample = {"cfg": cfg.d, "patterns": 2 ** (S * c)}
