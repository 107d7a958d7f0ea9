"""C06: every storage configuration (place x compression x sampling x chunking x which
models need gradients) of the real propagators is run and compared with the default
one; the lossy compression is explored over every quantisation level, block position and
magnitude, and multi-step gradients are bounded by the reference's exact error budget."""
import itertools
import math

import torch

from checks.c09 import Sim, fd_pads, masked, model_mask
from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct digests of gradients per storage configuration"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x 4 modes x compression on/off x nt 1..5 x interval 1..3 x callback chunks x 1/3 "
             "threads x subsets of models needing gradients; compression: 1-D lengths 1..26, 2-D and 3-D block edge "
             "lengths, every quantisation level and every mid-point between levels with the block maximum at every "
             "cell, magnitudes over the whole range of both dtypes; multi-step error budgets for every propagator",
    "thorough": "as quick, nt to 9, 4 layer patterns, all accuracies, lengths 1..64",
}
ASSUMPTIONS = ["CPU backend: 'cpu' mode is the same as 'device'", "blocks are aligned with the corner of the padded grid"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
SHAPES = {1: [([6], [2, 1]), ([9], [0, 3])], 2: [([4, 7], [1, 0, 2, 1]), ([9, 4], [0, 2, 0, 0])],
          3: [([3, 4, 3], [1, 0, 0, 2, 1, 1]), ([2, 3, 8], [0, 1, 2, 0, 0, 0])]}
MODES = ("device", "cpu", "disk", "none")
COMBINED = compose.plan(compose.stores)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde, nd in itertools.product(PDES, (1, 2, 3)):
        for j, (n, p) in enumerate(SHAPES[nd]):
            for acc in (2, 4, 6, 8) if th else (4,) if j == 0 else (2,):
                b = dict(pde=pde, n=n, pml=p, acc=acc)
                out.append(dict(b, kind="modes", nts=list(range(1, (10 if th else 6) if nd < 3 else 4)), full=j == 0))
                for dt in ("double", "float"):
                    out.append(dict(b, kind="budget", dtype=dt, nts=[1, 2, 4] if nd < 3 else [2, 3]))
    for n in range(3, 65 if th else 27):
        out.append(dict(kind="codec", pde="acoustic", n=[n], acc=2))
    for n in ([3, 7], [7, 3], [8, 9], [9, 8], [16, 5], [5, 17], [9, 17]):
        out.append(dict(kind="codec", pde="acoustic", n=n, acc=2))
    for n in ([3, 3, 3], [3, 7, 9], [9, 3, 8], [8, 9, 3]):
        out.append(dict(kind="codec", pde="acoustic", n=n, acc=2))
    for dt in ("double", "float"):
        out.append(dict(kind="range", pde="acoustic", n=[11], acc=2, dtype=dt))
    return out


def modes(r, cfg, nt, full, scratch):
    S = 3
    for interval, chunk, nth, batch in itertools.product(
            (1, 2, 3), (None, 1, 2), (1, 3), (None, S)):
        if interval > nt or (chunk and chunk > nt) or (not full and (chunk == 2 or interval == 3)):
            continue
        if (batch and nth == 3) or (interval == 3 and chunk == 2):
            continue
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, nsrc=2, batch=batch, rmax=4)
        lay = G.out_layout(cfg, rl, nt)
        cot = G.cot_dense(lay, S, 3.0, cfg.dtype)
        names = list(m)
        wants = [None]
        if full and interval == 1 and nth == 1 and chunk is None:
            lin = {("amp", k) for k in amps} | {("init", k) for k in ini}
            for L in range(0, len(names)):
                for sub in itertools.combinations(names, L):
                    wants.append(lin | {("model", k) for k in sub})
            wants += [{("model", k)} for k in names]
        old = torch.get_num_threads()
        torch.set_num_threads(nth)
        try:
            for want in wants:
                base, cbase = None, None
                for mode, comp in itertools.product(MODES, (False, True)):
                    extra = dict(storage_mode=mode, storage_compression=comp, storage_path=scratch,
                                 model_gradient_sampling_interval=interval)
                    if chunk:
                        extra.update(forward_callback=lambda s: None, backward_callback=lambda s: None,
                                     callback_frequency=chunk)
                    o, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, want, **extra)
                    o = {k: v.detach().double() for k, v in o.items()}
                    key = f"{cfg.pde}:{cfg.ndim}d:{mode}:{'c' if comp else 'u'}"
                    r.evaluations += 1
                    r.traces += 1
                    r.states += S
                    r.transitions += 2 * S * nt
                    r.outcome(torch.cat([v.double().reshape(-1) for v in g.values() if v is not None] or
                                        [torch.zeros(1)]))
                    if base is None:
                        base = (o, g)
                        continue
                    d = dict(cfg=cfg.d, nt=nt, interval=interval, chunk=chunk, threads=nth,
                             needs=sorted(map(str, want)) if want else None)
                    for k in o:
                        r.close(f"{key}:out:{k}", o[k], base[0][k], 1e-14, f"output {k} differs from device storage", **d)
                    ref_g = base[1]
                    if comp and mode in ("device", "cpu", "disk"):
                        if cbase is None:
                            cbase = g
                    for k, w in ref_g.items():
                        if k[0] == "model":
                            if mode == "none":
                                continue
                            if comp:
                                w = cbase[k]
                        x = g[k]
                        if x is None and w is None:
                            continue
                        if x is None or w is None:
                            r.violate(f"{key}:missing:{k}", f"gradient {k} is {'missing' if x is None else 'present'} "
                                      "but not with device storage", **d)
                            continue
                        r.close(f"{key}:grad:{k}", x.double(), w.double(), 1e-13 if nth == 1 else 1e-11,
                                f"gradient {k} differs from device storage", **d)
        finally:
            torch.set_num_threads(old)


def blockmax(cfg, x):
    """Largest magnitude of the 8-cell block of each cell (blocks of the padded grid)."""
    pads = fd_pads(cfg)
    full = [cfg.n[d] + pads[2 * d] + pads[2 * d + 1] for d in range(cfg.ndim)]
    up = [-(-f // 8) * 8 for f in full]
    z = torch.zeros(x.shape[0], *up, dtype=F64)
    sl = (slice(None), *(slice(pads[2 * d], pads[2 * d] + cfg.n[d]) for d in range(cfg.ndim)))
    z[sl] = x.abs()
    for d in range(cfg.ndim):
        sh = list(z.shape)
        sh[d + 1:d + 2] = [sh[d + 1] // 8, 8]
        z = z.view(sh).amax(d + 2, keepdim=True).expand(sh).reshape(*sh[:d + 1], -1, *sh[d + 3:])
    return z[sl]


def capture(cfg, m, nt, amps, slocs, rl, ini, cot, **extra):
    """Raw (prepared-model) gradients as seen at step 0 of the backward callback."""
    raw = {}
    sim = Sim(cfg, m)

    def cb(st):
        if st.step == 0:
            for k in sim.names:
                raw[k] = st.get_gradient(k, view="pml").detach().double().clone()

    o, g = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, None, backward_callback=cb, callback_frequency=max(nt, 1),
                  **extra)
    return o, g, raw


def budget(cfg, m, nt, q, amps, slocs, rl, ini, cot, S):
    """Largest deviation of every raw gradient cell that half a quantisation step per
    stored value allows."""
    sim = Sim(cfg, m)
    ref = sim.ref
    pm = {k: v.detach() for k, v in sim.m.items()}
    s = {k: v.clone().requires_grad_() for k, v in sim.start(ini, S).items()}
    L = 0.0
    inter = []
    for t in range(nt):
        for k in rl:
            L = L + (ref.record(s, k, rl[k], 1 << 31) * cot["rec", k][..., t]).sum()
        a = {k: v[..., t] for k, v in amps.items()}
        if cfg.pde.startswith("scalar"):
            lm = {k: v.expand(S, *cfg.n).clone().requires_grad_() for k, v in pm.items()}
            nx = ref.full_step(s, lm, pm, a, slocs, 1 << 31)
            mid = nx
        else:
            lm = {k: v.expand(S, *cfg.n).clone().requires_grad_() for k, v in pm.items()}
            mid = getattr(ref, "velocity_" + cfg.pde)(s, lm)
            for k in ref.c:
                if a.get(k) is not None:
                    mid[f"v{k}_0"] = ref.inject(mid[f"v{k}_0"], slocs[k],
                                                ref.dt * ref.gather(pm["B" + k], slocs[k], 1 << 31) * a[k], 1 << 31)
            nx = getattr(ref, "stress_" + cfg.pde)(mid, lm)
            if a.get("p") is not None:
                nx = dict(nx)
                if cfg.pde == "acoustic":
                    nx["pressure_0"] = ref.inject(nx["pressure_0"], slocs["p"],
                                                  ref.dt * ref.gather(pm["K"], slocs["p"], 1 << 31) * a["p"], 1 << 31)
                else:
                    for k in ref.c:
                        nm = f"sigma{k}{k}_0"
                        nx[nm] = ref.inject(nx[nm], slocs["p"], -ref.dt * a["p"], 1 << 31)
        for x in (*mid.values(), *nx.values()):
            if x.requires_grad:
                x.retain_grad()
        inter.append((lm, mid, nx))
        s = nx
    L = L + sum((s[k] * ref.mask(k) * cot["field", k]).sum() for k in s)
    L.backward(retain_graph=True)
    # copied now: later autograd.grad calls would add to the retained gradients
    grads = {id(x): x.grad.clone() for _, mid, nx in inter for x in (*mid.values(), *nx.values())
             if x.requires_grad and x.grad is not None}
    g = lambda x: grads.get(id(x), torch.zeros(S, *cfg.n, dtype=F64))  # noqa: E731

    def store(out, leaf):
        z, = torch.autograd.grad(out.sum(), leaf, retain_graph=True, allow_unused=True)
        return torch.zeros_like(leaf) if z is None else z.detach()

    B = {k: torch.zeros(S, *cfg.n, dtype=F64) for k in sim.names}
    dt2 = ref.dt**2
    for t in range(0, nt, q):
        lm, mid, nx = inter[t]
        h = lambda x: blockmax(cfg, x) / 254.0  # noqa: E731
        if cfg.pde == "scalar":
            B["v"] += q * g(nx["wavefield_0"]).abs() * h(store(nx["wavefield_0"], lm["v"]))
        elif cfg.pde == "scalar_born":
            v, sc = pm["v"].expand(S, *cfg.n), pm["scatter"].expand(S, *cfg.n)
            w = store(nx["wavefield_0"], lm["v"]) / (2 * v * dt2)
            wsc = (store(nx["wavefield_sc_0"], lm["v"]) - 2 * dt2 * sc * w) / (2 * v * dt2)
            au, asc = g(nx["wavefield_0"]), g(nx["wavefield_sc_0"])
            B["v"] += q * ((2 * dt2 * (au * v + asc * sc)).abs() * h(w) + (2 * dt2 * asc * v).abs() * h(wsc))
            B["scatter"] += q * (2 * dt2 * asc * v).abs() * h(w)
        elif cfg.pde == "acoustic":
            B["K"] += q * g(nx["pressure_0"]).abs() * h(store(nx["pressure_0"], lm["K"]))
            for k in ref.c:
                f = f"v{k}_0"
                B["B" + k] += q * g(mid[f]).abs() * h(store(mid[f], lm["B" + k]))
        else:
            for k in ref.c:
                f = f"v{k}_0"
                B["buoyancy_" + k] += q * g(mid[f]).abs() * h(store(mid[f], lm["B" + k]))
            hs, A = {}, {}
            for k in ref.c:
                f = f"sigma{k}{k}_0"
                hs[k] = h(store(nx[f], lm["mu"]) / 2)
                A[k] = g(nx[f])
            B["lamb"] += q * sum(A.values()).abs() * sum(hs.values())
            B["mu"] += q * 2 * sum(A[k].abs() * hs[k] for k in A)
            for i, j in itertools.combinations(range(cfg.ndim), 2):
                nm = "mu_" + ref.c[i] + ref.c[j]
                f = ref._sig(ref.c[i], ref.c[j]) + "_0"
                B[nm] += q * g(nx[f]).abs() * h(store(nx[f], lm[nm]))
    return B


def run_budget(r, cfg, nt, scratch):
    S = 2
    for q in (1, 2):
        if q > nt:
            continue
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, nsrc=2, batch=S, rmax=4)
        ini = masked(cfg, ini)
        # fields concentrated in some cells so that the blocks differ strongly
        for i, k in enumerate(ini):
            ini[k] = (ini[k] * torch.exp2(torch.round(dense(ini[k].shape, 5.0 + i, -9, 0)))).to(cfg.dtype).to(F64)
        lay = G.out_layout(cfg, rl, nt)
        cot = G.cot_dense(lay, S, 3.0, cfg.dtype)
        B = budget(cfg, m, nt, q, amps, slocs, rl, ini, cot, S)
        _, gu, ru = capture(cfg, m, nt, amps, slocs, rl, ini, cot, model_gradient_sampling_interval=q)
        # callbacks count sampling intervals: one call per propagation
        for mode in ("device", "disk"):
            _, gc, rc = capture(cfg, m, nt, amps, slocs, rl, ini, cot, model_gradient_sampling_interval=q,
                                storage_mode=mode, storage_compression=True, storage_path=scratch)
            r.evaluations += 1
            r.traces += 1
            r.states += S * nt
            r.transitions += 2 * S * nt
            eps = 1e-11 if cfg.dtype == F64 else 1e-5
            for k in ru:
                mk = model_mask(cfg, k)
                dev = ((rc[k] - ru[k]).abs() * mk)
                lim = B[k] * (1 + 1e-3 if cfg.dtype != F64 else 1 + 1e-6) + eps * ru[k].abs().max()
                over = dev - lim
                if not bool((over <= 0).all()):
                    w = int(over.reshape(-1).argmax())
                    r.violate(f"{cfg.pde}:{cfg.ndim}d:budget:{mode}:{k}",
                              f"compression changes the gradient of {k} by {float(dev.reshape(-1)[w]):.3e}, half a "
                              f"quantisation step allows {float(lim.reshape(-1)[w]):.3e} (cell {w})", cfg=cfg.d, nt=nt,
                              interval=q)
                r.outcome(rc[k])
            for k in gu:
                if k[0] != "model":
                    r.close(f"{cfg.pde}:{cfg.ndim}d:budget:{mode}:{k}", gc[k].double(), gu[k].double(), 1e-14,
                            f"compression changes gradient {k}", cfg=cfg.d, nt=nt)


def codec_once(r, cfg, pats, scratch, what, key):
    """Stores the given patterns (shots) through one acoustic step and reads them back."""
    S = pats.shape[0]
    m = {"v": torch.ones(cfg.inner, dtype=F64), "rho": torch.ones(cfg.inner, dtype=F64)}
    # divergence of a cumulative sum along x is the pattern (times the spacing)
    m = {k: v[None].expand(S, *cfg.inner).contiguous() for k, v in m.items()}
    vx = torch.cumsum(pats, -1)
    ini = {"vx_0": vx}
    cot = {("field", "pressure_0"): torch.ones(S, *cfg.n, dtype=F64)}
    got = {}
    for comp in (False, True):
        kw = dict(storage_compression=comp, storage_mode="device", storage_path=scratch)
        raw = {}

        def cb(st):
            raw["K"] = st.get_gradient("K", view="pml").detach().double().clone()
        lv = G.leaves(m, {}, ini, {("model", "v")}, lambda x: x.to(cfg.dtype))
        mm, _, ii = G.split(lv)
        f, _ = call(cfg, mm, 1, {}, {}, {}, ii, backward_callback=cb, **kw)
        (f["pressure_0"] * cot["field", "pressure_0"].to(cfg.dtype)).sum().backward()
        got[comp] = raw["K"]
    u, c = got[False], got[True]
    r.evaluations += 1
    r.states += S
    r.traces += S
    r.transitions += 2 * S
    if not bool(torch.isfinite(c).all()):
        r.violate(key + ":finite", "decompressed values are not finite", cfg=cfg.d)
    bm = blockmax(cfg, u)
    eps = 1e-12 if cfg.dtype == F64 else 2e-6
    # products with dt of values below the smallest normal number lose a few units
    tiny = 5e-324 * 4 if cfg.dtype == F64 else 1.5e-45 * 4
    lim = bm / 254 * (1 + 1e-9) + eps * bm + tiny
    dev = (c - u).abs()
    over = dev - lim
    if not bool((over <= 0).all()):
        w = int(over.reshape(-1).argmax())
        r.violate(key, f"{what}: stored value {float(u.reshape(-1)[w]):.6e} is reproduced as "
                  f"{float(c.reshape(-1)[w]):.6e}; block maximum {float(bm.reshape(-1)[w]):.3e} allows "
                  f"{float(lim.reshape(-1)[w]):.3e}", cfg=cfg.d)
    r.outcome(c)


def codec(r, cfg, scratch, scales=(1.0,), what="value"):
    """Maximum (both signs) at every cell; the other cells run through every level and
    mid-point (508 values) in steps that hit every cell."""
    N = math.prod(cfg.n)
    lev = torch.arange(-508, 509, dtype=F64) / 508
    if N > 40:
        posl = sorted({0, 1, 6, 7, 8, 9, N // 2, N - 2, N - 1})
    else:
        posl = range(N)
    per = -(-len(lev) // N)
    for scale in scales:
        for sgn in (1.0, -1.0):
            pats = []
            for pos in posl:
                for j in range(per):
                    x = lev[(torch.arange(N) + j * N) % len(lev)].clone()
                    x[pos] = sgn
                    pats.append(x)
            P = torch.stack(pats).view(-1, *cfg.n) * scale
            for lo in range(0, len(P), 2000):
                codec_once(r, cfg, P[lo:lo + 2000], scratch, what, f"codec:{cfg.ndim}d:{cfg.d.get('dtype', 'double')}")
            # one large block next to small ones: patterns scaled per cell index
            if scale == 1.0:
                w = torch.exp2(-torch.arange(N, dtype=F64).view(cfg.n) % 30)
                codec_once(r, cfg, P[:: max(1, len(P) // 60)] * w, scratch, what, f"codec:{cfg.ndim}d:mixed")
                codec_once(r, cfg, torch.zeros(2, *cfg.n, dtype=F64), scratch, what, f"codec:{cfg.ndim}d:zero")


def run(task, r, tier, seed):
    cfg = Cfg(dict(task, pml=task.get("pml", [0] * 2 * len(task["n"]))))
    kind, scratch = task["kind"], task["_scratch"]
    if kind == "modes":
        for nt in task["nts"]:
            modes(r, cfg, nt, task["full"], scratch)
    elif kind == "budget":
        for nt in task["nts"]:
            run_budget(r, cfg, nt, scratch)
    elif kind == "codec":
        codec(r, cfg, scratch)
        codec(r, Cfg(dict(cfg.d, dtype="float")), scratch)
    else:
        ex = range(-1070, 1000, 18) if cfg.dtype == F64 else range(-148, 120, 4)
        codec(r, cfg, scratch, [2.0**e for e in ex], "magnitude")
