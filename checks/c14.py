"""C14: every placement of sources and receivers, every per-side survey padding, every
initial-wavefield size and origin of small models is run on the full model and compared -
recordings, wavefields, model and amplitude gradients - with the reference equations on
the region that the documentation selects; everything outside must be rejected."""
import itertools
import math
import warnings

import torch

from vlib import compose
from vlib.impl import F64, IGNORE, Cfg, call, dense
from vlib import ref as R

LEVEL = "model_checking"
RULE = "distinct (region, wavefield norm) digests"
BOUNDS = {
    "quick": "4 propagators; 1-D model of 6 cells: all source x receiver placements (and ignored ones, and wholly ignored kinds) x 36 side paddings, all "
             "origins x region sizes; 2-D model 4x5: 14 placements x 81 side paddings, all origins x region sizes; 3-D: 6 "
             "placements x 24 paddings; 2 shots, 3 steps, layers on some sides; explicit and automatic maximum velocity; gradients",
    "thorough": "as quick with all source x receiver placements in 2-D, all 64 one/none paddings in 3-D and accuracies 2, 4, 8",
}
ASSUMPTIONS = ["locations are either ignored in all coordinates or in none"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
COMBINED = compose.plan(compose.regions)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde in PDES:
        for acc in (2, 4, 8) if th else (4,):
            for pml in ([0, 0], [2, 1], [0, 3]):
                for i in range(6):
                    out.append(dict(kind="pad", pde=pde, acc=acc, n=[6], pml=pml, first=[i]))
                out.append(dict(kind="origin", pde=pde, acc=acc, n=[5], pml=pml))
            for pml in ([0] * 4, [1, 0, 2, 1]):
                cells = list(itertools.product(range(4), range(5)))
                firsts = cells if th else [cells[i] for i in (0, 2, 6, 9, 13, 15, 19)]
                for c in firsts:
                    out.append(dict(kind="pad", pde=pde, acc=acc, n=[4, 5], pml=pml, first=list(c), full=th))
                out.append(dict(kind="origin", pde=pde, acc=acc, n=[3, 4], pml=pml))
            for c in ([0, 0, 0], [1, 2, 1], [2, 1, 0]):
                out.append(dict(kind="pad", pde=pde, acc=acc, n=[3, 3, 2], pml=[1, 0, 0, 1, 0, 0], first=c, full=th))
            out.append(dict(kind="origin", pde=pde, acc=acc, n=[2, 3, 2], pml=[0, 1, 1, 0, 0, 0]))
        out.append(dict(kind="reject", pde=pde))
    return out


def region(n, locs, pad):
    """Documented extents for locations [k][ndim] (ignored ones already dropped)."""
    ext = []
    for d in range(len(n)):
        lo, hi = pad[2 * d], pad[2 * d + 1]
        a = 0 if lo is None or not locs else max(0, min(q[d] for q in locs) - lo)
        b = n[d] if hi is None or not locs else min(n[d], max(q[d] for q in locs) + hi + 1)
        ext.append((a, b))
    return ext


def full_speed(cfg, m):
    if cfg.pde == "elastic":
        vp = ((m["lamb"] + 2 * m["mu"]) * m["buoyancy"]).max().sqrt()
        return float(max(vp, (m["mu"] * m["buoyancy"]).max().sqrt()))
    return float(m["v"].abs().max())


def compare(r, cfg, m, ext, nt, amps, slocs, rlocs, ini, auto, grad, key, what, **extra):
    """Full model on the real code; reference on the region."""
    S = next(iter(slocs.values())).shape[0] if slocs else next(iter(ini.values())).shape[0]
    o = torch.tensor([a for a, _ in ext])
    size = [b - a for a, b in ext]
    mv = full_speed(cfg, m) if auto else cfg.max_vel
    sub = R.Ref(cfg.pde, size, cfg.h, cfg.dt, cfg.acc, cfg.pml, cfg.pml_freq, mv)
    shift = lambda d: {k: torch.where(x == IGNORE, x, x - o) for k, x in d.items()}  # noqa: E731
    cut = lambda v: v[(Ellipsis, *[slice(a, b) for a, b in ext])]  # noqa: E731
    res = []
    for real in (True, False):
        lm = {k: v.clone().requires_grad_(grad) for k, v in m.items()}
        la = {k: v.clone().requires_grad_(grad) for k, v in amps.items()}
        if real:
            f, rec = call(cfg, lm, nt, la, slocs, rlocs, ini, max_vel=None if auto else mv, **extra)
        else:
            f, rec = sub.run({k: cut(v) for k, v in lm.items()}, nt, S, la, shift(slocs), shift(rlocs), ini, ignore=IGNORE)
        g = {}
        if grad:
            loss = sum((v * dense(v.shape, i)).sum() for i, v in enumerate([f[k] for k in cfg.names()] + [rec[k] for k in rlocs]))
            lv = list(lm.values()) + list(la.values())
            gs = torch.autograd.grad(loss, lv, allow_unused=True)
            g = {k: torch.zeros_like(x) if y is None else y for k, x, y in zip(list(lm) + ["amplitudes" + k for k in la], lv, gs)}
        res.append((f, rec, g))
    (f, rec, g), (f2, rec2, g2) = res
    for k in f2:
        r.close(f"{key}:{k}", f[k], f2[k], 1e-9, f"final {k}", scale=max(1e-3, float(f2[k].abs().max())), **what)
    for k in rlocs:
        r.close(f"{key}:rec{k}", rec[k], rec2[k], 1e-9, f"recording {k}", scale=max(1e-3, float(rec2[k].abs().max())), **what)
    for k in g2:
        r.close(f"{key}:grad {k}", g[k], g2[k], 1e-8, f"gradient of {k}", scale=max(1e-3, float(g2[k].abs().max())), **what)
    r.states += S
    r.traces += S
    r.transitions += S * nt
    r.evaluations += 1 + grad
    r.outcome((ext, cfg.d, round(float(sum(x.detach().norm() for x in f.values())), 8)))


def edge(cfg, kind, loc, ext):
    """Is the half point of this location the one just outside the region (no layer there)?"""
    if kind in ("z", "y", "x"):
        d = R.comps(cfg.ndim).index(kind)
        return any(q[d] == ext[d][1] - 1 and cfg.pml[2 * d + 1] == 0 for q in loc)
    return False


def admissible(cfg, kind, q):
    if kind in ("z", "y", "x"):
        d = R.comps(cfg.ndim).index(kind)
        return q[d] < cfg.inner[d] - 1
    return True


def pad(t, r):
    cfg = Cfg(dict(pde=t["pde"], n=t["n"], pml=t["pml"], acc=t["acc"]))
    nd, n = cfg.ndim, t["n"]
    s0 = tuple(t["first"])
    cells = list(itertools.product(*[range(x) for x in n]))
    if nd == 1:
        seconds = cells + [None]
        pads = list(itertools.product((None, 0, 1, 2, 3, 9), repeat=2))
    elif nd == 2:
        seconds = cells + [None] if t["full"] else [cells[(cells.index(s0) + 7) % len(cells)], cells[(cells.index(s0) * 3 + 1) % len(cells)]]
        pads = list(itertools.product((None, 0, 1), repeat=4))
    else:
        seconds = [cells[(cells.index(s0) + 5) % len(cells)], None]
        pads = list(itertools.product((0, 1), repeat=6)) if t["full"] else [
            tuple(([None, 0, 1] * 6)[(i * k + i // 3) % 7 % 3 + (k % 2)] for k in range(6)) for i in range(24)]
    m = cfg.models(salt=len(s0))
    sk, rk = cfg.skinds(), cfg.rkinds()
    count = 0
    for r0, p in itertools.product(seconds, pads):
        count += 1
        # two shots: the second has a source one cell before the first's and the first's receiver only
        ks, kr = sk[count % len(sk)], rk[(count // 2) % len(rk)]
        if not admissible(cfg, ks, s0):
            ks = sk[0]
        if r0 is None or not admissible(cfg, kr, r0):
            kr = rk[-1] if rk[-1] == "" else rk[0]
        s1 = tuple(max(0, x - 1) for x in s0)
        ign = (IGNORE,) * nd
        slocs = {ks: torch.tensor([[s0, ign], [s1, ign]]) if count % 3 == 0 else torch.tensor([[s0], [s1]])}
        rlocs = {} if r0 is None else {kr: torch.tensor([[r0], [ign]]) if count % 2 else torch.tensor([[r0], [r0]])}
        locs = [s0, s1] + ([] if r0 is None else [r0])
        ext = region(n, locs, p)
        what = dict(cfg=cfg.d, source=[ks, s0], receiver=[kr, r0], survey_pad=p, region=ext)
        if count % 3 == 1:
            # source and receiver kinds without a single used location
            none = torch.tensor([[ign], [ign]])
            slocs.update({k: none for k in sk if k not in slocs})
            rlocs.update({k: none for k in rk if k not in rlocs})
        amps = {k: dense((2, x.shape[1], 3), count) for k, x in slocs.items()}
        key = "pad"
        if edge(cfg, ks, [s0, s1], ext) or (r0 is not None and edge(cfg, kr, [r0], ext)):
            # The half point lies outside the region: as for explicit models, it must be
            # rejected (or be treated as the zero field that it is there).
            key = "edge:" + cfg.pde
            q = {}
            from vlib.core import Result
            rr = Result()
            try:
                compare(rr, cfg, m, ext, 3, amps, slocs, rlocs, {}, False, False, key, what, survey_pad=list(p))
                q = rr.violations
            except RuntimeError:
                q = []
            if q:
                r.violate(key, f"location whose half point is outside the survey region is neither rejected nor zero: {q[0]['what']}", **what)
            continue
        auto = count % 5 == 0
        sp = list(p)
        if len(set(p)) == 1 and p[0] is not None and count % 2:
            sp = p[0]
        elif set(p) == {None} and count % 2:
            sp = None
        compare(r, cfg, m, ext, 3, amps, slocs, rlocs, {}, auto, count % 4 == 0 or nd > 1, key, what, survey_pad=sp)
    r.sample = what


def origin(t, r):
    cfg = Cfg(dict(pde=t["pde"], n=t["n"], pml=t["pml"], acc=t["acc"]))
    nd, n = cfg.ndim, t["n"]
    m = cfg.models(salt=2)
    axes = [[(o, k) for o in range(x + 1) for k in range(1, x + 2)] for x in n]
    if nd == 3:
        axes = [[(o, k) for o, k in a if k in (1, 2, x) and o <= 1] for a, x in zip(axes, n)]
    names = cfg.names()
    count = 0
    for sel in itertools.product(*axes):
        count += 1
        ext = [(o, o + k) for o, k in sel]
        size = [k + cfg.pml[2 * d] + cfg.pml[2 * d + 1] for d, (_, k) in enumerate(sel)]
        inside = all(b <= x for (_, b), x in zip(ext, n))
        org = [o for o, _ in sel]
        ini = {x: dense((2, *size), i + count) for i, x in enumerate(names) if (i + count) % 3 or i == count % len(names)}
        what = dict(cfg=cfg.d, origin=org, region=ext)
        rk = cfg.rkinds()[-1] if cfg.rkinds()[-1] == "" else "p"
        sk = cfg.skinds()[0]
        # a location at each corner of the region, and one just outside on each side
        good = [tuple(a for a, _ in ext), tuple(b - 1 for _, b in ext)]
        bad = []
        for d in range(nd):
            for x in (ext[d][0] - 1, ext[d][1]):
                if 0 <= x < n[d]:
                    q = list(good[0])
                    q[d] = x
                    bad.append(tuple(q))
        extra = dict(origin=org)
        if not any(org) and count % 2:
            extra = {}
        if not inside:
            reject(r, cfg, m, None, ini, {}, {}, "a region beyond the model was accepted", what, nt=2, **extra)
            continue
        q = list(dict.fromkeys(good))
        slocs = {sk: torch.tensor([[q[0]], [q[-1]]])}
        rlocs = {rk: torch.tensor([q, q])}
        amps = {sk: dense((2, 1, 3), count)}
        ign = torch.tensor([[(IGNORE,) * nd]] * 2)
        if count % 4 == 1:
            slocs, amps = {}, {}
        elif count % 4 == 2:
            rlocs = {rk: ign}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            compare(r, cfg, m, ext, 3, amps, slocs, rlocs, ini, count % 3 == 0, count % 2 == 0 or nd == 3, "origin", what, **extra)
        for b in bad:
            reject(r, cfg, m, {sk: torch.tensor([[b], [q[0]]])}, ini, {sk: amps.get(sk, dense((2, 1, 3)))}, {},
                   f"a source at {b} outside the region was accepted", what, **extra)
            reject(r, cfg, m, None, ini, {}, {rk: torch.tensor([[q[0]], [b]])},
                   f"a receiver at {b} outside the region was accepted", what, nt=2, **extra)
        # a given region and survey_pad: only with matching shapes
        ext2 = region(n, q, [1] * (2 * nd))
        sl = {sk: torch.tensor([[q[0]], [q[-1]]])}
        am = {sk: dense((2, 1, 3), count)}
        if ext2 == ext:
            compare(r, cfg, m, ext, 3, am, sl, {}, ini, False, False, "origin+pad", what, survey_pad=1)
        else:
            reject(r, cfg, m, sl, ini, am, {}, "wavefields of another shape than the survey region were accepted", what, survey_pad=1)
        if count % 3 == 0:
            reject(r, cfg, m, sl, ini, am, {}, "survey_pad and origin were accepted together", what, survey_pad=None if False else 9, origin=org)
        odd = dict(ini)
        k = list(odd)[-1]
        d = count % nd
        sh = list(odd[k].shape)
        sh[1 + d] += 1
        if len(odd) > 1:
            odd[k] = dense(sh)
            reject(r, cfg, m, sl, odd, am, {}, "wavefields of different shapes were accepted", what, **extra)
    r.sample = what


def reject(r, cfg, m, slocs, ini, amps, rlocs, msg, what, nt=None, **extra):
    r.states += 1
    r.transitions += 1
    r.evaluations += 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            call(cfg, m, nt, amps if slocs else {}, slocs or {}, rlocs, ini, **extra)
        except (RuntimeError, ValueError):
            return
    r.violate("accepted", msg, **what)


def bad(t, r):
    """Malformed paddings and origins."""
    for nd in (1, 2, 3):
        n = [4, 5, 3][:nd]
        cfg = Cfg(dict(pde=t["pde"], n=n, pml=[1] * (2 * nd)))
        m = cfg.models()
        sk = cfg.skinds()[0]
        sl, am = {sk: torch.ones(1, 1, nd, dtype=torch.long)}, {sk: dense((1, 1, 3))}
        ini = {cfg.names()[0]: dense((1, *[x + 2 for x in n]))}
        for sp in (-1, [-1] + [0] * (2 * nd - 1), [0] * (2 * nd - 1), [0] * (2 * nd + 1), [None] * (2 * nd - 1), [0.5] * (2 * nd),
                   ["1"] * (2 * nd), []):
            reject(r, cfg, m, sl, {}, am, {}, f"survey_pad={sp} was accepted", dict(cfg=cfg.d), survey_pad=sp)
        for o in ([0] * (nd + 1), [0] * (nd - 1), [-1] + [0] * (nd - 1), [0.0] * nd, [1] + [0] * (nd - 1)):
            reject(r, cfg, m, sl, ini, am, {}, f"origin={o} was accepted", dict(cfg=cfg.d), origin=o)
        r.traces += 1
        r.outcome((t, nd))


def run(t, r, tier, seed):
    {"pad": pad, "origin": origin, "reject": bad}[t["kind"]](t, r)
