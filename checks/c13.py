"""C13: the CFL rule on both sides of every ratio boundary; the resampling operators as
full matrices (every basis signal) for every length, ratio and setting; and every
propagator's recordings, wavefields and gradients when a user's step is subdivided,
against the reference equations stepped at the internal step with reference resampling."""
import itertools
import math
import warnings

import torch

from vlib import compose
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct (configuration, operator norm) digests"
BOUNDS = {
    "quick": "resampling: lengths 1..12 and 16,17,25, ratios 1..5, 7; 5 taper, 5 padding fractions, time taper, 3 shifts, both dtypes, "
             "complete basis; CFL: 12 spacings x 5 velocities x both sides of ratios 1..40 x sign, and every ratio boundary of "
             "4 propagators; end to end: 4 propagators x 1-3 dims x ratios 1,2,3,5 x 6 settings x 2 lengths",
    "thorough": "lengths to 40, ratios to 9, ratio boundaries to 200, end to end with accuracies 2..8 and more lengths",
}
ASSUMPTIONS = ["the taper applied in the frequency domain replaces (rather than adds to) the removal of the highest frequency"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
FR = (0.0, 0.1, 0.34, 0.5, 1.0)
COMBINED = compose.plan(compose.resampled)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for nt in list(range(1, 41 if th else 13)) + ([] if th else [16, 17, 25]):
        out.append(dict(kind="operator", nt=nt, ratios=list(range(1, 10)) if th else [1, 2, 3, 4, 5, 7]))
    out.append(dict(kind="cfl", top=200 if th else 40))
    for pde in PDES:
        out.append(dict(kind="boundary", pde=pde, top=40 if th else 12))
        for nd in (1, 2, 3):
            for acc in ((2, 4, 6, 8) if th else (4,)):
                for ratio in (1, 2, 3, 5) + ((4, 7) if th else ()):
                    out.append(dict(kind="path", pde=pde, nd=nd, acc=acc, ratio=ratio, nts=[3, 6, 11, 12] if th else [6, 7]))
    return out


# ------------------------------------------------------------- reference
def _bins(nt, count):
    """Analysis: real and imaginary parts of the first `count` unitary DFT coefficients."""
    k, n = torch.arange(count, dtype=F64)[:, None], torch.arange(nt, dtype=F64)[None]
    ph = 2 * math.pi * torch.remainder(k * n, nt) / nt
    return torch.cos(ph) / math.sqrt(nt), -torch.sin(ph) / math.sqrt(nt)


def _synth(nt, count):
    """Synthesis from the coefficients of the first `count` non-negative frequencies."""
    n, k = torch.arange(nt, dtype=F64)[:, None], torch.arange(count, dtype=F64)[None]
    ph = 2 * math.pi * torch.remainder(k * n, nt) / nt
    w = torch.full((1, count), 2.0, dtype=F64)
    w[0, 0] = 1
    if nt % 2 == 0 and count == nt // 2 + 1:
        w[0, -1] = 1
    return w * torch.cos(ph) / math.sqrt(nt), -w * torch.sin(ph) / math.sqrt(nt)


def _gain(count, frac):
    g = torch.ones(count, dtype=F64)
    if frac > 0:
        L = int(frac * count)
        for j in range(1, L + 1):
            g[count - L + j - 1] = (math.cos(math.pi * j / L) + 1) / 2
    elif count > 1:
        g[-1] = 0
    return g


def hann(n):
    if n == 1:
        return torch.ones(1, dtype=F64)
    return torch.tensor([math.sin(math.pi * i / (n - 1)) ** 2 for i in range(n)], dtype=F64)


def up(nt, ratio, frac=0.0, pad=0.0, taper=False):
    """[nt*ratio, nt] matrix."""
    if ratio == 1:
        return torch.eye(nt, dtype=F64)
    N = nt + int(pad * nt)
    c = N // 2 + 1
    A, B = _bins(N, c)
    g = _gain(c, frac)[:, None] * math.sqrt(ratio)
    C, D = _synth(N * ratio, c)
    M = (C @ (g * A) + D @ (g * B))[: nt * ratio, :nt]
    return M * hann(nt * ratio)[:, None] if taper else M


def down(nt, ratio, frac=0.0, pad=0.0, taper=False, shift=0.0):
    """[nt//ratio, nt] matrix."""
    if ratio == 1 and shift == 0:
        return torch.eye(nt, dtype=F64)
    p = int(pad * (nt // ratio))
    N = nt + p * ratio
    n2 = N // ratio
    c = n2 // 2 + 1
    A, B = _bins(N, c)
    ph = 2 * math.pi * torch.arange(c, dtype=F64) / N * shift
    g = _gain(c, frac)[:, None]
    co, si = torch.cos(ph)[:, None], -torch.sin(ph)[:, None]
    A, B = g * (A * co - B * si), g * (A * si + B * co)
    C, D = _synth(n2, c)
    M = ((C @ A + D @ B) / math.sqrt(ratio))[: n2 - p, :nt]
    return M * hann(nt)[None] if taper else M


# ------------------------------------------------------------- parts
def operator(t, r):
    from deepwave.common import downsample, upsample
    nt = t["nt"]
    for ratio, frac, pad, taper, dt in itertools.product(t["ratios"], FR, FR, (False, True), (torch.float64, torch.float32)):
        if dt == torch.float32 and (pad not in (0.0, 0.34) or frac not in (0.0, 0.34)):
            continue
        what = dict(nt=nt, ratio=ratio, freq_taper_frac=frac, time_pad_frac=pad, time_taper=taper, dtype=str(dt))
        tol = 1e-11 if dt == torch.float64 else 2e-5
        if dt == torch.float64 and not taper and frac == 0:
            tol = 1e-11
        U = up(nt, ratio, frac, pad, taper)
        x = torch.cat([torch.eye(nt, dtype=F64), dense((1, nt), 1.0), torch.ones(1, nt, dtype=F64)]).to(dt)
        x0 = x.clone()
        y = upsample(x, ratio, freq_taper_frac=frac, time_pad_frac=pad, time_taper=taper)
        r.close("upsample", y, x0.double() @ U.T, tol, "upsampled basis", scale=1.0, **what)
        r.states += nt
        r.evaluations += 1
        r.transitions += nt
        r.outcome((what, round(float(y.double().norm()), 5)))
        if not torch.equal(x, x0):
            r.violate("upsample:modified", "input signal was modified", **what)
        y3 = upsample(dense((2, 3, nt), 2.0).to(dt), ratio, frac, pad, taper)
        r.close("upsample:batch", y3, dense((2, 3, nt), 2.0).to(dt).double() @ U.T, tol, "upsampled batch", scale=1.0, **what)
        if y.dtype != dt:
            r.violate("upsample:dtype", f"dtype {y.dtype}", **what)
        # transparency of the pair without windows
        if not taper and frac == 0:
            back = downsample(y, ratio, freq_taper_frac=frac, time_pad_frac=pad, time_taper=taper)
            if ratio > 1 and pad == 0:
                c = nt // 2 + 1
                A, B = _bins(nt, c)
                C, D = _synth(nt, c)
                g = torch.ones(c, 1, dtype=F64)
                if c > 1:
                    g[-1] = 0
                P = C @ (g * A) + D @ (g * B)
                r.close("inverse", back, x0.double() @ P.T, max(tol, 1e-11), "down(up(x))", scale=1.0, **what)
                r.close("constant", y[-1:], torch.ones(1, nt * ratio, dtype=F64), max(tol, 1e-11), "constant signal", **what)
            elif ratio == 1 and not torch.equal(back, x0):
                r.violate("inverse", "ratio 1 changed the signal", **what)
        for shift in (0.0, 0.5, -1.3):
            for L in {nt * ratio, nt * ratio + ratio - 1}:
                Dm = down(L, ratio, frac, pad, taper, shift)
                z = torch.cat([torch.eye(L, dtype=F64), dense((1, L), 3.0)]).to(dt)
                z0 = z.clone()
                tl = tol if shift == 0 else max(tol, 1e-10)
                w = downsample(z, ratio, freq_taper_frac=frac, time_pad_frac=pad, time_taper=taper, shift=shift)
                r.close("downsample", w, z0.double() @ Dm.T, tl, "downsampled basis", scale=1.0, length=L, shift=shift, **what)
                if not torch.equal(z, z0):
                    r.violate("downsample:modified", "input signal was modified", **what)
                r.states += L
                r.transitions += L
                r.evaluations += 1
    r.traces += r.states
    r.sample = {"nt": nt}


def cfl(t, r):
    import deepwave
    from deepwave.common import cfl_condition_n
    grids = [[1.0], [0.3], [25.0], [1.0, 1.0], [5.0, 10.0], [0.01, 3.0], [1e3, 1e-3], [1.0, 2.0, 3.0], [10.0] * 3, [4.0, 4.0, 0.5],
             [1e-4] * 3, [12.5, 6.25, 25.0]]
    for h, v, sgn, k in itertools.product(grids, (1.0, 0.003, 1500.0, 4999.9, 1e5), (1, -1), range(1, t["top"] + 1)):
        lim = 0.6 / (v * math.sqrt(sum(1 / x**2 for x in h)))
        for f in (k - 1 + 1e-6, k - 0.5, k * (1 - 1e-8), k * (1 + 1e-8)):
            want = math.ceil(f)
            dt = sgn * lim * f
            with warnings.catch_warnings(record=True) as wl:
                warnings.simplefilter("always")
                inner, n = cfl_condition_n(h, dt, v)
            r.states += 1
            r.transitions += 1
            r.evaluations += 1
            what = dict(h=h, v=v, dt=dt)
            if n != want or type(n) is not int or inner != dt / want:
                r.violate("cfl", f"dt = {f} times the largest admissible step: got ratio {n}, step {inner}; expected ratio {want}", **what)
            if (want >= 20) != bool(wl):
                r.violate("cfl:warning", f"ratio {want}: {len(wl)} warnings", **what)
            if len(h) == 2:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if deepwave.common.cfl_condition(h[0], h[1], dt, v) != (inner, n):
                        r.violate("cfl:2d", "cfl_condition differs from cfl_condition_n", **what)
    r.outcome(t)
    r.traces += r.states


def boundary(t, r):
    """The ratio a propagator uses, seen through its output, on both sides of every boundary."""
    for nd in (1, 2, 3):
        h = [1.0, 1.25, 0.8][:nd] if nd > 1 else [1.0]
        for k, side, auto in itertools.product(range(1, t["top"] + 1), (-1, 1), (True, False)):
            vmax = 1.9
            lim = 0.6 / math.sqrt(sum(1 / x**2 for x in h)) / vmax
            dt = lim * k * (1 + side * 1e-3)
            want = k if side < 0 else k + 1
            cfg = Cfg(dict(pde=t["pde"], n=[3, 3, 2][:nd], h=h, dt=dt, max_vel=vmax, pml=[0] * (2 * nd)))
            m = scaled(cfg, vmax if auto else vmax / 1.7)
            name = cfg.names()[0]
            ini = {x: dense((1, *cfg.n), i) for i, x in enumerate(cfg.names())}
            f, _ = call(cfg, m, 1, {}, {}, {}, ini, max_vel=None if auto else -vmax)
            g, _ = cfg.ref(dt / want).run(m, want, 1, init=ini)
            r.close("boundary", f[name], g[name], 1e-9, "field after one user step", cfg=cfg.d, ratio=want, auto=auto)
            r.states += 1
            r.transitions += want
            r.traces += 1
            r.evaluations += 1
            r.outcome((cfg.d, auto, round(float(f[name].norm()), 9)))


def scaled(cfg, vmax):
    """A model with the given maximum wave speed."""
    m = cfg.models()
    if cfg.pde in ("scalar", "scalar_born", "acoustic"):
        m["v"] = m["v"] * (vmax / m["v"].max())
        return m
    s = vmax**2 / ((m["lamb"] + 2 * m["mu"]) * m["buoyancy"]).max()
    m["lamb"], m["mu"] = m["lamb"] * s, m["mu"] * s
    return m


SETTINGS = [dict(), dict(freq_taper_frac=0.4), dict(time_pad_frac=0.5), dict(time_taper=True),
            dict(freq_taper_frac=1.0, time_pad_frac=1.0), dict(freq_taper_frac=0.2, time_pad_frac=0.3, time_taper=True)]


def path(t, r):
    nd, ratio = t["nd"], t["ratio"]
    for nt, (si, st), sgn in itertools.product(t["nts"], enumerate(SETTINGS), (1, -1)):
        if sgn < 0 and si:
            continue
        pml = [[2, 1], [1, 2, 0, 1], [1, 0, 0, 1, 1, 0]][nd - 1] if sgn > 0 else [0] * (2 * nd)
        base = Cfg(dict(pde=t["pde"], n=[7, 4, 3][-nd:] if nd < 3 else [3, 3, 4], acc=t["acc"], pml=pml))
        cfg = Cfg(dict(base.d, dt=sgn * base.dt / 0.9 * (ratio - 0.4)))
        m = cfg.models(salt=nt)
        S = 2
        amps = {k: dense((S, 2, nt), i + nt) for i, k in enumerate(cfg.skinds()) if len(cfg.all_locs(k))}
        slocs, rlocs = {}, {}
        for k in amps:
            L = cfg.all_locs(k)
            slocs[k] = torch.stack([L[[0, len(L) // 2]] if len(L) > 1 else L[[0, 0]]] * S)
            if len(L) == 1:
                amps[k] = amps[k][:, :1].contiguous()
                slocs[k] = slocs[k][:, :1]
        for k in cfg.rkinds():
            L = cfg.all_locs(k)
            if len(L):
                rlocs[k] = torch.stack([L] * S)
        ini = {k: dense((S, *cfg.n), 5 + i) for i, k in enumerate(cfg.names())}
        U = up(nt, ratio, st.get("freq_taper_frac", 0), st.get("time_pad_frac", 0), st.get("time_taper", False))
        D = down(nt * ratio, ratio, st.get("freq_taper_frac", 0), st.get("time_pad_frac", 0), st.get("time_taper", False))
        outs = []
        for real in (True, False):
            lm = {k: v.clone().requires_grad_() for k, v in m.items()}
            la = {k: v.clone().requires_grad_() for k, v in amps.items()}
            if real:
                f, rec = call(cfg, lm, nt, la, slocs, rlocs, ini, **st)
            else:
                f, rec = cfg.ref(cfg.dt / ratio).run(lm, nt * ratio, S, {k: v @ U.T for k, v in la.items()}, slocs, rlocs, ini,
                                                       interval=ratio)  # gradients are sampled every user step
                rec = {k: v @ D.T for k, v in rec.items()}
            loss = sum((v * dense(v.shape, i)).sum() for i, v in enumerate([f[k] for k in cfg.names()] + [rec[k] for k in rlocs]))
            g = torch.autograd.grad(loss, list(lm.values()) + list(la.values()))
            outs.append((f, rec, dict(zip(list(lm) + ["amp" + k for k in la], g))))
        (f, rec, g), (f2, rec2, g2) = outs
        what = dict(cfg=cfg.d, nt=nt, ratio=ratio, setting=st)
        tol = 1e-9
        for k in f2:
            r.close(f"path:{k}", f[k], f2[k], tol, f"final {k}", scale=max(1e-3, float(f2[k].abs().max())), **what)
        for k in rlocs:
            r.close(f"path:rec{k}", rec[k], rec2[k], tol, f"recording {k}", scale=max(1e-3, float(rec2[k].abs().max())), **what)
        for k in g2:
            r.close(f"path:grad {k}", g[k], g2[k], tol * 10, f"gradient of {k}", scale=max(1e-3, float(g2[k].abs().max())), **what)
        r.states += S
        r.traces += S
        r.transitions += S * nt * ratio
        r.evaluations += 2
        r.outcome((what, round(float(sum(v.norm() for v in rec.values())), 7)))
    r.sample = what


def run(t, r, tier, seed):
    {"operator": operator, "cfl": cfl, "boundary": boundary, "path": path}[t["kind"]](t, r)
