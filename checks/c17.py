"""C17: Hicks interpolation enumerated over fractional offsets, half-widths, free
surfaces, dipoles, data types, ordered location pairs and shot subsets, against an
independent definition of the windowed sinc on the grid."""
import itertools
import math

import torch

from vlib.impl import F64, IGNORE, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct (settings, location, weights) digests"
BOUNDS = {
    "quick": "grid 24 x 25; offsets j/16 and decimal tenths, within and beyond eps of grid points, 11 base positions from "
             "the first to the last cell incl. between a free surface and the first point, 1000 cells away; half-widths "
             "1..10; 16 free-surface combinations x 3 surface positions; monopoles, dipoles of both orientations, both "
             "dtypes; all ordered pairs of 14 locations; all shot subsets, orders and repetitions of 3 shots; "
             "end-to-end propagation",
    "thorough": "as quick with every combination of half-width, surfaces and data type, all ordered triples",
}
ASSUMPTIONS = ["windows reach across at most one free surface per axis",
               "the weight of a grid point lying exactly on a free surface that the window only touches is not compared "
               "(the field there is zero)", "two offsets closer than eps may share weights (documented eps)"]
BETAS = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
N = (24, 25)
FRACS = sorted({j / 16 for j in range(16)} | {j / 10 for j in range(10)} | {4e-6, 3e-5, 0.001, 0.999, 1 - 3e-5, 1 - 4e-6,
                                                                        0.4999, 1 / 3})
EPS = 1e-5


def i0(x):
    s = t = 1.0
    k = 1
    while t > 1e-18 * s:
        t *= (x / 2) ** 2 / (k * k)
        s += t
        k += 1
    return s


def profile(loc, hw, mono, fs, fsl):
    """{grid index: (weight, tolerance)} along one axis; fs, fsl: (begin, end)."""
    if mono and abs(loc - round(loc)) < EPS:
        return {round(loc): (1.0, 0.0)}, set()
    b = BETAS[hw - 1]
    f = math.floor(loc)
    w, free = {}, set()
    for g in range(f - hw + 1, f + hw + 1):
        x = g - loc
        k = i0(b * math.sqrt(max(0.0, 1 - (x / hw) ** 2))) / i0(b)
        if mono:
            v, tol = (math.sin(math.pi * x) / (math.pi * x) if x else 1.0) * k, 0.0
        else:
            v = (math.cos(math.pi * x) - math.sin(math.pi * x) / (math.pi * x)) / x * k if x else 0.0
            tol = 3.5 * min(abs(x), EPS / abs(x)) if x else 0.0
        w[g] = (v, tol)
    out = dict(w)
    for side in (0, 1):
        if not fs[side]:
            continue
        s = fsl[side]
        sgn = 1 if side == 0 else -1
        for g, (v, tol) in w.items():
            img = 2 * s - g
            if (g - s) * sgn < 0 or g == s:
                assert img == round(img)
                if g == s:
                    # a window that ends exactly at the surface: not compared
                    if not any((h - s) * sgn < 0 for h in w):
                        free.add(g)
                    out[g] = (0.0, 2 * tol)
                else:
                    o = out.get(int(img), (0.0, 0.0))
                    out[int(img)] = (o[0] - v, o[1] + tol)
        out = {g: v for g, v in out.items() if (g - s) * sgn >= 0}
    return out, free


def grid_field(loc, hw, mono, dd, fs, fsl):
    """{(y, x): (weight, tol)} and don't-care points."""
    p0, f0 = profile(loc[0], hw, mono or dd == 1, fs[:2], fsl[:2])
    p1, f1 = profile(loc[1], hw, mono or dd == 0, fs[2:], fsl[2:])
    out, free = {}, set()
    for (a, (v, s)), (b, (u, t)) in itertools.product(p0.items(), p1.items()):
        out[a, b] = (v * u, s * (abs(u) + t) + t * abs(v))
        if a in f0 or b in f1:
            free.add((a, b))
    return out, free


def check(r, key, locs, hw, fs, fsl, mono, dd, dtype, what="", amps=None, shot_idxs=None, model=True, **d):
    """locs: [shot][i] -> (y, x)."""
    from deepwave.location_interpolation import Hicks
    S, P = len(locs), len(locs[0])
    kw = dict(halfwidth=hw, dtype=dtype)
    if any(fs):
        kw.update(free_surfaces=list(fs), model_shape=list(N))
        if fsl is not None:
            kw.update(free_surface_locs=list(fsl))
    m = mono
    if isinstance(mono, list):
        m = torch.tensor(mono)
    q = dd
    if isinstance(dd, list):
        q = torch.tensor(dd)
    L = torch.tensor(locs, dtype=F64)
    keep = L.clone()
    h = Hicks(L, monopole=m, dipole_dim=q, **kw)
    fsl = fsl or (-0.5, N[0] - 0.5, -0.5, N[1] - 0.5)
    idx = list(range(S)) if shot_idxs is None else shot_idxs
    si = None if shot_idxs is None else torch.tensor(shot_idxs, dtype=torch.long)
    g = h.get_locations(si)
    nt = 2
    amp = dense((len(idx), P, nt), 0.3)
    src = h.source(amp.to(dtype), si).to(F64)
    far = max(abs(x) for row in locs for p in row for x in p)
    ftol = 3e-7 * (10 + far) if dtype == torch.float else 1e-7
    r.evaluations += 1
    r.traces += len(idx) * P
    if not torch.equal(L, keep):
        r.violate(key + ":mutated", f"{what}: locations were modified", **d)
    if g.shape != (len(idx), h.hicks_locations.shape[1], 2) or src.shape != (len(idx), g.shape[1], nt):
        r.violate(key + ":shape", f"{what}: shapes {tuple(g.shape)}, {tuple(src.shape)}", **d)
        return
    gl = g.tolist()
    for s, sh in enumerate(idx):
        pts = [tuple(x) for x in gl[s]]
        real = [x for x in pts if x != (IGNORE, IGNORE)]
        if len(set(real)) != len(real):
            r.violate(key + ":dup", f"{what}: duplicate grid locations in shot {sh}", locs=locs[sh], **d)
            return
        pos = {x: i for i, x in enumerate(pts)}
        want, tols, dont = {}, {}, set()
        fields = []
        for i in range(P):
            mi = mono[sh][i] if isinstance(mono, list) else mono
            di = dd[sh][i] if isinstance(dd, list) else dd
            f, free = grid_field(locs[sh][i], hw, mi, di, fs, fsl)
            fields.append((f, free))
            dont |= free
            for p, (v, t) in f.items():
                want[p] = want.get(p, 0) + v * amp[s, i]
                tols[p] = tols.get(p, 0) + (t + ftol) * float(amp[s, i].abs().max())
            r.states += len(f)
        got = {p: src[s, i] for p, i in pos.items() if p != (IGNORE, IGNORE)}
        for i, p in enumerate(pts):
            if p == (IGNORE, IGNORE) and float(src[s, i].abs().max()):
                r.violate(key + ":pad", f"{what}: amplitude at an unused location", **d)
        for p in set(want) | set(got):
            if p in dont:
                continue
            a = got.get(p, torch.zeros(nt))
            b = want.get(p, torch.zeros(nt))
            if not float((a - b).abs().max()) <= tols.get(p, ftol) + ftol:
                r.violate(key + ":source", f"{what}: source amplitude at grid point {p} is {a.tolist()}, expected {b.tolist()} "
                          f"for {locs[sh]}", hw=hw, fs=fs, fsl=fsl, mono=mono, dd=dd, dtype=str(dtype), **d)
                return
            r.transitions += 1
        # receivers: a dense field over the grid points
        fld = torch.tensor([[math.sin(1.3 * p[0] + 0.7 * p[1] + 0.1 * t) if p[0] > IGNORE else 0.0 for t in range(nt)]
                            for p in pts], dtype=F64).reshape(1, len(pts), nt)
        rec = h.receiver(fld.to(dtype), torch.tensor([sh])).to(F64)[0]
        for i in range(P):
            f, free = fields[i]
            w = torch.zeros(nt, dtype=F64)
            t = ftol
            slack = 0.0
            for p, (v, tol) in f.items():
                if p in pos:
                    w += v * fld[0, pos[p]]
                elif abs(v) > tol + ftol:
                    r.violate(key + ":missing", f"{what}: grid point {p} of {locs[sh][i]} is not used", **d)
                    return
                t += tol + ftol
                if p in free:
                    slack += 2.0
            if slack:
                continue
            if not float((rec[i] - w).abs().max()) <= t + ftol:
                r.violate(key + ":receiver", f"{what}: receiver {locs[sh][i]} gives {rec[i].tolist()}, expected {w.tolist()}",
                          hw=hw, fs=fs, fsl=fsl, mono=mono, dd=dd, dtype=str(dtype), **d)
                return
    r.outcome((key, hw, fs, fsl, str(mono), str(dd), [round(float(x), 7) for x in src.reshape(-1)[:64]]))


FS = list(itertools.product((False, True), repeat=4))
DT = {"double": torch.double, "float": torch.float}


def bases(hw, n):
    return sorted({0, 1, 2, hw - 1, hw, n // 2, n - 1 - hw, n - hw, n - 2, n - 1} & set(range(n)))


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for hw, dt in itertools.product(range(1, 11), ("double", "float")):
        for kind in ("m", "d0", "d1"):
            for part in range(8 if th else 2):
                out.append(dict(kind="single", hw=hw, dtype=dt, what=kind, part=part, parts=8 if th else 2, full=th))
    for hw in (1, 2, 4):
        for fs in ((False,) * 4, (True,) * 4, (True, False, False, True)):
            for k in (2, 3) if th and hw < 4 else (2,):
                for part in range(1 if k == 2 else 8):
                    out.append(dict(kind="tuples", hw=hw, fs=list(fs), k=k, part=part, parts=1 if k == 2 else 8))
    for hw in (1, 3):
        out.append(dict(kind="subsets", hw=hw))
        out.append(dict(kind="mixed", hw=hw))
    for dt in ("double", "float"):
        for hw in (1, 2, 3):
            out.append(dict(kind="propagate", hw=hw, dtype=dt))
    return out


def axis_locs(hw, n, left, right):
    """Locations along one axis: all offsets from the bases, plus the strip between
    a free surface and the outermost grid point."""
    out = []
    for b in bases(hw, n):
        out += [b + f for f in FRACS if b + f <= n - 1]
    if left:
        out += [-0.4, -0.25, -0.125, -0.0625, -0.001]
    if right:
        out += [n - 1 + f for f in (0.001, 0.0625, 0.25, 0.4)]
    return out


def single(t, r):
    hw, dt = t["hw"], DT[t["dtype"]]
    mono, dd = t["what"] == "m", 0 if t["what"] == "d0" else 1
    fsls = [None, (0.0, N[0] - 1.0, 0.0, N[1] - 1.0), (1.5, N[0] - 2.5, 2.0, N[1] - 3.0)]
    combos = list(itertools.product(FS, range(3)))
    if not t["full"]:
        combos = [(fs, k) for i, (fs, k) in enumerate(combos) if any(fs) == (k < 3) and (i + hw) % 4 == 0 or (not any(fs) and k == 0)]
    for c, (fs, k) in enumerate(combos):
        if c % t["parts"] != t["part"]:
            continue
        if k and not any(fs):
            continue
        fsl = fsls[k]
        lo = [fsl[2 * i] if fsl and fs[2 * i] else (-0.5 if fs[2 * i] else 0) for i in (0, 1)]
        hi = [fsl[2 * i + 1] if fsl and fs[2 * i + 1] else (N[i] - 0.5 if fs[2 * i + 1] else N[i] - 1) for i in (0, 1)]
        A = [[x for x in axis_locs(hw, N[i], fs[2 * i] and k == 0, fs[2 * i + 1] and k == 0) if lo[i] <= x <= hi[i]]
             for i in (0, 1)]
        if not any(fs):
            A = [a + [1000.3, 999.9375] for a in A]
        # every location of axis 0 with a rotating partner of axis 1 and vice versa
        m = max(len(A[0]), len(A[1]))
        L = [(A[0][i % len(A[0])], A[1][(7 * i + 3) % len(A[1])]) for i in range(m)]
        if hw > 1 and not t["full"]:
            k = 2 if hw < 7 else 4
            L = L[(c + hw) % k::k]
        # one location per shot: no merging, weights still computed in sequence
        check(r, "single", [[list(x)] for x in L], hw, fs, fsl, mono, dd, dt, "single location")
        if r.violations:
            return
    r.sample = {"locations": L[:4]}


def tuples(t, r):
    hw, fs = t["hw"], tuple(t["fs"])
    c = [(5.0, 6.0), (5.3, 6.0), (5.3, 6.7), (0.3, 6.7), (0.3, 0.7), (1.25, 1.25), (6.3, 7.7), (5.30001, 6.7),
         (22.7, 23.3), (3.3, 3.7), (-0.3 if fs[0] else 0.1, 5.5), (12.5, 12.5), (5.299, 6.701), (22.999, 0.4)]
    for n, tup in enumerate(itertools.product(c, repeat=t["k"])):
        if n % t["parts"] != t["part"]:
            continue
        check(r, "tuple", [[list(x) for x in tup]], hw, fs, None, True, 0, torch.double, "locations of one shot")
        if t["k"] == 2:
            check(r, "pair", [[list(x)] for x in tup], hw, fs, None, True, 0, torch.double, "locations of two shots")
            check(r, "pair-dipole", [[list(x)] for x in tup], hw, fs, None, [[True], [False]], 0, torch.double,
                  "a monopole and a dipole")
        if r.violations:
            return


def subsets(t, r):
    locs = [[[3.3, 4.5], [3.0, 4.0]], [[10.25, 11.5], [9.5, 11.25]], [[5.0, 5.0], [5.5, 5.0]]]
    for L in range(1, 4):
        for idx in itertools.product(range(3), repeat=L):
            for fs in ((False,) * 4, (True, False, True, False)):
                check(r, "subset", locs, t["hw"], fs, None, True, 0, torch.double, "selected shots", shot_idxs=list(idx))


def mixed(t, r):
    locs = [[[3.3, 4.5], [3.0, 4.0]], [[10.25, 11.5], [0.5, 11.25]]]
    for m in itertools.product((True, False), repeat=4):
        for d in itertools.product((0, 1), repeat=4):
            check(r, "mixed", locs, t["hw"], (True, False, False, False), None, [list(m[:2]), list(m[2:])],
                  [list(d[:2]), list(d[2:])], torch.double, "mixed monopoles and dipoles")


def propagate(t, r):
    """End to end: off-grid sources and receivers through the scalar propagator equal the
    reference with the defined grid weights."""
    from deepwave.location_interpolation import Hicks
    hw = t["hw"]
    cfg = Cfg(dict(pde="scalar", n=[11, 10], pml=[0, 2, 1, 0], acc=4, dtype=t["dtype"]))
    nt = 5
    for case, (sl, rl) in enumerate([([[4.3, 4.6], [4.3, 4.6]], [[5.25, 5.5], [4.0, 4.0]]),
                                     ([[3.5, 5.0], [5.2, 3.3]], [[5.9, 4.7], [3.1, 5.3]])]):
        m = cfg.models()
        hs, hr = (Hicks(torch.tensor([x], dtype=F64), halfwidth=hw, dtype=cfg.dtype) for x in (sl, rl))
        amp = dense((1, 2, nt), 0.9)
        f, rec = call(cfg, m, nt, {"": hs.source(amp.to(cfg.dtype))}, {"": hs.get_locations()}, {"": hr.get_locations()}, {})
        got = hr.receiver(rec[""])
        ga, gl = {}, []
        for i, x in enumerate(sl):
            for p, (v, _) in grid_field(x, hw, True, 0, (False,) * 4, (0, 0, 0, 0))[0].items():
                ga[p] = ga.get(p, 0) + v * amp[0, i]
        gl = sorted(ga)
        A = torch.stack([ga[p] for p in gl])[None]
        al = cfg.all_locs("")
        _, wr = cfg.ref().run(m, nt, 1, {"": A}, {"": torch.tensor([gl])}, {"": al[None]}, {})
        col = {tuple(x): i for i, x in enumerate(al.tolist())}
        want = torch.zeros(1, 2, nt, dtype=F64)
        for i, x in enumerate(rl):
            for p, (v, _) in grid_field(x, hw, True, 0, (False,) * 4, (0, 0, 0, 0))[0].items():
                want[0, i] += v * wr[""][0, col[p]]
        r.close("propagate", got, want, max(cfg.tol, 1e-7), "interpolated receiver data", hw=hw, sources=sl, receivers=rl)
        r.traces += 1
        r.transitions += nt
        r.evaluations += 1


def run(t, r, tier, seed):
    {"single": single, "tuples": tuples, "subsets": subsets, "mixed": mixed, "propagate": propagate}[t["kind"]](t, r)
